"""Static description of the checks (evidence)"""
REAL_A=["libmewa type database (typedb.cpp, scope.hpp, identmap.hpp, tree.hpp, memory_resource.hpp)","Lua binding (lualib_mewa.cpp, lua_parameter.cpp, lua_object_reference.hpp, ...)","Lua 5.2 interpreter and garbage collector"]
STUB_A=["memory allocator (seeded arena with fault injection)","thread scheduler (seeded token passing)","clock"]
RULE_A="Seeded random sequences of typedb calls over nested scopes, several databases and Lua states, with seeded garbage collections, emergency collections, heap layouts, initial memory sizes, hash seeds and (by property) failing allocations and invalid calls; every observed result compared with a reference model or a run without disturbance. Every case performs definitions and lookups."
ASS_A=["scopes used for definitions of the same table are non-empty and either disjoint or nested (documented precondition)"]
INFO={}
for p in "T01 T02 T03 T04 T05 T06 T08 T09 T10".split(): INFO[p]={"level":"exploration","rule":RULE_A,"real":REAL_A,"stub":STUB_A,"assumptions":ASS_A}
INFO["T07"]=dict(INFO["T01"]); INFO["T07"]["level"]="exploration"
INFO["T07"]["assumptions"]=ASS_A+["allocations of new vectors inside the Lua interpreter are not failed: a table of Lua 5.2 itself loses elements if the allocation of its new hash part fails"]
INFO["T10"]=dict(INFO["T01"]); INFO["T10"]["rule"]="Seeded random sequences of typedb calls (valid, invalid, with failing C++ allocations, databases destroyed at any point, all storage sizes) and histories of compiler runs (successful, failing at any point, with failing C++ allocations); all blocks allocated by the code under test are tracked, none may remain when the states are closed."
INFO["T10"]["assumptions"]=ASS_A+["the exception objects abandoned by each raised error (known finding) are released by the harness","failing allocations of the Lua interpreter are not injected"]
REAL_B=["program mewa (in process, generating the automaton)","automaton_parser, automaton, automaton_structs, lexer","compiler run (lua_run_compiler.cpp, lua_load_automaton.cpp, lualib_mewa.cpp, fileio.cpp)","Lua 5.2 interpreter and garbage collector"]
STUB_B=["memory allocator","disk I/O layer below stdio (seeded short, failing, torn operations)","clock"]
for p in "C01 C02 C03 C04 C05 C06 C07 G05".split():
    INFO[p]={"level":"exploration","rule":"Seeded random grammars, sentences derived from them (so the tree is known), callbacks, histories of compiler runs.","real":REAL_B,"stub":STUB_B,"assumptions":[]}
REAL_C=["program mewa as whole (main, options, fileio.cpp, automaton_parser.cpp, automaton.cpp, lexer.cpp, *_tostring.cpp), started in simulated processes","generated Lua loaded with the Lua 5.2 interpreter"]
STUB_C=["memory allocator (seeded arena with fault injection)","disk I/O layer below stdio (seeded failing, short, torn operations, full device, crash)","clock","environment"]
def g(p,rule,real,stub,ass): INFO[p]={"level":"exploration","rule":rule,"real":real,"stub":stub,"assumptions":ass}
g("G01","Seeded random grammars (LALR(1) by construction and general ones, with priorities), run through the real chain of generator, table file, loader and compiler; sentences derived from the grammar and mutations of them, each text judged by an independent reference parser with the derivation known.",REAL_B,STUB_B,["texts of bounded length"])
g("G02","Seeded random grammars: conflict-free ones, arbitrary ones judged by an independent LALR(1) construction, and malformed ones; each given to simulated processes of the program with several commands.",REAL_C,STUB_C,["grammars where several reductions compete with a shift that has a priority are not judged"])
g("G03","Seeded random grammars and program invocations, each with injected failures (open, read, write, close errors, short operations, full device, closed stdout, crash, failing allocations) and repeated afterwards without.",REAL_C,STUB_C,["errors printed to stderr are not failed"])
g("G04","Seeded random grammars and program invocations, each repeated with different heap layouts, environment, time, process history, read splitting and option spelling.",REAL_C,STUB_C,[])
g("G06","Grammar files written by an own writer from known declarations with random spelling, order, comments and attributes; the output is loaded and compared with the declarations.",REAL_C,STUB_C,["backslashes in strings of the generated table are escape sequences of Lua, only valid ones are used"])

#!/usr/bin/env python3
# Source of properties.jsonl (kept as Python for readability). Run: python3 tools/genprops.py > properties.jsonl
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[observe]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m) for n,m in state]
    if hook: d["anchors"]["hook_needed"]=hook
    P.append(d)

prop("T01","Scoped instances resolve to the innermost enclosing definition",
 "At every point of any history of set_instance calls, get_instance(name) returns exactly the value most recently set for that name in the innermost scope that contains the current scope-step, and nothing when no scope that defines the name contains the step; this_instance(name) returns exactly the value last set for the current scope and nothing else. Setting an instance in one scope never changes what any other scope, name or typedb sees. The current scope and step are exactly those last set with scope() or step().",
 ["histories","inputs","schedules"],"All histories of scope/step changes and set/get calls over any laminar family (disjoint or properly nested) of non-empty scopes and any names, in any order of definition, interleaved with other sessions, garbage collection and storage growth.",
 "The tests define scopes in one fixed or one randomised order on a C++ class and check a final state; they never interleave redefinition, growth and lookups through the Lua API, nor several databases.",
 ["src/scope.hpp","src/typedb.cpp","src/lualib_mewa.cpp"],
 [("ScopedInstance","src/scope.hpp"),("setObjectInstance/getObjectInstance","src/typedb.cpp"),("mewa_typedb_set_instance/get_instance/this_instance/scope/step","src/lualib_mewa.cpp")],
 "values returned by typedb:get_instance, typedb:this_instance, typedb:scope and typedb:step in Lua")

prop("T02","Type definitions: identity, duplicates, overloads, aliases and accessors",
 "def_type returns a fresh positive handle unless a type with the same context type, name and parameter types is already defined in exactly the current scope, in which case it returns -1 and changes nothing that can be observed; def_type_as makes a name an alias once per scope, context type and name. For ever after, type_name, type_context, type_string, type_scope, type_constructor, type_parameters and type_nof_parameters of a handle report exactly what was given at its definition. this_type and this_types report exactly the overloads defined in exactly the current scope, in definition order.",
 ["histories","inputs","schedules"],"All histories of type definitions, aliases and lookups over any scopes, contexts, names and parameter lists, with any storage size and any interleaving with other sessions and collections.",
 "Tests check a few handles and one dump of a small database; that no later definition ever changes what an earlier handle reports is a statement about all histories.",
 ["src/typedb.cpp","src/typedb.hpp","src/identmap.hpp","src/scope.hpp","src/lualib_mewa.cpp"],
 [("defineType/defineTypeAs/getType/getTypes","src/typedb.cpp"),("ScopedMap::getOrSet/set/getDef","src/scope.hpp"),("IdentMap","src/identmap.hpp")],
 "results of the typedb type definition, lookup and accessor methods in Lua")

prop("T03","Reductions are visible by scope and tag, inner scope first, without duplicates",
 "get_reductions lists, and get_reduction finds, exactly the reductions of the from-type defined in scopes that contain the current step and whose tag is selected; for each target type the definition of the innermost such scope wins, and among several selected tags defined there the one defined first. A reduction with a constructor that was already defined in the same scope with the same types and tag is rejected with an error, a repetition without constructor is ignored, and a reduction from a type to itself is an error; a rejected or ignored definition has no effect. The weight, constructor and count flag reported are those of the winning definition.",
 ["histories","inputs","schedules"],"All histories of reduction definitions and lookups over any laminar scopes, types, tags, tag masks and steps, interleaved with other sessions, collections and storage growth.",
 "Tests use one randomised C++ test of the relation map on a final state and a few hand written lookups; shadowing combined with tags and any definition order needs all histories.",
 ["src/scope.hpp","src/typedb.cpp","src/lualib_mewa.cpp"],
 [("ScopedRelationMap","src/scope.hpp"),("defineReduction/getReduction/getReductions","src/typedb.cpp")],
 "results of typedb:def_reduction, get_reduction, get_reductions in Lua")

prop("T04","derive_type finds the cheapest permitted reduction path and reports ambiguity",
 "derive_type returns a path from the source to the target type if and only if one exists that uses only reductions visible at the current step and selected by the tag mask, visits no type twice, and uses at most the permitted number of counted reductions (-1 means unlimited); the returned path is such a path with the constructors of its reductions, its weight is the sum of its weights, and no permitted path is cheaper. A conflict path is returned as third value if and only if another permitted path has the same weight.",
 ["histories","inputs","schedules"],"All histories of definitions, all pairs of types, tag masks, count masks and length limits, at any step, on reduction graphs with cycles, parallel paths and ties.",
 "Tests derive a handful of types in two fixed graphs, or compare a final state in one random generator without limits or ties.",
 ["src/typedb.cpp","src/scope.hpp","src/lualib_mewa.cpp","src/lua_parameter.cpp"],
 [("deriveType","src/typedb.cpp"),("ReduStack","src/typedb.cpp"),("ScopedRelationMap::get","src/scope.hpp")],
 "the up to three results of typedb:derive_type in Lua")

prop("T05","resolve_type finds the nearest context and all overloads, or reports the tie",
 "resolve_type returns the context type at minimal total weight, reachable from a given context (or one of the contexts listed) by visible selected reductions, in which the name is visible at the current step, together with a path to it (prefixed by the originating item when a list of type/constructor pairs was given) and all overloads of the name visible there in definition order. If a second context (or the same context by another path) has the same minimal weight, the two contexts are returned as a pair and no items; if the name is not reachable, nothing is returned.",
 ["histories","inputs","schedules"],"All histories of type, alias and reduction definitions, all context types and lists of contexts, names, tag masks and steps.",
 "Tests resolve a few names in one fixed hierarchy; the choice of the nearest context and of the innermost overload set depends on the whole definition history.",
 ["src/typedb.cpp","src/scope.hpp","src/lualib_mewa.cpp","src/lua_parameter.cpp"],
 [("resolveType_","src/typedb.cpp"),("pushResolveResult","src/lua_parameter.cpp"),("ScopedMap::get","src/scope.hpp")],
 "the results of typedb:resolve_type in Lua")

prop("T06","Introspection trees are faithful snapshots of all definitions",
 "type_tree, reduction_tree and instance_tree enumerate every definition made so far exactly once, each at the node of its scope, with every node nested below the smallest enclosing scope that has a node; every iteration over children and lists terminates and can be repeated. A tree taken at one moment stays valid and unchanged whatever is defined, collected or destroyed afterwards, the database included.",
 ["histories","schedules"],"All histories of definitions in laminar scopes in any order, with traversals interleaved with further definitions, partial traversals dropped at any point, and collections.",
 "Tests print one small tree whose nodes mostly have single children.",
 ["src/tree.hpp","src/scope.hpp","src/typedb.cpp","src/lualib_mewa.cpp","src/lua_userdata.hpp"],
 [("ScopeHierarchyTree builders (getTree)","src/scope.hpp"),("LuaTreeMetaMethods","src/lualib_mewa.cpp"),("shared_ptr","src/lua_userdata.hpp")],
 "values delivered by the iterators and methods of the tree objects in Lua")

prop("T07","A failed typedb call raises an error and changes nothing",
 "Whenever a call on a typedb fails, because of an invalid argument or because any single memory allocation inside it fails, it raises an ordinary catchable Lua error and the database, including its current scope and step, answers every later query exactly as if the failed call had never been made. The process never terminates, hangs or corrupts memory because of it, and a repetition of the call with valid arguments and enough memory succeeds.",
 ["histories","fault_sequences","inputs"],"All histories, all calls in them, all invalid argument shapes and every allocation in the call as the point of failure.",
 "No test injects an allocation failure, and error paths are tested only for their message.",
 ["src/typedb.cpp","src/scope.hpp","src/identmap.hpp","src/memory_resource.hpp","src/lua_parameter.cpp","src/lualib_mewa.cpp"],
 [("TypeDatabase mutators","src/typedb.cpp"),("ScopedMap/ScopedInstance/ScopedRelationMap set","src/scope.hpp"),("IdentMap::get","src/identmap.hpp"),("lippincottFunction","src/lualib_mewa.cpp")],
 "Lua error status of the failed call and results of all later calls")

prop("T08","Results do not depend on storage, heap layout or garbage collection",
 "For every history the results are the same whatever the initial storage size of the database (including so small that all of it overflows to the heap), the heap layout, and the points at which garbage collection runs. A value handed to the database stays alive and is returned as the identical object as long as the database can return it. No call touches memory it does not own, not even a call with an object that has already been finalized.",
 ["histories","configurations","schedules"],"All histories, all storage sizes, all allocator layouts and reuse policies, all collection schedules.",
 "Tests run with one storage size and one collection schedule per binary and never force a collection between two calls.",
 ["src/memory_resource.hpp","src/typedb.hpp","src/identmap.hpp","src/scope.hpp","src/lua_parameter.cpp","src/lualib_mewa.cpp"],
 [("monotonic_buffer_resource","src/memory_resource.hpp"),("TypeDatabase::Memory","src/typedb.hpp"),("IdentKeyEnvelop/IdentMap","src/identmap.hpp"),("registry references of constructors and instances","src/lua_parameter.cpp")],
 "all results of typedb calls; memory error detector; identity of returned Lua values",
 hook="initial storage size of the type database created from Lua")

prop("T09","Sessions are isolated from each other",
 "Two type databases or compilers, in the same Lua state or in different Lua states, never influence each other: the results and outputs of each session are the same as if it had run alone, whatever the interleaving of their calls and of the steps inside them. Destroying one session at any moment leaves the others intact.",
 ["schedules","histories"],"All interleavings of calls, allocations, I/O operations and callbacks of up to several sessions, with sessions created and destroyed at any point.",
 "Every test runs one session at a time.",
 ["src/lualib_mewa.cpp","src/lua_userdata.hpp","src/typedb.cpp","src/lua_run_compiler.cpp","src/error.cpp"],
 [("CallTableName counter and mewa.calls.N globals","src/lua_userdata.hpp"),("print/debug redirection","src/lualib_mewa.cpp"),("static state","src/*.cpp")],
 "results and outputs of every session under interleaving compared with its serial run")

prop("T10","Memory is released",
 "Everything a type database, an introspection tree or a compiler allocates is released at the latest when it is destroyed, and what a call needs temporarily when the call ends, whether it succeeds or fails because of invalid arguments, an error raised in a callback or a failing allocation. After all databases, trees, compilers and Lua states of any history are closed, no memory allocated by mewa remains, so that the number of sessions and calls in one process is not limited by what earlier ones left behind.",
 ["histories","fault sequences"],"All histories of calls of databases, trees and compilers, successful and failed, with databases and compilers destroyed at any point, any storage size, and any C++ allocation failing.",
 "No test looks at memory left behind; the leaks depend on sizes (initial storage exceeded), on the point of the failure and on the order of destruction.",
 ["src/memory_resource.hpp","src/typedb.hpp","src/lua_userdata.hpp","src/lualib_mewa.cpp","src/lua_run_compiler.cpp"],
 [("monotonic_buffer_resource","src/memory_resource.hpp"),("destroy methods of the userdata objects, shared_ptr","src/lua_userdata.hpp"),("mewa_compiler_run","src/lualib_mewa.cpp")],
 "the blocks of the allocator still in use when all Lua states are closed")

prop("C01","The abstract syntax tree is exactly the parse of the source",
 "For every source text accepted by the grammar, compiler:run calls the functions attached to the productions for exactly the top-level nodes of the syntax tree, once each and in source order, with the tree in which every production with a call forms one node, its children in source order, productions without a call are transparent, keywords are left out, and every lexeme carries its name, value and line. The call objects and their argument objects are those of the grammar, and the options object is passed through.",
 ["programs","inputs","schedules"],"All generated grammars, all their sentences in any layout of white space, comments and line breaks, all collection schedules and interleavings with other sessions.",
 "Tests compile a dozen hand written programs in two languages and compare the text output.",
 ["src/lua_run_compiler.cpp","src/lexer.cpp","src/lua_load_automaton.cpp","src/lualib_mewa.cpp"],
 [("luaRunCompiler reduce/callLuaNodeFunction","src/lua_run_compiler.cpp"),("luaLoadAutomaton","src/lua_load_automaton.cpp")],
 "the node tables received by Lua callback functions")

prop("C02","Scope and step numbers of the syntax tree nodes",
 "The scope-steps assigned while parsing never decrease in source order and increase by exactly one for each production marked as step or scope; a node marked as scope carries the half open interval from the step at the start of its text to the step at its end, so the scopes of one run form a properly nested family in which a node's scope contains all steps and scopes of its descendants; every other node carries the step valid at its end. Numbering restarts with every run.",
 ["programs","inputs","histories"],"All generated grammars with any placement of step and scope marks, including productions that derive the empty word, and all their sentences.",
 "Two hand written grammars are tested by their generated code only.",
 ["src/lua_run_compiler.cpp","src/automaton_parser.cpp","src/automaton.hpp"],
 [("scope handling in the LALR reduce step","src/lua_run_compiler.cpp"),("Action/Call scope flags","src/automaton.hpp")],
 "fields step and scope of node tables received by callbacks")

prop("C03","Syntax errors are reported at the first offending token and nothing is compiled",
 "For every source text that is not a sentence of the grammar, compiler:run raises a Lua error naming the line of the first token that cannot continue any sentence and the unexpected token (or a bad character, or end of file), and listing as expected only tokens of the grammar, never the offending one; no callback function is called and no output is written. No input makes it crash, hang, or be accepted.",
 ["inputs","programs"],"All generated grammars, all mutations of their sentences: deleted, inserted, replaced, truncated tokens and arbitrary bytes.",
 "Two or three error inputs are tested; that every ill-formed text is refused cannot be sampled by hand written files.",
 ["src/lua_run_compiler.cpp","src/lexer.cpp","src/error.cpp"],
 [("error reporting in luaRunCompiler","src/lua_run_compiler.cpp"),("Lexer bad token","src/lexer.cpp")],
 "error raised by compiler:run, callbacks called, files written")

prop("C04","Tokenisation follows the lexer definition",
 "The token sequence handed to the parser is the one given by the lexer definition: at each position comments and ignored text are skipped, the longest match wins, ties go to keywords and then to the first definition, the selected subexpression is the value, and the line of each token is the line on which it starts. With indentation tokens defined, each change of indentation of a non-empty line yields exactly the matching open, close and new-item tokens, all opened levels are closed at the end, and empty or comment lines yield none.",
 ["inputs","configurations"],"All generated lexer definitions (keywords, overlapping patterns, comments, indentation and tabulator sizes) and all texts over their alphabets.",
 "One fixed list of tokens and one indentation example are tested.",
 ["src/lexer.cpp","src/lexer.hpp"],
 [("Scanner and Lexer::next","src/lexer.cpp"),("IndentLexems","src/lexer.cpp")],
 "lexemes received by callbacks of list-of-token grammars, and debug output")

prop("C05","Output is assembled exactly from what the program printed",
 "When a run succeeds, its output is exactly the template with every section variable replaced by the concatenation, in call order, of everything printed to that section during this run, the default print being appended to the section Code and the source and target names filled in as Source and Triple; a reference to an undefined section becomes empty and any other text is copied. Without target template there is no output text. Every byte printed arrives once, at the selected destination (file, stdout or stderr).",
 ["histories","inputs","configurations"],"All sequences of print and print_section calls with any values and sections, all templates and destinations, all collection schedules.",
 "Tests compare outputs of a few programs with one template.",
 ["src/lualib_mewa.cpp","src/strings.cpp","src/fileio.cpp"],
 [("append_printbuffer/lua_print_redirected/lua_print_section_redirected","src/lualib_mewa.cpp"),("template_format","src/strings.cpp"),("writeFile","src/fileio.cpp")],
 "bytes in the output file, stdout or stderr")

prop("C06","Every compiler run starts clean and restores the environment",
 "The output of a run depends only on its grammar, source, template, options and callbacks: the n-th run of a compiler object yields the same as a fresh compiler, whatever runs, successful or failed, went before. After every run, whether it returned or raised an error, print and the other globals it redirected are again what they were before, and all files it opened are closed. A redirected function that a callback kept for later has no effect on any other run, not even after its compiler has been destroyed.",
 ["histories","fault_sequences","schedules"],"All sequences of runs of several compiler objects, including nested runs, failing at any point: missing files, syntax errors, callback errors, write errors; with collections in between.",
 "Every test performs one successful run in a fresh process.",
 ["src/lualib_mewa.cpp","src/lua_userdata.hpp"],
 [("mewa_compiler_run","src/lualib_mewa.cpp"),("mewa_compiler_userdata_t","src/lua_userdata.hpp")],
 "output of later runs, identity of the globals print, print_section and debug, open file handles")

prop("C07","Errors raised in callbacks reach the caller unchanged and stop the run",
 "If a callback raises an error at any point, compiler:run raises an error whose message contains the original message (for an error of the library: its code, text and argument, the location completed), calls no further callback and writes no output; the compiler and the Lua state remain usable. This includes errors raised by the library itself inside a callback and memory exhaustion at any allocation.",
 ["fault_sequences","programs","schedules"],"All grammars, sentences and every callback or allocation as the failing point, with any error value.",
 "No test lets a callback fail.",
 ["src/lua_run_compiler.cpp","src/lualib_mewa.cpp","src/error.cpp"],
 [("callLuaNodeFunction","src/lua_run_compiler.cpp"),("lippincottFunction","src/lualib_mewa.cpp"),("Error","src/error.cpp")],
 "error value caught by pcall around compiler:run")

prop("G01","The generated parser accepts exactly the language of the grammar",
 "Whenever the generator accepts a grammar, the generated tables loaded into a compiler accept every sentence of the grammar, with exactly its derivation as tree, and reject every other token sequence; left and right associativity and priorities written in the grammar select the tree where the grammar alone is ambiguous. This holds through the whole chain of reading the grammar, generating, loading and compiling.",
 ["programs","inputs"],"All generated grammars with recursion, nullable and unit productions and priority declarations, and all sentences and near-sentences of bounded length.",
 "Four fixed grammars are tested.",
 ["src/automaton.cpp","src/automaton_parser.cpp","src/automaton_structs.hpp","src/automaton.hpp","src/lua_load_automaton.cpp","src/lua_run_compiler.cpp","src/mewa.cpp"],
 [("Automaton::build","src/automaton.cpp"),("printAutomaton","src/mewa.cpp"),("luaLoadAutomaton","src/lua_load_automaton.cpp")],
 "generated table file, trees received by callbacks, errors raised")

prop("G02","Conflicting or malformed grammars are refused and valid ones accepted",
 "For every grammar that is not LALR(1) (for example because it is ambiguous) and whose conflicts are not resolved by priorities, and for every grammar with an undefined symbol, a symbol never referenced, a duplicate, a declaration outside of the limits, or a syntax error, the generator ends with a non-zero exit code, a diagnostic, and no generated output, leaving an existing output file as it was. Every well-formed grammar that is LALR(1), where shift/reduce conflicts may be resolved by priorities, is accepted with exit code zero and its tables can be loaded. A check without output gives the same verdict.",
 ["programs","inputs"],"All generated grammars, conflicting and conflict-free, well-formed and corrupted at any position.",
 "A few fixed conflicts are tested on C++ level.",
 ["src/automaton.cpp","src/automaton_parser.cpp","src/mewa.cpp"],
 [("insertAction conflict handling","src/automaton.cpp"),("parseLanguageDef","src/automaton_parser.cpp")],
 "exit code, stderr and output file of the mewa program")

prop("G03","The generator never reports success for incomplete output",
 "If the mewa program exits with code zero, its output file or stdout holds the complete, correct output; whenever opening, reading, writing or closing a file fails or the device is full at any point, it exits non-zero with a diagnostic, and does not crash or hang. After a crash or failure at any point, running it again on intact inputs produces the correct output whatever was left behind.",
 ["fault_sequences","crash_points"],"Every I/O operation of a generator run as point of failure, with open errors, read errors, short reads, partial writes, full device, error at close, and crash; for any grammar, template and output destination.",
 "No test injects an I/O error.",
 ["src/mewa.cpp","src/fileio.cpp"],
 [("main","src/mewa.cpp"),("readFile/writeFile","src/fileio.cpp")],
 "exit code, stderr and files after each simulated process")

prop("G04","Generated output is a function of the input only",
 "The generator produces byte-identical output for the same grammar, options and template in every execution, independent of heap addresses and layout, environment, time, and what else ran before in the process; loading it yields a compiler that prints the same definition.",
 ["configurations","schedules"],"All generated grammars under all allocator layouts, hash seeds, and histories of earlier executions.",
 "Tests compare one output on one machine.",
 ["src/automaton.cpp","src/mewa.cpp","src/languagedef_tostring.cpp"],
 [("iteration over hash maps in automaton construction","src/automaton.cpp"),("printAutomaton","src/mewa.cpp")],
 "bytes of generated files")

prop("G05","A compiler run reads and writes files faithfully or fails",
 "compiler:run compiles exactly the bytes of the source file and of the template, whatever the sizes and however the reads are split; if any open, read, write or close of the source, template, output or debug file fails, or a device is full, it raises a Lua error instead of compiling a truncated text or reporting success for a truncated output. No file handle stays open after the run and a following run without fault succeeds.",
 ["fault_sequences","inputs"],"Every I/O operation of a run as point of failure, all fault kinds, all file sizes around buffer boundaries, any destination.",
 "No test injects an I/O error in a run.",
 ["src/fileio.cpp","src/lualib_mewa.cpp","src/lua_userdata.hpp"],
 [("readFile/writeFile","src/fileio.cpp"),("mewa_compiler_run output","src/lualib_mewa.cpp")],
 "error status of compiler:run, bytes of output files, open handles")

prop("G06","Language descriptions and stubs list exactly what the grammar declares",
 "The Lua table printed by -l is valid Lua and lists exactly the declarations of the grammar file, each with all its elements, the line of its declaration, and the attributes written in the comments before it with exactly their text; the stub printed by -s is valid Lua and declares exactly the functions referenced by the grammar; a compiler generated with -g is the template with each key replaced by its value. This holds for every way to write the same declarations: quoting, spacing, order, alternatives, comment styles and special characters.",
 ["programs","inputs"],"All generated grammar files, all placements and contents of comments and attributes, all strings in both quotings, all templates.",
 "One grammar file is compared with one expected output.",
 ["src/languagedef_tostring.cpp","src/automaton_parser.cpp","src/automaton_tostring.cpp","src/mewa.cpp","src/languagedef.hpp"],
 [("printLuaLanguageDefinition","src/languagedef_tostring.cpp"),("parseLanguageDecoratorMap","src/automaton_parser.cpp"),("printLuaTypeSystemStub","src/automaton_parser.cpp"),("mapTemplate","src/mewa.cpp")],
 "output of the mewa program, loaded as Lua")

# pure functions: listed, not claimed
prop("P01","LLVM hexadecimal encodings of floating point numbers",
 "mewa.llvm_double_tohex and mewa.llvm_float_tohex return the encoding LLVM IR expects of exactly the given number, the float variant correctly rounded to single precision.",
 ["inputs"],"All floating point numbers.","A few numbers are used by the example language.",
 ["src/lualib_mewa.cpp"],[("mewa_llvm_float_tohex/mewa_llvm_double_tohex","src/lualib_mewa.cpp")],"returned string")
prop("P02","Rendering of Lua values as text is faithful",
 "mewa.tostring renders every acyclic value such that strings are quoted and escaped, nested tables are complete up to the depth limit, and evaluating the rendering as Lua yields an equal value.",
 ["inputs"],"All Lua values.","A few values are printed in tests.",
 ["src/lua_serialize.cpp"],[("luaToString","src/lua_serialize.cpp")],"returned string")
for d in P: print(json.dumps(d,ensure_ascii=False))

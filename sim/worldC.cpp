// World C: executions of the generator. Real code: the whole program mewa, each execution in a simulated process of its own.
#include "ggen.hpp"
#include <cstdio>
#include <memory>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
using namespace sim;
using namespace gr;
extern "C" int luaopen_mewa( lua_State* ls);
int mewa_program_main( int argc, const char* argv[]);
extern "C" void simSetTime( uint64_t t);
extern "C" void simSetEnv( int mode);

namespace {
// ---------------------------------------------------------------- exact verdict on a grammar: LALR(1) with priorities
struct Verdict
{
	int kind = 0;		// 1 accepted, -1 refused, 0 not decided here
	std::string why;
	int resolved = 0;
	bool shared = false;	// conflict only if the lookahead of an item is shared by all items of the same nonterminal in a state
};
struct Cell {std::set<int> red, shift;};
typedef std::map<std::set<int>,std::map<int,Cell> > Table;
// the LALR(1) states: canonical LR(1) states merged if they have the same core
bool lalrTable( const Gram& g, const Analysis& a, int maxStates, Table& merged)
{
	typedef std::vector<std::pair<int,int> > Items;
	std::map<Items,int> ids;
	std::vector<Items> kernels;
	auto add = [&]( const Items& k) {auto i = ids.insert( {k,(int)kernels.size()}); if (i.second) kernels.push_back( k);};
	add( Items{{0,END}});
	size_t work = 0;
	for (size_t si=0; si<kernels.size(); ++si)
	{
		if ((int)kernels.size() > maxStates || work > 600000) return false;
		std::set<std::pair<int,int> > cl( kernels[si].begin(), kernels[si].end());
		std::vector<std::pair<int,int> > w( cl.begin(), cl.end());
		while (!w.empty())
		{
			auto it = w.back(); w.pop_back();
			const Prod& p = g.prods[ it.first/32];
			size_t d = it.first%32;
			if (d >= p.rhs.size() || p.rhs[d] < NT) continue;
			std::set<int> la;
			bool nul = true;
			for (size_t k=d+1; k<p.rhs.size() && nul; ++k)
			{
				if (p.rhs[k] < NT) {la.insert( p.rhs[k]); nul = false;}
				else {la.insert( a.first[p.rhs[k]-NT].begin(), a.first[p.rhs[k]-NT].end()); nul = a.nullable[p.rhs[k]-NT];}
			}
			if (nul) la.insert( it.second);
			for (int q : a.byLhs[ p.rhs[d]-NT]) for (int l : la) {std::pair<int,int> ni( q*32, l); if (cl.insert( ni).second) w.push_back( ni);}
		}
		work += cl.size();
		std::set<int> core;
		for (auto& k : kernels[si]) core.insert( k.first);
		auto& m = merged[ core];
		std::map<int,Items> next;
		for (auto& it : cl)
		{
			int pi = it.first/32; const Prod& p = g.prods[pi]; size_t d = it.first%32;
			if (d >= p.rhs.size()) m[it.second].red.insert( pi);
			else {next[p.rhs[d]].push_back( {it.first+1,it.second}); if (p.rhs[d] < NT) m[p.rhs[d]].shift.insert( pi);}
		}
		for (auto& nx : next) add( nx.second);
	}
	return true;
}
// the table mewa builds (see known findings): the lookahead of an item A -> x . y is shared by all items of A in the same state,
// and the end of the text is in the lookahead of everything followed by a nonterminal that can be empty
bool sharedLookaheadTable( const Gram& g, const Analysis& a, int maxStates, Table& merged)
{
	typedef std::map<int,std::set<int> > Items;
	size_t work = 0;
	auto closure = [&]( const Items& k) {
		std::set<int> cl;
		std::vector<int> w;
		for (auto& i : k) {cl.insert( i.first); w.push_back( i.first);}
		while (!w.empty())
		{
			int it = w.back(); w.pop_back();
			const Prod& p = g.prods[ it/32];
			if ((size_t)(it%32) >= p.rhs.size() || p.rhs[it%32] < NT) continue;
			for (int q : a.byLhs[ p.rhs[it%32]-NT]) if (cl.insert( q*32).second) w.push_back( q*32);
		}
		std::map<int,std::set<int> > la;
		for (auto& i : k) la[ g.prods[ i.first/32].lhs].insert( i.second.begin(), i.second.end());
		std::vector<std::pair<int,int> > inherit;
		for (int it : cl)
		{
			const Prod& p = g.prods[ it/32];
			size_t d = it%32;
			if (d >= p.rhs.size() || p.rhs[d] < NT) continue;
			bool nul = true;
			std::set<int>& f = la[ p.rhs[d]];
			for (size_t k=d+1; k<p.rhs.size() && nul; ++k)
			{
				if (p.rhs[k] < NT) {f.insert( p.rhs[k]); nul = false;}
				else {f.insert( a.first[p.rhs[k]-NT].begin(), a.first[p.rhs[k]-NT].end()); nul = a.nullable[p.rhs[k]-NT]; if (nul) f.insert( END);}
			}
			if (nul) inherit.push_back( {p.lhs,p.rhs[d]});
		}
		for (bool ch = true; ch;)
		{
			ch = false;
			for (auto& i : inherit)
			{
				std::set<int>& to = la[ i.second]; size_t n = to.size();
				const std::set<int> from = la[ i.first];
				to.insert( from.begin(), from.end());
				if (to.size() != n) ch = true;
			}
		}
		Items rt;
		for (int it : cl) rt[it] = la[ g.prods[it/32].lhs];
		for (auto& i : rt) work += i.second.size();
		return rt;
	};
	std::map<Items,int> ids;
	std::vector<Items> states;
	auto add = [&]( const Items& k) {Items c = closure( k); auto i = ids.insert( {c,(int)states.size()}); if (i.second) states.push_back( c);};
	add( Items{{0,{END}}});
	for (size_t si=0; si<states.size(); ++si)
	{
		if ((int)states.size() > maxStates || work > 1200000) return false;
		std::set<int> core;
		for (auto& i : states[si]) if (i.first%32 || i.first == 0) core.insert( i.first);
		auto& m = merged[ core];
		std::map<int,Items> next;
		for (auto& i : states[si])
		{
			int pi = i.first/32; const Prod& p = g.prods[pi]; size_t d = i.first%32;
			if (d >= p.rhs.size()) {for (int l : i.second) m[l].red.insert( pi);}
			else {next[p.rhs[d]][i.first+1] = i.second; if (p.rhs[d] < NT) m[p.rhs[d]].shift.insert( pi);}
		}
		for (auto& nx : next) add( nx.second);
	}
	return true;
}
Verdict decide( const Gram& g, const Table& merged)
{
	Verdict rt;
	for (auto& m : merged) for (auto& c : m.second)
	{
		const Cell& x = c.second;
		std::string sym = g.symName( c.first);
		int prio = -1; char assoc = 0; bool any = false, some = false;
		for (int q : x.shift)
		{
			const Prod& p = g.prods[q];
			if (any && (p.prio != prio || p.assoc != assoc)) {rt.kind = -1; rt.why = "priorities of shift actions differ on " + sym; return rt;}
			prio = p.prio; assoc = p.assoc; any = true;
			if (p.assoc) some = true;
		}
		if (x.red.size() > 1)
		{
			if (x.shift.empty()) {rt.kind = -1; rt.why = "reduce/reduce conflict on " + sym; return rt;}
			for (int q : x.red) if (g.prods[q].assoc) some = true;
			if (!some) {rt.kind = -1; rt.why = "conflicts on " + sym; return rt;}
			rt.kind = 2;	// undecided unless something else is found
		}
		else if (x.red.size() == 1 && !x.shift.empty())
		{
			const Prod& p = g.prods[ *x.red.begin()];
			if (!p.assoc || !assoc || (p.prio == prio && p.assoc != assoc)) {rt.kind = -1; rt.why = "shift/reduce conflict on " + sym; return rt;}
			++rt.resolved;
		}
	}
	if (rt.kind == 2) {rt.kind = 0; rt.why = "shift against several reductions"; return rt;}
	rt.kind = 1;
	return rt;
}
Verdict lalr( const Gram& g, const Analysis& a, int maxStates, bool byConstruction=false)
{
	Verdict rt;
	Table t;
	if (!lalrTable( g, a, maxStates, t))
	{
		Table s;
		rt.why = "too big";
		if (byConstruction && sharedLookaheadTable( g, a, maxStates, s) && decide( g, s).kind > 0) rt.kind = 1;
		return rt;
	}
	rt = decide( g, t);
	if (rt.kind > 0)
	{
		Table s;
		if (!sharedLookaheadTable( g, a, maxStates, s)) {rt.kind = 0; rt.why = "too big";}
		else rt.shared = decide( g, s).kind <= 0;
	}
	return rt;
}

// ---------------------------------------------------------------- one execution of the program
struct Op
{
	int id = 0;
	std::string cmd = "g", out, tpl, dbg, luabin, in = "gram.g";
	bool verb = false, opts2 = false;
	AllocKnobs knobs;
	long time = 1600000000;
	int env = 0, prior = 0, chunk = 0;
	long failCpp = 0, failPm = -1; bool persist = false;
	long limit = -1; bool full = false, closed = false;
	std::vector<IoFault> io;
	std::string key() const {return cmd + "|" + tpl + "|" + luabin + "|" + (dbg.empty() ? "" : "d") + (verb ? "V" : "");}
};
struct Res
{
	bool crashed = false, aborted = false;
	int rc = 0;
	std::string out, err, dbg;
	bool outExists = false;
	long nCpp = 0, firedCpp = 0; int ioFatal = 0, ioAny = 0, wroteFatal = 0;
};
struct Model
{
	std::string prop;
	Gram g;
	std::unique_ptr<Analysis> an;
	std::string text;		// of the grammar file
	std::map<std::string,std::string> files;	// inputs, that have to stay as they are
	std::vector<Line> all;
	Line knob;
};
Model* M = nullptr;

std::vector<std::string> argsOf( const Op& o)
{
	std::vector<std::string> a = {"mewa"};
	auto opt = [&]( const char* s, const char* l, const std::string& v) {
		if (o.opts2) {if (o.id % 2) {a.push_back( std::string(s) + v);} else a.push_back( std::string(l) + "=" + v);}
		else {a.push_back( s); a.push_back( v);}
	};
	auto command = [&]{
		if (o.cmd == "g") a.push_back( o.opts2 ? "--generate-compiler" : "-g");
		else if (o.cmd == "s") a.push_back( o.opts2 ? "--generate-template" : "-s");
		else if (o.cmd == "l") a.push_back( o.opts2 ? "--generate-language" : "-l");
	};
	if (o.id % 3) command();
	if (!o.luabin.empty()) opt( "-b", "--luabin", o.luabin);
	if (!o.tpl.empty()) opt( "-t", "--template", o.tpl);
	if (!o.out.empty()) opt( "-o", "--output", o.out);
	if (!o.dbg.empty()) opt( "-d", "--dbgout", o.dbg);
	if (o.verb) a.push_back( o.opts2 ? "--verbose" : "-V");
	if (!(o.id % 3)) command();
	if (o.opts2) a.push_back( "--");
	a.push_back( o.in);
	return a;
}
int callMain( const std::vector<std::string>& a)
{
	std::vector<const char*> argv;
	for (auto& x : a) argv.push_back( x.c_str());
	int argc = argv.size();
	argv.push_back( nullptr);
	SutScope ss;
	return mewa_program_main( argc, argv.data());
}
void checkInputs( const char* when)
{
	for (auto& f : M->files) if (slurp( f.first) != f.second) violation( M->prop.c_str(), "inputs", "input file %s changed %s", f.first.c_str(), when);
}
bool g_stop = false;

Res run( const Op& o)
{
	Res rt;
	std::string so = strf( "std%d.out", o.id), se = strf( "std%d.err", o.id);
	g_shm->crashed = 0; g_shm->user[0] = 0;
	std::vector<std::string> args = argsOf( o);
	std::string cl;
	for (auto& x : args) cl += " " + x;
	snprintf( g_shm->op, sizeof(g_shm->op), "%d:%s", o.id, cl.c_str());
	ev( "process %d%s", o.id, cl.c_str());
	size_t nv = strlen( g_shm->viol);
	int st = runForked( [&]{
		beginProcess( o.knobs);
		if (o.env & 1) {setenv( "LC_ALL", "de_DE.UTF-8", 1); setenv( "TZ", "Asia/Tokyo", 1);}
		if (o.env & 2) {setenv( "LUA_PATH", "/nowhere/?.lua", 1); setenv( "HOME", "/nonexistent", 1);}
		if (o.env & 4) clearenv();
		simSetTime( o.time);
		simSetEnv( o.env & 8 ? 1 + o.env : o.env ? 1 : 0);
		signal( SIGXFSZ, SIG_IGN); signal( SIGPIPE, SIG_IGN);
		if (o.prior)
		{
			stdioCapture( "prior.out", "prior.err");
			static const char* pc[] = {"-g","-l","-s","-V"};
			for (int i=0; i<4; ++i) if (o.prior & (1<<i))
			{
				std::vector<std::string> a = {"mewa",pc[i]};
				a.push_back( (o.prior & 16) ? "gram.g" : "prior.g");
				callMain( a);
			}
			if (o.prior & 32) callMain( {"mewa","-x"});
			fflush( stdout); fflush( stderr);
		}
		stdioCapture( so, se);
		if (o.full) {int fd = open( "/dev/full", O_WRONLY); dup2( fd, 1); close( fd);}
		if (o.closed) close( 1);
		if (o.limit >= 0) {struct rlimit rl; rl.rlim_cur = rl.rlim_max = o.limit; setrlimit( RLIMIT_FSIZE, &rl);}
		ioFaults( o.io);
		ioChunk( o.chunk);
		faults() = FaultCtx();
		faults().failCpp = o.failCpp; faults().persistent = o.persist;
		setStepBudget( stepBudgetDefault * 20);
		int rc = callMain( args);
		FaultCtx f = faults();
		faults() = FaultCtx();
		fflush( stdout);
		int fatal = 0, any = 0, wfatal = 0;
		for (auto& x : ioFaultList()) if (x.fired)
		{
			++any;
			if (x.kind == "short" || x.kind.compare( 0, 5, "crash") == 0) continue;
			if (x.op == "close" && (x.match == o.in || x.match == o.tpl)) continue;	// ... content has been read
			++fatal;
			if (x.op != "open" && x.op != "read") ++wfatal;
		}
		if (f.firedCpp) note( "fault:alloc", f.firedCpp);
		note( "sim_steps", 0);
		std::string t = strf( "%d %ld %ld %d %d %d %llu", rc & 0xff, f.nCpp, f.firedCpp, fatal, any, wfatal, (unsigned long long)histhash());
		memcpy( g_shm->user, t.c_str(), t.size()+1);
		exportStats();
		_exit( 0);
	});
	if (WIFSIGNALED(st)) {signal( WTERMSIG(st), SIG_DFL); raise( WTERMSIG(st));}
	if (WEXITSTATUS(st) != 0) _exit( WEXITSTATUS(st));
	importStats();
	if (strlen( g_shm->viol) != nv) g_stop = true;
	if (g_shm->crashed) {rt.crashed = true; note( "simulated crashes");}
	else if (!g_shm->user[0]) {rt.aborted = true; g_stop = true;}
	else
	{
		unsigned long long h = 0;
		sscanf( g_shm->user, "%d %ld %ld %d %d %d %llu", &rt.rc, &rt.nCpp, &rt.firedCpp, &rt.ioFatal, &rt.ioAny, &rt.wroteFatal, &h);
		ev( "exit %d %llx", rt.rc, h);
	}
	rt.err = slurp( se);
	rt.out = o.out.empty() ? slurp( so) : slurp( o.out);
	rt.outExists = o.out.empty() ? !rt.out.empty() : exists( o.out);
	if (!o.dbg.empty()) rt.dbg = slurp( o.dbg);
	if (!o.out.empty() && o.cmd != "g") rt.out += "\n";	// ... the stream gets an end of line in addition
	note( "ops"); note( "executions of the generator");
	note( rt.crashed ? "exit:crashed" : rt.rc == 0 ? "exit:0" : "exit:not 0");
	checkInputs( "by an execution of the generator");
	return rt;
}
Op parseOp( const Line& l, int id, std::vector<IoFault>& pend)
{
	Op o;
	o.id = id; o.cmd = l.get( "cmd", "g"); o.out = l.get( "out"); o.tpl = l.get( "tpl"); o.dbg = l.get( "dbg"); o.luabin = l.get( "lua");
	o.in = l.get( "in", "gram.g");
	o.verb = l.geti( "v", 0); o.opts2 = l.geti( "opts2", 0);
	o.knobs = knobsOf( l);
	o.time = l.geti( "time", 1600000000); o.env = l.geti( "env", 0); o.prior = l.geti( "prior", 0); o.chunk = l.geti( "chunk", 0);
	o.failCpp = l.geti( "failcpp", 0); o.failPm = l.geti( "failpm", -1); o.persist = l.geti( "persist", 0);
	o.limit = l.geti( "limit", -1); o.full = l.geti( "full", 0); o.closed = l.geti( "closed", 0);
	o.io = pend; pend.clear();
	return o;
}
Op cleanOp( const Op& o)
{
	Op c;
	c.id = 900 + o.id; c.cmd = o.cmd; c.tpl = o.tpl; c.luabin = o.luabin; c.verb = o.verb; c.in = o.in;
	if (!o.dbg.empty()) c.dbg = "ref.dbg";
	return c;
}
std::map<std::string,Res>* g_refs;
const Res& reference( const Op& o)
{
	auto i = g_refs->find( o.key() + "|" + o.in);
	if (i != g_refs->end()) return i->second;
	unlink( "ref.dbg");
	Res r = run( cleanOp( o));
	return (*g_refs)[ o.key() + "|" + o.in] = r;
}
std::string diffAt( const std::string& a, const std::string& b)
{
	size_t i = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
	size_t s = i > 30 ? i-30 : 0;
	return strf( "sizes %zu/%zu, at %zu: %s / %s", a.size(), b.size(), i, quote( a.substr( s, 60)).c_str(), quote( b.substr( s, 60)).c_str());
}

// ---------------------------------------------------------------- loading what was generated
struct LuaBox
{
	lua_State* L;
	LuaBox() :L(luaL_newstate())
	{
		luaL_openlibs( L);
		luaL_requiref( L, "mewa", luaopen_mewa, 0); lua_pop( L, 1);
		run( "typesystem = setmetatable({}, {__index=function(t,k) local f=function() end rawset(t,k,f) return f end})");
	}
	~LuaBox() {lua_close( L);}
	std::string run( const char* s) {if (luaL_dostring( L, s) != 0) {std::string e = lua_tostring( L, -1) ? lua_tostring( L, -1) : "?"; lua_settop( L, 0); return e;} return "";}
};
// table given as Lua text -> definition printed by the compiler made of it; error if it cannot be loaded
std::string loadTable( const std::string& automaton, std::string& err)
{
	LuaBox b;
	std::string chunk = "return " + automaton;
	std::string rt;
	if (luaL_loadbuffer( b.L, chunk.data(), chunk.size(), "=automaton") != 0 || lua_pcall( b.L, 0, 1, 0) != 0) {err = lua_tostring( b.L, -1) ? lua_tostring( b.L, -1) : "?"; return rt;}
	lua_setglobal( b.L, "def");
	if (luaL_dostring( b.L, "return tostring( require('mewa').compiler( def))") != 0) {err = lua_tostring( b.L, -1) ? lua_tostring( b.L, -1) : "?"; return rt;}
	size_t n; const char* s = lua_tolstring( b.L, -1, &n);
	rt.assign( s, n);
	return rt;
}

// ---------------------------------------------------------------- malformed grammars
// changes the text (or the grammar) so that it has to be refused; false if not applicable
bool malformGram( Gram& g, const std::string& kind, long i)
{
	auto at = [&]( size_t from) -> int {return g.prods.size() > from ? (int)(from + i % (g.prods.size() - from)) : -1;};
	int k;
	if (kind == "undef") {if ((k = at( 0)) < 0) return false; g.prods[k].rhs.insert( g.prods[k].rhs.begin() + i % (g.prods[k].rhs.size()+1), g.nt( "Undefd1"));}
	else if (kind == "unused") {Prod p; p.lhs = g.nt( "Unused1"); p.rhs = {g.kw( "w")}; g.prods.push_back( p);}
	else if (kind == "startref") {if ((k = at( 0)) < 0) return false; g.prods[k].rhs.push_back( g.prods[0].lhs);}
	else if (kind == "startdup") {Prod p; p.lhs = g.prods[0].lhs; p.rhs = {g.kw( "zz")}; g.prods.insert( g.prods.begin() + 1 + i % g.prods.size(), p);}
	else if (kind == "dupprod") {if ((k = at( 1)) < 0) return false; Prod p = g.prods[k]; if (i & 1) {p.fn = "other"; p.argKind = 0;} g.prods.push_back( p);}
	else if (kind == "termnt") {int t = g.term( g.nts[i % g.nts.size()], 0); g.defs.push_back( {t,0});}
	else if (kind == "prio") {if ((k = at( 1)) < 0) return false; static const int v[] = {32,33,64,100,1000}; g.prods[k].assoc = i & 1 ? 'L' : 'R'; g.prods[k].prio = v[ i % 5];}
	else if (kind == "long") {if ((k = at( 1)) < 0) return false; int s = g.kw( "q"); while (g.prods[k].rhs.size() < (size_t)(i % 2 ? 16 : 16 + i/2 % 20)) g.prods[k].rhs.push_back( s);}
	else if (kind == "empty") g.prods.clear();
	else if (kind == "many") {int last = NT; for (int k=0; k<260; ++k) {int n = g.nt( strf( "mm%d", k)); Prod p; p.lhs = n; p.rhs = {g.kw( "w")}; g.prods.push_back( p); last = n;} (void)last; for (int k=0; k<260; ++k) {Prod p; p.lhs = g.prods[0].rhs[0] >= NT ? g.prods[0].rhs[0] : g.prods[0].lhs; p.rhs = {g.kw( strf( "k%d", k)),g.nt( strf( "mm%d", k))}; g.prods.push_back( p);} if (g.prods[0].rhs[0] < NT) return false;}
	else if (kind == "manyprod") {if (g.prods[0].rhs.empty() || g.prods[0].rhs[0] < NT) return false; for (int k=0; k<512; ++k) {Prod p; p.lhs = g.prods[0].rhs[0]; p.rhs = {g.kw( strf( "kk%d", k))}; g.prods.push_back( p);}}
	else return false;
	return true;
}
bool malformText( std::string& t, const Gram& g, const std::string& kind, long i)
{
	std::vector<std::string> ln;
	{size_t p = 0; while (p < t.size()) {size_t e = t.find( '\n', p); if (e == std::string::npos) e = t.size(); ln.push_back( t.substr( p, e-p)); p = e+1;}}
	auto join = [&]{t.clear(); for (auto& l : ln) t += l + "\n";};
	auto insert = [&]( const std::string& s) {ln.insert( ln.begin() + i % (ln.size()+1), s); join();};
	auto pick = [&]( std::function<bool(const std::string&)> f) -> int {std::vector<int> c; for (size_t k=0; k<ln.size(); ++k) if (f( ln[k])) c.push_back( k); return c.empty() ? -1 : c[ i % c.size()];};
	std::string start = g.nts[0];
	auto isProd = [&]( const std::string& l) {for (auto& n : g.nts) if (l.compare( 0, n.size(), n) == 0 && (l[n.size()] == ' ' || l[n.size()] == '/')) return true; return false;};
	auto isTok = [&]( const std::string& l) {return l[0] != '%' && !isProd( l);};
	auto plainProd = [&]( const std::string& l) {return isProd( l) && l.find( '(') == std::string::npos && l.find( '\'') == std::string::npos && l.find( '"') == std::string::npos;};
	int k;
	if (kind == "nosemi") {if ((k = pick( []( const std::string& l) {return !l.empty() && l.back() == ';';})) < 0) return false; ln[k].pop_back(); join();}
	else if (kind == "unquote")
	{
		if ((k = pick( []( const std::string& l) {return l.find_last_of( "'\"") != std::string::npos;})) < 0) return false;
		// ... the quote closing the last string
		std::string& l = ln[k];
		size_t last = std::string::npos;
		for (size_t p=0; p<l.size();) {if (l[p] == '\'' || l[p] == '"') {size_t e = p+1; while (e < l.size() && l[e] != l[p]) e += l[e] == '\\' ? 2 : 1; last = e; p = e+1;} else ++p;}
		if (last >= l.size()) return false;
		l.erase( last, 1);
		join();
	}
	else if (kind == "unkcmd") insert( i & 1 ? "% FOOBAR \"x\";" : "% COMENT \"//\" ;");
	else if (kind == "cmdargs")
	{
		static const char* c[] = {"% LANGUAGE \"a\" \"b\";","% COMMENT;","% COMMENT \"a\" \"b\" \"c\";","% INDENTL A B C;","% INDENTL A B C D E;","% IGNORE;","% BAD \"a\" \"b\";","% TYPESYSTEM;","% CMDLINE \"x\" y;","% LANGUAGE;","% IGNORE \"a\" \"b\";","%;","% ;"};
		insert( c[ i % 13]);
	}
	else if (kind == "prioword") {if ((k = pick( isProd)) < 0) return false; static const char* c[] = {"/X3","/L-1","/","/L1/L2","/LL","/\"L1\"","/L99999999999","/4294967296L","/L3x","/L1 R2"}; size_t p = ln[k].find( ' '); size_t q = ln[k].find( '/'); if (q < p) ln[k].erase( q, p-q), p = q; ln[k].insert( p, c[ i % 10]); join();}
	else if (kind == "priolex") {if ((k = pick( [&]( const std::string& l) {return isTok( l) && l.find( ' ') != std::string::npos;})) < 0) return false; ln[k].insert( ln[k].find( ' '), "/L1"); join();}
	else if (kind == "call")
	{
		if ((k = pick( plainProd)) < 0) return false;
		static const char* c[] = {"(f {a={b=1}})","({} >> f)","(>> {} f)","(f","f)","(f {a=1)","(f {a})","(f {=1})","(f {a=1,})","(f {1})","(f a b)","(f (g))","((f))","(f) (g)","(f) x","(\"f\")","(f >> )","(1)","(f {a=1} {b=2})","(,)","(f {})"};
		size_t p = ln[k].rfind( ';');
		ln[k].insert( p, c[ i % 21]);
		join();
	}
	else if (kind == "eps") {if ((k = pick( plainProd)) < 0) return false; size_t p = ln[k].rfind( ';'); ln[k].insert( p, i & 1 ? " \"w\" \xce\xb5 " : " \xce\xb5 \"w\""); join();}
	else if (kind == "regex")
	{
		static const char* c[] = {"ZZ : '[a-';","ZZ : '(ab';","ZZ : 'ab)';","ZZ : '[z-a]';","ZZ : 'x{2,1}';","ZZ : '[ab';","ZZ : 'a{';","% IGNORE '(';","ZZ : 'a**';","ZZ : '+a';"};
		insert( c[ i % 7]);
	}
	else if (kind == "comment") {t += "/* not terminated\n"; if (i & 1) t += "* /\n";}
	else if (kind == "char") {static const char* c[] = {"?","!","&","[","]","~","^","@","\\","\xc3\xa4","\xff","<","$","-","."}; insert( c[ i % 15]);}
	else if (kind == "syntax") {static const char* c[] = {"= ;",": ;","A B = ;","A = = ;","| A ;","A : ;","A : B ;","A 'x' ;","'x' = A ;","A : 'x' 'y' ;","A : 'x' 1 2 ;","; ;","A = B : C ;","12 ;","A","% LANGUAGE","A =","{} ;","A/L1 ;","% % BAD 'x' ;","A : 'x' | 'y' ;","A = /L1 ;","%LANGUAGE 'a' = 'b';"}; insert( c[ i % 23]);}
	else if (kind == "indent2") {t = "% INDENTL xA xB xC 4;\n% INDENTL xD xE xF 4;\n" + t;}
	else if (kind == "nul") {size_t p = t.rfind( ';'); if (p == std::string::npos) return false; if (i & 1) {size_t q = t.rfind( '\n', i % (p ? p : 1)); t.insert( q == std::string::npos ? 0 : q+1, std::string( "\0", 1));} else t.insert( t.size(), std::string( "\0 garbage = ;", 13));}
	else if (kind == "nothing") {static const char* c[] = {"","\n\n","# only a comment\n","/* */"}; t = c[ i % 4];}
	else return false;
	return true;
}
const std::vector<const char*> gramMals = {"undef","unused","startref","startdup","dupprod","termnt","prio","long","empty"};
const std::vector<const char*> textMals = {"nosemi","unquote","unkcmd","cmdargs","prioword","priolex","call","eps","regex","comment","char","syntax","indent2","nul","nothing"};

// ---------------------------------------------------------------- G06: a grammar file with known declarations
struct Decl
{
	std::string cls;				// sequence it belongs to
	std::map<std::string,std::string> f;		// fields
	std::string text() const {std::string rt; for (auto& x : f) rt += x.first + "=" + x.second + " "; return rt;}
};
struct Written
{
	std::string text;
	std::vector<Decl> decls;
	std::string lang, ts, cl;
	bool reserved = false;
	std::map<std::string,std::set<int> > fns;	// function -> number of parameters possible
};
std::string qstr( Rng& r, const std::string& s)
{
	bool dq = s.find('"') != std::string::npos, sq = s.find('\'') != std::string::npos;
	char q = dq ? '\'' : sq ? '"' : r.chance( 50) ? '"' : '\'';
	return std::string(1,q) + s + q;
}
std::string attrText( Rng& r, const std::string& forbidden)
{
	static const std::vector<std::string> w = {"a","DIGIT","::=","\"0\"|\"1\"","'x'","it's \"q\"","\\n","\\","*","text","of","{ }","]]","--","\xc3\xa4","%d","a\tb","= 1;","@x","#","'","\"","\\\"","1"};
	std::string t;
	int n = r.range( 1, 5);
	for (int i=0; i<n; ++i) {std::string x = r.pick( w); if (t.empty() && x[0] == '@') continue; t += (t.empty() ? "" : " ") + x;}
	if (t.empty()) t = "x";
	if (!forbidden.empty() && t.find( forbidden) != std::string::npos) t = "y";
	for (;;) {size_t p = forbidden.empty() ? std::string::npos : t.find( forbidden); if (p == std::string::npos) break; t.erase( p, forbidden.size());}
	while (!t.empty() && (unsigned char)t.back() <= 32) t.pop_back();
	while (!t.empty() && (unsigned char)t[0] <= 32) t.erase( 0, 1);
	if (t.empty()) t = "x";
	return t;
}
Written writeGrammar( const Gram& g, uint64_t seed, bool reserved)
{
	Rng r( seed);
	Written w;
	struct Item {std::string text; std::vector<Decl> d; std::vector<size_t> brk;};	// brk: positions, where the item continues on a new line
	std::vector<Item> cmds, toks, prods;
	static const std::vector<std::string> names = {"lang1","my language","a/b","C++ 'x'","say \"hi\"","\xc3\xa4","1.0"};
	auto simple = [&]( const char* c, std::string& v) {if (r.chance( 25)) return; v = r.pick( names); std::string cn = c; if (r.chance( 20)) for (auto& ch : cn) ch = tolower( ch); cmds.push_back( {"%" + std::string( r.chance( 50) ? " " : "") + cn + " " + qstr( r, v) + ";",{},{}});};
	simple( "LANGUAGE", w.lang); simple( "TYPESYSTEM", w.ts); simple( "CMDLINE", w.cl);
	if (!g.bad.empty()) {Decl d; d.cls = "BAD"; d.f = {{"op",hex("BAD")},{"name",hex(g.bad)}}; cmds.push_back( {"% BAD " + qstr( r, g.bad) + ";",{d},{}});}
	if (g.tab >= 0)
	{
		std::string n[3];
		for (auto& t : g.terms) if (t.type >= 2) n[t.type-2] = t.name;
		Decl d; d.cls = "INDENTL"; d.f = {{"op",hex("INDENTL")},{"open",hex(n[0])},{"close",hex(n[1])},{"nl",hex(n[2])},{"tabsize",strf("%d",g.tab)}};
		cmds.push_back( {strf( "%% INDENTL %s %s %s %d;", n[0].c_str(), n[1].c_str(), n[2].c_str(), g.tab),{d},{}});
	}
	std::vector<Item> coms;
	for (auto& c : g.comments)
	{
		Decl d; d.cls = c.second.empty() ? "EOLN" : "BRACKET"; d.f = {{"op",hex("COMMENT")},{"open",hex(c.first)}};
		if (!c.second.empty()) d.f["close"] = hex( c.second);
		coms.push_back( {"% COMMENT " + qstr( r, c.first) + (c.second.empty() ? "" : " " + qstr( r, c.second)) + ";",{d},{}});
	}
	for (auto& x : g.defs)
	{
		const Kind& k = kinds()[x.kind];
		Decl d; d.cls = "TOKEN";
		if (x.term < 0) {d.f = {{"op",hex("IGNORE")},{"pattern",hex(k.regex)}}; toks.push_back( {"% IGNORE " + qstr( r, k.regex) + ";",{d},{}});}
		else
		{
			d.f = {{"op",hex("TOKEN")},{"name",hex(g.terms[x.term].name)},{"pattern",hex(k.regex)}};
			if (k.select) d.f["select"] = strf( "%d", k.select);
			toks.push_back( {g.terms[x.term].name + (r.chance( 50) ? " : " : ":") + qstr( r, k.regex) + (k.select ? strf( " %d", k.select) : "") + (r.chance( 50) ? ";" : " ;"),{d},{}});
		}
	}
	for (size_t i=0; i<g.prods.size();)
	{
		const Prod& p = g.prods[i];
		Item it;
		it.text = g.nts[p.lhs-NT] + (p.assoc ? strf( "/%c%d", p.assoc, p.prio) : "") + (r.chance( 70) ? " = " : "=");
		size_t k = i;
		bool group = r.chance( 60);
		do
		{
			const Prod& q = g.prods[k];
			if (k > i) {it.brk.push_back( it.text.size()); it.text += "| ";}
			Decl d; d.cls = "PROD";
			std::string right;
			if (q.rhs.empty() && r.chance( 50)) it.text += "\xce\xb5 ";
			for (int s : q.rhs)
			{
				bool sym = s < NT && g.terms[s].type == 1;
				it.text += (sym ? qstr( r, g.terms[s].name) : g.symName( s)) + " ";
				right += strf( "(%s %s)", sym ? "symbol" : "name", hex( g.symName( s)).c_str());
			}
			d.f = {{"op",hex("PROD")},{"left",hex(g.nts[q.lhs-NT])},{"right",right}};
			if (q.assoc) d.f["priority"] = hex( strf( "%c%d", q.assoc, q.prio));
			if (q.mark) d.f["scope"] = hex( q.mark == 1 ? ">>" : "{}");
			if (!q.fn.empty())
			{
				std::string a;
				if (q.argKind == 2) a = qstr( r, q.arg); else if (q.argKind) a = q.arg;
				d.f["call"] = hex( q.fn + (q.argKind ? " " + (q.argKind == 2 ? "\"" + q.arg + "\"" : q.arg) : ""));
				w.fns[q.fn].insert( q.argKind ? 2 : 1);
				it.text += "(" + std::string( q.mark == 1 ? ">>" : q.mark == 2 ? "{}" : "") + q.fn + (q.argKind ? " " + a : "") + ")";
			}
			else if (q.mark) it.text += q.mark == 1 ? "(>>)" : "({})";
			it.d.push_back( d);
			++k;
		}
		while (group && i > 0 && k < g.prods.size() && g.prods[k].lhs == p.lhs && g.prods[k].assoc == p.assoc && g.prods[k].prio == p.prio);
		i = k;
		it.text += r.chance( 50) ? ";" : " ;";
		prods.push_back( it);
	}
	// order: interleaved, the start production first of the productions
	std::vector<Item> all;
	size_t n[4] = {0,0,0,0};
	std::vector<Item>* src[4] = {&cmds,&toks,&coms,&prods};
	bool mixed = r.chance( 40);
	for (;;)
	{
		std::vector<int> c;
		for (int k=0; k<4; ++k) if (n[k] < src[k]->size()) c.push_back( k);
		if (c.empty()) break;
		int k = mixed ? c[ r.below( c.size())] : c[0];
		all.push_back( (*src[k])[ n[k]++]);
	}
	// write it down
	int line = 1;
	std::vector<std::pair<std::string,std::vector<std::string> > > pend;	// attributes pending
	std::set<std::string> pendNames;
	bool pendReserved = false;
	auto put = [&]( const std::string& s) {w.text += s; for (char c : s) if (c == '\n') ++line;};
	static const std::vector<std::string> an = {"rule","descr","x_1","A","param","Ops","name2","lines"};
	static const std::vector<std::string> ak = {"return","end","function","local","1st","if"};
	static const std::vector<std::string> ar = {"op","name","pattern","select","open","close","nl","tabsize","priority","left","right","scope","call","line"};
	int attrPct = r.chance( 20) ? 0 : r.range( 10, 60);
	bool endline = true;
	auto attr = [&]( const std::string& forbidden) -> std::string	// text of a comment line; updates the attributes pending
	{
		if (r.chance( 65))
		{
			std::string nm = r.chance( 15) ? r.pick( ak) : r.pick( an);
			if (reserved && r.chance( 50)) {nm = r.pick( ar); pendReserved = true;}
			if (!pendNames.insert( nm).second) nm += strf( "%d", (int)pendNames.size()), pendNames.insert( nm);
			std::string c = r.chance( 8) ? std::string() : attrText( r, forbidden);
			pend.push_back( {nm,{c}});
			return (r.chance( 60) ? " @" : "@") + nm + (c.empty() ? "" : " " + c);
		}
		std::string c = attrText( r, forbidden);
		if (!pend.empty()) pend.back().second.push_back( c);
		return (r.chance( 80) ? " " : "\t ") + c;
	};
	auto comments = [&]( const std::string& indent)
	{
		if (r.chance( attrPct)) {int k = r.range( 1, 3); for (int i=0; i<k; ++i)
		{
			switch (r.below( 4))
			{
				case 0: put( indent + "#" + attr( "") + "\n"); break;
				case 1: put( indent + "//" + attr( "") + "\n"); break;
				case 2: put( indent + "/*" + attr( "*/") + " */" + (r.chance( 60) ? "\n" : r.chance( 50) ? " " : "")); break;
				case 3: {int q = r.range( 2, 4); std::string t = indent + "/*"; for (int j=0; j<q; ++j) t += (j ? "\n" : "") + attr( "*/"); put( t + (r.chance( 50) ? "\n" : " ") + "*/" + (r.chance( 70) ? "\n" : "")); break;}
			}
			if (r.chance( 10)) put( r.pick( std::vector<std::string>{"\n","  \n","\t\n","\r\n"}));
		}}
	};
	for (auto& it : all)
	{
		comments( "");
		size_t from = 0;
		for (size_t k=0; k<=it.brk.size() || k == 0; ++k)
		{
			size_t to = k < it.brk.size() ? it.brk[k] : it.text.size();
			if (k) {put( "\n"); comments( "\t"); put( "\t");}
			int at = line;
			if (pendReserved) w.reserved = true;	// attached to a declaration
			put( it.text.substr( from, to-from));
			from = to;
			if (k < it.d.size())
			{
				Decl d = it.d[k];
				d.f["line"] = strf( "%d", at);
				for (auto& p : pend) {std::string v = "["; for (auto& x : p.second) v += hex( x) + ","; d.f[ p.first] = v + "]";}
				w.decls.push_back( d);
			}
			pend.clear(); pendNames.clear();
		}
		endline = r.chance( 95);
		if (!endline) {put( " #" + attr( "") + "\n");}
		else put( "\n");
		if (r.chance( 15)) put( "\n");
	}
	if (r.chance( 10)) put( "# @tail of the file");
	return w;
}
std::string luaField( lua_State* L, int i)
{
	i = lua_absindex( L, i);
	if (lua_type( L, i) == LUA_TSTRING) {size_t n; const char* s = lua_tolstring( L, i, &n); return hex( std::string( s, n));}
	if (lua_type( L, i) == LUA_TNUMBER) return strf( "%.14g", lua_tonumber( L, i));
	if (lua_type( L, i) != LUA_TTABLE) return strf( "?%s", luaL_typename( L, i));
	int n = lua_rawlen( L, i), all = 0;
	std::string rt;
	lua_pushnil( L); while (lua_next( L, i)) {++all; lua_pop( L, 1);}
	bool strs = true;
	for (int k=1; k<=n; ++k)
	{
		lua_rawgeti( L, i, k);
		if (lua_type( L, -1) == LUA_TTABLE)
		{
			strs = false;
			lua_getfield( L, -1, "type"); lua_getfield( L, -2, "value");
			rt += strf( "(%s %s)", lua_tostring( L, -2) ? lua_tostring( L, -2) : "?", luaField( L, -1).c_str());
			lua_pop( L, 2);
		}
		else rt += luaField( L, -1) + ",";
		lua_pop( L, 1);
	}
	if (all != n) rt += "!keys";
	return n && strs ? "[" + rt + "]" : rt;
}
void checkLanguage( const Written& w, const std::string& out)
{
	LuaBox b;
	lua_State* L = b.L;
	auto bad = [&]( const std::string& s) {violation( "G06", "language description", "%s", s.c_str());};
	if (luaL_loadbuffer( L, out.data(), out.size(), "=languagedef") != 0 || lua_pcall( L, 0, 1, 0) != 0) {bad( strf( "not valid Lua: %s", lua_tostring( L, -1))); return;}
	if (!lua_istable( L, 1)) {bad( "no table returned"); return;}
	struct {const char* k; std::string v;} hd[] = {{"LANGUAGE",w.lang},{"TYPESYSTEM",w.ts},{"CMDLINE",w.cl}};
	for (auto& h : hd) {lua_getfield( L, 1, h.k); std::string v = lua_isnil( L, -1) ? hex("") : luaField( L, -1); if (v != hex( h.v)) bad( strf( "%s is %s, expected %s", h.k, quote( unhex( v)).c_str(), quote( h.v).c_str())); lua_pop( L, 1);}
	lua_getfield( L, 1, "VERSION"); if (lua_type( L, -1) != LUA_TSTRING) bad( "no version"); lua_pop( L, 1);
	lua_getfield( L, 1, "RULES");
	if (!lua_istable( L, -1)) {bad( "no rules"); return;}
	std::map<std::string,std::vector<std::string> > got, exp;
	int n = lua_rawlen( L, -1), all = 0;
	lua_pushnil( L); while (lua_next( L, -2)) {++all; lua_pop( L, 1);}
	if (all != n) bad( "rules not a list");
	for (int k=1; k<=n; ++k)
	{
		lua_rawgeti( L, 2, k);
		if (!lua_istable( L, -1)) {bad( "rule not a table"); return;}
		Decl d;
		lua_pushnil( L);
		while (lua_next( L, 3))
		{
			std::string v = luaField( L, -1);
			lua_pushvalue( L, -2);
			d.f[ lua_tostring( L, -1)] = v;
			lua_pop( L, 2);
		}
		std::string op = unhex( d.f["op"]);
		got[ op == "COMMENT" ? (d.f.count( "close") ? "BRACKET" : "EOLN") : op == "IGNORE" ? "TOKEN" : op].push_back( d.text());
		lua_settop( L, 2);
	}
	for (auto& d : w.decls) exp[ d.cls].push_back( d.text());
	auto readable = []( const std::string& t) {std::string rt; size_t p = 0; while (p < t.size()) {size_t e = t.find_first_of( " ,=()[]", p); if (e == std::string::npos) e = t.size(); std::string x = t.substr( p, e-p); if (x.size() % 2 && x[0] == 'h' && x.find_first_not_of( "0123456789abcdef", 1) == std::string::npos) x = unhex( x); rt += x; if (e < t.size()) rt += t[e]; p = e+1;} return quote( rt, 300);};
	std::set<std::string> cls;
	for (auto& x : got) cls.insert( x.first);
	for (auto& x : exp) cls.insert( x.first);
	for (auto& c : cls)
	{
		auto& a = got[c]; auto& e = exp[c];
		size_t k = 0;
		while (k < a.size() && k < e.size() && a[k] == e[k]) ++k;
		if (k < a.size() || k < e.size()) {bad( strf( "%s declaration %d is %s, expected %s", c.c_str(), (int)k, k < a.size() ? readable( a[k]).c_str() : "missing", k < e.size() ? readable( e[k]).c_str() : "none")); return;}
	}
	note( "declarations listed", w.decls.size());
}
void checkStub( const Written& w, const std::string& out)
{
	LuaBox b;
	lua_State* L = b.L;
	auto bad = [&]( const std::string& s) {violation( "G06", "type system stub", "%s", s.c_str());};
	if (luaL_loadbuffer( L, out.data(), out.size(), "=stub") != 0 || lua_pcall( L, 0, 1, 0) != 0) {bad( strf( "not valid Lua: %s", lua_tostring( L, -1))); return;}
	if (!lua_istable( L, 1)) {bad( "no table returned"); return;}
	std::set<std::string> got;
	lua_pushnil( L);
	while (lua_next( L, 1))
	{
		lua_pushvalue( L, -2);
		std::string k = lua_tostring( L, -1);
		lua_pop( L, 1);
		if (!lua_isfunction( L, -1)) bad( strf( "%s is no function", k.c_str()));
		else
		{
			lua_Debug ar;
			lua_pushvalue( L, -1);
			lua_getinfo( L, ">u", &ar);
			auto f = w.fns.find( k);
			if (f == w.fns.end()) bad( strf( "stub for the unknown function %s", k.c_str()));
			else if (!f->second.count( ar.nparams)) bad( strf( "stub for %s has %d parameters", k.c_str(), ar.nparams));
		}
		if (!got.insert( k).second) bad( strf( "two stubs for %s", k.c_str()));
		lua_pop( L, 1);
	}
	for (auto& f : w.fns)
	{
		if (!got.count( f.first)) bad( strf( "no stub for %s", f.first.c_str()));
		int cnt = 0;
		std::string pat = "." + f.first + "(";
		for (size_t p = out.find( pat); p != std::string::npos; p = out.find( pat, p+1)) ++cnt;
		if (cnt > 1) bad( strf( "%d stubs for %s", cnt, f.first.c_str()));
	}
	note( "function stubs", w.fns.size());
}

// ---------------------------------------------------------------- execution
void execG02()
{
	std::string want;	// expected verdict
	int verdict = 0;
	bool raw = false;
	Gram g = M->g;
	if (!g.wellFormed( !M->knob.has( "flat"))) return;
	std::string why;
	int mals = 0;
	for (auto& l : M->all) if (l.at(0) == "mal" && !mals)
	{
		Gram h = g;
		std::string k = l.at(1);
		if (malformGram( h, k, l.num(2))) {g = h; ++mals; why = k;}
	}
	std::vector<std::string> cmds = {"% LANGUAGE \"sim\";","% TYPESYSTEM \"ts\";"};
	M->text = g.prods.empty() ? std::string( "A : 'x';\n% LANGUAGE \"x\";\n") : g.text( mals || !M->knob.has( "style") ? 0 : M->knob.geti( "style", 0), cmds);
	if (!mals) for (auto& l : M->all) if (l.at(0) == "mal" && !mals)
	{
		std::string t = M->knob.has( "style") ? g.text( 0, cmds) : M->text;
		if (malformText( t, g, l.at(1), l.num(2))) {M->text = t; ++mals; why = l.at(1);}
	}
	for (auto& l : M->all) if (l.at(0) == "raw")
	{
		raw = true;
		size_t p = M->text.empty() ? 0 : l.num(1) % (M->text.size()+1);
		M->text.erase( p, l.num(2));
		M->text.insert( p, unhex( l.at(3)));
	}
	Verdict v;
	if (mals) {verdict = -1; note( ("malformed:" + why).c_str());}
	else if (!raw && M->knob.has( "flat"))
	{
		// valid as far as the limits are respected
		size_t len = 0;
		for (auto& p : g.prods) len = std::max( len, p.rhs.size());
		bool read = g.terms.size() >= 1024 || g.prods.size() >= 512 || len >= 16;	// detected building the automaton
		bool nts = g.nts.size() >= 256;
		size_t states = 0;		// all productions of the statement start with another keyword
		for (auto& p : g.prods) states += p.rhs.size();
		if (states > 4300) {read = true; probe( "grammar with too many states");}
		why = nts ? "many" : read ? "manyprod" : "";
		verdict = nts || read ? -1 : 1;
		if (verdict < 0) ++mals;
		note( verdict > 0 ? "grammars within the limits" : "grammars beyond the limits");
		if (g.terms.size() == 1023 || g.prods.size() == 511 || g.nts.size() == 255) probe( "grammar at a limit");
	}
	else if (!raw)
	{
		if (!M->an->productive()) {why = "unproductive"; note( "unproductive");}
		else {v = lalr( g, *M->an, M->knob.has( "wide") ? 3000 : 1500, M->knob.has( "wide")); verdict = v.kind; why = v.why; if (!v.kind) note( "undecided");}
		if (v.resolved) probe( "conflicts resolved by priority");
	}
	if (raw) verdict = 0;
	note( raw ? "grammars edited" : verdict > 0 ? "grammars valid" : verdict < 0 ? "grammars invalid" : "grammars not judged");
	if (verdict < 0 && !mals) probe( ("refused:" + why.substr( 0, why.find( " on "))).c_str());
	M->files["gram.g"] = M->text;
	spit( "gram.g", M->text);
	ev( "grammar %s verdict %d %s", quote( M->text, 100000).c_str(), verdict, why.c_str());
	std::vector<IoFault> pend;
	int id = 0;
	int rcg = -1, rcn = -1;
	for (auto& l : M->all) if (l.at(0) == "op" && l.at(1) == "mewa" && !g_stop)
	{
		Op o = parseOp( l, ++id, pend);
		o.io.clear(); o.failCpp = 0; o.failPm = -1; o.full = o.closed = false; o.limit = -1; o.tpl.clear();
		bool automaton = o.cmd == "g" || o.cmd == "none";
		if (o.cmd == "none") o.out.clear();
		if (!automaton && o.cmd != "l") {o.dbg.clear(); o.luabin.clear();}
		if (o.cmd == "l") o.dbg.clear();
		const std::string old = "old content\n";
		if (!o.out.empty()) spit( o.out, old);
		Res r = run( o);
		if (r.aborted || nofViolations() > 3) return;
		// conflicts are found building the automaton, all other defects by reading the grammar
		int ex = automaton ? verdict : mals && (why == "prio" || why == "long" || why == "manyprod" || why == "regex") ? 0 : mals ? verdict : raw ? 0 : verdict > 0 ? 1 : 0;
		if (ex > 0 && r.rc != 0 && automaton && v.shared)
		{
			// known finding, only reported by the plan recorded
			probe( "LALR(1) grammars refused because of inexact lookahead");
			if (M->knob.has( "inexact")) violation( "G02", "refused inexact lookahead", "LALR(1) grammar refused by -%s with %d: %s", o.cmd.c_str(), r.rc, quote( r.err, 300).c_str());
		}
		else if (ex > 0 && r.rc != 0 && (g.terms.size() > 300 || g.prods.size() > 90) && r.err.find( "#577") != std::string::npos) {note( "number of FOLLOW sets beyond the limit"); return;}
		else if (ex > 0 && r.rc != 0) violation( "G02", "refused", "valid grammar refused by -%s with %d: %s", o.cmd.c_str(), r.rc, quote( r.err, 300).c_str());
		if (ex < 0 && r.rc == 0) violation( "G02", "accepted", "grammar accepted by -%s despite of: %s", o.cmd.c_str(), why.c_str());
		if (r.rc != 0)
		{
			if (r.err.empty()) violation( "G02", "diagnostic", "refused with exit code %d without a diagnostic", r.rc);
			std::string got = !o.out.empty() && o.cmd != "g" && r.out.size() ? r.out.substr( 0, r.out.size()-1) : r.out;
			if (o.out.empty() ? !got.empty() : got != old) violation( "G02", "output", "grammar refused with exit code %d, but output generated: %s", r.rc, quote( got, 100).c_str());
		}
		else if (o.cmd == "none")
		{
			if (!r.out.empty()) violation( "G02", "output", "output without a command: %s", quote( r.out, 100).c_str());
		}
		else if (!o.out.empty() ? r.out.compare( 0, old.size(), old) == 0 && r.out.size() <= old.size()+1 : r.out.empty()) violation( "G02", "no output", "success without output");
		if (o.cmd == "g") {if (rcg >= 0 && (rcg != 0) != (r.rc != 0)) violation( "G02", "repeated", "accepted and refused"); rcg = r.rc;}
		if (o.cmd == "none") rcn = r.rc;
		if (rcg >= 0 && rcn >= 0 && (rcg != 0) != (rcn != 0)) violation( "G02", "check only", "exit code %d with -g, %d without command", rcg, rcn);
		if (r.rc == 0 && o.cmd == "g" && verdict > 0)
		{
			// what was generated can be loaded
			size_t p = r.out.find( "compilerdef = "), e = r.out.find( "\n}\n", p);
			std::string err;
			if (p == std::string::npos || e == std::string::npos) violation( "G02", "output", "no definition of a compiler in the output");
			else {loadTable( r.out.substr( p+14, e+3-p-14), err); if (!err.empty()) violation( "G02", "not loadable", "%s", quote( err, 300).c_str());}
		}
	}
}

void prepareFiles()
{
	std::vector<std::string> cmds;
	if (M->knob.geti( "head", 7) & 1) cmds.push_back( "% LANGUAGE \"sim\";");
	if (M->knob.geti( "head", 7) & 2) cmds.push_back( "% TYPESYSTEM \"ts\";");
	if (M->knob.geti( "head", 7) & 8) cmds.push_back( "% CMDLINE \"cl\";");
	M->text = M->g.text( M->knob.geti( "style", 0), cmds);
	int pad = M->knob.geti( "pad", 0);
	if (pad) {M->text = "# " + std::string( pad, 'p') + "\n" + M->text;}
	M->files["gram.g"] = M->text;
	for (auto& l : M->all) if (l.at(0) == "tpl") M->files[ l.at(1)] = unhex( l.at(2));
	M->files["prior.g"] = "% LANGUAGE \"other\";\nID : '[a-z]+';\nSTR : '[\"][a-z]*[\"]' 1;\n% IGNORE '~+';\nstart = list (top);\nlist = list elem (>>add {a=1}) | ;\nelem = ID (x \"y\") | STR | '(' list ')' ({}z);\n";
	mkdir( "dir", 0755);
	for (auto& f : M->files) spit( f.first, f.second);
}
void execG03()
{
	prepareFiles();
	std::vector<IoFault> pend;
	int id = 0;
	Op last; bool haveLast = false;
	for (auto& l : M->all)
	{
		if (g_stop || nofViolations() > 3) return;
		if (l.at(0) == "io") {IoFault f; f.match = l.at(1); f.op = l.at(2); f.at = l.num(3); f.kind = l.at(4); pend.push_back( f); continue;}
		if (l.at(0) != "op" || l.at(1) != "mewa") continue;
		Op o = parseOp( l, ++id, pend);
		Op cl = o;
		bool badInput = o.in != "gram.g" || o.tpl == "missing.tpl" || o.tpl == "dir";
		if (o.in != "gram.g") cl.in = "gram.g";
		if (o.tpl == "missing.tpl" || o.tpl == "dir") cl.tpl.clear();
		const Res ref = reference( cl);
		if (g_stop) return;
		if (ref.rc != 0) {note( "reference refused"); if (l.geti( "conflict", 0)) continue; violation( "G03", "clean run", "execution without fault failed with %d: %s", ref.rc, quote( ref.err, 300).c_str()); return;}
		if (o.failPm >= 0) o.failCpp = 1 + ref.nCpp * o.failPm / 1000;
		bool badOut = o.out == "dir" || o.out == "nodir/x" || o.dbg == "dir";
		Res r = run( o);
		if (r.aborted) return;
		if (r.crashed) {haveLast = true; last = o; continue;}
		long need = std::max( ref.dbg.size(), ref.out.size());
		bool stream = o.out.empty() && !ref.out.empty();
		bool sure = r.ioFatal || badInput || badOut || (stream && (o.full || o.closed)) || (o.limit >= 0 && o.limit + 1 < need);
		bool fault = sure || r.ioAny || r.firedCpp || (o.limit >= 0 && o.limit <= std::max( need, (long)ref.err.size())+200) || o.full || o.closed;
		if (r.rc == 0)
		{
			if (sure) violation( "G03", "success reported", "exit code 0 though %s", r.ioFatal ? "a file operation failed" : badInput ? "an input cannot be read" : badOut ? "an output cannot be written" : "the output device is full or closed");
			else
			{
				std::string a = r.out, b = ref.out;
				if (!o.closed && !(o.full && o.out.empty()) && a != b) violation( "G03", "output", "exit code 0, but output incomplete or wrong (%s), %s", o.failCpp ? "allocation failed" : "no allocation failed", diffAt( a, b).c_str());
				if (!o.dbg.empty() && r.dbg != ref.dbg) violation( "G03", "debug output", "exit code 0, but debug output incomplete or wrong, %s", diffAt( r.dbg, ref.dbg).c_str());
				if (r.firedCpp) note( "absorbed allocation failures");
			}
		}
		else
		{
			if (!fault) violation( "G03", "failure", "failed with %d without a fault: %s", r.rc, quote( r.err, 300).c_str());
			if (r.err.empty() && !(o.limit >= 0 && o.limit < 300)) violation( "G03", "diagnostic", "failed with %d without a diagnostic", r.rc);
			haveLast = true; last = o;
			if (!sure && r.firedCpp && o.out.size() && !badOut && o.limit < 0 && r.rc && false) {}
		}
	}
	// intact inputs: the output is correct whatever was left behind
	if (haveLast)
	{
		Op o = last;
		o.io.clear(); o.failCpp = 0; o.full = o.closed = false; o.limit = -1; o.chunk = 0;
		o.id = ++id;
		if (o.in != "gram.g") o.in = "gram.g";
		if (o.tpl == "missing.tpl" || o.tpl == "dir") o.tpl.clear();
		if (o.out == "dir" || o.out == "nodir/x") o.out = "x.out";
		if (o.dbg == "dir") o.dbg = "x.dbg";
		Res r = run( o);
		const Res ref = reference( o);
		if (r.aborted || g_stop) return;
		probe( "run again after a failure");
		if (r.rc != 0) violation( "G03", "run again", "failed with %d after an earlier failure: %s", r.rc, quote( r.err, 300).c_str());
		else if (r.out != ref.out || r.dbg != ref.dbg) violation( "G03", "run again", "output wrong after an earlier failure, %s", r.out != ref.out ? diffAt( r.out, ref.out).c_str() : diffAt( r.dbg, ref.dbg).c_str());
	}
}
void execG04()
{
	prepareFiles();
	std::vector<IoFault> pend;
	int id = 0;
	std::set<std::string> kinds_;
	for (auto& l : M->all)
	{
		if (g_stop || nofViolations() > 3) return;
		if (l.at(0) != "op" || l.at(1) != "mewa") continue;
		Op o = parseOp( l, ++id, pend);
		o.io.clear();
		const Res ref = reference( o);
		Res r = run( o);
		if (r.aborted || r.crashed || g_stop) return;
		if (r.rc != ref.rc) violation( "G04", "exit code", "%d, but %d in another execution: %s", r.rc, ref.rc, quote( r.err, 200).c_str());
		if (r.out != ref.out) violation( "G04", "output", "output differs from that of another execution, %s", diffAt( r.out, ref.out).c_str());
		if (r.dbg != ref.dbg) violation( "G04", "debug output", "differs from that of another execution, %s", diffAt( r.dbg, ref.dbg).c_str());
		if (r.err != ref.err) violation( "G04", "messages", "differ from those of another execution, %s", diffAt( r.err, ref.err).c_str());
		note( "outputs compared");
		if (o.cmd == "g" && o.tpl == "auto.tpl" && r.rc == 0)
		{
			std::string err, text = r.out.substr( 0, r.out.size()-1);
			std::string def = loadTable( text, err);
			if (!err.empty()) violation( "G04", "not loadable", "%s", quote( err, 300).c_str());
			else if (def != text) violation( "G04", "definition", "printed by the compiler loaded differs from the one generated, %s", diffAt( def, text).c_str());
			else note( "definitions printed by loaded compilers");
		}
	}
}
void execG06()
{
	Written w = writeGrammar( M->g, M->knob.geti( "wseed", 1), M->knob.geti( "reserved", 0));
	M->text = w.text;
	M->files["gram.g"] = w.text;
	for (auto& l : M->all) if (l.at(0) == "tpl") M->files[ l.at(1)] = unhex( l.at(2));
	M->files["auto.tpl"] = "%automaton%";
	for (auto& f : M->files) spit( f.first, f.second);
	ev( "grammar %s", quote( w.text, 100000).c_str());
	std::vector<IoFault> pend;
	int id = 0;
	std::string automaton; bool haveAuto = false;
	for (auto& l : M->all)
	{
		if (g_stop || nofViolations() > 3) return;
		if (l.at(0) != "op" || l.at(1) != "mewa") continue;
		Op o = parseOp( l, ++id, pend);
		o.io.clear(); o.failCpp = 0; o.full = o.closed = false; o.limit = -1;
		Res r = run( o);
		if (r.aborted || r.crashed || g_stop) return;
		if (o.cmd == "l" && w.reserved)
		{
			note( "reserved attributes");
			if (r.rc == 0) violation( "G06", "reserved", "reserved attribute name accepted");
			continue;
		}
		if (r.rc != 0) {violation( "G06", "refused", "-%s of a valid grammar failed with %d: %s", o.cmd.c_str(), r.rc, quote( r.err, 300).c_str()); return;}
		if (!r.err.empty() && !o.verb) violation( "G06", "messages", "success with message %s", quote( r.err, 200).c_str());
		std::string out = r.out.empty() ? r.out : r.out.substr( 0, r.out.size()-1);
		if (o.cmd == "l") checkLanguage( w, out);
		else if (o.cmd == "s") checkStub( w, out);
		else if (o.cmd == "g")
		{
			if (!haveAuto)
			{
				Op a; a.id = 950; a.tpl = "auto.tpl";
				Res x = run( a);
				if (x.rc != 0 || x.out.empty()) {violation( "G06", "refused", "template with the table only failed with %d", x.rc); return;}
				automaton = x.out.substr( 0, x.out.size()-1);
				haveAuto = true;
				std::string err;
				loadTable( automaton, err);
				if (!err.empty()) violation( "G06", "table", "not loadable: %s", quote( err, 300).c_str());
			}
			std::string lua = o.luabin.empty() ? "/usr/bin/lua" : o.luabin;
			if (o.tpl.empty())
			{
				// a program: interpreter, modules and table
				if (out.compare( 0, lua.size()+3, "#!" + lua + "\n") != 0) violation( "G06", "program", "first line is %s", quote( out.substr( 0, 60)).c_str());
				if (out.find( automaton) == std::string::npos) violation( "G06", "program", "does not contain the table");
				if (out.find( "require( \"" + w.ts + "\")") == std::string::npos) violation( "G06", "program", "does not load the type system %s", w.ts.c_str());
				if ((out.find( "require( \"" + w.cl + "\")") != std::string::npos) != !w.cl.empty() && !w.cl.empty()) violation( "G06", "program", "does not load the command line module %s", w.cl.c_str());
				if (w.cl.empty() && out.find( "cmdline.parse") != std::string::npos) violation( "G06", "program", "command line module used, but not defined");
				std::string body = out.substr( out.find( '\n')+1);
				if (w.ts.find_first_of( "'\"\\") == std::string::npos && w.cl.find_first_of( "'\"\\") == std::string::npos && w.lang.find_first_of( "'\"\\") == std::string::npos)
				{
					LuaBox b;
					if (luaL_loadbuffer( b.L, body.data(), body.size(), "=program") != 0) violation( "G06", "program", "not valid Lua: %s", lua_tostring( b.L, -1));
				}
				note( "programs");
			}
			else if (M->files.count( o.tpl))
			{
				std::string e = M->files[ o.tpl];
				struct {const char* k; std::string v;} m[] = {{"%luabin%",lua},{"%typesystem%",w.ts},{"%language%",w.lang},{"%cmdline%",w.cl},{"%automaton%",automaton}};
				for (auto& x : m) {size_t p = e.find( x.k); if (p != std::string::npos) e.replace( p, strlen( x.k), x.v);}
				if (e != out) violation( "G06", "template", "output is not the template with its keys replaced, %s", diffAt( out, e).c_str());
				note( "templates mapped");
			}
		}
	}
}
void execC( const Plan& plan)
{
	M = new Model();
	g_refs = new std::map<std::string,Res>();
	M->prop = plan.prop;
	for (auto& s : plan.lines)
	{
		Line l = Line::parse( s);
		if (l.at(0) == "knob") {M->knob = l; continue;}
		if (M->g.addLine( l)) continue;
		M->all.push_back( l);
	}
	AllocKnobs k; k.layoutSeed = 1;
	allocInit( k);
	if (M->g.prods.empty()) return;
	if (!M->g.wellFormed( !M->knob.has( "flat"))) return;
	M->an.reset( new Analysis( M->g));
	maxnote( "max:productions", M->g.prods.size());
	if (plan.prop == "G02") {execG02(); return;}
	if (!M->an->productive()) return;
	if (lalr( M->g, *M->an, 1500).kind != 1) {note( "grammar not valid"); return;}
	if (plan.prop == "G03") execG03();
	else if (plan.prop == "G04") execG04();
	else if (plan.prop == "G06") execG06();
}

// ---------------------------------------------------------------- generation of plans
struct GenC
{
	Rng r; std::string prop; bool thorough;
	Plan p;
	GenC( uint64_t seed, const std::string& prop_, bool th) :r(seed*7919+prop_[2]*131),prop(prop_),thorough(th) {p.world = "C"; p.prop = prop_;}
	void add( const std::string& s) {p.lines.push_back( s);}
	Gram valid( int size)
	{
		GenOpt o;
		o.size = size;
		o.indent = r.chance( 12); o.precedence = r.chance( 35); o.tokenList = r.chance( 12); o.random = r.chance( 15); o.general = r.chance( 30);
		return genGram( r, o);
	}
	Gram anyGrammar()
	{
		for (;;)
		{
			GenOpt o;
			o.size = r.range( 1, 3); o.precedence = r.chance( 50);
			GramGen gg( r, o);
			int k = r.below( 10);
			Gram g = k < 4 ? gg.randomCfg() : k < 6 ? gg.lookahead() : gg.composite();
			gg.g = g;
			// disturb: more productions, dropped or changed priorities
			int n = k < 4 ? (r.chance( 30) ? 1 : 0) : r.range( 1, 3);
			for (int i=0; i<n; ++i)
			{
				Gram& h = gg.g;
				Prod& q = h.prods[ r.below( h.prods.size())];
				switch (r.below( 8))
				{
					case 0: if (q.lhs != h.prods[0].lhs) {q.assoc = 0; q.prio = 0;} break;
					case 1: case 2: if (q.lhs != h.prods[0].lhs) {q.assoc = r.chance( 50) ? 'L' : 'R'; q.prio = r.below( 4);} break;
					case 3: if (q.rhs.size()) q.rhs.erase( q.rhs.begin() + r.below( q.rhs.size())); break;
					case 4: {int s = r.chance( 50) ? NT + r.below( h.nts.size()) : r.below( h.terms.size()); q.rhs.insert( q.rhs.begin() + r.below( q.rhs.size()+1), s); break;}
					case 5: {Prod x = q; x.rhs = {}; h.prods.push_back( x); break;}
					case 6: {Prod x = q; int s = NT + r.below( h.nts.size()); x.rhs = {s}; h.prods.push_back( x); break;}
					case 7: {Prod x = q; x.lhs = h.prods[ r.below( h.prods.size())].lhs; h.prods.push_back( x); break;}
				}
			}
			if (r.chance( 30)) gg.lexExtras();
			g = compact( gg.g);
			std::set<std::pair<int,std::vector<int> > > seen;
			bool dup = false;
			for (auto& q : g.prods) if (!seen.insert( {q.lhs,q.rhs}).second) dup = true;
			if (dup || !g.wellFormed()) continue;
			return g;
		}
	}
	std::string knobs()
	{
		std::string s = strf( " layout=%d", r.range( 1, 1000000));
		if (r.chance( 60)) s += strf( " reuse=%d", r.range( 1, 100));
		if (r.chance( 60)) s += strf( " gap=%d", r.range( 1, 200));
		if (r.chance( 50)) s += strf( " fill=%d", r.pick( std::vector<int>{0,255,165,1,64}));
		return s;
	}
	std::string destination( int i)
	{
		return r.chance( 60) ? strf( " out=o%d.lua", i) : "";
	}
	void templates()
	{
		add( "tpl auto.tpl " + hex( "%automaton%"));
		int n = r.range( 1, 2);
		for (int i=0; i<n; ++i)
		{
			std::string t;
			int k = r.range( 1, 8);
			static const std::vector<std::string> w = {"%luabin%","%typesystem%","%language%","%cmdline%","%automaton%","%luabi%","%%","% language%","text\n","-- x = %d\n","\n"," ","%automaton","luabin%","{","\xc3\xa4","%%language%%"};
			for (int j=0; j<k; ++j) t += r.pick( w);
			if (r.chance( 15)) t += std::string( r.pick( std::vector<int>{4095,4096,4097,8192,100}), 'x') + "%automaton%";
			if (prop == "G06" && r.chance( 20)) t.insert( r.below( t.size()+1), std::string( "\0", 1));
			if (t.empty()) t = "x";
			add( strf( "tpl t%d.tpl %s", i, hex( t).c_str()));
		}
	}
	std::string tpl( bool any=true)
	{
		return r.chance( 40) ? strf( " tpl=%s", r.chance( 50) ? "auto.tpl" : "t0.tpl") : "";
	}
	Plan gen()
	{
		if (prop == "G02")
		{
			int kind = r.below( 100);
			Gram g;
			std::string kn = "knob";
			bool mal = kind >= 60 && kind < 85, raw = kind >= 85, large = false;
			if (r.chance( 2))
			{
				GenOpt o;
				GramGen gg( r, o);
				int w = r.below( 100) < 12 ? 4 : r.below( 4), d = r.chance( 50) ? 0 : r.chance( 50) ? 1 : r.range( 2, 15);
				int nT = w == 0 ? 1023 + d : r.range( 20, 400), nN = w == 1 ? 255 + d : r.range( 3, 100), nP = w == 2 ? 511 + d : r.range( nN+20, 200), len = w == 3 ? 15 + d : r.range( 4, 15);
				if (nP < nN + nN/10 + 2) nP = nN + nN/10 + 2;
				if (nP + 13*(nP-nN) < nT) nP = nN + nT/13 + 2;
				if (w == 4) {nT = r.range( 400, 900); nN = 3; nP = r.range( 295, 315); len = 15;}
				g = compact( gg.flat( nT, nN, nP, len, w == 4));
				kn += " flat=1";
				mal = raw = false;
				large = true;
			}
			else if (r.chance( 2)) {GenOpt o; wideOpt( r, o, thorough); g = genGram( r, o); mal = raw = false; large = true; kn += " wide=1";}
			else g = kind < 55 ? anyGrammar() : valid( r.range( 1, 3));
			if (!mal && r.chance( 70)) kn += strf( " style=%d", r.below( 1000));
			add( kn);
			for (auto& l : g.lines()) add( l);
			if (mal)
			{
				const char* k = r.chance( 35) ? r.pick( gramMals) : r.pick( textMals);
				if (r.chance( 1)) k = r.chance( 50) ? "many" : "manyprod";
				add( strf( "mal %s %d", k, r.below( 10000)));
			}
			if (raw)
			{
				int n = r.chance( 60) ? 1 : r.range( 2, 6);
				static const std::vector<std::string> ins = {"\"","'","(",")","{","}",";","=","|","%","/","/*","*/","#","//","\\",":","\xce\xb5","\xe2\x86\x92","\xff","\0","L1"," 1 ","@","{}",">>","\n",",","-","[","]","^","$","\xc3"};
				for (int i=0; i<n; ++i) {std::string s = r.chance( 70) ? r.pick( ins) : std::string(); if (r.chance( 5)) s = std::string( r.range( 1, 5000), "a(\"'[\\"[r.below(6)]); add( strf( "raw %d %d %s", r.below( 100000), r.chance( 50) ? 0 : r.chance( 80) ? r.range( 1, 3) : r.range( 4, 200), hex( s).c_str()));}
			}
			add( "op mewa cmd=g" + destination( 1) + (r.chance( 15) ? " dbg=d1.out" : "") + (r.chance( 40) ? knobs() : ""));
			if (large) return p;	// seconds per run of the generator
			add( std::string( "op mewa cmd=none") + (r.chance( 30) ? " v=1" : ""));
			if (r.chance( 70)) add( "op mewa cmd=l" + destination( 2));
			if (r.chance( 60)) add( "op mewa cmd=s" + destination( 3));
			return p;
		}
		Gram g = valid( r.range( 1, thorough ? 5 : 3));
		if (prop == "G06")
		{
			static const std::vector<std::string> strs = {"say \"x\"","it's","a\\b","","x y","\\n","%d","\xc3\xa4"};
			static const std::vector<std::string> tabs = {"{a=\"x's\",b='\"'}","{a='\"'}","{a=\"'\",b=1}","{x=y}","{a=1,b=\"q\\\\\"}"};
			for (auto& q : g.prods) if (!q.fn.empty() && r.chance( 20)) {q.argKind = r.chance( 60) ? 2 : 4; q.arg = q.argKind == 2 ? r.pick( strs) : r.pick( tabs);}
			if (!g.wellFormed()) {}
		}
		add( strf( "knob style=%d head=%d", r.below( 1000), r.pick( std::vector<int>{7,7,15,0,2,11})) + strf( " wseed=%d", r.range( 1, 1000000)) + (r.chance( 8) ? " reserved=1" : "")
			+ (prop == "G03" && r.chance( 40) ? strf( " pad=%d", r.pick( std::vector<int>{1,100,4000,4090,4095,4096,5000,9000})) : ""));
		for (auto& l : g.lines()) add( l);
		templates();
		if (prop == "G06")
		{
			add( "op mewa cmd=l" + destination( 1));
			add( "op mewa cmd=s" + destination( 2));
			add( "op mewa cmd=g tpl=t0.tpl" + destination( 3) + (r.chance( 40) ? " lua=/opt/lua-5.2/bin/lua" : ""));
			if (r.chance( 60)) add( "op mewa cmd=g" + destination( 4) + (r.chance( 50) ? " lua=lua5.2" : ""));
			if (r.chance( 20)) add( "op mewa cmd=l opts2=1" + destination( 5));
			return p;
		}
		if (prop == "G04")
		{
			int n = thorough ? r.range( 6, 14) : r.range( 4, 8);
			for (int i=0; i<n; ++i)
			{
				int c = r.below( 10);
				std::string s = strf( "op mewa cmd=%s", c < 5 ? "g" : c < 7 ? "l" : c < 9 ? "s" : "none");
				if (c < 5) s += c < 2 ? std::string( " tpl=auto.tpl") : tpl();
				if ((c < 5 || c == 9) && r.chance( 30)) s += strf( " dbg=d%d.out", i);
				else if (c == 9 || r.chance( 10)) s += " v=1";
				if (c != 9) s += destination( i);
				s += knobs();
				if (r.chance( 50)) s += strf( " time=%d", r.range( 0, 2000000000));
				if (r.chance( 40)) s += strf( " env=%d", r.below( 16));
				if (r.chance( 50)) s += strf( " prior=%d", r.range( 1, 63));
				if (r.chance( 30)) s += strf( " chunk=%d", r.pick( std::vector<int>{1,7,100,4096}));
				if (r.chance( 40)) s += " opts2=1";
				add( s);
			}
			return p;
		}
		// G03
		int n = thorough ? r.range( 4, 10) : r.range( 3, 6);
		for (int i=0; i<n; ++i)
		{
			int c = r.below( 10);
			std::string s = strf( "op mewa cmd=%s", c < 6 ? "g" : c < 8 ? "l" : "s");
			std::string out = r.chance( 65) ? strf( "o%d.lua", r.below( 2)) : "";
			std::string tp;
			if (c < 6) tp = r.chance( 40) ? (r.chance( 50) ? "auto.tpl" : "t0.tpl") : "";
			std::string db = c < 6 && r.chance( 20) ? "d0.out" : "";
			int what = r.below( 100);
			std::string extra;
			if (what < 50)
			{
				int k = r.chance( 80) ? 1 : 2;
				for (int j=0; j<k; ++j)
				{
					std::vector<std::string> fs = {"gram.g"};
					if (!tp.empty()) fs.push_back( tp);
					std::vector<std::string> ws;
					if (!out.empty()) {ws.push_back( out); ws.push_back( out);}
					if (!db.empty()) ws.push_back( db);
					bool wr = !ws.empty() && r.chance( 65);
					std::string f = wr ? r.pick( ws) : r.pick( fs);
					static const std::vector<const char*> we = {"EIO","ENOSPC","EDQUOT","EFBIG","EACCES"}, re = {"EIO","EISDIR","ENOMEM"}, oe = {"EACCES","EMFILE","ENOENT","EROFS","ENOMEM"};
					int q = r.below( 10);
					std::string op, kd; int at = 1;
					if (q < 2) {op = "open"; kd = r.chance( 15) ? "crash" : r.pick( oe);}
					else if (q < 4) {op = "close"; kd = r.chance( 25) ? "crash" : wr ? r.pick( we) : "EIO";}
					else if (wr) {op = "write"; at = r.chance( 60) ? 1 : r.range( 1, 8); int z = r.below( 10); kd = z < 4 ? r.pick( we) : z < 7 ? strf( "torn:%d", r.range( 0, 4000)) : strf( "crash:%d", r.range( 0, 4000));}
					else {op = "read"; at = r.range( 1, 4); kd = r.chance( 35) ? "short" : r.chance( 12) ? "crash" : r.pick( re);}
					add( strf( "io %s %s %d %s", f.c_str(), op.c_str(), at, kd.c_str()));
				}
			}
			else if (what < 75) {extra = strf( " failpm=%d", r.chance( 30) ? r.range( 900, 999) : r.range( 0, 999)); if (r.chance( 30)) extra += " persist=1";}
			else if (what < 85) extra = strf( " limit=%d", r.chance( 40) ? r.range( 0, 300) : r.range( 300, 30000));
			else if (what < 90) extra = " full=1";
			else if (what < 93) extra = " closed=1";
			else if (what < 95) extra = r.chance( 50) ? " in=missing.g" : " in=dir";
			else if (what < 97) {if (c < 6) tp = r.chance( 50) ? "missing.tpl" : "dir";}
			else {if (r.chance( 70)) out = r.chance( 50) ? "dir" : "nodir/x"; else if (c < 6) db = "dir";}
			if (r.chance( 20)) extra += strf( " chunk=%d", r.pick( std::vector<int>{1,7,100,4096}));
			if (r.chance( 30)) extra += knobs();
			if (r.chance( 20)) extra += " opts2=1";
			add( s + (out.empty() ? "" : " out=" + out) + (tp.empty() ? "" : " tpl=" + tp) + (db.empty() ? "" : " dbg=" + db) + extra);
		}
		return p;
	}
};
Plan genC( uint64_t seed, const std::string& prop, bool thorough) {GenC g( seed, prop, thorough); return g.gen();}
}
namespace sim {const World worldC = {"C",genC,execC};}

// World B: compilers running programs. Real code: the generator (in a forked process), the Lua module with lexer, automaton, output and file I/O.
#include "ggen.hpp"
#include <cstdio>
#include <memory>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace sim;
using namespace gr;
extern "C" int luaopen_mewa( lua_State* ls);
int mewa_program_main( int argc, const char* argv[]);
extern "C" void simSetTime( uint64_t t);

namespace {
// ---------------------------------------------------------------- what has to happen
struct Src
{
	std::string text;
	std::vector<Tok> toks;
	Parse parse;
	std::vector<Top> top;
};
struct Act {int at; std::string what; std::vector<std::string> args;};
struct RunSpec
{
	int id = 0, obj = 0, src = 0, tpl = -1, prog = -1, opt = 0;
	std::string out;		// file name, stdout, stderr or empty for the default
	bool dbg = false, co = false, full = false, old = false;
	long failCpp = 0, failLua = 0, egc = 0; bool persistent = false;
	std::vector<IoFault> io;
};
struct State;
struct RunCtx
{
	State* st; const RunSpec* spec; const Src* src;
	size_t k = 0, done = 0;		///< calls started and completed
	std::string code; std::map<std::string,std::string> sect; std::string dbg;
	bool raised = false; std::string raisedMsg; bool raisedAny = false;
	bool bad = false; size_t wantSize = 0; bool nestFailed = false;
	RunCtx* parent = nullptr;
	int depth = 0;
};
struct Model
{
	std::string prop;
	Gram g;
	std::unique_ptr<Analysis> an; Tables tab;
	std::map<int,Src> srcs;
	std::map<int,std::string> tpls;
	std::map<int,std::vector<Act> > progs;
	std::set<std::string> fns;
	std::string defChunk;
	bool typedTable = false;
	int chain = 0;			// 1: generated program without, 2: with command line module; 0: the table only
	bool canonical = false;		// reference tables are those of LR(1), not those of SLR(1)
	std::string progChunk;
};
Model* M = nullptr;

std::string tplName( int k) {static const char* n[] = {"t0.tpl","tp.x.tpl","x86_64-pc","./t3.","sub/t4.tpl",".tpl5"}; return k < 6 ? n[k] : strf( "t%d.tpl", k);}
std::string tplTriple( int k) {static const char* n[] = {"t0","tp.x","x86_64-pc","t3","t4",".tpl5"}; return k < 6 ? n[k] : strf( "t%d", k);}
const char* dbgNames[] = {"debug0.out","debug1.out","debug2.out"};
std::string srcName( int k) {return k % 4 == 3 ? strf( "sub/src.%d.prg", k) : strf( "src%d.prg", k);}

struct State
{
	int idx = 0;
	lua_State* L = nullptr;
	int rGlobals = 0;		// registry references
	int rProcs = 0, rArgs = 0, rOpts = 0, rObjs = 0, rPrint = 0, rDebug = 0, rSection = 0, rKept = 0, rRun = LUA_REFNIL; bool finalizing = false;
	std::vector<const void*> kept;	// compilers whose redirected functions have been kept by a callback
	RunCtx* cur = nullptr;
	std::string rec;		// serialisation of the current node
	std::set<std::string> globals;
	std::map<std::string,std::string> objText;	// objects attached to calls by name of call
	std::string errText;	// debug output expected on stderr
	size_t outPos = 0, errPos = 0; bool single = true;
	long runs = 0, failed = 0;		// finished runs
	long tdb = 0;
};
thread_local State* t_state = nullptr;

const char* attr( const char* dflt, State* st)
{
	const std::string& p = M->prop;
	bool star = !strcmp( dflt, "C01*");
	bool result = star || !strcmp( dflt, "C01") || !strcmp( dflt, "C02") || !strcmp( dflt, "C03") || !strcmp( dflt, "C05");
	if (p == "C04") return "C04";			// token list languages are for the lexer
	if (p == "T09") return "T09";
	if (p == "G01") return star || !strcmp( dflt, "C01") ? "G01" : dflt;
	if (p == "C03" && star) return "C03";
	if (p == "C06" && result && st && st->runs) return "C06";		// the first run of a state is a fresh one
	if (p == "C07" && result && st && st->failed) return "C07";	// the state has to be usable after a failure
	if (p == "G05" && result) return "G05";
	return star ? "C01" : dflt;
}
// properties owning a failure depend on what the run is about
void bad( const char* prop, const char* oracle, const std::string& d, RunCtx* c)
{
	HostScope hs;
	if (c) {if (c->bad) return; c->bad = true;}
	violation( attr( prop, c ? c->st : nullptr), oracle, "%s [run %d source %d]", d.c_str(), c ? c->spec->id : -1, c ? c->spec->src : -1);
}

void put( State* s, const char* fmt, ...) __attribute__((format(printf,2,3)));
void put( State* s, const char* fmt, ...)
{
	HostScope hs;
	char buf[ 512];
	va_list ap; va_start( ap, fmt); vsnprintf( buf, sizeof buf, fmt, ap); va_end( ap);
	s->rec.append( buf);
}
void putHex( State* s, const char* p, size_t n) {HostScope hs; s->rec.append( hex( std::string( p, n)));}

// text of a value attached to a call
void serObj( lua_State* L, State* s, int i, int depth)
{
	luaL_checkstack( L, 10, "");
	i = lua_absindex( L, i);
	switch (lua_type( L, i))
	{
		case LUA_TNIL: put( s, "nil"); break;
		case LUA_TNUMBER: put( s, "n%.14g", lua_tonumber( L, i)); break;
		case LUA_TSTRING: {size_t n; const char* p = lua_tolstring( L, i, &n); putHex( s, p, n); break;}
		case LUA_TTABLE:
		{
			if (depth > 4) {put( s, "..."); break;}
			lua_rawgeti( L, LUA_REGISTRYINDEX, s->rArgs);
			for (int k=0; k<3; ++k)
			{
				lua_rawgeti( L, -1, k+1);
				bool eq = lua_rawequal( L, -1, i);
				lua_pop( L, 1);
				if (eq) {put( s, "A%d", k); lua_pop( L, 1); return;}
			}
			lua_pop( L, 1);
			// few fixed keys
			put( s, "{");
			static const char* keys[] = {"a","b","op","n","x","y"};
			int cnt = 0;
			for (const char* k : keys)
			{
				lua_pushstring( L, k); lua_rawget( L, i);
				if (!lua_isnil( L, -1)) {++cnt; put( s, "%s=", k); serObj( L, s, -1, depth+1); put( s, ",");}
				lua_pop( L, 1);
			}
			for (int k=1; k<=3; ++k) {lua_rawgeti( L, i, k); if (!lua_isnil( L, -1)) {++cnt; serObj( L, s, -1, depth+1); put( s, ",");} lua_pop( L, 1);}
			lua_pushnil( L); int all = 0; while (lua_next( L, i)) {++all; lua_pop( L, 1);}
			put( s, all == cnt ? "}" : "...}");
			break;
		}
		default: put( s, "?%s", lua_typename( L, lua_type( L, i)));
	}
}
void serNode( lua_State* L, State* s, int i)
{
	luaL_checkstack( L, 12, "");
	if (!lua_istable( L, i)) {put( s, "!%s", lua_typename( L, lua_type( L, i))); return;}
	int nkeys = 0;
	lua_pushnil( L); while (lua_next( L, i)) {++nkeys; lua_pop( L, 1);}
	lua_pushliteral( L, "call"); lua_rawget( L, i);
	if (lua_isnil( L, -1))
	{
		lua_pop( L, 1);
		put( s, "<");
		lua_pushliteral( L, "name"); lua_rawget( L, i);
		const char* nm = lua_type( L, -1) == LUA_TSTRING ? lua_tostring( L, -1) : "!";
		put( s, "%s ", nm);
		lua_pop( L, 1);
		lua_pushliteral( L, "value"); lua_rawget( L, i);
		if (lua_type( L, -1) == LUA_TSTRING) {size_t n; const char* p = lua_tolstring( L, -1, &n); putHex( s, p, n);} else put( s, "!");
		lua_pop( L, 1);
		lua_pushliteral( L, "line"); lua_rawget( L, i);
		if (lua_type( L, -1) == LUA_TNUMBER) put( s, " %.14g", lua_tonumber( L, -1)); else put( s, " !");
		lua_pop( L, 1);
		if (nkeys != 3) put( s, " !keys%d", nkeys);
		put( s, ">");
		return;
	}
	put( s, "(");
	lua_pushliteral( L, "name"); lua_rawget( L, -2);
	size_t nn = 0;
	const char* nm = lua_type( L, -1) == LUA_TSTRING ? lua_tolstring( L, -1, &nn) : "!";
	putHex( s, nm, nn);
	// function and object are those of the grammar
	lua_rawgeti( L, LUA_REGISTRYINDEX, s->rProcs);
	{
		char fn[ 64]; size_t k=0; for (; k<nn && k<63 && nm[k] != ' '; ++k) fn[k] = nm[k];
		fn[k] = 0;
		lua_pushstring( L, fn); lua_rawget( L, -2);
		lua_pushliteral( L, "proc"); lua_rawget( L, -5);
		if (lua_isnil( L, -1) || !lua_rawequal( L, -1, -2)) put( s, "!proc");
		lua_pop( L, 3);
	}
	{
		size_t mark = s->rec.size();
		lua_pushliteral( L, "obj"); lua_rawget( L, -3);
		int ot = lua_type( L, -1);
		serObj( L, s, -1, 0);
		lua_pop( L, 1);
		bool ok;
		{
			HostScope hs;
			std::string got = s->rec.substr( mark);
			s->rec.resize( mark);
			char kind = ot == LUA_TNIL ? '0' : ot == LUA_TTABLE ? (got[0] == 'A' ? '1' : '4') : ot == LUA_TSTRING ? '2' : ot == LUA_TNUMBER ? '3' : '?';
			auto e = s->objText.find( std::string( nm, nn) + kind);
			ok = got == (e == s->objText.end() ? std::string("nil") : e->second);
			s->rec += kind;
			if (!ok) s->rec += "!obj " + got;
		}
	}
	lua_pop( L, 1);		// name
	lua_pop( L, 1);		// call
	lua_pushliteral( L, "line"); lua_rawget( L, i);
	if (lua_type( L, -1) == LUA_TNUMBER) put( s, " %.14g", lua_tonumber( L, -1)); else put( s, " !");
	lua_pop( L, 1);
	lua_pushliteral( L, "scope"); lua_rawget( L, i);
	bool isScope = lua_istable( L, -1);
	if (isScope)
	{
		lua_rawgeti( L, -1, 1); lua_rawgeti( L, -2, 2);
		put( s, " S%.14g-%.14g", lua_tonumber( L, -2), lua_tonumber( L, -1));
		if (lua_rawlen( L, -3) != 2) put( s, "!");
		lua_pop( L, 2);
	}
	lua_pop( L, 1);
	lua_pushliteral( L, "step"); lua_rawget( L, i);
	if (lua_type( L, -1) == LUA_TNUMBER) put( s, " s%.14g", lua_tonumber( L, -1));
	lua_pop( L, 1);
	if (nkeys != 4) put( s, " !keys%d", nkeys);
	lua_pushliteral( L, "arg"); lua_rawget( L, i);
	if (!lua_istable( L, -1)) put( s, " !arg");
	else
	{
		int t = lua_gettop( L);
		int n = lua_rawlen( L, t);
		int all = 0;
		lua_pushnil( L); while (lua_next( L, t)) {++all; lua_pop( L, 1);}
		if (all != n) put( s, " !args%d/%d", all, n);
		for (int k=1; k<=n; ++k)
		{
			lua_rawgeti( L, t, k);
			put( s, " ");
			serNode( L, s, t+1);
			lua_settop( L, t);
		}
	}
	lua_pop( L, 1);
	put( s, ")");
}

// ---------------------------------------------------------------- actions of a callback
void pushVal( lua_State* L, const std::string& a)	// ... raises errors of Lua, no objects with destructor on the stack
{
	switch (a[0])
	{
		case 's': {static thread_local char buf[ 70000]; size_t n = 0; {HostScope hs; std::string s = unhex( a.substr(1)); n = std::min( s.size(), sizeof buf); memcpy( buf, s.data(), n);} lua_pushlstring( L, buf, n); break;}
		case 'i': lua_pushnumber( L, atoi( a.c_str()+1)); break;
		case 'f': lua_pushnumber( L, atof( a.c_str()+1)); break;
		case 'b': lua_pushboolean( L, a[1] == '1'); break;
		default: lua_pushnil( L);
	}
}
std::string valText( const std::string& a)
{
	switch (a[0])
	{
		case 's': return unhex( a.substr(1));
		case 'i': return strf( "%d", atoi( a.c_str()+1));
		case 'f': return strf( "%.14g", atof( a.c_str()+1));
		case 'b': return a[1] == '1' ? "true" : "false";
		default: return "<nil>";
	}
}
int doNested( lua_State* L, State* s, const RunSpec* spec);

const char* errChunk( const std::string& kind)
{
	if (kind == "error") return "local m=... error(m)";
	if (kind == "error0") return "local m=... error(m,0)";
	if (kind == "error2") return "local m=... local function f() error(m,2) end f()";
	if (kind == "index") return "local x=nil return x.y";
	if (kind == "call") return "undefinedfunction()";
	if (kind == "table") return "error({})";
	if (kind == "nil") return "error(nil)";
	if (kind == "assert") return "local m=... assert(false,m)";
	if (kind == "co") return "local m=... coroutine.wrap(function() error(m) end)()";
	if (kind == "deep") return "collectgarbage('stop') local function f() return 1+f() end f()";	///< without the collector, that shrinks a growing stack again and again, for every pause setting a time quadratic in its size
	if (kind == "yield") return "coroutine.yield(1)";
	if (kind == "pcallerr") return "local m=... local ok,e=pcall(error,m) error(e,0)";
	if (kind == "lib") return "local db=require('mewa').typedb() db:scope('x')";
	if (kind == "lib2") return "local db=require('mewa').typedb() db:def_type({0,10},'x')";
	if (kind == "lib3") return "print_section({},1)";
	if (kind == "lib4") return "require('mewa').compiler({})";
	return nullptr;
}

const char* redirected[] = {"print","print_section","debug"};
// calls a redirected function kept from an earlier run, there must be no effect on any other run
void callKept( lua_State* L, State* s, int ki, int n)
{
	int top = lua_gettop( L);
	int f = n % 3;
	if (f == 2 && !s->single) f = 0;
	lua_rawgeti( L, LUA_REGISTRYINDEX, s->rKept);
	lua_rawgeti( L, -1, ki+1);
	if (!lua_istable( L, -1)) {lua_settop( L, top); return;}
	lua_rawgeti( L, -1, f+1);
	int na = 0;
	if (f == 1) {lua_pushstring( L, "Code"); ++na;}
	static const char text[] = "stale-output-of-another-run-stale-output-of-another-run";
	lua_pushlstring( L, text, n % (sizeof text)); ++na;
	if (lua_pcall( L, na, 0, 0) == 0 && f == 2) {HostScope hs; s->errText += std::string( text, n % (sizeof text)) + "\n";}
	note( "redirected functions called after the run");
	lua_settop( L, top);
}
// performs the actions of the current callback
void actions( lua_State* L, State* s, RunCtx* c, int k)
{
	auto pi = M->progs.find( c->spec->prog);
	if (pi == M->progs.end()) return;
	for (auto& a : pi->second)
	{
		if (a.at != 0 && a.at != k) continue;
		luaL_checkstack( L, 20 + a.args.size(), "");
		int top = lua_gettop( L);
		if (a.what == "print" || a.what == "sect" || a.what == "debug")
		{
			lua_getglobal( L, a.what == "print" ? "print" : a.what == "debug" ? "debug" : "print_section");
			for (auto& v : a.args) pushVal( L, v);
			lua_call( L, a.args.size(), 0);
			HostScope hs;
			size_t from = a.what == "sect" ? 1 : 0;
			std::string t;
			for (size_t i=from; i<a.args.size(); ++i) t += valText( a.args[i]);
			if (a.what == "print") c->code += t;
			else if (a.what == "debug") {c->dbg += t + "\n"; if (!c->spec->dbg) s->errText += t + "\n";}
			else c->sect[ a.args[0][0] == 'n' ? std::string() : valText( a.args[0])] += t;
		}
		else if (a.what == "gc") lua_gc( L, LUA_GCCOLLECT, 0);
		else if (a.what == "keep")
		{
			// the functions redirected survive the run
			if (s->kept.size() >= 8) continue;
			lua_rawgeti( L, LUA_REGISTRYINDEX, s->rObjs); lua_rawgeti( L, -1, c->spec->obj+1);
			const void* cp = lua_touserdata( L, -1);
			lua_pop( L, 2);
			lua_rawgeti( L, LUA_REGISTRYINDEX, s->rKept);
			lua_createtable( L, 3, 0);
			for (int i=0; i<3; ++i) {lua_getglobal( L, redirected[i]); lua_rawseti( L, -2, i+1);}
			lua_rawseti( L, -2, s->kept.size()+1);
			HostScope hs;
			s->kept.push_back( cp);
			note( "redirected functions kept");
		}
		else if (a.what == "stale")
		{
			// call functions kept from a run of another compiler
			lua_rawgeti( L, LUA_REGISTRYINDEX, s->rObjs);
			bool active = false;
			int ki = s->kept.empty() ? 0 : atoi( a.args[0].c_str()) % (int)s->kept.size();
			for (RunCtx* x = c; x; x = x->parent) {lua_rawgeti( L, -1, x->spec->obj+1); if (s->kept.empty() || lua_touserdata( L, -1) == s->kept[ki]) active = true; lua_pop( L, 1);}
			if (!active) callKept( L, s, ki, atoi( a.args[1].c_str()));
		}
		else if (a.what == "tdb")
		{
			// a type database of the state used by all runs
			if (luaL_loadstring( L, "local t=tdb if not t.db then t.db=require('mewa').typedb() t.n=0 end t.n=t.n+1 t.db:scope({0,10}) local d=t.db:def_type(0,'v'..t.n,t.n) t.db:set_instance('i',t.n) local x=t.db:this_type(0,'v'..(t.n-t.n%3+1)) print(t.db:type_name(d),' ',x and t.db:type_constructor(x) or 'none',' ',t.db:get_instance('i'))") != 0) lua_error( L);
			lua_call( L, 0, 0);
			HostScope hs;
			long n = ++s->tdb, q = n - n%3 + 1;
			c->code += strf( "v%ld %s %ld", n, q > n ? "none" : strf( "%ld", q).c_str(), n);
		}
		else if (a.what == "err" || a.what == "caught")
		{
			const char* chunk = errChunk( a.args[0]);
			bool any = a.args[0] == "table" || a.args[0] == "nil";
			if (luaL_loadbuffer( L, chunk, strlen(chunk), c->spec->id % 2 ? "@ts.lua" : "=[prog]") != 0) lua_error( L);
			if (a.args.size() > 1) pushVal( L, a.args[1]); else lua_pushnil( L);
			if (lua_pcall( L, 1, 0, 0) == 0) {lua_settop( L, top); continue;}
			if (a.what == "caught") {lua_settop( L, top); continue;}
			const char* m = lua_type( L, -1) == LUA_TSTRING ? lua_tostring( L, -1) : "";
			{HostScope hs; c->raised = true; c->raisedMsg = m; c->raisedAny = any; note( ("err:" + a.args[0]).c_str());}
			lua_error( L);
		}
		else if (a.what == "nest" || a.what == "nestraise")
		{
			RunSpec* spec = nullptr;
			{
				HostScope hs;
				spec = new RunSpec();
				spec->id = c->spec->id*10 + 1;
				spec->obj = atoi( a.args[0].c_str()); spec->src = atoi( a.args[1].c_str()); spec->tpl = atoi( a.args[2].c_str()); spec->prog = atoi( a.args[3].c_str());
				spec->out = strf( "nest%d_%d.out", s->idx, c->depth);
			}
			if (c->depth >= 2 || spec->prog == c->spec->prog) continue;
			note( "nested runs");
			if (doNested( L, s, spec) != 0)
			{
				c->nestFailed = true;
				if (a.what == "nestraise" || faults().firedCpp || faults().firedLua)
				{
					const char* m = lua_type( L, -1) == LUA_TSTRING ? lua_tostring( L, -1) : "";
					{HostScope hs; c->raised = true; c->raisedMsg = m; c->raisedAny = false;}
					lua_error( L);
				}
			}
		}
		lua_settop( L, top);
	}
}

// the callback of every function of the type system
int callback( lua_State* L)
{
	State* s = t_state;
	RunCtx* c = s->cur;
	const char* fn = lua_tostring( L, lua_upvalueindex(1));
	int n = lua_gettop( L);
	size_t k = 0;
	{
		HostScope hs;
		if (!c && s->finalizing) return 0;
		if (!c) {violation( "C01", "callback", "function %s called outside of a run", fn); return 0;}
		k = c->k++;
		note( "callbacks");
		if (c->raised) bad( "C07", "continued", strf( "function %s called after an error was raised", fn), c);
		else if (!c->src->parse.ok) bad( "C03", "callback", strf( "function %s called though the source is not a sentence of the language", fn), c);
		else if (k >= c->src->top.size()) bad( "C01*", "callback", strf( "function %s called, but there are only %d top-level nodes", fn, (int)c->src->top.size()), c);
		else if (c->src->top[k].leaf) bad( "C01*", "callback", strf( "function %s called for a plain token", fn), c);
		s->rec.clear();
	}
	if (n >= 1) serNode( L, s, 1); else put( s, "no arguments");
	// arguments: node, object if defined, options if defined
	int want = 1;
	bool argsOk = true;
	if (n >= 1)
	{
		lua_pushliteral( L, "call"); lua_rawget( L, 1);
		if (lua_istable( L, -1))
		{
			lua_pushliteral( L, "obj"); lua_rawget( L, -2);
			if (!lua_isnil( L, -1)) {++want; if (n < 2 || !lua_rawequal( L, -1, 2)) argsOk = false;}
		}
		lua_settop( L, n);
	}
	if (c->spec->opt)
	{
		++want;
		lua_rawgeti( L, LUA_REGISTRYINDEX, s->rOpts);
		lua_rawgeti( L, -1, c->spec->opt);
		if (n < want || !lua_rawequal( L, -1, want)) argsOk = false;
		lua_settop( L, n);
	}
	{
		HostScope hs;
		if (k < c->src->top.size())
		{
			const Top& t = c->src->top[k];
			ev( "call %d %s", (int)k, strf( "%08x", (unsigned)fnv( 1, s->rec.data(), s->rec.size())).c_str());
			if (s->rec != t.text)
			{
				// only numbers of steps and scopes differ?
				auto strip = []( const std::string& x) {std::string r; for (size_t i=0; i<x.size(); ++i) {if (x[i] == ' ' && i+1<x.size() && (x[i+1] == 's' || x[i+1] == 'S')) {++i; while (i+1<x.size() && x[i+1] != ' ' && x[i+1] != ')') ++i;} else r += x[i];} return r;};
				size_t d = 0; while (d < s->rec.size() && d < t.text.size() && s->rec[d] == t.text[d]) ++d;
				size_t from = d > 60 ? d-60 : 0;
				bool stepsOnly = strip( s->rec) == strip( t.text);
				bad( stepsOnly ? "C02" : "C01*", stepsOnly ? "steps" : "tree", strf( "node %d passed to %s is ..%s.. expected ..%s..", (int)k+1, fn, s->rec.substr( from, 150).c_str(), t.text.substr( from, 150).c_str()), c);
			}
			else if (t.prod >= 0 && M->g.prods[ t.prod].fn != fn) bad( "C01*", "function", strf( "function %s called for node of %s", fn, M->g.prods[ t.prod].fn.c_str()), c);
			else if (!argsOk || n != want) bad( "C01", "arguments", strf( "function %s called with %d arguments, expected %d (node, object of the call, options)", fn, n, want), c);
		}
	}
	actions( L, s, c, (int)k+1);
	++c->done;
	return 0;
}

// ---------------------------------------------------------------- runs
std::string expandTemplate( const std::string& t, const std::map<std::string,std::string>& m)
{
	std::string rt;
	size_t i = 0;
	while (i < t.size())
	{
		if (t[i] == '{')
		{
			size_t e = t.find( '}', i+1);
			if (e == std::string::npos) {rt += t.substr( i); break;}
			std::string key = t.substr( i+1, e-i-1);
			auto f = m.find( key);
			if (f != m.end()) {rt += f->second; i = e+1; continue;}
			bool id = key.size() >= 2 && (alp( key[0]) || key[0] == '_');
			for (char c : key) if (!wrd( c)) id = false;
			if (id) {i = e+1; continue;}
		}
		rt += t[i++];
	}
	return rt;
}

// pushes the compiler object, returns 0 if there is none and it cannot be created
void pushObj( lua_State* L, State* s, int obj)
{
	lua_rawgeti( L, LUA_REGISTRYINDEX, s->rObjs);
	lua_rawgeti( L, -1, obj+1);
	if (lua_isnil( L, -1))
	{
		lua_pop( L, 1);
		lua_getglobal( L, "require"); lua_pushstring( L, "mewa"); lua_call( L, 1, 1);
		lua_getfield( L, -1, "compiler");
		lua_getglobal( L, "def");
		lua_call( L, 1, 1);
		lua_replace( L, -2);
		lua_pushvalue( L, -1);
		lua_rawseti( L, -3, obj+1);
	}
	lua_replace( L, -2);
}
std::set<std::string> globalNames( lua_State* L)
{
	std::set<std::string> rt;
	lua_pushglobaltable( L);
	lua_pushnil( L);
	while (lua_next( L, -2)) {if (lua_type( L, -2) == LUA_TSTRING) {HostScope hs; const char* n = lua_tostring( L, -2); if (strncmp( n, "mewa.calls", 10)) rt.insert( n);} lua_pop( L, 1);}
	lua_pop( L, 1);
	return rt;
}
std::string rest( const std::string& file, size_t& pos, bool commit)
{
	std::string t = slurp( file);
	std::string r = t.size() > pos ? t.substr( pos) : std::string();
	if (commit) pos = t.size();
	return r;
}

struct RunIn {State* s; const RunSpec* spec;};
// protected part: push object, function and arguments and call
int runBody( lua_State* L)
{
	RunIn* in = (RunIn*)lua_touserdata( L, 1);
	const RunSpec* p = in->spec;
	char b[ 128];
	if (M->chain)
	{
		// the generated program itself
		lua_createtable( L, 1, 1);
		{HostScope hs; snprintf( b, sizeof b, "%s", srcName( p->src).c_str());}
		lua_pushstring( L, b); lua_rawseti( L, -2, 1);
		lua_pushstring( L, "mewa.prg"); lua_rawseti( L, -2, 0);
		lua_setglobal( L, "arg");
		if (p->tpl >= 0) {{HostScope hs; snprintf( b, sizeof b, "%s", tplName( p->tpl).c_str());} lua_pushstring( L, b);} else lua_pushnil( L);
		lua_setglobal( L, "prm_target");
		if (p->opt) {lua_rawgeti( L, LUA_REGISTRYINDEX, in->s->rOpts); lua_rawgeti( L, -1, p->opt); lua_replace( L, -2);} else lua_pushnil( L);
		lua_setglobal( L, "prm_options");
		if (p->out.empty()) lua_pushnil( L); else lua_pushstring( L, p->out.c_str());
		lua_setglobal( L, "prm_output");
		if (luaL_loadfile( L, "program.lua") != 0) lua_error( L);
		lua_call( L, 0, LUA_MULTRET);
		lua_pushinteger( L, lua_gettop( L) - 1);
		return 1;
	}
	pushObj( L, in->s, p->obj);
	lua_getfield( L, -1, "run");
	lua_insert( L, -2);
	if (p->tpl >= 0) {{HostScope hs; snprintf( b, sizeof b, "%s", tplName( p->tpl).c_str());} lua_pushstring( L, b);} else lua_pushnil( L);
	if (p->opt) {lua_rawgeti( L, LUA_REGISTRYINDEX, in->s->rOpts); lua_rawgeti( L, -1, p->opt); lua_replace( L, -2);} else lua_pushnil( L);
	{HostScope hs; snprintf( b, sizeof b, "%s", srcName( p->src).c_str());}
	lua_pushstring( L, b);
	int n = 4;
	if (!p->out.empty() || p->dbg) {if (p->out.empty()) lua_pushnil( L); else lua_pushstring( L, p->out.c_str()); ++n;}
	if (p->dbg) {lua_pushstring( L, dbgNames[ in->s->idx]); ++n;}
	lua_call( L, n, LUA_MULTRET);
	lua_pushinteger( L, lua_gettop( L) - 1);
	return 1;
}

// the text of an error reached the caller; in an error of the library the location may have been completed
bool carries( const std::string& got, const std::string& raised)
{
	if (got.find( raised) != std::string::npos) return true;
	if (raised[0] != '#') return false;
	size_t i = 1; while (i < raised.size() && isdigit( (unsigned char)raised[i])) ++i;
	while (i < raised.size() && raised[i] == ' ') ++i;
	if (raised[i] != '"') return false;
	size_t e = raised.find( '"', i+1);
	if (e == std::string::npos || got.find( raised.substr( 0, e+1)) == std::string::npos) return false;
	std::string r = raised.substr( e+1);
	if (r.compare( 0, 9, " at line ") == 0)
	{
		i = 9; while (i < r.size() && (isdigit( (unsigned char)r[i]) || r[i] == '-')) ++i;
		if (r.compare( i, 10, " in file \"") == 0) {i = r.find( '"', i+10); if (i == std::string::npos) return false; ++i;}
		r = r.substr( i);
	}
	return got.find( r) != std::string::npos;
}
struct Obs {int rc; std::string msg; long nres;};

// check what a finished run left behind; c holds what the callbacks did
void verify( State* s, RunCtx& c, const Obs& o, bool anyFault, bool outFault, const std::string& before, bool existed, bool top)
{
	const RunSpec& p = *c.spec;
	const Src& src = *c.src;
	bool ok = o.rc == 0;
	std::string outfile = p.out.empty() || p.out == "stdout" ? "stdout.txt" : p.out == "stderr" ? "stderr.txt" : p.out;
	bool stream = outfile == "stdout.txt" || outfile == "stderr.txt";
	size_t* pos = outfile == "stdout.txt" ? &s->outPos : &s->errPos;
	ev( "run %d rc %d calls %d", p.id, ok ? 0 : 1, (int)c.k);
	// -- expected result
	size_t ncalls = src.top.size();
	bool leaf = false;
	if (src.parse.ok) for (size_t i=0; i<src.top.size(); ++i) if (src.top[i].leaf) {ncalls = i; leaf = true; break;}
	bool expectOk = src.parse.ok && !leaf && !c.raised;
	if (M->fns.empty()) {expectOk = src.parse.ok; leaf = false; ncalls = 0;}
	const char* accProp = src.parse.ok ? "C01*" : M->prop == "G01" ? "G01" : "C03";
	if (ok)
	{
		if (!src.parse.ok) bad( accProp, "accepted", strf( "source that is not a sentence of the language was accepted, first bad token is %s at line %d", src.parse.errTok >= 0 && src.toks[src.parse.errTok].term >= 0 ? M->g.symName( src.toks[src.parse.errTok].term).c_str() : "?", src.parse.errTok >= 0 ? src.toks[src.parse.errTok].line : 0), &c);
		else if (c.raised) bad( "C07", "swallowed", "an error raised in a callback did not reach the caller: " + quote( c.raisedMsg), &c);
		else if (c.done != c.k) bad( "C07", "swallowed", strf( "%d of %d functions called did not complete because of an error, that did not reach the caller", (int)(c.k-c.done), (int)c.k), &c);
		else if (leaf) bad( "C01*", "leaf", "a top-level token without a function did not raise an error", &c);
		else if (c.k != ncalls) bad( "C01*", "calls", strf( "%d functions called, expected %d", (int)c.k, (int)ncalls), &c);
		else if (o.nres != 0) bad( "C05", "results", strf( "run returned %ld values", o.nres), &c);
	}
	else
	{
		if (o.msg.empty() && !anyFault && !c.raisedAny) bad( expectOk ? "C01*" : src.parse.ok ? "C07" : "C03", "message", "error without message", &c);
		if (expectOk && !anyFault)
		{
			bool dflt = !o.msg.empty();
			(void)dflt;
			const char* pr = "C01*";
			if (c.k == ncalls) pr = M->prop == "G05" ? "G05" : "C05";
			bad( pr, "failed", strf( "run of a sentence of the language failed after %d of %d calls with ", (int)c.k, (int)ncalls) + quote( o.msg, 500), &c);
		}
		else if (!anyFault && !src.parse.ok)
		{
			if (c.k) bad( "C03", "callback", "functions were called for a source with a syntax error", &c);
			const Tok& t = src.toks[ src.parse.errTok];
			std::string at = strf( "at line %d", t.line);
			size_t ap = o.msg.find( at);
			if (ap == std::string::npos || isdigit( (unsigned char)o.msg[ ap + at.size()])) bad( "C03", "line", strf( "the first bad token is at line %d: ", t.line) + quote( o.msg, 400), &c);
			else if (t.term >= 0)
			{
				// the token named is the first one that cannot continue
				std::string nm = t.term == END ? "$" : M->g.terms[t.term].type == 1 ? M->g.terms[t.term].name : M->g.terms[t.term].name + " = \"" + t.value + "\"";
				size_t br = o.msg.find( " { ");
				std::string head = br == std::string::npos ? o.msg : o.msg.substr( 0, br);
				for (size_t q = 0; br != std::string::npos && (q = o.msg.find( " { ", br+1)) != std::string::npos; br = q) head = o.msg.substr( 0, q);
				if (t.value.find( '\0') == std::string::npos && head.find( nm) == std::string::npos) bad( "C03", "token", "the first bad token is " + quote( nm) + ": " + quote( o.msg, 400), &c);
				else if (o.msg.find( "#601") == std::string::npos) bad( "C03", "code", "expected an error 'unexpected token': " + quote( o.msg, 400), &c);
			}
		}
		else if (!anyFault && c.raised)
		{
			if (!c.raisedAny && !carries( o.msg, c.raisedMsg))
			{
				bad( "C07", "message", "the callback raised " + quote( c.raisedMsg, 300) + ", the caller got " + quote( o.msg, 300), &c);
			}
		}
		else if (!anyFault && leaf && c.k != ncalls) bad( "C01*", "calls", strf( "%d functions called, expected %d", (int)c.k, (int)ncalls), &c);
		if (!anyFault && c.raised && c.k > ncalls) bad( "C07", "continued", "functions called after the error", &c);
	}
	// -- output
	std::string got = stream ? rest( outfile, *pos, true) : slurp( outfile);
	if (outfile == "stderr.txt" && top && s->errText.size())
	{
		// ... debug output goes to stderr first
		if (got.compare( 0, s->errText.size(), s->errText) == 0) got.erase( 0, s->errText.size());
		else if (!anyFault) bad( "C05", "debug", "debug output on stderr is " + quote( got) + " expected " + quote( s->errText), &c);
	}
	else if (outfile != "stderr.txt" && top) (void)rest( "stderr.txt", s->errPos, true);
	if (outfile != "stdout.txt" && top)
	{
		std::string other = rest( "stdout.txt", s->outPos, true);
		if (!other.empty() && !c.bad) bad( "C05", "stdout", "unexpected output on stdout " + quote( other), &c);
	}
	if (ok && expectOk)
	{
		std::map<std::string,std::string> m = c.sect;
		m["Source"] = srcName( p.src);
		m["Triple"] = p.tpl >= 0 ? tplTriple( p.tpl) : "";
		m["Code"] += c.code;
		std::string want = p.tpl >= 0 ? expandTemplate( M->tpls[p.tpl], m) : std::string();
		if (outfile == "stdout.txt") want += "\n";
		c.wantSize = want.size();
		if (got != want)
		{
			size_t d = 0; while (d < got.size() && d < want.size() && got[d] == want[d]) ++d;
			size_t from = d > 30 ? d-30 : 0;
			bad( M->prop == "G05" || outFault ? "G05" : M->prop == "C06" ? "C06" : "C05", "output", strf( "output of %d bytes differs from %d expected at %d: ..%s.. expected ..%s..", (int)got.size(), (int)want.size(), (int)d, quote( got.substr( from, 80)).c_str(), quote( want.substr( from, 80)).c_str()), &c);
		}
		ev( "output %08x", (unsigned)fnv( 1, got.data(), got.size()));
		if (want.size() > 4096) probe( "output larger than a buffer");
	}
	else if (!ok)
	{
		bool changed = stream ? !got.empty() : (exists( outfile) != existed || got != before);
		if (changed && !outFault) bad( !src.parse.ok ? "C03" : "C07", "written", "output was written by a run that failed: " + quote( got), &c);
	}
	// -- debug file
	if (p.dbg && ok && !anyFault && c.dbg.size())
	{
		std::string d = slurp( dbgNames[ s->idx]);
		size_t at = 0; std::string l;
		for (size_t i=0; i<c.dbg.size() && at != std::string::npos; )
		{
			size_t e = c.dbg.find( '\n', i);
			at = d.find( c.dbg.substr( i, e+1-i), at);
			if (at != std::string::npos) at += e+1-i;
			i = e+1;
		}
		if (at == std::string::npos) bad( "C05", "debug", "debug output missing in the debug file", &c);
	}
}

// check the globals and open files after a run
int envCheck( lua_State* L)
{
	State* s = (State*)lua_touserdata( L, 1);
	struct {const char* n; int ref;} tab[] = {{"print",s->rPrint},{"debug",s->rDebug},{"print_section",s->rSection}};
	for (auto& t : tab)
	{
		lua_getglobal( L, t.n); lua_rawgeti( L, LUA_REGISTRYINDEX, t.ref);
		bool eq = lua_rawequal( L, -1, -2);
		lua_pop( L, 2);
		if (!eq) {lua_pushstring( L, t.n); return 1;}
	}
	return 0;
}

Obs execRun( lua_State* L0, State* s, RunCtx& c)
{
	// the caller is in the scope of the code under test
	lua_State* L = L0;
	int base = lua_gettop( L0);
	RunIn in = {s,c.spec};
	if (c.spec->co) {FaultCtx f = faults(); faults() = FaultCtx(); L = lua_newthread( L0); faults() = f;}
	RunCtx* saved = s->cur;
	c.parent = saved;
	s->cur = &c;
	int b2 = lua_gettop( L);
	lua_pushcfunction( L, runBody);
	lua_pushlightuserdata( L, &in);
	int rc;
	{TrackScope ts; rc = lua_pcall( L, 1, 1, 0);}
	{SutScope ss; lua_gc( L, LUA_GCRESTART, 0);}
	if (!saved) dropExceptions();
	s->cur = saved;
	Obs o;
	{
		HostScope hs;
		o.rc = rc;
		o.nres = 0;
		if (rc == 0) o.nres = lua_tointeger( L, -1);
		else if (lua_type( L, -1) == LUA_TSTRING) {size_t n; const char* m = lua_tolstring( L, -1, &n); o.msg.assign( m, n);}
		else o.msg = strf( "(%s)", lua_typename( L, lua_type( L, -1)));
	}
	lua_settop( L, b2);
	if (rc != 0 && c.spec->co) {}
	lua_settop( L0, base);
	return o;
}

int doNested( lua_State* L, State* s, const RunSpec* spec)
{
	RunCtx* c; std::string* before; bool existed; int rc;
	char msg[ 4000];
	{
		HostScope hs;
		auto si = M->srcs.find( spec->src);
		if (si == M->srcs.end() || (spec->tpl >= 0 && !M->tpls.count( spec->tpl))) return 0;
		c = new RunCtx(); c->st = s; c->spec = spec; c->src = &si->second; c->depth = s->cur->depth+1;
		before = new std::string( slurp( spec->out)); existed = exists( spec->out);
	}
	{
		Obs* o;
		{HostScope hs; o = new Obs();}
		*o = execRun( L, s, *c);
		HostScope hs;
		bool fault = faults().firedCpp || faults().firedLua;
		for (auto& f : ioFaultList()) if (f.fired && f.kind != "short") fault = true;
		verify( s, *c, *o, fault, fault, *before, existed, false);
		rc = o->rc;
		snprintf( msg, sizeof msg, "%s", o->msg.c_str());
	}
	if (rc) lua_pushstring( L, msg);
	return rc;
}

void runOne( State* s, const RunSpec& p)
{
	auto si = M->srcs.find( p.src);
	if (si == M->srcs.end() || (p.tpl >= 0 && !M->tpls.count( p.tpl))) return;
	snprintf( g_shm->op, sizeof(g_shm->op), "run %d src %d prog %d", p.id, p.src, p.prog);
	lua_State* L = s->L;
	RunCtx c; c.st = s; c.spec = &p; c.src = &si->second;
	bool stream = p.out.empty() || p.out == "stdout" || p.out == "stderr";
	std::string before; bool existed = false;
	if (!stream)
	{
		if (p.old) spit( p.out, "OLD CONTENT"); else unlink( p.out.c_str());
		before = slurp( p.out); existed = exists( p.out);
	}
	int savedFd = -1;
	if (p.full && stream)
	{
		int fd = p.out == "stderr" ? 2 : 1;
		fflush( stdout); fflush( stderr);
		savedFd = dup( fd);
		int f = open( "/dev/full", O_WRONLY);
		if (f >= 0) {dup2( f, fd); close( f);}
	}
	ioFaults( p.io);
	FaultCtx f; f.failCpp = p.failCpp; f.failLua = p.failLua; f.egc = p.egc; f.persistent = p.persistent;
	int open0 = openFiles();
	Obs o;
	s->errText.clear();
	faults() = f;
	setStepBudget( stepBudgetDefault);
	{
		SutScope ss;
		o = execRun( L, s, c);
	}
	setStepBudget( 0);
	FaultCtx r = faults();
	faults() = FaultCtx();
	fflush( stdout); fflush( stderr);
	bool fullFired = false;
	if (savedFd >= 0) {int fd = p.out == "stderr" ? 2 : 1; dup2( savedFd, fd); close( savedFd); fullFired = true; note( "fault:device full"); clearerr( stdout); clearerr( stderr);}
	if (r.firedCpp) note( "fault:alloc C++", r.firedCpp);
	if (r.firedLua) note( "fault:alloc Lua", r.firedLua);
	if (r.firedEgc) note( "fault:emergency gc", r.firedEgc);
	bool ioErr = false, wr = false;
	for (auto& x : ioFaultList()) if (x.fired && x.kind != "short") {ioErr = true; if (x.op == "write" || x.op == "close" || x.op == "open") wr = true;}
	bool mem = r.firedCpp || r.firedLua;
	std::vector<IoFault> used = ioFaultList();
	ioFaults( {});
	note( "ops");
	bool complete = c.k == c.src->top.size();
	verify( s, c, o, mem || ioErr || fullFired, wr || fullFired || (mem && complete), before, existed, true);
	// a failed operation must not be reported as success
	if (o.rc == 0 && c.src->parse.ok && !c.bad && !c.nestFailed)
	{
		for (auto& x : used) if (x.fired && x.kind != "short" && !(x.op == "close" && x.match.find( "debug") != std::string::npos) && !(x.op == "close" && (x.match.find( ".prg") != std::string::npos || x.match.find( "t0.tpl") != std::string::npos || x.match.find( "tp.x") != std::string::npos || x.match.find( "x86_64") != std::string::npos)))
			{bad( "G05", "success", strf( "%s of %s failed with %s, but the run reports success", x.op.c_str(), x.match.c_str(), x.kind.c_str()), &c); break;}
		if (fullFired && c.wantSize) bad( "G05", "success", "the device is full, but the run reports success", &c);
	}
	if (o.rc == 0) note( "runs ok"); else {note( "runs failed"); ++s->failed;}
	if (mem && o.rc == 0) probe( "run survived allocation failure");
	if (s->single && openFiles() != open0) {bad( M->prop == "G05" ? "G05" : "C06", "open files", strf( "%d files left open by a run that %s", openFiles()-open0, o.rc ? "failed" : "returned"), &c);}
	{
		SutScope ss;
		lua_pushcfunction( L, envCheck); lua_pushlightuserdata( L, s);
		if (lua_pcall( L, 1, 1, 0) == 0 && lua_isstring( L, -1)) {HostScope hs; std::string n = lua_tostring( L, -1); bad( "C06", "environment", "global '" + n + "' not restored by a run that " + (o.rc ? "failed" : "returned"), &c);}
		lua_pop( L, 1);
	}
	std::set<std::string> g = globalNames( L);
	if (g != s->globals && !M->chain)
	{
		std::string d; for (auto& n : g) if (!s->globals.count( n)) d += " +" + n;
		for (auto& n : s->globals) if (!g.count( n)) d += " -" + n;
		if (d != " -def" ) bad( "C06", "globals", "the run changed the globals:" + d, &c);
		s->globals = g;
	}
	++s->runs;
}

// a finalizer called after all others when closing the state: compilers and functions of theirs can still be reached
int lastFinalizer( lua_State* L)
{
	State* s = t_state;
	int top = lua_gettop( L);
	for (size_t i=0; i<s->kept.size(); ++i) for (int f=0; f<2; ++f) callKept( L, s, i, 30+f);
	lua_rawgeti( L, LUA_REGISTRYINDEX, s->rObjs);
	for (int i=0; i<3; ++i)
	{
		lua_rawgeti( L, LUA_REGISTRYINDEX, s->rRun);
		lua_rawgeti( L, top+1, i+1);
		if (!lua_isnil( L, -1) && lua_isfunction( L, -2))
		{
			lua_pushnil( L); lua_pushnil( L); lua_pushstring( L, "src0.prg"); lua_pushstring( L, "fin.out");
			s->cur = nullptr; s->finalizing = true;
			int rc = lua_pcall( L, 5, 0, 0);
			note( rc ? "runs of a destroyed compiler refused" : "runs of a destroyed compiler");
		}
		lua_settop( L, top+1);
	}
	lua_settop( L, top);
	return 0;
}
void setupState( State* s, bool fin)
{
	SutScope ss;
	lua_State* L = s->L = newState();
	luaL_openlibs( L);
	luaL_requiref( L, "mewa", luaopen_mewa, 1);
	lua_settop( L, 0);
	if (fin)
	{
		lua_newtable( L);
		lua_newtable( L); lua_pushcfunction( L, lastFinalizer); lua_setfield( L, -2, "__gc");
		lua_setmetatable( L, -2);
		lua_setfield( L, LUA_REGISTRYINDEX, "lastFinalizer");
	}
	luaL_dostring( L, "print=function(...) end tdb={}");
	lua_getglobal( L, "print"); s->rPrint = luaL_ref( L, LUA_REGISTRYINDEX);
	lua_getglobal( L, "debug"); s->rDebug = luaL_ref( L, LUA_REGISTRYINDEX);
	if (M->typedTable) {lua_newtable( L); lua_setglobal( L, "print_section");}
	lua_getglobal( L, "print_section");
	if (lua_isnil( L, -1)) {lua_pop( L, 1); s->rSection = LUA_REFNIL;} else s->rSection = luaL_ref( L, LUA_REGISTRYINDEX);
	// the type system
	lua_newtable( L);		// typesystem
	lua_newtable( L);		// procs
	for (auto& fn : M->fns)
	{
		lua_pushstring( L, fn.c_str());
		lua_pushcclosure( L, callback, 1);
		lua_pushvalue( L, -1);
		lua_setfield( L, -3, fn.c_str());
		lua_setfield( L, -3, fn.c_str());
	}
	s->rProcs = luaL_ref( L, LUA_REGISTRYINDEX);
	lua_newtable( L);
	for (int i=0; i<3; ++i)
	{
		lua_newtable( L);
		lua_pushvalue( L, -1);
		lua_rawseti( L, -3, i+1);
		lua_setfield( L, -3, strf( "arg%d", i).c_str());
	}
	s->rArgs = luaL_ref( L, LUA_REGISTRYINDEX);
	lua_setglobal( L, "typesystem");
	if (M->chain) luaL_dostring( L, "package.loaded['ts']=typesystem package.preload['sim.cl']=function() return {parse=function(lang,a) if lang~='sim' then error('language name '..tostring(lang)) end return {target=prm_target,options=prm_options,input=a[1],output=prm_output} end} end");
	lua_newtable( L);
	lua_newtable( L); lua_rawseti( L, -2, 1);
	lua_pushstring( L, "opts"); lua_rawseti( L, -2, 2);
	lua_pushboolean( L, 0); lua_rawseti( L, -2, 3);
	lua_pushinteger( L, 42); lua_rawseti( L, -2, 4);
	s->rOpts = luaL_ref( L, LUA_REGISTRYINDEX);
	lua_newtable( L); s->rObjs = luaL_ref( L, LUA_REGISTRYINDEX);
	lua_newtable( L); s->rKept = luaL_ref( L, LUA_REGISTRYINDEX);
	if (luaL_loadbuffer( L, M->defChunk.c_str(), M->defChunk.size(), "=def") || lua_pcall( L, 0, 1, 0))
	{
		HostScope hs;
		violation( "G01", "load", "generated table is not valid Lua: %s", lua_tostring( L, -1));
		lua_pushnil( L);
	}
	lua_setglobal( L, "def");
	if (M->chain) {lua_pushnil( L); lua_setglobal( L, "typesystem"); lua_pushnil( L); lua_setglobal( L, "mewa");}
	// texts of the objects attached to calls
	for (auto& p : M->g.prods) if (p.argKind)
	{
		{HostScope hs; s->rec.clear();}
		if (p.argKind == 1) {lua_rawgeti( L, LUA_REGISTRYINDEX, s->rArgs); lua_rawgeti( L, -1, p.arg[3]-'0'+1);}
		else if (p.argKind == 2) {lua_pushlstring( L, p.arg.data(), p.arg.size());}
		else if (p.argKind == 3) lua_pushnumber( L, atoi( p.arg.c_str()));
		else luaL_dostring( L, ("return " + p.arg).c_str());
		serObj( L, s, -1, 0);
		{HostScope hs; s->objText[ M->g.callName( p) + (char)('0' + p.argKind)] = s->rec;}
		lua_settop( L, 0);
	}
	HostScope hs;
	s->globals = globalNames( L);
}

void execB( const Plan& plan)
{
	Model model; M = &model;
	M->prop = plan.prop;
	Line knob;
	std::vector<std::pair<int,Line> > ops;		// state, line; io lines attached by order
	std::vector<Line> all;
	std::vector<Quantum> sched;
	for (auto& t : plan.lines)
	{
		Line l = Line::parse( t);
		const std::string& k = l.at(0);
		if (M->g.addLine( l)) continue;
		if (k == "knob") knob = l;
		else if (k == "txt") {std::string x = unhex( l.at(2)); long n = l.geti( "n", 1); std::string& d = M->srcs[ l.num(1)].text; for (long i=0; i<n; ++i) d += x;}
		else if (k == "tpl") {std::string x = unhex( l.at(2)); long n = l.geti( "n", 1); std::string& d = M->tpls[ l.num(1)]; for (long i=0; i<n; ++i) d += x;}
		else if (k == "act") {Act a; a.at = l.num(2); a.what = l.at(3); for (size_t i=4; i<l.w.size(); ++i) a.args.push_back( l.w[i]); M->progs[ l.num(1)].push_back( a);}
		else if (k == "q") sched.push_back( {(int)l.num(1), l.num(2)});
		else all.push_back( l);
	}
	allocInit( knobsOf( knob));
	if (!M->g.wellFormed()) return;
	M->an.reset( new Analysis( M->g));
	if (!M->an->productive()) return;
	M->tab = Tables::build( M->g, *M->an, false);
	if (M->tab.tooBig) return;
	if (M->tab.conflicts)
	{
		// not SLR(1), the language is the one of LR(1) if there are no priorities
		if (M->prop != "G01") return;
		for (auto& p : M->g.prods) if (p.assoc) return;
		M->tab = Tables::build( M->g, *M->an, true);
		if (M->tab.conflicts || M->tab.tooBig) return;
		M->canonical = true;
	}
	M->chain = knob.geti( "chain", 0);
	M->typedTable = knob.geti( "section", 0);
	for (auto& p : M->g.prods) if (!p.fn.empty()) M->fns.insert( p.fn);
	// -- generate the tables
	mkdir( "sub", 0755);
	std::vector<std::string> cmds = {"% LANGUAGE \"sim\";","% TYPESYSTEM \"ts\";"};
	if (M->chain == 2) cmds.push_back( "% CMDLINE \"sim.cl\";");
	spit( "gram.g", M->g.text( knob.geti( "style", 0), cmds));
	spit( "gen.tpl", "return %automaton%");
	snprintf( g_shm->op, sizeof(g_shm->op), "mewa -g");
	ioFaults( {});
	int st = runForked( [&]{
		stdioCapture( "gen.out", "gen.err");
		const char* argv[] = {"mewa","-g","-t","gen.tpl","-o","gen.lua","gram.g",nullptr};
		int rc;
		setStepBudget( stepBudgetDefault * 20);
		{SutScope ss; rc = mewa_program_main( 7, argv);}
		fflush( stdout); fflush( stderr);
		_exit( rc ? 1 : 0);
	});
	if (WIFSIGNALED(st)) {signal( WTERMSIG(st), SIG_DFL); raise( WTERMSIG(st));}
	if (WEXITSTATUS(st) > 1) _exit( WEXITSTATUS(st));
	if (WEXITSTATUS(st) == 0 && M->chain)
	{
		st = runForked( [&]{
			stdioCapture( "program.lua", "gen.err");
			const char* argv[] = {"mewa","-g","gram.g",nullptr};
			int rc;
			setStepBudget( stepBudgetDefault * 20);
			{SutScope ss; rc = mewa_program_main( 3, argv);}
			fflush( stdout); fflush( stderr);
			_exit( rc ? 1 : 0);
		});
		if (WIFSIGNALED(st)) {signal( WTERMSIG(st), SIG_DFL); raise( WTERMSIG(st));}
		if (WEXITSTATUS(st) > 1) _exit( WEXITSTATUS(st));
	}
	if (WEXITSTATUS(st) != 0 && (M->g.terms.size() > 300 || M->g.prods.size() > 90) && slurp( "gen.err").find( "#577") != std::string::npos) {note( "number of FOLLOW sets beyond the limit"); return;}
	if (WEXITSTATUS(st) != 0 && M->canonical) {note( M->tab.lalr ? "LALR(1) grammars refused (decided by G02)" : "LR(1) grammars, not LALR(1), refused"); return;}
	if (M->canonical) note( M->tab.lalr ? "LALR(1) grammars, not SLR(1)" : "LR(1) grammars, not LALR(1)");
	if (WEXITSTATUS(st) != 0)
	{
		violation( "G02", "refused", "grammar refused: %s", quote( slurp( "gen.err"), 300).c_str());
		note( "grammars refused");
		return;
	}
	M->defChunk = slurp( "gen.lua");
	note( "grammars");
	maxnote( "max:productions", M->g.prods.size());
	// -- what the sources mean
	for (auto& s : M->srcs)
	{
		Src& x = s.second;
		x.toks = lex( M->g, x.text);
		x.parse = parse( M->g, M->tab, x.toks);
		if (x.parse.ok)
		{
			TreeOut to( M->g, x.parse.tree, x.toks);
			to.run();
			x.top = to.top;
		}
		note( x.parse.ok ? "sentences" : "non-sentences");
		note( "tokens", x.toks.size());
		maxnote( "max:tokens of a source", x.toks.size());
		maxnote( "max:depth", x.parse.depth);
		spit( srcName( s.first), x.text);
	}
	for (auto& t : M->tpls) spit( tplName( t.first), t.second);
	if (!verbose()) stdioCapture( "stdout.txt", "stderr.txt"); else stdioCapture( "stdout.txt", "stderr.txt");
	ioChunk( knob.geti( "chunk", 0));
	if (M->prop == "T10") trackMemory();
	int nst = std::max( 1, std::min( 3, (int)knob.geti( "states", 1)));
	auto work = [&]( int idx) {
		State* s;
		{HostScope hs; s = new State(); s->idx = idx; s->single = nst == 1; t_state = s;}
		setupState( s, knob.geti( "fin", 0));
		if (idx == 0 || nst > 1) {SutScope ss; lua_gc( s->L, LUA_GCSETPAUSE, knob.geti( "gcpause", 200)); lua_gc( s->L, LUA_GCSETSTEPMUL, knob.geti( "gcmul", 200));}
		std::vector<IoFault> pend;
		int id = 0;
		for (auto& l : all)
		{
			if (l.geti( "st", 0) != idx) {continue;}
			if (nst > 1) {SutScope ss; yieldPoint( 0);}
			if (l.at(0) == "io") {IoFault f; f.match = l.at(1); f.op = l.at(2); f.at = l.num(3); f.kind = l.at(4); pend.push_back( f); continue;}
			if (l.at(0) != "op") continue;
			++id;
			const std::string& v = l.at(1);
			if (v == "run")
			{
				RunSpec p;
				p.id = id; p.obj = l.geti( "obj", 0); p.src = l.geti( "src", 0); p.tpl = l.geti( "tpl", -1); p.prog = l.geti( "prog", -1); p.opt = l.geti( "opt", 0);
				p.out = l.get( "out"); p.dbg = l.geti( "dbg", 0); p.co = l.geti( "co", 0); p.full = l.geti( "full", 0); p.old = l.geti( "old", 0);
				p.failCpp = l.geti( "failcpp", 0); p.failLua = l.geti( "faillua", 0); p.egc = l.geti( "egc", 0); p.persistent = l.geti( "persist", 0);
				p.io = pend; pend.clear();
				if (M->chain == 1) {p.out.clear(); p.opt = 0; p.tpl = -1; p.dbg = false;}
				if (nst > 1) {p.out = strf( "s%d_out", idx); p.full = false;}
				runOne( s, p);
			}
			else if (v == "gc") {SutScope ss; lua_gc( s->L, LUA_GCCOLLECT, 0);}
			else if (v == "drop") {SutScope ss; lua_rawgeti( s->L, LUA_REGISTRYINDEX, s->rObjs); lua_pushnil( s->L); lua_rawseti( s->L, -2, l.geti( "obj", 0)+1); lua_settop( s->L, 0);}
			else if (v == "stale")
			{
				if (!s->kept.empty()) {SutScope ss; callKept( s->L, s, l.geti( "k", 0) % (int)s->kept.size(), l.geti( "n", 0));}
				s->errText.clear();
				if (nst == 1) {fflush( stderr); (void)rest( "stderr.txt", s->errPos, true);}
			}
			else if (v == "spawn")
			{
				// many short-lived compilers
				SutScope ss;
				lua_State* L = s->L;
				lua_getglobal( L, "require"); lua_pushstring( L, "mewa"); lua_pcall( L, 1, 1, 0);
				for (long k=0; k<l.geti( "n", 0) && lua_istable( L, 1); ++k) {lua_getfield( L, 1, "compiler"); lua_getglobal( L, "def"); lua_pcall( L, 1, 1, 0); lua_settop( L, 1);}
				lua_settop( L, 0);
				lua_gc( L, LUA_GCCOLLECT, 0); lua_gc( L, LUA_GCCOLLECT, 0);
			}
			else if (v == "unkeep") {SutScope ss; lua_newtable( s->L); lua_rawseti( s->L, LUA_REGISTRYINDEX, s->rKept); {HostScope hs; s->kept.clear();}}
			else if (v == "defdrop") {SutScope ss; lua_pushnil( s->L); lua_setglobal( s->L, "keepdef");}
			if (nofViolations() > 3) break;
		}
		snprintf( g_shm->op, sizeof(g_shm->op), "lua_close");
		if (knob.geti( "fin", 0))
		{
			SutScope ss; lua_rawgeti( s->L, LUA_REGISTRYINDEX, s->rObjs);
			for (int i=0; i<3; ++i) {lua_rawgeti( s->L, 1, i+1); if (lua_isuserdata( s->L, -1)) {lua_getfield( s->L, -1, "run"); s->rRun = luaL_ref( s->L, LUA_REGISTRYINDEX); break;} lua_settop( s->L, 1);}
			lua_settop( s->L, 0);
		}
		closeState( s->L);
		if (openFiles() && nst == 1) violation( "C06", "open files", "%d files open after closing the state", openFiles());
	};
	if (nst == 1) work( 0);
	else
	{
		std::vector<std::function<void()> > fns;
		for (int i=0; i<nst; ++i) fns.push_back( [&,i]{work( i);});
		setPreemption( knob.geti( "pre", 0));
		runActors( fns, sched);
		setPreemption( false);
		probe( "interleaved states");
	}
	if (M->prop == "T10")
	{
		std::string lost = unreleased();
		if (!lost.empty()) violation( "T10", "unreleased", "memory not released after all compilers and Lua states are closed: %s", lost.c_str());
	}
	note( "sim_steps", totalSteps());
}

// ---------------------------------------------------------------- generation of plans
std::string randBytes( Rng& r, int n, const char* set) {return rep( r, n, n, set);}

struct GenB
{
	Rng r; std::string prop; bool thorough;
	std::vector<std::string> L;
	Gram g;
	int nsrc = 0, ntpl = 0, nprog = 0;
	std::vector<int> goodSrc, badSrc;
	std::unique_ptr<Analysis> an; Tables tab;
	GenB( uint64_t seed, const std::string& p, bool th) :r(seed),prop(p),thorough(th) {}

	void grammar()
	{
		GenOpt o;
		int k = r.below( 100);
		if (prop == "C04") {o.tokenList = k < 80; o.indent = r.chance( 35);}
		else if (prop == "C05" || prop == "G05" || prop == "C07") {o.random = k < 10; o.indent = k >= 90; o.size = 2; o.precedence = r.chance( 15);}
		else {o.random = k < 30; o.indent = k >= 80; o.precedence = r.chance( 25); o.size = r.range( 1, 4);}
		if (prop == "G01") {o.random = k < 55; o.indent = k >= 92; o.precedence = r.chance( 40); o.size = r.range( 1, 3); o.general = r.chance( 60);}
		if ((prop == "C01" || prop == "C02" || prop == "C03" || prop == "G01") && r.chance( 3)) wideOpt( r, o, thorough);
		g = genGram( r, o);
		an.reset( new Analysis( g)); tab = Tables::build( g, *an, false); if (tab.conflicts) tab = Tables::build( g, *an, true);
		for (auto& l : g.lines()) L.push_back( l);
	}
	int src( int badPct, int budget, int depth)
	{
		SrcGen sg( g, r);
		SrcOpt o; o.badPct = badPct; o.budget = budget; o.depth = depth;
		std::vector<std::string> p = sg.source( o);
		int id = nsrc++;
		int grp = p.size() > 200 ? p.size() / 60 : 1;
		std::string all;
		for (size_t i=0; i<p.size(); i+=grp)
		{
			std::string t;
			for (size_t k=i; k<i+grp && k<p.size(); ++k) t += p[k];
			L.push_back( strf( "txt %d %s", id, hex( t).c_str()));
			all += t;
		}
		if (p.empty()) L.push_back( strf( "txt %d h", id));
		std::vector<Tok> tk = lex( g, all);
		(parse( g, tab, tk).ok ? goodSrc : badSrc).push_back( id);
		return id;
	}
	void longToken()
	{
		// a source with one very long token
		SrcGen sg( g, r);
		std::vector<int> s = sg.d.sentence( r, 10, 15);
		SrcOpt o; o.plain = true;
		std::vector<std::string> p = sg.render( s, o);
		int id = nsrc++;
		bool done = false;
		for (auto& t : p)
		{
			size_t q = t.find( '"');
			bool com = !done && r.chance( 50);
			L.push_back( strf( "txt %d %s", id, hex( q == std::string::npos || done ? t : t.substr( 0, q+1)).c_str()));
			if (q != std::string::npos && !done) {done = true; L.push_back( strf( "txt %d %s n=%d", id, hex( "x").c_str(), r.range( 1000, 150000))); L.push_back( strf( "txt %d %s", id, hex( t.substr( q+1)).c_str()));}
			(void)com;
		}
		if (!done) {L.push_back( strf( "txt %d %s n=%d", id, hex( " ").c_str(), r.range( 1000, 150000))); L.push_back( strf( "txt %d %s", id, hex( "x").c_str())); L.push_back( strf( "txt %d %s n=%d", id, hex( "y").c_str(), r.range( 1000, 150000)));}
		goodSrc.push_back( id);
	}
	std::string val()
	{
		switch (r.below( 9))
		{
			case 0: return strf( "i%d", r.range( -5, 100000));
			case 1: return strf( "f%d.%d", r.below( 20), r.range( 1, 9));
			case 2: return r.chance( 50) ? "b1" : "b0";
			case 3: return "n";
			case 4: return "s" + hex( rep( r, 0, r.chance( 10) ? 5000 : 30, "ab{}\n\t %\\\"Code"));
			case 5: return "s" + hex( r.pick( std::vector<std::string>{"{Code}","{Source}","{x","}",std::string("a\0b",3),"%s%d","\xc3\xa4\xff","\r\n",""}));
			default: return "s" + hex( rep( r, 0, 8, "abcxyz \n"));
		}
	}
	std::string sectName() {static const std::vector<std::string> n = {"Code","S1","Data","Consts","x","_a1","Source","Triple","a b","S2"}; return "s" + hex( r.pick( n));}
	int printProg( int ncall)
	{
		int id = nprog++;
		int n = r.range( 1, 6);
		for (int i=0; i<n; ++i)
		{
			int at = r.chance( 40) ? 0 : r.range( 1, std::max( 1, ncall));
			int k = r.below( 10);
			std::string a;
			if (k < 5) {a = "print"; int m = r.range( 0, 4); for (int j=0; j<m; ++j) a += " " + val();}
			else if (k < 9) {a = "sect " + (r.chance( 5) ? std::string( "n") : sectName()); int m = r.range( 0, 3); for (int j=0; j<m; ++j) a += " " + val();}
			else {a = "debug s" + hex( "dbg" + rep( r, 1, 4, "abc"));}
			L.push_back( strf( "act %d %d %s", id, at, a.c_str()));
		}
		return id;
	}
	int errProg( int ncall)
	{
		int id = r.chance( 60) ? printProg( ncall) : nprog++;
		static const std::vector<const char*> ks = {"error","error","error0","error2","index","call","table","nil","assert","co","pcallerr","lib","lib2","lib3","lib4","yield","deep"};
		static const std::vector<std::string> ms = {"my message","#501 \"x\"","#12","# 12 foo","Error at line 3: foo","Error at line 12 something","at line 7 in file \"x\": y","100% %s %d %n","a\nb","\"quoted\" 'single'","x.lua:12: inner","ts.lua:3: #601 \"q\"","#586 \"No Lua function defined for AST node\": abc","#601 \"Unexpected token, not one of the expected ones\" at line 5: foo bar","#99999999999 \"x\"","#32000 \"x\": y",std::string( 300, 'm'),"#501 \"" + std::string( 300, 'z') + "\"","{Code}","#501 \"Bad character in a regular expression passed to the lexer\" at line 3 in file \"ab.lua\": p","#501","#",": ","\xff\xfe",""};
		const char* k = ks[ r.below( r.chance( 95) ? ks.size()-1 : ks.size())];
		L.push_back( strf( "act %d %d err %s s%s", id, r.chance( 60) ? r.range( 1, std::max( 1, ncall)) : 1, k, hex( r.pick( ms)).c_str()));
		if (r.chance( 20)) L.push_back( strf( "act %d 0 caught %s s%s", id, k, hex( "c").c_str()));
		return id;
	}
	int nestProg()
	{
		int inner = r.chance( 60) ? printProg( 2) : errProg( 2);
		int id = printProg( 2);
		L.push_back( strf( "act %d %d %s %d %d %d %d", id, r.chance( 60) ? 1 : 0, r.chance( 75) ? "nest" : "nestraise", r.below( 2), r.below( std::max( 1,nsrc)), r.chance( 50) && ntpl ? r.below( ntpl) : -1, inner));
		L.push_back( strf( "act %d 0 print s%s", id, hex( "after").c_str()));
		return id;
	}
	void tpl( int size=0)
	{
		int id = ntpl++;
		int n = r.range( 0, 8);
		static const std::vector<std::string> ps = {"{Code}","{Source}","{Triple}","{S1}","{Data}","{Consts}","{x}","{_a1}","{Unknown}","{}","{ Code}","{a{Code}}","{","}","text\n","\n","; {not here}","{Code","{S2}{S2}","{a b}","{1a}",std::string("\0",1)};
		if (size) L.push_back( strf( "tpl %d %s n=%d", id, hex( "z").c_str(), size));
		for (int i=0; i<n; ++i) L.push_back( strf( "tpl %d %s", id, hex( r.chance( 40) ? ps[ r.below( 6)] : r.pick( ps)).c_str()));
		if (!n) L.push_back( strf( "tpl %d h", id));
	}
	std::string out()
	{
		int k = r.below( 10);
		return k < 7 ? " out=o" + strf( "%d", r.below( 3)) : k == 7 ? " out=stdout" : k == 8 ? " out=stderr" : "";
	}
	std::string run( int src, int prog, int t)
	{
		std::string s = strf( "op run src=%d", src);
		if (prog >= 0) s += strf( " prog=%d", prog);
		if (t >= 0) s += strf( " tpl=%d", t);
		if (r.chance( 40)) s += strf( " opt=%d", r.range( 1, 4));
		if (r.chance( 30)) s += " old=1";
		return s;
	}
	std::string memFault()
	{
		int k = prop == "T10" ? 2*r.below( 2) : r.below( 3);
		long n = 1 + (long)(r.chance( 40) ? r.below( 60) : r.chance( 60) ? r.below( 600) : r.below( 6000));
		return strf( " %s=%ld%s", k == 0 ? "failcpp" : k == 1 ? "faillua" : "egc", n, r.chance( 30) ? " persist=1" : "");
	}
	Plan gen()
	{
		L.push_back( strf( "knob layout=%d reuse=%d gap=%d fill=%d style=%d section=%d gcpause=%d gcmul=%d", r.below( 1000), r.pick( std::vector<int>{0,50,100}), r.pick( std::vector<int>{0,0,3,40}), r.pick( std::vector<int>{-1,0,255,170}),
			r.below( 16), r.chance( 30), r.pick( std::vector<int>{200,200,120,100}), r.pick( std::vector<int>{200,400,1000})));
		grammar();
		if (prop == "C01" || prop == "C02" || prop == "C03" || prop == "C04")
		{
			int n = r.range( 3, 8);
			for (int i=0; i<n; ++i) src( prop == "C03" ? 85 : prop == "C04" ? 25 : 8, r.pick( std::vector<int>{1,5,20,40,80}), r.pick( std::vector<int>{6,10,20}));
			if (r.chance( 12)) src( prop == "C03" ? 60 : 0, thorough ? 6000 : 1500, r.pick( std::vector<int>{20,400,1500}));
			if (r.chance( 6)) longToken();
			int p = r.chance( 20) ? printProg( 2) : -1;
			for (int i=0; i<nsrc; ++i)
			{
				std::string s = run( i, r.chance( 30) ? p : -1, -1) + (r.chance( 70) ? " out=o0" : out());
				if (r.chance( 8)) s += " dbg=1";
				if (r.chance( 8)) s += " co=1";
				if (r.chance( 15)) s += strf( " egc=%d", r.range( 1, 400));
				L.push_back( s);
			}
			return plan();
		}
		if (prop == "G05") return genIo();
		if (prop == "G01") return genLang();
		int n = r.range( 2, 5);
		for (int i=0; i<n; ++i) src( prop == "C06" || prop == "C07" || prop == "T10" ? 25 : 5, r.pick( std::vector<int>{3,10,30}), r.pick( std::vector<int>{6,12}));
		n = r.range( 1, 3);
		for (int i=0; i<n; ++i) tpl( r.chance( 15) ? r.range( 1, 20000) : 0);
		if (prop == "C05")
		{
			n = r.range( 3, 8);
			for (int i=0; i<n; ++i)
			{
				int p = r.chance( 10) ? nestProg() : printProg( 6);
				std::string s = run( goodSrc.empty() ? 0 : r.pick( goodSrc), p, r.chance( 92) ? r.below( ntpl) : -1) + out();
				if (r.chance( 15)) s += " dbg=1";
				if (r.chance( 10)) s += strf( " egc=%d", r.range( 1, 400));
				L.push_back( s);
			}
			return plan();
		}
		// C06, C07: histories
		std::vector<int> progs;
		n = r.range( 3, 6);
		for (int i=0; i<n; ++i) progs.push_back( r.chance( prop == "C07" || prop == "T10" ? 65 : 35) ? errProg( 5) : r.chance( 25) ? nestProg() : printProg( 5));
		bool t09 = prop == "T09";
		bool stale = prop != "C07" && r.chance( prop == "T10" ? 10 : 20);
		if (stale) for (int p : progs) if (r.chance( 60)) {L.push_back( strf( "act %d %d keep", p, r.range( 0, 2))); if (r.chance( 40)) L.push_back( strf( "act %d %d stale %d %d", p, r.range( 0, 3), r.below( 8), r.below( 60)));}
		if (r.chance( stale ? 50 : 5)) L[0] += " fin=1";
		int states = t09 ? (r.chance( 85) ? r.range( 2, 3) : 1) : (prop == "C06" || prop == "T10") && r.chance( 25) ? 2 : 1;
		if (states > 1)
		{
			L[0] += strf( " states=%d", states);
			int m = r.range( 5, 40);
			bool pre = r.chance( t09 ? 75 : 30);
			if (pre) L[0] += " pre=1";
			int mag = r.range( 4, 16);
			for (int i=0; i<m; ++i) L.push_back( strf( "q %d %d", r.below( states), pre ? r.range( 1, 1 << r.range( 1, mag)) : r.chance( 50) ? r.range( 1, 20) : r.range( 1, 3000)));
		}
		if (t09) for (int p : progs) if (r.chance( 60)) L.push_back( strf( "act %d %d tdb", p, r.range( 0, 2)));
		n = r.range( 5, prop == "C06" || t09 ? 16 : 10);
		for (int i=0; i<n; ++i)
		{
			int k = r.below( 20);
			std::string st = states > 1 ? strf( " st=%d", r.below( states)) : "";
			if (k == 0) {L.push_back( "op gc" + st); continue;}
			if (k == 1) {L.push_back( strf( "op drop obj=%d", r.below( 3)) + st); continue;}
			if (r.chance( t09 ? 4 : 1) && g.prods.size() < 40) {L.push_back( strf( "op spawn n=%d", r.pick( std::vector<int>{1,20,70,140,300})) + st); continue;}
			if (stale && r.chance( 25))
			{
				if (r.chance( 70)) {L.push_back( strf( "op drop obj=%d", r.below( 3)) + st); L.push_back( "op gc" + st);}
				int m = r.range( 1, 4);
				for (int j=0; j<m; ++j) L.push_back( strf( "op stale k=%d n=%d", r.below( 8), r.below( 60)) + st);
				if (r.chance( 10)) L.push_back( "op unkeep" + st);
				continue;
			}
			int s = r.chance( 75) && !goodSrc.empty() ? r.pick( goodSrc) : r.below( nsrc);
			std::string o = run( s, r.pick( progs), r.chance( 85) ? r.below( ntpl) : -1) + out() + st;
			o += strf( " obj=%d", r.chance( 60) ? 0 : r.below( 3));
			if (r.chance( 10)) o += " dbg=1";
			if (r.chance( 10)) o += " co=1";
			if (!t09 && r.chance( prop == "C07" ? 40 : 25)) o += memFault();
			if (states == 1 && r.chance( 10)) ioFault( s);
			L.push_back( o);
		}
		return plan();
	}
	Plan genLang()
	{
		L[0] += strf( " chain=%d", r.below( 3));
		int n = r.range( 3, 8);
		for (int i=0; i<n; ++i) src( 40, r.pick( std::vector<int>{1,3,5,10,20,40}), r.pick( std::vector<int>{4,6,10,20}));
		// arbitrary sequences of tokens
		n = g.tab >= 0 || g.terms.empty() ? 0 : r.range( 2, 8);
		SrcGen sg( g, r);
		for (int i=0; i<n; ++i)
		{
			std::string t;
			int len = r.range( 0, 7);
			for (int k=0; k<len; ++k) t += sg.lexeme( r.below( g.terms.size())) + " ";
			L.push_back( strf( "txt %d %s", nsrc++, hex( t).c_str()));
		}
		if (r.chance( 8)) src( 0, thorough ? 4000 : 1000, r.pick( std::vector<int>{20,300,1000}));
		for (int i=0; i<nsrc; ++i) L.push_back( run( i, -1, -1) + " out=o0");
		return plan();
	}
	void ioFault( int s, const char* only=nullptr)
	{
		static const std::vector<const char*> errs = {"EIO","ENOSPC","EACCES","EMFILE","EDQUOT","EISDIR"};
		int w = r.below( 8);
		std::string f = w < 2 ? srcName( s) : w < 4 ? "tp" : w < 7 ? "o" : "debug";
		if (w >= 2 && w < 4) f = r.pick( std::vector<const char*>{"t0.tpl","tp.x.tpl","x86_64-pc"});
		if (w >= 4 && w < 7) f = strf( "o%d", r.below( 3));
		std::string op = r.pick( std::vector<const char*>{"open","read","read","close"});
		if (w >= 4) op = r.pick( std::vector<const char*>{"open","write","write","close"});
		long at = op == "open" || op == "close" ? 1 : r.range( 1, 4);
		std::string kind = op == "read" && r.chance( 30) ? "short" : op == "write" && r.chance( 30) ? strf( "torn:%d", r.below( 5000)) : r.pick( errs);
		L.push_back( strf( "io %s %s %ld %s", f.c_str(), op.c_str(), at, kind.c_str()));
	}
	Plan genIo()
	{
		// sizes around the sizes of buffers
		auto size = [&]{return std::max( 0, r.pick( std::vector<int>{0,100,4096,4096,8192,12288,65536,16384}) + r.range( -2, 2));};
		int n = r.range( 1, 3);
		SrcGen sg( g, r);
		for (int i=0; i<n; ++i)
		{
			int id = src( 5, r.pick( std::vector<int>{1,10,30}), 10);
			// pad up to the size
			std::string all;
			for (auto& l : L) {Line x = Line::parse( l); if (x.at(0) == "txt" && x.num(1) == id) all += unhex( x.at(2));}
			int z = size();
			if (z > (int)all.size() && g.tab < 0)
			{
				if (r.chance( 50)) L.push_back( strf( "txt %d %s n=%d", id, hex( r.chance( 50) ? " " : "\n").c_str(), z - (int)all.size()));
				else
				{
					// ... sentence after the blanks
					std::vector<std::string> keep, mv;
					for (auto& l : L) (l.compare( 0, 4, "txt ") == 0 && Line::parse( l).num(1) == id ? mv : keep).push_back( l);
					L = keep;
					L.push_back( strf( "txt %d %s n=%d", id, hex( " ").c_str(), z - (int)all.size()));
					for (auto& l : mv) L.push_back( l);
				}
			}
			if (r.chance( 15)) L.push_back( strf( "txt %d %s", id, hex( "?").c_str()));
		}
		n = r.range( 1, 3);
		for (int i=0; i<n; ++i) tpl( r.chance( 70) ? size() : 0);
		if (r.chance( 60)) L[0] += strf( " chunk=%d", r.pick( std::vector<int>{1,7,511,512,4095,4096,5000}));
		n = r.range( 3, 8);
		for (int i=0; i<n; ++i)
		{
			int p = printProg( 4);
			if (r.chance( 60)) L.push_back( strf( "act %d 0 print s%s", p, hex( rep( r, 3000, 5000, "abcdefg\n")).c_str()));
			int s = r.below( nsrc), t = r.chance( 80) ? r.below( ntpl) : -1;
			if (r.chance( 55)) {int m = r.chance( 80) ? 1 : 2; for (int k=0; k<m; ++k) ioFault( s);}
			std::string o = run( s, p, t);
			int k = r.below( 10);
			o += k < 7 ? strf( " out=o%d", r.below( 3)) : k < 8 ? " out=stdout" : k < 9 ? " out=stderr" : "";
			if (k >= 7 && r.chance( 40)) o += " full=1";
			if (r.chance( 20)) o += " dbg=1";
			if (r.chance( 10)) o += " old=1";
			L.push_back( o);
			if (r.chance( 30)) L.push_back( run( s, p, t) + strf( " out=o%d", r.below( 3)));
		}
		return plan();
	}
	Plan plan() {Plan p; p.world = "B"; p.prop = prop; p.lines = L; return p;}
};
Plan genB( uint64_t seed, const std::string& prop, bool thorough) {GenB g( seed, prop, thorough); return g.gen();}
}
namespace sim {const World worldB = {"B",genB,execB};}

// World A: type databases driven through the Lua interface of the library.
#include "world.hpp"
#include <cstring>
#include <cstdlib>
#include <climits>
#include <cmath>
#include <algorithm>
#include <memory>
#include <sys/wait.h>

extern "C" int luaopen_mewa( lua_State* ls);
extern "C" void simSetTime( uint64_t t);

namespace sim {
namespace {

typedef std::pair<long,long> Sc;
const long INF = INT_MAX;

std::string nameOf( int n)
{
	switch (n)
	{
		case 100: return std::string();
		case 101: return std::string( 5000, 'q');
		case 102: return std::string( 9000, 'w') + "1";
		case 103: return std::string( 9000, 'w') + "2";
		case 104: return std::string( "x\0y", 3);
		case 105: return std::string( "x\0z", 3);
		case 106: return "x";
		case 107: return "\xc3\xa4\xe2\x82\xac";
		case 108: return "operator +=(";
		case 109: return std::string( 65520, 'z') + "12";
		case 110: return std::string( 65529, 'z');
		case 111: return std::string( 66000, 'z') + "1";
		case 112: return std::string( 66000, 'z') + "2";
	}
	if (n >= 200) return strf( "identifier_%d", n);
	if (n >= 26) return strf( "nm%d", n);
	return std::string( 1, (char)('a' + n % 26));
}

// ------------------------------------------------------------------ Lua values with an identity
void pushVal( lua_State* L, int id)
{
	if (id <= 0) {lua_pushnil( L); return;}
	switch (id % 6)
	{
		case 0: lua_createtable( L, 1, 0); lua_pushinteger( L, id); lua_rawseti( L, -2, 1); break;
		case 1: lua_pushinteger( L, id); lua_pushcclosure( L, [](lua_State* l)->int {lua_pushvalue( l, lua_upvalueindex(1)); return 1;}, 1); break;
		case 2: {char buf[ 32]; snprintf( buf, sizeof buf, "val%d", id); lua_pushstring( L, buf); break;}
		case 3: lua_pushnumber( L, id + 0.5); break;
		case 4: *(int*)lua_newuserdata( L, sizeof(int)) = id; break;
		case 5: {char buf[ 64]; snprintf( buf, sizeof buf, "return %d", id); luaL_loadstring( L, buf); break;}
	}
}
int valId( lua_State* L, int li)
{
	switch (lua_type( L, li))
	{
		case LUA_TNIL: return 0;
		case LUA_TTABLE:
		{
			lua_rawgeti( L, li, 1);
			int rt = lua_type( L, -1) == LUA_TNUMBER ? lua_tointeger( L, -1) : -2;
			lua_pop( L, 1);
			return rt;
		}
		case LUA_TFUNCTION:
			if (lua_iscfunction( L, li))
			{
				if (!lua_getupvalue( L, li, 1)) return -3;
				int rt = lua_tointeger( L, -1);
				lua_pop( L, 1);
				return rt;
			}
			else
			{
				lua_pushvalue( L, li);
				if (0 != lua_pcall( L, 0, 1, 0)) {lua_pop( L, 1); return -4;}
				int rt = lua_tointeger( L, -1);
				lua_pop( L, 1);
				return rt;
			}
		case LUA_TSTRING:
		{
			const char* s = lua_tostring( L, li);
			return strncmp( s, "val", 3) == 0 ? atoi( s+3) : -5;
		}
		case LUA_TNUMBER: return (int)std::floor( lua_tonumber( L, li));
		case LUA_TUSERDATA: return *(int*)lua_touserdata( L, li);
	}
	return -6;
}
// identity of a value: for reference types also the address has to be the one recorded when the value was created
std::map<int,const void*>* g_ptrs = nullptr;	// key state*1000000+id

// ------------------------------------------------------------------ reference model
struct MType
{
	Sc scope; int ctx; std::string name; int con;
	std::vector<std::pair<int,int> > params;	// (type op id, constructor value id)
};
struct MRedu {int to, con, tag; double weight;};
static bool g_exceptions = false;	// known finding T10-exception-object
static bool g_overloadAlias = false;	// only set in the plan of the known finding
struct MEntry {std::vector<int> types; bool alias;};
struct Model
{
	Sc scope{0,INF};
	long step = 0;
	std::map<int,MType> types;				// by id of defining operation
	std::map<std::pair<int,std::string>, std::map<Sc,MEntry> > tab;
	std::map<int, std::map<Sc,std::vector<MRedu> > > redus;	// by from type
	std::map<std::string, std::map<Sc,int> > inst;

	static bool contains( const Sc& s, long step) {return s.first <= step && step < s.second;}
	template <class T> std::vector<std::pair<Sc,const T*> > visible( const std::map<Sc,T>& m, long st) const
	{
		std::vector<std::pair<Sc,const T*> > rt;
		for (auto& kv : m) if (contains( kv.first, st)) rt.push_back( {kv.first,&kv.second});
		std::stable_sort( rt.begin(), rt.end(), [](const auto& a, const auto& b){return a.first.second - a.first.first < b.first.second - b.first.first;});
		return rt;
	}
	// reductions of a type at current step: target -> winner
	std::vector<MRedu> reductionsOf( int from, uint32_t mask) const
	{
		std::vector<MRedu> rt;
		auto ri = redus.find( from);
		if (ri == redus.end()) return rt;
		std::set<int> seen;
		for (auto& v : visible( ri->second, step))
			for (auto& r : *v.second)
				if ((mask & (1u << (r.tag-1))) && seen.insert( r.to).second) rt.push_back( r);
		return rt;
	}
	const MEntry* resolveName( int ctx, const std::string& name) const
	{
		auto ti = tab.find( {ctx,name});
		if (ti == tab.end()) return nullptr;
		auto v = visible( ti->second, step);
		return v.empty() ? nullptr : v[0].second;
	}
	std::string typeString( int t, const std::string& sep) const
	{
		if (t == 0) return "";
		const MType& m = types.at( t);
		std::string rt;
		if (m.ctx) rt = typeString( m.ctx, sep) + sep;
		rt += m.name;
		if (!m.params.empty())
		{
			rt += "(";
			for (size_t i=0; i<m.params.size(); ++i) rt += (i ? "," : "") + typeString( m.params[i].first, sep);
			rt += ")";
		}
		return rt;
	}
};

// ------------------------------------------------------------------ execution
struct OpRes
{
	bool done = false;	// executed (not skipped)
	bool error = false;	// raised an error
	bool fault = false;	// an allocation failure was injected and hit
	std::string res;	// canonical result
	std::string err;
};

struct Session	// a database in a Lua state
{
	bool alive = false;
	Model model;
	std::map<int,int> handles;		// op id -> handle
	std::map<int,int> opids;		// handle -> op id
	bool tainted = false;			// model and database are out of step (foreign violation reported)
};

struct Exec
{
	const Plan& plan;
	std::string prop;
	bool model;				// compare with the model
	bool nofaults = false;			// baseline: ignore faults, collections, layout
	std::set<int> skip;
	int onlySession = -1;			// baseline of one session: state*16+db
	std::map<int,OpRes> results;
	std::map<int,Session> sessions;		// key state*16+db
	int opsDone = 0;

	Exec( const Plan& p, bool model_) :plan(p),prop(p.prop),model(model_){}

	Session& ses( int st, int db) {return sessions[ st*16+db];}

	void mismatch( const char* owner, const char* oracle, const std::string& detail)
	{
		if (prop == owner) violation( owner, oracle, "%s", detail.c_str());
		else {note( "foreign_mismatch"); ev( "foreign %s %s %s", owner, oracle, detail.c_str());}
	}

	// ---- references
	int ref( Session& s, const std::string& w, bool& ok)	// "t<opid>" or "0" or "h<number>" -> handle
	{
		if (w == "0") return 0;
		if (w[0] == 'h') return atoi( w.c_str()+1);
		auto hi = s.handles.find( atoi( w.c_str()+1));
		if (hi == s.handles.end()) {ok = false; return 0;}
		return hi->second;
	}
	static int refid( const std::string& w) {return w == "0" ? 0 : atoi( w.c_str()+1);}
	std::string canonType( Session& s, long h)
	{
		if (h == 0) return "0";
		auto oi = s.opids.find( h);
		if (oi == s.opids.end()) return h < 0 ? strf( "%ld", h) : strf( "?%ld", h);
		return strf( "t%d", oi->second);
	}
	std::string canonVal( lua_State* L, int st, int li)
	{
		int id = valId( L, li);
		int t = lua_type( L, li);
		if (t == LUA_TTABLE || t == LUA_TFUNCTION || t == LUA_TUSERDATA)
		{
			auto pi = g_ptrs->find( st*1000000+id);
			if (pi == g_ptrs->end() || pi->second != lua_topointer( L, li)) return strf( "v%d!notidentical", id);
		}
		return strf( "v%d", id);
	}
	void mkVal( lua_State* L, int st, int id)
	{
		pushVal( L, id);
		(*g_ptrs)[ st*1000000+id] = lua_topointer( L, -1);
	}
	// pairs list {{type=..,constructor=..},..} at li -> text
	std::string canonPairs( lua_State* L, int st, Session& s, int li)
	{
		if (lua_type( L, li) != LUA_TTABLE) return "notatable";
		std::string rt = "[";
		int n = lua_rawlen( L, li);
		for (int i=1; i<=n; ++i)
		{
			lua_rawgeti( L, li, i);
			if (lua_type( L, -1) != LUA_TTABLE) {rt += "notatable"; lua_pop( L, 1); continue;}
			lua_getfield( L, -1, "type");
			rt += (i>1?" ":"") + canonType( s, lua_tointeger( L, -1));
			lua_pop( L, 1);
			lua_getfield( L, -1, "constructor");
			rt += ":" + canonVal( L, st, lua_gettop( L));
			lua_pop( L, 1);
			lua_getfield( L, -1, "root");
			if (!lua_isnil( L, -1)) rt += strf( ":root%d", (int)lua_tointeger( L, -1));
			lua_pop( L, 2);
		}
		return rt + "]";
	}
	std::string canonTypes( lua_State* L, Session& s, int li)
	{
		if (lua_type( L, li) != LUA_TTABLE) return "notatable";
		std::string rt = "[";
		int n = lua_rawlen( L, li);
		for (int i=1; i<=n; ++i)
		{
			lua_rawgeti( L, li, i);
			rt += (i>1?" ":"") + canonType( s, lua_type( L, -1) == LUA_TNUMBER ? lua_tointeger( L, -1) : -99);
			lua_pop( L, 1);
		}
		return rt + "]";
	}
	std::string canonScope( lua_State* L, int li)
	{
		if (lua_type( L, li) != LUA_TTABLE) return "noscope";
		lua_rawgeti( L, li, 1); lua_rawgeti( L, li, 2);
		std::string rt = strf( "[%ld,%ld)", (long)lua_tonumber( L, -2), (long)lua_tonumber( L, -1));
		lua_pop( L, 2);
		return rt;
	}
	static std::string scStr( const Sc& s) {return strf( "[%ld,%ld)", s.first, s.second);}

	static Sc parseSc( const std::string& w)
	{
		size_t c = w.find( ',');
		long a = atol( w.c_str()), b = c == std::string::npos ? -1 : atol( w.c_str()+c+1);
		return Sc( a, b < 0 ? INF : b);
	}

	// ---- protected call: function and arguments are on the stack above base
	int call( lua_State* L, const Line& l, OpRes& r, int nargs)
	{
		faults() = FaultCtx();
		if (!nofaults)
		{
			faults().failCpp = l.geti( "failcpp", 0);
			faults().failLua = l.geti( "faillua", 0);
			faults().egc = l.geti( "egc", 0);
			faults().persistent = l.geti( "pers", 0);
			faults().failBig = l.geti( "failbig", 0);
		}
		setStepBudget( stepBudgetDefault);
		int rc;
		{
			SutScope ss; TrackScope ts;
			rc = lua_pcall( L, nargs, LUA_MULTRET, 0);
		}
		dropExceptions();
		FaultCtx f = faults();
		faults() = FaultCtx();
		setStepBudget( 0);
		if (f.firedCpp) note( f.firedBig ? "fault:alloc-cpp-large" : "fault:alloc-cpp");
		if (f.firedLua) note( "fault:alloc-lua");
		if (f.firedEgc) note( "fault:emergency-gc");
		if (l.has( "failcpp") && !f.firedCpp && !nofaults) note( "fault_not_reached");
		r.fault = f.firedCpp || f.firedLua;
		if (rc != 0)
		{
			r.error = true;
			r.err = lua_type( L, -1) == LUA_TSTRING ? lua_tostring( L, -1) : "(no message)";
			if (f.firedCpp || f.firedLua) note( "failed_by_fault");
		}
		else if (f.firedCpp || f.firedLua) note( "survived_fault");
		return rc;
	}
	void method( lua_State* L, int db, const char* name)
	{
		lua_getglobal( L, "dbs");
		lua_rawgeti( L, -1, db);
		lua_remove( L, -2);
		lua_getfield( L, -1, name);
		lua_insert( L, -2);	// function, self
	}
	void pushScope( lua_State* L, const std::string& w)
	{
		size_t c = w.find( ',');
		lua_createtable( L, 2, 0);
		lua_pushinteger( L, atol( w.c_str())); lua_rawseti( L, -2, 1);
		if (c != std::string::npos) {lua_pushinteger( L, atol( w.c_str()+c+1)); lua_rawseti( L, -2, 2);}
	}
	// parameter list "t3:5,t4:0,0" -> table of pairs; mode selects the representation
	bool pushParams( lua_State* L, int st, Session& s, const std::string& w, std::vector<std::pair<int,int> >& out, int mode, bool typesOnly)
	{
		bool ok = true;
		lua_newtable( L);
		if (w == "-") return true;
		size_t p = 0; int idx = 0;
		while (p < w.size())
		{
			size_t e = w.find( ',', p);
			if (e == std::string::npos) e = w.size();
			std::string it = w.substr( p, e-p);
			p = e+1;
			size_t c = it.find( ':');
			std::string t = it.substr( 0, c);
			int con = c == std::string::npos ? 0 : atoi( it.c_str()+c+1);
			int h = ref( s, t, ok);
			++idx;
			if (typesOnly && mode == 0) lua_pushinteger( L, h);
			else if (con == 0 && mode == 1) lua_pushinteger( L, h);
			else
			{
				lua_newtable( L);
				if (mode == 2 && !typesOnly)
				{
					lua_pushinteger( L, h); lua_rawseti( L, -2, 1);
					if (con) {mkVal( L, st, con); lua_rawseti( L, -2, 2);}
				}
				else
				{
					lua_pushinteger( L, h); lua_setfield( L, -2, "type");
					if (con && !typesOnly) {mkVal( L, st, con); lua_setfield( L, -2, "constructor");}
				}
			}
			lua_rawseti( L, -2, idx);
			out.push_back( {refid(t), con});
		}
		return ok;
	}

	// ---- the tree traversal
	struct TreeBudget {long n = 0;};
	bool treeErr( lua_State* L, OpRes& r)
	{
		r.error = true;
		r.err = lua_type( L, -1) == LUA_TSTRING ? lua_tostring( L, -1) : "?";
		return false;
	}
	int tcall( lua_State* L, int na, int nr)
	{
		setStepBudget( stepBudgetDefault);
		SutScope ss;
		TrackScope ts;
		int rc = lua_pcall( L, na, nr, 0);
		dropExceptions();
		return rc;
	}
	// the scope of the node on top of stack
	bool nodeScope( lua_State* L, OpRes& r, std::string& sc)
	{
		int tree = lua_gettop( L);
		lua_getfield( L, tree, "scope"); lua_pushvalue( L, tree);
		if (tcall( L, 1, 1)) return treeErr( L, r);
		sc = canonScope( L, lua_gettop( L));
		lua_settop( L, tree);
		return true;
	}
	// the text of the node on top of stack
	bool nodeLine( lua_State* L, int st, Session& s, const std::string& kind, const std::string& me, OpRes& r, std::vector<std::string>& out)
	{
		int tree = lua_gettop( L);
		std::vector<std::string> items;
		if (kind == "inst")
		{
			lua_getfield( L, tree, "instance"); lua_pushvalue( L, tree);
			if (tcall( L, 1, 1)) return treeErr( L, r);
			items.push_back( canonVal( L, st, lua_gettop( L)));
			lua_settop( L, tree);
		}
		else
		{
			// for item in tree:list() do ...
			lua_getfield( L, tree, "list"); lua_pushvalue( L, tree);
			if (tcall( L, 1, 1)) return treeErr( L, r);
			int it = lua_gettop( L);
			for (;;)
			{
				lua_pushvalue( L, it); lua_pushnil( L); lua_pushnil( L);
				if (tcall( L, 2, 1)) return treeErr( L, r);
				if (lua_isnil( L, -1)) break;
				int top = lua_gettop( L);
				if (kind == "type") items.push_back( canonType( s, lua_tointeger( L, top)));
				else
				{
					std::string e;
					lua_getfield( L, top, "from"); e += canonType( s, lua_tointeger( L, -1)); lua_pop( L, 1);
					lua_getfield( L, top, "to"); e += ">" + canonType( s, lua_tointeger( L, -1)); lua_pop( L, 1);
					lua_getfield( L, top, "tag"); e += strf( "#%d", (int)lua_tointeger( L, -1)); lua_pop( L, 1);
					lua_getfield( L, top, "weight"); e += strf( "w%g", lua_tonumber( L, -1)); lua_pop( L, 1);
					lua_getfield( L, top, "constructor"); e += canonVal( L, st, lua_gettop(L)); lua_pop( L, 1);
					items.push_back( e);
				}
				lua_settop( L, it);
				if (items.size() > 5000)
				{
					mismatch( "T06", "termination", "iteration over list does not terminate: " + std::string(g_shm->op));
					r.error = true; r.err = "nonterminating";
					return false;
				}
			}
			lua_settop( L, tree);
		}
		std::sort( items.begin(), items.end());
		std::string line = me + " :";
		for (auto& i : items) line += " " + i;
		out.push_back( line);
		return true;
	}
	// all nodes are held at the same time and released one by one in a random order; the root is dropped first, if 'drop' is set
	bool holdWalk( lua_State* L, int st, Session& s, const std::string& kind, TreeBudget& bud, std::vector<std::string>& out, OpRes& r, int tid, long seed, bool drop)
	{
		struct N {int idx; std::string path;};
		Rng rng( seed);
		std::vector<N> nodes;
		int root = lua_gettop( L);
		lua_newtable( L);
		int h = lua_gettop( L);
		lua_pushvalue( L, root); lua_rawseti( L, h, 1);
		nodes.push_back( {1,""});
		bool dfs = rng.chance( 50);
		for (size_t ni=0; ni<nodes.size(); ++ni)
		{
			lua_rawgeti( L, h, nodes[ ni].idx);
			std::string sc;
			if (!nodeScope( L, r, sc)) return false;
			nodes[ ni].path += "/" + sc;
			lua_getfield( L, -1, "chld"); lua_pushvalue( L, -2);
			if (tcall( L, 1, 1)) return treeErr( L, r);
			int it = lua_gettop( L);
			std::string path = nodes[ ni].path;
			for (;;)
			{
				if (++bud.n > 5000)
				{
					mismatch( "T06", "termination", "iteration over children does not terminate: " + std::string(g_shm->op));
					r.err = "nonterminating"; r.error = true;
					return false;
				}
				lua_pushvalue( L, it); lua_pushnil( L); lua_pushnil( L);
				if (tcall( L, 2, 1)) return treeErr( L, r);
				if (lua_isnil( L, -1)) break;
				lua_rawseti( L, h, nodes.size()+1);
				N n = {(int)nodes.size()+1, path};
				if (dfs) nodes.insert( nodes.begin() + ni + 1 + rng.below( nodes.size() - ni), n); else nodes.push_back( n);
			}
			lua_settop( L, h);
		}
		maxnote( "max:tree_nodes held", nodes.size());
		for (size_t i=0; i+1<nodes.size(); ++i) std::swap( nodes[ i], nodes[ i + rng.below( nodes.size()-i)]);
		if (drop)
		{
			lua_pushnil( L); lua_replace( L, root);
			lua_getglobal( L, "trees"); lua_pushnil( L); lua_rawseti( L, -2, tid); lua_settop( L, h);
		}
		int every = rng.range( 1, 60);
		bool again = rng.chance( 50);
		for (size_t ni=0; ni<nodes.size(); ++ni)
		{
			lua_rawgeti( L, h, nodes[ ni].idx);
			if (!nodeLine( L, st, s, kind, nodes[ ni].path, r, out)) return false;
			if (again)
			{
				std::string sc;
				if (!nodeScope( L, r, sc)) return false;
				size_t q = nodes[ ni].path.rfind( '/');
				if (nodes[ ni].path.substr( q+1) != sc) {out.back() += " (scope changed to " + sc + ")";}
			}
			lua_settop( L, h);
			lua_pushnil( L); lua_rawseti( L, h, nodes[ ni].idx);
			if (ni % every == 0) {SutScope ss; lua_gc( L, LUA_GCCOLLECT, 0);}
		}
		lua_settop( L, root);
		return true;
	}
	// appends to 'out' all (scope path, items), the tree object is on top of stack and stays there
	bool walk( lua_State* L, int st, Session& s, const std::string& kind, const std::string& path, TreeBudget& bud, std::vector<std::string>& out, OpRes& r, long stopAfter)
	{
		if (++bud.n > 5000)
		{
			mismatch( "T06", "termination", "iteration over children does not terminate: " + std::string(g_shm->op));
			r.err = "nonterminating"; r.error = true;
			return false;
		}
		if (stopAfter && bud.n >= stopAfter) return true;
		if (!lua_checkstack( L, 20)) return false;
		int tree = lua_gettop( L);
		std::string sc;
		if (!nodeScope( L, r, sc)) return false;
		std::string me = path + "/" + sc;
		if (!nodeLine( L, st, s, kind, me, r, out)) return false;
		// for c in tree:chld() do ...
		lua_getfield( L, tree, "chld"); lua_pushvalue( L, tree);
		if (tcall( L, 1, 1)) return treeErr( L, r);
		int it = lua_gettop( L);
		for (;;)
		{
			lua_pushvalue( L, it); lua_pushnil( L); lua_pushnil( L);
			if (tcall( L, 2, 1)) return treeErr( L, r);
			if (lua_isnil( L, -1)) break;
			if (!walk( L, st, s, kind, me, bud, out, r, stopAfter)) return false;
			lua_settop( L, it);
			if (stopAfter && bud.n >= stopAfter) break;
		}
		lua_settop( L, tree);
		return true;
	}
	// expected: one line per node
	std::vector<std::string> expectedTree( Model& m, const std::string& kind, const std::string& name)
	{
		std::map<Sc,std::vector<std::string> > nodes;
		nodes[ Sc(0,INF)];
		if (kind == "inst")
		{
			auto ii = m.inst.find( name);
			if (ii != m.inst.end()) for (auto& kv : ii->second) nodes[ kv.first].push_back( strf( "v%d", kv.second));
			if (nodes[ Sc(0,INF)].empty()) nodes[ Sc(0,INF)].push_back( "v0");
		}
		else if (kind == "type")
		{
			for (auto& t : m.tab) for (auto& e : t.second) for (int x : e.second.types) nodes[ e.first].push_back( strf( "t%d", x));
		}
		else
		{
			for (auto& f : m.redus) for (auto& e : f.second) for (auto& x : e.second)
				nodes[ e.first].push_back( strf( "t%d>%s#%dw%gv%d", f.first, x.to ? strf( "t%d", x.to).c_str() : "0", x.tag, x.weight, x.con));
		}
		std::vector<Sc> order;
		for (auto& n : nodes) order.push_back( n.first);
		std::vector<std::string> out;
		for (auto& n : nodes)
		{
			// path: all containing scopes, outermost first
			std::vector<Sc> up;
			for (auto& o : order) if (o.first <= n.first.first && n.first.second <= o.second) up.push_back( o);
			std::sort( up.begin(), up.end(), [](const Sc& a, const Sc& b){return a.second - a.first > b.second - b.first;});
			std::string line;
			for (auto& u : up) line += "/" + scStr( u);
			line += " :";
			std::sort( n.second.begin(), n.second.end());
			for (auto& i : n.second) line += " " + i;
			out.push_back( line);
		}
		std::sort( out.begin(), out.end());
		return out;
	}

	// ---- path search of the model
	struct MPath {std::vector<int> nodes; std::vector<int> cons; double weight; int count; int root;};
	void paths( Model& m, uint32_t mask, uint32_t cmask, long maxc, MPath& cur, const std::function<void(const MPath&)>& visit, long& budget)
	{
		if (--budget < 0) return;
		visit( cur);
		for (auto& r : m.reductionsOf( cur.nodes.back(), mask))
		{
			if (std::find( cur.nodes.begin(), cur.nodes.end(), r.to) != cur.nodes.end()) continue;
			int c = cur.count + ((cmask & (1u << (r.tag-1))) ? 1 : 0);
			if (maxc >= 0 && c > maxc) continue;
			cur.nodes.push_back( r.to); cur.cons.push_back( r.con);
			double w0 = cur.weight; int c0 = cur.count;
			cur.weight += r.weight; cur.count = c;
			paths( m, mask, cmask, maxc, cur, visit, budget);
			cur.weight = w0; cur.count = c0;
			cur.nodes.pop_back(); cur.cons.pop_back();
		}
	}
	std::string pathStr( const MPath& p, size_t from=1)
	{
		std::string rt = "[";
		for (size_t i=from; i<p.nodes.size(); ++i) rt += (i>from?" ":"") + (p.nodes[i] ? strf( "t%d", p.nodes[i]) : std::string("0")) + strf( ":v%d", p.cons[i-1]);
		return rt + "]";
	}
	std::string pathTypes( const MPath& p)
	{
		std::string rt = "[";
		for (size_t i=1; i<p.nodes.size(); ++i) rt += (i>1?" ":"") + (p.nodes[i] ? strf( "t%d", p.nodes[i]) : std::string("0"));
		return rt + "]";
	}

	void runOp( lua_State* L, int st, const Line& l);
	void runState( int st, const std::vector<Line>& ops, const Line& knob);
	void run();
	std::string digest();
};

uint32_t maskOf( const std::string& w) {return w == "-" ? 0xffffffffu : (uint32_t)strtoul( w.c_str(), nullptr, 0);}

void Exec::runOp( lua_State* L, int st, const Line& l)
{
	// op <id> <state> <db> <verb> args...
	int id = l.num(1), db = l.num(3);
	const std::string& v = l.at(4);
	if (skip.count( id)) return;
	if (onlySession >= 0 && onlySession != st*16+db && v.compare(0,2,"gc") != 0) return;
	Session& s = ses( st, db);
	OpRes& r = results[ id];
	Model& m = s.model;
	bool ok = true;
	lua_settop( L, 0);
	{
		std::string t;
		for (auto& w : l.w) t += w + " ";
		snprintf( g_shm->op, sizeof(g_shm->op), "%s", t.c_str());
	}
	if (v == "gc") {if (!nofaults) {SutScope ss; lua_gc( L, LUA_GCCOLLECT, 0); note( "fault:full-gc");} return;}
	if (v == "gcstep") {if (!nofaults) {SutScope ss; lua_gc( L, LUA_GCSTEP, l.num(5)); note( "fault:gc-step");} return;}
	if (v == "mkdb")
	{
		if (s.alive) return;
		lua_getglobal( L, "mewa"); lua_getfield( L, -1, "typedb"); lua_remove( L, -2);
		setTypedbMemsize( nofaults ? (1<<20) : l.geti( "mem", 1<<16));
		call( L, l, r, 0);
		r.done = true;
		if (r.error) {ev( "op %d mkdb error %s", id, r.fault ? "(fault)" : r.err.c_str()); return;}
		lua_getglobal( L, "dbs"); lua_insert( L, -2); lua_rawseti( L, -2, db);
		s = Session(); s.alive = true;
		r.res = "db";
		return;
	}
	if (!s.alive) return;
	if (v == "deldb")
	{
		lua_getglobal( L, "dbs"); lua_pushnil( L); lua_rawseti( L, -2, db);
		{SutScope ss; lua_gc( L, LUA_GCCOLLECT, 0);}
		s.alive = false;
		r.done = true; r.res = "deleted";
		note( "fault:destroy-session");
		return;
	}
	++opsDone;
	std::string expect;		// expected canonical result, if 'exact'
	const char* owner = "";		// property owning the oracle
	bool exact = true;
	std::string detail;		// reason for mismatch, for oracles that are not exact
	std::function<void()> commit;	// effect on the model if successful
	bool expectError = false;

	if (v == "scope")
	{
		owner = "T01";
		method( L, db, "scope");
		pushScope( L, l.at(5));
		bool withStep = l.w.size() > 6;
		if (withStep) lua_pushinteger( L, l.num(6));
		call( L, l, r, withStep ? 3 : 2);
		if (!r.error) r.res = canonScope( L, 1) + strf( " %ld", lua_gettop(L) >= 2 ? (long)lua_tonumber( L, 2) : -1L);
		expect = scStr( m.scope) + strf( " %ld", m.step);
		commit = [&m,&l,withStep]{m.scope = parseSc( l.at(5)); m.step = withStep ? l.num(6) : m.scope.second-1;};
	}
	else if (v == "scope?" || v == "step?")
	{
		owner = "T01";
		method( L, db, v == "scope?" ? "scope" : "step");
		call( L, l, r, 1);
		if (v == "scope?")
		{
			if (!r.error) r.res = canonScope( L, 1) + strf( " %ld", lua_gettop(L) >= 2 ? (long)lua_tonumber( L, 2) : -1L);
			expect = scStr( m.scope) + strf( " %ld", m.step);
		}
		else
		{
			if (!r.error) r.res = strf( "%ld", lua_gettop(L) >= 1 ? (long)lua_tonumber( L, 1) : -1L);
			expect = strf( "%ld", m.step);
		}
	}
	else if (v == "step")
	{
		owner = "T01";
		method( L, db, "step");
		lua_pushinteger( L, l.num(5));
		call( L, l, r, 2);
		if (!r.error) r.res = strf( "%ld", lua_gettop(L) >= 1 ? (long)lua_tonumber( L, 1) : -1L);
		expect = strf( "%ld", m.step);
		commit = [&]{m.step = l.num(5);};
	}
	else if (v == "seti")
	{
		owner = "T01";
		std::string nm = nameOf( l.num(5));
		method( L, db, "set_instance");
		lua_pushlstring( L, nm.data(), nm.size());
		mkVal( L, st, l.num(6));
		call( L, l, r, 3);
		if (!r.error) r.res = "ok";
		expect = "ok";
		commit = [&m,nm,&l]{m.inst[ nm][ m.scope] = l.num(6);};
	}
	else if (v == "geti" || v == "thisi")
	{
		owner = "T01";
		std::string nm = nameOf( l.num(5));
		method( L, db, v == "geti" ? "get_instance" : "this_instance");
		lua_pushlstring( L, nm.data(), nm.size());
		call( L, l, r, 2);
		if (!r.error) r.res = lua_gettop(L) ? canonVal( L, st, 1) : "none";
		expect = "none";
		auto ii = m.inst.find( nm);
		if (ii != m.inst.end())
		{
			if (v == "geti") {auto vis = m.visible( ii->second, m.step); if (!vis.empty()) expect = strf( "v%d", *vis[0].second);}
			else {auto x = ii->second.find( m.scope); if (x != ii->second.end()) expect = strf( "v%d", x->second);}
		}
		if (lua_gettop(L) && r.res == "v0") r.res = "none";	// nil and no value are the same
	}
	else if (v == "deft")
	{
		// deft ctx name con params
		owner = "T02";
		int ctx = ref( s, l.at(5), ok);
		int ctxid = refid( l.at(5));
		std::string nm = nameOf( l.num(6));
		int con = l.num(7);
		MType t; t.scope = m.scope; t.ctx = ctxid; t.name = nm; t.con = con;
		method( L, db, "def_type");
		lua_pushinteger( L, ctx);
		lua_pushlstring( L, nm.data(), nm.size());
		int na = 3;
		std::string pw = l.at(8);
		if (con || pw != "") {if (con) mkVal( L, st, con); else lua_pushnil( L); ++na;}
		if (pw != "") {if (!pushParams( L, st, s, pw, t.params, id % 3, false)) ok = false; ++na;}
		if (!ok) {lua_settop( L, 0); return;}
		auto& ent = m.tab[ {ctxid,nm}];
		auto ei = ent.find( m.scope);
		bool dup = false;
		if (ei != ent.end())
		{
			if (ei->second.alias && !g_overloadAlias) {lua_settop( L, 0); return;}	// see known finding: overloads of an alias
			for (int x : ei->second.types)
			{
				auto& o = m.types[x];
				bool same = o.params.size() == t.params.size();
				for (size_t i=0; same && i<t.params.size(); ++i) same = o.params[i].first == t.params[i].first;
				dup |= same;
			}
		}
		call( L, l, r, na);
		if (!r.error)
		{
			long h = lua_type( L, 1) == LUA_TNUMBER ? (long)lua_tonumber( L, 1) : 0;
			if (h > 0)
			{
				if (s.opids.count( h)) r.res = strf( "reused handle of t%d", s.opids[ h]);
				else {s.opids[ h] = id; s.handles[ id] = h; r.res = "new";}
			}
			else r.res = strf( "%ld", h);
		}
		expect = dup ? "-1" : "new";
		if (dup) probe( "def_type_duplicate");
		commit = [&m,t,ctxid,nm,id,dup]{if (!dup) {m.types[ id] = t; auto& e = m.tab[ {ctxid,nm}][ m.scope]; if (e.types.empty()) e.alias = false; e.types.push_back( id); if (e.types.size() > 1) probe( "overload");}};
	}
	else if (v == "deftas")
	{
		owner = "T02";
		int ctx = ref( s, l.at(5), ok), ctxid = refid( l.at(5));
		std::string nm = nameOf( l.num(6));
		int as = ref( s, l.at(7), ok), asid = refid( l.at(7));
		if (!ok || !asid || !m.types.count( asid)) return;
		// aliases are only made for types that have no overloads
		auto& at = m.types[ asid];
		auto& ae = m.tab[ {at.ctx,at.name}][ at.scope];
		if (ae.types.size() != 1) return;
		method( L, db, "def_type_as");
		lua_pushinteger( L, ctx);
		lua_pushlstring( L, nm.data(), nm.size());
		lua_pushinteger( L, as);
		call( L, l, r, 4);
		bool dup = m.tab[ {ctxid,nm}].count( m.scope);
		if (!r.error)
		{
			long h = lua_type( L, 1) == LUA_TNUMBER ? (long)lua_tonumber( L, 1) : 0;
			r.res = h <= 0 ? "dup" : canonType( s, h);
		}
		expect = dup ? "dup" : strf( "t%d", asid);
		probe( dup ? "alias_duplicate" : "alias");
		commit = [&m,ctxid,nm,asid,dup]{if (!dup) {auto& e = m.tab[ {ctxid,nm}][ m.scope]; e.alias = true; e.types.push_back( asid);}};
	}
	else if (v == "thist")
	{
		owner = "T02";
		int ctx = ref( s, l.at(5), ok), ctxid = refid( l.at(5));
		std::string nm = nameOf( l.num(6));
		method( L, db, "this_type");
		lua_pushinteger( L, ctx);
		lua_pushlstring( L, nm.data(), nm.size());
		int na = 3;
		std::vector<std::pair<int,int> > pr;
		if (l.at(7) != "") {if (!pushParams( L, st, s, l.at(7), pr, id % 2, true)) ok = false; ++na;}
		if (!ok) {lua_settop( L, 0); return;}
		call( L, l, r, na);
		if (!r.error) r.res = lua_gettop(L) && !lua_isnil( L, 1) ? canonType( s, lua_tointeger( L, 1)) : "none";
		expect = "none";
		auto ti = m.tab.find( {ctxid,nm});
		if (ti != m.tab.end())
		{
			auto ei = ti->second.find( m.scope);
			if (ei != ti->second.end()) for (int x : ei->second.types)
			{
				auto& o = m.types[x];
				bool same = o.params.size() == pr.size();
				for (size_t i=0; same && i<pr.size(); ++i) same = o.params[i].first == pr[i].first;
				if (same) {expect = strf( "t%d", x); break;}
			}
		}
	}
	else if (v == "thists")
	{
		owner = "T02";
		int ctx = ref( s, l.at(5), ok), ctxid = refid( l.at(5));
		std::string nm = nameOf( l.num(6));
		if (!ok) return;
		method( L, db, "this_types");
		lua_pushinteger( L, ctx);
		lua_pushlstring( L, nm.data(), nm.size());
		call( L, l, r, 3);
		if (!r.error) r.res = canonTypes( L, s, 1);
		expect = "[";
		auto ti = m.tab.find( {ctxid,nm});
		if (ti != m.tab.end())
		{
			auto ei = ti->second.find( m.scope);
			if (ei != ti->second.end()) for (size_t i=0; i<ei->second.types.size(); ++i) expect += (i?" ":"") + strf( "t%d", ei->second.types[i]);
		}
		expect += "]";
	}
	else if (v == "acc")
	{
		owner = "T02";
		const std::string& which = l.at(5);
		int h = ref( s, l.at(6), ok), t = refid( l.at(6));
		if (!ok || !m.types.count( t)) return;
		auto& o = m.types[ t];
		const char* meth = which == "name" ? "type_name" : which == "ctx" ? "type_context" : which == "str" ? "type_string" : which == "scope" ? "type_scope"
				: which == "con" ? "type_constructor" : which == "par" ? "type_parameters" : "type_nof_parameters";
		method( L, db, meth);
		lua_pushinteger( L, h);
		int na = 2;
		std::string sep = " ";
		if (which == "str" && l.w.size() > 7) {sep = l.at(7) == "none" ? "" : l.at(7); lua_pushlstring( L, sep.data(), sep.size()); ++na;}
		call( L, l, r, na);
		if (!r.error)
		{
			if (which == "name" || which == "str")
			{
				size_t n = 0; const char* p = lua_type( L, 1) == LUA_TSTRING ? lua_tolstring( L, 1, &n) : nullptr;
				r.res = p ? std::string( p, n) : "nostring";
			}
			else if (which == "ctx") r.res = canonType( s, lua_tointeger( L, 1));
			else if (which == "scope") r.res = canonScope( L, 1);
			else if (which == "con") r.res = canonVal( L, st, 1);
			else if (which == "par") r.res = canonPairs( L, st, s, 1);
			else r.res = strf( "%d", (int)lua_tointeger( L, 1));
		}
		if (which == "name") expect = o.name;
		else if (which == "str") expect = m.typeString( t, sep);
		else if (which == "ctx") expect = o.ctx ? strf( "t%d", o.ctx) : "0";
		else if (which == "scope") expect = scStr( o.scope);
		else if (which == "con") expect = strf( "v%d", o.con);
		else if (which == "par")
		{
			expect = "[";
			for (size_t i=0; i<o.params.size(); ++i) expect += (i?" ":"") + (o.params[i].first ? strf( "t%d", o.params[i].first) : std::string("0")) + strf( ":v%d", o.params[i].second);
			expect += "]";
		}
		else expect = strf( "%d", (int)o.params.size());
	}
	else if (v == "defr")
	{
		// defr to from con tag weight
		owner = "T03";
		int to = ref( s, l.at(5), ok), from = ref( s, l.at(6), ok);
		int toid = refid( l.at(5)), fromid = refid( l.at(6));
		if (!ok || !fromid || toid == fromid) return;
		int con = l.num(7), tag = l.num(8);
		double w = atof( l.at(9).c_str());
		method( L, db, "def_reduction");
		lua_pushinteger( L, to); lua_pushinteger( L, from);
		if (con) mkVal( L, st, con); else lua_pushnil( L);
		lua_pushinteger( L, tag);
		lua_pushnumber( L, w);
		call( L, l, r, 6);
		if (!r.error) r.res = "ok";
		expect = "ok";
		bool same = false;
		auto fi = m.redus.find( fromid);
		if (fi != m.redus.end())
		{
			auto si = fi->second.find( m.scope);
			if (si != fi->second.end()) for (auto& x : si->second) if (x.to == toid && x.tag == tag)
			{
				if (x.con == 0 && con == 0) same = true; else expectError = true;
			}
		}
		if (expectError) probe( "reduction_duplicate");
		commit = [&m,toid,fromid,con,tag,w,same]{if (!same) m.redus[ fromid][ m.scope].push_back( {toid,con,tag,(double)(float)w});};
	}
	else if (v == "getr")
	{
		// getr to from mask
		owner = "T03";
		int to = ref( s, l.at(5), ok), from = ref( s, l.at(6), ok);
		int toid = refid( l.at(5)), fromid = refid( l.at(6));
		if (!ok || !fromid) return;
		uint32_t mask = maskOf( l.at(7));
		method( L, db, "get_reduction");
		lua_pushinteger( L, to); lua_pushinteger( L, from);
		int na = 3;
		if (l.at(7) != "-") {lua_pushnumber( L, mask); ++na;}
		call( L, l, r, na);
		if (!r.error)
		{
			if (!lua_gettop(L) || lua_isnil( L, 1)) r.res = "none";
			else r.res = strf( "w%g", lua_tonumber( L, 1)) + (lua_gettop(L) >= 2 ? canonVal( L, st, 2) : std::string("v0"));
		}
		expect = "none";
		for (auto& x : m.reductionsOf( fromid, mask)) if (x.to == toid) expect = strf( "w%gv%d", x.weight, x.con);
	}
	else if (v == "getrs")
	{
		owner = "T03";
		int from = ref( s, l.at(5), ok), fromid = refid( l.at(5));
		if (!ok || !fromid) return;
		uint32_t mask = maskOf( l.at(6)), cmask = l.at(7) == "-" ? 0 : maskOf( l.at(7));
		method( L, db, "get_reductions");
		lua_pushinteger( L, from);
		int na = 2;
		if (l.at(6) != "-") {lua_pushnumber( L, mask); ++na;}
		else if (l.at(7) != "-") {lua_pushnil( L); ++na;}
		if (l.at(7) != "-") {lua_pushnumber( L, cmask); ++na;}
		call( L, l, r, na);
		std::vector<std::string> got, want;
		if (!r.error && lua_type( L, 1) == LUA_TTABLE)
		{
			int n = lua_rawlen( L, 1);
			for (int i=1; i<=n; ++i)
			{
				lua_rawgeti( L, 1, i);
				int top = lua_gettop( L);
				std::string e;
				lua_getfield( L, top, "type"); e += canonType( s, lua_tointeger( L, -1)); lua_pop( L, 1);
				lua_getfield( L, top, "weight"); e += strf( "w%g", lua_tonumber( L, -1)); lua_pop( L, 1);
				lua_getfield( L, top, "constructor"); e += canonVal( L, st, lua_gettop(L)); lua_pop( L, 1);
				lua_getfield( L, top, "count"); e += lua_toboolean( L, -1) ? "c" : "n"; lua_pop( L, 1);
				got.push_back( e);
				lua_settop( L, 1);
			}
		}
		for (auto& x : m.reductionsOf( fromid, mask))
			want.push_back( (x.to ? strf( "t%d", x.to) : std::string("0")) + strf( "w%gv%d%s", x.weight, x.con, (cmask & (1u << (x.tag-1))) ? "c" : "n"));
		if (want.size() >= 2) probe( "several_reductions");
		std::sort( got.begin(), got.end());
		std::sort( want.begin(), want.end());
		for (auto& e : got) r.res += e + " ";
		for (auto& e : want) expect += e + " ";
	}
	else if (v == "mask")
	{
		owner = "T03";
		method( L, db, "reduction_tagmask");
		uint32_t e = 0;
		for (size_t i=5; i<l.w.size(); ++i) {lua_pushinteger( L, l.num(i)); e |= 1u << (l.num(i)-1);}
		call( L, l, r, 1 + (int)l.w.size() - 5);
		if (!r.error) r.res = strf( "%u", (uint32_t)(int64_t)lua_tonumber( L, 1));
		expect = strf( "%u", e);
	}
	else if (v == "derive")
	{
		// derive to from mask cmask maxlen
		owner = "T04";
		int to = ref( s, l.at(5), ok), from = ref( s, l.at(6), ok);
		int toid = refid( l.at(5)), fromid = refid( l.at(6));
		if (!ok || !fromid) return;
		uint32_t mask = maskOf( l.at(7)), cmask = l.at(8) == "-" ? 0 : maskOf( l.at(8));
		long maxl = l.w.size() > 9 ? l.num(9) : 1;
		method( L, db, "derive_type");
		lua_pushinteger( L, to); lua_pushinteger( L, from);
		int na = 3;
		bool more8 = l.at(8) != "-", more9 = l.w.size() > 9;
		if (l.at(7) != "-" || more8 || more9) {if (l.at(7) != "-") lua_pushnumber( L, mask); else lua_pushnil( L); ++na;}
		if (more8 || more9) {if (more8) lua_pushnumber( L, cmask); else lua_pushnil( L); ++na;}
		if (more9) {lua_pushinteger( L, maxl); ++na;}
		call( L, l, r, na);
		exact = false;
		std::string gp, gc; double gw = 0;
		bool found = false, conflict = false;
		if (!r.error)
		{
			found = lua_gettop(L) >= 1 && !lua_isnil( L, 1);
			if (found)
			{
				gp = canonPairs( L, st, s, 1);
				gw = lua_tonumber( L, 2);
				conflict = lua_gettop(L) >= 3 && !lua_isnil( L, 3);
				if (conflict) gc = canonTypes( L, s, 3);
				r.res = gp + strf( " w%g", gw) + (conflict ? " conflict" : "");
				if (conflict) note( "derive_conflict");
				note( "derive_found");
				if (gp != "[]") note( gp.find( ' ') == std::string::npos ? "derive_path_1" : gp.find( ' ', gp.find( ' ')+1) == std::string::npos ? "derive_path_2" : "derive_path_3+");
			}
			else r.res = "none";
		}
		if (model)
		{
			std::vector<MPath> all;
			long budget = 60000;
			MPath cur; cur.nodes.push_back( fromid); cur.weight = 0; cur.count = 0; cur.root = 0;
			double best = 1e9;
			paths( m, mask, cmask, maxl, cur, [&](const MPath& p){
				if (p.nodes.back() == toid)
				{
					if (p.weight < best) {best = p.weight; all.clear();}
					if (p.weight == best) all.push_back( p);
				}
			}, budget);
			if (budget < 0) {note( "model_budget"); detail = "";}
			else if (!r.error)
			{
				if (all.size() > 1) probe( "derive_tie");
				if (all.empty() && found) detail = "path returned but none exists: " + r.res;
				else if (!all.empty() && !found) detail = "no path returned, expected " + pathStr( all[0]);
				else if (found)
				{
					bool in = false, inc = false;
					for (auto& p : all) {if (pathStr( p) == gp) in = true; else if (pathTypes( p) == gc) inc = true;}
					if (!in) detail = "returned path " + gp + strf( " is not one of the cheapest permitted paths, e.g. %s weight %g", pathStr( all[0]).c_str(), best);
					else if (gw != best) detail = strf( "weight %g reported for a path of weight %g", gw, best);
					else if (conflict != (all.size() > 1)) detail = strf( "conflict path %s but %d cheapest paths exist: %s", conflict ? "reported" : "not reported", (int)all.size(), gp.c_str());
					else if (conflict && !inc) detail = "conflict path " + gc + " is not another cheapest path";
				}
			}
		}
	}
	else if (v == "resolve")
	{
		// resolve ctxlist name mask   ctxlist: t1 | {t1 | [t1,t2 (numbers) | <t1,t2 (tables)
		owner = "T05";
		std::string cw = l.at(5);
		std::vector<int> roots;
		std::string nm = nameOf( l.num(6));
		uint32_t mask = maskOf( l.at(7));
		method( L, db, "resolve_type");
		char mode = cw[0];
		bool list = mode == '[' || mode == '<';
		if (list)
		{
			lua_newtable( L);
			size_t p = 1; int idx = 0;
			while (p < cw.size())
			{
				size_t e = cw.find( ',', p);
				if (e == std::string::npos) e = cw.size();
				std::string t = cw.substr( p, e-p);
				p = e+1;
				int h = ref( s, t, ok);
				++idx;
				if (mode == '[') lua_pushinteger( L, h);
				else
				{
					lua_newtable( L);
					lua_pushinteger( L, h); lua_setfield( L, -2, "type");
					lua_pushinteger( L, idx); lua_setfield( L, -2, "root");
				}
				lua_rawseti( L, -2, idx);
				roots.push_back( refid( t));
			}
		}
		else
		{
			std::string t = mode == '{' ? cw.substr(1) : cw;
			int h = ref( s, t, ok);
			if (mode == '{') {lua_newtable( L); lua_pushinteger( L, h); lua_setfield( L, -2, "type");}
			else lua_pushinteger( L, h);
			roots.push_back( refid( t));
		}
		if (!ok) {lua_settop( L, 0); return;}
		lua_pushlstring( L, nm.data(), nm.size());
		int na = 3;
		if (l.at(7) != "-" && l.at(7) != "") {lua_pushnumber( L, mask); ++na;}
		else mask = 0xffffffffu;
		call( L, l, r, na);
		exact = false;
		enum {None,Conflict,Found} got = None;
		std::string gp, gi, gctx; std::vector<std::string> gconf;
		if (!r.error)
		{
			if (!lua_gettop(L) || lua_isnil( L, 1)) {r.res = "none"; got = None;}
			else if (lua_type( L, 1) == LUA_TTABLE)
			{
				got = Conflict;
				int n = lua_rawlen( L, 1);
				for (int i=1; i<=n; ++i) {lua_rawgeti( L, 1, i); gconf.push_back( canonType( s, lua_tointeger( L, -1))); lua_pop( L, 1);}
				std::sort( gconf.begin(), gconf.end());
				r.res = "conflict";
				for (auto& x : gconf) r.res += " " + x;
				if (lua_gettop(L) > 1) r.res += " extra";
				note( "resolve_conflict");
			}
			else
			{
				got = Found;
				gctx = canonType( s, lua_tointeger( L, 1));
				gp = canonPairs( L, st, s, 2);
				gi = canonTypes( L, s, 3);
				r.res = gctx + " " + gp + " " + gi;
				note( "resolve_found");
			}
		}
		if (model && !r.error)
		{
			std::vector<MPath> all;
			long budget = 60000;
			double best = 1e9;
			std::set<int> seen;
			for (size_t ri=0; ri<roots.size(); ++ri)
			{
				if (!seen.insert( roots[ri]).second) continue;
				MPath cur; cur.nodes.push_back( roots[ri]); cur.weight = 0; cur.count = 0; cur.root = ri+1;
				paths( m, mask, 0, -1, cur, [&](const MPath& p){
					if (m.resolveName( p.nodes.back(), nm))
					{
						if (p.weight < best) {best = p.weight; all.clear();}
						if (p.weight == best) all.push_back( p);
					}
				}, budget);
			}
			if (budget < 0) note( "model_budget");
			else if (all.empty()) {if (got != None) detail = "resolved although not reachable: " + r.res;}
			else if (all.size() == 1)
			{
				auto& p = all[0];
				std::string ep = pathStr( p);
				if (mode == '<')
				{
					std::string rest = ep.substr( 1);
					ep = strf( "[%s:v-2:root%d", p.nodes[0] ? strf( "t%d", p.nodes[0]).c_str() : "0", p.root) + (rest == "]" ? "" : " ") + rest;
					// the originating item carries no constructor
					size_t q = ep.find( ":v-2"); ep.replace( q, 4, ":v0");
				}
				std::string ei = "[";
				auto e = m.resolveName( p.nodes.back(), nm);
				for (size_t i=0; i<e->types.size(); ++i) ei += (i?" ":"") + strf( "t%d", e->types[i]);
				ei += "]";
				std::string ectx = p.nodes.back() ? strf( "t%d", p.nodes.back()) : "0";
				std::string ex = ectx + " " + ep + " " + ei;
				if (r.res != ex) detail = "got " + r.res + " expected " + ex;
				if (p.nodes.size() > 2) probe( "resolve_deep");
			}
			else
			{
				probe( "resolve_tie");
				std::multiset<std::string> tie;
				for (auto& p : all) tie.insert( p.nodes.back() ? strf( "t%d", p.nodes.back()) : "0");
				if (got != Conflict || gconf.size() != 2) detail = strf( "got %s but %d matches tie", r.res.c_str(), (int)all.size());
				else for (auto& x : gconf)
				{
					auto ti = tie.find( x);
					if (ti == tie.end()) detail = "conflict pair " + r.res + " names a context that is not tied";
					else tie.erase( ti);
				}
			}
		}
	}
	else if (v == "tree")
	{
		// tree kind [name]: take a snapshot, keep it under the id of this operation
		owner = "T06";
		const std::string& kind = l.at(5);
		std::string nm = nameOf( l.num(6));
		method( L, db, kind == "inst" ? "instance_tree" : kind == "type" ? "type_tree" : "reduction_tree");
		if (kind == "inst") lua_pushlstring( L, nm.data(), nm.size());
		call( L, l, r, kind == "inst" ? 2 : 1);
		if (!r.error)
		{
			r.res = "tree";
			lua_settop( L, 1);
			lua_getglobal( L, "trees"); lua_insert( L, -2); lua_rawseti( L, -2, id);
		}
		expect = "tree";
		// remember what has to be in it
		std::string k2 = kind, n2 = nm;
		if (!r.error)
		{
			OpRes& er = results[ -id];
			er.res = "";
			if (model) for (auto& x : expectedTree( m, kind, nm)) er.res += x + "\n";
			er.done = true;
		}
	}
	else if (v == "droptree")
	{
		lua_getglobal( L, "trees"); lua_pushnil( L); lua_rawseti( L, -2, l.num(5));
		r.done = true; r.res = "dropped";
		return;
	}
	else if (v == "fin")
	{
		// objects used after their finalizer has been called, explicitly or in an order determined by closing the state
		static const char chunk[] =
			"local K,f=... local mewa=mewa\n"
			"local late if K%8>=4 then late=setmetatable({},{__gc=function(o) f(o) end}) end\n"
			"local db=mewa.typedb() local mt=getmetatable(db) db:scope({0,100},5)\n"
			"local t=db:def_type(0,'x',{1}) local u=db:def_type(0,'y',{2},{{type=t}}) db:def_reduction(u,t,{3},1) db:set_instance('i',{4}) db:scope({2,50}) db:set_instance('i',{5}) db:def_type(t,'z') db:def_reduction(t,u,{3},2)\n"
			"local trees={db:type_tree(),db:instance_tree('i'),db:reduction_tree()}\n"
			"local its={} for i,tr in ipairs(trees) do its[#its+1]={tr:chld()} if tr.list then its[#its+1]={tr:list()} end local a,b,c=tr:chld() if a then for ch in a,b,c do trees[#trees+1]=ch end end end\n"
			"local function use()\n"
			"  for _,n in ipairs{'scope','list','instance','chld'} do for i,tr in ipairs(trees) do pcall(function() local r,b,c=tr[n](tr) if type(r)=='function' then for x in r,b,c do pcall(x.scope,x) end end end) end end\n"
			"  for i,it in ipairs(its) do pcall(it[1],it[2],it[3]) pcall(it[1],it[2],it[3]) end\n"
			"end\n"
			"local function usedb()\n"
			"  for _,n in ipairs{'scope','step','this_instance','get_instance','set_instance','def_type','def_type_as','this_type','this_types','get_type','def_reduction','reduction_tagmask','derive_type','resolve_type','type_name','type_string','type_parameters','type_nof_parameters','type_constructor','type_scope','get_reduction','get_reductions','instance_tree','type_tree','reduction_tree','__gc'} do\n"
			"    local m=mt[n] pcall(m,db) pcall(m,db,t) pcall(m,db,'i') pcall(m,db,t,u) pcall(m,db,t,'x') pcall(m,db,{0,10}) pcall(m,db,1) pcall(m,db,0,'q',{}) pcall(m,db,t,u,{},1)\n"
			"  end\n"
			"end\n"
			"if late then keptfin=keptfin or {} keptfin[#keptfin+1]=late f=nil end\n"
			"if K%4==0 then for i,tr in ipairs(trees) do if (math.floor(K/8)+i)%2==0 then pcall(getmetatable(tr).__gc,tr) end end use()\n"
			"elseif K%4==1 then pcall(mt.__gc,db) usedb() use()\n"
			"elseif K%4==2 then pcall(mt.__gc,db) pcall(mt.__gc,db) db=nil collectgarbage() use()\n"
			"else for i,tr in ipairs(trees) do local g=getmetatable(tr).__gc pcall(g,tr) pcall(g,tr) pcall(function() local x=tr:chld() end) end trees={} collectgarbage() for i,it in ipairs(its) do pcall(it[1],it[2],it[3]) end usedb() end\n"
			"if late then local d,m=db,mt getmetatable(late).__gc=function() db=d mt=m if db then usedb() end use() end end";
		SutScope ss;
		setTypedbMemsize( 1<<12);
		if (luaL_loadbuffer( L, chunk, sizeof(chunk)-1, "=fin") != 0) {HostScope hs; fprintf( stderr, "%s\n", lua_tostring( L, -1)); _exit( 97);}
		lua_pushinteger( L, l.num(5)); luaL_loadstring( L, "");
		if (lua_pcall( L, 2, 0, 0) != 0) {HostScope hs; fprintf( stderr, "%s\n", lua_tostring( L, -1)); _exit( 97);}
		lua_settop( L, 0);
		note( "objects used after their finalizer");
		return;
	}
	else if (v == "raw")
	{
		// raw method argspec... : a call with invalid arguments
		owner = "T07";
		for (size_t i=6; i<l.w.size(); ++i)
		{
			if (l.at(i)[0] == 't' && isdigit( l.at(i)[1])) ref( s, l.at(i), ok);
			else if (l.at(i)[0] == '+') ref( s, l.at(i).substr(1), ok);
		}
		if (!ok) return;
		bool empty = l.at(5).compare( 0, 5, "empty") == 0;
		if (empty)
		{
			// a definition in an empty scope
			std::string num = l.at(5).substr( 5);
			method( L, db, "scope"); pushScope( L, num + "," + num);
			Line nofault;
			OpRes dummy;
			call( L, nofault, dummy, 2);
			lua_setglobal( L, "prevstep"); lua_setglobal( L, "prevscope");
			lua_settop( L, 0);
			method( L, db, l.at(6).c_str());
		}
		else if (l.at(5) == "noself") {lua_getglobal( L, "dbs"); lua_rawgeti( L, -1, db); lua_getfield( L, -1, l.at(6).c_str()); lua_insert( L, 1); lua_settop( L, 1); lua_newtable( L);}
		else method( L, db, l.at(5).c_str());
		int na = 1;
		for (size_t i=empty?7:6; i<l.w.size() && l.at(5) != "noself"; ++i, ++na)
		{
			const std::string& a = l.w[i];
			if (a == "nil") lua_pushnil( L);
			else if (a.find( ':') != std::string::npos)
			{
				// KIND:VALUE : table with a value in the place of a type
				std::string kind = a.substr( 0, a.find( ':')), val = a.substr( kind.size()+1);
				char* end = 0;
				double num = strtod( val.c_str(), &end);
				auto push = [&]{if (*end) lua_pushstring( L, val.c_str()); else lua_pushnumber( L, num);};
				lua_newtable( L);
				if (kind == "type") {push(); lua_setfield( L, -2, "type");}
				else if (kind == "list") {push(); lua_rawseti( L, -2, 1);}
				else if (kind == "listtype") {lua_newtable( L); push(); lua_setfield( L, -2, "type"); lua_rawseti( L, -2, 1);}
				else if (kind == "listpair") {lua_newtable( L); push(); lua_rawseti( L, -2, 1); lua_rawseti( L, -2, 1);}
				else if (kind == "scope1") {push(); lua_rawseti( L, -2, 1);}
				else {lua_pushinteger( L, 0); lua_rawseti( L, -2, 1); push(); lua_rawseti( L, -2, 2);}
			}
			else if (a[0] == 'n') lua_pushnumber( L, atof( a.c_str()+1));
			else if (a[0] == 's') lua_pushstring( L, a.c_str()+1);
			else if (a == "fn") mkVal( L, st, 1);
			else if (a == "tab") lua_newtable( L);
			else if (a == "bool") lua_pushboolean( L, 1);
			else if (a == "tabkey") {lua_newtable( L); lua_pushinteger( L, 1); lua_setfield( L, -2, "key");}
			else if (a == "parneg") {lua_newtable( L); lua_newtable( L); lua_pushinteger( L, -1); lua_setfield( L, -2, "type"); lua_rawseti( L, -2, 1);}
			else if (a == "parnot") {lua_newtable( L); lua_newtable( L); mkVal( L, st, 1); lua_setfield( L, -2, "constructor"); lua_rawseti( L, -2, 1);}
			else if (a == "par3") {lua_newtable( L); lua_newtable( L); lua_pushinteger( L, 1); lua_rawseti( L, -2, 1); lua_pushinteger( L, 1); lua_rawseti( L, -2, 3); lua_rawseti( L, -2, 1);}
			else if (a == "parmany") {lua_createtable( L, 33000, 0); for (int k=1; k<=33000; ++k) {lua_pushinteger( L, 0); lua_rawseti( L, -2, k);}}
			else if (a[0] == '+') lua_pushinteger( L, ref( s, a.substr(1), ok) + 1);	// the first handle that does not exist
			else if (a.compare( 0, 4, "par+") == 0) {lua_newtable( L); lua_newtable( L); lua_pushinteger( L, ref( s, a.substr(4), ok) + 1); lua_setfield( L, -2, "type"); lua_rawseti( L, -2, 1);}
			else if (a[0] == 'c') pushScope( L, a.substr(1));
			else if (a[0] == 't' || a == "0") lua_pushinteger( L, ref( s, a, ok));
			else lua_pushnil( L);
		}
		if (!ok) {lua_settop( L, 0); return;}
		if (l.has( "co"))
		{
			// called as body of a coroutine: no function of Lua is on the stack
			int n = na + 1;
			lua_State* co = lua_newthread( L);
			lua_insert( L, 1);
			lua_xmove( L, co, n);
			setStepBudget( stepBudgetDefault);
			int rc;
			{SutScope ss; rc = lua_resume( co, L, na);}
			setStepBudget( 0);
			r.error = rc != 0 && rc != LUA_YIELD;
			if (r.error) r.err = lua_type( co, -1) == LUA_TSTRING ? lua_tostring( co, -1) : "?";
		}
		else call( L, l, r, na);
		if (empty)
		{
			lua_settop( L, 0);
			method( L, db, "scope"); lua_getglobal( L, "prevscope"); lua_getglobal( L, "prevstep");
			Line nofault;
			OpRes dummy;
			call( L, nofault, dummy, 3);
		}
		r.res = r.error ? "error" : "noerror";
		exact = false;
		note( "invalid_calls");
		if (!r.error) detail = "call with invalid arguments did not fail: " + std::string(g_shm->op);
		else if (r.err.empty()) detail = "error without message";
		r.error = false;	// ... this is the expected result
	}
	else if (v == "walk")
	{
		// walk treeid [stopafter]: traverse a tree taken before
		owner = "T06";
		int tid = l.num(5);
		lua_getglobal( L, "trees"); lua_rawgeti( L, -1, tid);
		if (lua_isnil( L, -1)) {lua_settop( L, 0); return;}
		std::string kind = l.at(6);
		std::vector<std::string> out;
		TreeBudget bud;
		long stop = l.num(7);
		bool hold = l.geti( "hold", 0), drop = l.geti( "drop", 0);
		if (hold) {stop = 0; holdWalk( L, st, s, kind, bud, out, r, tid, l.geti( "hold", 0), drop);}
		else walk( L, st, s, kind, "", bud, out, r, stop);
		setStepBudget( 0);
		std::sort( out.begin(), out.end());
		for (auto& x : out) r.res += x + "\n";
		if (stop && !r.error) {r.res = "partial"; expect = "partial"; note( "fault:partial-traversal");}
		else
		{
			expect = results[ -tid].res;
			if (out.size() > 2) probe( "tree_nodes>2");
			note( "tree_walks");
			maxnote( "max:tree_nodes", out.size());
		}
	}
	else {fprintf( stderr, "unknown verb %s\n", v.c_str()); _exit( 98);}

	r.done = true;
	std::string rr = r.error ? (r.fault ? std::string("error(fault)") : "error: " + quote( r.err, 120)) : quote( r.res, 300);
	ev( "op %d s%d.%d %s -> %s", id, st, db, v.c_str(), rr.c_str());
	lua_settop( L, 0);
	if (r.fault && r.error) return;		// ... failed operation: no effect on the model
	if (model && !s.tainted)
	{
		bool bad = false;
		if (r.error != expectError)
		{
			if (r.error) detail = "raised error " + r.err;
			else detail = "did not raise the expected error";
			bad = true;
			if (v == "walk" && r.err == "nonterminating") {s.tainted = true; return;}
		}
		else if (!r.error && exact && r.res != expect) {detail = "got " + quote( r.res, 400) + " expected " + quote( expect, 400); bad = true;}
		else if (!exact && !detail.empty()) bad = true;
		if (bad)
		{
			std::string t;
			for (auto& w : l.w) t += w + " ";
			mismatch( owner, v.c_str(), detail + " in " + t + strf( "at scope %s step %ld", scStr( m.scope).c_str(), m.step));
		}
	}
	if (!r.error && commit && (!expectError)) commit();
}

void Exec::runState( int st, const std::vector<Line>& ops, const Line& knob)
{
	lua_State* L = newState();
	{
		SutScope ss;
		luaL_openlibs( L);
		luaL_requiref( L, "mewa", luaopen_mewa, 1);
		lua_settop( L, 0);
		lua_newtable( L); lua_setglobal( L, "dbs");
		lua_newtable( L); lua_setglobal( L, "trees");
		lua_gc( L, LUA_GCSETPAUSE, nofaults ? 200 : knob.geti( "gcpause", 200));
		lua_gc( L, LUA_GCSETSTEPMUL, nofaults ? 200 : knob.geti( "gcmul", 200));
	}
	for (auto& l : ops)
	{
		SutScope ss; // ... to be inside for memory of argument values
		yieldPoint( 0);
		runOp( L, st, l);
	}
	snprintf( g_shm->op, sizeof(g_shm->op), "lua_close");
	closeState( L);
}

void Exec::run()
{
	g_ptrs = new std::map<int,const void*>();
	Line knob;
	std::vector<Quantum> sched;
	std::map<int,std::vector<Line> > ops;
	int nst = 1;
	for (auto& t : plan.lines)
	{
		Line l = Line::parse( t);
		if (l.at(0) == "knob") knob = l;
		else if (l.at(0) == "q") sched.push_back( {(int)l.num(1), l.num(2)});
		else if (l.at(0) == "op") ops[ l.num(2)].push_back( l);
	}
	g_overloadAlias = knob.geti( "overalias", 0);
	g_exceptions = knob.geti( "exceptions", 0);
	nst = knob.geti( "states", 1);
	AllocKnobs ak = knobsOf( knob);
	if (nofaults) {ak = AllocKnobs(); sched.clear();}
	else simSetTime( 1600000000 + ak.layoutSeed);
	allocInit( ak);
	if (nst == 1 && nofaults) {runState( 0, ops[0], knob);}
	else
	{
		std::vector<std::function<void()> > fns;
		for (int i=0; i<nst; ++i) fns.push_back( [this,i,&ops,&knob]{runState( i, ops[i], knob);});
		setPreemption( knob.geti( "pre", 0));
		runActors( fns, sched);
		setPreemption( false);
	}
	note( "ops", opsDone);
}

std::string Exec::digest()
{
	std::string rt;
	for (auto& kv : results) if (kv.first > 0 && kv.second.done)
		rt += strf( "%d\t%d\t%d\t%s\n", kv.first, kv.second.error, kv.second.fault, quote( kv.second.error ? std::string() : kv.second.res, 100000).c_str());
	return rt;
}

std::map<int,std::vector<std::string> > parseDigest( const std::string& t)
{
	std::map<int,std::vector<std::string> > rt;
	size_t p = 0;
	while (p < t.size())
	{
		size_t e = t.find( '\n', p);
		if (e == std::string::npos) break;
		std::string l = t.substr( p, e-p);
		p = e+1;
		std::vector<std::string> f;
		size_t a = 0;
		for (int i=0; i<3; ++i) {size_t b = l.find( '\t', a); f.push_back( l.substr( a, b-a)); a = b+1;}
		f.push_back( l.substr( a));
		rt[ atoi( f[0].c_str())] = f;
	}
	return rt;
}

void execA( const Plan& plan)
{
	const std::string& p = plan.prop;
	bool differential = (p == "T07" || p == "T08" || p == "T09");
	if (p == "T10")
	{
		trackMemory();
		Exec x( plan, false);
		x.run();
		std::string lost = unreleased();
		if (g_exceptions && abandonedExceptions()) violation( "T10", "exception_object", "%d exception objects of failed calls never released", abandonedExceptions());
		if (!lost.empty()) violation( "T10", "unreleased", "memory not released after all databases and Lua states are closed: %s", lost.c_str());
		return;
	}
	if (!differential)
	{
		Exec x( plan, true);
		x.run();
		return;
	}
	// run under faults in a process of its own, then one or more runs without, compare what they observed
	allocInit( AllocKnobs());
	std::string vt = runForkedText( [&]{Exec x( plan, false); x.run(); std::string d = x.digest(); ev( "end"); std::string r = strf( "%016llx\n", (unsigned long long)histhash()) + d;
		return r;}, true);
	auto varied = parseDigest( vt.substr( 17));
	ev( "varied %s", vt.substr( 0, 16).c_str());
	std::map<int,std::string> opline;
	std::set<int> sess;
	for (auto& t : plan.lines) {Line l = Line::parse( t); if (l.at(0) == "op") {opline[ l.num(1)] = t; sess.insert( l.num(2)*16+l.num(3));}}
	auto compare = [&]( const std::map<int,std::vector<std::string> >& base, int onlySession) {
		for (auto& kv : varied)
		{
			Line l = Line::parse( opline[ kv.first]);
			if (onlySession >= 0 && l.num(2)*16+l.num(3) != onlySession) continue;
			if (l.at(4) == "mkdb" || l.at(4) == "deldb") continue;
			bool verr = kv.second[1] == "1", vfault = kv.second[2] == "1";
			if (verr && vfault) continue;	// ... failed by the injected fault, skipped in the baseline
			auto bi = base.find( kv.first);
			if (bi == base.end())
			{
				violation( p.c_str(), "differential", "operation '%s' not executed in the run without faults", opline[ kv.first].c_str());
				return;
			}
			if (bi->second[1] != kv.second[1] || bi->second[3] != kv.second[3])
			{
				violation( p.c_str(), "differential", "'%s' gives %s %s, but in the run without disturbance %s %s", opline[ kv.first].c_str(),
					verr ? "error" : "", kv.second[3].c_str(), bi->second[1] == "1" ? "error" : "", bi->second[3].c_str());
				return;
			}
		}
		for (auto& kv : base) if (!varied.count( kv.first)) violation( p.c_str(), "differential", "operation '%s' only executed in the run without faults", opline[ kv.first].c_str());
	};
	if (p == "T07")
		for (auto& kv : varied)
		{
			Line l = Line::parse( opline[ kv.first]);
			if (l.at(4) == "raw" && kv.second[3] != "\"error\"" && kv.second[1] == "0")
				violation( "T07", "invalid-call", "call with invalid arguments did not fail: %s", opline[ kv.first].c_str());
		}
	// the failed operations never happened:
	std::set<int> skip;
	for (auto& kv : varied) if (kv.second[1] == "1" && kv.second[2] == "1") skip.insert( kv.first);
	if (p == "T07") for (auto& kv : varied) if (Line::parse( opline[ kv.first]).at(4) == "raw") skip.insert( kv.first);
	if (p == "T07") for (auto ii = varied.begin(); ii != varied.end();) {if (skip.count( ii->first)) ii = varied.erase( ii); else ++ii;}
	if (p == "T09")
	{
		for (int si : sess)
		{
			auto base = parseDigest( runForkedText( [&]{Exec x( plan, false); x.nofaults = true; x.skip = skip; x.onlySession = si; x.run(); return x.digest();}));
			std::map<int,std::vector<std::string> > b2;
			for (auto& kv : base) {Line l = Line::parse( opline[ kv.first]); if (l.num(2)*16+l.num(3) == si) b2[ kv.first] = kv.second;}
			auto all = varied;
			for (auto ii = varied.begin(); ii != varied.end();) {Line l = Line::parse( opline[ ii->first]); if (l.num(2)*16+l.num(3) != si) ii = varied.erase( ii); else ++ii;}
			compare( b2, si);
			varied = all;
		}
	}
	else
	{
		auto base = parseDigest( runForkedText( [&]{Exec x( plan, false); x.nofaults = true; x.skip = skip; x.run(); return x.digest();}));
		compare( base, -1);
	}
}

// ------------------------------------------------------------------ generation
struct Gen
{
	Rng r;
	Plan plan;
	std::string prop;
	int opid = 0;
	struct D
	{
		std::vector<std::pair<int,Sc> > types;	// defining op, scope
		std::vector<int> aliasable;
		std::vector<int> core;			// connected types for reductions
		std::vector<std::pair<int,std::string> > trees;
		std::vector<std::string> tags;
		Sc cur{0,INF};
		std::vector<Sc> scopes;
		int nextName = 300;
		std::vector<std::pair<std::string,std::string> > sig;	// "ctx name" of defined
		std::vector<std::string> redu;
		struct Change {std::string query; Sc scope; bool faulty;};
		std::vector<Change> changes;		// queries that show the effect of every change
	};
	std::map<int,D> dbs;
	std::map<std::string,int> weight;
	int nnames, nvals = 10;
	bool focus = false;		// few scopes, few types, many reductions of equal weight
	int ncore = 7, stepHere = 30;
	int bigPct = 0;			// percentage of the operations with large allocations failing

	Gen( uint64_t seed, const std::string& p) :r(seed ^ (fnv( 0xcbf29ce484222325ull, p.c_str(), p.size()))),prop(p) {}

	std::vector<Sc> laminar()
	{
		std::vector<Sc> rt;
		rt.push_back( Sc(0,-1));
		long n = r.chance( 50) ? r.range( 6, 20) : r.range( 20, 120);
		std::function<void(long,long,int)> split = [&]( long a, long b, int depth) {
			if (b - a < 1 || depth > 6 || rt.size() > 40) return;
			int mode = r.below( 6);
			if (mode == 0) {rt.push_back( Sc(a,b)); if (b-a > 1) split( a+ (r.chance(50)?1:0), b, depth+1);}
			else if (mode == 1 && b-a > 1) {rt.push_back( Sc(a,b)); split( a, b-1, depth+1);}
			else if (b-a >= 2)
			{
				if (r.chance( 70)) rt.push_back( Sc(a,b));
				long m = a + 1 + r.below( b-a-1);
				split( a, m, depth+1);
				split( m + (r.chance(30) && m+1 < b ? 1 : 0), b, depth+1);
			}
			else rt.push_back( Sc(a,b));
		};
		split( 0, n, 0);
		if (r.chance( 40)) rt.push_back( Sc( 0, n));
		if (r.chance( 30)) rt.push_back( Sc( n, -1));	// open ended scope
		std::sort( rt.begin(), rt.end());
		rt.erase( std::unique( rt.begin(), rt.end()), rt.end());
		return rt;
	}
	std::string scw( const Sc& s) {return strf( "%ld,%ld", s.first, s.second);}
	long anyStep( D& d)
	{
		const Sc s = r.chance( stepHere) ? d.cur : r.pick( d.scopes);
		long e = s.second < 0 ? (r.chance(50) ? INF-1 : s.first + 100) : s.second;
		switch (r.below( 5))
		{
			case 0: return s.first;
			case 1: return e-1;
			case 2: return s.second < 0 ? s.first : s.second;
			case 3: return s.first > 0 ? s.first-1 : 0;
			default: return s.first + r.below( (int)std::min( e - s.first, 1000L));
		}
	}
	int name() {return r.chance( 4) ? r.range( 100, prop == "T08" || prop == "T02" || prop == "T10" ? 112 : 108) : r.below( nnames);}
	std::string type( D& d, bool zero=true)
	{
		if (d.types.empty() || (zero && r.chance( 20))) return "0";
		if (r.chance( 60) && !d.core.empty()) return strf( "t%d", r.pick( d.core));
		return strf( "t%d", r.pick( d.types).first);
	}
	std::string coreType( D& d)
	{
		if (d.core.empty()) return type( d, false);
		return strf( "t%d", r.pick( d.core));
	}
	int val() {return r.chance( 25) ? 0 : ++nvals;}
	std::string mask()
	{
		if (r.chance( 40)) return "-";
		uint32_t m = 0;
		int n = r.range( 1, 3);
		for (int i=0; i<n; ++i) m |= 1u << (tag()-1);
		return strf( "%u", m);
	}
	int tag() {return r.chance( 8) ? (r.chance( 50) ? 32 : r.range( 1, 32)) : r.range( 1, 3);}
	std::string params( D& d, bool con)
	{
		int n = r.chance( 9) ? r.range( 5, 40) : r.below( 4);
		if (n == 0) return "-";
		std::string rt;
		for (int i=0; i<n; ++i)
		{
			rt += (i?",":"") + type( d);
			if (con) rt += strf( ":%d", r.chance( 50) ? 0 : ++nvals);
		}
		return rt;
	}
	// a parameter list differing in one place
	std::string vary( D& d, const std::string& sig, bool con)
	{
		std::vector<std::string> p;
		if (sig != "-" && sig != "") {size_t b = 0; for (size_t e; (e = sig.find( ',', b)) != std::string::npos; b = e+1) p.push_back( sig.substr( b, e-b)); p.push_back( sig.substr( b));}
		std::string n = type( d) + (con ? strf( ":%d", r.chance( 50) ? 0 : ++nvals) : std::string());
		int k = r.below( 10);
		if (p.empty()) p.push_back( n);
		else if (k < 6) p[ r.chance( 40) ? p.size()-1 : r.below( p.size())] = n;
		else if (k == 6) p.pop_back();
		else if (k == 7) p.push_back( n);
		else if (k == 8) std::swap( p[ r.below( p.size())], p[ r.below( p.size())]);
		else p.insert( p.begin() + r.below( p.size()), n);
		std::string rt;
		for (size_t i=0; i<p.size() && i<60; ++i) rt += (i?",":"") + p[i];
		return rt.empty() ? "-" : rt;
	}
	std::string fault()
	{
		std::string rt;
		if ((prop == "T07" || prop == "T10") && r.chance( bigPct)) return strf( " failbig=%d", r.chance( 50) ? r.range( 64, 600) : 1 << r.range( 9, 15));
		if (prop == "T07")
		{
			if (r.chance( 45))
			{
				if (r.chance( 75)) rt += strf( " failcpp=%d", r.chance( 80) ? r.range( 1, 6) : r.range( 1, 40));
				else rt += strf( " faillua=%d", r.chance( 80) ? r.range( 1, 4) : r.range( 1, 20));
				if (r.chance( 20)) rt += " pers=1";
			}
		}
		else if (prop == "T10")
		{
			if (r.chance( 20)) {rt += strf( " failcpp=%d", r.chance( 80) ? r.range( 1, 6) : r.range( 1, 40)); if (r.chance( 20)) rt += " pers=1";}
		}
		else if (r.chance( prop == "T08" ? 30 : 8)) rt += strf( " egc=%d", r.chance( 70) ? r.range( 1, 3) : r.range( 1, 30));
		return rt;
	}
	void emit( int st, int db, const std::string& s, bool faulty=true)
	{
		std::string f = faulty ? fault() : std::string();
		plan.lines.push_back( strf( "op %d %d %d ", ++opid, st, db) + s + f);
		D& d = dbs[ st*16+db];
		Line l = Line::parse( s);
		const std::string& v = l.at(0);
		if (v == "deft" || v == "deftas") d.changes.push_back( {"thists " + l.at(1) + " " + l.at(2), d.cur, !f.empty()});
		else if (v == "seti") d.changes.push_back( {"thisi " + l.at(1), d.cur, !f.empty()});
		else if (v == "defr") d.changes.push_back( {"getrs " + l.at(2) + " - -", d.cur, !f.empty()});
	}
	// look at everything that has been changed, first of all by operations with faults
	void audit( int st, int db, int max)
	{
		D& d = dbs[ st*16+db];
		std::set<std::string> done;
		std::vector<D::Change> ch;
		for (int pass=0; pass<2; ++pass)
		{
			size_t n0 = ch.size();
			for (auto& c : d.changes) if (c.faulty == (pass == 0) && done.insert( c.query + "@" + scw( c.scope)).second) ch.push_back( c);
			for (size_t i=n0; i+1<ch.size(); ++i) std::swap( ch[ i], ch[ i + r.below( (int)(ch.size()-i))]);
		}
		if ((int)ch.size() > max) ch.resize( max);
		std::stable_sort( ch.begin(), ch.end(), []( const D::Change& a, const D::Change& b) {return a.scope < b.scope;});
		for (size_t i=0; i<ch.size(); ++i)
		{
			if (i == 0 || ch[i].scope != ch[i-1].scope)
			{
				d.cur = ch[i].scope;
				emit( st, db, strf( "scope %s %ld", scw( d.cur).c_str(), r.chance( 50) || d.cur.second < 0 ? d.cur.first : d.cur.second-1), false);
			}
			emit( st, db, ch[i].query, false);
		}
	}
	void scope( int st, int db, D& d)
	{
		d.cur = r.pick( d.scopes);
		if (r.chance( 40)) emit( st, db, strf( "scope %s %ld", scw( d.cur).c_str(), anyStep( d)));
		else emit( st, db, "scope " + scw( d.cur));
	}
	void raw( int st, int db, D& d)
	{
		static const std::vector<std::string> fixed = {
			"scope c5,3","scope sx","scope n4","scope c1,2 n-1","scope c1,2 sx","scope c1,2 n1 n2","scope tabkey","scope nil",
			"step n-1","step n0.5","step s1","step nil","step n1 n2",
			"get_instance nil","get_instance n5","get_instance","get_instance sa sb","this_instance","this_instance nil","this_instance tab",
			"set_instance sa nil","set_instance n1 fn","set_instance sa","set_instance sa fn fn",
			"def_type n-1 sa fn tab","def_type n999999 sa fn tab","def_type 0 nil fn","def_type 0 n5 fn","def_type 0 sa fn n5","def_type 0 sa fn tabkey",
			"def_type 0 sa fn parneg","def_type 0 sa fn parnot","def_type 0 sa fn par3","def_type 0","def_type","def_type 0 sa fn tab tab","def_type n999999 szz fn",
			"def_type_as 0 sa n0","def_type_as 0 sa n999999","def_type_as 0 sa n-1","def_type_as 0 sa","def_type_as n999999 sa n1","def_type_as 0 nil n1",
			"this_type n999999 sa","this_type n-1 sa tab","this_type 0 sa n5","this_type 0 sa tabkey","this_type 0","this_type 0 nil",
			"this_types n999999 sa","this_types 0","this_types 0 sa tab",
			"def_reduction n999999 n1 nil n1 n0","def_reduction 0 n0 nil n1 n0","def_reduction 0 n999999 nil n1 n0","def_reduction 0 n-1 nil n1",
			"get_reduction 0 n0","get_reduction n999999 n1","get_reduction 0 n999999","get_reduction 0","get_reductions n0","get_reductions n999999","get_reductions",
			"derive_type 0 n0","derive_type 0 n999999","derive_type 0","derive_type",
			"resolve_type n-1 sa","resolve_type 0","resolve_type tab sa","resolve_type sx sa","resolve_type 0 nil",
			"type_name n999999","type_name n-1","type_name nil","type_name","type_string n999999","type_string n-1","type_string nil","type_context n999999","type_scope n999999",
			"type_constructor n0","type_constructor n999999","type_parameters n0","type_parameters n999999","type_nof_parameters n0","type_nof_parameters n999999",
			"reduction_tagmask n0","reduction_tagmask n33","reduction_tagmask sx","instance_tree","instance_tree nil","instance_tree n1","type_tree n1","reduction_tree n1",
			"empty3 set_instance sa fn","empty0 set_instance snew1 fn","empty5 def_type 0 sa fn","empty7 def_type 0 sa fn tab","empty4 def_type_as 0 sb n1","empty2 def_type 0 snew2 fn",
			// numbers that are no integers or exceed the range of a handle, all of them are handles of existing types if cut to 32 bits
			"type_name n4294967297","type_string n4294967297","type_name n1.5","type_name n1e300","type_name ninf","type_name nnan","type_context n-4294967295","type_constructor n8589934593","type_parameters n4294967297",
			"step n4294967297","step n1e300","step nnan","scope end:4294967297","scope end:-4294967297","scope scope1:4294967297","scope scope1:nan","scope end:inf","scope end:1.5","scope c0,10 n4294967297",
			"def_type n4294967296 sa fn","def_type 0 sa fn list:4294967296","def_type 0 sa fn listtype:4294967296","def_type 0 sa fn listpair:4294967296","def_type 0 sa fn listtype:abc","def_type 0 sa fn listpair:abc","def_type 0 sa fn list:0.5",
			"def_type_as 0 sa n4294967297","def_reduction n4294967296 n1 nil n4294967297 n0","def_reduction 0 n4294967297 nil n1 n0","this_type n4294967296 sa tab","this_types n4294967296 sa",
			"get_reduction 0 n4294967297","get_reductions n4294967297","derive_type 0 n4294967297","resolve_type n4294967296 sa","resolve_type type:4294967296 sa","resolve_type type:abc sa","resolve_type list:4294967296 sa","resolve_type listtype:4294967296 sa",
			"resolve_type listtype:abc sa","resolve_type listtype:0.5 sa","resolve_type 0 sa n4294967296","resolve_type 0 sa n0.5","reduction_tagmask n4294967297","reduction_tagmask n1.5",
			"noself def_type","noself scope","noself set_instance","noself type_tree","noself resolve_type"};
		std::string s;
		if (r.chance( 15))
		{
			// the first handle that does not exist
			static const std::vector<std::string> next = {"def_type X sa fn tab","def_type 0 sa fn par+","def_type_as 0 sa X","def_type_as X sa T","this_type X sa tab","this_types X sa",
				"def_reduction X T fn n1 n0","def_reduction 0 X fn n1 n0","get_reduction 0 X","get_reduction X T","get_reductions X","derive_type 0 X","derive_type X T","resolve_type X sa",
				"type_name X","type_string X","type_context X","type_scope X","type_constructor X","type_parameters X","type_nof_parameters X"};
			emit( st, db, strf( "deft 0 %d 0 -", d.nextName++), false);
			d.types.push_back( {opid, d.cur});
			std::string t = strf( "t%d", opid);
			s = r.pick( next);
			size_t p = s.find( 'X');
			if (p != std::string::npos) s.replace( p, 1, "+" + t);
			if ((p = s.find( 'T')) != std::string::npos) s.replace( p, 1, t);
			if ((p = s.find( "par+")) != std::string::npos) s.insert( p + 4, t);
		}
		else if (!d.types.empty() && r.chance( 35))
		{
			std::string t = type( d, false), u = type( d, false);
			switch (r.below( 10))
			{
				case 0: s = "def_reduction " + t + " " + t + " fn n1 n0"; break;
				case 1: s = "def_reduction 0 " + t + " fn n0 n0"; break;
				case 2: s = "def_reduction 0 " + t + " fn n33 n0"; break;
				case 3: s = "def_reduction 0 " + t + " fn n1 n-1"; break;
				case 4: s = "def_reduction 0 " + t + " fn n1 sx"; break;
				case 5: s = "derive_type 0 " + t + " n7 n7 n-2"; break;
				case 6: s = "get_reduction 0 " + t + " n-1"; break;
				case 7: s = "def_type " + t + " sa fn parneg"; break;
				case 8: s = strf( "empty%d def_reduction 0 ", r.below(10)) + t + " fn n1 n1"; break;
				case 9: s = strf( "empty%d def_type_as 0 sa ", r.below(10)) + t; break;
			}
		}
		else s = r.pick( fixed);
		emit( st, db, "raw " + s + (r.chance( 10) ? " co=1" : ""), false);
	}
	std::string freshValues( const std::string& w)
	{
		std::string rt;
		for (size_t i=0; i<w.size();)
		{
			rt.push_back( w[i]);
			if (w[i++] == ':')
			{
				if (w[i] == '0' && (i+1 == w.size() || w[i+1] == ',')) continue;
				while (i < w.size() && isdigit( w[i])) ++i;
				rt += strf( "%d", ++nvals);
			}
		}
		return rt;
	}
	void op( int st, int db)
	{
		D& d = dbs[ st*16+db];
		int total = 0;
		for (auto& w : weight) total += w.second;
		int x = r.below( total);
		std::string v;
		for (auto& w : weight) {if (x < w.second) {v = w.first; break;} x -= w.second;}
		if (v == "scope") scope( st, db, d);
		else if (v == "scope?") emit( st, db, r.chance( 50) ? "scope?" : "step?");
		else if (v == "step") emit( st, db, strf( "step %ld", anyStep( d)));
		else if (v == "seti") emit( st, db, strf( "seti %d %d", name(), ++nvals));
		else if (v == "geti") emit( st, db, strf( "geti %d", name()));
		else if (v == "thisi") emit( st, db, strf( "thisi %d", name()));
		else if (v == "deft")
		{
			std::string ctx = type( d);
			std::string nm = strf( "%d", name());
			std::string pr;
			if (!d.sig.empty() && r.chance( 35)) {auto& sg = r.pick( d.sig); ctx = sg.first.substr( 0, sg.first.find(' ')); nm = sg.first.substr( sg.first.find(' ')+1); pr = r.chance( 35) ? params( d, true) : r.chance( 45) ? freshValues( vary( d, sg.second, true)) : freshValues( sg.second);}
			else if (r.chance( 40)) pr = params( d, true);
			emit( st, db, strf( "deft %s %s %d %s", ctx.c_str(), nm.c_str(), val(), pr.c_str()));
			d.types.push_back( {opid, d.cur});
			d.sig.push_back( {ctx + " " + nm, pr});
			if ((int)d.core.size() < ncore) d.core.push_back( opid);
		}
		else if (v == "deftu")
		{
			// type with a name of its own: candidate for aliases
			emit( st, db, strf( "deft %s %d %d", type( d).c_str(), d.nextName++, val()));
			d.types.push_back( {opid, d.cur});
			d.aliasable.push_back( opid);
			if ((int)d.core.size() < ncore) d.core.push_back( opid);
		}
		else if (v == "deftas")
		{
			if (d.aliasable.empty()) return;
			// aliases have names of their own too, or one used before
			int nm = r.chance( 70) ? 400 + r.below( 6) : name();
			emit( st, db, strf( "deftas %s %d t%d", type( d).c_str(), nm, r.pick( d.aliasable)));
		}
		else if (v == "thist" || v == "thists")
		{
			std::string ctx = type( d), nm = strf( "%d", r.chance( 20) ? 400 + r.below( 6) : name()), pr = r.chance( 50) ? params( d, false) : "";
			if (!d.sig.empty() && r.chance( 70))
			{
				auto& sg = r.pick( d.sig); ctx = sg.first.substr( 0, sg.first.find(' ')); nm = sg.first.substr( sg.first.find(' ')+1);
				pr.clear();
				// parameter list without constructors
				bool skip = false;
				for (char c : sg.second) {if (c == ':') skip = true; else if (c == ',') skip = false; if (!skip) pr += c;}
				if (r.chance( 15)) pr = r.chance( 50) ? params( d, false) : vary( d, pr, false);
			}
			emit( st, db, v == "thist" ? strf( "thist %s %s %s", ctx.c_str(), nm.c_str(), pr.c_str()) : strf( "thists %s %s", ctx.c_str(), nm.c_str()));
		}
		else if (v == "acc")
		{
			if (d.types.empty()) return;
			static const std::vector<std::string> which = {"name","ctx","str","scope","con","par","nof"};
			std::string w = r.pick( which);
			emit( st, db, "acc " + w + strf( " t%d", r.pick( d.types).first) + (w == "str" && r.chance( 40) ? (r.chance(50) ? " ::" : " none") : ""));
		}
		else if (v == "defr")
		{
			if (d.types.size() < 2) return;
			std::string to = r.chance( 10) ? type( d) : coreType( d), from = r.chance( 10) ? type( d, false) : coreType( d);
			int tg = tag();
			if (!d.redu.empty() && r.chance( focus ? 35 : 20)) {Line p = Line::parse( r.pick( d.redu)); to = p.at(0); from = p.at(1); if (r.chance( focus ? 25 : 50)) tg = p.num(2);}
			if (to == from) return;
			std::string w = focus ? strf( "%g", r.range( 1, 3) / 2.0) : r.chance( 30) ? "0" : r.chance( 50) ? strf( "%g", r.range( 1, 4) / 4.0) : strf( "%g", r.range( 1, 64) / 16.0);
			emit( st, db, strf( "defr %s %s %d %d %s", to.c_str(), from.c_str(), val(), tg, w.c_str()));
			d.redu.push_back( to + " " + from + strf( " %d", tg));
		}
		else if (v == "getr")
		{
			if (d.types.empty()) return;
			std::string to = coreType( d), from = coreType( d);
			if (!d.redu.empty() && r.chance( 70)) {Line p = Line::parse( r.pick( d.redu)); to = p.at(0); from = p.at(1);}
			emit( st, db, strf( "getr %s %s %s", to.c_str(), from.c_str(), mask().c_str()));
		}
		else if (v == "getrs") {if (d.types.empty()) return; emit( st, db, strf( "getrs %s %s %s", coreType( d).c_str(), mask().c_str(), r.chance( 50) ? "-" : mask().c_str()));}
		else if (v == "mask")
		{
			std::string s = "mask";
			int n = r.below( 5);
			for (int i=0; i<n; ++i) s += strf( " %d", tag());
			emit( st, db, s);
		}
		else if (v == "derive")
		{
			if (d.types.empty()) return;
			std::string to = coreType( d), from = coreType( d);
			if (!d.redu.empty() && r.chance( 60)) {from = Line::parse( r.pick( d.redu)).at(1); to = Line::parse( r.pick( d.redu)).at(0);}
			if (from == "0") return;
			std::string s = strf( "derive %s %s %s", to.c_str(), from.c_str(), mask().c_str());
			s += r.chance( 50) ? " -" : " " + mask();
			if (r.chance( 60)) s += strf( " %d", r.range( -1, 4));
			emit( st, db, s);
		}
		else if (v == "resolve")
		{
			std::string nm = strf( "%d", name()), c;
			if (!d.sig.empty() && r.chance( 60)) {auto& sg = r.pick( d.sig); nm = sg.first.substr( sg.first.find(' ')+1);}
			else if (r.chance( 20)) nm = strf( "%d", 400 + r.below( 6));
			int mode = r.below( 4);
			if (mode == 0) c = r.chance( 10) ? "0" : coreType( d);
			else if (mode == 1) c = "{" + (d.types.empty() ? std::string("0") : coreType( d));
			else
			{
				c = mode == 2 ? "[" : "<";
				int n = r.range( 1, 4);
				for (int i=0; i<n; ++i) c += (i?",":"") + (r.chance( 20) || d.types.empty() ? std::string("0") : coreType( d));
			}
			emit( st, db, "resolve " + c + " " + nm + " " + mask());
		}
		else if (v == "tree")
		{
			std::string k = r.chance( 33) ? "inst" : r.chance( 50) ? "type" : "redu";
			emit( st, db, "tree " + k + (k == "inst" ? strf( " %d", name()) : ""));
			d.trees.push_back( {opid,k});
		}
		else if (v == "walk")
		{
			if (d.trees.empty()) return;
			auto& t = r.pick( d.trees);
			emit( st, db, strf( "walk %d %s", t.first, t.second.c_str()) + (r.chance( 30) ? strf( " hold=%d", r.range( 1, 100000)) + (r.chance( 40) ? " drop=1" : "") : r.chance( 15) ? strf( " %d", r.range( 1, 5)) : ""), false);
		}
		else if (v == "droptree") {if (d.trees.empty()) return; emit( st, db, strf( "droptree %d", r.pick( d.trees).first), false);}
		else if (v == "gc") emit( st, db, r.chance( 60) ? "gc" : strf( "gcstep %d", r.range( 1, 200)), false);
		else if (v == "raw") raw( st, db, d);
		else if (v == "fin") emit( st, db, strf( "fin %d", r.below( 16)), false);
		else if (v == "deldb")
		{
			emit( st, db, "deldb", false);
			d.types.clear(); d.core.clear(); d.aliasable.clear(); d.sig.clear(); d.redu.clear(); d.trees.clear();
			mkdb( st, db);
		}
	}
	void mkdb( int st, int db)
	{
		static const std::vector<long> mem = {1024,1024,2048,4096,16384,1<<16,1<<18,1<<20};
		D& d = dbs[ st*16+db];
		if (d.scopes.empty()) d.scopes = laminar();
		if (focus && d.scopes.size() > 3) {while (d.scopes.size() > 3) d.scopes.erase( d.scopes.begin() + r.range( 1, (int)d.scopes.size()-1));}
		emit( st, db, "mkdb", false);
		plan.lines.back() += strf( " mem=%ld", r.pick( mem));
	}
	bool faulty() const {return prop == "T07" || prop == "T10";}
	// defines a plain type, returns the id of its definition
	int deft( int st, int db, const std::string& ctx, int nm, int v, const std::string& pr, bool core)
	{
		D& d = dbs[ st*16+db];
		emit( st, db, strf( "deft %s %d %d %s", ctx.c_str(), nm, v, pr.c_str()), r.chance( faulty() ? 60 : 10));
		d.types.push_back( {opid, d.cur});
		if (core) d.core.push_back( opid);
		return opid;
	}
	// histories large enough to outgrow the fixed sized buffers, the reserved table sizes and the initial memory blocks
	void big( int st, int db)
	{
		D& d = dbs[ st*16+db];
		static const std::map<std::string,std::string> kinds = {{"T01","i"},{"T02","oonnx"},{"T03","sscrr"},{"T04","ssccw"},{"T05","ssccm"},{"T06","iosrttt"}};
		auto ki = kinds.find( prop);
		std::string ks = ki == kinds.end() ? "ionnsscrrmxt" : ki->second;
		char k = ks[ r.below( ks.size())];
		auto mix = [&]( int n) {for (int i=0; i<n; ++i) op( st, db);};
		bigPct = r.chance( 30) ? 0 : r.range( 5, 90);
		if (r.chance( 50)) scope( st, db, d);
		if (k == 'i')
		{
			int n = r.range( 1025, 2300), few = r.chance( 50) ? r.range( 20, 60) : n;
			for (int i=0; i<n; ++i)
			{
				if (r.chance( few < n ? 20 : 3)) scope( st, db, d);
				emit( st, db, strf( "seti %d %d", 1000 + r.below( few), ++nvals), r.chance( faulty() ? 50 : 5));
			}
			for (int i=0; i<60; ++i) {if (r.chance( 40)) emit( st, db, strf( "step %ld", anyStep( d)), false); emit( st, db, strf( "%s %d", r.chance( 70) ? "geti" : "thisi", 1000 + r.below( few)), false);}
		}
		else if (k == 'o')
		{
			// long lists of overloads of the same name
			int nn = r.range( 1, 3), n = r.range( 400, 1400);
			std::vector<int> base;
			for (int i=0; i<40; ++i) base.push_back( deft( st, db, "0", 1000+i, 0, "-", i < 7));
			for (int i=0; i<n; ++i)
			{
				if (r.chance( 1)) scope( st, db, d);
				int x = r.chance( 5) && i ? r.below( i) : i;	// some duplicates
				std::string pr = strf( "t%d", base[ x % 40]);
				if (r.chance( 50)) pr += strf( ":%d", r.chance( 50) ? 0 : ++nvals);
				pr += strf( ",t%d", base[ x / 40 % 40]);
				deft( st, db, "0", x % nn, r.chance( 30) ? ++nvals : 0, pr, false);
				if (r.chance( 3)) d.sig.push_back( {strf( "0 %d", x % nn), pr});
			}
			for (int i=0; i<nn; ++i) {emit( st, db, strf( "thists 0 %d", i), false); emit( st, db, strf( "resolve 0 %d -", i), false);}
		}
		else if (k == 'n')
		{
			// many identifiers and types
			int n = r.range( 1025, 2200), pp = r.chance( 50) ? 20 : 80;
			for (int i=0; i<n; ++i)
			{
				if (r.chance( 3)) scope( st, db, d);
				deft( st, db, r.chance( 80) ? std::string("0") : type( d), 1000+i, r.chance( 20) ? ++nvals : 0, r.chance( pp) ? params( d, true) : "-", i < 7);
			}
			for (int i=0; i<60; ++i)
			{
				if (r.chance( 20)) scope( st, db, d);
				if (r.chance( 50)) emit( st, db, strf( "thist 0 %d -", 1000 + r.below( n)), false);
				else emit( st, db, strf( "acc %s t%d", r.chance( 50) ? "name" : r.chance( 50) ? "scope" : "par", r.pick( d.types).first), false);
			}
		}
		else if (k == 's' || k == 'w')
		{
			// star: one type with many reductions, and back to a common target
			int n = k == 'w' ? r.range( 20, 60) : r.range( 100, 420);
			int hub = deft( st, db, "0", 1000, 0, "-", true), sink = deft( st, db, "0", 1001, 0, "-", true);
			std::vector<int> leaf;
			for (int i=0; i<n; ++i) leaf.push_back( deft( st, db, "0", 1002+i, 0, "-", i < 5));
			for (int i=0; i<n; ++i)
			{
				if (r.chance( 1)) scope( st, db, d);
				emit( st, db, strf( "defr t%d t%d %d %d %g", leaf[i], hub, r.chance( 50) ? 0 : ++nvals, tag(), r.range( 1, 32) / 16.0), r.chance( faulty() ? 30 : 3));
				if (k == 'w' || r.chance( 5)) emit( st, db, strf( "defr t%d t%d %d %d %g", sink, leaf[i], r.chance( 50) ? 0 : ++nvals, tag(), r.range( 1, 32) / 16.0), r.chance( 3));
				if (r.chance( 3)) d.redu.push_back( strf( "t%d t%d 1", leaf[i], hub));
			}
			int tid = r.chance( 50) ? leaf[ r.below( n)] : leaf[ n-1];
			int nm = r.below( 3);
			deft( st, db, strf( "t%d", tid), nm, ++nvals, "-", false);
			for (int i=0; i<8; ++i)
			{
				emit( st, db, strf( "getrs t%d %s %s", hub, r.chance( 60) ? "-" : mask().c_str(), r.chance( 60) ? "-" : mask().c_str()), i > 0);
				emit( st, db, strf( "derive t%d t%d - %s 1", r.chance( 50) ? sink : leaf[ r.below( n)], hub, r.chance( 60) ? "-" : mask().c_str()));
				emit( st, db, strf( "getr t%d t%d -", leaf[ r.below( n)], hub));
				emit( st, db, strf( "resolve t%d %d %s", hub, nm, r.chance( 80) ? "-" : mask().c_str()));
			}
		}
		else if (k == 'r')
		{
			// more reductions than reserved in the beginning
			int nt = r.range( 36, 60), n = r.range( 1025, 1500);
			std::vector<int> node;
			for (int i=0; i<nt; ++i) node.push_back( deft( st, db, "0", 1000+i, 0, "-", i < 4));
			for (int i=0; i<n; ++i)
			{
				if (r.chance( 1)) scope( st, db, d);
				int a = i % nt, b = (a + 1 + i / nt) % nt;
				if (a == b) continue;
				emit( st, db, strf( "defr t%d t%d %d %d %g", node[b], node[a], r.chance( 50) ? 0 : ++nvals, tag(), r.range( 1, 32) / 16.0), r.chance( faulty() ? 50 : 3));
			}
			for (int i=0; i<10; ++i)
			{
				emit( st, db, strf( "getrs t%d %s -", node[ r.below( nt)], r.chance( 60) ? "-" : mask().c_str()));
				emit( st, db, strf( "getr t%d t%d -", node[ r.below( nt)], node[ r.below( nt)]));
			}
			return;		// ... no search of paths in a dense graph of that size
		}
		else if (k == 'c')
		{
			int n = r.chance( 50) ? r.range( 100, 420) : r.range( 420, 900);
			std::vector<int> node;
			for (int i=0; i<=n; ++i) node.push_back( deft( st, db, "0", 1000+i, 0, "-", i < 3 || i + 3 > n));
			for (int i=0; i<n; ++i) emit( st, db, strf( "defr t%d t%d %d %d %g", node[i+1], node[i], r.chance( 50) ? 0 : ++nvals, r.chance( 90) ? 1 : tag(), r.chance( 50) ? 0 : 1 / 16.0), r.chance( faulty() ? 30 : 2));
			deft( st, db, strf( "t%d", node[ n]), 0, ++nvals, "-", false);
			for (int i=0; i<6; ++i)
			{
				int a = r.chance( 50) ? 0 : r.below( n), b = r.chance( 50) ? n : r.below( n);
				emit( st, db, strf( "derive t%d t%d - - %d", node[ b], node[ a], r.chance( 70) ? 1 : r.range( -1, 4)), i > 0);
				emit( st, db, strf( "resolve t%d 0 -", node[ a]), i > 0);
			}
		}
		else if (k == 't')
		{
			// many scopes, nested and side by side
			long base = 0;
			for (auto& c : d.scopes) if (c.second > base && c.second < 1000000) base = c.second;
			base += 1000;
			int n = r.range( 40, 300), nest = r.below( 70);
			int t0 = deft( st, db, "0", 1000, 0, "-", true), t1 = deft( st, db, "0", 1001, 0, "-", true);
			for (int i=0; i<n; ++i)
			{
				std::vector<Sc> cs;
				cs.push_back( {base + i*100L, base + i*100L + (r.chance( 20) ? 100 : 90)});
				while (r.chance( nest) && cs.size() < 8)
				{
					Sc p = cs.back(); long len = (p.second - p.first) / 2;
					if (len < 2) break;
					long at = r.chance( 40) ? p.first : r.chance( 40) ? p.second - len : p.first + len/2;
					cs.push_back( {at, at + len});
				}
				if (r.chance( 40)) std::reverse( cs.begin(), cs.end());
				for (auto& c : cs)
				{
					d.cur = c;
					emit( st, db, "scope " + scw( c), false);
					int q = r.below( 10);
					if (q < 5) emit( st, db, strf( "seti 1000 %d", ++nvals), false);
					if (q > 2 && q < 8) deft( st, db, "0", 2000 + r.below( 500), 0, "-", false);
					if (q > 6) emit( st, db, strf( "defr t%d t%d %d %d 1", t1, t0, ++nvals, tag()), false);
				}
			}
			scope( st, db, d);
		}
		else if (k == 'm')
		{
			// resolving in a long list of contexts
			int n = r.range( 100, 400);
			std::vector<int> node;
			for (int i=0; i<n; ++i) node.push_back( deft( st, db, "0", 1000+i, 0, "-", i < 7));
			int hits = r.range( 0, 2);
			for (int i=0; i<hits; ++i) deft( st, db, strf( "t%d", node[ r.chance( 50) ? n-1 : r.below( n)]), 0, 0, "-", false);
			for (int i=0; i<4; ++i)
			{
				std::string c = r.chance( 50) ? "[" : "<";
				int len = r.range( n/2, n), at = r.below( n);
				for (int j=0; j<len; ++j) c += (j ? "," : "") + strf( "t%d", node[ (j + at) % n]);
				emit( st, db, "resolve " + c + " 0 -", i > 0);
			}
		}
		else
		{
			// deep contexts with long names: long type strings
			int n = r.range( 20, 400);
			std::string ctx = "0";
			int first = 0;
			for (int i=0; i<n; ++i)
			{
				if (r.chance( 2)) scope( st, db, d);
				ctx = strf( "t%d", deft( st, db, ctx, r.chance( 2) && n < 100 ? r.range( 101, 103) : 1000 + i, 0, i && r.chance( 10) ? strf( "t%d,0", first) : std::string("-"), i < 3 || i + 3 > n)); if (!i) first = opid;
			}
			for (int i=0; i<10; ++i) emit( st, db, strf( "acc str t%d", r.chance( 50) ? d.types.back().first : r.pick( d.types).first) + (r.chance( 30) ? " none" : ""));
		}
		mix( prop == "T04" || prop == "T05" ? 20 : 60);
		if (d.scopes.size() && (prop == "T06" || r.chance( k == 't' ? 70 : 20)))
		{
			for (const char* t : {"inst 1000","type","redu"}) {emit( st, db, std::string("tree ") + t, false); emit( st, db, strf( "walk %d %.4s", opid, t) + (r.chance( 60) ? strf( " hold=%d", r.range( 1, 100000)) + (r.chance( 60) ? " drop=1" : "") : ""), false);}
		}
	}
	Plan gen( bool thorough)
	{
		plan.world = "A"; plan.prop = prop;
		nnames = r.chance( 50) ? r.range( 2, 4) : r.range( 4, 25);
		bigPct = r.chance( 50) ? 0 : r.range( 5, 60);
		focus = r.chance( prop == "T03" || prop == "T04" || prop == "T05" ? 60 : 20);
		ncore = focus ? r.range( 3, 6) : 7;
		stepHere = r.chance( 50) ? 30 : 75;
		bool multi = prop == "T09" || r.chance( 15);
		int nst = prop == "T09" ? r.range( 1, 3) : multi ? r.range( 1, 2) : 1;
		int ndb = prop == "T09" ? r.range( nst == 1 ? 2 : 1, 3) : multi ? 2 : 1;
		auto W = [&]( const char* v, int n) {if (n) weight[ v] = n;};
		// base mix
		W("scope",10); W("step",8); W("scope?",1);
		if (prop == "T01") {W("seti",20); W("geti",25); W("thisi",10); W("gc",2); W("scope?",3);}
		else if (prop == "T02") {W("deft",20); W("deftu",4); W("deftas",4); W("thist",12); W("thists",10); W("acc",20); W("gc",2); W("seti",1); W("defr",1); W("resolve",2);}
		else if (prop == "T03") {W("deft",4); W("defr",22); W("getr",12); W("getrs",14); W("mask",2); W("gc",2); W("derive",1);}
		else if (prop == "T04") {W("deft",4); W("defr",22); W("derive",25); W("gc",1);}
		else if (prop == "T05") {W("deft",12); W("deftu",2); W("deftas",2); W("defr",14); W("resolve",25); W("gc",1);}
		else if (prop == "T06") {W("deft",10); W("deftu",3); W("deftas",2); W("defr",10); W("seti",10); W("tree",8); W("walk",12); W("droptree",1); W("gc",2); if (r.chance( 20)) W("deldb",1);}
		else
		{
			W("seti",10); W("geti",8); W("thisi",4); W("deft",14); W("deftu",2); W("deftas",2); W("thist",4); W("thists",4); W("acc",8); W("defr",12); W("getr",5); W("getrs",5);
			W("mask",1); W("derive",5); W("resolve",6); W("tree",2); W("walk",3); W("gc", prop == "T08" ? 8 : 2);
			if (prop == "T07" || prop == "T10") W("raw",14);
			if (prop == "T09" || prop == "T10") W("deldb",2);
			if (r.chance( 25)) W("fin",1);
		}
		if (focus) {W("scope",3); W("step",4); if (weight.count("resolve")) {W("deft", weight["deft"] + 4);}}
		// swarm: drop some verbs in some runs
		if (r.chance( 50))
		{
			std::vector<std::string> k;
			for (auto& w : weight) if (w.first != "deft" && w.first != "defr" && w.first != "seti" && w.first != "tree" && w.first != "walk") k.push_back( w.first);
			int n = r.below( 3);
			for (int i=0; i<n && !k.empty(); ++i) {auto x = r.pick( k); if (weight.size() > 6) weight.erase( x);}
		}
		static const std::vector<int> pauses = {100,110,150,200,400,1000};
		plan.lines.push_back( strf( "knob states=%d layout=%d reuse=%d gap=%d fill=%d gcpause=%d gcmul=%d", nst, r.below( 100000), r.chance( 40) ? 0 : r.range( 10, 100),
			r.chance( 50) ? 0 : r.range( 1, 8), r.chance( 50) ? -1 : r.below( 256), r.pick( pauses), r.pick( pauses)));
		int nops = r.chance( 30) ? r.range( 10, 40) : r.chance( 70) ? r.range( 60, 200) : r.range( 200, thorough ? 800 : 400);
		if (prop == "T04" || prop == "T05") nops = std::min( nops, 250);
		for (int s=0; s<nst; ++s) for (int d=0; d<ndb; ++d)
		{
			mkdb( s, d);
		}
		if (nst > 1)
		{
			int nq = r.range( 3, 60);
			bool pre = r.chance( prop == "T09" ? 75 : 40);
			if (pre) plan.lines[0] += strf( " pre=1");
			int mag = r.range( 4, 16);
			for (int i=0; i<nq; ++i) plan.lines.push_back( strf( "q %d %d", r.below( nst), pre ? r.range( 1, 1 << r.range( 1, mag)) : r.chance( 50) ? r.range( 1, 20) : r.range( 20, 2000)));
		}
		if (r.chance( thorough ? 8 : 4))
		{
			for (int i=r.below( 20); i>0; --i) op( r.below( nst), r.below( ndb));
			int st = r.below( nst), db = r.below( ndb);
			big( st, db);
			if (r.chance( faulty() ? 80 : 30)) audit( st, db, 800);
			return plan;
		}
		if (focus && weight.count( "defr")) for (int st=0; st<nst; ++st) for (int db=0; db<ndb; ++db)
		{
			// a dense graph of reductions to start with
			D& d = dbs[ st*16+db];
			std::map<std::string,int> w = weight;
			for (int i=0; i<ncore; ++i) deft( st, db, i && r.chance( 20) ? type( d) : std::string("0"), r.below( nnames), r.chance( 50) ? ++nvals : 0, "-", true);
			for (int i=r.range( ncore, ncore*3); i>0; --i) {weight = {{"defr",12},{"scope",1}}; op( st, db);}
			weight = w;
		}
		for (int i=0; i<nops; ++i) op( r.below( nst), r.below( ndb));
		if (r.chance( faulty() ? 60 : 20)) for (int st=0; st<nst; ++st) for (int db=0; db<ndb; ++db) audit( st, db, 150);
		return plan;
	}
};

Plan genA( uint64_t seed, const std::string& prop, bool thorough)
{
	if ((prop == "T09" || prop == "T10") && seed % 3 == 2) return worldB.gen( seed, prop, thorough);	// sessions of compilers
	Gen g( seed, prop);
	return g.gen( thorough);
}
} // anonymous
const World worldA = {"A", genA, execA};
} // namespace sim

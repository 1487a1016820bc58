// Random grammars, sources and ways to disturb them
#pragma once
#include "grammar.hpp"
namespace gr {

struct GenOpt
{
	bool tokenList = false;		// a language of token sequences
	bool indent = false;		// indentation tokens
	bool precedence = false;	// priorities instead of layers
	bool random = false;		// random productions
	bool calls = true;
	bool general = false;		// grammars that are LR(1) but not SLR(1) too
	int size = 2;
	int wideTerms = 0, wideProds = 0, wideLen = 0;	// many declarations
};

struct GramGen
{
	Rng& r; Gram g; GenOpt o;
	std::vector<std::string> words, ops;
	std::vector<std::pair<std::string,std::string> > named;	// token name, kind
	int nfn = 0, nnt = 0;
	std::vector<int> namedT;

	GramGen( Rng& r_, const GenOpt& o_) :r(r_),o(o_)
	{
		words = {"if","while","let","in","end","do","fn","return","var","begin","x","for","else","iff","lets","a","_"};
		ops = {"+","-","*","/","->","==","=","<","<=","=>",":=","::",":","...","..",".","&&","||","!","?","^","|","&",">>","++","$","%%","@@","$$","\"","'","\xe2\x86\x92","\xc3\xa4","#!","~~"};
		shuffle( words); shuffle( ops);
	}
	template <class T> void shuffle( std::vector<T>& v) {for (size_t i=v.size(); i>1; --i) std::swap( v[i-1], v[r.below(i)]);}
	int word() {if (words.empty()) return op(); std::string w = words.back(); words.pop_back(); return g.kw( w);}
	int op() {if (ops.empty()) return g.kw( strf( "k%d", nfn+++100)); std::string w = ops.back(); ops.pop_back(); return g.kw( w);}
	int kw() {return r.chance( 50) ? word() : op();}
	std::string fresh( const char* b) {return strf( "%s%d", b, ++nnt);}
	int nt( const char* b) {return g.nt( fresh( b));}
	void call( Prod& p, int pct=70)
	{
		if (!o.calls) return;
		if (r.chance( pct))
		{
			p.fn = strf( "f%d", r.chance( 80) ? nfn++ : r.below( nfn+1));
			if (nfn < 1) nfn = 1;
			if (r.chance( 25))
			{
				p.argKind = r.range( 1, 4);
				static const std::vector<std::string> s = {"abc","x y","#1","{}",""," a","1"};
				static const std::vector<std::string> t = {"{a=1}","{a=1,b=\"x\"}","{op=\"+\",n=12}","{x=3,y=4}"};
				p.arg = p.argKind == 1 ? strf( "arg%d", r.below(3)) : p.argKind == 2 ? r.pick( s) : p.argKind == 3 ? strf( "%d", r.below(100)) : r.pick( t);
			}
			if (r.chance( 35)) p.mark = r.range( 1, 2);
		}
		else if (r.chance( 12)) p.mark = 1;
	}
	void prod( int lhs, const std::vector<int>& rhs, int pct=70) {Prod p; p.lhs = lhs; p.rhs = rhs; call( p, pct); g.prods.push_back( p);}
	int tokenOf( const char* kind, const char* name) {int t = g.tok( kind, name); if (std::find( namedT.begin(), namedT.end(), t) == namedT.end()) namedT.push_back( t); return t;}
	int anyTok()
	{
		static const std::vector<const char*> ks = {"ID","UINT","FLT","FLE","HEX","DQ","DE","SQ","VAR","LIT","NEG","ANY1","UP24","DW","DATE","OPT","GRP","LAZY","OPS","MLN","SEL","KV","ALT"};
		const char* k = ks[ r.below( r.chance( 60) ? 6 : ks.size())];
		return tokenOf( k, strf( "T%s", k).c_str());
	}
	int expr( int primaryExtra=0)
	{
		int e = nt( "e");
		if (o.precedence)
		{
			int n = r.range( 1, 4);
			std::vector<int> prios; int p0 = r.chance( 40) ? 0 : 1; for (int i=0; i<n; ++i) prios.push_back( r.chance( 25) && i ? prios.back() : i+p0);
			std::map<int,char> as;
			for (int i=0; i<n; ++i)
			{
				char a = as.count( prios[i]) ? as[prios[i]] : (as[prios[i]] = r.chance( 60) ? 'L' : 'R');
				Prod p; p.lhs = e; p.rhs = {e,op(),e}; p.assoc = a; p.prio = prios[i]; call( p, 95); g.prods.push_back( p);
			}
			if (r.chance( 30)) {Prod p; p.lhs = e; p.rhs = {op(),e}; p.assoc = 'L'; p.prio = n+2; call( p, 95); g.prods.push_back( p);}
			int lp = op(), rp = op();
			if (r.chance( 70)) prod( e, {lp,e,rp}, 20);
			prod( e, {anyTok()}, 60);
			if (r.chance( 50)) {int t = anyTok(); bool used = false; for (auto& p : g.prods) if (p.lhs == e && p.rhs.size() == 1 && p.rhs[0] == t) used = true; if (!used) prod( e, {t}, 60);}
			return e;
		}
		int cur = e, n = r.range( 0, 3);
		for (int i=0; i<n; ++i)
		{
			int next = nt( "e");
			int k = r.range( 1, 2);
			int style = r.below( 3);
			for (int j=0; j<k; ++j)
			{
				if (style == 0) prod( cur, {cur,op(),next});
				else if (style == 1) prod( cur, {next,op(),cur});
				else prod( cur, {op(),cur});
			}
			prod( cur, {next}, 15);
			cur = next;
		}
		prod( cur, {anyTok()});
		int t = anyTok();
		bool used = false; for (auto& p : g.prods) if (p.lhs == cur && p.rhs.size() == 1 && p.rhs[0] == t) used = true;
		if (!used) prod( cur, {t});
		if (r.chance( 70)) prod( cur, {op(),e,op()}, 30);
		if (r.chance( 25)) prod( cur, {op(),op()});
		if (primaryExtra) prod( cur, {primaryExtra});
		return e;
	}
	int list( int elem, int minStyle=0)
	{
		int l = nt( "l");
		switch (r.below( 6))
		{
			case 0: prod( l, {l,elem}, 25); prod( l, {}, 20); break;
			case 1: prod( l, {elem,l}, 25); prod( l, {}, 20); break;
			case 2: prod( l, {l,elem}, 25); prod( l, {elem}, 25); break;
			case 3: {int s = op(); prod( l, {l,s,elem}, 25); prod( l, {elem}, 25); break;}
			case 4: {int s = op(); prod( l, {elem,s,l}, 25); prod( l, {elem}, 25); break;}
			case 5: {int s = op(); prod( l, {l,elem,s}, 25); prod( l, {}, 20); break;}
		}
		return l;
	}
	Gram composite()
	{
		int start = nt( "start");
		size_t sp = g.prods.size();
		{Prod p; p.lhs = start; g.prods.push_back( p);}
		int stmt = nt( "s");
		int n = o.size + r.below( 3);
		int e = 0;
		int pars = 0;
		for (int i=0; i<n; ++i)
		{
			switch (r.below( 10))
			{
				case 0: if (!e) e = expr(); prod( stmt, {word(),e,op()}); break;
				case 1: if (!e) e = expr(); prod( stmt, {word(),anyTok(),op(),e,op()}); break;
				case 2: prod( stmt, {op(),list( stmt),op()}); break;
				case 3: prod( stmt, {word(),stmt}); break;
				case 4: if (!e) e = expr(); prod( stmt, {word(),op(),e,op(),stmt}); break;
				case 5: {int a = anyTok(); int x = nt( "p"); prod( x, {a}, 50); if (r.chance( 50)) prod( x, {op(),a}); prod( stmt, {word(),op(),list( x),op()}); break;}
				case 6: prod( stmt, {word(),op()}); break;
				case 7: {int q = nt( "q"); prod( q, {word()}, 50); prod( q, {}, 50); prod( stmt, {word(),q,op()}); break;}
				case 9:
				{
					// a sequence of optional elements
					int q = nt( "q"), k = r.range( 2, 4);
					std::vector<int> all;
					for (int j=0; j<k; ++j) {int x = nt( "q"); prod( x, {r.chance( 60) ? op() : word()}, 60); prod( x, {}, 40); all.push_back( x);}
					prod( q, all, 50); prod( stmt, {word(),q,op()});
					break;
				}
				case 8: {if (!pars) {pars = nt( "m"); prod( pars, {word()}, 60); prod( pars, {word(),anyTok()}, 60);} prod( stmt, {op(),pars,op()}); break;}
			}
		}
		if (r.chance( 30)) {std::string w = fresh( "TK"); int t = tokenOf( "UP24", w.c_str()); prod( stmt, {t,op()});}
		int top = list( stmt);
		Prod& p = g.prods[sp];
		p.rhs = {top};
		if (r.chance( 15)) p.rhs.insert( p.rhs.begin(), word());
		if (r.chance( 15)) p.rhs.push_back( word());
		call( p, 60);
		return g;
	}
	Gram indented()
	{
		g.tab = r.range( 1, 8);
		int op_ = g.term( "IND", 2), cl = g.term( "DED", 3), nl = g.term( "NL", 4);
		int start = nt( "start");
		size_t sp = g.prods.size();
		{Prod p; p.lhs = start; g.prods.push_back( p);}
		int item = nt( "i");
		int items = nt( "l");
		int e = o.precedence || r.chance( 60) ? expr() : 0;
		prod( items, {items,item}, 10);
		if (r.chance( 50)) prod( items, {item}, 10); else prod( items, {}, 10);
		int n = r.range( 1, 3);
		for (int i=0; i<n; ++i)
		{
			if (e && r.chance( 60)) prod( item, {nl,word(),e}); else prod( item, {nl,word(),anyTok()});
		}
		int blk = nt( "b");
		prod( blk, {op_,items,cl}, 60);
		if (r.chance( 60)) prod( item, {nl,word(),anyTok(),op(),blk}); else prod( item, {nl,word(),blk});
		if (r.chance( 50)) prod( item, {nl,op(),anyTok()});
		g.prods[sp].rhs = {items};
		call( g.prods[sp], 70);
		return g;
	}
	Gram tokenlist()
	{
		int start = nt( "start");
		size_t sp = g.prods.size();
		{Prod p; p.lhs = start; g.prods.push_back( p);}
		int items = nt( "l"), item = nt( "i");
		prod( items, {items,item}, 0); prod( items, {}, 0);
		int n = r.range( 3, 9);
		std::set<int> used;
		std::vector<int> sym;
		if (o.indent)
		{
			g.tab = r.range( 1, 8);
			sym.push_back( g.term( "IND", 2)); sym.push_back( g.term( "DED", 3)); sym.push_back( g.term( "NL", 4));
		}
		for (int i=0; i<n; ++i)
		{
			int k = r.below( 10);
			if (k < 6) {auto& K = kinds(); int q = r.below( K.size()); sym.push_back( tokenOf( K[q].name, strf( "T%s", r.chance( 10) && i ? "X" : K[q].name).c_str()));}
			else sym.push_back( kw());
		}
		for (int s : sym) if (used.insert( s).second)
		{
			Prod p; p.lhs = item; p.rhs = {s}; p.fn = strf( "f%d", nfn++);
			g.prods.push_back( p);
		}
		g.prods[sp].rhs = {items};
		if (r.chance( 50)) {Prod& p = g.prods[sp]; p.fn = "top";}
		return g;
	}
	Gram randomCfg()
	{
		int nn = r.range( 1, 5), ntm = r.range( 2, 5);
		std::vector<int> T, N;
		static const char* lets[] = {"a","b","c","d","e","u","v"};
		for (int i=0; i<ntm; ++i) T.push_back( r.chance( 30) ? anyTok() : g.kw( lets[i]));
		int start = nt( "start");
		for (int i=0; i<nn; ++i) N.push_back( nt( "n"));
		Prod p; p.lhs = start; p.rhs = {N[0]}; call( p, 60); g.prods.push_back( p);
		for (int i=0; i<nn; ++i)
		{
			int k = r.range( 1, 3);
			std::set<std::vector<int> > seen;
			for (int j=0; j<k; ++j)
			{
				std::vector<int> rhs;
				int len = r.pick( std::vector<int>{0,1,1,2,2,2,3,3,4});
				for (int x=0; x<len; ++x) rhs.push_back( r.chance( 55) ? T[r.below(T.size())] : N[r.below(N.size())]);
				if (!seen.insert( rhs).second) continue;
				prod( N[i], rhs, 60);
			}
		}
		return g;
	}
	// shapes needing look ahead by context: LALR(1) but not SLR(1), LR(1) but not LALR(1)
	Gram lookahead()
	{
		int start = nt( "start");
		{Prod p; p.lhs = start; p.rhs = {}; g.prods.push_back( p);}
		int s = nt( "s");
		int k = r.below( 4);
		if (k == 0)
		{
			int l = nt( "l"), q = nt( "r"), eq = kw(), st = kw();
			prod( s, {l,eq,q}); prod( s, {q}); prod( l, {st,q}); prod( l, {anyTok()}); prod( q, {l});
		}
		else if (k == 1)
		{
			int a = nt( "a"), b = nt( "b"), c = nt( "c"), x = kw(), y = kw(), z = kw();
			prod( s, {a,x}); prod( s, {y,a,z}); prod( s, {b,z}); prod( s, {y,b,x});
			int t = r.chance( 50) ? anyTok() : kw();
			prod( a, {t}); prod( b, {t}); (void)c;
		}
		else if (k == 2)
		{
			int a = nt( "a"), b = nt( "b"), x = kw(), y = kw();
			prod( s, {a,x,a,y}); prod( s, {b,y,b,x}); prod( a, {}); prod( b, {});
		}
		else
		{
			int a = nt( "a"), b = nt( "b"), n = r.range( 1, 3);
			int t = anyTok();
			std::vector<int> pre; for (int i=0; i<n; ++i) pre.push_back( kw());
			int x = kw(), y = kw();
			for (int i=0; i<n; ++i) {prod( s, {pre[i],a,x}); prod( s, {pre[i],b,y}); if (r.chance( 40)) {int z = kw(); prod( s, {pre[i],z,a,y}); prod( s, {pre[i],z,b,x});}}
			prod( a, {t}); prod( b, {t}); if (r.chance( 50)) {int z = kw(); prod( a, {z,a}); prod( b, {z,b});}
		}
		int top = r.chance( 50) ? s : 0;
		if (!top) {top = nt( "l"); int sep = kw(); prod( top, {top,sep,s}, 25); prod( top, {s}, 25);}
		g.prods[0].rhs = {top};
		call( g.prods[0], 60);
		return g;
	}
	// many declarations: up to the limits of the encoding of the tables. The statements are told apart by a prefix of keywords,
	// so the grammar is LALR(1) by construction
	Gram wide( int nT, int nP, int maxLen)
	{
		int start = nt( "start");
		{Prod p; p.lhs = start; g.prods.push_back( p);}
		int stmt = nt( "s");
		int kwn = 0, common = 0;
		auto fresh_ = [&] {return g.kw( strf( "kw%d", ++kwn));};
		auto old = [&] {return kwn ? g.kw( strf( "kw%d", r.range( 1, kwn))) : fresh_();};
		std::vector<int> opt, subs;
		int nopt = r.below( 6);
		for (int i=0; i<nopt; ++i) {int q = nt( "q"); prod( q, {fresh_()}, 60); prod( q, {}, 40); opt.push_back( q);}
		if (nopt >= 3)
		{
			// nullable as a whole
			int q = nt( "q");
			std::vector<int> all = opt; shuffle( all); all.resize( r.range( 3, nopt));
			prod( q, all, 50);
			prod( stmt, {fresh_(),q,op()});
			if (r.chance( 50)) prod( stmt, {fresh_(),q,fresh_(),q});
		}
		int e = r.chance( 60) ? nt( "e") : 0;
		if (e)
		{
			int np = r.chance( 50) ? 31 : r.range( 1, 31);
			for (int i=1; i<=np; ++i) {Prod p; p.lhs = e; p.rhs = {e,i <= 20 ? op() : fresh_(),e}; p.assoc = r.chance( 60) ? 'L' : 'R'; p.prio = np == 31 ? i : i + (r.chance( 50) ? 31-np : 0); call( p, 90); g.prods.push_back( p);}
			for (size_t i=1; i<g.prods.size(); ++i) for (size_t k=0; k<i; ++k) if (g.prods[i].assoc && g.prods[k].prio == g.prods[i].prio) g.prods[i].assoc = g.prods[k].assoc;
			prod( e, {anyTok()}, 70);
		}
		bool shared = r.chance( 40);
		int fpct = r.pick( std::vector<int>{5,25,55}), ne = 0;
		if (shared) common = fresh_();
		while ((int)g.prods.size() < nP-2 && (int)g.terms.size() < nT)
		{
			std::vector<int> rhs;
			if (shared && r.chance( 50)) rhs.push_back( common);
			rhs.push_back( fresh_());
			int len = r.chance( 20) ? maxLen : r.range( 1, maxLen);
			while ((int)rhs.size() < len && (int)g.terms.size() < nT)
			{
				int k = r.below( 100);
				if (k < fpct) rhs.push_back( fresh_());
				else if (k < 75) rhs.push_back( old());
				else if (k < 80 && e && ne < 60) {++ne; rhs.push_back( e); if ((int)rhs.size() < len) rhs.push_back( op());}
				else if (k < 85 && !subs.empty()) rhs.push_back( r.pick( subs));
				else if (k < 90) rhs.push_back( anyTok());
				else rhs.push_back( op());
			}
			if (e && rhs.back() == e) {if ((int)rhs.size() < maxLen) rhs.push_back( g.kw( ";;")); else rhs.back() = g.kw( ";;");}
			if (r.chance( 25) && (int)g.nts.size() < 250) {int x = nt( "x"); prod( x, rhs); subs.push_back( x); prod( stmt, {old(),g.kw( "@@@"),x}); if (!distinct()) {g.prods.pop_back(); prod( stmt, {fresh_(),g.kw( "@@@"),x});}}
			else prod( stmt, rhs);
		}
		int top = nt( "l");
		prod( top, {top,stmt}, 0);
		if (r.chance( 50)) prod( top, {stmt}, 0); else prod( top, {}, 0);
		g.prods[0].rhs = {top};
		call( g.prods[0], 60);
		return g;
	}
	// a simple grammar with exactly so many terminals, nonterminals and productions, and so many elements of the longest one
	Gram flat( int nT, int nN, int nP, int len, bool dense=false)
	{
		int start = nt( "start"), l = nt( "l"), s = nt( "s");
		prod( start, {l}, 50); prod( l, {l,s}, 10); prod( l, {}, 10);
		std::vector<int> xs;
		int kwn = 0;
		for (int i=3; i<nN; ++i) {int x = nt( "x"); prod( x, {g.kw( strf( "kw%d", ++kwn))}, 40); xs.push_back( x);}
		size_t xi = 0;
		bool first = true;
		while ((int)g.prods.size() < nP)
		{
			std::vector<int> rhs{g.kw( strf( "kw%d", ++kwn))};
			int left = nP - (int)g.prods.size();		// productions left, this one included
			int needT = std::max( 0, nT - (int)g.terms.size()) - (left-1);
			int needX = (int)(xs.size() - xi);
			int n = first || dense ? len-1 : left == 1 ? 14 : std::min( 14, std::max( {r.below( 2),(needT + left-1) / left,(needX + left-1) / left}));
			first = false;
			for (int k=0; k<n; ++k)
			{
				if (xi < xs.size() && (k & 1 || (int)g.terms.size() + left-1 >= nT)) rhs.push_back( xs[xi++]);
				else if ((int)g.terms.size() + left-1 < nT) rhs.push_back( g.kw( strf( "kw%d", ++kwn)));
				else if (n == len-1 || left > 1) rhs.push_back( g.kw( strf( "kw%d", r.range( 1, kwn))));
			}
			prod( s, rhs, 40);
		}
		return g;
	}
	bool distinct()
	{
		// is the first element of the last production of the statement unique
		auto& l = g.prods.back();
		for (size_t i=0; i+1<g.prods.size(); ++i) if (g.prods[i].lhs == l.lhs && !g.prods[i].rhs.empty() && g.prods[i].rhs[0] == l.rhs[0]) return false;
		return true;
	}
	void lexExtras()
	{
		// definitions without productions, comments, ignored text
		if (r.chance( 50)) {static const std::vector<const char*> ig = {"TIL","UND","MLN","LAZY","ANY1"}; g.defs.insert( g.defs.begin() + r.below( g.defs.size()+1), {-1,kindIdx( r.pick( ig))});}
		std::vector<std::pair<std::string,std::string> > cs = {{"//",""},{"--",""},{";",""},{"#",""},{"/*","*/"},{"(*","*)"},{"<!--","-->"},{"{-","-}"},{"%%%","%%%"}};
		int n = r.below( 3);
		std::set<char> firsts;
		for (int i=0; i<n; ++i)
		{
			auto c = r.pick( cs);
			if (!firsts.insert( c.first[0]).second) continue;
			bool hides = false;
			for (auto& t : g.terms) if (t.type == 1 && t.name.compare( 0, c.first.size(), c.first) == 0) hides = true;
			if (!hides || r.chance( 5)) g.comments.push_back( c);
		}
		if (r.chance( 10)) g.bad = "ERROR";
	}
	// no plain token shall get to the top level
	void coverTop()
	{
		for (bool ch=true; ch;)
		{
			ch = false;
			std::set<int> tr{g.prods[0].lhs};
			std::vector<int> w( tr.begin(), tr.end());
			while (!w.empty())
			{
				int n = w.back(); w.pop_back();
				for (auto& p : g.prods) if (p.lhs == n && p.fn.empty()) for (int s : p.rhs) if (s >= NT && tr.insert( s).second) w.push_back( s);
			}
			for (auto& p : g.prods) if (tr.count( p.lhs) && p.fn.empty())
				for (int s : p.rhs) if (s < NT && g.terms[s].type != 1) {p.fn = strf( "f%d", nfn++); ch = true; break;}
		}
	}
};

inline void wideOpt( Rng& r, GenOpt& o, bool thorough)
{
	o.tokenList = o.indent = o.random = o.general = false;
	bool lim = r.chance( thorough ? 40 : 15);
	o.wideTerms = lim && r.chance( 50) ? r.range( 900, 1015) : r.range( 60, thorough ? 500 : 250);
	o.wideProds = lim && r.chance( 50) ? r.range( 400, 505) : r.range( 20, thorough ? 200 : 120);
	o.wideLen = r.chance( 60) ? 15 : r.range( 3, 15);
}

// drop unused nonterminals and terminals
inline Gram compact( const Gram& g)
{
	std::set<int> reach{g.prods[0].lhs};
	std::vector<int> w( reach.begin(), reach.end());
	while (!w.empty()) {int n = w.back(); w.pop_back(); for (auto& p : g.prods) if (p.lhs == n) for (int s : p.rhs) if (reach.insert( s).second && s >= NT) w.push_back( s);}
	Gram rt;
	rt.tab = g.tab; rt.comments = g.comments; rt.bad = g.bad;
	if (g.tab >= 0) for (auto& t : g.terms) if (t.type >= 2) rt.term( t.name, t.type);
	for (auto& d : g.defs)
	{
		if (d.term < 0) rt.defs.push_back( d);
		else rt.tok( kinds()[d.kind].name, g.terms[d.term].name);
	}
	for (auto& p : g.prods) if (reach.count( p.lhs))
	{
		Prod q = p;
		q.lhs = rt.nt( g.nts[p.lhs-NT]);
		for (auto& s : q.rhs) s = s >= NT ? rt.nt( g.nts[s-NT]) : rt.term( g.terms[s].name, g.terms[s].type);
		rt.prods.push_back( q);
	}
	return rt;
}

inline Gram genGram( Rng& r, const GenOpt& o)
{
	for (int tries=0; ; ++tries)
	{
		GramGen gg( r, o);
		if (tries > 200) {GenOpt t; t.tokenList = true; GramGen x( r, t); return compact( x.tokenlist());}
		Gram g = o.wideTerms && tries < 20 ? gg.wide( o.wideTerms, o.wideProds, o.wideLen) : o.general && r.chance( 35) ? gg.lookahead() : o.tokenList ? gg.tokenlist() : o.random ? gg.randomCfg() : o.indent ? gg.indented() : gg.composite();
		gg.g = g;
		gg.lexExtras();
		if (o.calls && !r.chance( 6)) gg.coverTop();
		g = compact( gg.g);
		if (!g.wellFormed()) continue;
		Analysis a( g);
		if (!a.productive()) continue;
		Tables t = Tables::build( g, a, false);
		if (t.conflicts && !t.tooBig && o.general)
		{
			bool prio = false;
			for (auto& p : g.prods) if (p.assoc) prio = true;
			if (!prio) t = Tables::build( g, a, true, 800);
		}
		if (t.conflicts || t.tooBig) continue;
		return g;
	}
}

// ---------------------------------------------------------------- sources
struct SrcOpt {int budget = 40, depth = 12; int badPct = 0; bool plain = false;};
struct SrcGen
{
	const Gram& g; Rng& r; Deriv d;
	std::vector<std::vector<std::string> > samples;
	SrcGen( const Gram& g_, Rng& r_) :g(g_),r(r_),d(g_) {}
	std::string lexeme( int t)
	{
		if (g.terms[t].type == 1) return g.terms[t].name;
		std::vector<int> ks;
		for (auto& x : g.defs) if (x.term == t) ks.push_back( x.kind);
		if (ks.empty()) return "";
		for (int i=0; i<4; ++i)
		{
			std::string s = kinds()[ r.pick( ks)].sample( r);
			bool com = false;
			for (auto& c : g.comments) if (s.compare( 0, c.first.size(), c.first) == 0) com = true;
			if (!com || i == 3) return s;
		}
		return "";
	}
	std::string blank( bool nl)
	{
		// white space, comments, ignored text; at least one separating character
		std::string s;
		int n = r.chance( 75) ? 1 : r.range( 1, 4);
		for (int i=0; i<n; ++i)
		{
			int k = r.below( 20);
			if (k < 12) s += " ";
			else if (k < 14) s += nl ? "\n" : " ";
			else if (k == 14) s += nl ? r.pick( std::vector<const char*>{"\t","\r\n","\f\v","\n\n\n"," \x01 "}) : "\t";
			else if (k < 18 && !g.comments.empty())
			{
				auto& c = r.pick( g.comments);
				std::string body = rep( r, 0, r.chance( 4) ? 200 : 6, "ab '\"/*-{(;\xc3\xa9");
				if (c.second.empty()) {if (!nl) {s += " "; continue;} s += " " + c.first + body + "\n";}
				else
				{
					if (nl) body += rep( r, 0, 2, "\n x");
					if (body.find( c.second) != std::string::npos || (body + c.second).find( c.second) != body.size()) body = "";
					s += " " + c.first + body + c.second;
				}
			}
			else
			{
				std::vector<int> ig;
				for (auto& x : g.defs) if (x.term < 0) ig.push_back( x.kind);
				if (ig.empty()) s += " ";
				else {std::string t = kinds()[ r.pick( ig)].sample( r); if (!nl && t.find('\n') != std::string::npos) t = " "; s += " " + t + " ";}
			}
		}
		return s;
	}
	// pieces of the source, one per token
	std::vector<std::string> render( const std::vector<int>& toks, const SrcOpt& o)
	{
		std::vector<std::string> rt;
		bool ind = g.tab >= 0;
		std::vector<int> st{0};
		bool first = true, linestart = true;
		for (size_t i=0; i<toks.size(); ++i)
		{
			int t = toks[i];
			int ty = g.terms[t].type;
			std::string s;
			if (ty == 2) {st.push_back( st.back() + r.range( 1, 2*g.tab)); linestart = true; if (i+1 < toks.size() && g.terms[toks[i+1]].type == 4) continue; t = -1;}
			else if (ty == 3) {if (st.size() > 1) st.pop_back(); linestart = true; continue;}
			else if (ty == 4)
			{
				if (!first) s += r.chance( 10) ? " \t\r\n" : "\n";
				if (r.chance( 15)) s += r.pick( std::vector<const char*>{"\n","   \n","\t\t\n"});
				for (auto& c : g.comments) if (c.second.empty() && r.chance( 15)) s += rep( r, 0, 9, " \t") + c.first + " x y\n";
				int n = st.back();
				while (n > 0) {if (n >= g.tab && r.chance( 60)) {s += "\t"; n -= g.tab;} else {s += " "; --n;}}
				first = false; linestart = true;
				rt.push_back( s);
				continue;
			}
			if (t < 0) continue;
			std::string lx = lexeme( t);
			if (ind) {if (!linestart) s += blank( false);}
			else if (i > 0) {if (r.chance( 88) || o.plain) s += o.plain ? (r.chance( 10) ? "\n" : " ") : blank( true);}
			else if (r.chance( 20) && !o.plain) s += blank( true);
			linestart = false; first = false;
			rt.push_back( s + lx);
		}
		if (!ind && r.chance( 40)) rt.push_back( o.plain ? "\n" : blank( true));
		else if (ind && r.chance( 70)) rt.push_back( "\n");
		return rt;
	}
	std::vector<std::string> source( const SrcOpt& o)
	{
		std::vector<std::string> p = render( d.sentence( r, o.depth, o.budget), o);
		if (g.tab >= 0 && r.chance( 30))
		{
			// lines indented irregularly
			for (auto& x : p)
			{
				size_t e = x.rfind( '\n');
				if (e == std::string::npos || !r.chance( 50)) continue;
				size_t k = e+1;
				while (k < x.size() && (x[k] == ' ' || x[k] == '\t')) ++k;
				x = x.substr( 0, e+1) + rep( r, 0, r.chance( 20) ? 12 : 4, " \t ") + x.substr( k);
			}
		}
		if (r.chance( o.badPct))
		{
			int n = r.chance( 70) ? 1 : r.range( 2, 4);
			for (int i=0; i<n; ++i) mutate( p);
		}
		return p;
	}
	void mutate( std::vector<std::string>& p)
	{
		size_t at = p.empty() ? 0 : r.below( p.size()+1);
		auto tokstr = [&]() -> std::string {if (g.terms.empty()) return " x"; int t = r.below( g.terms.size()); return g.terms[t].type >= 2 ? std::string( "\n  ") : " " + lexeme( t);};
		switch (r.below( 12))
		{
			case 0: case 1: if (at < p.size()) p.erase( p.begin()+at); break;
			case 2: case 3: p.insert( p.begin()+at, tokstr()); break;
			case 4: case 5: if (at < p.size()) p[at] = tokstr(); break;
			case 6: if (at+1 < p.size()) std::swap( p[at], p[at+1]); break;
			case 7: p.resize( at); break;
			case 8: {static const std::vector<std::string> bad = {"\x7f","`","\xe2\x82\xac","\xff","\xc3","?","\"","'","@","0x","."}; p.insert( p.begin()+at, " " + r.pick( bad)); break;}
			case 9: if (!g.comments.empty()) p.insert( p.begin()+at, " " + r.pick( g.comments).first); else if (at < p.size()) p[at] += tokstr(); break;
			case 10: if (r.chance( 50)) p.insert( p.begin()+at, std::string( 1, '\0')); else if (!p.empty()) p.back() += std::string( 1, '\0') + tokstr(); break;
			case 11: {std::vector<std::string> q( p.begin() + std::min( at, p.size()), p.end()); p.insert( p.end(), q.begin(), q.end()); break;}
		}
	}
};
}

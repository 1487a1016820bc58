// Grammars, their languages and syntax trees: a small reference implementation independent of the code under test.
#pragma once
#include "world.hpp"
#include <algorithm>
#include <cstring>
#include <cstdio>
#include <unistd.h>
namespace gr {
using sim::Rng; using sim::Line; using sim::strf; using sim::hex; using sim::unhex;

// ---------------------------------------------------------------- kinds of named tokens, each with a hand written matcher
struct Kind
{
	const char* name;
	const char* regex;
	int select;
	int (*match)( const char* s, int n, int& vo, int& vl);		// length of the match, 0 if none; value range
	std::string (*sample)( Rng& r);
};
inline bool dig( char c) {return c >= '0' && c <= '9';}
inline bool low( char c) {return c >= 'a' && c <= 'z';}
inline bool upp( char c) {return c >= 'A' && c <= 'Z';}
inline bool alp( char c) {return low(c) || upp(c);}
inline bool xdg( char c) {return dig(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');}
inline bool wrd( char c) {return alp(c) || dig(c) || c == '_';}
inline int whole( int l, int& vo, int& vl) {vo = 0; vl = l; return l;}
inline std::string rep( Rng& r, int lo, int hi, const char* set) {std::string t; int n = r.range(lo,hi); size_t k = strlen(set); for (int i=0; i<n; ++i) t += set[ r.below(k)]; return t;}

inline const std::vector<Kind>& kinds()
{
	static const std::vector<Kind> K = {
	{"ID", "[a-zA-Z_]+[a-zA-Z_0-9]*", 0,
		[]( const char* s, int n, int& vo, int& vl) {int i=0; if (!n || !(alp(s[0])||s[0]=='_')) return 0; while (i<n && wrd(s[i])) ++i; return whole(i,vo,vl);},
		[]( Rng& r) {return rep(r,1,1,"abcdefxyzIiuwl_") + rep(r,0,r.chance(5)?60:4,"abcnfhile_012");}},
	{"UINT", "[0-9]+", 0,
		[]( const char* s, int n, int& vo, int& vl) {int i=0; while (i<n && dig(s[i])) ++i; return whole(i,vo,vl);},
		[]( Rng& r) {return rep(r,1,r.chance(5)?40:3,"0123456789");}},
	{"FLT", "[0-9]*[.][0-9]+", 0,
		[]( const char* s, int n, int& vo, int& vl) {int i=0; while (i<n && dig(s[i])) ++i; if (i>=n || s[i] != '.') return 0; int k=++i; while (i<n && dig(s[i])) ++i; return i==k ? 0 : whole(i,vo,vl);},
		[]( Rng& r) {return rep(r,0,2,"0123456789") + "." + rep(r,1,2,"0123456789");}},
	{"FLE", "[0-9]*[.][0-9]+[Ee][+-]{0,1}[0-9]+", 0,
		[]( const char* s, int n, int& vo, int& vl) {int i=0; while (i<n && dig(s[i])) ++i; if (i>=n || s[i] != '.') return 0; int k=++i; while (i<n && dig(s[i])) ++i; if (i==k) return 0;
			if (i>=n || (s[i]!='e' && s[i]!='E')) return 0; ++i; if (i<n && (s[i]=='+'||s[i]=='-')) ++i; k=i; while (i<n && dig(s[i])) ++i; return i==k ? 0 : whole(i,vo,vl);},
		[]( Rng& r) {return rep(r,0,1,"12") + "." + rep(r,1,2,"0123456789") + rep(r,1,1,"eE") + rep(r,0,1,"+-") + rep(r,1,2,"0123456789");}},
	{"HEX", "0x[0-9a-fA-F]+", 0,
		[]( const char* s, int n, int& vo, int& vl) {if (n < 3 || s[0]!='0' || s[1]!='x') return 0; int i=2; while (i<n && xdg(s[i])) ++i; return i==2 ? 0 : whole(i,vo,vl);},
		[]( Rng& r) {return "0x" + rep(r,1,3,"0123456789abcdefABCDEF");}},
	{"DQ", "[\"]([^\"\\n]*)[\"]", 1,
		[]( const char* s, int n, int& vo, int& vl) {if (!n || s[0] != '"') return 0; int i=1; while (i<n && s[i]!='"' && s[i]!='\n') ++i; if (i>=n || s[i] != '"') return 0; vo = 1; vl = i-1; return i+1;},
		[]( Rng& r) {return "\"" + rep(r,0,r.chance(5)?300:5,"ab '/*#\t{}\\\xc3\xa4%;") + "\"";}},
	{"DE", "[\"]((([^\\\\\"\\n])|([\\\\][^\\n]))*)[\"]", 1,
		[]( const char* s, int n, int& vo, int& vl) {if (!n || s[0] != '"') return 0; int i=1;
			for (;;) {if (i>=n || s[i]=='\n') return 0; if (s[i]=='"') break; if (s[i]=='\\') {if (i+1>=n || s[i+1]=='\n') return 0; i+=2;} else ++i;}
			vo = 1; vl = i-1; return i+1;},
		[]( Rng& r) {std::string t = "\""; int n = r.below(6); for (int i=0; i<n; ++i) t += r.chance(30) ? "\\" + rep(r,1,1,"\"\\nx") : rep(r,1,1,"ab 1'/"); return t + "\"";}},
	{"SQ", "[']([^'\\n]*)[']", 1,
		[]( const char* s, int n, int& vo, int& vl) {if (!n || s[0] != '\'') return 0; int i=1; while (i<n && s[i]!='\'' && s[i]!='\n') ++i; if (i>=n || s[i] != '\'') return 0; vo = 1; vl = i-1; return i+1;},
		[]( Rng& r) {return "'" + rep(r,0,5,"ab \"/*x-") + "'";}},
	{"OPS", "[+*/<>=-]+", 0,
		[]( const char* s, int n, int& vo, int& vl) {int i=0; while (i<n && s[i] && strchr("+*/<>=-",s[i])) ++i; return whole(i,vo,vl);},
		[]( Rng& r) {return rep(r,1,3,"+*<>=-");}},
	{"VAR", "\\$([a-z]+)", 1,
		[]( const char* s, int n, int& vo, int& vl) {if (!n || s[0] != '$') return 0; int i=1; while (i<n && low(s[i])) ++i; if (i==1) return 0; vo=1; vl=i-1; return i;},
		[]( Rng& r) {return "$" + rep(r,1,3,"abc");}},
	{"LIT", "true|false|nil", 0,
		[]( const char* s, int n, int& vo, int& vl) {for (const char* w : {"true","false","nil"}) {int l = strlen(w); if (n >= l && !memcmp(s,w,l)) return whole(l,vo,vl);} return 0;},
		[]( Rng& r) {return std::string( r.pick( std::vector<const char*>{"true","false","nil"}));}},
	{"NEG", "-?[0-9]+", 0,
		[]( const char* s, int n, int& vo, int& vl) {int i=0; if (n && s[0]=='-') ++i; int k=i; while (i<n && dig(s[i])) ++i; return i==k ? 0 : whole(i,vo,vl);},
		[]( Rng& r) {return rep(r,0,1,"-") + rep(r,1,3,"0123456789");}},
	{"ANY1", "@.", 0,
		[]( const char* s, int n, int& vo, int& vl) {if (n < 2 || s[0] != '@' || s[1] == '\n' || s[1] == '\r') return 0; return whole(2,vo,vl);},
		[]( Rng& r) {return "@" + rep(r,1,1,"a1 @+\"/");}},
	{"MLN", "#[^#]+#", 0,
		[]( const char* s, int n, int& vo, int& vl) {if (!n || s[0] != '#') return 0; int i=1; while (i<n && s[i] != '#') ++i; if (i>=n || i==1) return 0; return whole(i+1,vo,vl);},
		[]( Rng& r) {return "#" + rep(r,1,6,"ab\n \t\"") + "#";}},
	{"UP24", "[A-Z]{2,4}", 0,
		[]( const char* s, int n, int& vo, int& vl) {int i=0; while (i<n && i<4 && upp(s[i])) ++i; return i<2 ? 0 : whole(i,vo,vl);},
		[]( Rng& r) {return rep(r,2,4,"ABXYZ");}},
	{"DW", "\\d\\w*", 0,
		[]( const char* s, int n, int& vo, int& vl) {int i=0; if (!n || !dig(s[0])) return 0; while (i<n && wrd(s[i])) ++i; return whole(i,vo,vl);},
		[]( Rng& r) {return rep(r,1,1,"0123456789") + rep(r,0,3,"ab01_xX");}},
	{"ILL", "[0-9]+[A-Za-z_]", 0,
		[]( const char* s, int n, int& vo, int& vl) {int i=0; while (i<n && dig(s[i])) ++i; if (!i || i>=n || !(alp(s[i])||s[i]=='_')) return 0; return whole(i+1,vo,vl);},
		[]( Rng& r) {return rep(r,1,2,"0123456789") + rep(r,1,1,"ax_");}},
	{"OPT", "(ab)?c", 0,
		[]( const char* s, int n, int& vo, int& vl) {if (n>=3 && !memcmp(s,"abc",3)) return whole(3,vo,vl); if (n && s[0]=='c') return whole(1,vo,vl); return 0;},
		[]( Rng& r) {return std::string( r.chance(50) ? "abc" : "c");}},
	{"DATE", "[0-9]{4}-[0-9]{2}", 0,
		[]( const char* s, int n, int& vo, int& vl) {if (n < 7 || s[4] != '-') return 0; for (int i : {0,1,2,3,5,6}) if (!dig(s[i])) return 0; return whole(7,vo,vl);},
		[]( Rng& r) {return rep(r,4,4,"0123456789") + "-" + rep(r,2,2,"0123456789");}},
	{"LAZY", "%[^%]*?%", 0,
		[]( const char* s, int n, int& vo, int& vl) {if (!n || s[0] != '%') return 0; int i=1; while (i<n && s[i] != '%') ++i; if (i>=n) return 0; return whole(i+1,vo,vl);},
		[]( Rng& r) {return "%" + rep(r,0,4,"ab 1(") + "%";}},
	{"TIL", "~[a-z]*", 0,
		[]( const char* s, int n, int& vo, int& vl) {if (!n || s[0] != '~') return 0; int i=1; while (i<n && low(s[i])) ++i; return whole(i,vo,vl);},
		[]( Rng& r) {return "~" + rep(r,0,3,"abc");}},
	{"UND", "_+", 0,
		[]( const char* s, int n, int& vo, int& vl) {int i=0; while (i<n && s[i]=='_') ++i; return whole(i,vo,vl);},
		[]( Rng& r) {return rep(r,1,3,"_");}},
	{"GRP", "((?:x|y)+)z", 1,
		[]( const char* s, int n, int& vo, int& vl) {int i=0; while (i<n && (s[i]=='x'||s[i]=='y')) ++i; if (!i || i>=n || s[i] != 'z') return 0; vo = 0; vl = i; return i+1;},
		[]( Rng& r) {return rep(r,1,3,"xy") + "z";}},
	{"SEL", "[|]([a-c]+)?[|]", 1,
		[]( const char* s, int n, int& vo, int& vl) {if (!n || s[0] != '|') return 0; int i=1; while (i<n && s[i]>='a' && s[i]<='c') ++i; if (i>=n || s[i] != '|') return 0; vo = 1; vl = i-1; return i+1;},
		[]( Rng& r) {return "|" + rep(r,0,2,"abc") + "|";}},
	{"KV", "([A-Z]):([0-9]*)(;?)", 2,
		[]( const char* s, int n, int& vo, int& vl) {if (n < 2 || !upp(s[0]) || s[1] != ':') return 0; int i=2; while (i<n && dig(s[i])) ++i; vo = 2; vl = i-2; if (i<n && s[i] == ';') ++i; return i;},
		[]( Rng& r) {return rep(r,1,1,"ABC") + ":" + rep(r,0,3,"0123") + rep(r,0,1,";");}},
	{"ALT", "<([a-z]+)>|<([0-9]+)>", 1,
		[]( const char* s, int n, int& vo, int& vl) {if (n < 3 || s[0] != '<') return 0; int i=1; bool d = dig(s[1]); while (i<n && (d ? dig(s[i]) : low(s[i]))) ++i; if (i==1 || i>=n || s[i] != '>') return 0; vo = 1; vl = d ? 0 : i-1; return i+1;},
		[]( Rng& r) {return "<" + (r.chance(50) ? rep(r,1,3,"abc") : rep(r,1,3,"123")) + ">";}},
	};
	return K;
}
inline int kindIdx( const std::string& n) {auto& k = kinds(); for (size_t i=0; i<k.size(); ++i) if (n == k[i].name) return i; return -1;}

// ---------------------------------------------------------------- grammar
enum {NT=10000, END=9999};
struct Term {std::string name; int type;};			// type 0 named, 1 keyword, 2 indent open, 3 indent close, 4 new line
struct LexDef {int term; int kind;};				// term -1: ignored
struct Prod {int lhs; std::vector<int> rhs; char assoc = 0; int prio = 0; std::string fn; int argKind = 0; std::string arg; int mark = 0;};
// argKind 0 none, 1 identifier, 2 string, 3 number, 4 table

struct Gram
{
	std::vector<Term> terms;
	std::vector<LexDef> defs;
	std::vector<std::pair<std::string,std::string> > comments;	// close empty: to end of line
	int tab = -1;
	std::vector<std::string> nts;
	std::vector<Prod> prods;					// the first one is the one of the start symbol
	std::string bad;

	int term( const std::string& n, int type)
	{
		for (size_t i=0; i<terms.size(); ++i) if (terms[i].name == n && (terms[i].type == 1) == (type == 1)) return i;
		terms.push_back( {n,type}); return terms.size()-1;
	}
	int nt( const std::string& n)
	{
		for (size_t i=0; i<nts.size(); ++i) if (nts[i] == n) return NT+i;
		nts.push_back( n); return NT+nts.size()-1;
	}
	int kw( const std::string& n) {return term( n, 1);}
	int tok( const std::string& kind, const std::string& name)
	{
		int t = term( name, 0), k = kindIdx( kind);
		for (auto& d : defs) if (d.term == t && d.kind == k) return t;
		defs.push_back( {t,k}); return t;
	}
	std::string symName( int s) const {return s == END ? "$" : s >= NT ? nts[s-NT] : terms[s].name;}
	std::string callName( const Prod& p) const {return p.fn + (p.argKind ? " " + p.arg : "");}

	std::vector<std::string> lines() const
	{
		std::vector<std::string> rt;
		if (!bad.empty()) rt.push_back( "gbad " + hex( bad));
		for (auto& c : comments) rt.push_back( "gcom " + hex( c.first) + (c.second.empty() ? "" : " " + hex( c.second)));
		if (tab >= 0)
		{
			std::string n[3];
			for (auto& t : terms) if (t.type >= 2) n[t.type-2] = t.name;
			rt.push_back( strf( "gind %d %s %s %s", tab, n[0].c_str(), n[1].c_str(), n[2].c_str()));
		}
		for (auto& d : defs) rt.push_back( d.term < 0 ? strf( "gign %s", kinds()[d.kind].name) : strf( "gtok %s %s", terms[d.term].name.c_str(), kinds()[d.kind].name));
		for (auto& p : prods)
		{
			std::string l = "gprod " + nts[p.lhs-NT];
			if (p.assoc) l += strf( " prec=%c%d", p.assoc, p.prio);
			if (!p.fn.empty()) l += " fn=" + p.fn;
			if (p.argKind) l += strf( " argkind=%d arg=%s", p.argKind, hex( p.arg).c_str());
			if (p.mark) l += strf( " mark=%d", p.mark);
			l += " :";
			for (int s : p.rhs) l += s >= NT ? " n" + nts[s-NT] : terms[s].type == 1 ? " k" + hex( terms[s].name) : " t" + terms[s].name;
			rt.push_back( l);
		}
		return rt;
	}
	// returns false, if the line is not one of a grammar
	bool addLine( const Line& l)
	{
		const std::string& k = l.at(0);
		if (k == "gbad") bad = unhex( l.at(1));
		else if (k == "gcom") comments.push_back( {unhex( l.at(1)), l.w.size() > 2 ? unhex( l.at(2)) : std::string()});
		else if (k == "gind") {tab = l.num(1); for (int i=0; i<3; ++i) term( l.at(2+i), 2+i);}
		else if (k == "gign") defs.push_back( {-1,kindIdx( l.at(1))});
		else if (k == "gtok") tok( l.at(2), l.at(1));
		else if (k == "gprod")
		{
			Prod p;
			p.lhs = nt( l.at(1));
			std::string pr = l.get("prec");
			if (!pr.empty()) {p.assoc = pr[0]; p.prio = atoi( pr.c_str()+1);}
			p.fn = l.get("fn"); p.argKind = l.geti("argkind",0); p.arg = unhex( l.get("arg","h")); p.mark = l.geti("mark",0);
			for (size_t i=3; i<l.w.size(); ++i)
			{
				std::string s = l.w[i].substr(1);
				p.rhs.push_back( l.w[i][0] == 'n' ? nt( s) : l.w[i][0] == 'k' ? kw( unhex( s)) : term( s, 0));
			}
			prods.push_back( p);
		}
		else return false;
		return true;
	}
	// all symbols defined, used, and the first production the only one of the start symbol
	bool wellFormed( bool limits=true) const
	{
		if (prods.empty()) return false;
		std::set<int> def, used, tdef;
		for (auto& p : prods) {def.insert( p.lhs); for (int s : p.rhs) used.insert( s);}
		for (auto& d : defs) if (d.term >= 0) tdef.insert( d.term);
		for (size_t i=0; i<nts.size(); ++i) {if (!def.count( NT+i)) return false; if ((int)(NT+i) != prods[0].lhs && !used.count( NT+i)) return false;}
		if (used.count( prods[0].lhs)) return false;
		for (size_t i=1; i<prods.size(); ++i) if (prods[i].lhs == prods[0].lhs) return false;
		for (size_t i=0; i<terms.size(); ++i) if (terms[i].type == 0 && !tdef.count( i)) return false;
		for (auto& t : terms) {for (auto& n : nts) if (n == t.name) return false;}
		for (size_t i=0; i<terms.size(); ++i) for (size_t k=i+1; k<terms.size(); ++k) if (terms[i].name == terms[k].name) return false;
		for (auto& p : prods) if (p.rhs.size() > (limits ? 15 : 30)) return false;
		for (auto& t : terms) if (t.type >= 2 && tab < 0) return false;
		return (!limits || (nts.size() < 256 && prods.size() < 512 && terms.size() < 1024)) && prods[0].assoc == 0;
	}
	// text of the grammar in the language of mewa; style selects a way of writing
	std::string text( unsigned style, const std::vector<std::string>& cmds = std::vector<std::string>()) const
	{
		Rng r( style*77+5);
		std::string rt;
		auto str = [&]( const std::string& s) {
			bool dq = s.find('"') != std::string::npos, sq = s.find('\'') != std::string::npos;
			char q = dq ? '\'' : sq ? '"' : r.chance( 50) ? '"' : '\'';
			return std::string(1,q) + s + q;
		};
		auto sp = [&]() -> std::string {return style == 0 ? " " : r.chance(85) ? " " : r.chance(50) ? "\n\t" : r.chance(50) ? " # a comment = \"x\n" : "  ";};
		for (auto& c : cmds) rt += c + "\n";
		if (!bad.empty()) rt += "% BAD " + str( bad) + ";\n";
		for (auto& c : comments) rt += "%" + sp() + "COMMENT " + str( c.first) + (c.second.empty() ? "" : sp() + str( c.second)) + sp() + ";\n";
		if (tab >= 0)
		{
			std::string n[3];
			for (auto& t : terms) if (t.type >= 2) n[t.type-2] = t.name;
			rt += strf( "%% INDENTL %s %s %s %d;\n", n[0].c_str(), n[1].c_str(), n[2].c_str(), tab);
		}
		bool late = style && r.chance( 30);	// tokens after the productions
		std::string tk;
		for (auto& d : defs)
		{
			const Kind& k = kinds()[d.kind];
			if (d.term < 0) tk += "% IGNORE " + str( k.regex) + ";\n";
			else tk += terms[d.term].name + sp() + ":" + sp() + str( k.regex) + (k.select ? strf( " %d", k.select) : std::string()) + sp() + ";\n";
		}
		if (!late) rt += tk;
		auto item = [&]( int s) {return s >= NT ? nts[s-NT] : terms[s].type == 1 ? str( terms[s].name) : terms[s].name;};
		const char* arrow = style % 3 == 1 ? "\xe2\x86\x92" : "=";
		const char* eps = style % 2 ? "\xce\xb5" : "";
		bool group = style % 4 >= 2;
		for (size_t i=0; i<prods.size();)
		{
			const Prod& p = prods[i];
			rt += nts[p.lhs-NT];
			if (p.assoc) rt += p.prio == 0 && style % 2 ? strf( "/%c", p.assoc) : style % 7 == 3 ? strf( "/%d%c", p.prio, p.assoc) : strf( "/%c%d", p.assoc, p.prio);
			rt += sp() + arrow + sp();
			size_t k = i;
			do
			{
				const Prod& q = prods[k];
				if (k > i) rt += "\n\t|" + sp();
				if (q.rhs.empty()) rt += eps;
				for (int s : q.rhs) rt += item( s) + sp();
				if (q.mark || !q.fn.empty())
				{
					rt += "(" + std::string( q.mark == 1 ? ">>" : q.mark == 2 ? "{}" : "") + q.fn;
					if (q.argKind == 2) rt += " " + str( q.arg);
					else if (q.argKind) rt += " " + q.arg;
					rt += ")";
				}
				++k;
			}
			while (group && i > 0 && k < prods.size() && prods[k].lhs == p.lhs && prods[k].assoc == p.assoc && prods[k].prio == p.prio);
			i = k;
			rt += sp() + ";\n";
		}
		if (late) rt += tk;
		return rt;
	}
};

// ---------------------------------------------------------------- lexer
struct Tok {int term; std::string value; int line; int pos, len; std::string err;};	// term END at the end; -1 bad
inline std::vector<Tok> lex( const Gram& g, const std::string& s)
{
	std::vector<Tok> rt;
	int p = 0, line = 1, n = s.size();
	std::vector<int> ind;
	auto advance = [&]( int to) {for (; p<to; ++p) if (s[p] == '\n') ++line;};
	int tOpen=-1, tClose=-1, tNl=-1;
	for (size_t i=0; i<g.terms.size(); ++i) {if (g.terms[i].type == 2) tOpen = i; if (g.terms[i].type == 3) tClose = i; if (g.terms[i].type == 4) tNl = i;}
	std::vector<LexDef> defs;
	for (auto& d : g.defs) if (d.term < 0) defs.push_back( d);
	for (auto& d : g.defs) if (d.term >= 0) defs.push_back( d);
	for (;;)
	{
		while (p<n && s[p] && (unsigned char)s[p] <= 32) advance( p+1);
		if (p >= n)
		{
			if (g.tab >= 0) while (!ind.empty()) {ind.pop_back(); rt.push_back( {tClose,"",line,p,0,""});}
			rt.push_back( {END,"",line,p,0,""});
			return rt;
		}
		if (!s[p]) {rt.push_back( {-1,std::string(1,'\0'),line,p,1,"nul"}); return rt;}
		bool com = false;
		for (auto& c : g.comments)
		{
			if (s.compare( p, c.first.size(), c.first) != 0) continue;
			if (c.second.empty()) {size_t e = s.find( '\n', p+c.first.size()); advance( e == std::string::npos ? n : (int)e+1);}
			else
			{
				size_t e = s.find( c.second, p+c.first.size());
				if (e == std::string::npos) {rt.push_back( {-1,c.first,line,p,(int)c.first.size(),"comment"}); return rt;}
				advance( e + c.second.size());
			}
			com = true;
			break;
		}
		if (com) continue;
		int best = 0, bt = -2, vo = 0, vl = 0;
		for (auto& d : defs)
		{
			int o = 0, l = 0;
			int m = kinds()[d.kind].match( s.data()+p, n-p, o, l);
			if (m > best) {best = m; bt = d.term; vo = o; vl = l;}
		}
		for (size_t i=0; i<g.terms.size(); ++i) if (g.terms[i].type == 1)
		{
			int l = g.terms[i].name.size();
			if (l >= best && s.compare( p, l, g.terms[i].name) == 0) {best = l; bt = i; vo = 0; vl = l;}
		}
		if (bt == -2)
		{
			int l = 1;
			unsigned char c = s[p];
			if (c >= 0xC0) while (p+l < n && ((unsigned char)s[p+l] & 0xC0) == 0x80 && l < 8) ++l;
			rt.push_back( {-1,s.substr(p,l),line,p,l,"char"});
			return rt;
		}
		if (bt == -1) {advance( p+best); continue;}
		if (g.tab >= 0)
		{
			int q = p, cnt = 0;
			while (q > 0 && s[q-1] != '\n' && (unsigned char)s[q-1] <= 32) {cnt += s[q-1] == '\t' ? g.tab : 1; --q;}
			if (q == 0 || s[q-1] == '\n')
				for (;;)
				{
					int top = ind.empty() ? 0 : ind.back();
					if (cnt == top) {rt.push_back( {tNl,"",line,p,0,""}); break;}
					if (cnt > top) {ind.push_back( cnt); rt.push_back( {tOpen,"",line,p,0,""});}
					else {ind.pop_back(); rt.push_back( {tClose,"",line,p,0,""});}
				}
		}
		rt.push_back( {bt,s.substr(p+vo,vl),line,p,best,""});
		advance( p+best);
	}
}

// ---------------------------------------------------------------- LR analysis
struct Analysis
{
	const Gram& g;
	std::vector<char> nullable;
	std::vector<std::set<int> > first, follow;		// by nonterminal
	std::vector<std::vector<int> > byLhs;			// production indices
	explicit Analysis( const Gram& g_) :g(g_)
	{
		int n = g.nts.size();
		nullable.assign( n, 0); first.resize( n); follow.resize( n); byLhs.resize( n);
		for (size_t i=0; i<g.prods.size(); ++i) byLhs[ g.prods[i].lhs-NT].push_back( i);
		for (bool ch=true; ch;)
		{
			ch = false;
			for (auto& p : g.prods)
			{
				int l = p.lhs-NT; bool nul = true;
				for (int s : p.rhs)
				{
					if (s < NT) {ch |= first[l].insert( s).second; nul = false; break;}
					for (int t : first[s-NT]) ch |= first[l].insert( t).second;
					if (!nullable[s-NT]) {nul = false; break;}
				}
				if (nul && !nullable[l]) {nullable[l] = 1; ch = true;}
			}
		}
		follow[ g.prods[0].lhs-NT].insert( END);
		for (bool ch=true; ch;)
		{
			ch = false;
			for (auto& p : g.prods) for (size_t i=0; i<p.rhs.size(); ++i) if (p.rhs[i] >= NT)
			{
				auto& f = follow[ p.rhs[i]-NT];
				bool nul = true;
				for (size_t k=i+1; k<p.rhs.size() && nul; ++k)
				{
					if (p.rhs[k] < NT) {ch |= f.insert( p.rhs[k]).second; nul = false;}
					else {for (int t : first[p.rhs[k]-NT]) ch |= f.insert( t).second; nul = nullable[p.rhs[k]-NT];}
				}
				if (nul) for (int t : std::vector<int>( follow[p.lhs-NT].begin(), follow[p.lhs-NT].end())) ch |= f.insert( t).second;
			}
		}
	}
	// all nonterminals derive some terminal string
	std::vector<int> minHeight() const
	{
		std::vector<int> h( g.nts.size(), 1<<20);
		for (bool ch=true; ch;)
		{
			ch = false;
			for (auto& p : g.prods)
			{
				int m = 0;
				for (int s : p.rhs) if (s >= NT) m = std::max( m, h[s-NT]);
				if (m < (1<<20) && m+1 < h[p.lhs-NT]) {h[p.lhs-NT] = m+1; ch = true;}
			}
		}
		return h;
	}
	bool productive() const {for (int h : minHeight()) if (h >= (1<<20)) return false; return true;}
};

// parser tables: SLR(1) with priorities or canonical LR(1)
struct Tables
{
	struct Act {int kind; int v;};			// 1 shift state, 2 reduce production, 3 accept
	std::vector<std::map<int,Act> > act;
	std::vector<std::map<int,int> > gto;
	int conflicts = 0, resolved = 0;
	bool tooBig = false;
	bool lalr = false;			// canonical tables: no conflict if the states with the same core are merged

	typedef std::vector<std::pair<int,int> > Items;	// (production*32+dot, lookahead)
	static Tables build( const Gram& g, const Analysis& a, bool canonical, int maxStates=4000)
	{
		Tables t;
		std::map<Items,int> ids;
		std::vector<Items> kernels;
		std::vector<int> todo;
		auto add = [&]( const Items& k) {auto i = ids.insert( {k,(int)kernels.size()}); if (i.second) {kernels.push_back( k); t.act.emplace_back(); t.gto.emplace_back();} return i.first->second;};
		add( Items{{0*32+0,END}});
		std::map<std::set<int>,std::map<int,std::set<int> > > merged;	// core -> lookahead -> productions reduced, -1 for a shift
		for (size_t si=0; si<kernels.size(); ++si)
		{
			if ((int)kernels.size() > maxStates) {t.tooBig = true; return t;}
			std::set<std::pair<int,int> > cl( kernels[si].begin(), kernels[si].end());
			std::vector<std::pair<int,int> > w( cl.begin(), cl.end());
			while (!w.empty())
			{
				auto it = w.back(); w.pop_back();
				const Prod& p = g.prods[ it.first/32];
				size_t d = it.first%32;
				if (d >= p.rhs.size() || p.rhs[d] < NT) continue;
				std::set<int> la;
				if (!canonical) la.insert( END);
				else
				{
					bool nul = true;
					for (size_t k=d+1; k<p.rhs.size() && nul; ++k)
					{
						if (p.rhs[k] < NT) {la.insert( p.rhs[k]); nul = false;}
						else {la.insert( a.first[p.rhs[k]-NT].begin(), a.first[p.rhs[k]-NT].end()); nul = a.nullable[p.rhs[k]-NT];}
					}
					if (nul) la.insert( it.second);
				}
				for (int q : a.byLhs[ p.rhs[d]-NT]) for (int l : la) {std::pair<int,int> ni( q*32, l); if (cl.insert( ni).second) w.push_back( ni);}
			}
			std::map<int,Items> next;
			std::map<int,std::set<int> > reds;		// lookahead -> productions
			std::map<int,std::set<int> > shiftp;		// terminal -> productions
			for (auto& it : cl)
			{
				int pi = it.first/32; const Prod& p = g.prods[pi]; size_t d = it.first%32;
				if (d >= p.rhs.size())
				{
					if (canonical) reds[it.second].insert( pi);
					else for (int l : a.follow[p.lhs-NT]) reds[l].insert( pi);
				}
				else
				{
					next[p.rhs[d]].push_back( {it.first+1,it.second});
					if (p.rhs[d] < NT) shiftp[p.rhs[d]].insert( pi);
				}
			}
			for (auto& nx : next)
			{
				int to = add( nx.second);
				if (nx.first >= NT) t.gto[si][nx.first] = to; else t.act[si][nx.first] = {1,to};
			}
			if (canonical)
			{
				std::set<int> core;
				for (auto& k : kernels[si]) core.insert( k.first);
				auto& m = merged[ core];
				for (auto& r : reds) m[r.first].insert( r.second.begin(), r.second.end());
				for (auto& x : shiftp) m[x.first].insert( -1);
			}
			for (auto& r : reds)
			{
				if (r.second.size() > 1) {++t.conflicts; continue;}
				int pi = *r.second.begin();
				const Prod& p = g.prods[pi];
				bool reduce = true;
				if (shiftp.count( r.first))
				{
					bool ok = p.assoc;
					int prio = -1; char assoc = 0;
					for (int q : shiftp[r.first])
					{
						if (!g.prods[q].assoc || (prio >= 0 && (g.prods[q].prio != prio || g.prods[q].assoc != assoc))) ok = false;
						prio = g.prods[q].prio; assoc = g.prods[q].assoc;
					}
					if (ok && prio == p.prio && assoc != p.assoc) ok = false;
					if (!ok) {++t.conflicts; continue;}
					++t.resolved;
					reduce = p.prio > prio || (p.prio == prio && p.assoc == 'L');
				}
				if (reduce) {if (pi == 0) t.act[si][r.first] = {3,0}; else t.act[si][r.first] = {2,pi};}
			}
		}
		t.lalr = true;
		for (auto& m : merged) for (auto& l : m.second) if (l.second.size() > 1) t.lalr = false;
		return t;
	}
};

struct Node
{
	int prod;		// -1 leaf
	int tok;		// index of token of a leaf
	std::vector<int> sub;
};
struct Tree
{
	std::vector<Node> nodes;
	std::vector<int> lineAt;	// line of the node
	int root = -1;
};
struct Parse
{
	bool ok = false;
	int errTok = -1;		// index of the first token that cannot continue
	Tree tree;
	std::set<int> expected;		// terminals possible in the state where the error was detected after all reductions possible
	long depth = 0;
};
inline Parse parse( const Gram& g, const Tables& t, const std::vector<Tok>& toks)
{
	Parse rt;
	std::vector<int> st{0};
	std::vector<int> nd;
	int lastLine = 0;
	size_t i = 0;
	for (;;)
	{
		int term = toks[i].term;
		auto a = term == -1 ? t.act[st.back()].end() : t.act[st.back()].find( term);
		if (a == t.act[st.back()].end())
		{
			rt.errTok = i;
			for (auto& x : t.act[st.back()]) rt.expected.insert( x.first);
			return rt;
		}
		if (a->second.kind == 1)
		{
			rt.tree.nodes.push_back( {-1,(int)i,{}});
			if (g.terms[term].type != 1) lastLine = toks[i].line;
			rt.tree.lineAt.push_back( toks[i].line);
			nd.push_back( rt.tree.nodes.size()-1);
			st.push_back( a->second.v);
			++i;
		}
		else
		{
			int pi = a->second.kind == 3 ? 0 : a->second.v;
			const Prod& p = g.prods[pi];
			Node n; n.prod = pi; n.tok = -1;
			n.sub.assign( nd.end()-p.rhs.size(), nd.end());
			nd.resize( nd.size()-p.rhs.size());
			st.resize( st.size()-p.rhs.size());
			rt.tree.nodes.push_back( n);
			rt.tree.lineAt.push_back( lastLine);
			nd.push_back( rt.tree.nodes.size()-1);
			if (a->second.kind == 3) {rt.tree.root = nd.back(); rt.ok = true; return rt;}
			auto gi = t.gto[st.back()].find( p.lhs);
			if (gi == t.gto[st.back()].end()) {fprintf( stderr, "reference parser: no goto\n"); _exit( 98);}
			st.push_back( gi->second);
		}
		rt.depth = std::max( rt.depth, (long)st.size());
	}
}

// ---------------------------------------------------------------- what the callbacks get to see
inline std::string leafText( const Gram& g, const Tok& t) {return strf( "<%s %s %d>", g.terms[t.term].name.c_str(), hex( t.value).c_str(), t.line);}
struct Top {bool leaf; std::string text; int prod; int line; std::string name; std::string value;};
// serialisation of the top-level nodes; the same format is produced from the Lua tables
struct TreeOut
{
	const Gram& g; const Tree& t; const std::vector<Tok>& toks;
	long counter = 0;
	std::vector<Top> top;
	TreeOut( const Gram& g_, const Tree& t_, const std::vector<Tok>& k) :g(g_),t(t_),toks(k) {}
	struct Frame {int node; size_t next; long start; std::vector<Top> items;};
	void run()
	{
		std::vector<Frame> st;
		st.push_back( {t.root,0,counter,{}});
		for (;;)
		{
			Frame& f = st.back();
			const Node& n = t.nodes[ f.node];
			if (n.prod < 0)
			{
				std::vector<Top> it;
				const Tok& k = toks[n.tok];
				if (g.terms[k.term].type != 1) it.push_back( {true,leafText( g, k),-1,k.line,g.terms[k.term].name,k.value});
				st.pop_back();
				for (auto& x : it) st.back().items.push_back( x);
				continue;
			}
			if (f.next < n.sub.size()) {int s = n.sub[f.next++]; st.push_back( {s,0,counter,{}}); continue;}
			const Prod& p = g.prods[n.prod];
			std::vector<Top> res;
			if (p.mark == 1 || p.mark == 2) ++counter;
			if (p.fn.empty()) res.swap( f.items);
			else
			{
				std::string tx = "(" + hex( g.callName( p)) + strf( "%d %d", p.argKind, t.lineAt[f.node]);
				if (p.mark == 2) tx += strf( " S%ld-%ld", f.start, counter); else tx += strf( " s%ld", counter);
				for (auto& x : f.items) {tx += " "; tx += x.text;}
				tx += ")";
				res.push_back( {false,tx,n.prod,t.lineAt[f.node],"",""});
			}
			st.pop_back();
			if (st.empty()) {top = res; return;}
			for (auto& x : res) st.back().items.push_back( std::move( x));
		}
	}
};

// ---------------------------------------------------------------- random derivations
struct Deriv
{
	const Gram& g; Analysis a; std::vector<int> h;
	std::vector<int> out;				// terminals
	std::vector<int> prodsUsed;			// productions in order of their end (the right parse in reverse of LR order is derived from the tree anyway)
	explicit Deriv( const Gram& g_) :g(g_),a(g_),h(a.minHeight()) {}
	void derive( Rng& r, int sym, int depth, int& budget)
	{
		if (sym < NT) {out.push_back( sym); --budget; return;}
		const std::vector<int>& alt = a.byLhs[sym-NT];
		std::vector<int> cand;
		for (int p : alt)
		{
			int m = 0;
			for (int s : g.prods[p].rhs) if (s >= NT) m = std::max( m, h[s-NT]);
			if (budget > 0 && depth > m) cand.push_back( p); else if (m+1 == h[sym-NT]) cand.push_back( p);
		}
		int p = cand[ r.below( cand.size())];
		// ... prefer longer productions as long as there is a budget
		if (budget > 0) for (int k=0; k<2; ++k) {int q = cand[ r.below( cand.size())]; if (g.prods[q].rhs.size() > g.prods[p].rhs.size()) p = q;}
		for (int s : g.prods[p].rhs) derive( r, s, depth-1, budget);
	}
	std::vector<int> sentence( Rng& r, int depth, int budget) {out.clear(); derive( r, g.prods[0].lhs, depth, budget); return out;}
};
}

// C35: regular expressions against a reference matcher on the expression's syntax tree.
#include "common.h"
#include "Regexp.h"
#include <set>
#include <string.h>
#include <memory>
using namespace pbt;
struct Node { enum K { LIT, ANY, CLASS, CAT, ALT, REP, BOL, EOL, EMPTY } k; unsigned char c; std::set<int> cls; bool neg; int lo, hi; std::vector<Node> s; };
static std::set<size_t> step(const Node &n, const std::string &t, size_t at, int cf, int ef) {
	std::set<size_t> r; bool icase = cf&REG_ICASE, nl = cf&REG_NEWLINE;
	switch (n.k) {
	case Node::EMPTY: r.insert(at); break;
	case Node::LIT: if (at<t.size() && (t[at]==(char)n.c || (icase && tolower((unsigned char)t[at])==tolower(n.c)))) r.insert(at+1); break;
	case Node::ANY: if (at<t.size() && !(nl && t[at]=='\n')) r.insert(at+1); break;
	case Node::CLASS: if (at<t.size()) { unsigned char c = t[at]; bool in = n.cls.count(c) || (icase && (n.cls.count(tolower(c))||n.cls.count(toupper(c)))); if (n.neg) { in = !in; if (nl && c=='\n') in = false; } if (in) r.insert(at+1); } break;
	case Node::BOL: if ((at==0 && !(ef&REG_NOTBOL)) || (nl && at>0 && t[at-1]=='\n')) r.insert(at); break;
	case Node::EOL: if ((at==t.size() && !(ef&REG_NOTEOL)) || (nl && at<t.size() && t[at]=='\n')) r.insert(at); break;
	case Node::CAT: { r.insert(at); for (auto &x : n.s) { std::set<size_t> q; for (size_t p : r) { auto y = step(x,t,p,cf,ef); q.insert(y.begin(),y.end()); } r = q; } break; }
	case Node::ALT: for (auto &x : n.s) { auto y = step(x,t,at,cf,ef); r.insert(y.begin(),y.end()); } break;
	case Node::REP: { std::set<size_t> cur; cur.insert(at); if (n.lo==0) r.insert(at);
		for (int i=1; n.hi<0 || i<=n.hi; i++) { std::set<size_t> q; for (size_t p : cur) { auto y = step(n.s[0],t,p,cf,ef); q.insert(y.begin(),y.end()); }
			bool fresh = false; if (i>=n.lo) for (size_t p : q) if (r.insert(p).second) fresh = true;
			if (q.empty()) break; if (i>=n.lo && !fresh) break; cur = q; if (i>200) break; }
		break; }
	}
	return r;
}
static const char alpha[] = "abAB0.*[]()|+?{}^$\\-\n ";
static Node lit(Src &src) { Node n; n.k = Node::LIT; n.c = src.chance(3,4) ? "abAB"[src.draw(4)] : alpha[src.draw(sizeof alpha-1)]; return n; }
static Node gen(Src &src, int depth, bool ere) {
	Node n; n.neg = false; n.lo = 0; n.hi = -1; n.c = 0;
	switch (src.weighted({6,2,2,(unsigned)(depth?4:0),(unsigned)(depth&&ere?2:0),(unsigned)(depth?3:0)})) {
	case 0: return lit(src);
	case 1: n.k = Node::ANY; return n;
	case 2: n.k = Node::CLASS; n.neg = src.coin(); for (size_t i=0,k=1+src.draw(3);i<k;i++) n.cls.insert((unsigned char)"abAB0.*|\n "[src.draw(10)]); return n;
	case 3: n.k = Node::CAT; for (size_t i=0,k=2+src.draw(2);i<k;i++) n.s.push_back(gen(src,depth-1,ere)); return n;
	case 4: n.k = Node::ALT; for (size_t i=0,k=2+src.draw(2);i<k;i++) n.s.push_back(gen(src,depth-1,ere)); return n;
	default: { n.k = Node::REP; Node x = ere ? gen(src,depth-1,ere) : src.coin()?lit(src):gen(src,0,ere);
		if (x.k==Node::REP) return x;
		n.s.push_back(x); if (!ere) return n;
		switch (src.draw(4)) { case 0: break; case 1: n.lo = 1; break; case 2: n.hi = 1; break; default: n.lo = src.draw(3); n.hi = n.lo+(n.lo?0:1)+(int)src.draw(2); if (n.hi<1) n.hi=1; }
		return n; }
	}
}
static std::string put(const Node &n, bool ere, int outer) {       // outer: 0 alternative, 1 concatenation, 2 repetition
	std::string r;
	switch (n.k) {
	case Node::EMPTY: return "";
	case Node::LIT: if (strchr(ere?".*[]()|+?{}^$\\":".*[]^$\\",n.c) && n.c!=']') return std::string("\\")+(char)n.c; return std::string(1,n.c);
	case Node::ANY: return ".";
	case Node::BOL: return "^"; case Node::EOL: return "$";
	case Node::CLASS: r = n.neg?"[^":"["; for (int c : n.cls) r += (char)c; return r+"]";
	case Node::CAT: for (auto &x : n.s) r += put(x,ere,1); return outer>=2 ? (ere?"("+r+")":"\\("+r+"\\)") : r;
	case Node::ALT: for (size_t i=0;i<n.s.size();i++) r += (i?"|":"")+put(n.s[i],ere,0); return outer>=1 ? "("+r+")" : r;
	case Node::REP: r = put(n.s[0],ere,2); if (n.lo==0&&n.hi<0) r += "*"; else if (n.lo==1&&n.hi<0) r += "+"; else if (n.lo==0&&n.hi==1) r += "?"; else r += "{"+std::to_string(n.lo)+","+std::to_string(n.hi)+"}"; return r;
	}
	return r;
}
static void body(Src &src) {
	int cf = 0; bool ere = src.weighted({5,1})==0; bool defFlags = ere && src.coin();
	if (ere) cf |= REG_EXTENDED;
	if (!defFlags) { if (src.coin()) cf |= REG_ICASE; if (src.chance(1,3)) cf |= REG_NEWLINE; if (src.chance(1,3)) cf |= REG_NOSUB; }
	Node top; top.k = Node::ALT; size_t alts = ere ? 1+src.len(2) : 1;
	for (size_t i=0;i<alts;i++) { Node c; c.k = Node::CAT; if (src.chance(1,4)) { Node b; b.k = Node::BOL; c.s.push_back(b); } c.s.push_back(gen(src,3,ere)); if (src.chance(1,4)) { Node e; e.k = Node::EOL; c.s.push_back(e); } top.s.push_back(c); }
	std::string re; for (size_t i=0;i<top.s.size();i++) re += (i?"|":"")+put(top.s[i],ere,0);
	// a '*' that a basic expression would read as ordinary, or an anchor in the middle: leave those alone
	if (!ere) for (size_t i=0;i+1<re.size();i++) if ((re[i]=='^'||re[i]=='(') && re[i+1]=='*') src.discard();
	std::unique_ptr<Regexp> r(defFlags ? new Regexp(re.c_str()) : new Regexp(re.c_str(),cf));
	NOTE("expression " << show(re) << " flags " << cf);
	size_t n = 1+src.len(6); bool both[2] = {false,false};
	for (size_t i=0;i<n;i++) {
		std::string t = src.weighted({3,1})==0 ? src.chars("abAB0\n",8) : src.chars(alpha,10); int ef = 0; if (src.chance(1,5)) ef |= REG_NOTBOL; if (src.chance(1,5)) ef |= REG_NOTEOL;
		bool want = false; for (size_t a=0;a<=t.size()&&!want;a++) want = !step(top,t,a,cf,ef).empty();
		std::unique_ptr<char[]> z(new char[t.size()+1]); memcpy(z.get(),t.c_str(),t.size()+1);
		bool got = ef==0 && src.coin() ? r->match(z.get()) : r->match(z.get(),ef); NOTE(show(t) << " flags " << ef << " -> " << got);
		PCHECK(got==want,got?"false-match":"missed-match",show(re) << " (flags " << cf << ") against " << show(t) << " (flags " << ef << ") gave " << got);
		both[want] = true;
	}
	if (both[0]&&both[1]) src.nontrivial();
}
PTEST(match, 60000) { noLeakCase("leak",src,body); }

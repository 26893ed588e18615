// C26: splitting, joining and replacing text.
#include "common.h"
#include "Utils.h"
#include <memory>
#include <string.h>
using namespace pbt;
typedef std::vector<std::string> VS;
struct CStr { std::unique_ptr<char[]> p; CStr(const std::string &s):p(new char[s.size()+1]) { memcpy(p.get(),s.c_str(),s.size()+1); } operator char*() { return p.get(); } };
static std::string text(Src &src, size_t n) { std::string l = src.run("abc d"), m = src.run("x",100); return l + (src.weighted({3,1}) ? src.nastyText(n) : src.chars("ab1 \t,;\n\r.",n)) + m; }
static bool isin(char c, const std::string &seps) { return c && seps.find(c)!=std::string::npos; }
static VS words(const std::string &s, const std::string &seps, size_t max) {
	VS r; size_t i = 0;
	while (r.size()<max) {
		while (i<s.size() && isin(s[i],seps)) i++;
		if (i>=s.size()) break;
		size_t e = i;
		if (r.size()+1==max) { e = s.size(); while (e>i && isin(s[e-1],seps)) e--; }
		else while (e<s.size() && !isin(s[e],seps)) e++;
		r.push_back(s.substr(i,e-i)); i = e;
	}
	return r;
}
static std::string show(const VS &v) { std::string r = "["; for (auto &x : v) r += pbt::show(x)+" "; return r+"]"; }
using pbt::show;
PTEST(split, 100000) {
	std::string s = text(src,src.chance(1,10)?400:40); bool dflt = src.coin(); std::string seps = dflt ? " \t\r\n" : src.coin() ? src.chars(" ,;:.ab",3) : src.nastyText(3);
	size_t max = src.weighted({3,1}) ? src.draw(60) : src.draw(6); NOTE(show(s) << " at " << (dflt?"spaces":show(seps)) << " up to " << max);
	VS want = words(s,seps,max); if (want.size()>1) src.nontrivial();
	CStr in(s); std::unique_ptr<char*[]> av(new char*[max]);
	for (size_t i=0;i<max;i++) av[i] = (char*)8;
	CStr sp(seps); int n = cstrSplit(in,av.get(),(int)max,dflt?NULL:(char*)sp);
	PCHECK(n==(int)want.size(),"split-count",show(s) << " splits into " << n << " arguments, not " << want.size() << " " << show(want));
	for (int i=0;i<n;i++) { PCHECK(av[i]>=(char*)in && av[i]<=(char*)in+s.size(),"split-arg","argument " << i << " is not in the text"); PCHECK(want[i]==av[i],"split-arg","argument " << i << " of " << show(s) << " is " << show(av[i]) << ", not " << show(want[i])); }
	for (size_t i=n;i<max;i++) PCHECK(av[i]==(char*)8,"split-arg","slot " << i << " beyond the " << n << " arguments was written");
}
static void stringsplitBody(Src &src);
PTEST(stringsplit, 60000) { noLeakCase("leak",src,stringsplitBody); }
static void stringsplitBody(Src &src) {
	std::string s; size_t n = src.coin() ? src.draw(60) : 36+src.draw(8); bool plain = src.coin();
	for (size_t i=0;i<n;i++) { s += std::string(src.draw(3),plain?' ':"\t \n"[src.draw(3)]); if (i||src.coin()) s += ' '; s += plain ? std::string(1+src.draw(2),'a'+i%26) : src.nastyText(6); } if (src.coin()) s += " "; s += src.run("y");
	VS v; size_t before = src.draw(3); for (size_t i=0;i<before;i++) v.push_back("kept");
	VS want = words(s," \t\r\n",40); want.insert(want.begin(),before,"kept"); if (want.size()>1) src.nontrivial(); NOTE(show(s));
	CStr in(s); VS &r = stringSplit(v,in); PCHECK(&r==&v,"same","stringSplit returned another vector");
	PCHECK(v==want,"stringsplit",show(s) << " splits into " << v.size() << " " << show(v) << ", not " << want.size() << " " << show(want));
	PCHECK(s==(char*)in,"same","stringSplit changed its input");
}
PTEST(getarg, 80000) {
	std::string s = text(src,40); for (char &c : s) if (src.chance(1,5)) c = " \t\n\v\f\r"[src.draw(6)]; int nth = (int)src.range(1,8); NOTE("argument " << nth << " of " << show(s));
	VS w = words(s," \t\n\v\f\r",1000); if (s.size()) { w.clear(); size_t i = 0; const std::string sp = " \t\n\v\f\r"; while (true) { while (i<s.size()&&isin(s[i],sp)) i++; if (i>=s.size()) break; size_t e = i; while (e<s.size()&&!isin(s[e],sp)) e++; w.push_back(s.substr(i,e-i)); i = e; } }
	if (w.size()>1) src.nontrivial(); CStr in(s); unsigned len = 12345; char *p = cstrGetArg(in,nth,&len);
	if (nth>(int)w.size()) PCHECK(!p,"getarg-none","argument " << nth << " of " << show(s) << " is " << show(std::string(p?p:"",p?len:0)) << ", there are only " << w.size());
	else { PCHECK(p,"getarg","argument " << nth << " of " << show(s) << " is missing"); PCHECK(p>=(char*)in && len<=s.size() && p+len<=(char*)in+s.size() && std::string(p,len)==w[nth-1],"getarg","argument " << nth << " of " << show(s) << " is " << len << " characters at " << (p-(char*)in) << ", not " << show(w[nth-1])); }
}
PTEST(firstlines, 60000) {
	std::string s = src.coin() ? src.chars("ab\n",30) : src.nastyText(60); if (src.chance(1,6)) s += "\n"; s = src.run("abc")+s; s += src.run("d\ne"); int n = (int)src.range(1,6); bool d = src.chance(1,5); if (d) n = 2; NOTE("first " << n << " lines of " << show(s));
	std::string want; int k = 0; for (char c : s) { if (k>=n) break; want += c; if (c=='\n') k++; }
	if (k>1) src.nontrivial(); std::string r = d ? firstlines(s) : firstlines(s,n); PCHECK(r==want,"firstlines","the first " << n << " lines of " << show(s) << " are " << show(r) << ", not " << show(want));
}
PTEST(concat, 40000) {
	std::string a[7], want; size_t n = 2+src.draw(6); for (size_t i=0;i<n;i++) { a[i] = src.coin() ? src.bytes(12) : std::string(1,'a'+i); want += a[i]; NOTE(show(a[i])); }
	std::string r; switch (n) { case 2: r = stringcat(a[0],a[1]); break; case 3: r = stringcat(a[0],a[1],a[2]); break; case 4: r = stringcat(a[0],a[1],a[2],a[3]); break; case 5: r = stringcat(a[0],a[1],a[2],a[3],a[4]); break; case 6: r = stringcat(a[0],a[1],a[2],a[3],a[4],a[5]); break; default: r = stringcat(a[0],a[1],a[2],a[3],a[4],a[5],a[6]); }
	if (want.size()>2) src.nontrivial(); PCHECK(r==want,"concat","the " << n << " texts concatenate to " << show(r) << ", not " << show(want));
}
PTEST(replace, 100000) {
	std::string s, f, t; bool small = src.coin();
	if (small) { s = src.chars("ab",24); f = src.chars("ab",3); t = src.chars("abc",4); } else { s = src.bytes(60); f = s.size()>2&&src.coin() ? s.substr(src.draw(s.size()-1),1+src.draw(2)) : src.bytes(3); t = src.coin() ? f+f : src.bytes(5); }
	s = src.run("ab")+s; if (src.chance(1,20)) { std::string k = s; for (int i=0;i<40;i++) s += k; }
	NOTE("replace " << show(f) << " by " << show(t) << " in " << show(s));
	std::string want; size_t at = 0, hits = 0; if (f.empty()) want = s; else while (true) { size_t e = s.find(f,at); if (e==std::string::npos) { want += s.substr(at); break; } want += s.substr(at,e-at)+t; at = e+f.size(); hits++; }
	if (hits>1) src.nontrivial(); std::string r = replaceAll(s,f,t); PCHECK(r==want,"replace","replacing " << show(f) << " by " << show(t) << " in " << show(s) << " gives " << show(r) << ", not " << show(want));
}
static void scanBody(Src &src);
PTEST(scan, 60000) { noLeakCase("leak",src,scanBody); }
static void scanBody(Src &src) {
	static const char *const F[4][4] = { {"%s","%[^,]","x%[a-z]","%[ab]"}, {"%s %s","%[^,],%[^,]","%[a-z]%[0-9]","%s,%s"}, {"%s %s %s","%[^,],%[^,],%s","%[a-z]=%[^;];%s","%s%s%s"}, {"%s %s %s %s","%[^.].%[^.].%[^.].%s","%[a]%[b]%[a]%[b]","%s %s%s %s"} };
	size_t k = src.draw(4); const char *f = F[k][src.draw(4)]; std::string s;
	switch (src.draw(4)) { case 0: s = src.chars("ab ,.=;x1",30); break; case 1: { size_t w = src.draw(6); for (size_t i=0;i<w;i++) s += src.chars("abx19",5)+src.pick(VS{" ",",",".","=",";"}); break; } case 2: s = src.nastyText(60); break; default: s = src.run("a",20)+std::string(src.draw(5)*60,'a')+src.chars("ab,. ",10); }
	NOTE(show(s) << " scanned by " << f);
	std::string v[4] = {"w0","w1","w2","w3"}, g[4] = {"w0","w1","w2","w3"}; std::vector<char> b[4]; for (auto &x : b) x.assign(s.size()+10,0);
	int want = sscanf(s.c_str(),f,b[0].data(),b[1].data(),b[2].data(),b[3].data()); for (int i=0;i<want;i++) v[i] = b[i].data();
	CStr in(s), fm(f); int got = k==0 ? myscanf(in,fm,&g[0]) : k==1 ? myscanf(in,fm,&g[0],&g[1]) : k==2 ? myscanf(in,fm,&g[0],&g[1],&g[2]) : myscanf(in,fm,&g[0],&g[1],&g[2],&g[3]);
	if (want>0) src.nontrivial(); PCHECK(got==want,"scan-count",show(s) << " scanned by " << f << " converts " << got << ", not " << want);
	for (int i=0;i<4;i++) PCHECK(g[i]==v[i],"scan",show(s) << " scanned by " << f << " gives text " << i << " as " << show(g[i]) << ", not " << show(v[i]));
}

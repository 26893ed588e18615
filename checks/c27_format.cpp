// C27: formatting, tables and number text.
#include "common.h"
#include "Defines.h"
#include "Logger.h"
#include "Utils.h"
#include "BitVector.h"
#include <stdlib.h>
#include <stdarg.h>
#include <time.h>
using namespace pbt;
static std::string ref(const char *f, ...) { va_list ap; va_start(ap,f); char *p = 0; int n = vasprintf(&p,f,ap); va_end(ap); std::string r(p,n); free(p); return r; }
// Text whose length makes the whole land near the interesting sizes.
static std::string filler(Src &src, size_t other) {
	size_t n;
	switch (src.weighted({3,4,2,1})) { case 0: n = src.draw(40); break; case 1: n = 190+src.draw(20); break; case 2: n = src.draw(1200); break; default: n = 4980+src.draw(21); }
	n = n>other ? n-other : 0; std::string s; size_t salt = src.draw(26);
	for (size_t i=0;i<n;i++) s += (char)('a'+(i*7+salt)%26);
	return s;
}
static std::string cut(const std::string &s) { return s.size()>5000 ? s.substr(0,5000) : s; }
#define BOTH(F,...) do { want = ref(F,__VA_ARGS__); got = format(F,__VA_ARGS__); got2 = format1(F,__VA_ARGS__); } while (0)
static void printfBody(Src &src) {
	long long a = src.sbiased(64); int i = (int)src.sbiased(32), j = (int)src.range(-300,300); double d = (double)src.sbiased(40)/1000.0; std::string want, got, got2, s; int cc = 33+(int)src.draw(90), k;
	switch (src.draw(9)) {
	case 0: s = filler(src,0); BOTH("%s",s.c_str()); break;
	case 1: s = filler(src,30); BOTH("%d|%s|%lld",i,s.c_str(),a); break;
	case 2: s = filler(src,0); BOTH("%*s",j,s.c_str()); break;
	case 3: s = filler(src,0); k = (int)src.draw(s.size()+2); BOTH("%-30.*s>",k,s.c_str()); break;
	case 4: BOTH("%f %g %e %10.3f",d,d,d,d); break;
	case 5: BOTH("%x %X %o %u %c%%",i,i,i,i,cc); break;
	case 6: s = filler(src,8); { std::string t = src.nastyText(40); BOTH("%s;%s;%5d",t.c_str(),s.c_str(),j); } break;
	case 7: k = (int)(180+src.draw(40)); BOTH("%0*d",k,i); break;
	default: { s = filler(src,0); std::string f; for (char c : s) f += c; want = cut(f); NOTE("plain format of " << f.size()); got = format(f.c_str()); got2 = format1(f.c_str()); }
	}
	want = cut(want); if (want.size()>20) src.nontrivial(); NOTE(want.size() << " characters: " << show(want.substr(0,80)));
	PCHECK(got==want,"format",want.size() << " characters expected, format gave " << got.size() << ": ..." << show(got.size()>30?got.substr(got.size()-30):got) << " for ..." << show(want.size()>30?want.substr(want.size()-30):want));
	PCHECK(got2==want,"format",want.size() << " characters expected, format1 gave " << got2.size());
}
PTEST(printf, 60000) { noLeakCase("leak",src,printfBody); }
static void overloadsBody(Src &src) {
	std::string s[4]; size_t which = src.draw(4); for (size_t k=0;k<4;k++) s[k] = k==which ? filler(src,20) : src.nastyText(8);
	int i = (int)src.sbiased(32), j = (int)src.sbiased(32); std::string want, got;
	#define C(k) s[k].c_str()
	switch (src.draw(8)) {
	case 0: want = ref("<%s>",C(0)); got = format("<%s>",s[0]); break;
	case 1: want = ref("%s,%s",C(0),C(1)); got = format("%s,%s",s[0],s[1]); break;
	case 2: want = ref("%s,%s,%s",C(0),C(1),C(2)); got = format("%s,%s,%s",s[0],s[1],s[2]); break;
	case 3: want = ref("%s,%s,%s,%s",C(0),C(1),C(2),C(3)); got = format("%s,%s,%s,%s",s[0],s[1],s[2],s[3]); break;
	case 4: want = ref("%s,%d",C(0),i); got = format("%s,%d",s[0],i); break;
	case 5: want = ref("%d,%s",i,C(0)); got = format("%d,%s",i,s[0]); break;
	case 6: want = ref("%s,%s,%d",C(0),C(1),i); got = format("%s,%s,%d",s[0],s[1],i); break;
	default: want = ref("%s,%s,%d,%d",C(0),C(1),i,j); got = format("%s,%s,%d,%d",s[0],s[1],i,j);
	}
	want = cut(want); if (want.size()>20) src.nontrivial(); NOTE(want.size() << " " << show(want.substr(0,80)));
	PCHECK(got==want,"format","expected " << show(want) << " got " << show(got));
}
PTEST(overloads, 40000) { noLeakCase("leak",src,overloadsBody); }
static void streamBody(Src &src) {
	size_t n = src.coin() ? src.draw(60) : 280+src.draw(16); std::string s; for (size_t k=0;k<n;k++) s += (char)('a'+(k*5)%26); int i = (int)src.range(-9,9);
	std::string want = ref("%s%d",s.c_str(),i); if (want.size()>295) want = want.substr(0,295); s = s.substr(0,295-2); want = ref("%s%d",s.c_str(),i); NOTE(want.size() << " characters");
	std::ostringstream o; o << "before "; std::ostream &r = osprintf(o,"%s%d",s.c_str(),i); if (want.size()>20) src.nontrivial();
	PCHECK(&r==&o && o.str()=="before "+want,"osprintf",want.size() << " characters expected after the text before, got " << show(o.str()));
	std::string lng(290+src.draw(600),'z'); std::ostringstream o2; osprintf(o2,"%s",lng.c_str()); if (lng.size()>=296) PCHECK(o2.str().size()<=299 && o2.str().substr(0,290)==lng.substr(0,290),"osprintf-long","a text of " << lng.size() << " came out as " << show(o2.str())); else PCHECK(o2.str()==lng,"osprintf","a text of " << lng.size() << " came out as " << o2.str().size());
	std::ostringstream in, out; in << s << i; out << in; PCHECK(out.str()==want,"stream-of-stream","a stream printed into a stream gives " << show(out.str()));
	struct T : Text2Str { std::string t; void text(std::ostream &os) const { os << t; } } t; t.t = want; std::ostringstream o3; o3 << &t; PCHECK(t.str()==want && o3.str()==want,"text2str","the text of an object is " << show(t.str()) << " and prints as " << show(o3.str()));
	std::ostringstream o4; o4 << (const Text2Str*)0; PCHECK(o4.str()=="(null)","text2str","no object prints as " << o4.str());
}
PTEST(stream, 40000) { noLeakCase("leak",src,streamBody); }
PTEST(numbers, 60000) {
	uint64_t h = src.biased(64), l = src.biased(64), h2 = 1, l2 = 1; uint32_t x = (uint32_t)src.biased(32); NOTE(h << " " << l << " " << x); if (h&&l) src.nontrivial();
	std::string t = uintToString(h,l); PCHECK(t==ref("%016llx%016llx",(unsigned long long)h,(unsigned long long)l),"uint",h << "," << l << " is written " << t);
	stringToUint(t,&h2,&l2); PCHECK(h2==h && l2==l,"uint",t << " reads as " << h2 << "," << l2);
	for (char &c : t) if (c>='a'&&c<='f'&&src.coin()) c -= 32; stringToUint(t,&h2,&l2); PCHECK(h2==h && l2==l,"uint",t << " reads as " << h2 << "," << l2);
	PCHECK(uintToString(x)==ref("%08x",x),"uint",x << " is written " << uintToString(x));
}
PTEST(table, 40000) {
	bool tabs = src.chance(1,3); size_t rows = src.len(8); prettyTable_t tab; size_t cells = 0;
	for (size_t r=0;r<rows;r++) { std::vector<std::string> row; size_t n = src.chance(1,8) ? src.draw(31) : src.draw(6);
		for (size_t c=0;c<n;c++) { std::string s; switch (src.weighted({4,1,1,1})) { case 0: s = src.chars("abc 12",8); break; case 1: s = "_"; break; case 2: s = src.nastyText(20); break; default: { size_t k = src.coin() ? 90+src.draw(11) : src.draw(tabs?600:249); s = std::string(k,'w'); } } row.push_back(s); cells++; }
		tab.push_back(row); }
	std::vector<size_t> w; for (auto &r : tab) for (size_t c=0;c<r.size();c++) { if (w.size()<=c) w.push_back(0); w[c] = std::max(w[c],std::min<size_t>(100,r[c].size())); }
	std::string want; for (auto &r : tab) { for (size_t c=0;c<r.size();c++) { std::string v = r[c]=="_" ? "" : r[c]; if (tabs) want += (c?"\t":"")+v; else { if (v.size()<w[c]) v += std::string(w[c]-v.size(),' '); want += v+" "; } } want += "\n"; } want += "\n";
	if (cells>2) src.nontrivial(); NOTE(rows << " rows" << (tabs?" with tabs: ":": ") << show(want)); prettyTable_t keep = tab;
	std::ostringstream o; if (tabs) printPrettyTable(tab,o,true); else if (src.coin()) printPrettyTable(tab,o,false); else printPrettyTable(tab,o);
	PCHECK(o.str()==want,"table","the table printed as\n" << o.str() << "instead of\n" << want); PCHECK(tab==keep,"table-changed","printing changed the table");
}
// The macros that print a variable and its name.
PTEST(macros, 30000) {
	int mNumber = (int)src.sbiased(32); long long wide = src.sbiased(64); unsigned long bits = src.biased(64); std::string name = src.nastyText(20), label = src.nastyText(8); int lo = (int)src.sbiased(20), hi = (int)src.sbiased(20); BitVector bv(src.len(20)); for (size_t i=0;i<bv.size();i++) bv[i] = src.draw(2);
	std::string sbv; for (size_t i=0;i<bv.size();i++) sbv += bv[i]?'1':'0'; auto hex = [](unsigned long long x) { char b[20]; snprintf(b,20,"%llx",x); return std::string(b); }; if (name.size()>1) src.nontrivial();
	std::string n = std::to_string(mNumber), w = std::to_string(wide), got, want; std::ostringstream os; const std::string tail = "/26"; unsigned k = src.draw(12);
	switch (k) {
	case 0: os << LOGVAR(mNumber) << LOGVAR(name); want = " mNumber="+n+" name="+name; break;
	case 1: os << LOGVAR2(label,wide); want = " "+label+"="+w; break;
	case 2: os << LOGVARM(mNumber); want = " Number="+n; break;
	case 3: os << LOGVARP(name) << LOGVARP2("second",wide); want = " name=("+name+") second=("+w+")"; break;
	case 4: os << LOGHEX(wide) << LOGHEX(bits); want = " wide=0x"+hex(wide)+" bits=0x"+hex(bits); break;
	case 5: os << LOGHEX2(label,bits); want = " "+label+"=0x"+hex(bits); break;
	case 6: os << LOGBV(bv) << LOGBV2(label,bv); want = " bv=("+sbv+" size:"+std::to_string(sbv.size())+") "+label+"=("+sbv+" size:"+std::to_string(sbv.size())+")"; break;
	case 7: os << LOGVARRANGE(label,mNumber,lo,hi); want = " "+label+"=("+n+" range:"+std::to_string(lo)+" to "+std::to_string(hi)+")"; break;
	case 8: os << RN_PRETTY_TEXT(name) << RN_PRETTY_TEXT1(wide); want = " name=("+name+") wide="+w; break;
	case 9: RN_WRITE_TEXT(name); want = " name=("+name+")"; break;
	case 10: { int v = RN_BOUND(mNumber,lo,hi), e = mNumber<lo ? lo : mNumber>hi ? hi : mNumber; os << v; want = std::to_string(e); break; }
	default: { double d = RN_BOUND(mNumber/8.0,-3.5,lo/4.0), e = mNumber/8.0 < -3.5 ? -3.5 : mNumber/8.0 > lo/4.0 ? lo/4.0 : mNumber/8.0; PCHECK(d==e,"bound",mNumber/8.0 << " between -3.5 and " << lo/4.0 << " gives " << d); const int *ci = &mNumber; *Unconst(ci) = lo; os << mNumber; want = std::to_string(lo); break; }
	}
	os << "/" << 26; got = os.str(); PCHECK(got==want+tail,"macro","macro " << k << " prints " << show(got) << ", expected " << show(want+tail));
}
PTEST(timestr, 30000) {
	struct Reset { ~Reset(){ env::virtualTime = false; } } reset; int64_t t = src.draw(4102444800ULL), us = src.coin() ? src.draw(1000000) : src.pick(std::vector<int64_t>{0,99999,100000,999999,949999,950000}); env::setTime(t,us*1000);
	time_t tt = t; struct tm tm; gmtime_r(&tt,&tm); int tenths = us/100000; unsigned w = (unsigned)src.draw(40); NOTE(t << "." << us << " width " << w); src.nontrivial();
	std::string a = ref(" %02d:%02d:%02d.%d",tm.tm_hour,tm.tm_min,tm.tm_sec,tenths), b = ref(" %04d-%02d-%02dT",tm.tm_year+1900,tm.tm_mon+1,tm.tm_mday)+a.substr(1);
	auto tail = [](const std::string &s, size_t n) { return n>=s.size() ? s : s.substr(s.size()-n); };
	PCHECK(timestr(w)==tail(a,w) && timestr(w,false)==tail(a,w),"timestr","time stamp of width " << w << " is " << show(timestr(w)) << ", not " << show(tail(a,w)));
	PCHECK(timestr(w,true)==tail(b,w),"timestr","dated time stamp of width " << w << " is " << show(timestr(w,true)) << ", not " << show(tail(b,w)));
	PCHECK(timestr()==tail(a,12),"timestr","the plain time stamp is " << show(timestr()) << ", not " << show(tail(a,12)));
	double f = timef(); PCHECK(f>t+us*1e-6-2e-6 && f<t+us*1e-6+2e-6,"timef","timef is " << ref("%f",f) << " at " << t << "." << us);
	int64_t b4 = env::nowNs; double zz = (double)src.draw(3000)/1000; sleepf(zz); PCHECK(llabs(env::nowNs-b4-(int64_t)(zz*1e9))<=2000,"sleepf","sleepf(" << zz << ") slept " << env::nowNs-b4 << " ns");
}

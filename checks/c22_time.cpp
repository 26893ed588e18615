// C22: time values.
#include "common.h"
#include "Timeval.h"
#include <math.h>
#include <time.h>
#include <stdlib.h>
#include <stdio.h>
#include <sstream>
using namespace pbt;
typedef __int128 i128;
static const int64_t M = 1000000;
static int64_t usecs(const Timeval &t) { return (int64_t)t.sec()*M + t.usec(); }
static uint64_t subsec(Src &src) { // microseconds with boundaries
	switch (src.weighted({3,2,2,2})) { case 0: return src.draw(M); case 1: return src.pick(std::vector<uint64_t>{0,1,999,1000,1001,999000,999999,998999,500000}); case 2: return src.draw(1000)*1000; default: return M-1-src.draw(2000); }
}
static std::string show(const Timeval &t) { std::ostringstream o; o << t.sec() << "." << t.usec(); return o.str(); }
// The civil date of a time, without the C library.
static std::string iso(int64_t t, bool z) {
	int64_t d = t/86400, s = t%86400; if (s<0) { s += 86400; d--; }
	int64_t y = 1970;
	auto leap = [](int64_t y) { return (y%4==0&&y%100!=0)||y%400==0; };
	while (d<0) { y--; d += leap(y)?366:365; }
	while (d >= (leap(y)?366:365)) { d -= leap(y)?366:365; y++; }
	int ml[12] = {31,leap(y)?29:28,31,30,31,30,31,31,30,31,30,31}, m = 0;
	while (d>=ml[m]) d -= ml[m++];
	char b[80]; snprintf(b,sizeof b,"%04lld-%02d-%02dT%02d:%02d:%02d%s",(long long)y,m+1,(int)d+1,(int)(s/3600),(int)(s/60%60),(int)(s%60),z?"Z":""); return b;
}
PTEST(difference, 100000) {
	uint64_t s1 = src.coin() ? src.draw(4294967296ULL) : src.draw(100000), u1 = subsec(src), s2, u2;
	int64_t dmax = src.pick(std::vector<int64_t>{1,3,1000,90000,3000000,100000000,2147483647});
	s2 = s1 + src.range(-dmax,dmax); if ((int64_t)s2<0 || s2>4294967295ULL) s2 = s1;
	u2 = src.chance(1,4) ? u1 : subsec(src);
	Timeval a(s1,u1), b(s2,u2), c(a); NOTE(show(a) << " to " << show(b));
	PCHECK(a.sec()==s1 && a.usec()==u1 && b.sec()==s2 && b.usec()==u2,"parts","a value made of " << s1 << " s " << u1 << " us has parts " << show(a));
	int64_t du = ((int64_t)s2-(int64_t)s1)*M + ((int64_t)u2-(int64_t)u1);
	if (du) src.nontrivial();
	long d = a.delta(b);
	PCHECK(llabs(d*1000LL-du) < 1000,"delta","delta of " << show(a) << " to " << show(b) << " is " << d << " ms, exactly " << du << " us");
	if (du%1000==0 && llabs(du)<M) PCHECK(d*1000==du,"delta","delta of " << show(a) << " to " << show(b) << " is " << d << " ms, exactly " << du << " us");
	if (u1==u2) PCHECK(d*1000==du,"delta","delta over whole seconds of " << show(a) << " to " << show(b) << " is " << d << " ms, exactly " << du << " us");
	PCHECK(a.delta(c)==0,"delta","delta of a value to its copy is " << a.delta(c));
	PCHECK(b.delta(a)==-d,"delta","delta forward " << d << " and back " << b.delta(a));
	struct timeval tv = { (time_t)s1, (suseconds_t)u1 }; Timeval f(tv);
	PCHECK(usecs(f)==usecs(a),"parts","a value made from a struct timeval of " << s1 << "." << u1 << " is " << show(f));
	struct timespec ts = a.timespec();
	PCHECK(ts.tv_sec==(time_t)s1 && ts.tv_nsec==(long)u1*1000,"timespec","timespec of " << show(a) << " is " << ts.tv_sec << " s " << ts.tv_nsec << " ns");
	PCHECK(fabs(a.seconds()-((double)s1+(double)u1*1e-6))<=1e-6,"seconds","seconds of " << show(a) << " is " << std::to_string(a.seconds()));
	std::ostringstream o; o << a; char w[60]; snprintf(w,60,"%llu.%06llu",(unsigned long long)s1,(unsigned long long)u1); o.str();
	PCHECK(fabs(strtod(o.str().c_str(),0)-strtod(w,0))<2e-6 && o.str().find('.')!=std::string::npos && o.str().size()==std::string(w).size(),"print","printed as " << o.str() << ", it is " << w);
	std::ostringstream o2; o2 << ts; snprintf(w,60,"%lld,%ld",(long long)ts.tv_sec,ts.tv_nsec); PCHECK(o2.str()==w,"print","timespec printed as " << o2.str() << ", it is " << w);
	unsigned m = src.coin() ? src.draw(100) : src.draw(35000000); if (s1+60ULL*m<=4294967295ULL) { a.addMinutes(m);
		PCHECK(a.sec()==s1+60ULL*m && a.usec()==u1,"minutes",m << " minutes after " << show(c) << " gives " << show(a));
		PCHECK(llabs((int64_t)c.delta(a)-60000LL*m)==0 || m>=2147483648U/60,"minutes","delta after adding " << m << " minutes is " << c.delta(a)); }
}
PTEST(clock, 60000) {
	int64_t now = (int64_t)(1+src.draw(2000000000))*M + subsec(src);
	uint64_t off = src.weighted({2,1,1,1})==0 ? src.draw(5000) : src.coin() ? src.pick(std::vector<uint64_t>{0,1,999,1000,1001,59999,60000,3600000,86400000,2147483647,2147483648,4294967295U}) : src.biased(32);
	// aim at the carry: the offset's milliseconds bring the microseconds to exactly a million, or about it
	if (src.chance(1,3)) { uint64_t ms = off%1000; now = now/M*M + (M-(int64_t)ms*1000) + src.range(-2,2); }
	struct Reset { ~Reset(){ env::virtualTime = false; } } reset;
	env::setTime(now/M,now%M*1000+src.draw(1000));
	Timeval t(off);  if (src.coin()) t.future(off);
	NOTE("at " << now << " us, " << off << " ms ahead: " << show(t));
	if (off) src.nontrivial();
	int64_t due = now + (int64_t)off*1000;
	PCHECK(t.usec()<1000000,"normal","set " << off << " ms ahead of " << now << " us, the microseconds are " << t.usec());
	PCHECK(usecs(t)==due,"future","set " << off << " ms ahead of " << now << " us, the value is " << usecs(t) << ", not " << due);
	struct timespec ts = t.timespec();
	PCHECK(ts.tv_nsec>=0 && ts.tv_nsec<1000000000L && ts.tv_sec==due/M && ts.tv_nsec==due%M*1000,"timespec","timespec of " << show(t) << " is " << ts.tv_sec << " s " << ts.tv_nsec << " ns");
	size_t n = 1+src.draw(5);
	for (size_t i=0;i<n;i++) {
		int64_t at = now;
		switch (src.weighted({3,2,2,1,1})) {
		case 0: at = due + src.range(-3,3); break;
		case 1: at = due + src.range(-3000000,3000000); break;
		case 2: at = now + (int64_t)src.draw(3)*src.draw(100000000); break;
		case 3: at = due/M*M + subsec(src); break;
		default: at = (due/M+src.range(-2,2))*M + subsec(src); break;
		}
		if (at<0) at = 0;
		env::nowNs = at*1000 + src.draw(1000);
		bool p = t.passed(); long e = t.elapsed(), r = t.remaining();
		NOTE("  at " << at << " passed " << p << " elapsed " << e << " remaining " << r);
		if (at!=due) PCHECK(p==(at>due),"passed","at " << at-due << " us from the time, passed() is " << p);
		PCHECK(llabs(e*1000LL-(at-due))<1000,"elapsed","at " << at-due << " us past the time, elapsed() is " << e);
		PCHECK(llabs(r*1000LL-(due-at))<1000 && r==-e,"remaining","with " << due-at << " us to go, remaining() is " << r << " and elapsed() " << e);
		Timeval x; PCHECK(usecs(x)==at,"now","a new value at " << at << " us is " << usecs(x)); Timeval y(1,1); y.now(); PCHECK(usecs(y)==at,"now","now() at " << at << " us gives " << usecs(y));
	}
	int64_t b = env::nowNs; long ms = src.draw(1000); msleep(ms); PCHECK(env::nowNs-b==ms*1000000LL,"msleep","msleep(" << ms << ") slept " << env::nowNs-b << " ns");
}
PTEST(iso, 30000) {
	int64_t t = src.weighted({2,1,1})==0 ? src.draw(4000000000ULL) : src.coin() ? src.draw(253402300800ULL) : src.pick(std::vector<int64_t>{0,1,59,60,3599,86399,86400,951782399,951782400,951868799,951868800,1709164800,1709251199,4107542400LL,4107542399LL});
	src.nontrivial(); int off = src.range(-14*60,14*60)*60; int a = abs(off); if (off<0&&t<-off) t += 86400;
	char tz[40]; snprintf(tz,40,"XYZ%c%d:%02d",off<0?'+':'-',a/3600,a/60%60); { Untracked u; setenv("TZ",tz,1); tzset(); }
	std::string z = Timeval::isoTime(t,false), l = Timeval::isoTime(t,true), z2 = "junk", l2 = "junk"; Timeval::isoTime(t,z2,false); Timeval::isoTime(t,l2,true);
	NOTE(t << " with offset " << off << ": " << z << " " << l);
	{ Untracked u; setenv("TZ","UTC",1); tzset(); }
	PCHECK(z==iso(t,true) && z2==z,"iso","time " << t << " is written " << z << " / " << z2 << ", it is " << iso(t,true));
	PCHECK(l==iso(t+off,false) && l2==l,"iso-local","time " << t << " in zone " << tz << " is written " << l << " / " << l2 << ", it is " << iso(t+off,false));
}

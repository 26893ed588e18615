// C36: self-initialising scalars, bit sets, statistics and memory counters.
#include "common.h"
#include "Utils.h"
#include "ScalarTypes.h"
#include "MemoryLeak.h"
#include <math.h>
#include <limits>
#include <new>
#include <string.h>
using namespace pbt;
// An object made in memory full of junk, so that what is not initialised shows.
template<class T> struct Dirty { alignas(16) unsigned char mem[sizeof(T)]; T *p; Dirty(int fill) { memset(mem,fill,sizeof mem); p = new (mem) T; } ~Dirty() { p->~T(); } T &operator*() { return *p; } };
template<class W, class B, class G> static void arith(Src &src, const char *name, B init, G gen) {
	Dirty<W> d((int)src.draw(256)); W &w = *d; B m = init; NOTE(name);
	PCHECK((B)w==init && w.value==init,"initial",name << " starts at " << +w.value << ", not " << +init);
	size_t n = 1+src.draw(8);
	for (size_t i=0;i<n;i++) {
		B v = gen(src), r = 0, e = 0; int op = src.draw(9); const char *what = "";
		switch (op) {
		case 0: what = "="; r = (w = v); e = (m = v); break;
		case 1: what = "pre++"; r = ++w; e = ++m; break;
		case 2: what = "post++"; r = w++; e = m++; break;
		case 3: what = "pre--"; r = --w; e = --m; break;
		case 4: what = "post--"; r = w--; e = m--; break;
		case 5: what = "+="; r = (w += v); e = (m += v); break;
		case 6: what = "-="; r = (w -= v); e = (m -= v); break;
		case 7: what = "copy"; { W x(v); W y(x), z; z = x; r = y; e = v; PCHECK(z.value==v,"assign",name << " assigned from " << +v << " holds " << +z.value); w = y; m = v; } break;
		case 8: what = "&"; *&w = v; m = v; r = *&w; e = v; break;
		}
		NOTE("  " << what << " " << +v << " -> " << +w.value);
		PCHECK(w.value==m && (B)w==m,"value",name << " after " << what << " " << +v << " is " << +w.value << ", not " << +m);
		PCHECK(r==e,"result",name << " " << what << " " << +v << " gave " << +r << ", not " << +e);
		B c = src.coin() ? m : gen(src); PCHECK((w==c)==(m==c) && (w<c)==(m<c) && (w>c)==(m>c) && (w!=c)==(m!=c) && (w<=c)==(m<=c),"compare",name << " " << +m << " compared with " << +c);
		PCHECK((B)(w+c)==(B)(m+c) && (B)(w-c)==(B)(m-c),"arith",name << " " << +m << " with " << +c);
	}
	if (n>2) src.nontrivial();
}
static int64_t small(Src &src) { return src.range(-100000,100000); }
template<class B> static B wide(Src &src) { return (B)src.biased(64); }
enum Colour { Red, Green, Blue = 7 };
template<class F> static void field(Src &src, unsigned width, unsigned init, bool ck) {
	Dirty<F> d((int)src.draw(256)); F &f = *d; if (ck) PCHECK(f.getValue()==init && f.value==init,"initial","a field of width " << width << " starts at " << f.value << ", not " << init);
	ItemWithValueAndWidth *i = d.p; unsigned v = (unsigned)src.biased(32); f = v; PCHECK(i->getWidth()==width && i->getValue()==v && (unsigned)f==v,"field","a field of width " << width << " set to " << v << " has width " << i->getWidth() << " and value " << i->getValue());
	unsigned k = (unsigned)src.biased(16); f += k; f++; --f; f -= 3; PCHECK(f.getValue()==v+k-3,"field","the field holds " << f.getValue() << ", not " << v+k-3); F g(v); PCHECK(g.getValue()==v && *&g==v,"field","a field made from " << v << " holds " << g.getValue()); F h(f); PCHECK(h.value==f.value,"field","a copied field holds " << h.value); src.nontrivial();
}
PTEST(scalars, 100000) {
	switch (src.draw(26)) {
	case 0: arith<Int_z,int>(src,"Int_z",0,small); break; case 1: arith<Int_i<-77>,int>(src,"Int_i",-77,small); break;
	case 2: arith<Char_z,signed char>(src,"Char_z",0,wide<signed char>); break; case 3: arith<Char_i<-3>,signed char>(src,"Char_i",-3,wide<signed char>); break;
	case 4: arith<Int16_z,int16_t>(src,"Int16_z",0,wide<int16_t>); break; case 5: arith<Int16_i<-31000>,int16_t>(src,"Int16_i",-31000,wide<int16_t>); break;
	case 6: arith<Int32_z,int32_t>(src,"Int32_z",0,small); break; case 7: arith<Int32_i<123456789>,int32_t>(src,"Int32_i",123456789,small); break;
	case 8: arith<UInt_z,unsigned>(src,"UInt_z",0,wide<unsigned>); break; case 9: arith<UInt_i<4000000000U>,unsigned>(src,"UInt_i",4000000000U,wide<unsigned>); break;
	case 10: arith<UChar_z,unsigned char>(src,"UChar_z",0,wide<unsigned char>); break; case 11: arith<UChar_i<200>,unsigned char>(src,"UChar_i",200,wide<unsigned char>); break;
	case 12: arith<UInt16_z,uint16_t>(src,"UInt16_z",0,wide<uint16_t>); break; case 13: arith<UInt16_i<65000>,uint16_t>(src,"UInt16_i",65000,wide<uint16_t>); break;
	case 14: arith<UInt32_z,uint32_t>(src,"UInt32_z",0,wide<uint32_t>); break; case 15: arith<UInt32_i<3000000000U>,uint32_t>(src,"UInt32_i",3000000000U,wide<uint32_t>); break;
	case 16: arith<Size_t_z,size_t>(src,"Size_t_z",0,wide<size_t>); break; case 17: arith<Size_t_i<5000000000UL>,size_t>(src,"Size_t_i",5000000000UL,wide<size_t>); break;
	case 18: arith<Float_z,float>(src,"Float_z",0,[](Src &s){ return (float)s.range(-65536,65536)/16; }); break;
	case 19: arith<Double_z,double>(src,"Double_z",0,[](Src &s){ return (double)s.range(-1000000,1000000)/1024; }); break;
	case 20: { Dirty<Bool_z> a((int)src.draw(256)); Dirty<Bool_i<true> > b((int)src.draw(256)); PCHECK(!(bool)*a && (bool)*b,"initial","booleans start at " << (bool)*a << " and " << (bool)*b); bool v = src.coin(); bool r = (*a = v); PCHECK(r==v && (bool)*a==v && *&(*a)==v,"value","the boolean holds " << (bool)*a); Bool_z c(v), d2(c); PCHECK((bool)d2==v,"value","the copied boolean holds " << (bool)d2); src.nontrivial(); break; }
	case 21: { Dirty<Enum_z<Colour> > e((int)src.draw(256)); PCHECK((Colour)*e==Red,"initial","the enumeration starts at " << (int)(Colour)*e); Colour c = src.pick(std::vector<Colour>{Red,Green,Blue}); Colour r = (*e = c); PCHECK(r==c && (Colour)*e==c && *&(*e)==c,"value","the enumeration holds " << (int)(Colour)*e); Enum_z<Colour> f(c); PCHECK((Colour)f==c,"value","the enumeration holds " << (int)(Colour)f); src.nontrivial(); break; }
	case 22: field<Field_i<5,9> >(src,5,9,true); break; case 23: field<Field_z<12> >(src,12,0,true); break; case 24: field<Field_i<> >(src,32,0,true); break; default: field<Field<7> >(src,7,0,false);
	}
}
PTEST(bitset, 60000) {
	Dirty<BitSet> d((int)src.draw(256)); BitSet &b = *d; bool m[32] = {}; PCHECK(b.bits()==0,"initial","a bit set starts as " << b.bits()); size_t n = 1+src.draw(20);
	for (size_t i=0;i<n;i++) { unsigned k = (unsigned)src.draw(32); if (src.chance(1,3)) { b.clearBit(k); m[k] = false; NOTE("clear " << k); } else { b.setBit(k); m[k] = true; NOTE("set " << k); }
		unsigned w = 0; for (int j=0;j<32;j++) if (m[j]) w |= 1u<<j; PCHECK(b.bits()==w && (int)b==(int)w,"bits","the set is " << b.bits() << ", not " << w);
		for (int j=0;j<32;j++) PCHECK(b.isSet(j)==m[j] && (b.getBit(j)!=0)==m[j] && (b.getBit(j)==0 || b.getBit(j)==1u<<j),"bit","bit " << j << " reads " << b.getBit(j) << " / " << b.isSet(j) << ", it is " << m[j]); }
	if (n>2) src.nontrivial();
}
template<class T, class G> static void stat(Src &src, G gen) {
	Statistic<T> s; std::vector<T> v; size_t n = src.chance(1,5) ? src.draw(200) : src.draw(8);
	PCHECK(s.getCurrent()==0 && s.getAvg()==0,"initial","an empty statistic has current " << +s.getCurrent() << " and average " << s.getAvg());
	long double sum = 0; T mn = 0, mx = 0, cur = 0;
	for (size_t i=0;i<=n;i++) {
		if (i) { T x = gen(src); s.addPoint(x); NOTE("add " << x); if (i==1 || x<mn) mn = x; if (i==1 || x>mx) mx = x; cur = x; sum += x; }
		PCHECK(s.getCurrent()==cur,"current","current is " << s.getCurrent() << ", last added " << cur);
		PCHECK(s.mCnt==i && s.mMin==mn && s.mMax==mx,"extremes","after " << i << " points count " << s.mCnt << " min " << s.mMin << " max " << s.mMax << ", they are " << mn << " and " << mx);
		long double avg = i ? sum/i : 0; PCHECK(fabsl(s.getAvg()-avg)<=1e-9L*(1+fabsl(sum)),"average","the average of " << i << " points is " << s.getAvg() << ", not " << (double)avg);
	}
	unsigned N = n; if (n>1 && src.chance(1,4)) { N = src.coin() ? 999990+src.draw(20) : (unsigned)src.biased(32); if (N<n) N = n; s.mCnt = N; NOTE("count set to " << N); }
	std::ostringstream o, w; s.text(o); w << "(" << cur; if (mn!=mx) { w << " min=" << mn << " max=" << mx << " avg=" << s.getAvg(); if (N<=999999) w << " N=" << N; else { char b[40]; snprintf(b,40,"%.3g",(double)N); std::string t = b; size_t e = t.find("e+"); if (e!=std::string::npos) t.erase(e+1,1); w << " N=" << t; } } w << ")";
	PCHECK(o.str()==w.str(),"text","the summary is " << o.str() << ", not " << w.str()); std::ostringstream o2; o2 << s; PCHECK(o2.str()==w.str(),"text","the printed statistic is " << o2.str());
	if (n>2) src.nontrivial();
}
PTEST(statistic, 60000) {
	switch (src.draw(4)) {
	case 0: stat<int>(src,[](Src &s){ return (int)s.sbiased(32); }); break;
	case 1: stat<unsigned>(src,[](Src &s){ return (unsigned)s.biased(32); }); break;
	case 2: stat<float>(src,[](Src &s){ return (float)s.range(-100000,100000)/16; }); break;
	default: stat<double>(src,[](Src &s){ return (double)s.range(-100000,100000)/64; });
	}
}
PTEST(divisor, 60000) {
	int k = 1, x, y; switch (src.draw(4)) { case 0: x = 1+src.draw(50); y = 1+src.draw(50); break; case 1: k = 1+src.draw(2000); x = k*(int)(1+src.draw(1000000)); y = k*(int)(1+src.draw(1000000)); break; case 2: { int a = 1, b = 1+src.draw(3); while (b<2000000000-a && src.chance(15,16)) { int t = a+b; a = b; b = t; } x = a; y = b; break; } default: x = 1+src.draw(2147483647); y = 1+src.draw(2147483647); }
	if (src.coin()) std::swap(x,y); NOTE(x << " and " << y); if (x!=y) src.nontrivial();
	long long a = x, b = y; while (b) { long long t = a%b; a = b; b = t; } int g = gcd(x,y); PCHECK(g==a,"gcd","the greatest common divisor of " << x << " and " << y << " is given as " << g << ", it is " << a);
}
DEFINE_MEMORY_LEAK_DETECTOR_CLASS(TBF, MemCheckTBF)
DEFINE_MEMORY_LEAK_DETECTOR_CLASS(TranEntry, MemCheckTranEntry)
struct A : public MemCheckTBF { int x; };
struct B : public MemCheckTranEntry { int y; };
PTEST_NOFUZZ(memory, 20000) {
	Untracked u; MemStats &g = gMemStats; int n0[2] = {g.mMemNow[MemStats::mTBF],g.mMemNow[MemStats::mTranEntry]}, t0[2] = {g.mMemTotal[MemStats::mTBF],g.mMemTotal[MemStats::mTranEntry]}; int other = g.mMemTotal[MemStats::mPdpPdu];
	std::vector<A*> as; std::vector<B*> bs; int made[2] = {0,0}; std::map<std::string,int> lab; static std::string keyA, keyB; size_t n = 1+src.draw(20); int base[2] = {0,0}; size_t la = 0, lb = 0;
	if (!keyA.empty()) base[0] = g.mMemMap[keyA]; if (!keyB.empty()) base[1] = g.mMemMap[keyB];
	for (size_t i=0;i<n;i++) {
		switch (src.weighted({3,3,2,2})) {
		case 0: { A *a = new A; RN_MEMLOG(A,a); keyA = a->mccKey; as.push_back(a); made[0]++; la++; NOTE("make A"); break; }
		case 1: { B *b = new B; RN_MEMLOG(B,b); keyB = b->mccKey; bs.push_back(b); made[1]++; lb++; NOTE("make B"); break; }
		case 2: if (!as.empty()) { size_t k = src.draw(as.size()); delete as[k]; as.erase(as.begin()+k); NOTE("release A"); } break;
		default: if (!bs.empty()) { size_t k = src.draw(bs.size()); delete bs[k]; bs.erase(bs.begin()+k); NOTE("release B"); } }
		PCHECK(g.mMemNow[MemStats::mTBF]-n0[0]==(int)as.size() && g.mMemNow[MemStats::mTranEntry]-n0[1]==(int)bs.size(),"live","live counts are " << g.mMemNow[MemStats::mTBF]-n0[0] << " and " << g.mMemNow[MemStats::mTranEntry]-n0[1] << ", there are " << as.size() << " and " << bs.size());
		PCHECK(g.mMemTotal[MemStats::mTBF]-t0[0]==made[0] && g.mMemTotal[MemStats::mTranEntry]-t0[1]==made[1] && g.mMemTotal[MemStats::mPdpPdu]==other,"total","totals rose by " << g.mMemTotal[MemStats::mTBF]-t0[0] << " and " << g.mMemTotal[MemStats::mTranEntry]-t0[1] << ", made " << made[0] << " and " << made[1]);
		if (!keyA.empty()) PCHECK((int)g.mMemMap[keyA]-base[0]==(int)as.size(),"label","the label " << keyA << " counts " << (int)g.mMemMap[keyA]-base[0] << ", there are " << as.size());
		if (!keyB.empty()) PCHECK((int)g.mMemMap[keyB]-base[1]==(int)bs.size(),"label","the label " << keyB << " counts " << (int)g.mMemMap[keyB]-base[1] << ", there are " << bs.size());
	}
	for (A *a : as) delete a; for (B *b : bs) delete b; if (n>3) src.nontrivial();
	// a statistics object of its own
	Dirty<MemStats> d((int)src.draw(256)); MemStats &s = *d; int now[MemStats::mMax] = {}, tot[MemStats::mMax] = {}; const char *nm[MemStats::mMax] = {}; static const char *names[] = {"one","two","three"};
	for (size_t i=0;i<n;i++) { int k = (int)src.draw(MemStats::mMax); const char *id = names[src.draw(3)]; if (src.chance(1,3)) { s.memChkDel((MemStats::MemoryNames)k,id); now[k]--; } else { s.memChkNew((MemStats::MemoryNames)k,id); now[k]++; tot[k]++; nm[k] = id; } }
	std::ostringstream o, w; s.text(o); w << "Structs current total:\n"; for (int k=0;k<MemStats::mMax;k++) { PCHECK(s.mMemNow[k]==now[k] && s.mMemTotal[k]==tot[k],"counts","kind " << k << " counts " << s.mMemNow[k] << "/" << s.mMemTotal[k] << ", it is " << now[k] << "/" << tot[k]); w << "\t" << (nm[k]?nm[k]:"unknown") << " " << now[k] << " " << tot[k] << "\n"; }
	PCHECK(o.str()==w.str(),"memory-text","the summary is\n" << o.str() << "instead of\n" << w.str());
}

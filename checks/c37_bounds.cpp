// C37: a use of a vector outside its range is stopped before it reads or writes anything.
#include "bits.h"
#include <setjmp.h>
#include <memory>
#include <algorithm>
using namespace pbt;
static jmp_buf gBack; static bool gArmed;
extern "C" {
void __real___assert_fail(const char*, const char*, unsigned, const char*) __attribute__((noreturn)); void __real_abort() __attribute__((noreturn));
void __wrap___assert_fail(const char *a, const char *f, unsigned l, const char *fn) { if (gArmed) { gArmed = false; longjmp(gBack,1); } __real___assert_fail(a,f,l,fn); }
void __wrap_abort() { if (gArmed) { gArmed = false; longjmp(gBack,1); } __real_abort(); }
}
// Runs f; true if it was stopped, by an assertion, an abort or an exception.
template<class F> static bool stopped(F f) {
	volatile bool s = true;
	if (setjmp(gBack)==0) { gArmed = true; try { f(); s = false; } catch (const Fail&) { gArmed = false; throw; } catch (...) {} }
	gArmed = false; return s;
}
static volatile double gSink;
static unsigned gWidth = 64;     // the width of the numbers the function at hand takes
// How far beyond the end: a little, more, or so far that a sum or an address wraps around.
static size_t past(Src &src, size_t from=0) {
	if (src.chance(1,4)) return src.draw(3000);
	if (!src.chance(1,4)) return src.draw(5);
	size_t top = gWidth>=64 ? ~(size_t)0 : ((size_t)1<<gWidth)-1, v;    // from+1+result does not pass top
	switch (src.draw(3)) { case 0: v = top-src.draw(200); break; case 1: v = ((size_t)1<<(src.draw(gWidth-8)+8))-src.draw(200); break; default: v = ((size_t)1<<(gWidth-1-src.draw(4)))+src.draw(400)-200; }
	if (v>top-from-1) v = top-from-1; src.label("huge"); return v;
}
// Offsets that are inside, or beyond by a little or a lot.
struct Range { size_t at, n; bool in; };
static Range range(Src &src, size_t size) {
	Range r; r.at = src.draw(size+1); r.n = src.draw(size-r.at+1); r.in = true;
	switch (src.draw(4)) {
	case 1: r.n = size-r.at+1+past(src,size-r.at); r.in = false; break;                       // ends outside
	case 2: r.at = size+1+past(src,size); r.n = 1+src.draw(20); if (src.chance(1,3)) { r.n = (gWidth>=64 ? 0 : (size_t)1<<gWidth)-r.at+src.draw(size+1); if (!r.n) r.n = 1; } r.in = false; break;     // is outside; the end perhaps wraps around
	case 3: r.n = size-r.at; break;                                                 // ends exactly at the end
	default: ;
	}
	return r;
}
static Range index(Src &src, size_t size) { Range r; r.n = 1; r.in = size && src.coin(); r.at = r.in ? src.draw(size) : size+past(src,size); return r; }

// A vector in the middle of, or filling, an owned block; nothing around it may change.
template<class V, class T> struct Inside {
	V whole; V *v; size_t before, n; std::vector<T> all;
	static T element(size_t i) { return (T)((i*5+3)%7%2); }
	Inside(Src &src, size_t size) : before(0), n(size) {
		size_t after = 0; if (src.coin()) { before = src.draw(40); after = src.draw(40); }
		whole.resize(before+n+after); for (size_t i=0;i<whole.size();i++) { whole.begin()[i] = element(i); all.push_back(element(i)); }
		v = new V(NULL,whole.begin()+before,whole.begin()+before+n);
	}
	~Inside() { delete v; }
	void unchanged(const std::string &what) { for (size_t i=0;i<all.size();i++) PCHECK(whole.begin()[i]==all[i],"changed",what << " out of range changed element " << (long)i-(long)before << " of " << n << " before it was stopped"); }
	void outside(const std::string &what) { for (size_t i=0;i<all.size();i++) if (i<before || i>=before+n) PCHECK(whole.begin()[i]==all[i],"outside",what << " changed element " << (long)i-(long)before << " outside the vector of " << n); }
};
#define TRY(WHAT,IN,EXPR) do { bool in_ = (IN); const std::string w_ = WHAT; NOTE(w_ << (in_?"":" (out of range)")); bool s_ = stopped([&]{ EXPR; }); \
	PCHECK(!(s_ && in_),"refused",w_ << " was stopped although it is in range"); PCHECK(s_ || in_,"not-stopped",w_ << " went ahead although it is out of range"); \
	if (!in_) { x.unchanged(w_); src.nontrivial(); } else x.outside(w_); } while(0)
template<class V, class T> static void common(Src &src, V &v, Inside<V,T> &x, unsigned op) {
	const V &cv = v; size_t n = x.n;
	switch (op) {
	case 0: { Range r = index(src,n); TRY("reading element " + std::to_string(r.at) + " of " + std::to_string(n),r.in,gSink = (double)cv[r.at]); break; }
	case 1: { Range r = index(src,n); TRY("writing element " + std::to_string(r.at) + " of " + std::to_string(n),r.in,v[r.at] = (T)1); break; }
	case 2: { gWidth = 32; Range r = range(src,n); gWidth = 64; TRY("filling " + std::to_string(r.n) + " elements at " + std::to_string(r.at) + " of " + std::to_string(n),r.in,v.fill((T)1,r.at,r.n)); break; }
	case 3: { Range r = range(src,n); TRY("the segment of " + std::to_string(r.n) + " at " + std::to_string(r.at) + " of " + std::to_string(n),r.in,{ V s(v.segment(r.at,r.n)); gSink = s.size(); }); break; }
	case 4: { Range r = range(src,n); if (r.at) r.in = true, r.at = 0, r.n = src.draw(n+1); TRY("the first " + std::to_string(r.n) + " of " + std::to_string(n),r.in,{ V s(v.head(r.n)); gSink = s.size(); }); break; }
	case 5: { // into a vector of m elements at 'to'
		size_t m = src.len(100); Range r = range(src,m); size_t span = r.n; if (src.chance(1,4)) span = n+1+past(src,n);
		std::unique_ptr<Inside<V,T> > y(new Inside<V,T>(src,m)); bool in = r.in && span<=n && r.at<=m && span<=m-r.at;
		TRY("copying " + std::to_string(span) + " of " + std::to_string(n) + " elements to " + std::to_string(r.at) + " of " + std::to_string(m),in,cv.copyToSegment(*y->v,r.at,span));
		if (!in) y->unchanged("copying"); else y->outside("copying"); x.unchanged("copying from"); break; }
	case 6: { size_t m = src.len(100); Range r = range(src,n); if (src.coin() && m>r.n) m = r.n ? r.n-1 : 0;
		std::unique_ptr<Inside<V,T> > y(new Inside<V,T>(src,m)); bool in = r.in && r.n<=m;
		TRY("copying " + std::to_string(r.n) + " elements at " + std::to_string(r.at) + " of " + std::to_string(n) + " into " + std::to_string(m),in,cv.segmentCopyTo(*y->v,r.at,r.n));
		if (!in) y->unchanged("copying"); else y->outside("copying"); x.unchanged("copying from"); break; }
	case 7: { size_t at = src.coin() ? src.draw(n+1) : n+1+past(src,n); TRY("the rest from " + std::to_string(at) + " of " + std::to_string(n),at<=n,{ V s(v.tail(at)); gSink = s.size(); }); break; }
	default: { size_t m = src.coin() ? n : src.len(100); std::unique_ptr<Inside<V,T> > y(new Inside<V,T>(src,m));
		if (src.coin()) { size_t at = src.chance(1,4) ? m+1+past(src,m) : src.draw(m+1); if (src.coin() && n<=m) at = m-n; bool in = at<=m && n<=m-at;
			TRY("copying all " + std::to_string(n) + " elements to " + std::to_string(at) + " of " + std::to_string(m),in,cv.copyToSegment(*y->v,at)); if (!in) y->unchanged("copying"); else y->outside("copying"); x.unchanged("copying from"); break; }
		TRY("copying all " + std::to_string(n) + " elements into " + std::to_string(m),n<=m,cv.copyTo(*y->v)); if (n>m) y->unchanged("copying"); else y->outside("copying"); x.unchanged("copying from"); break; }
	}
}
static std::vector<unsigned> holes(Src &src, size_t n) { std::vector<unsigned> p; unsigned den = 2+src.draw(6); for (size_t i=0;i<n;i++) if (src.draw(den)==den-1) p.push_back(i); return p; }
PTEST(bits, 120000) {
	size_t n = src.size(100,0); Inside<BitVector,char> x(src,n); BitVector &v = *x.v; const BitVector &cv = v;
	unsigned op = src.draw(21);
	switch (op) {
	case 8: { Range r = index(src,n); TRY("bit " + std::to_string(r.at) + " of " + std::to_string(n),r.in,gSink = cv.bit(r.at)); break; }
	case 9: { Range r = index(src,n); TRY("setting bit " + std::to_string(r.at) + " of " + std::to_string(n),r.in,v.settfb(r.at,1)); break; }
	case 10: case 11: case 12: case 13: case 14: {
		Range r = range(src,n); if (r.n>64) { if (r.in) r.n = 64; else if (src.coin()) { r.n = 1+src.draw(64); r.at = n+1-std::min(n,(size_t)src.draw(r.n)); } else if (r.n>~0u) r.n = ~0u-src.draw(100); } r.in = r.at<=n && r.n<=n-r.at;
		if (r.n==0) { r.in = true; if (op==14) return; }    // nothing is asked for
		std::string w = std::to_string(r.n) + " bits at " + std::to_string(r.at) + " of " + std::to_string(n); uint64_t val = src.draw(0); size_t at = r.at;
		if (op==10) TRY("storing " + w,r.in,v.fillField(r.at,val,r.n));
		else if (op==11) TRY("storing reversed " + w,r.in,v.fillFieldReversed(r.at,val,r.n));
		else if (op==12) TRY("writing " + w,r.in,v.writeField(at,val,r.n));
		else if (op==13) TRY("writing reversed " + w,r.in,v.writeFieldReversed(at,val,r.n));
		else if (src.coin()) TRY("reading on reversed " + w,r.in,gSink = cv.readFieldReversed(at,r.n));
		else TRY("reading reversed " + w,r.in,gSink = cv.peekFieldReversed(r.at,r.n));
		break; }
	case 19: case 20: { Range r = range(src,n); if (r.in) r.n = std::min(r.n,(size_t)64); else if (r.n>~0u) r.n = ~0u-src.draw(100);
		r.in = r.at<=n && r.n<=n-r.at; if (r.n==0) break; std::string w = std::to_string(r.n) + " bits at " + std::to_string(r.at) + " of " + std::to_string(n); size_t at = r.at;
		if (op==19) TRY("reading " + w,r.in,gSink = cv.peekField(r.at,r.n)); else TRY("reading on " + w,r.in,gSink = cv.readField(at,r.n)); break; }
	case 15: TRY("reversing an octet of " + std::to_string(n),n>=8,v.reverse8()); break;
	case 16: {
		std::vector<unsigned> p = holes(src,n); size_t m = n-p.size(); bool in = true; switch (src.draw(4)) { case 1: m += 1+(src.chance(1,4) ? src.draw(3000) : src.draw(5)); in = false; break; case 2: if (m) { m -= 1+src.draw(m); in = false; } break; default: ; }
		p.shrink_to_fit(); std::unique_ptr<Inside<BitVector,char> > y(new Inside<BitVector,char>(src,m));
		TRY("copying " + std::to_string(n) + " bits without " + std::to_string(p.size()) + " into " + std::to_string(m),in,v.copyPunctured(*y->v,p.data(),p.size())); y->outside("copying"); x.unchanged("copying from"); break; }
	case 17: { unsigned len = 1+src.draw(100); bool in = len<64; TRY("a generator of degree " + std::to_string(len),in,{ Generator g(3,len); gSink = g.size(); }); break; }
	default: common<BitVector,char>(src,v,x,op);
	}
}
PTEST(softbits, 80000) {
	size_t n = src.size(100,0); Inside<SoftVector,float> x(src,n); SoftVector &v = *x.v; const SoftVector &cv = v;
	unsigned op = src.draw(13);
	switch (op) {
	case 8: { Range r = index(src,n); TRY("bit " + std::to_string(r.at) + " of " + std::to_string(n),r.in,gSink = cv.bit(r.at)); break; }
	case 9: { Range r = index(src,n); TRY("setting symbol " + std::to_string(r.at) + " of " + std::to_string(n),r.in,v.settfb(r.at,1)); break; }
	case 10: { Range r = index(src,n); TRY("symbol " + std::to_string(r.at) + " of " + std::to_string(n),r.in,gSink = cv.softbit(r.at)); break; }
	case 11: {
		size_t m = n+src.draw(20); std::vector<unsigned> p; { std::vector<unsigned> all(m); for (size_t i=0;i<m;i++) all[i] = i; for (size_t k=n;k<m;k++) { size_t j = src.draw(all.size()); p.push_back(all[j]); all.erase(all.begin()+j); } std::sort(p.begin(),p.end()); }
		bool in = true; switch (src.draw(4)) { case 1: m += 1+(src.chance(1,4) ? src.draw(3000) : src.draw(5)); in = false; break; case 2: if (m) { m -= 1+src.draw(m); in = false; } break; default: ; }
		p.shrink_to_fit(); std::unique_ptr<Inside<SoftVector,float> > y(new Inside<SoftVector,float>(src,m));
		TRY("copying " + std::to_string(n) + " symbols with " + std::to_string(p.size()) + " unknown into " + std::to_string(m),in,v.copyUnPunctured(*y->v,p.data(),p.size())); y->outside("copying"); x.unchanged("copying from"); break; }
	default: common<SoftVector,float>(src,v,x,op);
	}
}
PTEST(numbers, 60000) { size_t n = src.size(100,0); Inside<Vector<int>,int> x(src,n); common<Vector<int>,int>(src,*x.v,x,src.draw(9)); }

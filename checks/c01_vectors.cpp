// C01: ownership, aliasing and contents of Vector, BitVector and SoftVector against a value model.
#include "common.h"
#include "BitVector.h"
#include <memory>
#include <typeinfo>
using namespace pbt;

namespace {
template<class T> struct Block { std::vector<T> v; T *ext; Block():ext(0) {} };

struct VecTraits { typedef Vector<int> V; typedef int T; enum { kind = 0 }; };
struct ByteTraits { typedef Vector<unsigned char> V; typedef unsigned char T; enum { kind = 0 }; };
struct BitTraits { typedef BitVector V; typedef char T; enum { kind = 1 }; };
struct SoftTraits { typedef SoftVector V; typedef float T; enum { kind = 2 }; };

template<class TR> struct Machine {
	typedef typename TR::V V; typedef typename TR::T T;
	typedef std::shared_ptr<Block<T> > BP;
	struct Slot { V *v; BP b; size_t off, len; bool owner; Slot():v(0),off(0),len(0),owner(false) {} };
	enum { N = 5, MAXN = 200 };
	Slot s[N]; Src &src; unsigned serial; bool big;
	std::vector<std::pair<T*,BP> > exts;
	Machine(Src &x):src(x),serial(0),big(false) {}
	~Machine() { for (int i=0;i<N;i++) delete s[i].v; for (auto &e : exts) delete[] e.first; }

	T val() { unsigned k = src.draw(3); serial++; if (TR::kind==1) return (T)(k&1); return (T)(serial*3+k); }
	size_t sz() { if (big) return src.len(MAXN); size_t n = src.size(MAXN); big = n>8*MAXN; return n; }
	void drop(int i) { delete s[i].v; s[i] = Slot(); }
	// the storage b is released: aliases of it may no longer be used
	void released(BP b, int except) { if (!b) return; for (int j=0;j<N;j++) if (j!=except && s[j].v && s[j].b==b && s[j].len) { NOTE("  (alias " << j << " dropped with its owner)"); drop(j); } }
	bool refersTo(int i, BP b) { return s[i].v && s[i].b==b && s[i].len; }
	T &ref(const Slot &x, size_t k) { return x.b->v[x.off+k]; }
	BP fresh(size_t n) { BP b(new Block<T>); b->v.resize(n); return b; }
	BP copyOf(const Slot &x) { BP b = fresh(x.len); for (size_t k=0;k<x.len;k++) b->v[k]=ref(x,k); return b; }
	// fill a vector whose content is unspecified
	void init(int i) { for (size_t k=0;k<s[i].len;k++) { T x = s[i].len>1000 ? (T)((k*k/7+k)&(TR::kind==1 ? 1 : 63)) : val(); ref(s[i],k)=x; (*s[i].v)[k]=x; } }
	void own(int i, BP b) { s[i].b=b; s[i].off=0; s[i].len=b->v.size(); s[i].owner=true; }
	void ali(int i, const Slot &x, size_t off, size_t len) { s[i].b=x.b; s[i].off=x.off+off; s[i].len=len; s[i].owner=false; }
	int some() { int k = src.draw(N); for (int j=0;j<N;j++) if (s[(k+j)%N].v) return (k+j)%N; return -1; }
	bool overlap(const Slot &a, size_t ao, const Slot &b, size_t bo, size_t n) {
		if (a.b!=b.b || !n) return false;
		size_t x=a.off+ao, y=b.off+bo; return x<y+n && y<x+n;
	}
	void check(const char *after) {
		for (int i=0;i<N;i++) if (s[i].v) {
			const V &v = *s[i].v; Slot &x = s[i];
			PCHECK(v.size()==x.len, "size", "after " << after << ": vector " << i << " has size " << v.size() << ", expected " << x.len);
			PCHECK(v.bytes()==x.len*sizeof(T), "bytes", "after " << after << ": vector " << i << " bytes " << v.bytes());
			PCHECK(v.end()-v.begin()==(ptrdiff_t)x.len, "range", "after " << after << ": begin/end of vector " << i);
			PCHECK(s[i].v->isOwner()==(x.owner && x.len), "owner", "after " << after << ": vector " << i << " isOwner " << s[i].v->isOwner() << ", expected " << (x.owner && x.len));
			for (size_t k=0;k<x.len;k++) PCHECK(v[k]==ref(x,k), "content", "after " << after << ": vector " << i << " element " << k << " is " << (double)v[k] << ", expected " << (double)ref(x,k));
		}
		for (auto &e : exts) for (size_t k=0;k<e.second->v.size();k++)
			PCHECK(e.first[k]==e.second->v[k], "external", "after " << after << ": outside buffer element " << k << " is " << (double)e.first[k] << ", expected " << (double)e.second->v[k]);
	}
	void step() {
		char name[100]; int i = src.draw(N), j = some();
		unsigned op = src.draw(22);
		#define OPN(...) do { snprintf(name,sizeof name,__VA_ARGS__); NOTE(name); } while(0)
		#define MAKE(EXPR) do { V *nv_ = EXPR; BP ob_ = s[i].owner ? s[i].b : BP(); if (ob_) released(ob_,i); drop(i); s[i].v = nv_; } while(0)
		switch (op) {
		case 0: case 1: { size_t n = sz(); OPN("v%d = new(%zu)",i,n); if (s[i].v) { if (s[i].owner) released(s[i].b,i); drop(i); }
			s[i].v = new V(n); own(i,fresh(n)); init(i); break; }
		case 2: { if (!s[i].v) return; OPN("destroy v%d",i); if (s[i].owner) released(s[i].b,i); drop(i); break; }
		case 3: { // copy construction from a const source
			if (j<0 || i==j) return; OPN("v%d = copy-construct(const v%d)",i,j);
			if (s[i].v) { if (s[i].owner) { if (!s[j].owner && refersTo(j,s[i].b)) return; released(s[i].b,i); } drop(i); }
			const V &c = *s[j].v; s[i].v = new V(c);
			if (TR::kind==1 && !s[j].owner) ali(i,s[j],0,s[j].len); else own(i,copyOf(s[j]));
			break; }
		case 4: { // copy construction from a non-const source: Vector shifts ownership
			if (j<0 || i==j) return; OPN("v%d = copy-construct(v%d)",i,j);
			if (s[i].v) { if (s[i].owner) { if (!s[j].owner && refersTo(j,s[i].b)) return; released(s[i].b,i); } drop(i); }
			s[i].v = new V(*s[j].v);
			if (TR::kind==0) { bool o = s[j].owner; ali(i,s[j],0,s[j].len); s[i].owner=o; s[j].owner=false; src.nontrivial(); }
			else if (TR::kind==1 && !s[j].owner) ali(i,s[j],0,s[j].len);
			else own(i,copyOf(s[j]));
			break; }
		case 5: case 6: { // alias by segment/head/tail
			if (j<0 || i==j) return;
			size_t a = src.draw(s[j].len+1), n = src.draw(s[j].len-a+1); unsigned how = src.draw(TR::kind==0?5:TR::kind==1?4:6);
			if (how==1 || how==4) a=0; if (how==2 || how==5) n = s[j].len-a;
			if (s[i].v) { if (s[i].owner) { if (refersTo(j,s[i].b)) return; released(s[i].b,i); } drop(i); }
			OPN("v%d = alias of v%d [%zu,+%zu) form %u",i,j,a,n,how);
			s[i].v = mkAlias(*s[j].v,a,n,how);
			ali(i,s[j],how==3&&TR::kind==1?0:a,how==3&&TR::kind==1?s[j].len:n);
			if (s[i].len) src.nontrivial();
			break; }
		case 7: case 8: { // assignment
			if (j<0 || !s[i].v) return;
			bool cst = src.coin();
			OPN("v%d = %sv%d",i,cst?"const ":"",j);
			bool shift = TR::kind==0 && !cst, alias = TR::kind==1 && !s[j].owner;
			if (i==j) { assign(*s[i].v,*s[j].v,cst);
				// a clone of an alias onto itself makes it independent
				if (!shift && !alias) { BP old = s[i].owner ? s[i].b : BP(); own(i,copyOf(s[i])); if (old) released(old,i); }
				break; }
			if ((shift||alias) && s[i].owner && !s[j].owner && refersTo(j,s[i].b)) return; // would point into what it releases
			bool dropSrc = s[i].owner && refersTo(j,s[i].b);
			Slot js = s[j]; BP cp = copyOf(s[j]); BP old = s[i].owner ? s[i].b : BP();
			assign(*s[i].v,*s[j].v,cst);
			if (shift) { bool o = js.owner; s[i].b=js.b; s[i].off=js.off; s[i].len=js.len; s[i].owner=o; s[j].owner=false; src.nontrivial(); }
			else if (alias) ali(i,js,0,js.len);
			else own(i,cp);
			if (old) released(old,i);
			if (dropSrc) src.label("assigned from own alias");
			break; }
		case 9: { if (j<0) return; size_t n = sz(); OPN("v%d.resize(%zu)",j,n); BP old = s[j].owner ? s[j].b : BP();
			s[j].v->resize(n); own(j,fresh(n)); if (old) released(old,j); init(j); break; }
		case 10: { if (j<0) return; OPN("v%d.clear()",j); BP old = s[j].owner ? s[j].b : BP(); s[j].v->clear(); own(j,fresh(0)); if (old) released(old,j); break; }
		case 11: { if (j<0 || !s[i].v) return; OPN("v%d.clone(v%d)",i,j); BP cp = copyOf(s[j]); BP old = s[i].owner ? s[i].b : BP();
			s[i].v->clone(*s[j].v);
			own(i,cp); if (old) released(old,i); src.nontrivial(); break; }
		case 12: { // concatenation, constructed or in place
			int k = some(); if (j<0 || k<0 || i==j || i==k) return;
			if (s[i].owner && (refersTo(j,s[i].b) || refersTo(k,s[i].b))) return;
			if (s[j].len+s[k].len > 4000) return;
			BP b = fresh(s[j].len+s[k].len);
			for (size_t x=0;x<s[j].len;x++) b->v[x]=ref(s[j],x);
			for (size_t x=0;x<s[k].len;x++) b->v[s[j].len+x]=ref(s[k],x);
			BP old = s[i].owner ? s[i].b : BP();
			if (s[i].v && src.coin()) { OPN("v%d.vConcat(v%d,v%d)",i,j,k); s[i].v->vConcat(*s[j].v,*s[k].v); }
			else { OPN("v%d = concat(v%d,v%d)",i,j,k); if (s[i].v) drop(i); s[i].v = mkConcat(*s[j].v,*s[k].v); }
			own(i,b); if (old) released(old,i); break; }
		case 13: { if (j<0) return; T x = val(); OPN("v%d.fill",j); s[j].v->fill(x); for (size_t k=0;k<s[j].len;k++) ref(s[j],k)=x; break; }
		case 14: { if (j<0) return; T x = val(); size_t a = src.draw(s[j].len+1), n = src.draw(s[j].len-a+1); OPN("v%d.fill(%zu,+%zu)",j,a,n); s[j].v->fill(x,a,n); for (size_t k=0;k<n;k++) ref(s[j],a+k)=x; break; }
		case 15: { // this -> segment of other
			if (j<0 || !s[i].v) return; size_t n = src.draw(std::min(s[i].len,s[j].len)+1); size_t a = src.draw(s[j].len-n+1);
			unsigned how = src.draw(3);
			if (how) { n = s[i].len; if (n>s[j].len) return; if (how==2) a=0; else a = src.draw(s[j].len-n+1); }
			if (overlap(s[i],0,s[j],a,n)) return;
			OPN("v%d.copyToSegment(v%d,%zu,%zu) form %u",i,j,a,n,how);
			if (how==0) s[i].v->copyToSegment(*s[j].v,a,n); else if (how==1) s[i].v->copyToSegment(*s[j].v,a); else s[i].v->copyTo(*s[j].v);
			for (size_t k=0;k<n;k++) ref(s[j],a+k)=ref(s[i],k);
			break; }
		case 16: { if (j<0 || !s[i].v) return; size_t n = src.draw(std::min(s[i].len,s[j].len)+1); size_t a = src.draw(s[i].len-n+1);
			if (overlap(s[i],a,s[j],0,n)) return;
			OPN("v%d.segmentCopyTo(v%d,%zu,%zu)",i,j,a,n); s[i].v->segmentCopyTo(*s[j].v,a,n); for (size_t k=0;k<n;k++) ref(s[j],k)=ref(s[i],a+k); break; }
		case 17: case 18: { if (j<0 || !s[j].len) return; size_t k = src.draw(s[j].len); T x = val(); OPN("v%d[%zu] = %g",j,k,(double)x);
			switch (src.draw(3)) { case 0: (*s[j].v)[k]=x; break; case 1: *(s[j].v->begin()+k)=x; break; default: *(s[j].v->end()-(s[j].len-k))=x; }
			ref(s[j],k)=x; if (!s[j].owner) src.nontrivial(); break; }
		case 19: { // alias of memory the vector does not own
			size_t n = sz(), a = src.draw(n+1), m = src.draw(n-a+1); if (exts.size()>3) return;
			if (s[i].v) { if (s[i].owner) released(s[i].b,i); drop(i); }
			BP b = fresh(n); T *p = new T[n]; for (size_t k=0;k<n;k++) { T x=val(); p[k]=x; b->v[k]=x; }
			exts.push_back(std::make_pair(p,b)); OPN("v%d = alias of outside buffer(%zu) [%zu,+%zu)",i,n,a,m);
			s[i].v = mkExt(p,a,m); s[i].b=b; s[i].off=a; s[i].len=m; s[i].owner=false; break; }
		case 20: { // a block handed over, covering part of it
			size_t n = sz()+1, a = src.draw(n+1), m = src.draw(n-a+1);
			if (a+m==0 || m==0) return;
			if (s[i].v) { if (s[i].owner) released(s[i].b,i); drop(i); }
			BP b = fresh(n); T *p = new T[n]; for (size_t k=0;k<n;k++) { T x=val(); p[k]=x; b->v[k]=x; }
			OPN("v%d = owner of block(%zu) covering [%zu,+%zu)",i,n,a,m);
			s[i].v = new V(p,p+a,p+a+m); s[i].b=b; s[i].off=a; s[i].len=m; s[i].owner=true; break; }
		default: { if (!extra(i,j,name)) return; break; }
		}
		check(name);
	}
	V *mkAlias(V &v, size_t a, size_t n, unsigned how);
	V *mkConcat(const V &a, const V &b) { return concat(a,b); }
	static V *concat(const V &a, const V &b);
	V *mkExt(T *p, size_t a, size_t m) { return new V(NULL,p+a,p+a+m); }
	void assign(V &d, V &x, bool cst) { if (cst) { const V &c = x; d = c; } else d = x; }
	bool extra(int i, int j, char *name);
	void run() { unsigned n = 3 + src.len(60); for (unsigned k=0;k<n;k++) step(); check("the end"); }
};
template<> Vector<int> *Machine<VecTraits>::mkAlias(V &v, size_t a, size_t n, unsigned how) {
	const V &c = v;
	switch (how) { case 0: return new V(v.segment(a,n)); case 1: return new V(v.head(n)); case 2: return new V(v.tail(a)); case 3: return new V(c.segment(a,n)); default: return new V(c.head(n)); } }
template<> Vector<unsigned char> *Machine<ByteTraits>::mkAlias(V &v, size_t a, size_t n, unsigned how) {
	const V &c = v;
	switch (how) { case 0: return new V(v.segment(a,n)); case 1: return new V(v.head(n)); case 2: return new V(v.tail(a)); case 3: return new V(c.segment(a,n)); default: return new V(c.head(n)); } }
template<> BitVector *Machine<BitTraits>::mkAlias(V &v, size_t a, size_t n, unsigned how) {
	const V &c = v;
	switch (how) { case 0: return new V(v.segment(a,n)); case 1: return new V(v.head(n)); case 2: return new V(v.tail(a)); default: return new V(c.alias()); } }
template<> SoftVector *Machine<SoftTraits>::mkAlias(V &v, size_t a, size_t n, unsigned how) {
	const V &c = v;
	switch (how) { case 0: return new V(v.segment(a,n)); case 1: return new V(v.head(n)); case 2: return new V(v.tail(a)); case 3: return new V(c.segment(a,n)); case 4: return new V(c.head(n)); default: return new V(c.tail(a)); } }
template<> Vector<int> *Machine<VecTraits>::concat(const V &a, const V &b) { return new V(a,b); }
template<> Vector<unsigned char> *Machine<ByteTraits>::concat(const V &a, const V &b) { return new V(a,b); }
template<> BitVector *Machine<BitTraits>::concat(const V &a, const V &b) { return new V(a,b); }
template<> SoftVector *Machine<SoftTraits>::concat(const V &a, const V &b) { Vector<float> t(a,b); return new SoftVector(t); }
template<> bool Machine<VecTraits>::extra(int i, int j, char *name) {
	if (i==j) return false;
	size_t n = sz(); // a span over memory that is not the vector's
	if (exts.size()>3) return false;
	if (s[i].v) { if (s[i].owner) released(s[i].b,i); drop(i); }
	BP b = fresh(n); T *p = new T[n]; for (size_t k=0;k<n;k++) { T x=val(); p[k]=x; b->v[k]=x; }
	exts.push_back(std::make_pair(p,b)); snprintf(name,100,"v%d = span over outside buffer(%zu)",i,n); NOTE(name);
	s[i].v = new V(p,n); s[i].b=b; s[i].off=0; s[i].len=n; s[i].owner=false;
	return true;
}
template<> bool Machine<ByteTraits>::extra(int i, int j, char *name) {
	// an element-wise copy of everything into a fresh vector through the iterators
	if (j<0 || i==j) return false;
	if (s[i].v) { if (s[i].owner) { if (refersTo(j,s[i].b)) return false; released(s[i].b,i); } drop(i); }
	snprintf(name,100,"v%d = new, copied from v%d by iterator",i,j); NOTE(name);
	BP b = copyOf(s[j]); s[i].v = new V(s[j].len); V::iterator o = s[i].v->begin(); const V &c = *s[j].v;
	for (V::const_iterator p = c.begin(); p != c.end(); ++p) *o++ = *p;
	own(i,b); return true;
}
template<> bool Machine<BitTraits>::extra(int i, int j, char *name) {
	switch (src.draw(4)) {
	case 0: { // an independent copy of a segment
		if (j<0 || i==j) return false; size_t a = src.draw(s[j].len+1), n = src.draw(s[j].len-a+1);
		if (s[i].v) { if (s[i].owner) { if (refersTo(j,s[i].b)) return false; released(s[i].b,i); } drop(i); }
		snprintf(name,100,"v%d = v%d.cloneSegment(%zu,%zu)",i,j,a,n); NOTE(name);
		BP b = fresh(n); for (size_t k=0;k<n;k++) b->v[k]=ref(s[j],a+k);
		const V &c = *s[j].v; s[i].v = new V(c.cloneSegment(a,n)); own(i,b); src.nontrivial(); return true; }
	case 1: { // built from text
		if (s[i].v) { if (s[i].owner) released(s[i].b,i); drop(i); }
		std::string t = src.chars("01",MAXN); snprintf(name,100,"v%d = bits from text (%zu)",i,t.size()); NOTE(name);
		BP b = fresh(t.size()); for (size_t k=0;k<t.size();k++) b->v[k]=t[k]=='1';
		s[i].v = new V(t.c_str()); own(i,b); return true; }
	case 2: { // an alias taken over by dup
		if (j<0 || i==j || !s[i].v || (s[i].owner && s[i].len)) return false; size_t a = src.draw(s[j].len+1), n = src.draw(s[j].len-a+1);
		snprintf(name,100,"v%d.dup(v%d.segment(%zu,%zu))",i,j,a,n); NOTE(name);
		s[i].v->dup(s[j].v->segment(a,n)); ali(i,s[j],a,n); src.nontrivial(); return true; }
	default: { if (j<0) return false; if (src.coin() || !s[j].len) { snprintf(name,100,"v%d.zero()",j); NOTE(name); s[j].v->zero(); for (size_t k=0;k<s[j].len;k++) ref(s[j],k)=0; }
		else { size_t k = src.draw(s[j].len); T x = val(); snprintf(name,100,"v%d.settfb(%zu,%d)",j,k,(int)x); NOTE(name); s[j].v->settfb(k,x); ref(s[j],k)=x; PCHECK(s[j].v->bit(k)==(x!=0),"bit","bit() after settfb"); }
		return true; }
	}
}
template<> bool Machine<SoftTraits>::extra(int i, int j, char *name) {
	switch (src.draw(3)) {
	case 0: { if (j<0) return false; if (!s[j].len || src.coin()) { snprintf(name,100,"v%d.unknown()",j); NOTE(name); s[j].v->unknown(); for (size_t k=0;k<s[j].len;k++) ref(s[j],k)=0.5F; }
		else { size_t k = src.draw(s[j].len); T x = val(); snprintf(name,100,"v%d.settfb(%zu)",j,k); NOTE(name); s[j].v->settfb(k,x); ref(s[j],k)=x; PCHECK(s[j].v->softbit(k)==x,"softbit","softbit() after settfb"); }
		return true; }
	case 1: { // from a plain vector of floats, which gives its block away
		if (s[i].v) { if (s[i].owner) released(s[i].b,i); drop(i); }
		size_t n = sz(); Vector<float> t(n); BP b = fresh(n); for (size_t k=0;k<n;k++) { T x=val(); t[k]=x; b->v[k]=x; }
		snprintf(name,100,"v%d = SoftVector(Vector(%zu))",i,n); NOTE(name);
		s[i].v = new V(t); own(i,b); return true; }
	default: { if (j<0 || i==j) return false;
		if (s[i].v) { if (s[i].owner) { if (refersTo(j,s[i].b)) return false; released(s[i].b,i); } drop(i); }
		snprintf(name,100,"v%d = v%d.alias()",i,j); NOTE(name); s[i].v = new V(s[j].v->alias()); ali(i,s[j],0,s[j].len); return true; }
	}
}
} // namespace

PTEST(vector_int, 30000) { noLeakCase("leak",src,[](Src &s){ Machine<VecTraits> m(s); m.run(); }); }
PTEST(vector_byte, 20000) { noLeakCase("leak",src,[](Src &s){ Machine<ByteTraits> m(s); m.run(); }); }
PTEST(bitvector, 40000) { noLeakCase("leak",src,[](Src &s){ Machine<BitTraits> m(s); m.run(); }); }
PTEST(softvector, 30000) { noLeakCase("leak",src,[](Src &s){ Machine<SoftTraits> m(s); m.run(); }); }

// sizes past 16 bits of elements or octets
template<class V,class T> static void largeVec(Src &src, V &a, V &b, V &whole, T mask) {
	size_t n = 60000+src.draw(20000), m = src.coin() ? src.draw(9) : src.coin() ? 65530+src.draw(10) : src.draw(80000); NOTE(n << " and " << m << " elements of " << sizeof(T));
	auto el = [&](size_t i) { return (T)((long)(i*i/7+i*3) & (long)mask); };
	a.resize(n); b.resize(m); PCHECK(a.size()==n && b.size()==m && a.bytes()==n*sizeof(T),"size","sizes " << a.size() << " and " << b.size()); for (size_t i=0;i<n;i++) a[i]=el(i); for (size_t i=0;i<m;i++) b[i]=el(i+5);
	whole.vConcat(a,b); PCHECK(whole.size()==n+m,"size","the concatenation has " << whole.size() << " elements");
	for (size_t i=0;i<n+m;i++) PCHECK(whole[i]==(i<n ? el(i) : el(i-n+5)),"content","element " << i << " of the concatenation of " << n << " and " << m);
	V c; c.clone(whole); PCHECK(c.size()==n+m && c.isOwner(),"size","the clone has " << c.size() << " elements"); for (size_t i=0;i<n+m;i++) PCHECK(c[i]==whole[i],"content","element " << i << " of the clone of " << n+m);
	size_t at = src.draw(n), len = src.draw(n-at+1); c.fill(el(1),at,len); for (size_t i=0;i<n+m;i++) PCHECK(c[i]==(i>=at&&i<at+len ? el(1) : whole[i]),"content","element " << i << " after filling " << len << " at " << at);
	at = src.draw(m+1); a.copyToSegment(c,at); for (size_t i=0;i<n;i++) PCHECK(c[at+i]==a[i],"content","element " << at+i << " after copying " << n << " elements to " << at); if (at+n<n+m) PCHECK(c[at+n]==c.end()[-(long)(m-at)],"content","the next element");
	whole.segmentCopyTo(a,m,n); for (size_t i=0;i<n;i++) PCHECK(a[i]==whole[m+i],"content","element " << i << " after copying " << n << " elements from " << m);
	c.fill(el(2)); for (size_t i=0;i<n+m;i++) PCHECK(c[i]==el(2),"content","element " << i << " after filling all " << n+m);
}
PTEST_NOFUZZ(large, 90) {
	src.nontrivial();
	switch (src.draw(3)) { case 0: { Vector<int> a, b, w; largeVec<Vector<int>,int>(src,a,b,w,0x7fffffff); break; } case 1: { BitVector a, b, w; largeVec<BitVector,char>(src,a,b,w,1); break; } default: { SoftVector a, b, w; largeVec<SoftVector,float>(src,a,b,w,(float)0xffff); break; } }
}

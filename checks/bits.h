// Helpers for the bit-vector checks: a BitVector under test is often an alias in the middle of a larger guarded one.
#ifndef CHECKS_BITS_H
#define CHECKS_BITS_H
#include "common.h"
#include "BitVector.h"
typedef std::vector<int> Bits;
static inline std::string bstr(const Bits &b) { std::string r; for (int x : b) r += x?'1':'0'; if (r.size()>300) { r.resize(300); r+="..."; } return r+"("+std::to_string(b.size())+")"; }
static inline Bits drawBits(pbt::Src &src, size_t n) {
	Bits b(n); unsigned style = src.draw(4);
	if (style==0) { for (auto &x : b) x = 0; }
	else if (n > 64 && (style==1 || n > 1000)) { for (size_t i=0;i<n;) { uint64_t w = src.draw(0); for (int k=0;k<64 && i<n;k++) b[i++] = (w>>k)&1; } }
	else for (auto &x : b) x = src.draw(2);
	return b;
}
// Sizes past every counter of 8, 16 or 20 bits (of bits, of octets, of digits), and content of them, for the few cases that large.
static inline size_t largeSize(pbt::Src &src) {
	switch (src.draw(4)) { case 0: return 65530+src.draw(20); case 1: return 524280+src.draw(20); case 2: return 262140+src.draw(10); default: return 2000+src.draw(700000); }
}
static inline Bits largeBits(pbt::Src &src, size_t n) {
	Bits b(n); unsigned style = src.draw(4); uint64_t r = src.draw(0)|1; unsigned per = 1+src.draw(9);
	for (size_t i=0;i<n;i++) { if (style==0) b[i]=1; else if (style==1) b[i] = i%(per+1)!=0; else { r = r*6364136223846793005ULL+1442695040888963407ULL; b[i] = (r>>45)&1; if (style==3) b[i] |= (r>>50)&1; } }
	return b;
}
// A vector of n bits, either owning its storage or aliasing the middle of a larger one whose other bits must not change.
struct Guarded {
	BitVector whole; BitVector v; size_t before, after; Bits model; Bits guard;
	Guarded(pbt::Src &src, const Bits &init) : whole(), v(), before(0), after(0), model(init) {
		if (src.coin()) { before = src.draw(20); after = src.draw(20); }
		whole.resize(before+init.size()+after);
		for (size_t i=0;i<whole.size();i++) { int x = i<before||i>=before+init.size() ? (int)((i*7+1)%3==0) : init[i-before]; whole[i]=x; guard.push_back(x); }
		v.dup(whole.segment(before,init.size()));
	}
	void check(const char *sig, const char *what) {
		PCHECK(v.size()==model.size(), sig, what << ": size changed to " << v.size());
		for (size_t i=0;i<model.size();i++)
			PCHECK(v[i]==model[i] && v.bit(i)==(model[i]!=0), sig, what << ": bit " << i << " of " << model.size() << " is " << (int)v[i] << ", expected " << model[i]);
		for (size_t i=0;i<guard.size();i++) if (i<before || i>=before+model.size())
			PCHECK(whole[i]==guard[i], "outside", what << ": bit outside the vector changed, at " << (long)i-(long)before);
	}
};
#endif

// C05: parity words and syndromes against polynomial division.
#include "bits.h"
using namespace pbt;
typedef unsigned __int128 u128;
// remainder of the polynomial whose coefficients are b (first is highest), shifted up by 'shift', divided by g of degree len
static uint64_t polyRem(const Bits &b, unsigned shift, uint64_t low, unsigned len) {
	Bits v(b); v.resize(v.size()+shift,0);
	for (size_t i=0;i+len<v.size();i++) if (v[i]) { v[i]=0; for (unsigned k=0;k<len;k++) v[i+1+k] ^= (low>>(len-1-k))&1; }
	uint64_t r=0; size_t from = v.size()>len ? v.size()-len : 0;
	for (size_t i=from;i<v.size();i++) r = (r<<1)|v[i];
	return r;
}
PTEST(parity, 120000) {
	unsigned len = 1+src.draw(63);
	uint64_t mask = (1ULL<<len)-1, low = (src.biased(len) | 1) & mask;
	if (src.chance(1,6)) { static const struct { uint64_t c; unsigned l; } gsm[] = { {0x10004820009ULL,40},{0x06f,6},{0x0b,3},{0x575,10},{0x14d,8},{0x11021,16} }; unsigned k = src.draw(6); len=gsm[k].l; mask=(1ULL<<len)-1; low=gsm[k].c&mask; }
	bool top = src.coin(); uint64_t coeff = low | (top ? 1ULL<<len : 0);  // the x^len term may be written or left out
	Bits data = drawBits(src,src.size(300)); bool invert = src.coin();
	size_t total = data.size()+len;
	NOTE("generator 0x" << std::hex << coeff << std::dec << " length " << len << " data " << bstr(data) << " invert " << invert);
	Parity par(coeff,len,total);
	PCHECK(par.size()==len,"size","generator length " << par.size());
	uint64_t want = polyRem(data,len,low,len);
	Guarded g(src,data); const BitVector &cd = g.v;
	uint64_t got = cd.parity(par);
	PCHECK(got==want,"parity","parity is 0x" << std::hex << got << " expected 0x" << want);
	PCHECK(par.state()==want,"parity","generator state is 0x" << std::hex << par.state());
	if (data.size()>1) src.nontrivial();
	if (src.chance(1,6)) { // only the lowest bit of each element is the bit
		BitVector odd(data.size()); for (size_t i=0;i<data.size();i++) odd[i] = (char)(data[i] | src.draw(128)<<1); uint64_t p2 = odd.parity(par), s2 = odd.syndrome(par);
		PCHECK(p2==want,"parity","with more than the lowest bit stored in elements, the parity is 0x" << std::hex << p2 << " expected 0x" << want); PCHECK(s2==polyRem(data,0,low,len),"syndrome","with more than the lowest bit stored in elements, the syndrome is 0x" << std::hex << s2); }
	// the codeword: data followed by the parity word
	Bits cw(data); cw.resize(total,0);
	Guarded c(src,cw); BitVector tgt = c.v.tail(data.size());
	par.writeParityWord(cd,tgt,invert);
	uint64_t word = invert ? ~want & mask : want;
	for (unsigned i=0;i<len;i++) c.model[data.size()+i] = (word>>(len-1-i))&1;
	c.check("parityword","codeword after writing the parity word"); g.check("parityword","data after computing parity");
	uint64_t clean = invert ? mask : 0;
	uint64_t syn = par.syndrome(c.v), syn2 = c.v.syndrome(par);
	PCHECK(syn==clean,"syndrome","syndrome of a clean codeword is 0x" << std::hex << syn << " expected 0x" << clean);
	PCHECK(syn2==syn,"syndrome","the two syndrome calls differ");
	// errors
	Bits e(total,0);
	unsigned kind = src.draw(3); size_t at = src.draw(total);
	if (kind==0) e[at]=1;
	else { unsigned bl = 1+src.draw(std::min<size_t>(len,total-at)); for (unsigned i=0;i<bl;i++) e[at+i]=src.draw(2); e[at]=1; e[at+bl-1]=1; }
	if (kind==2) src.label("burst");
	for (size_t i=0;i<total;i++) if (e[i]) c.v[i] ^= 1;
	uint64_t bad = par.syndrome(c.v);
	PCHECK(bad!=clean,"undetected","an error pattern starting at bit " << at << " leaves the syndrome clean");
	PCHECK((bad^clean)==polyRem(e,0,low,len),"syndrome","syndrome of a corrupted codeword is 0x" << std::hex << bad);
	// linear in the data
	Bits d2 = drawBits(src,data.size()), dx(data.size()); d2.resize(data.size()); for (size_t i=0;i<dx.size();i++) dx[i]=data[i]^d2[i];
	BitVector v2(d2.size()), vx(dx.size()); for (size_t i=0;i<dx.size();i++) { v2[i]=d2[i]; vx[i]=dx[i]; }
	PCHECK((got^v2.parity(par))==vx.parity(par),"linear","parity is not linear");
}
// The shift register stepped by hand, with clears in between.
PTEST(shiftregister, 80000) {
	unsigned len = 1+src.draw(63); uint64_t mask = (1ULL<<len)-1, low = (src.biased(len)|1)&mask;
	Generator gen(low | (src.coin()?1ULL<<len:0), len);
	PCHECK(gen.state()==0 && gen.size()==len,"initial","initial state " << gen.state());
	uint64_t st=0; unsigned n = src.size(120); 
	NOTE("generator 0x" << std::hex << low << std::dec << " length " << len << ", " << n << " steps");
	for (unsigned i=0;i<n;i++) {
		unsigned op = src.draw(12), bit = src.draw(2);
		if (op==0) { gen.clear(); st=0; }
		else if (op<6) { gen.syndromeShift(bit); bool fb = (st>>(len-1))&1; st = ((st<<1)|bit)&mask; if (fb) st ^= low; }
		else { gen.encoderShift(bit); bool fb = ((st>>(len-1))^bit)&1; st = (st<<1)&mask; if (fb) st ^= low; }
		PCHECK(gen.state()==st,"state","state 0x" << std::hex << gen.state() << " expected 0x" << st << std::dec << " after step " << i);
	}
	if (n>2) src.nontrivial();
}
PTEST_NOFUZZ(large, 60) {
	size_t n = largeSize(src); Bits b = largeBits(src,n); Guarded g(src,b); unsigned len = 1+src.draw(63); uint64_t mask = ((uint64_t)1<<len)-1, low = (src.draw(0)&mask)|1; src.nontrivial(); NOTE(n << " bits, degree " << len);
	// remainder of b(x) and of b(x)*x^len, one bit at a time
	uint64_t r = 0, top = (uint64_t)1<<(len-1); for (int x : b) { bool fb = r&top; r = ((r<<1)&mask)|x; if (fb) r ^= low; }
	uint64_t w = r; for (unsigned i=0;i<len;i++) { bool fb = w&top; w = (w<<1)&mask; if (fb) w ^= low; }
	Generator gen(low|(uint64_t)1<<len,len); const BitVector &cv = g.v; uint64_t s = cv.syndrome(gen), p = cv.parity(gen);
	PCHECK(s==r,"syndrome","syndrome of " << n << " bits is " << s << " expected " << r); PCHECK(p==w,"parity","parity of " << n << " bits is " << p << " expected " << w); g.check("const","after computing");
}

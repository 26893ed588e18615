// C02: bit fields.
#include "bits.h"
using namespace pbt;
static Bits fieldBits(uint64_t v, unsigned w, bool rev) { // the bits stored for a field, in vector order
	Bits b(w); for (unsigned i=0;i<w;i++) { unsigned k = rev ? i : w-1-i; b[i] = (v>>k)&1; } return b;
}
static uint64_t fieldValue(const Bits &m, size_t at, unsigned w, bool rev) {
	uint64_t v=0; for (unsigned i=0;i<w;i++) { unsigned k = rev ? i : w-1-i; if (m[at+i]) v |= 1ULL<<k; } return v;
}
PTEST(field_history, 200000) {
	Bits init = drawBits(src, src.size(300));
	Guarded g(src, init); const BitVector &cv = g.v; size_t n = init.size();
	size_t wp=0, rp=0;
	NOTE("bits " << bstr(init) << " guard " << g.before << "/" << g.after);
	unsigned ops = 1+src.len(20);
	for (unsigned k=0;k<ops;k++) {
		unsigned op = src.draw(10);
		bool running = op==2||op==3||op==6||op==7||op>=8;
		size_t at = op==2||op==3||op>=8 ? wp : op==6||op==7 ? rp : src.draw(n+1);
		unsigned room = n-at;
		if (running && room==0 && n) { wp = 0; rp = 0; at = 0; room = n; }
		unsigned maxw = room<64?room:64;
		unsigned w = op>=8 ? (room?1:0) : src.chance(1,4) ? maxw : src.draw(maxw+1);
		bool rev = op&1;
		uint64_t v = src.biased(64); if (src.coin() && w<64) v &= (1ULL<<w)-1;
		if (op>=8) { if (!room) continue; v = op-8; }
		if (w==0 && rev && n==0) continue;
		if (op<4 || op>=8) {
			NOTE((op>=8?"write01":running?"write":"fill") << (rev&&op<4?"Reversed":"") << " at " << at << " width " << w << " value 0x" << std::hex << v);
			switch (op) {
			case 0: g.v.fillField(at,v,w); break;
			case 1: g.v.fillFieldReversed(at,v,w); break;
			case 2: g.v.writeField(wp,v,w); break;
			case 3: g.v.writeFieldReversed(wp,v,w); break;
			case 8: g.v.write0(wp); break;
			case 9: g.v.write1(wp); break;
			}
			if (running) { PCHECK(wp==at+w,"index","write index moved from " << at << " to " << wp << " for width " << w); }
			Bits f = fieldBits(v, w, rev && op<4); if (op>=8) f[0]=op-8;
			for (unsigned i=0;i<w;i++) g.model[at+i]=f[i];
			g.check("write","after a field write");
			if (w>32) src.label("wide write");
			if (w<64 && (v>>w)) src.label("oversized value");
			if (w>1) src.nontrivial();
		} else {
			uint64_t got=0; size_t rr = rp;
			switch (op) {
			case 4: got = cv.peekField(at,w); break;
			case 5: got = cv.peekFieldReversed(at,w); break;
			case 6: got = cv.readField(rp,w); break;
			case 7: got = cv.readFieldReversed(rp,w); break;
			}
			uint64_t want = fieldValue(g.model,at,w,rev);
			NOTE((running?"read":"peek") << (rev?"Reversed":"") << " at " << at << " width " << w << " -> 0x" << std::hex << got);
			PCHECK(got==want,"read","read of width " << w << " at " << at << (rev?" reversed":"") << " gave 0x" << std::hex << got << ", expected 0x" << want);
			if (running) PCHECK(rp==rr+w,"index","read index moved from " << rr << " to " << rp << " for width " << w);
			if (w>1) src.nontrivial();
		}
	}
	g.check("read","after reads");
}
// A record of fields written one after another reads back.
PTEST(field_record, 100000) {
	unsigned n = 1+src.len(30); std::vector<unsigned> w; std::vector<uint64_t> v; std::vector<int> rev; size_t total=0;
	for (unsigned i=0;i<n;i++) { unsigned x = src.chance(1,4)?32+src.draw(33):src.draw(33); w.push_back(x); v.push_back(src.biased(64)); rev.push_back(src.chance(1,3)); total+=x; }
	if (!total) return;
	src.nontrivial();
	BitVector b(total); b.zero(); size_t wp=0, rp=0;
	for (unsigned i=0;i<n;i++) { NOTE("field width " << w[i] << " value 0x" << std::hex << v[i] << (rev[i]?" reversed":"")); if (rev[i]) b.writeFieldReversed(wp,v[i],w[i]); else b.writeField(wp,v[i],w[i]); }
	PCHECK(wp==total,"index","write index " << wp << " after " << total << " bits");
	size_t at=0;
	for (unsigned i=0;i<n;i++) {
		uint64_t want = w[i]==64 ? v[i] : v[i] & ((1ULL<<w[i])-1);
		uint64_t got = rev[i] ? b.readFieldReversed(rp,w[i]) : b.readField(rp,w[i]);
		PCHECK(got==want,"roundtrip","field " << i << " of width " << w[i] << " read 0x" << std::hex << got << " expected 0x" << want);
		// the other order is the bit reversal
		uint64_t r = 0; for (unsigned k=0;k<w[i];k++) if ((want>>k)&1) r |= 1ULL<<(w[i]-1-k);
		uint64_t other = rev[i] ? b.peekField(at,w[i]) : b.peekFieldReversed(at,w[i]);
		PCHECK(other==r,"reversal","field " << i << " of width " << w[i] << " in the other order is 0x" << std::hex << other << " expected 0x" << r);
		at += w[i];
		PCHECK(rp==at,"index","read index");
	}
}

// Only the lowest bit of each element is the bit, whatever else was stored there.
PTEST(elements, 20000) {
	size_t n = 1+src.size(100); BitVector v(n); std::vector<int> bits(n); for (size_t i=0;i<n;i++) { int c = src.coin() ? src.draw(2) : src.draw(256); v[i] = (char)c; bits[i] = c&1; if (c>1) src.nontrivial(); }
	const BitVector &cv = v; size_t w = 1+src.draw(std::min<size_t>(n,64)), at = src.draw(n-w+1); uint64_t f = 0, r = 0; unsigned sum = 0; for (size_t i=0;i<w;i++) { f = f<<1|bits[at+i]; r |= (uint64_t)bits[at+i]<<i; } for (int b : bits) sum += b;
	NOTE("field of " << w << " at " << at << " of " << n); size_t rp = at;
	PCHECK(cv.peekField(at,w)==f && cv.readField(rp,w)==f && rp==at+w,"element","the field reads as 0x" << std::hex << cv.peekField(at,w) << ", its lowest bits are 0x" << f);
	PCHECK(cv.peekFieldReversed(at,w)==r,"element","reversed it reads as 0x" << std::hex << cv.peekFieldReversed(at,w) << ", not 0x" << r);
	PCHECK(cv.bit(at)==(bits[at]!=0) && cv.sum()==sum,"element","bit " << at << " is " << cv.bit(at) << " and the sum " << cv.sum() << ", expected " << bits[at] << " and " << sum);
}
PTEST_NOFUZZ(large, 120) {
	size_t n = largeSize(src); Bits b = largeBits(src,n); Guarded g(src,b); const BitVector &cv = g.v; src.nontrivial(); NOTE(n << " bits");
	for (int k=0;k<40;k++) {
		unsigned len = 1+src.draw(64); size_t at = src.coin() ? n-len-src.draw(100) : src.coin() ? (size_t)65530+src.draw(10) : src.draw(n-len+1); if (at>n-len) at = n-len; size_t pos = at; bool rev = src.coin(); uint64_t x = src.draw(0), y = 0;
		for (unsigned i=0;i<len;i++) y |= (uint64_t)g.model[at+i] << (rev ? i : len-1-i);
		uint64_t got = rev ? cv.peekFieldReversed(at,len) : cv.peekField(at,len); PCHECK(got==y,"peek","the " << len << "-bit field at " << at << " of " << n << " reads " << got << " expected " << y);
		if (rev) g.v.writeFieldReversed(pos,x,len); else g.v.writeField(pos,x,len); PCHECK(pos==at+len,"index","index is " << pos << " after writing " << len << " bits at " << at);
		for (unsigned i=0;i<len;i++) g.model[at+i] = (x >> (rev ? i : len-1-i)) & 1; pos = at; uint64_t in = len==64 ? x : x & (((uint64_t)1<<len)-1);
		got = rev ? cv.readFieldReversed(pos,len) : cv.readField(pos,len); PCHECK(got==in && pos==at+len,"read","the " << len << "-bit field written at " << at << " of " << n << " reads " << got << " expected " << in);
	}
	g.check("large","at the end");
}

// C04: whole-vector bit transforms.
#include "bits.h"
using namespace pbt;
PTEST(invert_reverse, 120000) {
	Bits b = drawBits(src, src.size(300)); Guarded g(src,b); size_t n=b.size();
	NOTE("bits " << bstr(b));
	unsigned ops = 1+src.draw(6);
	for (unsigned k=0;k<ops;k++) {
		unsigned op = src.draw(5);
		switch (op) {
		case 0: NOTE("invert"); g.v.invert(); for (auto &x : g.model) x=!x; g.check("invert","after invert"); break;
		case 1: if (n<8) break; NOTE("reverse8"); g.v.reverse8(); for (int i=0;i<4;i++) std::swap(g.model[i],g.model[7-i]); g.check("reverse8","after reverse8"); break;
		case 2: NOTE("LSB8MSB"); g.v.LSB8MSB(); for (size_t o=0;o+8<=n;o+=8) for (int i=0;i<4;i++) std::swap(g.model[o+i],g.model[o+7-i]); g.check("LSB8MSB","after LSB8MSB"); break;
		case 3: { unsigned s=0; for (int x : g.model) s+=x; unsigned got = g.v.sum(); NOTE("sum -> " << got); PCHECK(got==s,"sum","sum is " << got << " expected " << s); break; }
		default: { if (!n) break; size_t a = src.draw(n), m = src.draw(n-a+1); NOTE("invert segment [" << a << ",+" << m << ")"); g.v.segment(a,m).invert(); for (size_t i=0;i<m;i++) g.model[a+i]=!g.model[a+i]; g.check("invert","after inverting a segment"); break; }
		}
	}
	if (n>=8) src.nontrivial();
	if (n>=16 && n%8) src.label("octets and a remainder");
}
PTEST(map_unmap, 120000) {
	size_t n = src.size(200); Bits b = drawBits(src,n); Guarded g(src,b);
	size_t m = src.chance(1,2) ? n : src.draw(n+1), extra = src.draw(5);
	// an injective table: m distinct indices below n
	std::vector<unsigned> all(n); for (size_t i=0;i<n;i++) all[i]=i;
	for (size_t i=0;i+1<n;i++) std::swap(all[i],all[i+src.draw(n-i)]);
	std::vector<unsigned> tab(all.begin(),all.begin()+m);
	NOTE("bits " << bstr(b) << " table of " << m);
	if (m>1) src.nontrivial();
	Guarded d(src, drawBits(src,m+extra));
	const BitVector &cv = g.v;
	cv.map(tab.data(),m,d.v);
	for (size_t i=0;i<m;i++) d.model[i]=b[tab[i]];
	d.check("map","destination after map"); g.check("map","source after map");
	Guarded e(src, drawBits(src,n+src.draw(4)));
	const BitVector &cd = d.v;
	cd.unmap(tab.data(),m,e.v);
	for (size_t i=0;i<m;i++) e.model[tab[i]]=d.model[i];
	e.check("unmap","destination after unmap"); d.check("unmap","source after unmap");
	if (m==n) { for (size_t i=0;i<n;i++) PCHECK(e.v[i]==b[i],"unmap-map","unmap of map differs at " << i); src.label("full permutation"); }
	// a table with repeats, for map only
	if (n) { std::vector<unsigned> t2(src.len(60)); for (auto &x : t2) x = src.draw(n); Guarded f(src,Bits(t2.size(),1)); cv.map(t2.data(),t2.size(),f.v); for (size_t i=0;i<t2.size();i++) f.model[i]=b[t2[i]]; f.check("map","destination after map with repeats"); }
}
PTEST(puncture, 120000) {
	size_t n = src.size(200); Bits b = drawBits(src,n); Guarded g(src,b);
	std::vector<unsigned> p; unsigned den = 2+src.draw(6); for (size_t i=0;i<n;i++) if (src.draw(den)==den-1) p.push_back(i);
	if (src.chance(1,10)) { p.clear(); for (size_t i=0;i<n;i++) p.push_back(i); }
	NOTE("bits " << bstr(b) << " punctured at " << p.size());
	Bits want; { size_t k=0; for (size_t i=0;i<n;i++) { if (k<p.size() && p[k]==i) k++; else want.push_back(b[i]); } }
	Bits start(want.size()); for (size_t i=0;i<start.size();i++) start[i]=!want[i];
	Guarded d(src,start);
	std::vector<unsigned> exact(p); exact.shrink_to_fit();
	g.v.copyPunctured(d.v,exact.data(),exact.size());
	d.model = want; d.check("puncture","destination of punctured copy"); g.check("puncture","source of punctured copy");
	if (p.size() && p.size()<n) src.nontrivial();
	if (p.size() && p[0]==0) src.label("first punctured"); if (p.size() && p.back()==n-1) src.label("last punctured");
}
PTEST(equality, 120000) {
	Bits a = drawBits(src,src.size(200)), b = a; unsigned how = src.draw(4);
	if (how==1 && b.size()) b[src.draw(b.size())] ^= 1;
	else if (how==2) b.resize(src.draw(b.size()+8),0);
	else if (how==3) b = drawBits(src,src.len(20));
	Guarded x(src,a), y(src,b); bool want = a==b;
	NOTE(bstr(a) << " == " << bstr(b));
	const BitVector &cx = x.v, &cy = y.v;
	PCHECK((cx==cy)==want && (cy==cx)==want,"equality","comparison gave " << (cx==cy) << "/" << (cy==cx) << " expected " << want);
	PCHECK(cx==cx,"equality","not equal to itself");
	if (a.size()) { // parts of one vector
		size_t o1 = src.draw(a.size()+1), n1 = src.draw(a.size()-o1+1), o2 = src.coin() ? o1 : src.draw(a.size()+1), n2 = src.coin() && n1<=a.size()-o2 ? n1 : src.draw(a.size()-o2+1);
		BitVector p = x.v.segment(o1,n1), q = x.v.segment(o2,n2); bool w = n1==n2 && std::equal(a.begin()+o1,a.begin()+o1+n1,a.begin()+o2);
		PCHECK((p==q)==w && (q==p)==w,"equality","bits " << o1 << "+" << n1 << " and " << o2 << "+" << n2 << " of one vector compare as " << (p==q));
	}
	if (a.size()>1) src.nontrivial();
	// equality survives transforms done to both, and inverse transforms
	BitVector c; c.clone(x.v); c.invert(); c.invert(); PCHECK(c==cx,"involution","inverted twice is not the original");
	c.LSB8MSB(); c.LSB8MSB(); PCHECK(c==cx,"involution","octet order swapped twice is not the original");
	x.check("equality","after comparison"); y.check("equality","after comparison");
}
PTEST_NOFUZZ(large, 150) {
	size_t n = largeSize(src); Bits b = largeBits(src,n); Guarded g(src,b); src.nontrivial(); NOTE(n << " bits");
	unsigned sum = 0; for (int x : b) sum += x; unsigned got = g.v.sum(); PCHECK(got==sum,"sum","sum of " << n << " bits is " << got << " expected " << sum);
	g.v.invert(); for (auto &x : g.model) x=!x; g.check("invert","after invert");
	g.v.LSB8MSB(); for (size_t o=0;o+8<=n;o+=8) for (int i=0;i<4;i++) std::swap(g.model[o+i],g.model[o+7-i]); g.check("LSB8MSB","after LSB8MSB");
	BitVector c; c.clone(g.v); PCHECK(c==g.v && g.v==c,"equality","a copy of " << n << " bits is not equal");
	size_t at = src.coin() ? n-1-src.draw(9) : src.draw(n); c[at] ^= 1; PCHECK(!(c==g.v) && !(g.v==c),"equality","vectors of " << n << " bits that differ at " << at << " are equal");
	PCHECK(c.head(at)==g.v.head(at) && c.tail(at+1)==g.v.tail(at+1),"equality","parts that do not hold the difference at " << at << " are not equal");
	// a table of that size
	std::vector<unsigned> tab(n); unsigned mul = 2*src.draw(5000)+1; while (true) { size_t x=n, y=mul; while (y) { size_t t=x%y; x=y; y=t; } if (x==1) break; mul += 2; } for (size_t i=0;i<n;i++) tab[i] = (uint64_t)i*mul%n;
	BitVector d(n), e(n); d.zero(); e.zero(); const BitVector &cv = g.v; cv.map(tab.data(),n,d); for (size_t i=0;i<n;i++) PCHECK(d[i]==g.model[tab[i]],"map","bit " << i << " of a map of " << n); const BitVector &cd = d; cd.unmap(tab.data(),n,e); PCHECK(e==cv,"unmap-map","unmap of map of " << n << " bits");
	std::vector<unsigned> p; Bits want; unsigned den = 2+src.draw(40); for (size_t i=0;i<n;i++) if ((i*7+i/den)%den==0) p.push_back(i); else want.push_back(g.model[i]);
	BitVector q(want.size()); g.v.copyPunctured(q,p.data(),p.size()); for (size_t i=0;i<want.size();i++) PCHECK(q[i]==want[i],"puncture","bit " << i << " of " << want.size() << " kept of " << n); g.check("large","at the end");
}

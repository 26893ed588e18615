// C06: soft vectors.
#include "bits.h"
#include <math.h>
using namespace pbt;
static float drawSoft(Src &src) {
	if (src.chance(1,12)) return src.draw(4001)/1000.0F-1.5F;   // noise may take a symbol outside 0..1
	switch (src.draw(6)) { case 0: return 0; case 1: return 1; case 2: return 0.5F; case 3: return 0.5F + (src.coin()?1:-1)*0x1p-24F*(1+src.draw(2)); default: return src.draw(1001)/1000.0F; }
}
static std::vector<float> drawSofts(Src &src, size_t n) {
	std::vector<float> v(n); unsigned style = src.draw(4);
	if (n>1000) { uint64_t r = src.draw(0)|1; for (auto &x : v) { r = r*6364136223846793005ULL+1442695040888963407ULL; unsigned k = r>>40; x = style==0 ? (float)(k&1) : style==1 ? (k&64 ? 1-(k>>8)%40/1000.0F : (k>>8)%40/1000.0F) : k%1001/1000.0F; } return v; }
	for (auto &x : v) x = style==0 ? (float)src.draw(2) : style==1 ? (src.draw(2) ? 1-src.draw(40)/1000.0F : src.draw(40)/1000.0F) : drawSoft(src);
	return v;
}
struct Soft { // a soft vector, possibly in the middle of a larger one
	SoftVector whole, v; size_t before, n; std::vector<float> all;
	static size_t pad(Src &s) { return s.coin() ? s.draw(10) : 0; }
	Soft(Src &src, const std::vector<float> &x) : before(pad(src)), n(x.size()) {
		whole.resize(before+n+before); for (size_t i=0;i<whole.size();i++) { whole[i] = i<before||i>=before+n ? 0.125F*(i%7) : x[i-before]; all.push_back(whole[i]); }
		v = SoftVector(NULL,whole.begin()+before,whole.begin()+before+n);
		// assignment of a soft vector copies; take an alias instead
		pv = new SoftVector(whole.segment(before,n));
	}
	SoftVector *pv;
	~Soft() { delete pv; }
	void check(const char *sig, const char *what) {
		PCHECK(pv->size()==n,sig,what<<": size");
		for (size_t i=0;i<all.size();i++) PCHECK(whole[i]==all[i],sig,what << ": symbol " << (long)i-(long)before << " of " << n << " is " << whole[i] << " expected " << all[i]);
	}
};
PTEST(slice, 120000) {
	Bits b = drawBits(src,src.size(200)); Guarded g(src,b);
	SoftVector s(g.v); NOTE("bits " << bstr(b));
	PCHECK(s.size()==b.size(),"frombits","size " << s.size());
	for (size_t i=0;i<b.size();i++) PCHECK(s[i]==(float)b[i] && s.softbit(i)==(float)b[i],"frombits","symbol " << i << " is " << s[i]);
	BitVector r = s.sliced(); PCHECK(r==g.v,"slice-roundtrip","bits do not survive");
	std::vector<float> f = drawSofts(src,src.size(200)); Soft x(src,f); const SoftVector &cv = *x.pv;
	BitVector h = cv.sliced(); PCHECK(h.size()==f.size(),"slice","size " << h.size());
	for (size_t i=0;i<f.size();i++) { bool w = f[i]>0.5F; PCHECK(h[i]==(char)w && cv.bit(i)==w,"slice","symbol " << f[i] << " slices to " << (int)h[i] << " / " << cv.bit(i)); PCHECK(cv.softbit(i)==f[i],"softbit","softbit " << i); }
	std::ostringstream os; os << cv; std::string p = os.str(); PCHECK(p.size()==f.size(),"print","printed length " << p.size());
	for (size_t i=0;i<f.size();i++) if (f[i]!=0.25F && f[i]!=0.75F) { char w = f[i]<0.25F?'0':f[i]>0.75F?'1':'-'; PCHECK(p[i]==w,"print","symbol " << f[i] << " printed as " << p[i]); }
	x.check("slice","after slicing");
	if (f.size()) src.nontrivial();
	if (f.size() && src.coin()) { size_t k = src.draw(f.size()); float y = drawSoft(src); x.pv->settfb(k,y); x.all[x.before+k]=y; x.check("set","after setting a symbol"); }
	x.pv->unknown(); for (size_t i=0;i<f.size();i++) x.all[x.before+i]=0.5F; x.check("unknown","after unknown()");
	float low=-1, e = x.pv->getEnergy(&low); if (f.size()) PCHECK(e==0 && low==0,"unknown-energy","energy of unknown symbols is " << e << " lowest " << low);
}
PTEST(energy, 120000) {
	std::vector<float> f = drawSofts(src,src.size(300)); Soft x(src,f); const SoftVector &cv = *x.pv; size_t n = f.size();
	double sum=0, low=1, noise=0; for (float y : f) { double e = 2*fabs((double)y-0.5); sum += e; if (e<low) low=e; double d = y<0.5 ? y : y-1.0; noise += d*d; }
	float gl=-1, e = cv.getEnergy(&gl), e2 = cv.getEnergy(), snr = cv.getSNR();
	NOTE(n << " symbols: energy " << e << " lowest " << gl << " snr " << snr);
	double want = n ? sum/n : 0, tol = 2e-7*n; // single-precision sums of n terms
	PCHECK(fabs(e-want) <= 1e-4+tol,"energy","energy " << e << " expected " << want);
	PCHECK(e==e2,"energy","energy depends on asking for the lowest");
	PCHECK(fabs(gl-low) <= 1e-6 || (low==1 && gl>=1),"lowest","lowest symbol energy " << gl << " expected " << low);
	double signal = 0.25*n;
	if (!n) PCHECK(snr==0,"snr","SNR of nothing is " << snr);
	else if (noise*1000 < signal*(0.999-tol)) { PCHECK(snr==999,"snr","SNR of a clean vector is " << snr); src.label("clean"); }
	else if (noise*1000 > signal*(1.001+tol)) PCHECK(fabs(snr-signal/noise) <= (1e-3+tol)*signal/noise,"snr","SNR " << snr << " expected " << signal/noise);
	x.check("const","after measuring");
	if (n>1) src.nontrivial();
}
PTEST(depuncture, 120000) {
	size_t n = src.size(200); std::vector<unsigned> p; unsigned den = 2+src.draw(6);
	for (size_t i=0;i<n;i++) if (src.draw(den)==den-1) p.push_back(i);
	std::vector<float> f = drawSofts(src,n-p.size()); Soft s(src,f), d(src,std::vector<float>(n,7));
	NOTE(f.size() << " symbols into " << n << ", " << p.size() << " unknown");
	std::vector<unsigned> exact(p); exact.shrink_to_fit();
	s.pv->copyUnPunctured(*d.pv,exact.data(),exact.size());
	size_t k=0,j=0; for (size_t i=0;i<n;i++) { if (k<p.size() && p[k]==i) { d.all[d.before+i]=0.5F; k++; } else d.all[d.before+i]=f[j++]; }
	d.check("depuncture","destination of unpunctured copy"); s.check("depuncture","source of unpunctured copy");
	if (p.size() && f.size()) src.nontrivial();
	// puncturing then filling in again gives the original bits except for the unknowns
	Bits b = drawBits(src,n); b.resize(n); BitVector bv(n), pv(n-p.size()); for (size_t i=0;i<n;i++) bv[i]=b[i];
	bv.copyPunctured(pv,exact.data(),exact.size()); SoftVector sv(pv), out(n); sv.copyUnPunctured(out,exact.data(),exact.size());
	k=0; for (size_t i=0;i<n;i++) { bool u = k<p.size() && p[k]==i; if (u) k++; PCHECK(out[i]==(u?0.5F:(float)b[i]),"roundtrip","symbol " << i << " is " << out[i]); }
}

// C23: fixed-point numbers.
#include "common.h"
#include "F16.h"
#include <math.h>
#include <sstream>
using namespace pbt;
typedef __int128 i128;
static const int64_t LO = -2147483648LL, HI = 2147483647LL;
static bool fits(i128 v) { return v>=LO && v<=HI; }
static int32_t raw(Src &src) {
	switch (src.weighted({3,3,2,2,1})) {
	case 0: return (int32_t)src.sbiased(32);
	case 1: return (int32_t)src.range(-40*65536,40*65536);
	case 2: return (int32_t)src.range(-32768,32767)*65536;
	case 3: return (int32_t)src.range(-300,300);
	default: return src.pick(std::vector<int32_t>{0,1,-1,65535,65536,65537,-65535,-65536,-65537,32768,-32768,(int32_t)HI,(int32_t)LO,1<<24,(1<<24)+1});
	}
}
static F16 mk(int32_t r) { F16 x(0); x.raw() = r; return x; }
static float flt(Src &src) {
	switch (src.weighted({3,2,2,1})) { case 0: return (float)src.range(-32767*16,32767*16)/16.0F; case 1: return (float)src.range(-1000000,1000000)/7919.0F; case 2: return (float)src.range(-100,100); default: return (float)src.range(-1000,1000)/1048576.0F; }
}
#define NEAR(GOT,EXACT,SIG,WHAT) do { long double _e = (EXACT); long double _t = 1.0L + fabsl(_e)/8388608.0L; if (fabsl(_e)+_t < 2147483647.0L) { if (fabsl((long double)(GOT)-_e) > _t) PFAIL(SIG, WHAT << " has raw value " << (GOT) << ", exactly " << (double)_e); did = true; } } while(0)
PTEST(arith, 200000) {
	int32_t a = raw(src), b = src.chance(1,6) ? a : raw(src); F16 x = mk(a), y = mk(b); bool did = false; NOTE("raw " << a << " and " << b);
	PCHECK(x.raw()==a && ((const F16&)x).raw()==a,"raw","raw() of " << a << " is " << x.raw());
	// plain forms, in-place forms, and the in-place forms continued
	if (fits((i128)a+b)) { did = true; F16 s = x+y; PCHECK(s.raw()==a+b,"sum",a << " + " << b << " is " << s.raw()); F16 t = x; F16 &r = (t += y); PCHECK(t.raw()==a+b && &r==&t,"sum","+= of " << a << " and " << b << " is " << t.raw()); (t += y) -= y; PCHECK(t.raw()==a+b || !fits((i128)a+b+b),"chain","(t+=y)-=y from " << a+b << " by " << b << " gives " << t.raw()); }
	if (fits((i128)a-b)) { did = true; F16 s = x-y; PCHECK(s.raw()==a-b,"difference",a << " - " << b << " is " << s.raw()); F16 t = x; F16 &r = (t -= y); PCHECK(t.raw()==a-b && &r==&t,"difference","-= of " << a << " and " << b << " is " << t.raw()); }
	{ i128 p = (i128)a*b; int64_t lo = (int64_t)(p>>16); if (fits(lo) && fits(lo+1)) { did = true; F16 s = x*y, t = x; F16 &r = (t *= y); PCHECK((s.raw()==lo || s.raw()==lo+1 || llabs((int64_t)s.raw()-lo)<=1),"product",a << " * " << b << " is " << s.raw() << ", expected " << lo); long double e = (long double)a*b/65536.0L; PCHECK(fabsl(s.raw()-e)<=1,"product",a << " * " << b << " is " << s.raw()); PCHECK(t.raw()==s.raw() && &r==&t,"product","*= gives " << t.raw() << ", * gives " << s.raw()); if ((p&65535)==0) PCHECK(s.raw()==lo,"product","the exact product of " << a << " and " << b << " is " << lo << ", got " << s.raw()); } }
	if (b) { i128 q = ((i128)a<<16)/b; if (fits(q-1) && fits(q+1)) { did = true; F16 s = x/y, t = x; F16 &r = (t /= y); long double e = (long double)a*65536.0L/b; PCHECK(fabsl(s.raw()-e)<=1,"quotient",a << " / " << b << " is " << s.raw() << ", exactly " << (double)e); PCHECK(t.raw()==s.raw() && &r==&t,"quotient","/= gives " << t.raw() << ", / gives " << s.raw()); if (((i128)a<<16)%b==0) PCHECK(s.raw()==(int64_t)q,"quotient","the exact quotient of " << a << " and " << b << " is " << (int64_t)q << ", got " << s.raw()); } }
	PCHECK((x>y)==(a>b) && (x<y)==(a<b) && (x==y)==(a==b),"compare","comparing " << a << " with " << b << " gives > " << (x>y) << " < " << (x<y) << " == " << (x==y));
	// a number with itself
	if (fits((i128)a*2)) { F16 t = x; t += t; PCHECK(t.raw()==2*a,"self","t+=t of " << a << " is " << t.raw()); }
	{ F16 t = x; t -= t; PCHECK(t.raw()==0,"self","t-=t of " << a << " is " << t.raw()); }
	if (a) { F16 t = x; t /= t; PCHECK(t.raw()==65536,"self","t/=t of " << a << " is " << t.raw()); }
	if (fits(((i128)a*a>>16)+1)) { F16 t = x, u = x*x; t *= t; PCHECK(t.raw()==u.raw(),"self","t*=t of " << a << " is " << t.raw() << ", x*x is " << u.raw()); }
	// assignment, its result and chains of it
	F16 d = mk(b), e = mk(raw(src)); F16 got = (d = x); PCHECK(d.raw()==a && got.raw()==a,"assign","assigning " << a << " stored " << d.raw() << " and gave " << got.raw());
	e = d = y; PCHECK(e.raw()==b && d.raw()==b,"assign","e = d = y for " << b << " left e " << e.raw() << " and d " << d.raw());
	d = d; PCHECK(d.raw()==b,"assign","self-assignment changed " << b << " to " << d.raw());
	F16 c(x); PCHECK(c.raw()==a,"copy","copy of " << a << " is " << c.raw());
	PCHECK(fabsl((long double)x.f()-(long double)a/65536.0L)<=fabsl((long double)a/65536.0L)/8388608.0L,"float","f() of raw " << a << " is " << x.f());
	std::ostringstream o, o2; o << x; o2 << x.f(); PCHECK(o.str()==o2.str(),"print",a << " prints as " << o.str());
	if (did && a && b) src.nontrivial();
}
PTEST(convert, 120000) {
	bool did = false; int n = (int)src.range(-32768,32767); F16 i(n), j = mk(raw(src)); PCHECK(i.raw()==n*65536,"int","F16(" << n << ") is " << i.raw());
	F16 g = (j = n); PCHECK(j.raw()==n*65536 && g.raw()==n*65536,"int","= " << n << " stored " << j.raw() << " and gave " << g.raw());
	float f = flt(src); double df = f; F16 x(f), y(df), z = mk(7); F16 h = (z = f); NOTE("int " << n << " float " << f);
	NEAR(x.raw(),(long double)f*65536.0L,"from-float","F16(" << f << "f)"); NEAR(y.raw(),(long double)f*65536.0L,"from-double","F16(" << f << ")");
	PCHECK(z.raw()==x.raw() && h.raw()==x.raw(),"from-float","= " << f << " stored " << z.raw() << " and gave " << h.raw() << ", the constructor " << x.raw());
	double dd = (double)src.range(-1000000000,1000000000)/src.pick(std::vector<double>{30517.578125,65536,1e6,3e7}); F16 w(dd); NEAR(w.raw(),(long double)dd*65536.0L,"from-double","F16(" << dd << ")");
	{ int32_t k = src.chance(1,6) ? (int32_t)src.range(-3,3) : (int32_t)src.range(-(1<<23)+1,(1<<23)-1); F16 t(k/65536.0F); PCHECK(t.raw()==k,"exact-float","the float of raw " << k << " comes back as " << t.raw()); PCHECK(t.f()==k/65536.0F,"exact-float","f() of " << k << " is " << t.f()); }
	int32_t a = raw(src); F16 v = mk(a); float m = src.coin() ? flt(src) : (float)src.range(-8,8)/4; long double em = (long double)a*m;
	NOTE("raw " << a << " with float " << m);
	NEAR((v*m).raw(),em,"times-float",a << " * " << m << "f"); if (fabsl(em)<2147480000.0L) { F16 t = v; F16 &r = (t *= m); PCHECK(t.raw()==(v*m).raw() && &r==&t,"times-float","*= " << m << " gives " << t.raw() << ", * gives " << (v*m).raw()); }
	if (m!=0) { long double eq = (long double)a/m; NEAR((v/m).raw(),eq,"over-float",a << " / " << m << "f"); if (fabsl(eq)<2147480000.0L) { F16 t = v; F16 &r = (t /= m); PCHECK(t.raw()==(v/m).raw() && &r==&t,"over-float","/= " << m << " gives " << t.raw() << ", / gives " << (v/m).raw()); } }
	// with a plain integer operand
	{ int k = (int)src.range(-100,100); long double e = (long double)a*k; NEAR((v*k).raw(),e,"times-int",a << " * " << k); if (k) NEAR((v/k).raw(),(long double)a/k,"over-int",a << " / " << k);
	  if (fits((i128)a+(i128)k*65536)) { PCHECK((v+k).raw()==a+k*65536,"plus-int",a << " + " << k << " is " << (v+k).raw()); F16 t = v; t += k; PCHECK(t.raw()==a+k*65536,"plus-int",a << " += " << k << " is " << t.raw()); }
	  if (fits((i128)a-(i128)k*65536)) { PCHECK((v-k).raw()==a-k*65536,"minus-int",a << " - " << k << " is " << (v-k).raw()); F16 t = v; t -= k; PCHECK(t.raw()==a-k*65536,"minus-int",a << " -= " << k << " is " << t.raw()); } }
	// comparisons with a float, where both are exact
	{ int32_t p = (int32_t)src.range(-(1<<24),1<<24), q = src.chance(1,3) ? p : src.coin() ? (int32_t)(p+src.range(-2,2)) : (int32_t)src.range(-(1<<24),1<<24); F16 t = mk(p); float fq = q/65536.0F; if (abs(q)<=1<<24)
	  PCHECK((t>fq)==(p>q) && (t<fq)==(p<q) && (t==fq)==(p==q),"compare-float","raw " << p << " against the float of " << q << ": > " << (t>fq) << " < " << (t<fq) << " == " << (t==fq));
	  // less than a step apart, and any float at all
	  float g; switch (src.draw(4)) { case 0: g = (p+(float)src.range(-8,8)/8)/65536.0F; break; case 1: g = nextafterf(p/65536.0F,src.coin()?1e9F:-1e9F); break; case 2: g = (float)(p/65536.0*(1+(double)src.range(-9,9)*1e-7)); break; default: g = (float)src.range(-1000000000,1000000000)*(src.coin()?1.0F:1e-7F); if (src.chance(1,8)) g *= 1e20F; }
	  long double e = (long double)g*65536.0L; NOTE("raw " << p << " compared with " << g);
	  PCHECK((t>g)==(p>e) && (t<g)==(p<e) && (t==g)==(p==e),"compare-float","raw " << p << " against " << (double)e << " steps: > " << (t>g) << " < " << (t<g) << " == " << (t==g)); }
	if (did) src.nontrivial();
}

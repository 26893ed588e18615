// C03: packed, hexadecimal and text forms.
#include "bits.h"
#include <sstream>
#include <memory>
using namespace pbt;
static std::vector<unsigned char> packModel(const Bits &b) { std::vector<unsigned char> r((b.size()+7)/8,0); for (size_t i=0;i<b.size();i++) if (b[i]) r[i/8] |= 0x80>>(i%8); return r; }
PTEST(pack, 120000) {
	Bits b = drawBits(src, src.size(400)); Guarded g(src,b); const BitVector &v = g.v;
	NOTE("bits " << bstr(b));
	std::vector<unsigned char> want = packModel(b);
	if (b.size()%8) src.label("partial last byte");
	if (b.size()>1) src.nontrivial();
	std::unique_ptr<unsigned char[]> buf(new unsigned char[want.size()]);      // exact size: an overrun is seen by the sanitizer
	memset(buf.get(),0xEE,want.size());
	v.pack(buf.get());
	for (size_t i=0;i<want.size();i++) PCHECK(buf[i]==want[i],"pack","packed byte " << i << " is " << (int)buf[i] << " expected " << (int)want[i]);
	std::string s = v.packToString();
	PCHECK(s==std::string(want.begin(),want.end()),"packToString","packed string is " << show(s));
	g.check("const","after packing");
	// unpack back, and unpack arbitrary bytes
	Bits zero(b.size(),0); for (size_t i=0;i<zero.size();i++) zero[i]=!b[i];
	Guarded h(src,zero);
	h.v.unpack(buf.get()); h.model = b; h.check("unpack","after unpacking the packed bytes");
	for (size_t i=0;i<want.size();i++) buf[i] = src.draw(256);
	for (size_t i=0;i<b.size();i++) h.model[i] = (buf[i/8]>>(7-i%8))&1;
	h.v.unpack(buf.get()); h.check("unpack","after unpacking arbitrary bytes");
	if (b.size()%8) buf[want.size()-1] &= 0xff << (8-b.size()%8);
	s = h.v.packToString();
	PCHECK(s==std::string(buf.get(),buf.get()+want.size()),"repack","packing unpacked bytes gave " << show(s));
}
PTEST(hex, 120000) {
	size_t n = src.size(100); if (src.chance(3,4)) n *= 4;
	Bits b = drawBits(src, n); Guarded g(src,b); const BitVector &v = g.v;
	NOTE("bits " << bstr(b));
	std::string want; for (size_t i=0;i+4<=n;i+=4) want += "0123456789abcdef"[b[i]*8+b[i+1]*4+b[i+2]*2+b[i+3]];
	std::string got = v.hexstr();
	PCHECK(got==want,"hex","hexstr gave " << got << " expected " << want);
	std::ostringstream os; v.hex(os); PCHECK(os.str()==want,"hex","hex gave " << os.str() << " expected " << want);
	os << ' ' << 26; PCHECK(os.str()==want+" 26","hex-stream","after hex the stream writes twenty-six as " << os.str().substr(want.size()));
	if (n>=8) src.nontrivial();
	std::string in = want; for (char &c : in) if (src.chance(1,3)) c = toupper(c);
	Bits inv(n); for (size_t i=0;i<n;i++) inv[i]=!b[i];
	Guarded h(src,inv);
	unsigned kind = src.draw(4);
	if (n%4) { // the digit of the incomplete group
		unsigned d = src.draw(16), rem = n%4; bool bad = src.chance(1,4); in += bad ? "gGxX -+.\tzh/:@`\n\x80\xff"[src.draw(18)] : (src.coin()?"0123456789ABCDEF":"0123456789abcdef")[d];
		if (bad) { if (src.coin()) in.resize(n/4); else in += src.chars("0123456789abcdef",3); }
		std::unique_ptr<char[]> z(new char[in.size()+1]); strcpy(z.get(),in.c_str()); NOTE("unhex " << show(in));
		bool ok = h.v.unhex(z.get()); if (bad) src.label("not hexadecimal");
		PCHECK(ok==!bad,bad?"unhex-accepts":"unhex","hexadecimal text " << show(in) << (ok?" accepted":" refused") << " for " << n << " bits");
		for (size_t i=0;i<n/4*4;i++) PCHECK(h.v[i]==b[i],"unhex","bit " << i << " after reading " << in);
		if (!bad) for (size_t i=0;i<rem;i++) PCHECK(h.v[n-rem+i]==((d>>(rem-1-i))&1),"unhex-rest","bit " << n-rem+i << ", of the last " << rem << ", is " << (int)h.v[n-rem+i] << " after reading " << in);
		for (size_t i=0;i<n;i++) { PCHECK(h.v[i]==0||h.v[i]==1,"unhex","element " << i << " is " << (int)h.v[i]); h.model[i]=h.v[i]; }
		h.check("unhex","after unhex");
		return;
	}
	if (kind<=1 || in.empty()) {
		if (kind==1) in += src.chars("0123456789abcdefg xyz",5);
		std::unique_ptr<char[]> z(new char[in.size()+1]); strcpy(z.get(),in.c_str());
		NOTE("unhex " << show(in));
		PCHECK(h.v.unhex(z.get()),"unhex","hexadecimal text " << in << " refused");
		h.model = b; h.check("unhex","after unhex");
	} else {
		size_t at = src.draw(in.size()); // one wrong or missing digit
		if (kind==2) in.resize(at); else in[at] = "gGxX -+.\tzh/:@`\n\x80\xff"[src.draw(18)];
		std::unique_ptr<char[]> z(new char[in.size()+1]); strcpy(z.get(),in.c_str());
		NOTE("unhex " << show(in));
		src.label("not hexadecimal");
		PCHECK(!h.v.unhex(z.get()),"unhex-accepts","text " << show(in) << " accepted as hexadecimal for " << n << " bits");
		for (size_t i=0;i<n;i++) { PCHECK(h.v[i]==0||h.v[i]==1,"unhex","element " << i << " is " << (int)h.v[i]); h.model[i]=h.v[i]; }
		h.check("unhex","after refused unhex");
	}
}
PTEST(text, 80000) {
	Bits b = drawBits(src, src.size(300)); Guarded g(src,b);
	std::string want; for (int x : b) want += x?'1':'0';
	std::ostringstream os; os << g.v; NOTE("bits " << bstr(b));
	PCHECK(os.str()==want,"print","printed " << os.str() << " expected " << want);
	BitVector r(want.c_str());
	PCHECK(r.size()==b.size(),"text","text form gave size " << r.size());
	for (size_t i=0;i<b.size();i++) PCHECK(r[i]==b[i],"text","bit " << i << " from text is " << (int)r[i]);
	if (b.size()>1) src.nontrivial();
	std::string odd = want; bool any=false; // other characters count as 0
	for (size_t i=0;i<odd.size();i++) if (src.chance(1,5)) { odd[i] = "2x -a\x31\xb1/O"[src.draw(9)]; any=true; }
	BitVector q(odd.c_str());
	for (size_t i=0;i<odd.size();i++) PCHECK(q[i]==(odd[i]=='1'),"text-other","bit " << i << " from " << show(odd) << " is " << (int)q[i]);
	if (any) src.label("other characters");
}
PTEST_NOFUZZ(large, 120) {
	size_t n = largeSize(src); Bits b = largeBits(src,n); Guarded g(src,b); const BitVector &v = g.v; src.nontrivial(); NOTE(n << " bits");
	std::vector<unsigned char> want = packModel(b); std::unique_ptr<unsigned char[]> buf(new unsigned char[want.size()]); memset(buf.get(),0xEE,want.size());
	v.pack(buf.get()); for (size_t i=0;i<want.size();i++) PCHECK(buf[i]==want[i],"pack","packed byte " << i << " of " << want.size() << " is " << (int)buf[i] << " expected " << (int)want[i]);
	PCHECK(v.packToString()==std::string(want.begin(),want.end()),"packToString","packed string of " << n << " bits");
	Bits inv(b); for (auto &x : inv) x=!x; Guarded h(src,inv); h.v.unpack(buf.get()); h.model = b; h.check("unpack","after unpacking the packed bytes");
	std::string hex; for (size_t i=0;i+4<=n;i+=4) hex += "0123456789abcdef"[b[i]*8+b[i+1]*4+b[i+2]*2+b[i+3]]; std::string got = v.hexstr();
	PCHECK(got==hex,"hex","hexadecimal text of " << n << " bits is " << got.size() << " digits long, or differs");
	std::string digits = hex; if (n%4) { unsigned d=0; for (size_t i=n/4*4;i<n;i++) d = d*2+b[i]; digits += "0123456789abcdef"[d]; } Guarded k(src,inv); bool ok = k.v.unhex(digits.c_str()); PCHECK(ok,"unhex","hexadecimal text of " << n << " bits refused"); k.model = b; k.check("unhex","after unhex");
	std::ostringstream os; os << v; std::string text = os.str(); PCHECK(text.size()==n,"text","printed as " << text.size() << " characters"); for (size_t i=0;i<n;i++) PCHECK(text[i]=='0'+b[i],"text","printed bit " << i << " of " << n);
	BitVector back(text.c_str()); PCHECK(back==v,"text","text of " << n << " bits read back differs");
}

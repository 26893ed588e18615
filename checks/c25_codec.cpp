// C25: base64 and hexadecimal codecs.
#include "common.h"
#include "Utils.h"
#include <memory>
#include <string.h>
using namespace pbt;
static const char *B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string b64(const std::string &s) {
	std::string r; size_t n = s.size();
	for (size_t i=0;i<n;i+=3) { unsigned v = (unsigned char)s[i]<<16; if (i+1<n) v |= (unsigned char)s[i+1]<<8; if (i+2<n) v |= (unsigned char)s[i+2];
		r += B64[v>>18&63]; r += B64[v>>12&63]; r += i+1<n ? B64[v>>6&63] : '='; r += i+2<n ? B64[v&63] : '='; }
	return r;
}
static std::string hx(const std::string &s) { std::string r; for (unsigned char c : s) { r += "0123456789ABCDEF"[c>>4]; r += "0123456789ABCDEF"[c&15]; } return r; }
static std::unique_ptr<char[]> exact(const std::string &s) { std::unique_ptr<char[]> p(new char[s.size()]); memcpy(p.get(),s.data(),s.size()); return p; }
static std::string dec(const std::string &s, const std::string &enc, std::string &err) { auto p = exact(s); std::string e = enc; return decodeToString(p.get(),s.size(),e,err); }
static std::string enc(const std::string &s, const std::string &how, std::string &err) { auto p = exact(s); return encodeToString(p.get(),s.size(),how,err); }
static std::string spaced(Src &src, const std::string &s) { std::string r; for (char c : s) { while (src.chance(1,6)) r += src.pick(std::vector<char>{' ','\n','\t','\r','\v','\f'}); r += c; } while (src.chance(1,4)) r += ' '; return r; }
static std::string data(Src &src) { return src.run("\x01\xff\x80ghi",100) + (src.chance(1,8) ? src.bytes(2000) : src.bytes(40)); }
PTEST(roundtrip, 80000) {
	std::string d = data(src), err; NOTE(show(d)); if (d.size()>1) src.nontrivial();
	std::string b = enc(d,"base64",err); PCHECK(b==b64(d) && err.empty(),"base64-encode","base64 of " << show(d) << " is " << show(b) << " (" << err << "), it should be " << b64(d));
	std::string h = enc(d,src.coin()?"hex":"base16",err); PCHECK(h==hx(d) && err.empty(),"hex-encode","hex of " << show(d) << " is " << show(h) << " (" << err << ")");
	std::string n = enc(d,"binary",err); PCHECK(n==d && err.empty(),"binary","binary encoding of " << show(d) << " is " << show(n));
	std::string r = dec(b,"base64",err); PCHECK(r==d && err.empty(),"base64-decode","base64 " << b << " decodes to " << show(r) << " (" << err << "), not " << show(d));
	for (char &c : h) if (c>='A'&&c<='F'&&src.coin()) c += 32;
	r = dec(h,src.coin()?"hex":"base16",err); PCHECK(r==d && err.empty(),"hex-decode","hex " << h << " decodes to " << show(r) << " (" << err << "), not " << show(d));
	r = dec(d,"binary",err); PCHECK(r==d && err.empty(),"binary","binary decoding of " << show(d) << " is " << show(r));
	std::string sb = spaced(src,b), sh = spaced(src,h);
	r = dec(sb,"base64",err); PCHECK(r==d && err.empty(),"spaces","base64 with spaces " << show(sb) << " decodes to " << show(r) << " (" << err << "), not " << show(d));
	r = dec(sh,"hex",err); PCHECK(r==d && err.empty(),"spaces","hex with spaces " << show(sh) << " decodes to " << show(r) << " (" << err << "), not " << show(d));
	// base64 without its padding still carries the data
	std::string np = b; while (!np.empty() && np[np.size()-1]=='=') np.resize(np.size()-1);
	r = dec(np,"base64",err); PCHECK(r==d,"base64-decode","unpadded base64 " << np << " decodes to " << show(r) << ", not " << show(d));
}
PTEST(damaged, 80000) {
	std::string d = src.bytes(30), err; bool hex = src.coin(); std::string t = hex ? hx(d) : b64(d); NOTE(show(t));
	switch (src.draw(4)) {
	case 0: { size_t i = src.draw(t.size()+1); char c; do { c = (char)src.draw(256); } while (isspace((unsigned char)c) || (hex ? isxdigit((unsigned char)c)!=0 : (isalnum((unsigned char)c)||c=='+'||c=='/'||c=='='))); if ((unsigned char)c>127 && false) break; t.insert(i,1,c);
		src.nontrivial(); NOTE("bad character in " << show(t)); std::string r = dec(t,hex?"hex":"base64",err); PCHECK(!err.empty(),"unreported","the bad character in " << show(t) << " is not reported"); PCHECK(r.size()<=(hex?(t.size()+1)/2:(t.size()+3)/4*3),"length",show(t) << " decodes to " << r.size() << " bytes"); break; }
	case 1: { std::string h = hx(d); h += "0123456789abcdefABCDEF"[src.draw(22)]; src.nontrivial(); h = spaced(src,h); std::string r = dec(h,"hex",err); PCHECK(!err.empty(),"odd","the odd hex text " << show(h) << " is not reported"); PCHECK(r.substr(0,d.size())==d && r.size()<=d.size()+1,"odd","the odd hex text " << show(h) << " decodes to " << show(r)); break; }
	case 2: { std::string b = b64(d); if (b.empty() || b[b.size()-1]!='=') { d += "x"; while (d.size()%3==0) d += "y"; b = b64(d); } b = spaced(src,b) + (src.coin()?" ":"") + (src.chance(1,3) ? src.nastyText(3) : "") + B64[src.draw(64)] + (src.chance(1,3) ? src.bytes(3) : ""); src.nontrivial(); std::string r = dec(b,"base64",err); PCHECK(!err.empty(),"after-end","data after the = in " << show(b) << " is not reported"); PCHECK(r.substr(0,d.size())==d,"after-end",show(b) << " decodes to " << show(r)); break; }
	default: { std::string how = src.coin() ? src.nastyText(8) : src.pick(std::vector<std::string>{"","base32","hex ","base640","bas","Xhex"}); if (how=="hex"||how=="base16"||how=="base64"||how=="binary") src.discard();
		for (auto &c : how) if (!strcasecmp(how.c_str(),"hex")||!strcasecmp(how.c_str(),"base16")||!strcasecmp(how.c_str(),"base64")||!strcasecmp(how.c_str(),"binary")) src.discard(); else (void)c;
		std::string r = dec(t,how,err); PCHECK(!err.empty() && r.empty(),"unknown","decoding as " << show(how) << " gives " << show(r) << " with message " << show(err)); err = ""; r = enc(t,how,err); PCHECK(!err.empty() && r.empty(),"unknown","encoding as " << show(how) << " gives " << show(r) << " with message " << show(err)); }
	}
}
PTEST(anytext, 60000) {
	std::string t = src.coin() ? src.bytes(80) : src.chars("ABab09+/= \n=",60), err; NOTE(show(t)); if (t.size()>1) src.nontrivial();
	std::string r = dec(t,"base64",err); size_t good = 0; bool bad = false, ended = false;
	for (unsigned char c : t) { if (isspace(c)) continue; if (c=='=') { ended = true; continue; } if (ended) { bad = true; continue; } if (c && strchr(B64,c)) good++; else bad = true; }
	PCHECK(err.empty()==!bad || ended,"report","base64 " << show(t) << " gives the message " << show(err));
	if (!bad && good%4!=1) { // well-formed, padded or not: the bits are the data
		std::string want; unsigned acc = 0, nb = 0; for (unsigned char c : t) { if (isspace(c)) continue; if (c=='=') break; acc = acc<<6 | (strchr(B64,c)-B64); nb += 6; if (nb>=8) { nb -= 8; want += (char)(acc>>nb&255); } }
		PCHECK(r==want,"base64-decode","base64 " << show(t) << " decodes to " << show(r) << ", not " << show(want)); }
	err = ""; r = dec(t,"hex",err); bool hb = false; size_t n = 0; for (unsigned char c : t) { if (isspace(c)) continue; n++; if (!isxdigit(c)) hb = true; }
	PCHECK(err.empty()==(!hb && n%2==0),"report","hex " << show(t) << " gives the message " << show(err)); PCHECK(r.size()==(n+1)/2 || hb,"length","hex " << show(t) << " decodes to " << r.size() << " bytes");
}

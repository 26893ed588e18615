// C24: URL encoding.
#include "common.h"
#include "URLEncode.h"
#include <string.h>
using namespace pbt;
static int hexv(char c) { return c>='0'&&c<='9' ? c-'0' : c>='A'&&c<='F' ? c-'A'+10 : c>='a'&&c<='f' ? c-'a'+10 : -1; }
static const char *UNRESERVED = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.!~'()";
PTEST(url, 150000) {
	std::string in;
	switch (src.weighted({3,2,2,1})) { case 0: in = src.bytes(40); break; case 1: in = src.nastyText(60); break; case 2: in = src.chars("ab09-_.!~'() %+&=/?*",40); break; default: in = src.bytes(3000); }
	in += src.run("a/ b\xff%");
	NOTE(show(in));
	std::string out = URLEncode(in), keep = in; NOTE(" -> " << show(out));
	std::string back; size_t esc = 0;
	for (size_t i=0;i<out.size();i++) {
		char c = out[i];
		if (c=='%') { PCHECK(i+2<out.size() && hexv(out[i+1])>=0 && hexv(out[i+2])>=0,"bad-escape",show(in) << " gives " << show(out)); back += (char)(hexv(out[i+1])*16+hexv(out[i+2])); i += 2; esc++; }
		else { PCHECK(c && (strchr(UNRESERVED,c) || c=='*'),"unsafe",show(in) << " gives " << show(out) << " with an unsafe character"); back += c; }
	}
	if (esc) src.nontrivial();
	PCHECK(back==keep,"round-trip",show(in) << " gives " << show(out) << ", which decodes to " << show(back));
	size_t unres = 0; for (char c : in) if (c && strchr(UNRESERVED,c)) unres++;
	size_t star = 0; for (char c : in) if (c=='*') star++;
	PCHECK(out.size()<=unres+3*(in.size()-unres) && out.size()+2*star>=unres+3*(in.size()-unres),"left-alone",show(in) << " gives " << show(out) << ": unreserved text was changed");
	PCHECK(URLEncode(in+in)==out+out,"concat","the encoding of a text depends on what is around it: " << show(in));
}

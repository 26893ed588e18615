// C13: key=value parsing and hashed strings.
#include "cfg.h"
#include "twin.h"
using namespace pbt;
static std::string item(Src &src) {
	switch (src.weighted({5,2,2,1,2})) {
	case 4: return src.chars("abcK",2)+"="+std::to_string((long)src.sbiased(64))+(src.chance(1,4)?"x":"");
	case 0: return src.chars("abcK",2)+"="+src.chars("xyz019=",5);
	case 1: return src.nastyText(10);
	case 2: return src.chars("abc",3);
	default: { std::string k = src.nastyText(6); return k+"="+src.nastyText(10); }
	}
}
static void kvBody(Src &src) {
	SimpleKeyValue kv; std::map<std::string,std::string> m; std::vector<std::string> keys;
	auto model = [&](const std::string &s) { size_t e = s.find('='); if (e!=std::string::npos) { m[s.substr(0,e)] = s.substr(e+1); keys.push_back(s.substr(0,e)); } };
	size_t n = 1+src.len(10);
	for (size_t i=0;i<n;i++) {
		if (keys.size() && src.chance(1,8)) { std::string s = cfg::twin(src,keys[src.draw(keys.size())]," =")+"="+src.chars("xyz",3); NOTE("addItem " << show(s)); kv.addItem(s.c_str()); model(s); }
		else if (src.coin()) { std::string s = item(src); NOTE("addItem " << show(s)); kv.addItem(s.c_str()); model(s); }
		else { std::string all; size_t k = src.len(6); for (size_t j=0;j<k;j++) { if (j) all += std::string(1+(src.chance(1,4)?src.draw(3):0),' '); all += item(src); } if (src.chance(1,5)) all += " ";
			NOTE("addItems " << show(all)); kv.addItems(all.c_str());
			size_t at = 0; while (true) { size_t e = all.find(' ',at); model(all.substr(at,e==std::string::npos?e:e-at)); if (e==std::string::npos) break; at = e+1; } }
		std::string q = !keys.empty()&&src.chance(3,4) ? keys[src.draw(keys.size())] : src.nastyText(4);
		keys.push_back(q);
	}
	if (m.size()>1) src.nontrivial();
	for (auto &k : keys) {
		const char *g = kv.get(k.c_str()); auto p = m.find(k);
		if (p==m.end()) { PCHECK(!g,"ghost","get(" << show(k) << ") gave " << show(g) << ", nothing was assigned");
			try { std::string s = kv.getStrOrBust(k.c_str()); PFAIL("ghost","getStrOrBust(" << show(k) << ") gave " << show(s)); } catch (SimpleKeyValueException &e) { PCHECK(std::string(e.what()).find(k)!=std::string::npos,"exception-text","exception says " << show(e.what())); }
			try { long v = kv.getNumOrBust(k.c_str()); PFAIL("ghost","getNumOrBust(" << show(k) << ") gave " << v); } catch (SimpleKeyValueException&) {}
			bool valid = true; PCHECK(kv.getNum(k.c_str(),valid)==0 && !valid,"ghost","getNum of the missing " << show(k) << " is valid"); }
		else { PCHECK(g && p->second==g,"value","get(" << show(k) << ") gave " << (g?show(g):"nothing") << ", expected " << show(p->second));
			PCHECK(kv.getStrOrBust(k.c_str())==p->second,"value","getStrOrBust(" << show(k) << ")");
			long w = atol(p->second.c_str()); bool valid = true;
			PCHECK(kv.getNumOrBust(k.c_str())==w && kv.getNum(k.c_str(),valid)==w && valid,"number","number at " << show(k) << " is " << kv.getNumOrBust(k.c_str()) << ", expected " << w); }
	}
}
PTEST(keyvalue, 60000) { noLeakCase("leak",src,kvBody); }
PTEST(hash, 80000) {
	std::string a = src.nastyText(30), b = src.coin() ? a : src.nastyText(30);
	if (a.size() && src.chance(1,4)) { b = a; size_t i = src.draw(a.size()); b[i] = (char)(32+src.draw(95)); if (b!=a) { src.nontrivial(); PCHECK(HashString(a).hash()!=HashString(b).hash(),"collision","the texts " << show(a) << " and " << show(b) << ", different in one character, share a hash"); } }
	HashString x(a), y(b.c_str()), z; NOTE(show(a) << " " << show(b));
	PCHECK(std::string(x)==a && std::string(y)==b,"text","a hashed string changed its text");
	if (a==b) PCHECK(x.hash()==y.hash(),"equal-hash","equal text with different hashes " << x.hash() << " " << y.hash());
	PCHECK((x==y)==(x.hash()==y.hash()) && (x<y)==(x.hash()<y.hash()) && (x>y)==(x.hash()>y.hash()),"compare","comparisons of " << x.hash() << " and " << y.hash() << " are == " << (x==y) << " < " << (x<y) << " > " << (x>y));
	PCHECK((x==y)+(x<y)+(x>y)==1,"order","not exactly one of ==, <, > holds");
	switch (src.draw(4)) { case 0: z = b; break; case 1: z = b.c_str(); break; case 2: z = y; break; default: z = HashString(b); }
	PCHECK(z.hash()==y.hash() && std::string(z)==b,"assign-hash","assigning " << show(b) << " gives text " << show(z) << " hash " << z.hash() << ", expected " << y.hash());
	switch (src.draw(3)) { case 0: z = a; break; case 1: z = a.c_str(); break; default: z = x; }
	PCHECK(z.hash()==x.hash() && std::string(z)==a,"assign-hash","reassigning " << show(a) << " gives hash " << z.hash() << ", expected " << x.hash());
	HashString e, e2(""); PCHECK(e.hash()==e2.hash(),"equal-hash","the empty strings differ");
	// short plain texts of one length are told apart
	auto ch = [&]{ unsigned c = src.draw(96); return c<95 ? (char)(32+c) : (char)0; };
	size_t n = 1+src.draw(4); std::string p, q; for (size_t i=0;i<n;i++) { p += ch(); q += ch(); }
	if (src.coin()) { q = p; size_t i = src.draw(n); q[i] = ch(); }
	if (p!=q) { src.nontrivial(); PCHECK(HashString(p).hash()!=HashString(q).hash(),"collision","the short texts " << show(p) << " and " << show(q) << " share a hash"); }
}

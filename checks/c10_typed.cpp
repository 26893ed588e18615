// C10: typed configuration reads.
#include "cfg.h"
#include <memory>
#include <math.h>
using namespace pbt;
struct World { cfg::Db db; std::unique_ptr<ConfigurationTable> t;
	World(ConfigurationKeyMap s = ConfigurationKeyMap()) { env::setTime(1500000000); t.reset(new ConfigurationTable(db.name.c_str(),0,s)); } };
static std::string sp(Src &src) { return std::string(src.chance(1,3)?src.len(4):0,' '); }
// A number written in some base, with its value.
static std::string number(Src &src, int64_t v) {
	uint64_t a = v<0 ? -(uint64_t)v : v; char b[80];
	static const char *f[] = { "%llu","0x%llx","0X%llX","0%llo" };
	snprintf(b,sizeof b,f[src.weighted({4,2,1,2})],(unsigned long long)a);
	return std::string(v<0?"-":src.chance(1,6)?"+":"")+b;
}
static void store(World &w, Src &src, const std::string &k, const std::string &v) {
	switch (src.draw(2)) {
	case 0: PCHECK(w.t->set(k,v),"set-refused","set " << show(v)); if (src.coin()) w.t->purge(); break;
	case 1: w.db.exec("INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING) VALUES (%Q,%Q)",k.c_str(),v.c_str()); w.t->purge(); break;
	}
}
static void numbersBody(Src &src) {
	ConfigurationKeyMap schema; std::string def = src.coin() ? "17" : cfg::valueText(src);
	schema["D"] = ConfigurationKey("D",def,"",ConfigurationKey::CUSTOMER,ConfigurationKey::STRING_OPT,"",false,"");
	World w(schema);
	size_t n = 1+src.len(12);
	for (size_t i=0;i<n;i++) switch (src.weighted({5,4,3,2,2,2})) {
	case 0: { int64_t v = src.sbiased(64); std::string lead = sp(src), trail = src.chance(1,4)?src.chars(" xyz.,;gG",4):""; std::string s = lead+number(src,v)+trail;
		if (!trail.empty()) src.label("trailing text");
		store(w,src,"N",s); NOTE("N = " << show(s)); src.nontrivial();
		for (int r=0;r<2;r++) { long g = w.t->getNum("N"); PCHECK(g==v,"getNum","getNum of " << show(s) << " gave " << g << ", expected " << v); }
		PCHECK(w.t->getBool("N")==(v!=0),"getBool","getBool of " << show(s));
		PCHECK(w.t->getStr("N")==s,"getStr","getStr of " << show(s) << " gave " << show(w.t->getStr("N"))); break; }
	case 1: { std::string s = cfg::valueText(src); store(w,src,"N",s); NOTE("N = " << show(s));
		long want = strtol(s.c_str(),0,0), g = w.t->getNum("N"); PCHECK(g==want,"getNum","getNum of " << show(s) << " gave " << g << ", expected " << want);
		float fw = strtof(s.c_str(),0), fg = w.t->getFloat("N"); PCHECK(fg==fw||(isnan(fg)&&isnan(fw)),"getFloat","getFloat of " << show(s) << " gave " << fg << ", expected " << fw);
		PCHECK(w.t->getStr("N")==s,"getStr","getStr of " << show(s) << " gave " << show(w.t->getStr("N")));
		if (s.empty()) PCHECK(w.t->getBool("N")==false,"getBool","getBool of the empty text");
		break; }
	case 2: { double v = (double)src.sbiased(40) / (1<<src.draw(20)); char b[80]; snprintf(b,sizeof b,src.coin()?"%.*f":"%.*e",(int)src.draw(12),v); if (src.chance(1,4)) { static const char *far[] = { "1e60","-1e60","3.5e38","3.4028235e38","1e-50","1e-45","-7e-46","1e-40","0x1.8p3","0x1p-149","inf","-INF","nan","infinity","123456789012345678901234567890","0.000000000000000000000000000000000000000000001","16777217","1e400","1e-400","-0.0",".5","5.","1e+2","1E2" }; snprintf(b,sizeof b,"%s",far[src.draw(24)]); }
		std::string s = sp(src)+b+(src.chance(1,5)?" dB":"");
		store(w,src,"F",s); float g = w.t->getFloat("F"), want = strtof(b,0); NOTE("F = " << show(s) << " -> " << g); src.nontrivial();
		PCHECK((g==want && std::signbit(g)==std::signbit(want)) || (isnan(g) && isnan(want)),"getFloat","getFloat of " << show(s) << " gave " << g << ", expected " << want); break; }
	case 3: { int64_t v = src.sbiased(64); NOTE("set N " << v); PCHECK(w.t->set("N",(long)v),"set-refused","set"); if (src.coin()) w.t->purge(); PCHECK(w.t->getNum("N")==v,"set-number","set " << v << " reads as " << w.t->getNum("N")); break; }
	case 4: { std::string k = src.coin()?"missing":"not "+src.nastyText(20); // a missing key
		if (w.t->keyDefinedInSchema(k)) break;
		for (int h=0;h<7;h++) try {
			switch (h) { case 0: w.t->getStr(k); break; case 1: w.t->getNum(k); break; case 2: w.t->getFloat(k); break; case 3: w.t->getBool(k); break; case 4: w.t->getVector(k); break; case 5: w.t->getVectorOfStrings(k); break; case 6: w.t->getVectorLength(k); break; }
			PFAIL("missing-key","typed read " << h << " of the missing key " << show(k) << " returned a value");
		} catch (ConfigurationTableKeyNotFound &e) { PCHECK(e.key()==k,"exception-key","the exception carries " << show(e.key()) << " instead of " << show(k)); }
		break; }
	case 5: { long want = strtol(def.c_str(),0,0); PCHECK(w.t->getNum("D")==want,"default","getNum of the default " << show(def) << " gave " << w.t->getNum("D"));
		PCHECK(w.t->getStr("D")==def,"default","getStr of the default " << show(def)); break; }
	}
	w.t.reset(); w.db.closeOthers();
}
PTEST(numbers, 16000) { noLeakCase("leak",src,numbersBody); }
static void vectorsBody(Src &src) {
	World w; size_t rounds = 1+src.len(6);
	for (size_t r=0;r<rounds;r++) {
		bool words = src.coin(); std::vector<std::string> ws; std::vector<unsigned> ns; std::string s = sp(src);
		size_t n = src.len(12);
		for (size_t i=0;i<n;i++) {
			std::string x;
			if (words) { do x = src.nastyText(12); while (false); std::string y; for (char c : x) if (c!=' ') y+=c; x = y.empty()?"w":y; }
			else { unsigned v = src.biased(32); ns.push_back(v); x = number(src,v); if (x[0]=='+') x = x.substr(1); }
			ws.push_back(x); s += x; if (i+1<n) s += " "+sp(src);
		}
		s += sp(src);
		store(w,src,"V",s); NOTE("V = " << show(s));
		if (n>1) src.nontrivial();
		std::vector<std::string> gs = w.t->getVectorOfStrings("V");
		PCHECK(gs.size()==n,"vector-size","text vector of " << show(s) << " has " << gs.size() << " entries, expected " << n);
		for (size_t i=0;i<n;i++) PCHECK(gs[i]==ws[i],"vector","entry " << i << " of " << show(s) << " is " << show(gs[i]) << ", expected " << show(ws[i]));
		PCHECK(w.t->getVectorLength("V")==n,"vector-size","vector length of " << show(s) << " is " << w.t->getVectorLength("V") << ", expected " << n);
		if (!words) { std::vector<unsigned> g = w.t->getVector("V"); PCHECK(g==ns,"vector","numbers of " << show(s) << ": entry mismatch");  }
		PCHECK(w.t->getStr("V")==s,"value-changed","reading the vector changed the text to " << show(w.t->getStr("V")));
	}
	w.t.reset(); w.db.closeOthers();
}
PTEST(vectors, 16000) { noLeakCase("leak",src,vectorsBody); }

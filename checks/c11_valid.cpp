// C11: value validation, by construction of values each declared type allows or clearly does not.
#include "cfg.h"
extern ConfigurationTable gConfig;
#include <memory>
using namespace pbt;
typedef ConfigurationKey CK;
static std::string ip(Src &s) { std::string r; for (int i=0;i<4;i++) r += (i?".":"")+std::to_string(s.coin()?s.draw(256):(uint64_t)(s.coin()?0:255)); return r; }
static std::string badIp(Src &s) {
	switch (s.draw(8)) {
	case 0: { std::string r; int at=s.draw(4); for (int i=0;i<4;i++) r += (i?".":"")+std::to_string(i==at?256+s.draw(1000):s.draw(256)); return r; }
	case 1: return "1.2.3"; case 2: return "1.2.3.4.5"; case 3: return ""; case 4: return "host.name"; case 5: return "1.2.3.x"; case 6: return ip(s)+"."; default: return "-"+ip(s);
	}
}
static std::string host(Src &s) { if (s.coin()) return ip(s); std::string r = s.chars("abcXYZ019.-_",20); return r.empty()?"h":r; }
static std::string badHost(Src &s) { std::string r = s.chars("abcXYZ019.-_",10); r.insert(s.draw(r.size()+1),1," /@!$%*()+,;=?~\"'\\\n"[s.draw(19)]); return r; }
static std::string port(Src &s) { switch (s.draw(3)) { case 0: return std::to_string(1+s.draw(65535)); case 1: return s.coin()?"1":"65535"; default: return std::to_string(1+s.draw(100)); } }
static std::string badPort(Src &s) { switch (s.draw(6)) { case 0: return "0"; case 1: return "65536"; case 2: return std::to_string(65536+s.draw(1ull<<34)); case 3: return "-"+std::to_string(1+s.draw(70000)); case 4: return ""; default: return "http"; } }
struct Val { std::string v; bool ok; };
static CK mk(CK::Type t, const std::string &valid, const std::string &def="") { return CK("K",def,"",CK::CUSTOMER,t,valid,false,"d"); }
static bool optional(CK::Type t) { return t==CK::CHOICE_OPT||t==CK::CIDR_OPT||t==CK::FILEPATH_OPT||t==CK::HOSTANDPORT_OPT||t==CK::IPADDRESS_OPT||t==CK::MIPADDRESS_OPT||t==CK::PORT_OPT||t==CK::REGEX_OPT||t==CK::STRING_OPT; }
// Draws the type, the valid-values text and a value with its verdict.
static std::string fmtFloat(Src &s, double v) { char b[60]; snprintf(b,sizeof b,"%.*f",(int)(1+s.draw(4)),v); return b; }
static void draw(Src &src, CK::Type &type, std::string &valid, std::vector<Val> &vals) {
	static const CK::Type types[] = { CK::BOOLEAN,CK::CHOICE,CK::CIDR,CK::FILEPATH,CK::HOSTANDPORT,CK::IPADDRESS,CK::IPANDPORT,CK::MIPADDRESS,CK::PORT,CK::REGEX,CK::STRING,CK::VALRANGE,
		CK::CHOICE_OPT,CK::CIDR_OPT,CK::FILEPATH_OPT,CK::HOSTANDPORT_OPT,CK::IPADDRESS_OPT,CK::MIPADDRESS_OPT,CK::PORT_OPT,CK::REGEX_OPT,CK::STRING_OPT };
	type = types[src.draw(21)]; valid = "";
	size_t n = 1+src.len(6);
	auto add = [&](bool ok, const std::string &v) { vals.push_back(Val{v,ok}); };
	if (optional(type)) add(true,"");
	switch (type) {
	case CK::BOOLEAN:
		for (size_t i=0;i<n;i++) switch (src.draw(4)) { case 0: add(true,"0"); break; case 1: add(true,"1"); break; case 2: { static const char *b[] = {"2","-1","01","10","true","yes","","1 "," 0","0.0","00"}; add(false,b[src.draw(11)]); break; } default: { std::string x = src.nastyText(5); add(x=="0"||x=="1",x); } }
		break;
	case CK::CHOICE: case CK::CHOICE_OPT: {
		std::vector<std::string> cs; size_t k = 1+src.len(6);
		for (size_t i=0;i<k;i++) { std::string c = src.chars("abAB01._ -",8); if (c.empty()) c = "c"+std::to_string(i); cs.push_back(c);
			valid += (i?",":"")+c; if (src.coin()) valid += "|"+src.chars("abc de:f;.()|",12); }
		for (size_t i=0;i<n;i++) {
			std::string x;
			switch (src.draw(5)) {
			case 0: case 1: x = cs[src.draw(k)]; break;
			case 2: x = cs[src.draw(k)]; if (src.coin()) x = x.substr(0,src.draw(x.size())); else x += "x"; break;
			case 3: { size_t a = src.draw(valid.size()), b = src.draw(valid.size()-a+1); x = valid.substr(a,b); break; }
			default: x = src.nastyText(8);
			}
			bool ok = false; for (auto &c : cs) ok = ok || c==x;
			if (x.empty() && optional(type)) ok = true;
			add(ok,x);
		} break; }
	case CK::CIDR: case CK::CIDR_OPT:
		for (size_t i=0;i<n;i++) switch (src.draw(6)) {
			case 0: case 1: add(true,ip(src)+"/"+std::to_string(src.draw(33))); break;
			case 2: add(false,ip(src)+"/"+std::to_string(33+src.draw(src.coin()?3:100000000))); break;
			case 3: add(false,badIp(src)+"/"+std::to_string(src.draw(33))); break;
			case 4: add(false,ip(src)+(src.coin()?"":"/-1")); break;
			default: add(false,src.coin()?"/24":"24"); }
		break;
	case CK::FILEPATH: case CK::FILEPATH_OPT:
		for (size_t i=0;i<n;i++) { std::string x = src.chars("abcXYZ019/_.-",30); if (x.empty()) { if (type==CK::FILEPATH) add(false,""); continue; }
			if (src.coin()) add(true,x); else { x.insert(src.draw(x.size()+1),1," *?!@#$%^&()+=~`'\"\\|;:<>,\n\t"[src.draw(27)]); add(false,x); } }
		break;
	case CK::HOSTANDPORT: case CK::HOSTANDPORT_OPT:
		for (size_t i=0;i<n;i++) switch (src.draw(5)) {
			case 0: case 1: add(true,host(src)+":"+port(src)); break;
			case 2: add(false,badHost(src)+":"+port(src)); break;
			case 3: add(false,host(src)+":"+badPort(src)); break;
			default: add(false,src.coin()?host(src):":"+port(src)); }
		break;
	case CK::IPADDRESS: case CK::IPADDRESS_OPT:
		for (size_t i=0;i<n;i++) if (src.coin()) add(true,ip(src)); else { std::string x = badIp(src); add(x.empty()&&optional(type),x); }
		break;
	case CK::IPANDPORT:
		for (size_t i=0;i<n;i++) switch (src.draw(5)) {
			case 0: case 1: add(true,ip(src)+":"+port(src)); break;
			case 2: add(false,badIp(src)+":"+port(src)); break;
			case 3: add(false,ip(src)+":"+badPort(src)); break;
			default: add(false,src.coin()?ip(src):":"+port(src)); }
		break;
	case CK::MIPADDRESS: case CK::MIPADDRESS_OPT:
		for (size_t i=0;i<n;i++) { std::string x; bool ok = true; size_t k = 1+src.len(5);
			for (size_t j=0;j<k;j++) { if (j) x += " ";
				switch (src.weighted({6,4,1,1,1})) { case 0: x += ip(src); break; case 1: x += ip(src)+":"+port(src); break; case 2: x += badIp(src)+":"+port(src); ok=false; break; case 3: x += ip(src)+":"+badPort(src); ok=false; break; default: { std::string b = badIp(src); x += b.empty()?"nohost":b; ok=false; } } }
			if (!ok && src.coin()) x.insert(src.draw(x.size()+1),1+src.draw(2),' ');   // what is no address stays none
			add(ok,x); }
		break;
	case CK::PORT: case CK::PORT_OPT:
		for (size_t i=0;i<n;i++) if (src.coin()) add(true,port(src)); else { std::string x = badPort(src); add(x.empty()&&optional(type),x); }
		break;
	case CK::REGEX: case CK::REGEX_OPT: {
		static const char *good[] = { "abc","^[0-9]+$","(a|b)*","a{2,3}","\\.","[[:alpha:]]+","a?b+c*","^$","[^a]","()","." };
		static const char *bad[] = { "(","[a","(a","[[:nosuch:]]","a{3,2}","a\\","[z-a]","((a)" };
		for (size_t i=0;i<n;i++) if (src.coin()) { std::string x = good[src.draw(11)]; if (src.coin()) x += src.chars("abc.x0",6); add(true,x); } else add(false,bad[src.draw(8)]);
		break; }
	case CK::STRING: case CK::STRING_OPT: {
		int p = src.draw(5); static const char *pats[] = { "^[0-9]{3}$","^[a-zA-Z0-9]+$","","abc","^(yes|no)$" }; valid = pats[p];
		for (size_t i=0;i<n;i++) {
			std::string x; switch (src.draw(4)) { case 0: x = src.chars("0123456789",p==0?5:10); break; case 1: x = src.chars("abcABC09",10); break; case 2: { static const char *w[] = {"yes","no","abc","123","xabcx","yesno","ab","abc\n","12"}; x = w[src.draw(9)]; break; } default: x = src.nastyText(10); }
			bool ok = true;
			if (p==0) { ok = x.size()==3; for (char c : x) ok = ok && isdigit((unsigned char)c); }
			if (p==1) { ok = !x.empty(); for (unsigned char c : x) ok = ok && c<128 && isalnum(c); }
			if (p==3) ok = x.find("abc")!=std::string::npos;
			if (p==4) ok = x=="yes"||x=="no";
			if (x.empty() && optional(type)) ok = true;
			add(ok,x);
		} break; }
	case CK::VALRANGE:
		if (src.coin()) {
			int64_t a = src.sbiased(31), b = src.sbiased(31); if (a>b) std::swap(a,b);
			valid = std::to_string(a)+":"+std::to_string(b); if (src.chance(1,3)) valid += "("+std::to_string(1+src.draw(src.coin()?10:1000000000))+")";
			for (size_t i=0;i<n;i++) { int64_t v = src.weighted({2,1,1,2})==0 ? a+(int64_t)src.draw(b-a+1) : src.coin() ? a-1+(int64_t)src.draw(3) : src.coin() ? b-1+(int64_t)src.draw(3) : src.sbiased(32);
				if (v<INT32_MIN||v>INT32_MAX) { if (b<INT32_MAX && a>INT32_MIN) add(false,std::to_string(v)); continue; }
				add(a<=v&&v<=b,std::to_string(v));
				if (src.chance(1,4)) add(false,std::to_string(v)+".0");
				if (src.chance(1,4)) { std::string x = src.chars("abcXYZ !",4)+std::to_string(v); if (x!=std::to_string(v)) add(false,"x"+x); } }
		} else {
			double a = (double)src.sbiased(16)/8, b = (double)src.sbiased(16)/8; if (a>b) std::swap(a,b);
			char buf[120]; snprintf(buf,sizeof buf,"%.*f:%.*f",3+(src.chance(1,3)?(int)src.draw(25):0),a,3+(src.chance(1,3)?(int)src.draw(25):0),b); valid = buf; if (src.chance(1,3)) valid += "(0.1)";
			for (size_t i=0;i<n;i++) { double v = src.coin() ? (double)src.sbiased(16)/8 : src.coin() ? a : b; int k = (int)src.draw(3); if (k==1) v -= 0.125; if (k==2) v += 0.125;
				snprintf(buf,sizeof buf,"%.*f",3+(src.chance(1,3)?(int)src.draw(25):0),v); add(a<=v&&v<=b,buf);
				if (src.chance(1,4)) { snprintf(buf,sizeof buf,"%d",(int)v); add(a<=(int)v&&(int)v<=b,buf); }
				if (src.chance(1,4)) add(false,std::string("abc")); }
		}
		add(false,"");
		break;
	}
}
static void validBody(Src &src) {
	env::setTime(1500000000);
	CK::Type type; std::string valid; std::vector<Val> vals; draw(src,type,valid,vals);
	ConfigurationKeyMap schema; schema["K"] = mk(type,valid,"dflt"); schema["Other"] = CK("Other","1","",CK::CUSTOMER,CK::BOOLEAN,"",false,"d");
	cfg::Db db; std::unique_ptr<ConfigurationTable> t(new ConfigurationTable(db.name.c_str(),0,schema));
	size_t keys = t->mSchema.size();
	NOTE("type " << CK::typeToString(type) << ", valid values " << show(valid));
	if (vals.size()>1) src.nontrivial();
	for (auto &v : vals) {
		bool r = t->isValidValue("K",v.v); NOTE(show(v.v) << " -> " << r);
		PCHECK(r==v.ok,v.ok?"valid-refused":"invalid-accepted",CK::typeToString(type) << " with valid values " << show(valid) << (r?" accepts ":" refuses ") << show(v.v));
		char *e; errno=0; long k = strtol(v.v.c_str(),&e,10);
		if (!v.v.empty() && !*e && k>=INT32_MIN && k<=INT32_MAX && std::to_string(k)==v.v) PCHECK(t->isValidValue("K",(int)k)==v.ok,"int-form","the number " << k << " is judged unlike its text");
		if (src.chance(1,4)) { std::string u = "Unknown"+src.nastyText(6); PCHECK(!t->isValidValue(u,v.v),"unknown-key","a value for the unknown key " << show(u) << " was accepted"); }
	}
	PCHECK(t->mSchema.size()==keys,"schema-changed","validation changed the schema from " << keys << " to " << t->mSchema.size() << " keys");
	PCHECK(t->mSchema["K"].getValidValues()==valid && t->mSchema["K"].getDefaultValue()=="dflt","schema-changed","validation changed the entry");
	PCHECK(t->getStr("K")=="dflt" && db.rows("SELECT * FROM CONFIG").empty(),"value-changed","validation changed the table");
	t.reset(); db.closeOthers();
}
PTEST(values, 30000) { noLeakCase("leak",src,validBody); }
PTEST(helpers, 20000) {
	std::string a = ip(src), b = badIp(src);
	PCHECK(CK::isValidIP(a),"isValidIP",show(a) << " refused"); PCHECK(!CK::isValidIP(b),"isValidIP",show(b) << " accepted");
	std::string lo = src.coin()?std::to_string(src.sbiased(20)):fmtFloat(src,(double)src.sbiased(20)/16), hi = src.coin()?std::to_string(src.sbiased(20)):fmtFloat(src,(double)src.sbiased(20)/16), st = std::to_string(src.draw(50));
	bool s = src.coin(); std::string spec = lo+":"+hi+(s?"("+st+")":"");
	std::string mn="?",mx="?",sg="?"; CK::getMinMaxStepping(mk(CK::VALRANGE,spec),mn,mx,sg);
	NOTE(spec << " -> " << mn << " " << mx << " " << sg); src.nontrivial();
	PCHECK(mn==lo && mx==hi && sg==(s?st:"1"),"stepping","range " << spec << " splits into " << mn << ", " << mx << ", " << sg);
	// the library's own schema holds defaults that are valid by its own rules
	if (src.chance(1,50)) { for (auto &k : gConfig.mSchema) PCHECK(gConfig.isValidValue(k.first,k.second.getDefaultValue()),"own-default","the default of " << k.first << " is not valid"); }
}

// C09: one configuration table shared by several threads under drawn schedules; every history must be explained by some
// order of its operations on a plain map, and the database must end as that order leaves it.
#include "cfg.h"
#include "ds.h"
#include "lin.h"
#include "Logger.h"
#include <memory>
#include <new>
#include <set>
#include <algorithm>
#include <string.h>
using namespace pbt; using ds::Quiet;
extern ConfigurationTable gConfig;
namespace {
const char *KEYS[] = { "App.One","App.Two","x.a","x.ab","Log.Alarms.Max" }; const int NK = 5;
const char *DEFS[] = { "7 7 7","8 8 8",0,0,"20" };
std::string text(int v) { std::string n = std::to_string(v); return n+" "+n+" "+n; }
struct St { std::string v[NK]; bool in[NK]; St() { for (bool &b : in) b = false; }
	std::string key() const { std::string k; for (int i=0;i<NK;i++) k += (in[i] ? "="+v[i] : std::string("-"))+";"; return k; }
	bool has(int k) const { return in[k] || DEFS[k]; } std::string get(int k) const { return in[k] ? v[k] : DEFS[k] ? DEFS[k] : ""; } };
typedef lin::Op<St> Op;
struct NullBuf : std::streambuf { int overflow(int c) { return c==EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) { return n; } } nullBuf;
struct Run {
	std::vector<Op> ops; uint64_t clock; unsigned together, open;
	Run():clock(0),together(0),open(0) {}
	size_t begin() { Quiet z; ops.emplace_back(); ops.back().call = ++clock; ops.back().ret = UINT64_MAX; ops.back().apply = [](St&) { return true; }; if (open++) together++; return ops.size()-1; }
	void end(size_t o, const std::string &t, std::function<bool(St&)> f) { ops[o].ret = ++clock; ops[o].apply = f; ops[o].text = t; open--; NOTE("thread " << ds::self() << ": " << t); }
	// the value as a typed read gives it; "\1" when it is not found
	template<class F> void read(const char *what, int k, F f, std::string (*conv)(const std::string&)) {
		size_t o = begin(); std::string r; try { r = f(); } catch (ConfigurationTableKeyNotFound &e) { r = "\1"; std::string kk = e.key(); Quiet z; PCHECK(kk==KEYS[k],"not-found-key","the not-found error for " << KEYS[k] << " names " << show(kk)); }
		Quiet z; std::string res = r; end(o,std::string(what)+" "+KEYS[k]+" -> "+(res=="\1"?"not found":show(res)),[k,res,conv](St &s) { return s.has(k) ? res==conv(s.get(k)) : res=="\1"; }); }
	void step(int op, int k, int v, ConfigurationTable &t) {
		switch (op) {
		case 0: case 1: { std::string val = k==4 ? std::to_string(1+v%30) : text(v); size_t o = begin(); bool r = t.set(KEYS[k],val); Quiet z; end(o,std::string("set ")+KEYS[k]+" to "+val+" -> "+(r?"true":"false"),[=](St &s) { s.in[k] = true; s.v[k] = val; return r; }); break; }
		case 2: { long n = k==4 ? 1+v%30 : v; size_t o = begin(); bool r = t.set(KEYS[k],n); Quiet z; end(o,std::string("set ")+KEYS[k]+" to "+std::to_string(n)+" -> "+(r?"true":"false"),[=](St &s) { s.in[k] = true; s.v[k] = std::to_string(n); return r; }); break; }
		case 3: { size_t o = begin(); bool r = t.remove(KEYS[k]); Quiet z; end(o,std::string("remove ")+KEYS[k]+" -> "+(r?"true":"false"),[=](St &s) { bool h = s.in[k]; s.in[k] = false; return r==h; }); break; }
		case 4: read("getStr",k,[&]{ return t.getStr(KEYS[k]); },[](const std::string &x) { return x; }); break;
		case 5: read("getNum",k,[&]{ return std::to_string(t.getNum(KEYS[k])); },[](const std::string &x) { return std::to_string(atol(x.c_str())); }); break;
		case 6: read("getFloat",k,[&]{ return std::to_string((long)t.getFloat(KEYS[k])); },[](const std::string &x) { return std::to_string(atol(x.c_str())); }); break;
		case 7: read("getBool",k,[&]{ return std::string(t.getBool(KEYS[k])?"yes":"no"); },[](const std::string &x) { return std::string(atol(x.c_str())?"yes":"no"); }); break;
		case 8: read("getVector",k,[&]{ std::string r; for (unsigned u : t.getVector(KEYS[k])) r += std::to_string(u)+" "; return r; },[](const std::string &x) { return x+" "; }); break;
		case 9: read("getVectorOfStrings",k,[&]{ std::string r; for (auto &u : t.getVectorOfStrings(KEYS[k])) r += u+" "; return r; },[](const std::string &x) { return x+" "; }); break;
		case 10: { size_t o = begin(); bool r = t.defines(KEYS[k]); Quiet z; end(o,std::string("defines ")+KEYS[k]+" -> "+(r?"true":"false"),[=](St &s) { return r==s.has(k); }); break; }
		case 11: { size_t o = begin(); t.purge(); Quiet z; end(o,"purge",[](St &) { return true; }); break; }
		case 12: { size_t o = begin(); ConfigurationRecordMap m = t.getAllPairs(); Quiet z; std::map<std::string,std::string> g; for (auto &p : m) g[p.first] = p.second.value(); std::string show_; for (auto &p : g) show_ += p.first+"="+p.second+"; "; end(o,"getAllPairs -> "+show_,[g](St &s) { std::map<std::string,std::string> w; for (int i=0;i<NK;i++) if (s.in[i]) w[KEYS[i]] = s.v[i]; return w==g; }); break; }
		case 13: { static const char *P[] = { "x.a","App","x.ab","" }; std::string p = P[v%4]; size_t o = begin(); std::ostringstream os; t.find(p,os); Quiet z; std::multiset<std::string> g; std::istringstream is(os.str()); std::string l; while (std::getline(is,l)) g.insert(l); end(o,"find "+p+" -> "+show(os.str()),[g,p](St &s) { std::multiset<std::string> w; for (int i=0;i<NK;i++) if (s.in[i] && strstr(KEYS[i],p.c_str())) w.insert(std::string(KEYS[i])+" "+s.v[i]); return w==g; }); break; }
		case 14: { bool d = t.keyDefinedInSchema(KEYS[k]), st = t.isStatic(KEYS[k]); Quiet z; PCHECK(d==(DEFS[k]!=0) && st==(k==1),"schema","the schema forgot about " << KEYS[k]); break; }
		case 15: { bool a = t.isValidValue("App.One","17"), b = t.isValidValue("App.One","170"); Quiet z; PCHECK(a && !b,"schema","validity of App.One"); break; }
		case 16: { std::ostringstream &s = Log(LOG_ALERT).get(); (void)s; break; }    // an alarm looks its limit up in the table
		case 17: { ConfigurationKeyMap m = t.getSimilarKeys("App."); Quiet z; PCHECK(m.size()==2,"schema","similar keys"); break; }
		case 18: ds::pass(v%7==0 ? 3100 : v*17%900); break;
		case 19: { std::list<std::string> l = gGetLoggerAlarms(); Quiet z; PCHECK(l.size()<=30,"alarms","alarm list"); break; } } }
};
cfg::Db *theDb;
}
PTEST(shared, 50000) {
	struct Step { int op, k, v; }; int nt = 2+src.draw(3), nk = 1+src.draw(NK); std::vector<std::vector<Step> > progs(nt); int val = 100;
	bool wild = src.chance(1,4); int initial = src.draw(1<<NK);
	for (auto &p : progs) { size_t n = 1+src.draw(5); for (size_t i=0;i<n;i++) { int op = wild ? src.weighted({2,1,1,2,2,1,1,1,1,1,2,2,2,2,1,1,3,1,2,2}) : src.weighted({5,0,1,3,6,1,0,0,2,1,2,1,2,1,0,0,0,0,1,0}); int k = src.draw(nk); p.push_back({ op, k, op<3 ? ++val : (int)src.draw(40) }); } }
	if (!theDb) { Untracked u; theDb = new cfg::Db; }
	struct Restore { std::streambuf *o; Restore():o(std::cerr.rdbuf(&nullBuf)) {} ~Restore() { std::cerr.rdbuf(o); env::virtualTime = false; } } restore;
	static int64_t day = 1700000000; day += 100; env::setTime(day,0);
	theDb->exec("DROP TABLE IF EXISTS CONFIG");
	ConfigurationKeyMap sc; sc["App.One"] = ConfigurationKey("App.One","7 7 7","",ConfigurationKey::CUSTOMER,ConfigurationKey::VALRANGE,"0:100",false,"one"); sc["App.Two"] = ConfigurationKey("App.Two","8 8 8","",ConfigurationKey::CUSTOMER,ConfigurationKey::STRING,"",true,"two");
	gConfig.~ConfigurationTable(); theDb->closeOthers(); new (&gConfig) ConfigurationTable(theDb->name.c_str(),0,sc);
	St st; for (int k=0;k<NK;k++) if (initial>>k&1) { st.in[k] = true; st.v[k] = k==4 ? "5" : text(k+50); gConfig.set(KEYS[k],st.v[k]); } if (src.coin()) gConfig.purge();
	Run r;
	ds::run(src,[&]{
		for (auto &p : progs) ds::spawn([&r,p]{ for (auto &s : p) r.step(s.op,s.k,s.v,gConfig); });
		ds::joinAll();
		for (int k=0;k<NK;k++) r.step(4,k,0,gConfig);                 // what the table says at last
		Quiet z; size_t o = r.begin(); std::map<std::string,std::string> g; for (auto &row : theDb->rows("SELECT KEYSTRING,VALUESTRING FROM CONFIG")) { PCHECK(!g.count(row[0]),"database","two rows for " << row[0]); g[row[0]] = row[1]; }
		std::string t; for (auto &p : g) t += p.first+"="+p.second+"; "; r.end(o,"the database holds "+t,[g](St &s) { std::map<std::string,std::string> w; for (int i=0;i<NK;i++) if (s.in[i]) w[KEYS[i]] = s.v[i]; return w==g; });
		lin::Check<St> c(r.ops); if (!c.ok(st)) { std::string t = "\n    initially "+st.key(); for (auto &o : r.ops) t += "\n    "+std::to_string(o.call)+".."+std::to_string(o.ret)+" "+o.text; PFAIL("history","no order of the operations explains what they returned:" << t); } });
	if (r.together>1) src.nontrivial(); if (ds::switches()>20) src.label("switching");
}

// C28, shared: level checks and log statements of several threads while the levels change, under drawn schedules.
#include "logkit.h"
#include "ds.h"
using namespace pbt; using ds::Quiet;
namespace {
struct NullBuf : std::streambuf { int overflow(int c) { return c==EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) { return n; } } nullBuf;
int num(const std::string &v) { int n = logkit::levelNumber(v); return n<0 ? 5 : n; }
}
PTEST(shared, 6000) {
	struct Step { int op, file, level, val; }; int nt = 2+src.draw(3); std::vector<std::vector<Step> > progs(nt);
	static const char *vals[] = { "EMERG","ALERT","CRIT","ERR","WARNING","NOTICE","INFO","DEBUG","","LOUD" };
	bool unknown = src.chance(1,3);
	for (auto &p : progs) { size_t n = 1+src.draw(6); for (size_t i=0;i<n;i++) { Step s; s.op = src.weighted({5,4,3,2,1,1,2,1}); s.file = src.draw(3); s.level = src.draw(8); s.val = src.draw(unknown?10:9); p.push_back(s); } }
	static int64_t day = 1600000000; day += 1000; env::setTime(day,0);
	struct Off { std::streambuf *o; Off():o(std::cerr.rdbuf(&nullBuf)) {} ~Off() { std::cerr.rdbuf(o); env::captureSyslog = false; env::syslogs.clear(); env::virtualTime = false; } } off;
	logkit::resetConfig(); { std::string a = gConfig.getStr("Log.Alarms.Max"); }
	for (int k=0;k<4;k++) if (src.coin()) gConfig.set(k<3 ? std::string("Log.Level.")+logkit::files[k] : std::string("Log.Level"),vals[src.draw(8)]);
	logkit::flushLevelCache();
	// every value a key has had since, and what was asked to be logged
	std::set<std::string> had[4]; for (int k=0;k<4;k++) { std::string key = k<3 ? std::string("Log.Level.")+logkit::files[k] : std::string("Log.Level"); had[k].insert(gConfig.defines(key) ? gConfig.getStr(key) : std::string()); }
	auto may = [&](int f) { std::set<int> r; bool fall = false; for (auto &v : had[f]) if (v.size()) r.insert(num(v)); else fall = true; if (fall) for (auto &v : had[3]) r.insert(v.size() ? num(v) : 5); for (auto &v : had[f]) if (v=="LOUD") r.insert(5); return r; };
	auto allows = [&](int f, int level, bool on) { for (int l : may(f)) if ((l>=level)==on) return true; return false; };
	env::captureSyslog = true; env::syslogs.clear(); int serial = 0; unsigned changes = 0, checks = 0;
	auto sent = [&](const std::string &m) { int n = 0; for (auto &e : env::syslogs) if (e.text.size()>=m.size() && e.text.compare(e.text.size()-m.size(),m.size(),m)==0) n++; return n; };
	ds::run(src,[&]{
		for (auto &p : progs) ds::spawn([&,p]{ for (auto &s : p) switch (s.op) {
			case 0: { std::string m; { Quiet z; m = "<message "+std::to_string(serial++)+">"; } int ev = 0, line = 0; logkit::stmt(s.file,s.level,m,ev,line); Quiet z; checks++; int n = sent(m); NOTE("thread " << ds::self() << ": statement of level " << s.level << " in " << logkit::files[s.file] << (n?" is":" is not") << " logged");
				PCHECK(n==ev && n<=1,"evaluated","a message was put together " << ev << " times and logged " << n << " times"); PCHECK(allows(s.file,s.level,n>0),"level","a statement of level " << s.level << " in " << logkit::files[s.file] << (n?" was":" was not") << " logged, which no level it has had explains"); break; }
			case 1: { bool on = s.val&1 ? logkit::enabled(s.file,s.level) : gGetLoggingLevel(logkit::files[s.file])>=s.level; Quiet z; checks++; PCHECK(allows(s.file,s.level,on),"level","level " << s.level << " in " << logkit::files[s.file] << (on?" is":" is not") << " enabled, which no level it has had explains"); break; }
			case 2: case 3: { int k = s.op==2 ? s.file : 3; std::string key = k<3 ? std::string("Log.Level.")+logkit::files[k] : std::string("Log.Level"), v = vals[s.val]; if (k==3 && v.empty()) v = "INFO"; { Quiet z; had[k].insert(v); if (v=="LOUD") had[k].insert("NOTICE"); changes++; NOTE("thread " << ds::self() << ": sets " << key << " to " << show(v)); } bool r = gConfig.set(key,v); Quiet z; PCHECK(r,"set","a set failed"); break; }
			case 4: { int k = s.file; { Quiet z; had[k].insert(""); changes++; } gConfig.remove(std::string("Log.Level.")+logkit::files[k]); break; }
			case 5: gConfig.purge(); break;
			case 6: { Quiet z; NOTE("thread " << ds::self() << ": a thousand checks"); logkit::flushLevelCache(); break; }
			case 7: ds::pass(s.val*700); break; } });
		ds::joinAll();
		// once more than a thousand checks have been made after the last change, the levels are what the table says
		Quiet z; logkit::flushLevelCache();
		for (int f=0;f<3;f++) { auto stored = [&](const std::string &key) { auto r = logkit::db().rows("SELECT VALUESTRING FROM CONFIG WHERE KEYSTRING='"+key+"'"); return r.size() ? r[0][0] : std::string(); };
			std::string v = stored(std::string("Log.Level.")+logkit::files[f]), d = stored("Log.Level"); int want = v.size() ? num(v) : d.size() ? num(d) : 5; int got = gGetLoggingLevel(logkit::files[f]);
			PCHECK(got==want,"final-level","the level of " << logkit::files[f] << " ends as " << got << ", the table says " << show(v) << ", by default " << show(d)); } });
	if (changes && checks) src.nontrivial();
}

// C30: report counters account for every increment and maximum, whatever their names, across lock faults and reopening.
#include "cfg.h"
#include "Reporting.h"
#include "Logger.h"
extern ConfigurationTable gConfig;
#include <new>
#include <memory>
using namespace pbt;
// The committer thread is not run here; the harness commits.
static void *(*gTask)(void*);
extern "C" int __wrap_pthread_create(pthread_t *t, const pthread_attr_t*, void *(*f)(void*), void *) { gTask = f; *t = (pthread_t)1; return 0; }
ReportingTable gReports(":memory:");
struct Ctr { bool exists, wild, maxer; uint64_t value, pending; int64_t cleared, updLo, updHi; Ctr():exists(false),wild(false),maxer(false),value(0),pending(0),cleared(0),updLo(0),updHi(0){} };
static cfg::Db *gDb; static int gUnlockAfter; static bool gLocked;
static void unlockNow() { sqlite3_exec(gDb->h,"ROLLBACK",0,0,0); gLocked=false; }
static void slept() { if (gLocked && gUnlockAfter>0 && --gUnlockAfter==0) unlockNow(); }
static int64_t secs() { return env::nowNs/1000000000LL; }
static std::string name(Src &src) { switch (src.weighted({6,3,1})) { case 0: { static const char *n[] = { "a","b","Call.Count","a.1","a.2","b.1" }; return n[src.draw(6)]; } case 1: return cfg::keyText(src); default: return src.nastyText(src.chance(1,4)?2500:250); } }
static unsigned index(Src &src) { static const unsigned x[] = { 0,1,2,9,10,99,1000000000u,4294967295u,4294967294u,123456789u }; return src.coin() ? src.draw(4) : x[src.draw(10)]; }
struct Quiet { std::ostringstream s; std::streambuf *o; Quiet() { o = std::cerr.rdbuf(s.rdbuf()); } ~Quiet() { std::cerr.rdbuf(o); env::onSleep = 0; gLocked = false; env::captureSyslog = false; env::syslogs.clear(); } };
// Alarms sent since the last call, those that name what (if anything is asked for) counted.
static int alarms(const std::string &what) { int n = 0; for (auto &l : env::syslogs) if ((l.pri&7)<=LOG_CRIT && l.text.find(what)!=std::string::npos) n++; env::syslogs.clear(); return n; }
static void open(std::unique_ptr<ReportingTable> &t, cfg::Db &db) { Untracked u; gTask = 0; env::syslogs.clear(); t.reset(new ReportingTable(db.name.c_str())); PCHECK(gTask!=0,"no-committer","opening the table started no committer"); int n = 0; for (auto &l : env::syslogs) n += (l.pri&7)<=LOG_CRIT; PCHECK(!n,"false-alarm","opening the table went well, with an alarm"); }
static void body(Src &src) {
	Quiet q; env::captureSyslog = true; env::syslogs.clear(); env::setTime(1500000000+(int64_t)src.draw(100000),(int64_t)src.draw(1000000000));
	cfg::Db db; gDb = &db; gLocked = false; gUnlockAfter = 0; env::onSleep = slept;
	std::unique_ptr<ReportingTable> t; open(t,db);
	std::map<std::string,Ctr> m; unsigned faults = 0, work = 0;
	auto verify = [&](const char *when) {
		auto rows = db.rows("SELECT NAME,VALUE,CLEAREDTIME,UPDATETIME FROM REPORTING");
		size_t have = 0; for (auto &c : m) if (c.second.exists) have++;
		for (auto &r : rows) { auto it = m.find(r[0]); PCHECK(it!=m.end() && it->second.exists,"invented-counter","the table holds " << show(r[0]) << ", never created, after " << when);
			Ctr &c = it->second; if (c.wild) continue;
			PCHECK(r[1]==std::to_string(c.value),"value","after " << when << " counter " << show(r[0].substr(0,80)) << " holds " << r[1] << ", expected " << c.value << " (not yet committed: " << c.pending << ")");
			PCHECK(r[2]==std::to_string(c.cleared),"cleared-time","counter " << show(r[0].substr(0,80)) << " was cleared at " << r[2] << ", expected " << c.cleared);
			int64_t u = atoll(r[3].c_str()); PCHECK(u>=c.updLo && u<=c.updHi,"update-time","counter " << show(r[0].substr(0,80)) << " was updated at " << u << ", expected " << c.updLo << ".." << c.updHi); }
		PCHECK(rows.size()==have,"counter-missing","after " << when << " the table holds " << rows.size() << " counters of " << have); };
	// what a counter's row holds now (value, cleared), to see whether a call that met a lock took effect
	auto stored = [&](const std::string &n) { sqlite3_stmt *s; std::vector<std::string> r; sqlite3_prepare_v2(db.h,"SELECT VALUE,CLEAREDTIME FROM REPORTING WHERE NAME=?",-1,&s,0); sqlite3_bind_text(s,1,n.data(),n.size(),SQLITE_TRANSIENT); if (sqlite3_step(s)==SQLITE_ROW) for (int i=0;i<2;i++) r.push_back((const char*)sqlite3_column_text(s,i)); sqlite3_finalize(s); return r; };
	auto created = [&](const std::string &n, int64_t at) { Ctr &c = m[n]; if (!c.exists) { c.exists = true; c.value = 0; c.cleared = at; c.updLo = c.updHi = 0; c.wild = c.pending>0; } };
	for (unsigned k = src.draw(4);k;k--) { std::string f = name(src); int64_t at = secs(); PCHECK(t->create(f.c_str()),"create-failed","create failed"); NOTE("create " << show(f.substr(0,60))); created(f,at); }
	size_t n = src.draw(4); n = 1+n*src.draw(6)+src.len(40);
	for (size_t i=0;i<n;i++) {
		env::nowNs += 1000000LL*src.draw(3000);
		bool was = gLocked; std::string k = name(src); unsigned ix = index(src); bool indexed = src.chance(1,3);
		if (src.chance(2,3) && m.size()) { auto it = m.begin(); std::advance(it,src.draw(m.size())); k = it->first; indexed = false; }
		std::string full = indexed ? k+"."+std::to_string(ix) : k; std::string shown = show(full.substr(0,60)); int64_t before = secs(); env::syslogs.clear();
		#define ALARM(R,NAME) do { int _n = alarms((R)?"":(NAME)); if (!(R)) PCHECK(_n,"no-alarm","a call about " << shown << " failed and no alarm names it"); else if (!was) PCHECK(!_n,"false-alarm","a call about " << shown << " succeeded with an alarm"); } while (0)
		switch (src.weighted({6,12,5,3,8,2,2,2,1,2})) {
		case 0: { bool r = t->create(full.c_str()); NOTE("create " << shown << " -> " << r); bool had = m[full].exists; ALARM(r,full);
			PCHECK(r || was,"create-failed","create of " << shown << " failed with no lock held");
			if (gLocked && !had) PCHECK(!r,"create-result","create returned true under a lock");
			if (r) { auto s = stored(full); PCHECK(s.size(),"create-lost","create of " << shown << " returned true but stored nothing"); created(full,atoll(s[1].c_str())); if (!had) PCHECK(m[full].cleared>=before && m[full].cleared<=secs(),"cleared-time","creation time " << m[full].cleared << " at " << before); }
			else if (!gLocked && !had && stored(full).size()) PFAIL("create-result","create of " << shown << " returned false although it stored it");
			break; }
		case 1: { Ctr &c = m[full]; if (c.maxer) break; unsigned times = src.chance(1,6) ? (src.chance(1,4) ? src.size(3000,100000) : src.draw(300)) : 1+src.draw(3); NOTE("incr " << shown << " x" << times);
			for (unsigned j=0;j<times;j++) { bool r = indexed ? t->incr(k.c_str(),ix) : t->incr(full.c_str()); PCHECK(r,"incr-result","incr returned false"); }
			c.pending += times; if (c.exists) work++; break; }
		case 2: { Ctr &c = m[full]; if (c.pending || (c.exists && !c.maxer && c.value)) break; unsigned v = (unsigned)src.biased(32); bool r = indexed ? t->max(k.c_str(),ix,v) : t->max(full.c_str(),v); NOTE("max " << shown << " " << v << " -> " << r); ALARM(r,full);
			PCHECK(r || was,"max-failed","max failed with no lock held"); if (gLocked) PCHECK(!r,"max-result","max returned true under a lock");
			if (r && c.exists) { c.maxer = true; c.value = std::max<uint64_t>(c.value,v); c.updLo = before; c.updHi = secs(); work++; }
			break; }
		case 3: { bool r = indexed ? t->clear(k.c_str(),ix) : t->clear(full.c_str()); NOTE("clear " << shown << " -> " << r); ALARM(r,full); Ctr &c = m[full];
			PCHECK(r || was,"clear-failed","clear failed with no lock held"); if (gLocked) PCHECK(!r,"clear-result","clear returned true under a lock");
			if (r) { c.pending = 0; if (c.exists) { c.value = 0; c.updLo = c.updHi = 0; c.wild = false; c.maxer = false; auto s = stored(full); PCHECK(s.size(),"counter-missing","clear removed " << shown); c.cleared = atoll(s[1].c_str()); PCHECK(c.cleared>=before && c.cleared<=secs(),"cleared-time","cleared at " << c.cleared << ", now " << before); } }
			break; }
		case 4: { std::map<std::string,uint64_t> due; for (auto &c : m) if (c.second.pending) due[c.first] = c.second.pending; bool r = t->commit(); int64_t after = secs(); NOTE("commit -> " << r); ALARM(r,"");
			PCHECK(r || was,"commit-failed","commit failed with no lock held");
			bool all = true;
			for (auto &d : due) { Ctr &c = m[d.first]; if (!c.exists || c.wild) { if (r) c.pending = 0; continue; }
				auto s = stored(d.first); PCHECK(s.size(),"counter-missing","commit removed a counter"); uint64_t v = strtoull(s[0].c_str(),0,10);
				if (v==c.value && was) { all = false; continue; }   // kept for the next commit
				PCHECK(v==c.value+c.pending,"value","commit left " << show(d.first.substr(0,80)) << " at " << v << ", expected " << c.value+c.pending);
				c.value = v; c.pending = 0; c.updLo = before; c.updHi = after; }
			if (!all) PCHECK(!r,"commit-result","commit returned true although it did not write everything");
			if (gLocked) for (auto &d : due) { Ctr &c = m[d.first]; if (c.exists && !c.wild) PCHECK(c.pending,"commit-locked","a counter changed under an exclusive lock"); }
			break; }
		case 5: { if (gLocked) break; NOTE("lock"); if (!db.tryExec("BEGIN EXCLUSIVE")) PFAIL("lock-held","the table left the database locked"); gLocked = true; gUnlockAfter = src.coin() ? 0 : 1+src.draw(14); faults++; src.label("lock fault"); break; }
		case 6: if (gLocked) { NOTE("unlock"); unlockNow(); } break;
		case 7: { unsigned lo = ix, len = src.draw(5); if (lo > 4294967295u-len) lo = 4294967295u-len; unsigned hi = lo+len; if (src.chance(1,8) && lo) hi = lo-1; if (was || k.size()>400) break;
			bool r = t->create(k.c_str(),lo,hi); NOTE("create " << show(k) << " " << lo << ".." << hi << " -> " << r); PCHECK(r,"create-failed","create of an indexed set failed");
			for (uint64_t j=lo;j<=hi;j++) { std::string f = k+"."+std::to_string(j); auto s = stored(f); PCHECK(s.size(),"create-lost","create of an indexed set left out " << show(f)); created(f,atoll(s[1].c_str())); }
			break; }
		case 8: { bool r = t->clear(); NOTE("clear all -> " << r); ALARM(r,""); PCHECK(r || was,"clear-failed","clear failed with no lock held"); if (gLocked) PCHECK(!r,"clear-result","clear returned true under a lock");
			if (r) for (auto &c : m) { c.second.pending = 0; c.second.wild = false; c.second.value = 0; c.second.maxer = false; c.second.updLo = c.second.updHi = 0; if (c.second.exists) { auto s = stored(c.first); PCHECK(s.size(),"counter-missing","clear removed a counter"); c.second.cleared = atoll(s[1].c_str()); PCHECK(c.second.cleared>=before && c.second.cleared<=secs(),"cleared-time","cleared at " << c.second.cleared); } }
			break; }
		case 9: { if (gLocked) break; NOTE("commit and reopen"); PCHECK(t->commit(),"commit-failed","commit failed with no lock held"); int64_t after = secs();
			for (auto &c : m) { if (c.second.pending && c.second.exists) { c.second.value += c.second.pending; c.second.updLo = before; c.second.updHi = after; } c.second.pending = 0; }
			{ Untracked u; t.reset(); } db.closeOthers(); open(t,db); break; }
		}
		verify("this step");
		if (work>=2) src.nontrivial();
	}
	if (gLocked) unlockNow();
	int64_t before = secs(); PCHECK(t->commit(),"commit-failed","the final commit failed"); 
	for (auto &c : m) { if (c.second.pending && c.second.exists) { c.second.value += c.second.pending; c.second.updLo = before; c.second.updHi = secs(); } c.second.pending = 0; }
	verify("the final commit");
	{ Untracked u; t.reset(); } db.closeOthers();
	if (faults) { Untracked u; gConfig.set("Log.Alarms.Max","0"); Log(LOG_CRIT).get() << "empties the alarm list"; gConfig.remove("Log.Alarms.Max"); }
}
// A database that cannot be opened, or is locked when it is opened: everybody hears of it, and nothing worse happens.
static void unopenable(Src &src) {
	Quiet q; env::setTime(1500000000,0); cfg::Db db; gDb = &db; gLocked = false; env::captureSyslog = true; env::syslogs.clear();
	bool locked = src.coin(), made = src.coin(); std::unique_ptr<ReportingTable> t; gTask = 0;
	if (locked) { if (made) db.exec("CREATE TABLE IF NOT EXISTS REPORTING (NAME TEXT UNIQUE NOT NULL, VALUE INTEGER DEFAULT 0, CLEAREDTIME INTEGER NOT NULL, UPDATETIME INTEGER DEFAULT 0)"); PCHECK(db.tryExec("BEGIN EXCLUSIVE"),"lock","cannot lock"); gLocked = true; gUnlockAfter = 0; env::onSleep = slept; }
	std::string path = locked ? db.name : scratchDir()+"/no/such/directory/x"+std::to_string(src.draw(100)); NOTE("open " << (locked?"a locked database":"a path that does not exist"));
	{ Untracked u; t.reset(new ReportingTable(path.c_str())); }
	int loud = 0; for (auto &l : env::syslogs) loud += (l.pri&7)==LOG_EMERG && l.text.find(path)!=std::string::npos; PCHECK(loud,"no-alarm","opening " << show(path) << " failed and no emergency message says so");
	if (!locked) PCHECK(db.nothers()==0,"connection-leak","the connection that could not be opened was not closed");
	if (!locked) PCHECK(!gTask,"committer","a committer was started for no database");
	std::string k = name(src); if (k.find('%')!=std::string::npos) src.label("percent"); size_t n = 1+src.draw(4);
	for (size_t i=0;i<n;i++) { env::syslogs.clear(); bool r; int what = src.draw(4); switch (what) { case 0: r = t->create(k.c_str()); break; case 1: r = t->max(k.c_str(),5); break; case 2: r = t->clear(k.c_str()); break; default: r = t->clear(); } NOTE("call " << what << " about " << show(k.substr(0,60)) << " -> " << r);
		PCHECK(!r,"result","a call on no database succeeded"); PCHECK(alarms(what<3?k:""),"no-alarm","a failed call about " << show(k.substr(0,60)) << " raised no alarm"); }
	t->incr(k.c_str()); PCHECK(!t->commit(),"result","a commit to no database succeeded"); src.nontrivial();
	if (gLocked) { unlockNow(); PCHECK(t->create(k.c_str())==made,"after-lock","after the lock create " << (made?"fails":"succeeds without a table")); if (made) { PCHECK(t->commit(),"commit-failed","the commit after the lock failed"); auto r = db.rows("SELECT VALUE FROM REPORTING"); PCHECK(r.size()==1 && r[0][0]=="1","value","after the lock the counter holds " << (r.size()?r[0][0]:"nothing")); } }
	{ Untracked u; t.reset(); } db.closeOthers();
	{ Untracked u; gConfig.set("Log.Alarms.Max","0"); Log(LOG_CRIT).get() << "empties the alarm list"; gConfig.remove("Log.Alarms.Max"); }
}
PTEST(unopenable, 1500) { noLeakCase("leak",src,unopenable); }
PTEST(reports, 14000) { noLeakCase("leak",src,body); }
// The committer commits every ten seconds until told to stop, and then once more.
static int gSleeps, gStopAt; static std::vector<int64_t> *gNaps; static cfg::Db *gD2; static uint64_t gDue; static std::string gBad; static Src *gSrc;
static void nap() {
	gSleeps++; gNaps->push_back(env::nowNs);
	auto r = gD2->rows("SELECT VALUE FROM REPORTING WHERE NAME='n'"); uint64_t v = r.size()?strtoull(r[0][0].c_str(),0,10):~0ULL;
	if (v!=gDue && gBad.empty()) gBad = "when sleep "+std::to_string(gSleeps)+" ends the counter holds "+std::to_string(v)+" of the "+std::to_string(gDue)+" reported before that sleep";
	int k = gSrc->draw(4); for (int i=0;i<k;i++) gReports.incr("n"); gDue += k;
	if (gSleeps>=gStopAt) gReports.reportShutdown();
	if (gSleeps>100) { env::onSleep = 0; throw Fail("no-stop","the committer did not stop when told to"); }
}
PTEST(committer, 500) {
	Quiet q; env::setTime(1500000000,0); cfg::Db db; gD2 = &db; gSrc = &src; gBad = "";
	{ Untracked u; gReports.~ReportingTable(); new (&gReports) ReportingTable(db.name.c_str()); }
	std::vector<int64_t> naps; gNaps = &naps; gSleeps = 0; gStopAt = 1+src.draw(6); bool early = src.chance(1,5); if (early) { gStopAt = 3; gReports.reportShutdown(); NOTE("told to stop before it begins"); } gReports.create("n"); gDue = 0;
	int64_t t0 = env::nowNs; env::onSleep = nap; reportingBatchCommitter(0); env::onSleep = 0;
	PCHECK(gBad.empty(),"committer",gBad); if (early) gStopAt = 1; PCHECK(gSleeps==gStopAt,"committer-stop","told to stop in sleep " << gStopAt << ", it slept " << gSleeps << " times");
	auto r = db.rows("SELECT VALUE FROM REPORTING WHERE NAME='n'"); PCHECK(r.size()==1 && r[0][0]==std::to_string(gDue),"committer","after the committer stopped the counter holds " << (r.size()?r[0][0]:"nothing") << " of " << gDue);
	for (size_t i=0;i<naps.size();i++) PCHECK(naps[i]-t0==(int64_t)(i+1)*10000000000LL,"committer-period","sleep " << i << " ended " << (naps[i]-t0)/1000000 << " ms after the start");
	NOTE(gSleeps << " commits, " << gDue << " increments"); if (gDue) src.nontrivial();
	{ Untracked u; gReports.~ReportingTable(); db.closeOthers(); new (&gReports) ReportingTable(":memory:"); }
}

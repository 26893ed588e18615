// C30, shared: counters reported, cleared and committed by several threads, the committer among them, under drawn
// schedules, with another connection locking the database at times.
#include "cfg.h"
#include "ds.h"
#include "lin.h"
#include "Reporting.h"
#include "Logger.h"
#include <new>
#include <limits.h>
using namespace pbt; using ds::Quiet;
extern ConfigurationTable gConfig;
ReportingTable *theReports;
alignas(ReportingTable) char reportsRoom[sizeof(ReportingTable)]; 
extern ReportingTable gReports __attribute__((alias("reportsRoom")));
namespace {
struct NullBuf : std::streambuf { int overflow(int c) { return c==EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) { return n; } } nullBuf;
struct St { uint64_t v; std::string key() const { return std::to_string(v); } };
typedef lin::Op<St> Op;
const char *NAMES[] = { "a","b","set.3","late" }; const int NC = 4; // "late" is created by the threads, each before its first use
}
PTEST(shared, 10000) {
	struct Step { int op, k, arg; }; int nt = 1+src.draw(3); std::vector<std::vector<Step> > progs(nt); bool faults = src.coin();
	for (auto &p : progs) { size_t n = 1+src.draw(6); for (size_t i=0;i<n;i++) p.push_back({ (int)src.weighted({8,5,2,1,2,2,faults?3u:0u}), (int)src.draw(NC), (int)src.draw(8) }); }
	static int64_t day = 1600000000; day += 1000; env::setTime(day,0); static cfg::Db *db; if (!db) { Untracked u; db = new cfg::Db; }
	struct Off { std::streambuf *o; Off():o(std::cerr.rdbuf(&nullBuf)) {} ~Off() { std::cerr.rdbuf(o); env::virtualTime = false; sqlite3_exec(db->h,"ROLLBACK",0,0,0); } } off;
	db->closeOthers(); db->exec("DROP TABLE IF EXISTS REPORTING"); { std::string a = gConfig.getStr("Log.Alarms.Max"); }
	std::vector<Op> ops[NC]; uint64_t clock = 0; int clearing = 0; unsigned together = 0, open = 0, incs = 0; uint64_t cleared = 0; bool locked = false; int lockers = 0; unsigned maxes[2] = { 0, 0 }; unsigned failedCommits = 0;
	auto begin = [&](int k) { Quiet z; ops[k].emplace_back(); Op &o = ops[k].back(); o.call = ++clock; o.ret = UINT64_MAX; o.apply = [](St&) { return true; }; if (open++) together++; return ops[k].size()-1; };
	auto end = [&](int k, size_t i, const std::string &t, std::function<bool(St&)> f) { Op &o = ops[k][i]; o.ret = ++clock; o.text = t; o.apply = f; open--; NOTE("thread " << ds::self() << ": " << t); };
	auto stored = [&](const std::string &n) { auto r = db->rows("SELECT VALUE FROM REPORTING WHERE NAME='"+n+"'"); if (n=="late" && r.empty()) return (uint64_t)0; PCHECK(r.size()==1,"counter-missing","there are " << r.size() << " rows for counter " << n); return (uint64_t)strtoull(r[0][0].c_str(),0,10); };
	ds::Opt opt; 
	ds::run(src,[&]{
		ReportingTable *t = theReports = new (reportsRoom) ReportingTable(db->name.c_str());
		ds::allow(&t->mReportRunning,1);
		t->create("a"); t->create("b"); t->create("set",3,3); t->create("m0"); t->create("m1");
		for (auto &p : progs) ds::spawn([&,p,t]{ bool late = false; for (auto &s : p) switch (s.op) {
			case 0: { if (s.k==3 && !late) { late = t->create("late"); if (!late) { PCHECK(faults,"create-failed","a create failed though nothing was locked"); break; } } size_t o = begin(s.k); bool r = s.k==2 ? t->incr("set",3) : t->incr(NAMES[s.k]); Quiet z; PCHECK(r,"incr-result","incr failed"); incs++; end(s.k,o,std::string("incr ")+NAMES[s.k],[](St &x) { x.v++; return true; }); break; }
			case 1: { size_t o[NC]; uint64_t c0; for (int k=0;k<NC;k++) o[k] = begin(k); { Quiet z; c0 = cleared; if (clearing) c0 = UINT64_MAX; }
				uint64_t at; { Quiet z; at = clock; } bool r = t->commit(); Quiet z; if (!r) failedCommits++; PCHECK(r || faults,"commit-failed","a commit failed though nothing was locked");
				// what a commit that worked leaves holds everything reported before it began (unless a clear was about)
				for (int k=0;k<NC;k++) { if (r && c0==cleared && !clearing && !locked && db->tryExec("SELECT COUNT(*) FROM REPORTING")) { uint64_t least = 0, most = 0; bool ok = true; (void)ok; uint64_t v = stored(NAMES[k]); 
						for (auto &x : ops[k]) if (x.text.compare(0,4,"incr")==0 || x.ret==UINT64_MAX) { most++; if (x.ret<=at) least++; }
						if (!cleared) PCHECK(v>=least && v<=most,"commit","after a commit counter " << NAMES[k] << " holds " << v << "; " << least << " to " << most << " were reported"); }
					end(k,o[k],std::string("commit -> ")+(r?"true":"false"),[](St&) { return true; }); }
				break; }
			case 2: { { Quiet z; clearing++; cleared++; } size_t o = begin(s.k); bool r = s.k==2 ? t->clear("set",3) : t->clear(NAMES[s.k]); Quiet z; clearing--; PCHECK(r || faults,"clear-failed","a clear failed though nothing was locked"); end(s.k,o,std::string("clear ")+NAMES[s.k]+" -> "+(r?"true":"false"),[r](St &x) { if (r) x.v = 0; return true; }); break; }
			case 3: { { Quiet z; clearing++; cleared++; maxes[0] = maxes[1] = UINT_MAX; } size_t o[NC]; for (int k=0;k<NC;k++) o[k] = begin(k); bool r = t->clear(); Quiet z; clearing--; PCHECK(r || faults,"clear-failed","a clear failed though nothing was locked"); for (int k=0;k<NC;k++) end(k,o[k],std::string("clear all -> ")+(r?"true":"false"),[r](St &x) { if (r) x.v = 0; return true; }); break; }
			case 4: { int m = s.k&1; unsigned v = 1+s.arg*7; bool r = t->max(m?"m1":"m0",v); Quiet z; PCHECK(r || faults,"max-failed","a max failed though nothing was locked"); if (r && maxes[m]!=UINT_MAX && v>maxes[m]) maxes[m] = v; break; }
			case 5: ds::pass(s.arg==7 ? 10100 : s.arg*300); break;
			case 6: if (faults) { bool got = false; { Quiet z; if (!locked && db->tryExec("BEGIN EXCLUSIVE")) { locked = true; got = true; NOTE("thread " << ds::self() << ": locks the database"); } } if (got) { ds::pass(1+s.arg); Quiet z; db->exec("ROLLBACK"); locked = false; NOTE("thread " << ds::self() << ": unlocks the database"); } } break; } });
		ds::joinAll();
		ds::idle(); t->reportShutdown(); int64_t t0 = env::nowNs; while (!ds::ended(1)) { ds::pass(1000); PCHECK(env::nowNs-t0<25000000000LL,"no-stop","the committer does not end"); }
		bool r = t->commit(); PCHECK(r,"commit-failed","the last commit failed though nothing was locked");
		for (int k=0;k<NC;k++) { size_t o = begin(k); Quiet z; uint64_t v = stored(NAMES[k]); end(k,o,std::string(NAMES[k])+" holds "+std::to_string(v),[v](St &x) { return x.v==v; });
			St s; s.v = 0; lin::Check<St> c(ops[k]); if (!c.ok(s)) { std::string tx; for (auto &x : ops[k]) tx += "\n    "+std::to_string(x.call)+".."+std::to_string(x.ret)+" "+x.text; PFAIL("value","no order of the reports explains what counter " << NAMES[k] << " holds:" << tx); } }
		Quiet z; for (int m=0;m<2;m++) if (maxes[m]!=UINT_MAX) { uint64_t v = stored(m?"m1":"m0"); PCHECK(v==maxes[m],"max","the largest value reported was " << maxes[m] << ", the counter holds " << v); } 
		t->~ReportingTable(); },opt);
	if (incs && together>1) src.nontrivial(); if (failedCommits) src.label("failed commit");
}

// C08: configuration reads are never stale beyond the cache lifetime, for any table object, locks and faults included.
#include "cfg.h"
#include <memory>
using namespace pbt;
static const int64_t LIFE = 3000000000LL;
struct Version { int64_t at; bool stored; std::string v; };     // state of a key from this moment on
struct Tab { std::unique_ptr<ConfigurationTable> t; std::map<std::string,int64_t> fresh; int64_t purged; }; // last moment the table was told
static cfg::Db *gDb; static int gUnlockAfter; static bool gLocked; static std::vector<std::pair<int64_t,int64_t> > *gFaults;
static void unlockNow() { sqlite3_exec(gDb->h,"ROLLBACK",0,0,0); gLocked=false; gFaults->back().second = env::nowNs; }
static void slept() { if (gLocked && gUnlockAfter>0 && --gUnlockAfter==0) unlockNow(); }
static void body(Src &src) {
	env::setTime(1500000000+(int64_t)src.draw(100000),(int64_t)src.draw(1000000000));
	cfg::Db db; gDb = &db; gLocked = false; gUnlockAfter = 0; env::onSleep = slept;
	struct Off { ~Off() { env::onSleep = 0; } } off;
	std::vector<std::pair<int64_t,int64_t> > faults; gFaults = &faults;
	const char *names[] = { "K.one","K.two","K.free" };
	ConfigurationKeyMap schema;
	for (int i=0;i<2;i++) schema[names[i]] = ConfigurationKey(names[i],"default","",ConfigurationKey::CUSTOMER,ConfigurationKey::STRING_OPT,"",false,"d");
	std::vector<Tab> tabs; std::map<std::string,std::vector<Version> > hist;
	for (auto k : names) hist[k].push_back(Version{0,false,""});
	unsigned nt = 1+src.draw(3);
	for (unsigned i=0;i<nt;i++) { tabs.emplace_back(); tabs.back().t.reset(new ConfigurationTable(db.name.c_str(),0,schema)); tabs.back().purged = env::nowNs; }
	auto change = [&](const std::string &k, bool st, const std::string &v) { hist[k].push_back(Version{env::nowNs,st,v}); };
	unsigned seq = 0, ext = 0;
	size_t n = 1+src.len(40);
	for (size_t i=0;i<n;i++) {
		env::nowNs += 1000; Tab &T = tabs[src.draw(tabs.size())]; std::string k = names[src.weighted({4,2,2})];
		switch (src.weighted({10,3,2,5,2,6,2,2,2})) {
		case 0: { // read
			int64_t before = env::nowNs; bool lockedBefore = gLocked;
			int how = src.draw(4); std::string got; bool found;
			if (how==3) found = T.t->defines(k);
			else try { got = T.t->getStr(k); found = true; } catch (ConfigurationTableKeyNotFound&) { found = false; }
			NOTE("read by " << (&T-&tabs[0]) << " of " << k << " -> " << (found?how==3?"defined":show(got):"not found"));
			int64_t lo = std::max(T.fresh.count(k)?T.fresh[k]:0, std::max(T.purged, before-LIFE));
			bool faulty = lockedBefore; for (auto &f : faults) if (f.second>lo || f.second==f.first) faulty = faulty || f.second>=lo;
			bool def = schema.count(k)!=0; std::string want; bool ok = false;
			auto allow = [&](bool st, const std::string &v) {
				bool f = st||def; std::string x = st?v:"default";
				want += (want.empty()?"":" or ")+(f?show(x):std::string("not found"));
				if (f==found && (how==3||!f||x==got)) ok = true; };
			auto &h = hist[k];
			for (size_t j=0;j<h.size();j++) if (j+1==h.size() || h[j+1].at>lo) allow(h[j].stored,h[j].v);
			if (faulty) { src.label("read near a lock fault"); allow(false,""); }
			PCHECK(ok,"stale-or-wrong","table " << (&T-&tabs[0]) << " reads " << k << " as " << (found?how==3?"defined":show(got):"not found") << ", expected " << want);
			if (ext) src.nontrivial();
			break; }
		case 1: { std::string v = "v"+std::to_string(++seq); bool was = gLocked, r = T.t->set(k,v); NOTE("set by " << (&T-&tabs[0]) << " " << k << "=" << v << " -> " << r);
			PCHECK(r || was,"set-refused","set returned false with no lock held");
			auto rows = gLocked ? std::vector<std::vector<std::string> >() : db.rows("SELECT VALUESTRING FROM CONFIG WHERE KEYSTRING='"+k+"'");
			if (r) { PCHECK(!gLocked && rows.size()==1 && rows[0][0]==v,"set-lost","set returned true but the database holds something else");
				change(k,true,v); T.fresh[k] = env::nowNs; hist[k].back().at = env::nowNs; }
			break; }
		case 2: { bool had = hist[k].back().stored, was = gLocked; bool r = T.t->remove(k); NOTE("remove by " << (&T-&tabs[0]) << " " << k << " -> " << r);
			PCHECK(r==had || was,"remove-result","remove returned " << r);
			if (gLocked) PCHECK(!r,"remove-result","remove returned true although the database was locked");
			if (!was || r) { change(k,false,""); T.fresh[k] = env::nowNs; }
			else if (!gLocked && had && db.rows("SELECT 1 FROM CONFIG WHERE KEYSTRING='"+k+"'").empty()) PFAIL("remove-result","remove returned false although it removed the key");
			break; }
		case 3: { if (gLocked) break; if (src.chance(2,3)) { std::string v = "x"+std::to_string(++seq); NOTE("outside: " << k << "=" << v); db.exec("INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING) VALUES (%Q,%Q)",k.c_str(),v.c_str()); change(k,true,v); }
			else { NOTE("outside: delete " << k); db.exec("DELETE FROM CONFIG WHERE KEYSTRING=%Q",k.c_str()); change(k,false,""); }
			ext++; break; }
		case 4: NOTE("purge " << (&T-&tabs[0])); T.t->purge(); T.purged = env::nowNs; break;
		case 5: { int64_t ms = src.weighted({3,3,2})==0 ? src.draw(1500) : src.coin() ? 2900+src.draw(300) : src.draw(8000); NOTE("+" << ms << " ms"); env::advanceMs(ms); break; }
		case 6: if (!gLocked) { NOTE("lock"); if (db.tryExec("BEGIN EXCLUSIVE")) { gLocked = true; faults.push_back(std::make_pair(env::nowNs,env::nowNs)); gUnlockAfter = src.weighted({2,1})==0 ? 0 : 1+src.draw(6); } else PFAIL("lock-held","the table left the database locked"); } break;
		case 7: if (gLocked) { NOTE("unlock"); unlockNow(); } break;
		case 8: { env::advanceMs(3001+src.draw(3)); NOTE("+3 s"); break; }
		}
	}
	if (gLocked) unlockNow();
	env::advanceMs(3001);
	for (auto &T : tabs) for (auto k : names) { // everything is fresh now
		bool f; std::string got; try { got = T.t->getStr(k); f = true; } catch (ConfigurationTableKeyNotFound&) { f = false; }
		Version &v = hist[k].back(); bool w = v.stored||schema.count(k);
		PCHECK(f==w && (!f || got==(v.stored?v.v:std::string("default"))),"not-recovered","after the cache lifetime table " << (&T-&tabs[0]) << " reads " << k << " as " << (f?show(got):"not found") << " instead of " << (w?v.stored?v.v:"default":"not found"));
	}
	tabs.clear(); db.closeOthers();
}
PTEST(fresh, 12000) { noLeakCase("leak",src,body); }

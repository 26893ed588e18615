// C07: the configuration table as a persistent key-value store, against a map.
#include "cfg.h"
#include "twin.h"
#include <memory>
#include <string.h>
#include <algorithm>
using namespace pbt;
typedef std::map<std::string,std::string> Map;
struct Opt { bool null; std::string v; };
typedef std::map<std::string,Opt> Stored;
static ConfigurationKeyMap drawSchema(Src &src) {
	ConfigurationKeyMap m; size_t n = src.len(5);
	for (size_t i=0;i<n;i++) {
		std::string k = cfg::keyText(src), d = cfg::valueText(src), desc = src.coin() ? "plain" : src.nastyText(60);
		m[k] = ConfigurationKey(k,d,"units",ConfigurationKey::CUSTOMER,ConfigurationKey::STRING_OPT,"",src.coin(),desc);
	}
	return m;
}
static bool like(const char *p, const char *s) {     // SQL LIKE for ASCII
	for (; *p; p++) {
		if (*p=='%') { while (*p=='%') p++; if (!*p) return true; for (; *s; s++) if (like(p,s)) return true; return like(p,s); }
		if (!*s) return false;
		if (*p!='_' && tolower((unsigned char)*p)!=tolower((unsigned char)*s)) return false;
		s++;
	}
	return !*s;
}
static bool ascii(const std::string &s) { for (unsigned char c : s) if (c>=128) return false; return true; }
// Is text the concatenation of all the pieces, in some order?
static bool permuted(const std::string &t, size_t at, std::vector<std::string> &p, int &budget) {
	if (p.empty()) return at==t.size();
	if (--budget<0) return true;
	for (size_t i=0;i<p.size();i++) if (t.compare(at,p[i].size(),p[i])==0) {
		std::string x = p[i]; p.erase(p.begin()+i);
		bool ok = permuted(t,at+x.size(),p,budget);
		p.insert(p.begin()+i,x);
		if (ok) return true;
	}
	return false;
}
static unsigned gHeard, gHeardOther;
static void heard(void*, int, char const*, char const *table, sqlite3_int64) { if (!strcmp(table,"CONFIG")) gHeard++; else gHeardOther++; }
static void body(Src &src) {
	env::setTime(1500000000+(int64_t)src.draw(100000),(int64_t)src.draw(1000000000));
	cfg::Db db;
	ConfigurationKeyMap schema = drawSchema(src);
	std::unique_ptr<ConfigurationTable> t(new ConfigurationTable(db.name.c_str(),src.coin()?"prog":0,schema));
	schema = t->mSchema;
	for (auto &s : schema) NOTE("schema " << show(s.first) << " default " << show(s.second.getDefaultValue()));
	Stored m; bool hook = src.chance(1,3); if (hook) { NOTE("update hook set"); t->setUpdateHook(heard); }
	std::vector<std::string> keys; // keys used so far come back often
	for (auto &s : schema) keys.push_back(s.first);
	auto key = [&]{ if (!keys.empty() && src.chance(2,3)) { std::string k = keys[src.draw(keys.size())]; if (src.chance(1,12)) keys.push_back(k = cfg::twin(src,k)); return k; } std::string k = cfg::keyText(src); keys.push_back(k); return k; };
	auto has = [&](const std::string &k, std::string &v) { auto p = m.find(k); if (p!=m.end() && !p->second.null) { v=p->second.v; return true; } auto s = schema.find(k); if (s!=schema.end()) { v=s->second.getDefaultValue(); return true; } return false; };
	auto get = [&](const std::string &k) {
		std::string want; bool w = has(k,want);
		std::string got; bool g;
		try { got = t->getStr(k); g = true; } catch (ConfigurationTableKeyNotFound &e) { g = false; PCHECK(e.key()==k,"exception-key","the exception for " << show(k) << " carries " << show(e.key())); }
		NOTE("getStr " << show(k) << " -> " << (g?show(got):"not found"));
		PCHECK(g==w,g?"ghost-value":"lost-value","getStr(" << show(k) << ") " << (g?"gave "+show(got):std::string("was not found")) << ", expected " << (w?show(want):std::string("not found")));
		PCHECK(!g || got==want,"wrong-value","getStr(" << show(k) << ") gave " << show(got) << ", expected " << show(want));
	};
	size_t n = 1+src.len(40); unsigned muts = 0;
	for (size_t i=0;i<n;i++) { gHeard = gHeardOther = 0; unsigned muts0 = muts; bool hooked = hook; switch (src.weighted({8,8,5,4,3,3,2,2,2,2,1,1})) {
	case 0: { std::string k = key(), v = cfg::valueText(src); NOTE("set " << show(k) << " = " << show(v));
		PCHECK(t->set(k,v),"set-refused","set(" << show(k) << "," << show(v) << ") returned false");
		m[k] = Opt{false,v}; muts++; if (src.coin()) get(k); break; }
	case 1: get(key()); break;
	case 2: { std::string k = key(); bool had = m.count(k)!=0; bool r = t->remove(k); NOTE("remove " << show(k) << " -> " << r);
		PCHECK(r==had,"remove-result","remove(" << show(k) << ") returned " << r << " but the key was " << (had?"":"not ") << "stored");
		m.erase(k); if (had) muts++; if (src.coin()) get(k); break; }
	case 3: { std::string k = key(), v; bool w = has(k,v); bool g = t->defines(k); NOTE("defines " << show(k) << " -> " << g);
		PCHECK(g==w,"defines","defines(" << show(k) << ") gave " << g);
		PCHECK(t->keyDefinedInSchema(k)==(schema.count(k)!=0),"schema-query","keyDefinedInSchema(" << show(k) << ")");
		PCHECK(t->isStatic(k)==(schema.count(k)!=0 && schema.find(k)->second.isStatic()),"is-static","isStatic(" << show(k) << ")"); break; }
	case 4: { std::string k = key(); int64_t v = src.sbiased(); NOTE("set " << show(k) << " = number " << v);
		PCHECK(t->set(k,(long)v),"set-refused","set(" << show(k) << "," << v << ") returned false");
		m[k] = Opt{false,std::to_string(v)}; muts++; PCHECK(t->getNum(k)==v,"number","set number " << v << " reads back as " << t->getNum(k)); break; }
	case 5: { std::string pat; if (src.chance(2,3)) { std::string k = key(); size_t a = src.draw(k.size()+1); pat = k.substr(a,src.draw(k.size()-a+1)); if (src.coin()) for (char &c : pat) c = islower(c)?toupper(c):tolower(c); if (src.chance(1,4) && !pat.empty()) pat[src.draw(pat.size())]="%_"[src.draw(2)]; } else pat = src.nastyText(8);
		bool ok = ascii(pat); std::vector<std::string> want;
		for (auto &e : m) { if (!ascii(e.first)) ok = false; if (like(("%"+pat+"%").c_str(),e.first.c_str())) want.push_back(e.first+" "+(e.second.null||e.second.v.empty()?std::string("(disabled)"):e.second.v)+"\n"); }
		std::ostringstream os; t->find(pat,os); NOTE("find " << show(pat) << " -> " << show(os.str()));
		if (!ok) { src.label("find beyond ASCII"); break; }
		int budget = 20000;
		std::sort(want.begin(),want.end(),[](const std::string &a, const std::string &b){return a.size()>b.size();});
		std::string all; for (auto &w : want) all += w;
		PCHECK(permuted(os.str(),0,want,budget),"find","find(" << show(pat) << ") printed " << show(os.str()) << ", expected (in some order) " << show(all));
		break; }
	case 6: { ConfigurationRecordMap r = t->getAllPairs(); NOTE("getAllPairs -> " << r.size());
		PCHECK(r.size()==m.size(),"all-pairs","getAllPairs lists " << r.size() << " keys, " << m.size() << " are stored");
		for (auto &e : m) { auto p = r.find(e.first); PCHECK(p!=r.end(),"all-pairs","getAllPairs lacks " << show(e.first));
			PCHECK(p->second.defined()==!e.second.null,"all-pairs","getAllPairs " << show(e.first) << " defined is " << p->second.defined());
			if (!e.second.null) PCHECK(p->second.value()==e.second.v,"all-pairs","getAllPairs " << show(e.first) << " is " << show(p->second.value()) << ", expected " << show(e.second.v)); }
		break; }
	case 7: NOTE("purge"); t->purge(); break;
	case 8: { NOTE("close and reopen"); src.label("reopened"); t.reset(); db.closeOthers();
		t.reset(new ConfigurationTable(db.name.c_str(),0,schema)); if (hook) t->setUpdateHook(heard); if (muts) src.nontrivial(); break; }
	case 9: { int64_t ms = src.draw(10000); NOTE("+" << ms << " ms"); env::advanceMs(ms); break; }
	case 10: { std::string k = key(); NOTE("outside: " << show(k) << " = NULL"); src.label("null value");
		db.exec("INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING) VALUES (%Q,NULL)",k.c_str()); m[k] = Opt{true,""}; t->purge(); break; }
	case 11: { if (hook) break; std::string k = key(), v = cfg::valueText(src); if (src.coin()) get(k); int what = src.draw(3); PCHECK(db.tryExec("BEGIN EXCLUSIVE"),"database","the table left the database locked"); bool r = what==0 ? t->remove(k) : what==1 ? t->set(k,v) : t->set(k,(long)src.draw(100)); db.exec("ROLLBACK"); NOTE((what?"set ":"remove ") << show(k) << " while the database is locked -> " << r); src.label("refused change");
		PCHECK(!r,"locked-change",(what?"set ":"remove ") << show(k) << " of a locked database returned true"); get(k); break; }
	}
	if (hooked) PCHECK(gHeardOther==0 && (gHeard>0)==(muts>muts0),"hook","the update hook heard of " << gHeard << " changes to the table" << (gHeardOther?" and of others":"") << ", there were " << muts-muts0); }
	if (muts>1) src.nontrivial();
	for (auto &k : keys) get(k);
	// The database holds exactly the model, and descriptions went in as data.
	auto rows = db.rows("SELECT KEYSTRING,VALUESTRING,COMMENTS,OPTIONAL FROM CONFIG");
	PCHECK(rows.size()==m.size(),"database-rows","the database holds " << rows.size() << " rows, expected " << m.size());
	for (auto &r : rows) { PCHECK(m.count(r[0]),"database-rows","the database holds " << show(r[0])); Opt &o = m[r[0]];
		if (o.null) PCHECK(r[1]=="\1NULL","database-rows",show(r[0]) << " is " << show(r[1]));
		else { PCHECK(r[1]==o.v,"database-rows",show(r[0]) << " is stored as " << show(r[1]) << ", expected " << show(o.v));
			auto s = schema.find(r[0]); if (s!=schema.end()) PCHECK(r[2]==s->second.getDescription(),"comments","comment of " << show(r[0]) << " is " << show(r[2])); } }
	PCHECK(t->mSchema.size()==schema.size(),"schema-changed","the schema now has " << t->mSchema.size() << " keys, it had " << schema.size());
	t.reset(); db.closeOthers();
}
PTEST(store, 12000) { noLeakCase("leak",src,body); }

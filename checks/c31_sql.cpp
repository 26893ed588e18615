// C31: the SQL helper calls.
#include "cfg.h"
#include "sqlite3util.h"
#include <memory>
#include <stdlib.h>
#include <set>
using namespace pbt;
namespace {
struct Row { std::string k; bool hasV; std::string v; bool hasN; int64_t n; std::string cv() const { return v.c_str(); } };   // cv: as a C string
cfg::Db *gDb; int gRelease, gSleeps;
void slept() { gSleeps++; if (gRelease>0 && gSleeps>=gRelease) { gRelease = -1; gDb->tryExec("COMMIT"); } }
std::string longText(Src &src) { size_t n = 4900+src.draw(400); return std::string(n,'q')+"'"+std::string(src.draw(900),'r'); }
struct Case {
	Src &src; cfg::Db db; sqlite3 *c; std::vector<Row> rows; std::map<std::string,std::string> attrs; bool attrTable, shared;
	Case(Src &s,bool sh):src(s),db(sh),c(0),attrTable(false),shared(sh) {
		if (shared) { NOTE("a shared cache"); src.label("shared-cache"); }
		gDb = &db; gRelease = 0; env::setTime(1000000); env::onSleep = slept;
		sqlite3_open_v2(db.name.c_str(),&c,SQLITE_OPEN_READWRITE|SQLITE_OPEN_CREATE|SQLITE_OPEN_URI,0);
		db.exec("CREATE TABLE T (K TEXT, \"my col\" TEXT, N INTEGER)"); db.exec("CREATE TABLE U (ID INTEGER PRIMARY KEY, X TEXT UNIQUE)");
	}
	~Case() { env::virtualTime = false; env::onSleep = 0; gDb = 0; }
	std::string key() { if (!rows.empty() && src.chance(2,3)) return rows[src.draw(rows.size())].k; return src.chance(1,25) ? longText(src) : cfg::keyText(src); }
	unsigned num() { if (!rows.empty() && src.chance(2,3)) { const Row &r = rows[src.draw(rows.size())]; if (r.hasN) return (unsigned)r.n; } return (unsigned)src.biased(32); }
	void insert() {
		Row r; r.k = key(); r.hasV = !src.chance(1,6); r.v = src.chance(1,25) ? longText(src) : cfg::valueText(src); r.hasN = !src.chance(1,6); r.n = src.chance(1,8) ? src.sbiased(64) : (int64_t)(uint32_t)src.biased(32); if (src.chance(1,3)) r.n = (int64_t)src.draw(6);
		NOTE("  row " << show(r.k) << " " << (r.hasV?show(r.v):"NULL") << " " << (r.hasN?std::to_string(r.n):"NULL"));
		if (r.hasV && src.chance(1,10)) { r.v += '\0'; r.v += cfg::valueText(src); NOTE("  with a null character in it"); }
		sqlite3_stmt *s = 0; sqlite3_prepare_v2(db.h,"INSERT INTO T VALUES (?,?,?)",-1,&s,0); sqlite3_bind_text(s,1,r.k.data(),r.k.size(),SQLITE_TRANSIENT); if (r.hasV) sqlite3_bind_text(s,2,r.v.data(),r.v.size(),SQLITE_TRANSIENT); if (r.hasN) sqlite3_bind_int64(s,3,r.n);
		if (sqlite3_step(s)!=SQLITE_DONE) PFAIL("harness","cannot insert"); sqlite3_finalize(s); rows.push_back(r);
	}
	std::vector<Row> byKey(const std::string &k) { std::vector<Row> m; for (auto &r : rows) if (r.k==k) m.push_back(r); return m; }
	std::vector<Row> byNum(unsigned n) { std::vector<Row> m; for (auto &r : rows) if (r.hasN && r.n==(int64_t)n) m.push_back(r); return m; }
	// 0 no fault; k: released after k sleeps; -1 never released
	int fault; unsigned retries; bool locked;
	void lock(bool settable) { // starts a fault, perhaps
		retries = settable ? 1+(unsigned)src.draw(6) : 5; fault = 0; gSleeps = 0; gRelease = 0; locked = false;
		if (!src.chance(1,4)) return;
		fault = src.chance(1,3) ? -1 : (int)src.draw(retries); if (!fault) return; // fault <= retries-1: it is over in time
		NOTE("  locked, released after " << fault << " sleeps; " << retries << " tries"); locked = true; db.exec("BEGIN EXCLUSIVE"); if (src.coin()) { NOTE("  with its tables changed"); db.exec("CREATE TABLE ZZ (X)"); db.exec("DROP TABLE ZZ"); } gRelease = fault; src.label("locked");
	}
	// true if the call should have worked
	bool unlock() { if (!locked) return true; if (gRelease!=-1 || fault<0) db.tryExec("COMMIT"); else {} locked = false; if (gRelease!=-1) db.tryExec("ROLLBACK"); gRelease = 0; PCHECK(gSleeps<=20,"retry-count","a locked database was tried " << gSleeps << " times"); return fault>=0; }
};
}
static void body(Src &src) {
	Case t(src,src.chance(1,4)); sqlite3 *c = t.c; size_t n = 1+src.len(24), found = 0;
	for (size_t i=src.draw(4);i>0;i--) t.insert();
	for (size_t i=0;i<n;i++) {
		std::string k = t.key(); unsigned u = t.num(); const char *kc = k.c_str();
		switch (src.draw(14)) {
		case 0: case 1: t.insert(); break;
		case 2: { auto m = t.byKey(k); t.lock(true); NOTE("exists " << show(k)); bool e = src.coin() && t.retries==5 ? sqlite3_exists(c,"T","K",kc) : sqlite3_exists(c,"T","K",kc,t.retries); bool ok = t.unlock(); PCHECK(e==(ok&&!m.empty()),"exists","exists " << show(k) << " is " << e << " with " << m.size() << " such rows" << (ok?"":" and the database locked")); found += e; break; }
		case 3: { auto m = t.byKey(k); unsigned v = 4711; t.lock(true); NOTE("number at " << show(k)); bool r = sqlite3_single_lookup(c,"T","K",kc,"N",v,t.retries); bool ok = t.unlock();
			PCHECK(r==(ok&&!m.empty()),"number","number lookup of " << show(k) << " returned " << r << " with " << m.size() << " such rows"); if (r) { bool hit = false; for (auto &x : m) if (v==(x.hasN?(unsigned)x.n:0)) hit = true; PCHECK(hit,"number","number at " << show(k) << " is " << v); } else PCHECK(v==4711,"touched","a failed lookup changed the result to " << v); found += r; break; }
		case 4: { auto m = t.byKey(k); char *v = (char*)1; t.lock(true); NOTE("text at " << show(k)); bool r = sqlite3_single_lookup(c,"T","K",kc,"\"my col\"",v,t.retries); bool ok = t.unlock(); std::string vs = r&&v ? v : ""; bool isnull = !v; if (r) free(v);
			PCHECK(r==(ok&&!m.empty()),"text","text lookup of " << show(k) << " returned " << r << " with " << m.size() << " such rows"); if (r) { bool hit = false; for (auto &x : m) if (isnull ? !x.hasV : x.hasV&&x.cv()==vs) hit = true; PCHECK(hit,"text","text at " << show(k) << " is " << (isnull?"null":show(vs))); } else PCHECK(isnull,"touched","a failed lookup left a pointer"); found += r; break; }
		case 5: { auto m = t.byNum(u); char *v = (char*)1; t.lock(true); NOTE("text by number " << u); bool r = sqlite3_single_lookup(c,"T","N",u,"\"my col\"",v,t.retries); bool ok = t.unlock(); std::string vs = r&&v ? v : ""; bool isnull = !v; if (r) free(v);
			PCHECK(r==(ok&&!m.empty()),"by-number","text lookup of number " << u << " returned " << r << " with " << m.size() << " such rows"); if (r) { bool hit = false; for (auto &x : m) if (isnull ? !x.hasV : x.hasV&&x.cv()==vs) hit = true; PCHECK(hit,"by-number","text at number " << u << " is " << (isnull?"null":show(vs))); } else PCHECK(isnull,"touched","a failed lookup left a pointer"); found += r; break; }
		case 6: { bool num = src.coin(); auto m = num ? t.byNum(u) : t.byKey(k); std::string v = "untouched"; t.lock(false); NOTE("string lookup by " << (num?std::to_string(u):show(k))); bool r = num ? sqlite_single_lookup(c,"T","N",u,"\"my col\"",v) : sqlite_single_lookup(c,"T","K",kc,"\"my col\"",v); bool ok = t.unlock();
			PCHECK(r==(ok&&!m.empty()),"string","string lookup returned " << r << " with " << m.size() << " such rows"); if (r) { bool hit = false; for (auto &x : m) if (v==(x.hasV?x.v:"")) hit = true; PCHECK(hit,"string","the string lookup gave " << show(v)); } else PCHECK(v=="untouched","touched","a failed lookup changed the result to " << show(v)); found += r; break; }
		case 7: case 8: { // queries for rows
			int how = (int)src.draw(5); auto m = how==0 ? t.byNum(u) : how==1||how==4 ? t.byKey(k) : t.rows; bool star = src.coin(); const char *cols = star ? "*" : "N,\"my col\"";
			t.lock(false); NOTE("query " << how << " " << cols); std::unique_ptr<sqlQuery> q;
			char *cond = how==4 ? sqlite3_mprintf("WHERE K = %Q ORDER BY rowid",kc) : 0;
			if (how==0) q.reset(new sqlQuery(c,"T",cols,"N",u)); else if (how==1) q.reset(new sqlQuery(c,"T",cols,"K",kc)); else if (how==2) q.reset(new sqlQuery(c,"T",cols,"ORDER BY rowid")); else if (how==3) q.reset(new sqlQuery(c,"T",cols,"")); else q.reset(new sqlQuery(c,"T",cols,cond));
			bool ok = t.unlock(); sqlite3_free(cond); std::multiset<std::string> got, want; std::vector<std::string> gl, wl;
			for (auto &x : m) { std::string w = (star?x.k+"|":"")+(star ? (x.hasV?x.v:"")+"|"+(x.hasN?std::to_string(x.n):"") : (x.hasN?std::to_string(x.n):"")+"|"+(x.hasV?x.v:"")); want.insert(w); wl.push_back(w); }
			size_t steps = 0;
			if (!ok) PCHECK(!q->sqlSuccess() && q->getResultText()=="" && q->getResultInt()==0 && q->sqlResultSize()==0 && !q->sqlStep(),"failed-query","a query of a locked database gave something");
			else {
				while (q->sqlSuccess()) { PCHECK(q->sqlResultSize()==(star?3u:2u),"columns","the row has " << q->sqlResultSize() << " columns"); std::string g; for (unsigned j=0;j<q->sqlResultSize();j++) g += (j?"|":"")+q->getResultText(j); got.insert(g); gl.push_back(g);
					int nc = star ? 2 : 0; std::string nt = q->getResultText(nc); PCHECK(std::to_string(q->getResultInt(nc))==(nt==""?"0":nt),"int","column " << nc << " is " << show(nt) << " and as a number " << q->getResultInt(nc)); if (nc==0) PCHECK(q->getResultText()==nt && q->getResultInt()==q->getResultInt(0),"int","the default column is not the first");
					PCHECK(++steps<=t.rows.size(),"rows","more rows than the table has"); bool s = q->sqlStep(); PCHECK(s==q->sqlSuccess(),"step","sqlStep returned " << s); }
				PCHECK(got==want,"rows","the query gave " << got.size() << " rows (first " << show(gl.empty()?"":gl[0]) << "), there are " << want.size() << " (first " << show(wl.empty()?"":wl[0]) << ")"); if (how==2||how==4) PCHECK(gl==wl,"rows","the rows are out of order");
				PCHECK(!q->sqlStep() && !q->sqlSuccess() && q->getResultText()=="" && q->getResultInt()==0 && q->sqlResultSize()==0,"after-end","something is there after the last row");
			}
			found += got.size(); break; }
		case 9: { std::string v = src.chance(1,25) ? longText(src) : cfg::valueText(src); t.lock(false); if (t.locked && !t.attrTable) {} NOTE("attribute " << show(k) << " := " << show(v)); bool r = sqlite_set_attr(c,kc,v.c_str()); bool ok = t.unlock(); PCHECK(r==ok,"attr-set","setting attribute " << show(k) << " returned " << r); if (r) { t.attrTable = true; t.attrs[k] = v; } break; }
		case 10: { std::string a = !t.attrs.empty()&&src.coin() ? std::next(t.attrs.begin(),src.draw(t.attrs.size()))->first : k; t.lock(false); NOTE("attribute " << show(a)); std::string v = sqlite_get_attr(c,a.c_str()); bool ok = t.unlock(); auto p = t.attrs.find(a); PCHECK(v==(ok&&p!=t.attrs.end()?p->second:""),"attr","attribute " << show(a) << " is " << show(v)); found += !v.empty(); break; }
		case 11: { // commands
			int rc = 77; t.lock(true); bool r, ok; Row x = { k, true, "by command", true, (int64_t)i }; char *q;
			switch (src.draw(5)) {
			case 0: q = sqlite3_mprintf("INSERT INTO T VALUES (%Q,'by command',%d)",kc,(int)i); NOTE("command " << show(std::string(q).substr(0,80))); r = sqlite_command(c,q,&rc,t.retries); ok = t.unlock(); sqlite3_free(q); if (ok) { PCHECK(r && rc==SQLITE_DONE,"command","the insert returned " << r << " code " << rc); t.rows.push_back(x); } else PCHECK(!r && rc!=SQLITE_DONE && rc!=SQLITE_ROW && rc!=0 && rc!=77,"command","the insert into a locked database returned " << r << " code " << rc); break;
			case 1: NOTE("select command"); r = sqlite_command(c,"SELECT * FROM T",&rc,t.retries); ok = t.unlock(); PCHECK(ok ? r && rc==(t.rows.empty()?SQLITE_DONE:SQLITE_ROW) : !r,"command","the select returned " << r << " code " << rc); break;
			case 2: NOTE("bad command"); r = sqlite_command(c,"INSERT INTO NOWHERE VALUES (1)",&rc,t.retries); t.unlock(); PCHECK(!r && rc==-2,"bad-command","a command on no table returned " << r << " code " << rc); PCHECK(!sqlite_command(c,"NOT SQL") && !sqlite3_command(c,"SELECT"),"bad-command","a meaningless command succeeded"); break;
			case 3: q = sqlite3_mprintf("INSERT INTO U (X) VALUES (%Q)",kc); t.db.tryExec("DELETE FROM U"); if (t.locked) t.unlock(); NOTE("unique insert " << show(k.substr(0,60))); r = sqlite_command(c,q,&rc); PCHECK(r && rc==SQLITE_DONE,"command","the insert returned " << r << " code " << rc); rc = 77; r = sqlite_command(c,q,&rc); PCHECK(!r && rc!=SQLITE_DONE && rc!=77,"constraint","the second insert of the same returned " << r << " code " << rc); PCHECK(!sqlite3_command(c,q),"constraint","the third insert of the same succeeded"); sqlite3_free(q); PCHECK(t.db.rows("SELECT X FROM U").size()==1,"constraint","there are " << t.db.rows("SELECT X FROM U").size() << " rows"); break;
			default: q = sqlite3_mprintf("DELETE FROM T WHERE K=%Q",kc); NOTE("delete " << show(k.substr(0,60))); r = sqlite3_command(c,q,t.retries); ok = t.unlock(); sqlite3_free(q); PCHECK(r==ok,"command","the delete returned " << r); if (ok) { std::vector<Row> keep; for (auto &y : t.rows) if (y.k!=k) keep.push_back(y); t.rows = keep; } }
			break; }
		case 12: { // what is not there
			unsigned v = 5; char *p = (char*)1; std::string s = "s"; NOTE("missing table and column");
			PCHECK(!sqlite3_exists(c,"NOWHERE","K",kc) && !sqlite3_exists(c,"T","NOCOL",kc),"bad-statement","something exists in no table"); PCHECK(!sqlite3_single_lookup(c,"T","K",kc,"NOCOL",v) && v==5,"bad-statement","a lookup of no column succeeded"); PCHECK(!sqlite3_single_lookup(c,"NOWHERE","K",kc,"N",p) && !p,"bad-statement","a lookup in no table succeeded"); p = (char*)1; PCHECK(!sqlite3_single_lookup(c,"T","NOCOL",u,"N",p) && !p,"bad-statement","a lookup by no column succeeded"); PCHECK(!sqlite_single_lookup(c,"NOWHERE","K",kc,"N",s) && s=="s" && !sqlite_single_lookup(c,"T","NOCOL",u,"N",s) && s=="s","bad-statement","a lookup in no table succeeded");
			alignas(16) int dirt[2][sizeof(sqlQuery)/sizeof(int)+1]; for (auto &d : dirt) for (int &x : d) x = SQLITE_ROW;   // memory that has held another query
			struct Held { sqlQuery *q; ~Held() { q->~sqlQuery(); } } h1 = { new (dirt[0]) sqlQuery(c,"NOWHERE","*","K",kc) }, h2 = { new (dirt[1]) sqlQuery(c,"T","*","WHERE ((") }; sqlQuery &q = *h1.q, &q2 = *h2.q; PCHECK(!q.sqlSuccess() && !q2.sqlSuccess() && q.getResultText(0)=="" && q2.getResultInt(1)==0 && !q.sqlStep() && q2.sqlResultSize()==0,"bad-statement","a bad query succeeded"); break; }
		default: { sqlite3_stmt *st = 0; t.lock(true); NOTE("prepare and run"); int rc = sqlite3_prepare_statement(c,&st,"SELECT K FROM T ORDER BY rowid",t.retries); if (rc==0) { PCHECK(st,"prepare","no statement came with success"); rc = sqlite3_run_query(c,st,t.retries); std::string g = rc==SQLITE_ROW ? (const char*)sqlite3_column_text(st,0) : ""; sqlite3_finalize(st); bool ok = t.unlock(); if (ok) PCHECK(rc==(t.rows.empty()?SQLITE_DONE:SQLITE_ROW) && (t.rows.empty() || g==t.rows[0].k),"run","running the query gave code " << rc << " key " << show(g)); else PCHECK(rc!=SQLITE_ROW && rc!=SQLITE_DONE && rc!=0,"run","running a query of a locked database gave code " << rc); } else { bool ok = t.unlock(); PCHECK(!ok,"prepare","preparing failed with code " << rc); } }
		}
	}
	if (found>1) src.nontrivial();
	// nothing but what was written is in the database
	auto r = t.db.rows("SELECT K,\"my col\",N FROM T ORDER BY rowid"); PCHECK(r.size()==t.rows.size(),"content","the table has " << r.size() << " rows, expected " << t.rows.size());
	for (size_t i=0;i<r.size();i++) PCHECK(r[i][0]==t.rows[i].k && r[i][1]==(t.rows[i].hasV?t.rows[i].v:"\1NULL"),"content","row " << i << " holds " << show(r[i][0]) << " " << show(r[i][1]));
	if (t.attrTable) { auto a = t.db.rows("SELECT ATTR_NAME,ATTR_VALUE FROM ATTR_TABLE"); std::map<std::string,std::string> g; for (auto &x : a) g[x[0]] = x[1]; PCHECK(g==t.attrs && a.size()==t.attrs.size(),"content","the attribute table holds " << a.size() << " attributes, expected " << t.attrs.size()); }
	t.db.closeOthers();
}
PTEST(helpers, 30000) { noLeakCase("leak",src,body); }

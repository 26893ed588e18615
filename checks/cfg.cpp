#include "cfg.h"
#include <stdarg.h>
#include <string.h>
using namespace pbt;
static std::vector<sqlite3*> *opened;
extern "C" {
int __real_sqlite3_open_v2(const char*, sqlite3**, int, const char*);
int __real_sqlite3_close(sqlite3*); int __real_sqlite3_close_v2(sqlite3*);
static int note(int rc, sqlite3 **db) { pbt::Untracked u; if (!opened) opened = new std::vector<sqlite3*>; if (*db) opened->push_back(*db); return rc; }
int __wrap_sqlite3_open_v2(const char *f, sqlite3 **db, int fl, const char *v) { return note(__real_sqlite3_open_v2(f,db,fl|SQLITE_OPEN_URI,v),db); }
int __wrap_sqlite3_open(const char *f, sqlite3 **db) { return note(__real_sqlite3_open_v2(f,db,SQLITE_OPEN_READWRITE|SQLITE_OPEN_CREATE|SQLITE_OPEN_URI,0),db); }
static void forget(sqlite3 *db) { if (opened) for (size_t i=0;i<opened->size();i++) if ((*opened)[i]==db) { opened->erase(opened->begin()+i); return; } }
int __wrap_sqlite3_close(sqlite3 *db) { int rc = __real_sqlite3_close(db); if (!rc) forget(db); return rc; }
int __wrap_sqlite3_close_v2(sqlite3 *db) { forget(db); return __real_sqlite3_close_v2(db); }
}
namespace cfg {
Db::Db(bool shared) {
	name = shared ? "file:/pbtdb?vfs=memdb&cache=shared" : "file:/pbtdb?vfs=memdb"; h = 0;
	base = opened ? opened->size() : 0;
	if (__real_sqlite3_open_v2(name.c_str(),&h,SQLITE_OPEN_READWRITE|SQLITE_OPEN_CREATE|SQLITE_OPEN_URI,0)) { fprintf(stderr,"cannot open harness database\n"); _exit(3); }
}
static int closeHard(sqlite3 *d) { int n=0; while (sqlite3_stmt *s = sqlite3_next_stmt(d,0)) { sqlite3_finalize(s); n++; } __real_sqlite3_close(d); return n; }
Db::~Db() {
	while (opened && opened->size()>base) { sqlite3 *d = opened->back(); opened->pop_back(); closeHard(d); }
	closeHard(h);
}
size_t Db::nothers() { return opened ? opened->size()-base : 0; }
void Db::closeOthers(const char *sig) {
	int left = 0;
	while (opened && opened->size()>base) { sqlite3 *d = opened->back(); opened->pop_back(); left += closeHard(d); }
	PCHECK(left==0,sig,left << " prepared statements were left open");
}
bool Db::tryExec(const char *fmt, ...) {
	va_list ap; va_start(ap,fmt); char *q = sqlite3_vmprintf(fmt,ap); va_end(ap);
	int rc = sqlite3_exec(h,q,0,0,0); sqlite3_free(q); return rc==SQLITE_OK;
}
void Db::exec(const char *fmt, ...) {
	va_list ap; va_start(ap,fmt); char *q = sqlite3_vmprintf(fmt,ap); va_end(ap);
	char *err=0; int rc = sqlite3_exec(h,q,0,0,&err); std::string e = err?err:""; sqlite3_free(err);
	std::string qs = q; sqlite3_free(q);
	PCHECK(rc==SQLITE_OK,"database","the database refused the harness's " << qs << ": " << e);
}
std::vector<std::vector<std::string> > Db::rows(const std::string &sql) {
	std::vector<std::vector<std::string> > r; sqlite3_stmt *s=0;
	int rc = sqlite3_prepare_v2(h,sql.c_str(),-1,&s,0);
	PCHECK(rc==SQLITE_OK,"database","the database refused the harness's " << sql << ": " << sqlite3_errmsg(h));
	while ((rc=sqlite3_step(s))==SQLITE_ROW) {
		std::vector<std::string> row;
		for (int i=0;i<sqlite3_column_count(s);i++) { const char *p = (const char*)sqlite3_column_text(s,i); row.push_back(p?std::string(p,sqlite3_column_bytes(s,i)):std::string("\1NULL")); }
		r.push_back(row);
	}
	sqlite3_finalize(s);
	PCHECK(rc==SQLITE_DONE,"database","reading the database gave code " << rc << ": " << sqlite3_errmsg(h));
	return r;
}
std::string keyText(Src &src) {
	static const char *fam[] = { "Key.A","Key.B","key.a","KEY.A","Key.AB","Key","A","Log.Level","Log.Alarms.Max","GSM.CellId","Key_A","Key%A","it's","it''s","'","\"Key.A\"","x' OR '1'='1","k; DROP TABLE CONFIG;--","Key.A ","","VALUESTRING","%s%n","\xc3\xa9t\xc3\xa9" };
	if (src.chance(1,6)) return src.nastyText(40);
	return fam[src.weighted({6,5,3,3,3,2,2,2,1,2,3,3,3,2,2,2,2,2,2,1,1,1,1})];
}
std::string valueText(Src &src) {
	static const char *fam[] = { "1","0","value","","42","O'Brien","'","''","a'); DELETE FROM CONFIG;--","NOTICE"," two words ","%q%s","line\nfeed","\"quoted\"","(disabled)" };
	if (src.chance(1,4)) return src.nastyText(src.chance(1,10)?3000:60);
	return fam[src.draw(15)];
}
}

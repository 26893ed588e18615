#include "logkit.h"
#include <new>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
using std::endl; using std::ostringstream;
using namespace pbt;
namespace logkit {
const char *files[4] = { "A.cpp","B.cpp","lib/A.cpp","a.cpp" };
const char *levels[8] = { "EMERG","ALERT","CRIT","ERR","WARNING","NOTICE","INFO","DEBUG" };
int levelNumber(const std::string &s) {
	for (int i=0;i<8;i++) if (s==levels[i]) return i;
	if (s=="INFORMATION") return 6; if (s=="WARN") return 4; if (s=="ERROR") return 3; if (s=="CRITICAL") return 2; if (s=="EMERGENCY") return 0;
	return -1;
}
static std::string tell(const std::string &m, int &n) { n++; return m; }
#define DOLOG(L) line = __LINE__; LOG(L) << tell(msg,n)
#define DOIS(L) return IS_LOG_LEVEL(L)
#define DOW(L) return IS_WATCH_LEVEL(L)
#define FNS(X) static void stmt##X(int level, const std::string &msg, int &n, int &line) { LOGKIT_SWITCH(DOLOG) } \
	static bool en##X(int level) { LOGKIT_SWITCH(DOIS) } static bool wa##X(int level) { LOGKIT_SWITCH(DOW) } static void ws##X(int kind, int level, const std::string &msg, int &n) WATCHFNS()
#line 11 "A.cpp"
FNS(0)
#line 1022 "B.cpp"
FNS(1)
#line 33 "lib/A.cpp"
FNS(2)
#line 44 "a.cpp"
FNS(3)
#line 29 "logkit.cpp"
void stmt(int f, int level, const std::string &m, int &n, int &line) { f==0 ? stmt0(level,m,n,line) : f==1 ? stmt1(level,m,n,line) : f==2 ? stmt2(level,m,n,line) : stmt3(level,m,n,line); }
bool enabled(int f, int l) { return f==0 ? en0(l) : f==1 ? en1(l) : f==2 ? en2(l) : en3(l); }
bool watching(int f, int l) { return f==0 ? wa0(l) : f==1 ? wa1(l) : f==2 ? wa2(l) : wa3(l); }
void wstmt(int f, int k, int l, const std::string &m, int &n) { f==0 ? ws0(k,l,m,n) : f==1 ? ws1(k,l,m,n) : f==2 ? ws2(k,l,m,n) : ws3(k,l,m,n); }
std::string funcName(int f, bool g) { return g ? "gstmt" : "stmt"+std::to_string(f); }
static cfg::Db *theDb;
cfg::Db &db() { return *theDb; }
void resetConfig() {
	if (!theDb) { Untracked u; theDb = new cfg::Db; }
	theDb->exec("DROP TABLE IF EXISTS CONFIG");
	gConfig.~ConfigurationTable(); theDb->closeOthers(); new (&gConfig) ConfigurationTable(theDb->name.c_str());
	gLogGroup.LogGroupInit();
	flushLevelCache();
}
void flushLevelCache() { for (int i=0;i<1003;i++) gGetLoggingLevel("other.cpp"); }
Cerr::Cerr() { old = std::cerr.rdbuf(s.rdbuf()); }
Cerr::~Cerr() { std::cerr.rdbuf(old); }
std::string Cerr::take() { std::string r = s.str(); s.str(""); return r; }
static Cout *theCout;
Cout::Cout() { old = std::cout.rdbuf(s.rdbuf()); theCout = this; }
Cout::~Cout() { std::cout.rdbuf(old); theCout = 0; }
std::string Cout::take() { std::string r = s.str(); s.str(""); return r; }
}
extern "C" int __wrap_printf(const char *f, ...) { va_list ap; va_start(ap,f); int r; if (logkit::theCout) { char *p = 0; r = vasprintf(&p,f,ap); logkit::theCout->s << p; free(p); } else r = vprintf(f,ap); va_end(ap); return r; }

// Log statements of chosen source file, group and level, and the global configuration they depend on.
#ifndef LOGKIT_H
#define LOGKIT_H
#include "cfg.h"
#include "Logger.h"
extern char gCmdName[20];
#include <set>
extern ConfigurationTable gConfig;
namespace logkit {
extern const char *files[4];                    // source files the statements below claim to be in
// Runs one LOG statement; n counts how often its message was evaluated; line receives the statement's line.
void stmt(int file, int level, const std::string &msg, int &n, int &line);
bool enabled(int file, int level);              // IS_LOG_LEVEL there
bool watching(int file, int level);             // IS_WATCH_LEVEL there
// The same in a file that declares a log group ("Grouped.cpp").
void gstmt(LogGroup::Group g, int level, const std::string &msg, int &n, int &line);
bool genabled(LogGroup::Group g, int level);
bool gwatching(LogGroup::Group g, int level);
// One WATCH (0), WATCHINFO (1), WATCHLEVEL (2) or WATCHF (3) statement there.
void wstmt(int file, int kind, int level, const std::string &msg, int &n);
void gwstmt(LogGroup::Group g, int kind, int level, const std::string &msg, int &n);
struct Cout { std::ostringstream s; std::streambuf *old; Cout(); ~Cout(); std::string take(); };   // standard output, printf included
std::string funcName(int file, bool grouped);
cfg::Db &db();                                  // what gConfig is stored in
void resetConfig();                             // empty the table, expire every cache
void flushLevelCache();                         // more level checks than the cache keeps a level for
extern const char *levels[8];
int levelNumber(const std::string &name);       // -1 = no such level
struct Cerr { std::ostringstream s; std::streambuf *old; Cerr(); ~Cerr(); std::string take(); };
}
#define LOGKIT_SWITCH(DO) switch (level) { case 0: DO(EMERG); break; case 1: DO(ALERT); break; case 2: DO(CRIT); break; case 3: DO(ERR); break; \
	case 4: DO(WARNING); break; case 5: DO(NOTICE); break; case 6: DO(INFO); break; default: DO(DEBUG); break; }
#define WATCHFNS(...) { switch (kind) { case 0: WATCH(tell(msg,n)); break; case 1: WATCHINFO(tell(msg,n)); break; case 2: LOGKIT_SWITCH(DOWL) break; default: WATCHF("%s %d\n",tell(msg,n).c_str(),level); } }
#define DOWL(L) WATCHLEVEL(L,tell(msg,n))
#endif

// Log statements in a file that belongs to a log group, chosen at run time.
static int tlGroup;
#define LOG_GROUP ((LogGroup::Group)tlGroup)
#include "logkit.h"
namespace logkit {
static std::string tell(const std::string &m, int &n) { n++; return m; }
#define DOLOG(L) line = __LINE__; LOG(L) << tell(msg,n)
#define DOIS(L) return IS_LOG_LEVEL(L)
#define DOW(L) return IS_WATCH_LEVEL(L)
#line 77 "Grouped.cpp"
void gstmt(LogGroup::Group g, int level, const std::string &msg, int &n, int &line) { tlGroup = g; LOGKIT_SWITCH(DOLOG) }
bool genabled(LogGroup::Group g, int level) { tlGroup = g; LOGKIT_SWITCH(DOIS) }
bool gwatching(LogGroup::Group g, int level) { tlGroup = g; LOGKIT_SWITCH(DOW) }
void gwstmt(LogGroup::Group g, int kind, int level, const std::string &msg, int &n) { tlGroup = g; WATCHFNS() }
}

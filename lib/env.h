// The virtual environment of the sequential checks: clock, sleeping and syslog are the harness's.
#ifndef ENV_H
#define ENV_H
#include <stdint.h>
#include <string>
#include <vector>
namespace env {
extern bool virtualTime;         // when true the clock below is what the code under test sees
extern int64_t nowNs;            // nanoseconds since the epoch
extern uint64_t clockReads;
extern int64_t tickNs;           // added to the clock on every reading
void setTime(int64_t sec, int64_t nsec=0);
void advanceMs(int64_t ms);
extern void (*onSleep)();
extern void (*onClock)();     // called at every clock read // called when the code under test sleeps (virtual time only)
struct Syslog { int pri; std::string text; };
extern bool captureSyslog;
extern std::vector<Syslog> syslogs;
// One line per openlog call (ident, option, facility).
struct Openlog { std::string ident; int option, facility; };
extern std::vector<Openlog> openlogs;
}
#endif

// Deterministic scheduler for the concurrent checks: threads are fibers, every synchronisation call is a point where
// the next thread is drawn from the case's choices, time is virtual, and all memory the instrumented code (the library
// and the checks) touches goes through a happens-before race detector that also knows freed memory.
#ifndef DS_H
#define DS_H
#include "pbt.h"
#include "env.h"
namespace ds {
struct Opt {
	unsigned spurious;      // how many spurious wake-ups a case may have
	bool timeJumps;         // time may pass at any scheduling point, not only when everyone waits
	bool accessPoints;      // every memory access may be a scheduling point
	unsigned maxSteps;      // scheduling points after which the schedule is no longer drawn but random and fair
	Opt():spurious(2),timeJumps(true),accessPoints(false),maxSteps(3000) {}
};
// Runs body as thread 0; returns when it and everything it started has ended. A failure in any thread fails the case.
void run(pbt::Src &src, const std::function<void()> &body, const Opt &opt = Opt());
int spawn(const std::function<void()> &f);   // a thread of the harness's own; -> its number
void join(int id);
void joinAll();                              // joins every thread spawn() made
bool ended(int id);
bool waiting(int id);                        // blocked in a lock, a wait or a sleep
void point();                                // a scheduling point
void idle();                                 // waits until every other thread is blocked or has ended
void pass(int64_t ms);                       // lets this much time pass for the calling thread
int self();
unsigned steps();
unsigned blocks(int id);                     // how often the thread had to wait so far
bool running();
void newWait(); int64_t inCond(int id);        // how long the thread has spent waiting for conditions since its newWait() (virtual ns)
size_t askedStack(int id);                   // the stack size its pthread_create was asked for
int threads();                               // how many threads were created so far, ended ones included (at most 24)
unsigned switches();
void fail(const std::string &sig, const std::string &msg);   // ends the case at once
struct Quiet { Quiet(); ~Quiet(); };         // no tracking and no scheduling points in this scope (oracle code)
void allow(const void *p, size_t n);         // unsynchronised use of this memory is not judged in this run
void forget(const void *p, size_t n);        // the memory is used for something new
extern std::vector<size_t> createdStacks;    // stack sizes pthread_create was asked for in this run
}
#undef PFAIL
#define PFAIL(SIG, EXPR) do { std::ostringstream _o; _o << EXPR; if (ds::running()) ds::fail(SIG, _o.str()); throw pbt::Fail(SIG, _o.str()); } while(0)
#endif

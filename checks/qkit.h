// Shared by the scheduled checks of containers: elements that tell when they go, histories, blocked-operation bookkeeping.
#ifndef QKIT_H
#define QKIT_H
#include "common.h"
#include "ds.h"
#include "lin.h"
#include <string.h>
#include <map>
#include <set>
#include <algorithm>
namespace qk {
using ds::Quiet;
struct El; 
struct World {
	struct Info { El *p; bool gone; };
	std::vector<Info> all; std::vector<int> deleted[24];      // deleted[t]: what thread t has destroyed in its current operation
	uint64_t clock;
	struct Cur { const char *kind; bool wantsItem; int arg; int64_t start; long timeout; } cur[24];  // what each thread is in the middle of
	World():clock(0) { for (Cur &c : cur) c.kind = 0; }
	int idOf(void *p);
};
extern World *W;
// The element: next/setNext/size serve SingleLinkList, > the priority queue.
struct El { El *mNext; int id, pri; int payload[2]; El *next() { return mNext; } void setNext(El *e) { mNext = e; } unsigned size() { return 1; } bool operator>(const El &o) const { return pri>o.pri; }
	El(int p=0):mNext((El*)16),pri(p) { { Quiet q; id = W->all.size(); W->all.push_back({ this, false }); } payload[0] = id*3+1; payload[1] = id*5+2; }
	~El() { payload[0] = -1; Quiet q; W->deleted[ds::running()?ds::self():0].push_back(id); PCHECK(!W->all[id].gone,"double-free","element " << id << " was released twice"); W->all[id].gone = true; }
	void look() { int a = payload[0], b = payload[1]; Quiet q; PCHECK(!W->all[id].gone,"gone","element " << id << " was handed out after its release"); PCHECK(a==id*3+1 && b==id*5+2,"payload","element " << id << " carries " << a << "," << b); } };
// The operation a thread is in; wantsItem: it is waiting for something to arrive.
struct In { int me; In(const char *kind, bool wantsItem=false, int arg=0, long timeout=-1) { Quiet q; me = ds::self(); ds::newWait(); World::Cur &c = W->cur[me]; c.kind = kind; c.wantsItem = wantsItem; c.arg = arg; c.start = env::nowNs; c.timeout = timeout; W->deleted[me].clear(); NOTE("thread " << me << ": " << kind << (timeout>=0?" for "+std::to_string(timeout)+" ms":std::string()) << " begins"); } ~In() { Quiet q; W->cur[me].kind = 0; } };
// To be called when ds::idle() has returned.
inline void overdue() { Quiet q; for (int t=0;t<ds::threads();t++) { World::Cur &c = W->cur[t]; if (c.kind && c.timeout>0 && !ds::ended(t)) PCHECK(!ds::waiting(t) || ds::inCond(t) <= c.timeout*1000000LL+100000000LL,"overdue","thread " << t << " waits on, after waiting " << ds::inCond(t)/1000000 << " ms in a " << c.kind << " of " << c.timeout << " ms"); } }
}
#endif

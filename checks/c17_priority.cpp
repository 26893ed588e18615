// C17, from one thread: the priority queue against a list of what it holds.
#include "common.h"
#include "Interthread.h"
#include <set>
#include <algorithm>
#include <memory>
using namespace pbt;
namespace {
std::set<void*> gLive; int gBadFree;
struct El { int id, pri; El(int i, int p):id(i),pri(p) { Untracked u; gLive.insert(this); } El(const El&); ~El() { if (!gLive.erase(this)) gBadFree++; } bool operator>(const El &o) const { return pri>o.pri; } };
struct Rev { bool operator()(const El *a, const El *b) { return a->pri<b->pri; } };
}
template<class Q, int SIGN> static void run(Src &src) {
	struct Reset { ~Reset(){ env::virtualTime = false; } } reset; env::setTime(1000000,src.draw(1000)*1000000); gLive.clear(); gBadFree = 0;
	std::unique_ptr<Q> q(new Q); std::vector<El*> m, mine; struct Clean { std::vector<El*> &v; ~Clean() { for (El *e : v) if (gLive.count(e)) delete e; } } clean = { mine };
	int next = 0, span = src.coin() ? 4 : 1000; size_t n = src.len(80); if (n>6) src.nontrivial();
	int big = 0; auto held = [&](const char *when) { if (m.size()>2000 && ++big%16) return; PCHECK(!gBadFree,"double-free","an element was released twice " << when); std::set<void*> want(m.begin(),m.end()); want.insert(mine.begin(),mine.end()); PCHECK(want==gLive,"ownership",when << ": " << gLive.size() << " elements exist, " << m.size() << " are queued and " << mine.size() << " were handed out"); };
	auto urgent = [&](El *e, const char *how) { if (m.empty()) { PCHECK(!e,"ghost",how << " of an empty queue gave something"); return; } PCHECK(e,"nothing",how << " gave nothing from " << m.size()); PCHECK(std::find(m.begin(),m.end(),e)!=m.end(),"ghost",how << " gave an element that is not queued"); for (El *x : m) PCHECK(SIGN*x->pri>=SIGN*e->pri,"urgent",how << " gave urgency " << e->pri << " though " << x->pri << " is queued"); };
	auto took = [&](El *e) { if (e) { m.erase(std::find(m.begin(),m.end(),e)); mine.push_back(e); } };
	size_t many = src.burst(); if (many) NOTE(many << " elements written"); for (size_t i=0;i<many;i++) { El *e = new El(next++,(int)(i*7919%(2*span+1))-span); m.push_back(e); q->write(e); }
	for (size_t i=0;i<n;i++) { El *e;
		switch (src.weighted({7,2,2,2,2,1,1})) {
		case 0: e = new El(next++,(int)src.range(-span,span)); NOTE("write " << e->pri); m.push_back(e); q->write(e); break;
		case 1: NOTE("readNoBlock"); e = q->readNoBlock(); urgent(e,"readNoBlock"); took(e); break;
		case 2: if (!m.empty()) { NOTE("read"); e = q->read(); urgent(e,"read"); took(e); } break;
		case 3: { unsigned t = src.chance(1,4) ? 0 : 1+(unsigned)src.draw(4000); int64_t at = env::nowNs; bool had = !m.empty(); NOTE("read for " << t); e = q->read(t); urgent(e,"timed read"); took(e); int64_t us = (env::nowNs-at)/1000; if (had || !t) PCHECK(us==0,"waited","a read with something there took " << us << " us"); else PCHECK(us>=(int64_t)t*1000-2001,"gave-up","a read of " << t << " ms gave up after " << us << " us"); break; }
		case 4: NOTE("peek"); urgent(q->peek(),"peek"); break;
		case 5: if (src.chance(1,3)) { NOTE("clear"); q->clear(); m.clear(); } break;
		default: break; }
		PCHECK(q->size()==m.size(),"size","size is " << q->size() << " with " << m.size() << " queued"); held("after an operation");
	}
	if (src.coin() && m.size()<2000) { int last = 0; bool first = true; while (!m.empty()) { El *e = q->readNoBlock(); urgent(e,"readNoBlock"); PCHECK(first || SIGN*e->pri>=SIGN*last,"urgent","emptying the queue gave " << e->pri << " after " << last); last = e->pri; first = false; took(e); } }
	q.reset(); m.clear(); held("after the queue is destroyed");
}
static void b1(Src &src) { run<InterthreadPriorityQueue<El>,1>(src); }
static void b2(Src &src) { run<InterthreadPriorityQueue<El,std::deque<El*>,Rev>,-1>(src); }
PTEST(standard, 100000) { noLeakCase("leak",src,b1); }
PTEST(reversed, 40000) { noLeakCase("leak",src,b2); }

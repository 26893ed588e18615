// C18: locks, signals and semaphores under drawn schedules, with spurious wake-ups and a virtual clock.
#include "common.h"
#include "ds.h"
#include "lin.h"
#include "Threads.h"
#include "Interthread.h"
#include <memory>
#include <string.h>
using namespace pbt; using ds::Quiet;
namespace {
// What is known about one lock from the outside: who holds it, and who is inside a call on it.
struct Model { int writer, depth, readers[24], inCall[24]; uint64_t moved; Model():writer(-1),depth(0),moved(0) { memset(readers,0,sizeof readers); memset(inCall,0,sizeof inCall); }
	bool others(int me) const { for (int i=0;i<24;i++) if (i!=me && (readers[i] || inCall[i])) return true; return writer>=0 && writer!=me; } };
struct Call { Model &m; int me; bool busy; uint64_t moved; int64_t at; unsigned blocks; Call(Model &mm):m(mm),me(ds::self()) { Quiet q; busy = m.others(me); m.inCall[me]++; m.moved++; moved = m.moved; at = env::nowNs; blocks = ds::blocks(me); }
	~Call() { Quiet q; m.inCall[me]--; m.moved++; }
	bool undisturbed() { return !busy && m.moved==moved; }     // nobody else held it or touched it during the call
	bool waited() { return ds::blocks(me)!=blocks; } int64_t us() { return (env::nowNs-at)/1000; } };
std::string site(const char *f, unsigned l) { return std::string(" ")+f+":"+std::to_string(l); }
}
static void mutexBody(Src &src) {
	int nm = 1+src.draw(3), nt = 2+src.draw(3); std::vector<std::unique_ptr<Mutex> > M; std::vector<Model> mod(nm); for (int i=0;i<nm;i++) M.emplace_back(new Mutex);
	unsigned contended = 0;
	auto thread = [&](int t, std::vector<std::vector<int> > prog) {
		std::vector<std::vector<std::string> > held(nm); std::vector<int> order; int me = ds::self();
		auto got = [&](int k, const std::string &s, const char *how) { { Quiet q; Model &m = mod[k]; PCHECK(m.writer<0 || m.writer==me,"exclusion",how << " gave mutex " << k << " to thread " << me << " while thread " << m.writer << " holds it"); m.writer = me; m.depth++; held[k].push_back(s); order.push_back(k); NOTE("thread " << me << ": " << how << " of mutex " << k << " (depth " << m.depth << ")"); }
			int c = M[k]->lockcnt(); { Quiet q; PCHECK(c==mod[k].depth,"count","the holder of mutex " << k << " counts " << c << " locks, it has " << mod[k].depth); } };
		auto release = [&](int k) { Call c(mod[k]); { Quiet q; if (--mod[k].depth==0) mod[k].writer = -1; held[k].pop_back(); for (size_t i=order.size();i--;) if (order[i]==k) { order.erase(order.begin()+i); break; } NOTE("thread " << me << ": unlock of mutex " << k); } M[k]->unlock(); };
		auto mayWait = [&](int k) { Quiet q; if (mod[k].writer==me) return true; for (int h : order) if (h>k) return false; return true; };   // waiting only in index order: no deadlock of our own making
		for (auto &op : prog) { int k = op[1]; static const char *F[] = { "a.cpp", "bb/c.cpp" };
			switch (op[0]) {
			case 0: if (!mayWait(k)) break; { Call c(mod[k]); M[k]->lock(); { Quiet q; if (c.busy) contended++; } got(k," ?","lock"); } break;
			case 1: if (!mayWait(k)) break; { Call c(mod[k]); M[k]->lock(F[op[2]&1],op[2]); { Quiet q; if (c.busy) contended++; } got(k,site(F[op[2]&1],op[2]),"lock with place"); } break;
			case 2: case 3: { Call c(mod[k]); bool r = op[0]==2 ? M[k]->trylock() : M[k]->trylock(F[op[2]&1],op[2]); { Quiet q; PCHECK(!c.waited(),"try-waits","trylock waited"); if (!r) { contended++; PCHECK(!c.undisturbed(),"try-fails","trylock failed though nobody else held or touched mutex " << k); PCHECK(mod[k].writer!=me,"reentry","trylock failed for the holder of mutex " << k); NOTE("thread " << me << ": trylock of mutex " << k << " failed"); } }
				if (r) got(k,op[0]==2?" ?":site(F[op[2]&1],op[2]),"trylock"); break; }
			case 4: { if (!mayWait(k)) break; int ms = op[2]%3==0 ? op[2]%7 : op[2]; Call c(mod[k]); bool r = M[k]->timedlock(ms); { Quiet q; if (!r) { contended++; PCHECK(c.us()>=ms*1000LL,"early","timedlock of " << ms << " ms failed after " << c.us() << " us"); PCHECK(!c.undisturbed(),"timed-fails","timedlock failed though nobody else held or touched mutex " << k); PCHECK(mod[k].writer!=me,"reentry","timedlock failed for the holder"); NOTE("thread " << me << ": timedlock of mutex " << k << " failed"); } }
				if (r) got(k," ?","timedlock"); break; }
			case 5: if (order.size()) release(order.back()); break;
			case 6: if (order.size()) release(order[op[2]%order.size()]); break;
			case 7: ds::pass(op[2]); break;
			case 8: if (order.size()) { int h = order[op[2]%order.size()]; std::string s = M[h]->mutext(); Quiet q; std::string w = "lockcnt="+std::to_string(mod[h].depth); for (size_t i=0;i<held[h].size() && i<5;i++) w += held[h][i]; PCHECK(s==w,"mutext","mutex " << h << " describes itself as " << show(s) << ", not " << show(w)); } break;
			case 9: { if (!mayWait(k)) break; bool thrown = false; size_t n0 = order.size(); try { Call *c = new Call(mod[k]); struct D { Call *c; ~D() { Quiet q; delete c; } } d = { c }; struct Out { std::vector<int> &o; Model &m; std::vector<std::string> &h; ~Out() { } } ; 
				{ ScopedLock l(*M[k]); got(k," ?","scoped lock"); ds::point(); { Quiet q; if (--mod[k].depth==0) mod[k].writer = -1; held[k].pop_back(); order.pop_back(); } if (op[2]&1) { Quiet q; throw 7; } } } catch (int) { thrown = true; } (void)thrown; (void)n0; break; }
			}
		}
		while (order.size()) release(order.back());
	};
	std::vector<std::vector<std::vector<int> > > progs(nt); for (auto &p : progs) { size_t n = 1+src.draw(9); for (size_t i=0;i<n;i++) p.push_back({ (int)src.weighted({4,2,3,1,3,6,1,1,1,2}), (int)src.draw(nm), (int)src.draw(40) }); }
	ds::run(src,[&]{ for (int t=0;t<nt;t++) { auto p = progs[t]; ds::spawn([&,t,p]{ thread(t,p); }); } ds::joinAll(); for (int k=0;k<nm;k++) { int c = M[k]->lockcnt(); Quiet q; PCHECK(c==0,"count","after every thread has ended mutex " << k << " counts " << c); } });
	if (contended) src.nontrivial();
}
PTEST(mutexes, 40000) { mutexBody(src); }
// A timed lock on a mutex that is never released ends, without the lock; then the mutex is as it was.
PTEST(timedheld, 6000) {
	Mutex m; int ms = src.draw(5000); int depth = 1+src.draw(3); bool own = src.coin();
	ds::run(src,[&]{ for (int i=0;i<depth;i++) m.lock(); int64_t t0 = env::nowNs;
		int a = ds::spawn([&]{ bool r = m.timedlock(ms); Quiet q; PCHECK(!r,"exclusion","timedlock gave a mutex held by another thread"); PCHECK(env::nowNs-t0>=ms*1000000LL,"early","timedlock of " << ms << " ms failed after " << (env::nowNs-t0)/1000 << " us"); });
		int b = ds::spawn([&]{ bool r = m.trylock(); Quiet q; PCHECK(!r,"exclusion","trylock gave a mutex held by another thread"); });
		ds::join(a); ds::join(b); if (own) { bool r = m.timedlock(ms); Quiet q; PCHECK(r,"reentry","the holder's timedlock failed"); } int c = m.lockcnt(); { Quiet q; PCHECK(c==depth+own,"count","the holder counts " << c << " locks, it has " << depth+own); }
		for (int i=0;i<depth+own;i++) m.unlock(); int d = ds::spawn([&]{ bool r = m.trylock(); Quiet q; PCHECK(r,"left-locked","the mutex is still held after its last unlock"); Quiet q2; m.unlock(); }); ds::join(d); });
	src.nontrivial();
}
static void rwBody(Src &src) {
	int nm = 1+src.draw(2), nt = 2+src.draw(3); std::vector<std::unique_ptr<RWLock> > M; std::vector<Model> mod(nm); for (int i=0;i<nm;i++) M.emplace_back(new RWLock); unsigned contended = 0, shared = 0;
	auto thread = [&](std::vector<std::vector<int> > prog) { int me = ds::self(); std::vector<int> held; 
		auto got = [&](int k, bool w, const char *how) { Quiet q; Model &m = mod[k]; PCHECK(m.writer<0,"exclusion",how << " gave lock " << k << " to thread " << me << " while thread " << m.writer << " writes"); for (int i=0;i<24;i++) if (m.readers[i]) { PCHECK(!w,"exclusion",how << " gave lock " << k << " to writer " << me << " while thread " << i << " reads"); shared++; } if (w) m.writer = me; else m.readers[me]++; held.push_back(k); NOTE("thread " << me << ": " << how << " of lock " << k); };
		auto release = [&](size_t i) { int k = held[i]; Call c(mod[k]); { Quiet q; if (mod[k].writer==me) mod[k].writer = -1; else mod[k].readers[me]--; held.erase(held.begin()+i); NOTE("thread " << me << ": unlock of lock " << k); } M[k]->unlock(); };
		for (auto &op : prog) { int k = op[1]; bool mine = false; for (int h : held) if (h>=k) mine = true; bool holds = false; for (int h : held) if (h==k) holds = true;
			switch (op[0]) {
			case 0: if (mine) break; { Call c(mod[k]); M[k]->wlock(); { Quiet q; if (c.busy) contended++; } got(k,true,"wlock"); } break;
			case 1: if (mine) break; { Call c(mod[k]); M[k]->rlock(); { Quiet q; if (c.busy) contended++; } got(k,false,"rlock"); } break;
			case 2: case 3: { if (holds) break; bool w = op[0]==2; Call c(mod[k]); bool r = w ? M[k]->trywlock() : M[k]->tryrlock(); { Quiet q; PCHECK(!c.waited(),"try-waits","a try-lock waited"); if (!r) { contended++; PCHECK(!c.undisturbed(),"try-fails","a try-lock failed though nobody else held or touched lock " << k); NOTE("thread " << me << ": " << (w?"trywlock":"tryrlock") << " of lock " << k << " failed"); } } if (r) got(k,w,w?"trywlock":"tryrlock"); break; }
			case 4: if (held.size()) release(held.size()-1); break;
			case 5: ds::pass(op[2]); break; }
		}
		while (held.size()) release(held.size()-1); };
	std::vector<std::vector<std::vector<int> > > progs(nt); for (auto &p : progs) { size_t n = 1+src.draw(9); for (size_t i=0;i<n;i++) p.push_back({ (int)src.weighted({3,4,2,2,6,1}), (int)src.draw(nm), (int)src.draw(40) }); }
	ds::run(src,[&]{ for (auto &p : progs) ds::spawn([&,p]{ thread(p); }); ds::joinAll(); });
	if (contended) src.nontrivial(); if (shared) src.label("shared");
}
PTEST(rwlocks, 30000) { rwBody(src); }
// Readers do not keep each other out.
PTEST(readers, 4000) { RWLock l; int n = 2+src.draw(4); bool tr = src.coin(); ds::run(src,[&]{ l.rlock(); for (int i=0;i<n;i++) ds::spawn([&]{ if (tr) { bool r = l.tryrlock(); Quiet q; PCHECK(r,"try-fails","tryrlock failed with readers only"); } else l.rlock(); ds::point(); bool w = l.trywlock(); { Quiet q; PCHECK(!w,"exclusion","trywlock succeeded with readers"); } l.unlock(); }); ds::joinAll(); l.unlock(); bool w = l.trywlock(); { Quiet q; PCHECK(w,"left-locked","the lock is still held after its last unlock"); } l.unlock(); }); src.nontrivial(); }
// Waiters, a signal or a broadcast, and no other wake-ups.
PTEST(wakes, 20000) {
	int n = 1+src.draw(4); std::vector<int> how; for (size_t i=0;i<6;i++) how.push_back(src.draw(3)); bool inside = src.coin(), timed = src.coin(); ds::Opt o; o.spurious = 0; o.timeJumps = false;
	Mutex m; Signal s; int woken = 0;
	ds::run(src,[&]{
		for (int i=0;i<n;i++) ds::spawn([&]{ ScopedLock l(m); if (timed) s.wait(m,10000000); else s.wait(m); int c = m.lockcnt(); Quiet q; woken++; PCHECK(c==1,"count","after a wait the mutex counts " << c << " locks"); });
		ds::idle(); { Quiet q; PCHECK(woken==0,"woken","a waiter was woken by nobody"); }
		int c0 = -1; { bool r = m.trylock(); { Quiet q; PCHECK(r,"held-in-wait","the mutex is held while everybody waits"); } c0 = m.lockcnt(); m.unlock(); Quiet q; PCHECK(c0==1,"count","the only holder counts " << c0 << " locks"); }
		for (size_t i=0; woken<n; i++) { int before = woken; bool all = i>=how.size() || how[i]==2; NOTE((all?"broadcast":"signal") << (inside?" with the mutex held":"") << ", " << n-woken << " waiting"); { if (inside) m.lock(); if (all) s.broadcast(); else s.signal(); if (inside) m.unlock(); } ds::idle();
			Quiet q; if (all) PCHECK(woken==n,"broadcast","a broadcast woke " << woken-before << " of " << n-before << " waiters"); else PCHECK(woken>before,"signal","a signal woke nobody of " << n-before << " waiters"); }
		ds::joinAll(); }, o);
	if (n>1) src.nontrivial();
}
// The usual pattern: a predicate under the mutex, changed and signalled.
PTEST(predicate, 20000) {
	int nw = 1+src.draw(3), ns = 1+src.draw(2); std::vector<int> style; for (int i=0;i<ns;i++) style.push_back(src.draw(4)); std::vector<int> tw; for (int i=0;i<nw;i++) tw.push_back(src.chance(1,3) ? 1+src.draw(50) : 0);
	Mutex m; Signal s; int tokens = 0, need = nw;
	ds::run(src,[&]{
		for (int i=0;i<nw;i++) ds::spawn([&,i]{ ScopedLock l(m); while (tokens==0) { if (tw[i]) { int64_t t0 = env::nowNs; s.wait(m,tw[i]); (void)t0; } else s.wait(m); } tokens--; });
		for (int i=0;i<ns;i++) ds::spawn([&,i]{ for (;;) { ScopedLock *l = new ScopedLock(m); if (need==0) { delete l; return; } need--; tokens++; if (style[i]&1) { if (style[i]&2) s.broadcast(); else s.signal(); delete l; } else { delete l; if (style[i]&2) s.broadcast(); else s.signal(); } ds::point(); } });
		ds::joinAll(); });
	src.nontrivial();
}
// A timed wait nobody signals ends at its timeout and not before.
PTEST(timedwait, 10000) {
	std::vector<long> ms; int n = 1+src.draw(3); for (int i=0;i<n;i++) ms.push_back(src.chance(1,4) ? -(long)src.draw(100) : (long)src.biased(22)); ds::Opt o; o.spurious = 0; Mutex m; Signal s;
	ds::run(src,[&]{ for (int i=0;i<n;i++) ds::spawn([&,i]{ ScopedLock l(m); int64_t t0 = env::nowNs; unsigned st = ds::blocks(ds::self()); s.wait(m,ms[i]); int64_t us = (env::nowNs-t0)/1000; int c = m.lockcnt(); Quiet q; NOTE("a wait of " << ms[i] << " ms took " << us << " us"); PCHECK(c==1,"count","after a timed wait the mutex counts " << c); if (ms[i]<=0) PCHECK(us==0 && ds::blocks(ds::self())==st,"overdue","a wait of " << ms[i] << " ms waited"); else PCHECK(us>=ms[i]*1000,"early","a wait of " << ms[i] << " ms ended after " << us << " us"); });
		ds::joinAll(); }, o);
	src.nontrivial();
}
namespace { struct Flag { bool f; std::string key() const { return f?"1":"0"; } }; }
PTEST(semaphores, 30000) {
	int nt = 2+src.draw(3); std::vector<std::vector<int> > progs(nt); for (auto &p : progs) { size_t n = 1+src.draw(4); for (size_t i=0;i<n;i++) p.push_back(src.weighted({4,3,2})); }
	std::vector<lin::Op<Flag> > ops; uint64_t clk = 0; unsigned waits = 0; Semaphore s;
	ds::run(src,[&]{
		std::vector<int> ids;
		for (auto &p : progs) ids.push_back(ds::spawn([&,p]{ for (int op : p) { size_t id; { Quiet q; id = ops.size(); ops.emplace_back(); ops[id].call = ++clk; ops[id].ret = UINT64_MAX; if (op==0) ops[id].apply = [](Flag &f) { f.f = true; return true; }; else if (op==1) ops[id].apply = [](Flag &f) { if (!f.f) return false; f.f = false; return true; }; else ops[id].apply = [](Flag &) { return true; }; }
			bool r = false; if (op==0) s.post(); else if (op==1) s.get(); else r = s.semtry();
			Quiet q; ops[id].ret = ++clk; if (op==2) { ops[id].apply = [r](Flag &f) { if (f.f!=r) return false; f.f = false; return true; }; } else if (op==1) waits++; NOTE("thread " << ds::self() << ": " << (op==0?"post":op==1?"get":r?"semtry -> true":"semtry -> false")); } }));
		for (int guard=0; guard<60; guard++) { ds::idle(); int stuck = 0; for (int i : ids) stuck += !ds::ended(i); if (!stuck) break;
			// everyone left waits in get(): the flag must be down, and one post lets exactly one of them through
			size_t id; { Quiet q; id = ops.size(); Flag f = { false }; lin::Op<Flag> up; up.call = up.ret = ++clk; up.apply = [](Flag &f) { return !f.f; }; ops.push_back(up); id = ops.size(); ops.emplace_back(); ops[id].call = ++clk; ops[id].ret = UINT64_MAX; ops[id].apply = [](Flag &f) { f.f = true; return true; }; (void)f; }
			unsigned w0 = waits; s.post(); { Quiet q; ops[id].ret = ++clk; } ds::idle(); Quiet q; PCHECK(waits>w0,"lost-post","a post let no one of " << stuck << " waiting threads through"); }
		ds::joinAll(); });
	Flag f = { false }; lin::Check<Flag> c(ops); if (!c.ok(f)) PFAIL("semaphore","no order of the " << ops.size() << " operations explains what they returned");
	if (waits) src.nontrivial();
}

#include "ds.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <time.h>
#include <stdio.h>
#include <unistd.h>
#include <malloc.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <unordered_map>
#include <unordered_set>
#include <exception>
#include <stdexcept>
#include <cxxabi.h>
#include <new>
#include <iostream>

using namespace pbt;
namespace pbt { bool canDraw(size_t n); }
namespace {
const int MAXT = 24;
const size_t STACK = 512*1024;
struct Ctx { void *sp; };
extern "C" void ds_switch(void **from, void *to);
asm(R"(
.text
.globl ds_switch
.type ds_switch,@function
ds_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp,(%rdi)
	movq %rsi,%rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size ds_switch,.-ds_switch
)");
struct VC { uint32_t c[MAXT]; VC() { memset(c,0,sizeof c); } void join(const VC &o) { for (int i=0;i<MAXT;i++) if (o.c[i]>c[i]) c[i] = o.c[i]; } };
enum State { READY, BLOCKED, DONE };
enum Why { W_NONE, W_MUTEX, W_COND, W_RWLOCK, W_JOIN, W_SEM, W_SLEEP, W_IDLE, W_GUARD };
struct Fiber {
	void *sp, *stack; State st; Why why; void *on; bool timed, timedOut, signaled, spurious, detached, joined; int64_t deadline; bool wantWrite;
	void *eh0; unsigned eh1; int err; int quiet; VC vc; std::function<void()> fn; void *(*pfn)(void*); void *parg, *pret; bool harness; uint64_t waitSeq; unsigned nblock; size_t asked; int64_t since, inCond;
};
struct Mtx { int owner, count, type; bool live; VC vc; };
struct Rw { int writer; int readers[MAXT]; VC vc, rvc; };
struct Sem { unsigned n; VC vc; };
struct Guard { int state; int by; VC vc; };   // 0 untouched, 1 running, 2 done

Fiber fib[MAXT]; int nfib, cur = -1; void *mainSp; void *stacks[MAXT];
bool active = false; Src *S; ds::Opt O; unsigned nstep, nsw, spuriousLeft, switchOdds, jumpOdds; uint64_t prng; bool free_; // free_: schedule no longer drawn
bool failed; std::string failSig, failMsg; bool discarded; uint64_t seq;
std::unordered_map<void*,Mtx> mtx; std::unordered_map<void*,Rw> rws; std::unordered_map<void*,Sem> sems; std::unordered_map<void*,Guard> guards; std::unordered_map<void*,VC> atoms;
std::unordered_map<void*,unsigned> names; unsigned nnames[8];
int inRt = 0;   // inside the scheduler itself
struct Rt { Rt() { inRt++; } ~Rt() { inRt--; } };

bool live() { return active && cur>=0 && !inRt; }
std::string nm(const char *k, int kind, void *p) { auto it = names.find(p); unsigned n; if (it==names.end()) { n = ++nnames[kind]; names[p] = n; } else n = it->second; return std::string(k)+std::to_string(n); }
#define TRACE(E) do { if (pbt::gNoting) { std::ostringstream _o; _o << "  [" << cur << "] " << E; pbt::noteText(_o.str()); } } while(0)

// ---- shadow memory
struct Cell { uint32_t clk; uint8_t tid, mask; };
struct Sh { uintptr_t key; uint32_t gen; bool freed; uint8_t nw, nr; Cell w[4], r[8]; };
const size_t NSH = 1<<15; Sh *sh; uint32_t gen = 1; size_t nsh; 
struct Block { size_t n; bool freed; }; std::unordered_map<uintptr_t,Block> *heapBlocks; std::vector<void*> *quarantine;
Sh *find(uintptr_t a, bool make) {
	uintptr_t k = a>>3; size_t h = (k*0x9e3779b97f4a7c15ULL)>>49;
	for (size_t i=0;i<NSH;i++) { Sh &s = sh[(h+i)&(NSH-1)]; if (s.gen!=gen) { if (!make || nsh>NSH/2) return 0; nsh++; s.key = k; s.gen = gen; s.freed = false; s.nw = s.nr = 0; return &s; } if (s.key==k) return &s; }
	return 0;
}
void clearRange(uintptr_t a, size_t n, bool freed) {
	if (n > 1<<16) n = 1<<16;
	for (uintptr_t p = a & ~7UL; p < a+n; p += 8) { Sh *s = find(p,freed); if (s) { s->nw = s->nr = 0; s->freed = freed; } }
}
[[noreturn]] void endCase() { // abandon every thread
	failed = failed; void *dummy; cur = -1; ds_switch(&dummy,mainSp); abort();
}
[[noreturn]] void die(const std::string &sig, const std::string &msg) { inRt++; if (!failed) { failed = true; failSig = sig; failMsg = msg; } endCase(); }
std::string where(void *pc) { Dl_info d; char b[600]; if (!dladdr(pc,&d)) return "?";
	if (pbt::gNoting) { snprintf(b,sizeof b,"addr2line -Cpfse %s 0x%lx 2>/dev/null",d.dli_fname,(long)pc-1-(long)d.dli_fbase); bool a = active; active = false; std::string r; FILE *f = popen(b,"r"); if (f) { if (fgets(b,sizeof b,f)) r = b; pclose(f); } active = a; while (r.size() && r.back()=='\n') r.pop_back(); if (r.size()) return r; }
	if (d.dli_sname) { int st; char *n = abi::__cxa_demangle(d.dli_sname,0,0,&st); std::string r = n?n:d.dli_sname; free(n); return r; } snprintf(b,sizeof b,"code at 0x%lx",(long)pc-(long)d.dli_fbase); return b; }
// A lock's description of who holds it (Mutex::mutext, in the warning printed after a second) reads the lock's bookkeeping
// without holding it, knowingly; it feeds only the message. Reads in the lock class's own code are therefore not judged;
// its writes are.
bool lockText(void *pc) { Dl_info d; return pc && dladdr(pc,&d) && d.dli_sname && strstr(d.dli_sname,"5Mutex"); }
std::unordered_map<uint64_t,void*> *lastPc;
void access(uintptr_t a, size_t n, bool write, void *pc, bool atomic=false);
void accessG(uintptr_t a, uint8_t mask, bool write, void *pc) {
	Sh *s = find(a,true); if (!s) return; Fiber &f = fib[cur]; uint32_t me = f.vc.c[cur];
	if (s->freed) die("use-after-free",std::string(write?"write to":"read of")+" freed memory in "+where(pc));
	if (!write) { for (int i=0;i<s->nr;i++) if (s->r[i].tid==cur && s->r[i].clk==me && (s->r[i].mask&mask)==mask) return; }
	else for (int i=0;i<s->nw;i++) if (s->w[i].tid==cur && s->w[i].clk==me && (s->w[i].mask&mask)==mask) return;
	auto pcOf = [&](int tid, bool w2) -> void* { auto it = lastPc->find(((a>>3)<<6)|(tid<<1)|w2); return it==lastPc->end() ? 0 : it->second; };
	auto chk = [&](Cell *c, int k, bool w2) -> bool { for (int i=0;i<k;i++) if (c[i].tid!=cur && (c[i].mask&mask) && c[i].clk > f.vc.c[c[i].tid]) { void *pc2 = pcOf(c[i].tid,w2);
		if ((!write && lockText(pc)) || (!w2 && lockText(pc2))) return false;
		die("data-race",std::string(write?"write":"read")+" by thread "+std::to_string(cur)+" in "+where(pc)+" is not ordered after the "+(w2?"write":"read")+" of the same memory by thread "+std::to_string(c[i].tid)+(pc2?" in "+where(pc2):"")); }
		return true; };
	if (!chk(s->w,s->nw,true) && !write) return; if (write) chk(s->r,s->nr,false);
	(*lastPc)[((a>>3)<<6)|(cur<<1)|write] = pc;
	Cell *c = write ? s->w : s->r; uint8_t &k = write ? s->nw : s->nr; int cap = write ? 4 : 8;
	for (int i=0;i<k;i++) if (c[i].tid==cur) { if (c[i].clk==me) { c[i].mask |= mask; return; } c[i].clk = me; c[i].mask = mask; return; }
	if (k<cap) { c[k].tid = cur; c[k].clk = me; c[k].mask = mask; k++; return; }
	// full: drop one that is ordered before us if there is one, else the first
	int v = 0; for (int i=0;i<k;i++) if (c[i].clk <= f.vc.c[c[i].tid]) { v = i; break; }
	c[v].tid = cur; c[v].clk = me; c[v].mask = mask;
}
// The standard streams may be used by several threads at once.
std::vector<std::pair<uintptr_t,size_t> > allowed;
bool stream(uintptr_t a) { return (a-(uintptr_t)&std::cerr)<sizeof std::cerr || (a-(uintptr_t)&std::cout)<sizeof std::cout || (a-(uintptr_t)&std::clog)<sizeof std::clog; }
void access(uintptr_t a, size_t n, bool write, void *pc, bool) {
	if (stream(a)) return; for (auto &al : allowed) if (a-al.first<al.second) return;
	while (n) { unsigned off = a&7; size_t k = 8-off < n ? 8-off : n; accessG(a,(uint8_t)(((1u<<k)-1)<<off),write,pc); a += k; n -= k; }
}
uint32_t tickOf() { return ++fib[cur].vc.c[cur]; }
void release(VC &v) { v.join(fib[cur].vc); tickOf(); }
void acquire(const VC &v) { fib[cur].vc.join(v); }

// ---- scheduling
uint64_t rnd() { prng ^= prng<<13; prng ^= prng>>7; prng ^= prng<<17; return prng; }
uint64_t pickN(uint64_t n) { // 0 simplest
	if (n<=1) return 0;
	if (!free_ && nstep<=O.maxSteps && pbt::canDraw(1000)) return S->draw(n);
	return (rnd()>>20)%n;
}
const char *whyName(Why w) { static const char *n[] = {"","a mutex","a condition","a read/write lock","a thread's end","a semaphore","a sleep","the others","an initialisation"}; return n[w]; }
bool runnable(int i) {
	Fiber &f = fib[i]; if (f.st==READY) return true; if (f.st==DONE) return false;
	if (f.timed && f.why!=W_SLEEP && f.why!=W_COND && env::nowNs >= f.deadline) return true;
	switch (f.why) {
	case W_MUTEX: return mtx[f.on].owner<0;
	case W_COND: return f.signaled || f.spurious || (f.timed && env::nowNs>=f.deadline);
	case W_RWLOCK: { Rw &r = rws[f.on]; if (r.writer>=0) return false; if (!f.wantWrite) return true; for (int k : r.readers) if (k) return false; return true; }
	case W_JOIN: return fib[(long)f.on].st==DONE;
	case W_SEM: return sems[f.on].n>0;
	case W_GUARD: return guards[f.on].state!=1;
	case W_SLEEP: return env::nowNs >= f.deadline;
	default: return false;
	}
}
void switchTo(int n) {
	if (n==cur) return;
	Fiber *a = cur>=0 ? &fib[cur] : 0, &b = fib[n]; nsw++;
	void **eh = (void**)abi::__cxa_get_globals();
	if (a) { a->eh0 = eh[0]; a->eh1 = ((unsigned*)eh)[2]; a->err = errno; }
	eh[0] = b.eh0; ((unsigned*)eh)[2] = b.eh1; cur = n;
	int k = inRt; void *dummy; ds_switch(a ? &a->sp : &dummy, b.sp); inRt = k; errno = fib[cur].err;
}
std::string blockedText() { std::ostringstream o; for (int i=0;i<nfib;i++) if (fib[i].st==BLOCKED) o << " thread " << i << " waits for " << whyName(fib[i].why) << (fib[i].why==W_MUTEX && mtx[fib[i].on].owner>=0 ? " held by thread "+std::to_string(mtx[fib[i].on].owner) : std::string()) << ";"; return o.str(); }
bool advance() { // to the next deadline
	int64_t d = INT64_MAX; for (int i=0;i<nfib;i++) if (fib[i].st==BLOCKED && fib[i].timed && fib[i].deadline>env::nowNs && fib[i].deadline<d) d = fib[i].deadline;
	if (d==INT64_MAX) return false; TRACE("time passes: " << (d-env::nowNs)/1000 << " us"); env::nowNs = d; return true;
}
// Chooses who goes on; the current thread's state is already set.
void schedule() {
	nstep++;
	if (nstep > 60000) die("no-progress","after 60000 scheduling points the case has not ended:"+blockedText());
	int list[MAXT]; int n;
	if (O.timeJumps && jumpOdds && nstep<=O.maxSteps && pickN(jumpOdds)==jumpOdds-1) { if (pickN(2)) advance(); else { int64_t us = pickN(2) ? pickN(3000000) : pickN(5000); TRACE("time passes: " << us << " us"); env::nowNs += us*1000; } }
	if (spuriousLeft && nstep<=O.maxSteps && pickN(40)==39) { int k[MAXT], m = 0; for (int i=0;i<nfib;i++) if (fib[i].st==BLOCKED && fib[i].why==W_COND && !fib[i].signaled && !fib[i].spurious) k[m++] = i; if (m) { int w = k[pickN(m)]; fib[w].spurious = true; spuriousLeft--; TRACE("thread " << w << " wakes spuriously"); } }
	for (;;) {
		n = 0; bool self = runnable(cur); if (self) list[n++] = cur;
		for (int i=0;i<nfib;i++) if (i!=cur && runnable(i)) list[n++] = i;
		if (n) { int c = 0; if (n>1) { if (!self) c = pickN(n); else if (nstep>O.maxSteps ? (rnd()>>20)%2 : switchOdds<=1 || pickN(switchOdds)==switchOdds-1) c = 1+pickN(n-1); } switchTo(list[c]); return; }
		// nobody can go on: those waiting for the others to be idle, else time passes
		for (int i=0;i<nfib;i++) if (fib[i].st==BLOCKED && fib[i].why==W_IDLE) { fib[i].st = READY; n = 1; }
		if (n) continue;
		if (advance()) continue;
		die("deadlock","every thread is blocked for ever:"+blockedText());
	}
}
void pointIn() { if (O.maxSteps) schedule(); }
// blocks the current thread until its condition is runnable and it is chosen
void block(Why w, void *on, const struct timespec *dl=0, bool wantWrite=false) {
	Fiber &f = fib[cur]; f.st = BLOCKED; f.why = w; f.on = on; f.timed = dl!=0; f.timedOut = f.signaled = f.spurious = false; f.wantWrite = wantWrite; f.waitSeq = ++seq; f.nblock++; f.since = env::nowNs;
	if (dl) f.deadline = dl->tv_sec*1000000000LL+dl->tv_nsec;
	schedule(); f.st = READY; f.why = W_NONE; if (w==W_COND) f.inCond += env::nowNs-f.since;
}
bool badTs(const struct timespec *t) { return t->tv_nsec<0 || t->tv_nsec>=1000000000L; }
bool due(const struct timespec *t) { return t && env::nowNs >= t->tv_sec*1000000000LL+t->tv_nsec; }
int typeOf(pthread_mutex_t *m) { return ((int*)m)[4]&3; }
Mtx &getM(pthread_mutex_t *m) { auto it = mtx.find(m); if (it==mtx.end()) { Mtx x; x.owner = -1; x.count = 0; x.type = typeOf(m); x.live = true; it = mtx.emplace(m,x).first; } return it->second; }
int lockM(pthread_mutex_t *m, const struct timespec *dl, bool tryOnly) {
	Mtx *x = &getM(m);
	if (x->owner==cur) { if (x->type==PTHREAD_MUTEX_RECURSIVE) { x->count++; return 0; } if (tryOnly) return EBUSY; if (x->type==PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; if (!dl) die("deadlock","a thread locks a plain mutex it already holds"); }
	if (tryOnly) { if (x->owner>=0) return EBUSY; }
	else while (x->owner>=0) { if (due(dl)) return ETIMEDOUT; block(W_MUTEX,m,dl); x = &getM(m); }
	x->owner = cur; x->count = 1; acquire(x->vc); return 0;
}
void unlockM(pthread_mutex_t *m) { Mtx &x = getM(m); if (--x.count==0) { x.owner = -1; release(x.vc); } }
void fiberMain() {
	{ Fiber &f = fib[cur]; inRt = 0;
	try { if (f.pfn) f.pret = f.pfn(f.parg); else f.fn(); }
	catch (Fail &e) { inRt++; if (!failed) { failed = true; failSig = e.sig; failMsg = e.msg; } endCase(); }
	catch (Discard &) { inRt++; discarded = true; endCase(); }
	catch (std::exception &e) { die("unexpected-exception",std::string("unexpected C++ exception in a thread: ")+e.what()); }
	catch (...) { die("unexpected-exception","unexpected C++ exception in a thread"); } }
	inRt++;
	Fiber &f = fib[cur]; f.quiet = 0; tickOf(); f.st = DONE; TRACE("ends"); 
	bool all = true; for (int i=0;i<nfib;i++) all = all && fib[i].st==DONE;
	if (all) endCase();
	schedule(); abort();
}
int newFiber() {
	if (nfib>=MAXT) die("too-many-threads","more threads than the scheduler supports");
	int i = nfib++; Fiber &f = fib[i]; if (!stacks[i]) { stacks[i] = mmap(0,STACK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); mprotect(stacks[i],4096,PROT_NONE); }
	f.stack = stacks[i]; f.st = READY; f.why = W_NONE; f.on = 0; f.timed = f.timedOut = f.signaled = f.spurious = f.detached = f.joined = f.harness = false; f.eh0 = 0; f.eh1 = 0; f.err = 0; f.quiet = 0; f.vc = VC(); f.fn = nullptr; f.nblock = 0; f.asked = 0; f.inCond = 0; f.pfn = 0; f.parg = f.pret = 0;
	uintptr_t *sp = (uintptr_t*)((char*)f.stack+STACK); *--sp = 0; *--sp = (uintptr_t)fiberMain; for (int k=0;k<6;k++) *--sp = 0; f.sp = sp;
	if (cur>=0) { f.vc = fib[cur].vc; tickOf(); } f.vc.c[i]++;
	return i;
}
bool quiet() { return fib[cur].quiet>0; }
}

namespace ds {
std::vector<size_t> createdStacks;
bool running() { return active && cur>=0; }
int self() { return cur; } unsigned steps() { return nstep; } unsigned switches() { return nsw; } unsigned blocks(int i) { return fib[i].nblock; }
Quiet::Quiet() { if (running()) fib[cur].quiet++; } Quiet::~Quiet() { if (running()) fib[cur].quiet--; }
void allow(const void *p, size_t n) { Rt r; allowed.push_back(std::make_pair((uintptr_t)p,n)); }
void forget(const void *p, size_t n) { Rt r; clearRange((uintptr_t)p,n,false); }
void fail(const std::string &s, const std::string &m) { die(s,m); }
void point() { if (live() && !quiet()) { Rt r; pointIn(); } }
int spawn(const std::function<void()> &f) { Rt r; int i = newFiber(); fib[i].fn = f; fib[i].harness = true; pointIn(); return i; }
void join(int id) { Rt r; if (fib[id].st!=DONE) block(W_JOIN,(void*)(long)id); acquire(fib[id].vc); fib[id].joined = true; }
void joinAll() { for (int i=1;i<nfib;i++) if (fib[i].harness && !fib[i].joined) join(i); }
int64_t inCond(int id) { Fiber &f = fib[id]; return f.inCond+(f.st==BLOCKED && f.why==W_COND ? env::nowNs-f.since : 0); } void newWait() { fib[cur].inCond = 0; }
size_t askedStack(int id) { return fib[id].asked; } int threads() { return nfib; }
bool ended(int id) { return fib[id].st==DONE; }
bool waiting(int id) { return fib[id].st==BLOCKED && !runnable(id); }
void idle() { Rt r; Fiber &f = fib[cur]; f.st = BLOCKED; f.why = W_IDLE; f.timed = false; schedule(); f.st = READY; f.why = W_NONE; }
void pass(int64_t ms) { Rt r; int64_t t = env::nowNs+ms*1000000LL; struct timespec ts = { t/1000000000LL, t%1000000000LL }; block(W_SLEEP,0,&ts); }
void run(Src &src, const std::function<void()> &body, const Opt &opt) {
	if (!sh) { sh = (Sh*)mmap(0,sizeof(Sh)*NSH,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); heapBlocks = new std::unordered_map<uintptr_t,Block>; quarantine = new std::vector<void*>; lastPc = new std::unordered_map<uint64_t,void*>; }
	S = &src; O = opt; nfib = 0; cur = -1; nstep = nsw = 0; failed = discarded = free_ = false; seq = 0; gen++; nsh = 0; if (gen==0) { memset(sh,0,sizeof(Sh)*NSH); gen = 1; }
	allowed.clear(); mtx.clear(); rws.clear(); sems.clear(); atoms.clear(); names.clear(); lastPc->clear(); memset(nnames,0,sizeof nnames); createdStacks.clear();
	for (auto it=guards.begin(); it!=guards.end(); ) if (it->second.state!=2) it = guards.erase(it); else { it->second.vc = VC(); ++it; }
	{ static const unsigned odds[] = {8,2,1,3,5,20,100}; switchOdds = odds[src.draw(7)]; static const unsigned j[] = {0,0,60,15,200}; jumpOdds = opt.timeJumps ? j[src.draw(5)] : 0; spuriousLeft = opt.spurious ? src.draw(opt.spurious+1) : 0; prng = 88172645463325252ULL; }
	if (!env::virtualTime) env::setTime(1700000000,0);
	int i = newFiber(); fib[i].fn = body; inRt = 0; active = true;
	void **eh = (void**)abi::__cxa_get_globals(); void *e0 = eh[0]; unsigned e1 = ((unsigned*)eh)[2]; eh[0] = 0; ((unsigned*)eh)[2] = 0;
	cur = i; ds_switch(&mainSp,fib[i].sp);
	active = false; cur = -1; inRt = 0; eh[0] = e0; ((unsigned*)eh)[2] = e1; env::virtualTime = false;
	for (void *p : *quarantine) ::free(p); quarantine->clear(); heapBlocks->clear();
	for (int k=0;k<nfib;k++) fib[k].fn = nullptr;
	if (failed) throw Fail(failSig,failMsg);
	if (discarded) throw Discard();
	for (auto &m : mtx) if (m.second.live && m.second.owner>=0) throw Fail("lock-left","a mutex is still held by thread "+std::to_string(m.second.owner)+" after every thread has ended");
}
}

void dsQuiet(int d) { if (active && cur>=0 && !inRt) fib[cur].quiet += d; }
static struct HookClock { HookClock() { env::onClock = ds::point; } } hookClock;

// ---- the calls
#define OFF(CALL) if (!live()) return CALL; Rt _rt;
extern "C" {
#define REAL(R,N,...) R __real_##N(__VA_ARGS__);
REAL(int,pthread_mutex_init,pthread_mutex_t*,const pthread_mutexattr_t*) REAL(int,pthread_mutex_destroy,pthread_mutex_t*) REAL(int,pthread_mutex_lock,pthread_mutex_t*)
REAL(int,pthread_mutex_trylock,pthread_mutex_t*) REAL(int,pthread_mutex_timedlock,pthread_mutex_t*,const struct timespec*) REAL(int,pthread_mutex_unlock,pthread_mutex_t*)
REAL(int,pthread_cond_init,pthread_cond_t*,const pthread_condattr_t*) REAL(int,pthread_cond_destroy,pthread_cond_t*) REAL(int,pthread_cond_wait,pthread_cond_t*,pthread_mutex_t*)
REAL(int,pthread_cond_timedwait,pthread_cond_t*,pthread_mutex_t*,const struct timespec*) REAL(int,pthread_cond_signal,pthread_cond_t*) REAL(int,pthread_cond_broadcast,pthread_cond_t*)
REAL(int,pthread_rwlock_init,pthread_rwlock_t*,const pthread_rwlockattr_t*) REAL(int,pthread_rwlock_destroy,pthread_rwlock_t*) REAL(int,pthread_rwlock_rdlock,pthread_rwlock_t*) REAL(int,pthread_rwlock_wrlock,pthread_rwlock_t*)
REAL(int,pthread_rwlock_tryrdlock,pthread_rwlock_t*) REAL(int,pthread_rwlock_trywrlock,pthread_rwlock_t*) REAL(int,pthread_rwlock_unlock,pthread_rwlock_t*)
REAL(int,pthread_create,pthread_t*,const pthread_attr_t*,void*(*)(void*),void*) REAL(int,pthread_join,pthread_t,void**) REAL(int,pthread_detach,pthread_t) REAL(pthread_t,pthread_self)
REAL(int,sched_yield) REAL(int,sem_wait,sem_t*) REAL(int,sem_post,sem_t*) REAL(int,sem_trywait,sem_t*) REAL(int,sem_timedwait,sem_t*,const struct timespec*) REAL(int,sem_init,sem_t*,int,unsigned) REAL(int,sem_destroy,sem_t*) REAL(int,sem_getvalue,sem_t*,int*)
REAL(unsigned,sleep,unsigned) REAL(int,usleep,useconds_t) REAL(int,nanosleep,const struct timespec*,struct timespec*) REAL(int,clock_nanosleep,clockid_t,int,const struct timespec*,struct timespec*)
REAL(void*,malloc,size_t) REAL(void,free,void*) REAL(void*,calloc,size_t,size_t) REAL(void*,realloc,void*,size_t) REAL(char*,strdup,const char*)
REAL(int,__cxa_guard_acquire,uint64_t*) REAL(void,__cxa_guard_release,uint64_t*) REAL(void,__cxa_guard_abort,uint64_t*)
REAL(void*,memcpy,void*,const void*,size_t) REAL(void*,memmove,void*,const void*,size_t) REAL(void*,memset,void*,int,size_t) REAL(int,memcmp,const void*,const void*,size_t)
REAL(size_t,strlen,const char*) REAL(char*,strcpy,char*,const char*) REAL(int,strcmp,const char*,const char*)

int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { if (live()) { Rt r; mtx.erase(m); } return __real_pthread_mutex_init(m,a); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { if (live()) { Rt r; auto it = mtx.find(m); if (it!=mtx.end()) { if (it->second.owner>=0) die("destroyed-lock","a mutex is destroyed while thread "+std::to_string(it->second.owner)+" holds it"); for (int i=0;i<nfib;i++) if (fib[i].st==BLOCKED && fib[i].why==W_MUTEX && fib[i].on==m) die("destroyed-lock","a mutex is destroyed while a thread waits for it"); mtx.erase(it); } } return __real_pthread_mutex_destroy(m); }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { OFF(__real_pthread_mutex_lock(m)); if (quiet()) return lockM(m,0,false); pointIn(); int r = lockM(m,0,false); TRACE("lock " << nm("m",0,m)); return r; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { OFF(__real_pthread_mutex_trylock(m)); if (!quiet()) pointIn(); int r = lockM(m,0,true); TRACE("trylock " << nm("m",0,m) << " -> " << r); return r; }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { OFF(__real_pthread_mutex_timedlock(m,t)); if (!quiet()) pointIn(); if (badTs(t)) return EINVAL; int r = lockM(m,t,false); TRACE("timedlock " << nm("m",0,m) << " -> " << r); return r; }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *t) { return __wrap_pthread_mutex_timedlock(m,t); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { OFF(__real_pthread_mutex_unlock(m)); Mtx &x = getM(m);
	if (x.owner!=cur) die("foreign-unlock","thread "+std::to_string(cur)+" unlocks a mutex "+(x.owner<0?std::string("nobody holds"):"that thread "+std::to_string(x.owner)+" holds"));
	unlockM(m); TRACE("unlock " << nm("m",0,m)); if (!quiet()) pointIn(); return 0; }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { return __real_pthread_cond_init(c,a); }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { if (live()) { Rt r; for (int i=0;i<nfib;i++) if (fib[i].st==BLOCKED && fib[i].why==W_COND && fib[i].on==c && !fib[i].signaled) die("destroyed-lock","a condition is destroyed while a thread waits on it"); return 0; } return __real_pthread_cond_destroy(c); }
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
	if (t && badTs(t)) return EINVAL;
	Mtx &x = getM(m); if (x.owner!=cur) die("wait-unlocked","a condition is waited for with a mutex the thread does not hold");
	if (x.count>1) { /* a recursive mutex held more than once is only given up once: it stays locked */ int k = x.count; (void)k; }
	int saved = x.count; if (saved==1) { x.count = 0; x.owner = -1; release(x.vc); } else x.count--;
	TRACE("wait " << nm("c",1,c) << (t?" timed":"")); block(W_COND,c,t); Fiber &f = fib[cur]; bool to = !f.signaled && !f.spurious; TRACE("woken " << nm("c",1,c) << (to?" by timeout":f.signaled?"":" spuriously"));
	if (saved==1) lockM(m,0,false); else getM(m).count++;
	return to ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { OFF(__real_pthread_cond_wait(c,m)); pointIn(); return condWait(c,m,0); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { OFF(__real_pthread_cond_timedwait(c,m,t)); pointIn(); return condWait(c,m,t); }
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) { return __wrap_pthread_cond_timedwait(c,m,t); }
static void wake(pthread_cond_t *c, bool all) { int k[MAXT], n = 0; for (int i=0;i<nfib;i++) if (fib[i].st==BLOCKED && fib[i].why==W_COND && fib[i].on==c && !fib[i].signaled) k[n++] = i;
	if (all) for (int i=0;i<n;i++) fib[k[i]].signaled = true; else if (n) fib[k[pickN(n)]].signaled = true; }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { OFF(__real_pthread_cond_signal(c)); if (!quiet()) pointIn(); TRACE("signal " << nm("c",1,c)); wake(c,false); if (!quiet()) pointIn(); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { OFF(__real_pthread_cond_broadcast(c)); if (!quiet()) pointIn(); TRACE("broadcast " << nm("c",1,c)); wake(c,true); if (!quiet()) pointIn(); return 0; }
// std::condition_variable lives in libstdc++
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *c, void **ul) { __wrap_pthread_cond_wait((pthread_cond_t*)c,(pthread_mutex_t*)*ul); }
void __wrap__ZNSt18condition_variable10notify_oneEv(void *c) { __wrap_pthread_cond_signal((pthread_cond_t*)c); }
void __wrap__ZNSt18condition_variable10notify_allEv(void *c) { __wrap_pthread_cond_broadcast((pthread_cond_t*)c); }

static Rw &getRw(pthread_rwlock_t *l) { auto it = rws.find(l); if (it==rws.end()) { Rw r; r.writer = -1; memset(r.readers,0,sizeof r.readers); it = rws.emplace(l,r).first; } return it->second; }
int __wrap_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) { if (live()) { Rt r; rws.erase(l); } return __real_pthread_rwlock_init(l,a); }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *l) { if (live()) { Rt r; auto it = rws.find(l); if (it!=rws.end()) { bool held = it->second.writer>=0; for (int k : it->second.readers) held = held || k; if (held) die("destroyed-lock","a read/write lock is destroyed while held"); rws.erase(it); } } return __real_pthread_rwlock_destroy(l); }
static bool rwFree(Rw &r, bool w) { if (r.writer>=0) return false; if (w) for (int k : r.readers) if (k) return false; return true; }
static int rwLock(pthread_rwlock_t *l, bool w, bool tryOnly, const struct timespec *t=0) { pointIn(); Rw *r = &getRw(l); if (r->writer==cur) return tryOnly ? EBUSY : EDEADLK;
	while (!rwFree(*r,w)) { if (tryOnly) { TRACE((w?"trywrlock ":"tryrdlock ") << nm("rw",2,l) << " -> busy"); return EBUSY; } if (w && r->readers[cur]) return EDEADLK; if (due(t)) return ETIMEDOUT; block(W_RWLOCK,l,t,w); r = &getRw(l); }
	if (w) { r->writer = cur; acquire(r->vc); acquire(r->rvc); } else { r->readers[cur]++; acquire(r->vc); } TRACE((w?"wrlock ":"rdlock ") << nm("rw",2,l)); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *l) { OFF(__real_pthread_rwlock_rdlock(l)); return rwLock(l,false,false); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *l) { OFF(__real_pthread_rwlock_wrlock(l)); return rwLock(l,true,false); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { OFF(__real_pthread_rwlock_tryrdlock(l)); return rwLock(l,false,true); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { OFF(__real_pthread_rwlock_trywrlock(l)); return rwLock(l,true,true); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *l) { OFF(__real_pthread_rwlock_unlock(l)); Rw &r = getRw(l); if (r.writer==cur) { r.writer = -1; release(r.vc); } else if (r.readers[cur]) { r.readers[cur]--; release(r.rvc); } else die("foreign-unlock","a thread unlocks a read/write lock it does not hold"); TRACE("rwunlock " << nm("rw",2,l)); pointIn(); return 0; }

int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void*), void *arg) { OFF(__real_pthread_create(t,a,fn,arg)); size_t sz = 0; if (a) pthread_attr_getstacksize(a,&sz); ds::createdStacks.push_back(sz); int det = 0; if (a) pthread_attr_getdetachstate(a,&det);
	int i = newFiber(); fib[i].asked = sz; fib[i].pfn = fn; fib[i].parg = arg; fib[i].detached = det==PTHREAD_CREATE_DETACHED; *t = (pthread_t)(0x1000+i); TRACE("creates thread " << i); pointIn(); return 0; }
int __wrap_pthread_join(pthread_t t, void **ret) { OFF(__real_pthread_join(t,ret)); long i = (long)t-0x1000; if (i<0 || i>=nfib) return ESRCH; if (fib[i].joined || fib[i].detached) die("bad-join","a thread is joined twice, or after being detached"); pointIn(); if (fib[i].st!=DONE) block(W_JOIN,(void*)i); fib[i].joined = true; acquire(fib[i].vc); if (ret) *ret = fib[i].pret; TRACE("joined thread " << i); return 0; }
int __wrap_pthread_detach(pthread_t t) { OFF(__real_pthread_detach(t)); long i = (long)t-0x1000; if (i>=0 && i<nfib) fib[i].detached = true; return 0; }
pthread_t __wrap_pthread_self() { if (!active || cur<0) return __real_pthread_self(); return (pthread_t)(0x1000+cur); }
int __wrap_sched_yield() { OFF(__real_sched_yield()); pointIn(); return 0; }

static Sem &getS(sem_t *s) { auto it = sems.find(s); if (it==sems.end()) { Sem x; int v = 0; __real_sem_getvalue(s,&v); x.n = v<0?0:v; it = sems.emplace(s,x).first; } return it->second; }
int __wrap_sem_init(sem_t *s, int p, unsigned n) { if (live()) { Rt r; Sem x; x.n = n; sems[s] = x; } return __real_sem_init(s,p,n); }
int __wrap_sem_destroy(sem_t *s) { if (live()) { Rt r; sems.erase(s); } return __real_sem_destroy(s); }
int __wrap_sem_wait(sem_t *s) { OFF(__real_sem_wait(s)); pointIn(); while (!getS(s).n) block(W_SEM,s); getS(s).n--; acquire(getS(s).vc); return 0; }
int __wrap_sem_trywait(sem_t *s) { OFF(__real_sem_trywait(s)); pointIn(); if (!getS(s).n) { errno = EAGAIN; return -1; } getS(s).n--; acquire(getS(s).vc); return 0; }
int __wrap_sem_timedwait(sem_t *s, const struct timespec *t) { OFF(__real_sem_timedwait(s,t)); pointIn(); if (badTs(t)) { errno = EINVAL; return -1; } while (!getS(s).n) { if (due(t)) { errno = ETIMEDOUT; return -1; } block(W_SEM,s,t); } getS(s).n--; acquire(getS(s).vc); return 0; }
int __wrap_sem_post(sem_t *s) { OFF(__real_sem_post(s)); pointIn(); getS(s).n++; release(getS(s).vc); pointIn(); return 0; }
int __wrap_sem_getvalue(sem_t *s, int *v) { OFF(__real_sem_getvalue(s,v)); *v = getS(s).n; return 0; }

static void napNs(int64_t ns) { if (quiet()) { env::nowNs += ns; return; } int64_t t = env::nowNs+ns; struct timespec ts = { t/1000000000LL, t%1000000000LL }; TRACE("sleeps " << ns/1000 << " us"); block(W_SLEEP,0,&ts); }
#define NAP(NS,CALL,RET) if (!live()) { if (env::virtualTime) { env::nowNs += (NS); return RET; } return CALL; } Rt _rt; napNs(NS); return RET;
unsigned __wrap_sleep(unsigned s) { NAP(s*1000000000LL,__real_sleep(s),0) }
int __wrap_usleep(useconds_t u) { NAP(u*1000LL,__real_usleep(u),0) }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { NAP(a->tv_sec*1000000000LL+a->tv_nsec,__real_nanosleep(a,b),0) }
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) { int64_t t = a->tv_sec*1000000000LL+a->tv_nsec; if (fl&TIMER_ABSTIME) t = t>env::nowNs ? t-env::nowNs : 0; NAP(t,__real_clock_nanosleep(c,fl,a,b),0) }

// function-local statics
int __wrap___cxa_guard_acquire(uint64_t *g) { OFF(__real___cxa_guard_acquire(g));
	if (*(char*)g) { auto it = guards.find(g); if (it!=guards.end()) acquire(it->second.vc); return 0; }
	pointIn(); while (guards[g].state==1 && !*(char*)g) { if (guards[g].by==cur) die("deadlock","recursive initialisation of a static"); block(W_GUARD,g); }
	Guard &x = guards[g]; if (*(char*)g) { acquire(x.vc); return 0; } x.state = 1; x.by = cur; return 1; }
void __wrap___cxa_guard_release(uint64_t *g) { OFF(__real___cxa_guard_release(g)); *(char*)g = 1; Guard &x = guards[g]; x.state = 2; release(x.vc); release(atoms[g]); }
void __wrap___cxa_guard_abort(uint64_t *g) { OFF(__real___cxa_guard_abort(g)); guards[g].state = 0; }

// ---- memory
static void *made(void *p, size_t n, bool fill) { if (!p || !sh) return p; if (!live()) return p; Rt r; if (fill && n<=65536) __real_memset(p,0xad,n); clearRange((uintptr_t)p,n,false); Block b = { n, false }; (*heapBlocks)[(uintptr_t)p] = b; return p; }
static bool dropped(void *p, void *pc) { // true: the block stays in quarantine
	if (!p || !live()) return false; Rt r;
	auto it = heapBlocks->find((uintptr_t)p); if (it==heapBlocks->end()) { clearRange((uintptr_t)p,malloc_usable_size(p),false); return false; }
	if (it->second.freed) die("double-free","memory freed twice, the second time in "+where(pc));
	size_t n = it->second.n; if (!quiet()) access((uintptr_t)p,n<4096?n:4096,true,pc);
	it->second.freed = true; clearRange((uintptr_t)p,n<4096?n:4096,true); quarantine->push_back(p); return true; }
void *__wrap_malloc(size_t n) { return made(__real_malloc(n),n,true); }
void *__real___cxa_allocate_exception(size_t);
void *__wrap___cxa_allocate_exception(size_t n) { void *p = __real___cxa_allocate_exception(n); if (live()) { Rt r; clearRange((uintptr_t)p,n,false); } return p; }
void *__wrap_calloc(size_t a, size_t b) { return made(__real_calloc(a,b),a*b,false); }
void __wrap_free(void *p) { if (!dropped(p,__builtin_return_address(0))) __real_free(p); }
void *__wrap_realloc(void *p, size_t n) { if (!live() || !p) return made(__real_realloc(p,n),n,false); void *q = __wrap_malloc(n); if (!q) return 0; size_t o; { Rt r; auto it = heapBlocks->find((uintptr_t)p); o = it==heapBlocks->end() ? malloc_usable_size(p) : it->second.n; } __real_memcpy(q,p,o<n?o:n); __wrap_free(p); return q; }
char *__wrap_strdup(const char *s) { size_t n = __real_strlen(s)+1; char *p = (char*)__wrap_malloc(n); if (p) __real_memcpy(p,s,n); return p; }

#define PC __builtin_return_address(0)
#define TRK (active && cur>=0 && !inRt && !fib[cur].quiet)
static inline void rd(const void *p, size_t n, void *pc) { if (!TRK) return; Rt r; if (O.accessPoints && pickN(60)==59) pointIn(); access((uintptr_t)p,n,false,pc); }
static inline void wr(const void *p, size_t n, void *pc) { if (!TRK) return; Rt r; if (O.accessPoints && pickN(60)==59) pointIn(); access((uintptr_t)p,n,true,pc); }
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { rd(s,n,PC); wr(d,n,PC); } return __real_memcpy(d,s,n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { rd(s,n,PC); wr(d,n,PC); } return __real_memmove(d,s,n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n) wr(d,n,PC); return __real_memset(d,c,n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (n) { rd(a,n,PC); rd(b,n,PC); } return __real_memcmp(a,b,n); }
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); rd(s,n+1,PC); return n; }
char *__wrap_strcpy(char *d, const char *s) { size_t n = __real_strlen(s)+1; rd(s,n,PC); wr(d,n,PC); __real_memcpy(d,s,n); return d; }
int __wrap_strcmp(const char *a, const char *b) { if (TRK) { size_t n = 0; while (a[n] && a[n]==b[n]) n++; rd(a,n+1,PC); rd(b,n+1,PC); } return __real_strcmp(a,b); }
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void *p) { rd(p,N,PC); } void __tsan_write##N(void *p) { wr(p,N,PC); } void __tsan_unaligned_read##N(void *p) { rd(p,N,PC); } void __tsan_unaligned_write##N(void *p) { wr(p,N,PC); } void __tsan_volatile_read##N(void *p) { rd(p,N,PC); } void __tsan_volatile_write##N(void *p) { wr(p,N,PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (n) rd(p,n,PC); } void __tsan_write_range(void *p, size_t n) { if (n) wr(p,n,PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) wr(p,8,PC); } void __tsan_vptr_read(void **p) { rd(p,8,PC); }
static void atomicPoint(const volatile void *p) { if (!TRK) return; Rt r; pointIn(); VC &v = atoms[(void*)p]; acquire(v); release(v); }
#define AT(B,T) \
T __tsan_atomic##B##_load(const volatile T *p, int) { atomicPoint(p); return *p; } \
void __tsan_atomic##B##_store(volatile T *p, T v, int) { atomicPoint(p); *p = v; } \
T __tsan_atomic##B##_exchange(volatile T *p, T v, int) { atomicPoint(p); T o = *p; *p = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) { atomicPoint(p); T o = *p; *p = o+v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) { atomicPoint(p); T o = *p; *p = o-v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) { atomicPoint(p); T o = *p; *p = o&v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) { atomicPoint(p); T o = *p; *p = o|v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int) { atomicPoint(p); T o = *p; *p = o^v; return o; } \
T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int) { atomicPoint(p); T o = *p; *p = ~(o&v); return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { atomicPoint(p); if (*p==*e) { *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { atomicPoint(p); if (*p==*e) { *p = v; return 1; } *e = *p; return 0; } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int, int) { atomicPoint(p); T o = *p; if (o==e) *p = v; return o; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
void *operator new(size_t n) { void *p = __real_malloc(n?n:1); if (!p) throw std::bad_alloc(); return made(p,n?n:1,true); }
void *operator new[](size_t n) { void *p = __real_malloc(n?n:1); if (!p) throw std::bad_alloc(); return made(p,n?n:1,true); }
void operator delete(void *p) noexcept { if (!dropped(p,PC)) __real_free(p); }
void operator delete[](void *p) noexcept { if (!dropped(p,PC)) __real_free(p); }
void operator delete(void *p, size_t) noexcept { if (!dropped(p,PC)) __real_free(p); }
void operator delete[](void *p, size_t) noexcept { if (!dropped(p,PC)) __real_free(p); }

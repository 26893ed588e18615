// C14: queues and lists, used from one thread.
#include "common.h"
#include "Interthread.h"
#include <set>
#include <deque>
#include <memory>
using namespace pbt;
static std::set<void*> gLive; static int gBadFree;
struct El { El *mNext; El *next() { return mNext; } void setNext(El *e) { mNext = e; } int id; unsigned sz; El(int i, unsigned s=1):mNext((El*)16),id(i),sz(s) { Untracked u; gLive.insert(this); } El(const El&); virtual ~El() { if (!gLive.erase(this)) gBadFree++; } virtual unsigned size() { return sz; } };
typedef std::deque<El*> Model;
struct World {
	std::vector<El*> mine; int next, big;
	World():next(0),big(0) { gLive.clear(); gBadFree = 0; }
	~World() { for (El *e : mine) if (gLive.count(e)) delete e; }
	El *make(Src &src) { El *e = new El(next++,src.chance(1,8) ? (unsigned)src.biased(24) : (unsigned)src.draw(50)); NOTE("  element " << e->id << " size " << e->sz); return e; }
	El *plain() { return new El(next++,next%50); }
	void take(El *e) { mine.push_back(e); }
	// every element is held by the container or by the caller
	void held(const Model &m, const char *when) {
		if (m.size()>2000 && ++big%16) return;
		PCHECK(!gBadFree,"double-free","an element was released twice " << when);
		std::set<void*> want; for (El *e : m) want.insert(e); for (El *e : mine) want.insert(e);
		PCHECK(want==gLive,"ownership",when << ": " << gLive.size() << " elements exist, " << m.size() << " are held and " << mine.size() << " were handed out");
	}
};
static std::string ids(const Model &m) { std::string r; for (El *e : m) r += std::to_string(e->id)+" "; return r; }
static std::string idof(void *e) { return !e ? "nothing" : gLive.count(e) ? std::to_string(((El*)e)->id) : "a dead element"; }
#define SAME(GOT,WANT,WHAT) do { El *_g = (GOT), *_w = (WANT); PCHECK(_g==_w,"order",WHAT << " gave " << idof(_g) << ", expected " << idof(_w)); } while(0)
static El *popf(Model &m) { if (m.empty()) return 0; El *e = m.front(); m.pop_front(); return e; }
static El *popb(Model &m) { if (m.empty()) return 0; El *e = m.back(); m.pop_back(); return e; }
static void ptrlist(Src &src) {
	World w; Model m; { std::unique_ptr<PtrList<El> > l(new PtrList<El>); size_t n = src.len(40); if (n>4) src.nontrivial();
	size_t many = src.burst(); if (many) NOTE(many << " elements put"); for (size_t i=0;i<many;i++) { El *e = w.plain(); l->put(e); m.push_back(e); }
	for (size_t i=0;i<n;i++) {
		switch (src.draw(9)) {
		case 0: { El *e = w.make(src); l->put(e); m.push_back(e); break; }
		case 1: { El *e = w.make(src); l->push_front(e); m.push_front(e); break; }
		case 2: { El *e = w.make(src); l->push_back(e); m.push_back(e); break; }
		case 3: { NOTE("get"); El *e = l->get(); SAME(e,popf(m),"get"); if (e) w.take(e); break; }
		case 4: { NOTE("pop_frontr"); El *e = l->pop_frontr(); SAME(e,popf(m),"pop_frontr"); if (e) w.take(e); break; }
		case 5: { NOTE("pop_backr"); El *e = l->pop_backr(); SAME(e,popb(m),"pop_backr"); if (e) w.take(e); break; }
		case 6: if (!m.empty()) { size_t k = src.draw(m.size()); NOTE("erase " << k); PtrList<El>::iter_t it = l->begin(); std::advance(it,k); w.take(*it); l->erase(it); m.erase(m.begin()+k); } break;
		case 7: if (src.chance(1,5)) { NOTE("clear"); for (El *e : m) w.take(e); l->clear(); m.clear(); } break;
		default: { size_t k = 0; for (PtrList<El>::iter_t it = l->begin(); it != l->end(); ++it,k++) { PCHECK(k<m.size(),"iterate","iteration shows more than " << m.size()); SAME(*it,m[k],"iteration at " << k); } PCHECK(k==m.size(),"iterate","iteration shows " << k << " of " << m.size()); }
		}
		PCHECK(l->size()==m.size() && l->empty()==m.empty(),"size","size is " << l->size() << ", it holds " << ids(m)); w.held(m,"after an operation");
	}
	}
	for (El *e : m) w.take(e); m.clear(); w.held(m,"after the list is gone");
}
// PointerFIFO and SingleLinkList share most of their interface
static void fifo(Src &src) {
	World w; Model m; std::unique_ptr<PointerFIFO> l; { Untracked u; l.reset(new PointerFIFO); } size_t n = src.len(60); if (n>4) src.nontrivial();
	size_t many = src.burst(); if (many) NOTE(many << " elements put"); for (size_t i=0;i<many;i++) { El *e = w.plain(); l->put(e); m.push_back(e); }
	for (size_t i=0;i<n;i++) {
		switch (src.weighted({4,2,5,1})) {
		case 0: { El *e = w.make(src); NOTE("put"); l->put(e); m.push_back(e); break; }
		case 1: { El *e = w.make(src); NOTE("push_front"); l->push_front(e); m.push_front(e); break; }
		case 2: { NOTE("get"); El *e = (El*)l->get(); SAME(e,popf(m),"get"); if (e) w.take(e); break; }
		default: break;
		}
		SAME((El*)l->front(),m.empty()?0:m.front(),"front"); PCHECK(l->size()==m.size(),"size","size is " << l->size() << ", it holds " << ids(m)); w.held(m,"after an operation");
	}
	while (!m.empty()) { El *e = (El*)l->get(); SAME(e,popf(m),"get"); w.take(e); } PCHECK(!l->get() && l->size()==0,"size","the emptied fifo is not empty");
}
static void slist(Src &src) {
	World w; Model m; std::unique_ptr<SingleLinkList<El> > l(new SingleLinkList<El>); size_t n = src.len(60); if (n>4) src.nontrivial();
	size_t many = src.burst(); if (many) NOTE(many << " elements put"); for (size_t i=0;i<many;i++) { El *e = w.plain(); l->put(e); m.push_back(e); }
	for (size_t i=0;i<n;i++) {
		El *again = !w.mine.empty()&&src.chance(1,4) ? w.mine.back() : 0;  // an element may be put back
		auto fresh = [&]() { if (again) { w.mine.pop_back(); NOTE("  element " << again->id << " again"); return again; } return w.make(src); };
		switch (src.draw(6)) {
		case 0: { El *e = fresh(); NOTE("put"); l->put(e); m.push_back(e); break; }
		case 1: { El *e = fresh(); NOTE("push_front"); l->push_front(e); m.push_front(e); break; }
		case 2: { El *e = fresh(); NOTE("push_back"); l->push_back(e); m.push_back(e); break; }
		case 3: { NOTE("get"); El *e = (El*)l->get(); SAME(e,popf(m),"get"); if (e) { PCHECK(!e->next(),"detached","a popped element still points at another"); w.take(e); } break; }
		default: { NOTE("pop_front"); El *e = (El*)l->pop_front(); SAME(e,popf(m),"pop_front"); if (e) { PCHECK(!e->next(),"detached","a popped element still points at another"); w.take(e); } }
		}
		unsigned tot = 0; for (El *e : m) tot += e->sz;
		SAME(l->front(),m.empty()?0:m.front(),"front"); SAME(l->back(),m.empty()?0:m.back(),"back"); PCHECK(l->size()==m.size() && l->totalSize()==tot,"size","size is " << l->size() << " and total " << l->totalSize() << ", it holds " << ids(m) << "of total " << tot); w.held(m,"after an operation");
	}
	for (El *e : m) w.take(e); m.clear();
}
typedef InterthreadQueue<El> Q1; typedef InterthreadQueue<El,SingleLinkList<El> > Q2; typedef InterthreadQueueWithWait<El> Q3;
static void total(Q1 &, const Model &) {}
static void total(Q2 &q, const Model &m) { unsigned t = 0; for (El *e : m) t += e->sz; PCHECK(q.totalSize()==t,"size","total size is " << q.totalSize() << ", it holds " << t); }
static void total(Q3 &, const Model &) {}
static void iter(Q1 &q, const Model &m) { ScopedLock l(q.qGetLock()); size_t k = 0; for (Q1::iterator it = q.begin(); it != q.end(); ++it,k++) { PCHECK(k<m.size(),"iterate","iteration shows more than " << m.size()); SAME(*it,m[k],"iteration at " << k); } PCHECK(k==m.size(),"iterate","iteration shows " << k << " of " << m.size());
	const Q1 &c = q; k = 0; for (Q1::const_iterator it = c.begin(); it != c.end(); ++it,k++) SAME(*it,k<m.size()?m[k]:0,"constant iteration at " << k); PCHECK(k==m.size(),"iterate","constant iteration shows " << k << " of " << m.size()); }
static void iter(Q2 &, const Model &) {}
static void iter(Q3 &, const Model &) {}
template<class Q> static void wfront(Q &q, El *e) { q.write_front(e); }
static void wfront(Q3 &, El *) {}
template<class Q> static bool hasFront(Q &) { return true; }
static bool hasFront(Q3 &) { return false; }
template<class Q> static El *front(Q &q) { return q.front(); }
static El *front(Q3 &) { return 0; }
template<class Q> static void flush(Q &q) { q.flushNoDelete(); }
static void flush(Q3 &q) {}
static void drain(Q3 &q, size_t n) { q.wait(n); }
template<class Q> static void drain(Q &, size_t) {}
static void connect(Q1 &a, Q1 &b) { a.iqConnect(b); }
static void connect(Q2 &a, Q2 &b) { a.iqConnect(b); }
static void connect(Q3 &, Q3 &) {}
static void either(Q3 &, Q3 &, unsigned) {}
template<class Q> static void either(Q &a, Q &b, unsigned t) { a.iqWaitForEither(b,t); }
template<class Q> static void queue(Src &src) {
	struct Reset { ~Reset(){ env::virtualTime = false; } } reset; env::setTime(1000000+src.draw(1000),src.draw(1000)*1000000+src.draw(1000)*1000);
	World w; Model m[2]; int k; std::unique_ptr<Q> q[2]; { std::unique_ptr<Untracked> u; if (!hasFront(*(Q*)0)) u.reset(new Untracked); q[0].reset(new Q); q[1].reset(new Q); } bool conn = hasFront(*q[0]) && src.coin(); if (conn) { NOTE("connected"); connect(*q[0],*q[1]); }
	size_t n = src.len(60); if (n>4) src.nontrivial();
	size_t many = src.burst(); if (many) NOTE("0: " << many << " elements written"); for (size_t i=0;i<many;i++) { El *e = w.plain(); q[0]->write(e); m[0].push_back(e); }
	for (size_t i=0;i<n;i++) {
		k = (int)src.draw(2); Q &a = *q[k]; Model &b = m[k]; El *e;
		switch (src.weighted({5,2,2,2,2,2,1,1,1,2,1})) {
		case 0: e = w.make(src); NOTE(k << " write"); a.write(e); b.push_back(e); break;
		case 1: if (hasFront(a)) { e = w.make(src); NOTE(k << " write_front"); wfront(a,e); b.push_front(e); } break;
		case 2: NOTE(k << " readNoBlock"); e = a.readNoBlock(); SAME(e,popf(b),"readNoBlock"); if (e) w.take(e); break;
		case 3: if (!b.empty()) { NOTE(k << " read"); e = a.read(); SAME(e,popf(b),"read"); w.take(e); } break;
		case 4: NOTE(k << " read(0)"); e = a.read(0); SAME(e,popf(b),"read(0)"); if (e) w.take(e); break;
		case 5: { unsigned t = 1+(unsigned)src.draw(5000); int64_t at = env::nowNs; bool had = !b.empty(); NOTE(k << " read(" << t << ")"); e = a.read(t); SAME(e,popf(b),"read(" << t << ")"); if (e) w.take(e); int64_t took = (env::nowNs-at)/1000; if (had) PCHECK(took==0,"waited","a read with something there took " << took << " us"); else PCHECK(took>=(int64_t)t*1000-2000-1,"gave-up","a read of " << t << " ms gave up after " << took << " us"); break; }
		case 6: NOTE(k << " clear"); a.clear(); b.clear(); break;
		case 7: if (hasFront(a)) { NOTE(k << " flushNoDelete"); flush(a); for (El *x : b) w.take(x); b.clear(); } break;
		case 8: { size_t lim = b.size()+src.draw(3); NOTE(k << " wait(" << lim << ")"); drain(a,lim); break; }
		case 9: iter(a,b); break;
		default: if (conn && k==0) { unsigned t = 1+(unsigned)src.draw(3000); int64_t at = env::nowNs; bool had = !m[0].empty() || !m[1].empty(); if (had && src.coin()) t = 0; NOTE("wait for either " << t); if (had || t) { either(*q[0],*q[1],t); int64_t took = (env::nowNs-at)/1000; if (had) PCHECK(took==0,"waited","waiting for either with something there took " << took << " us"); else PCHECK(took>=(int64_t)t*1000-2000-1,"gave-up","waiting " << t << " ms for either ended after " << took << " us"); } }
		}
		Model both; for (int j=0;j<2;j++) { PCHECK(q[j]->size()==m[j].size(),"size","queue " << j << " has size " << q[j]->size() << ", it holds " << ids(m[j])); total(*q[j],m[j]); if (hasFront(*q[j])) SAME(front(*q[j]),m[j].empty()?0:m[j].front(),"front"); for (El *x : m[j]) both.push_back(x); }
		w.held(both,"after an operation");
	}
	k = src.coin(); if (conn) k = 0; // the queue that borrows the other's lock goes first
	q[k].reset(); m[k].clear(); w.held(m[1-k],"after one queue is destroyed"); q[1-k].reset(); m[1-k].clear(); w.held(m[0],"after both queues are destroyed");
}
// A queue whose elements are released by the user's own rule.
struct Kept : public InterthreadQueueWithWait<El> { World *w; mutable int released; Kept():released(0) {} ~Kept() { clear(); } void freeElement(El *e) const { released++; w->take(e); } };
static void custom(Src &src) {
	World w; Untracked u; Kept q; q.w = &w; size_t n = 1+src.draw(12); for (size_t i=0;i<n;i++) q.write(w.make(src)); size_t r = src.draw(n+1); for (size_t i=0;i<r;i++) w.take(q.read());
	q.clear(); Model none; PCHECK(q.released==(int)(n-r) && q.size()==0,"release-rule","clearing " << n-r << " elements released " << q.released << " by the user's rule"); w.held(none,"after the clear"); if (n>2) src.nontrivial();
}
// A fifo's memory is bounded by the most it ever held.
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
PTEST_NOFUZZ(fifomemory, 2000) {
	if (!__sanitizer_get_current_allocated_bytes) return;
	static int things[40]; Untracked u; std::vector<unsigned char> plan; size_t held = src.draw(20), n = 20+src.draw(60); for (size_t i=0;i<n;i++) plan.push_back(src.draw(4)); bool inter = src.coin();
	PointerFIFO *f = new PointerFIFO; for (size_t i=0;i<held+1;i++) f->put(things+i); f->get(); size_t start = __sanitizer_get_current_allocated_bytes();
	for (size_t i=0;i<n;i++) { if (plan[i]==0) f->push_front(things); else f->put(things+plan[i]); if (inter) f->front(); f->get(); }
	size_t end = __sanitizer_get_current_allocated_bytes(); NOTE(held << " elements held, " << n << " put and taken"); PCHECK(f->size()==held,"size","the fifo holds " << f->size()); src.nontrivial();
	PCHECK(end<=start+64,"grows","putting and taking " << n << " elements with " << held << " held made the fifo grow by " << end-start << " bytes");
	while (f->get()) {} delete f;
}
// The same through any history: it only grows when it holds more than ever before.
PTEST_NOFUZZ(fifogrowth, 4000) {
	if (!__sanitizer_get_current_allocated_bytes) return;
	static int things[8]; Untracked u; std::vector<std::pair<unsigned char,unsigned char>> plan; size_t n = 3+src.draw(40); for (size_t i=0;i<n;i++) { unsigned char k = src.draw(5); plan.push_back({k,(unsigned char)(src.chance(1,4) ? 1+src.draw(60) : src.draw(6))}); } size_t rounds = src.chance(1,4) ? 1+src.draw(20) : 1;
	PointerFIFO *f = new PointerFIFO; f->put(things); f->get(); size_t size = 0, peak = 1, allowed = __sanitizer_get_current_allocated_bytes(), drains = 0;
	for (size_t r=0;r<rounds;r++) for (auto &p : plan) {
		for (size_t i=0;i<p.second;i++) if (p.first==0) { f->push_front(things+1); size++; } else if (p.first<=2) { f->put(things+2); size++; } else if (p.first==3) { if (f->get()) { size--; drains += !size; } } else { while (f->get()) { size--; drains += !size; } break; }
		size_t now = __sanitizer_get_current_allocated_bytes(); if (size>peak) { peak = size; if (now>allowed) allowed = now; }
		PCHECK(f->size()==size,"size","the fifo says it holds " << f->size() << ", not " << size);
		PCHECK(now<=allowed+64,"grows","a fifo that never held more than " << peak << " elements takes " << now-allowed << " bytes more than when it held them, after being emptied " << drains << " times");
	}
	NOTE(n << " bursts, " << rounds << " times, at most " << peak << " held, emptied " << drains << " times"); if (drains>1 && peak>2) src.nontrivial();
	while (f->get()) {} delete f;
}
PTEST(ptrlist, 60000) { noLeakCase("leak",src,ptrlist); }
PTEST(pointerfifo, 60000) { fifo(src); }
PTEST(singlelist, 60000) { noLeakCase("leak",src,slist); }
PTEST(queue, 60000) { noLeakCase("leak",src,queue<Q1>); }
PTEST(listqueue, 60000) { noLeakCase("leak",src,queue<Q2>); }
PTEST(waitqueue, 60000) { queue<Q3>(src); }
PTEST(releaserule, 20000) { custom(src); }

// C15: inter-thread queues shared by several threads under drawn schedules, judged by linearizability against plain queues
// and by what may be left waiting when nothing more can happen.
#include "qkit.h"
#include "Interthread.h"
#include <memory>
#include <deque>
using namespace pbt; using namespace qk;
namespace {
struct St { std::deque<int> q[3]; std::string key() const { std::string k; for (auto &d : q) { for (int i : d) k += std::to_string(i)+","; k += ";"; } return k; } };
typedef lin::Op<St> Op;
typedef InterthreadQueue<El> Q1; typedef InterthreadQueue<El,SingleLinkList<El> > Q2; typedef InterthreadQueueWithWait<El> Q3;
template<class Q> struct Is { enum { front = 1, drain = 0, iter = 0 }; };
template<> struct Is<Q1> { enum { front = 1, drain = 0, iter = 1 }; };
template<> struct Is<Q3> { enum { front = 0, drain = 1, iter = 0 }; };
template<class Q> void wfront(Q &q, El *e) { q.write_front(e); } void wfront(Q3 &, El *) {}
template<class Q> El *front(Q &q) { return q.front(); } El *front(Q3 &) { return 0; }
template<class Q> void flush(Q &q) { q.flushNoDelete(); } void flush(Q3 &) {}
template<class Q> void drain(Q &, size_t) {} void drain(Q3 &q, size_t n) { q.wait(n); }
template<class Q> std::vector<void*> listing(Q &) { return std::vector<void*>(); } 
std::vector<void*> listing(Q1 &q) { std::vector<void*> r; ScopedLock l(q.qGetLock()); for (Q1::iterator it=q.begin(); it!=q.end(); ++it) { void *p = *it; Quiet z; r.push_back(p); } return r; }
template<class Q> void connect(Q &a, Q &b) { a.iqConnect(b); } void connect(Q3 &, Q3 &) {}
template<class Q> void either(Q &a, Q &b, unsigned t) { a.iqWaitForEither(b,t); } void either(Q3 &, Q3 &, unsigned) {}

template<class Q> struct Run {
	Src &src; World w; std::vector<Op> ops; std::unique_ptr<Q> q[3]; int nq; unsigned blockedReads, timeouts; std::vector<El*> mine;
	Run(Src &s):src(s),nq(1),blockedReads(0),timeouts(0) { W = &w; }
	size_t begin() { Quiet z; ops.emplace_back(); Op &o = ops.back(); o.call = ++w.clock; o.ret = UINT64_MAX; o.apply = [](St&) { return true; }; return ops.size()-1; }
	void end(size_t id, const std::string &text, std::function<bool(St&)> f) { ops[id].ret = ++w.clock; ops[id].apply = f; ops[id].text = text; NOTE("thread " << ds::self() << ": " << text); }
	static std::string nm(int id) { return id==-1 ? "nothing" : std::to_string(id); }
	void got(El *e) { if (!e) return; int id; { Quiet z; id = w.idOf(e); PCHECK(id>=0,"ghost","a read returned something that was never written"); PCHECK(!w.all[id].gone,"gone","element " << id << " was handed out after its release"); } e->look(); delete e; }
	void write(int k, bool front_) { El *e = new El; int id = e->id; size_t o = begin(); { Quiet z; ops[o].apply = [k,id,front_](St &s) { if (front_) s.q[k].push_front(id); else s.q[k].push_back(id); return true; }; } { In in(front_?"write_front":"write"); if (front_) wfront(*q[k],e); else q[k]->write(e); } Quiet z; end(o,(front_?"write_front ":"write ")+std::to_string(id),ops[o].apply); }
	void read(int k, int how, unsigned t) { // 0 blocking, 1 not blocking, 2 timed
		size_t o = begin(); El *e; int64_t at; unsigned b = ds::blocks(ds::self()); { In in(how==0?"read":how==1?"readNoBlock":"timed read",how!=1,k,how==2?(long)t:-1); at = env::nowNs; e = how==0 ? q[k]->read() : how==1 ? q[k]->readNoBlock() : q[k]->read(t); }
		{ Quiet z; int64_t us = (env::nowNs-at)/1000; int id = w.idOf(e); if (how==0) PCHECK(e,"nothing","a blocking read returned nothing"); if (how==2 && !e) { PCHECK(us>=(int64_t)t*1000-2001,"gave-up","a read of " << t << " ms gave up after " << us << " us"); timeouts++; } if (how!=1 && ds::blocks(ds::self())!=b && e) blockedReads++;
			end(o,std::string(how==0?"read":how==1?"readNoBlock":"timed read")+" -> "+nm(id),[k,id](St &s) { if (id==-1) return s.q[k].empty(); if (s.q[k].empty() || s.q[k].front()!=id) return false; s.q[k].pop_front(); return true; }); }
		got(e); }
	void misc(int k, int what) {
		size_t o = begin();
		if (what==0) { size_t n; { In in("size"); n = q[k]->size(); } Quiet z; end(o,"size -> "+std::to_string(n),[k,n](St &s) { return s.q[k].size()==n; }); }
		else if (what==1) { El *e; { In in("front"); e = front(*q[k]); } Quiet z; int id = w.idOf(e); end(o,"front -> "+nm(id),[k,id](St &s) { return id==-1 ? s.q[k].empty() : !s.q[k].empty() && s.q[k].front()==id; }); }
		else if (what==2) { std::set<int> gone; { In in("clear"); q[k]->clear(); Quiet z; gone.insert(w.deleted[ds::self()].begin(),w.deleted[ds::self()].end()); } Quiet z; end(o,"clear of "+std::to_string(gone.size()),[k,gone](St &s) { bool ok = std::set<int>(s.q[k].begin(),s.q[k].end())==gone; s.q[k].clear(); return ok; }); }
		else if (what==3) { { In in("flush"); flush(*q[k]); } Quiet z; end(o,"flush",[k](St &s) { s.q[k].clear(); return true; }); }
		else { std::vector<void*> l; { In in("iteration"); l = listing(*q[k]); } Quiet z; std::vector<int> ids; for (void *p : l) ids.push_back(w.idOf(p)); end(o,"iteration of "+std::to_string(ids.size()),[k,ids](St &s) { return std::vector<int>(s.q[k].begin(),s.q[k].end())==ids; }); } }
	void drainTo(int k, int n) { size_t o = begin(); { In in("drain wait",false,n); drain(*q[k],n); } Quiet z; end(o,"drain to "+std::to_string(n),[k,n](St &s) { return (int)s.q[k].size()<=n; }); }
	void waitEither(int k, int j, unsigned t) { size_t o = begin(); int64_t at; { In in("wait for either",true,8+(1<<k|1<<j),t?(long)t:-1); at = env::nowNs; either(*q[k],*q[j],t); } Quiet z; int64_t us = (env::nowNs-at)/1000; bool must = t==0 || us<(int64_t)t*1000-2001; if (!must) timeouts++; end(o,"wait for either ended",[must,k,j](St &s) { return !must || s.q[k].size() || s.q[j].size(); }); }
	// nothing more can happen by itself: nobody may be waiting for what is there
	int settle() { ds::idle(); overdue(); Quiet z; size_t n[3] = { q[0]->size(), nq>1 ? q[1]->size() : 0, nq>2 ? q[2]->size() : 0 }; int stuck = 0; for (int t=1;t<ds::threads();t++) if (!ds::ended(t)) { stuck++; World::Cur &c = w.cur[t]; if (!c.kind) continue;
			if (c.wantsItem) { size_t have = 0; for (int k=0;k<3;k++) if (c.arg>=8 ? (c.arg-8)>>k&1 : c.arg==k) have += n[k]; PCHECK(have==0,"lost-wake-up","thread " << t << " stays in its " << c.kind << " though there are " << have << " elements for it"); }
			if (!strcmp(c.kind,"drain wait")) PCHECK((int)n[0]>c.arg,"lost-wake-up","thread " << t << " still waits for the queue to drain to " << c.arg << " though it holds " << n[0]); }
		return stuck; }
	void finish() { // feed readers and drain for the waiters until every thread has ended
		for (int guard=0; settle(); guard++) { PCHECK(guard<60,"stuck","threads do not end"); int wants[3] = { 0, 0, 0 }, drains = 0; { Quiet z; for (int t=1;t<ds::threads();t++) if (!ds::ended(t) && w.cur[t].kind) { if (w.cur[t].wantsItem) { int a = w.cur[t].arg; wants[a<8 ? a : a&1 ? 0 : a&2 ? 1 : 2]++; } else if (!strcmp(w.cur[t].kind,"drain wait")) drains++; } }
			if (feedPass) { feedPass--; ds::pass(feedPass%2 ? 7 : 700); continue; }
			if (wants[0]) write(0,false); else if (wants[1]) write(1,false); else if (wants[2]) write(2,false); else if (drains) read(0,1,0); else ds::pass(1000); } }
	int feedPass;
	void judge() { ds::joinAll(); }
	void destroy(int first) { // the queues that borrow another's lock go first
		for (int i=3-nq;i<3;i++) { int k = nq==1 ? 0 : i==0 ? 2 : i==1 ? first : 1-first; std::set<int> gone; size_t o = begin(); { Quiet z; w.deleted[ds::self()].clear(); } q[k].reset(); Quiet z; gone.insert(w.deleted[ds::self()].begin(),w.deleted[ds::self()].end()); end(o,"destruction with "+std::to_string(gone.size()),[k,gone](St &s) { bool ok = std::set<int>(s.q[k].begin(),s.q[k].end())==gone; s.q[k].clear(); return ok; }); } }
	void linear() { Quiet z; St s; lin::Check<St> c(ops); if (!c.ok(s)) { std::string t; for (auto &o : ops) t += "\n    "+std::to_string(o.call)+".."+std::to_string(o.ret)+" "+o.text; PFAIL("history","no order of the operations explains what they returned:" << t); } }
};
struct Step { int op, k, arg; };
template<class Q> void go(Src &src) {
	Run<Q> r(src); typedef Is<Q> I; bool conn = I::front && src.chance(1,3); r.nq = conn ? 2+(src.chance(1,3)) : 1; int dir = src.draw(2); int nt = 2+src.draw(3); std::vector<std::vector<Step> > progs(nt); unsigned nw = 0;
	for (int t=0;t<nt;t++) { size_t n = 1+src.draw(5); for (size_t i=0;i<n;i++) { int op;
		if (!conn) op = src.weighted({6,I::front?1u:0u,4,2,3,1,I::front?1u:0u,1,I::front?1u:0u,I::iter?1u:0u,I::drain?3u:0u}); 
		else { if (t==0) { static const int W[] = {20,20,21,3,0}; op = W[src.draw(5)]; } else { static const int W[] = {0,0,0,1,3,5,6,7,9}; op = W[src.draw(I::iter?9:8)]; } }   // one waiting thread
		progs[t].push_back({ op, conn ? (int)src.draw(r.nq) : 0, (int)src.draw(40) }); nw += op<2; } }
	r.feedPass = src.draw(5);
	ds::run(src,[&]{
		r.q[0].reset(new Q); if (conn) { r.q[1].reset(new Q); connect(*r.q[dir],*r.q[1-dir]); if (r.nq>2) { r.q[2].reset(new Q); connect(*r.q[2],*r.q[dir]); } }
		for (int t=0;t<nt;t++) { auto p = progs[t]; ds::spawn([&r,p]{ for (auto &s : p) switch (s.op) {
			case 0: r.write(s.k,false); break; case 1: r.write(s.k,true); break; case 2: r.read(s.k,0,0); break; case 3: r.read(s.k,1,0); break; case 4: r.read(s.k,2,s.arg%5==0 ? 0 : s.arg%3 ? s.arg*25 : s.arg); break;
			case 5: r.misc(s.k,0); break; case 6: r.misc(s.k,1); break; case 7: if (s.arg%3==0) r.misc(s.k,2); break; case 8: if (s.arg%3==0) r.misc(s.k,3); break; case 9: r.misc(s.k,4); break; case 10: r.drainTo(s.k,s.arg%3); break;
			case 20: r.waitEither(s.k,(s.k+1+s.arg%(r.nq-1))%r.nq,0); r.read(s.k,1,0); break; case 21: { int j = (s.k+1+s.arg%(r.nq-1))%r.nq; r.waitEither(s.k,j,1+s.arg*20); r.read(j,1,0); break; } } }); }
		r.finish(); ds::joinAll(); r.destroy(dir); r.linear();
		// what flush removed is the harness's to release
		for (size_t i=0;i<r.w.all.size();i++) { bool g; El *p; { Quiet z; g = r.w.all[i].gone; p = r.w.all[i].p; } if (!g) delete p; } });
	if (r.blockedReads || r.timeouts) src.nontrivial(); if (r.blockedReads) src.label("woken"); if (r.timeouts) src.label("timeout"); W = 0;
}
}
PTEST(queue, 60000) { go<Q1>(src); }
PTEST(listqueue, 40000) { go<Q2>(src); }
PTEST(waitqueue, 60000) { go<Q3>(src); }

// C17: the priority queue shared by several threads under drawn schedules.
#include "qkit.h"
#include "Interthread.h"
#include <memory>
using namespace pbt; using namespace qk;
namespace {
struct St { std::set<std::pair<int,int> > s; std::string key() const { std::string k; for (auto &p : s) k += std::to_string(p.second)+","; return k; } };   // (urgency, element)
typedef lin::Op<St> Op; typedef InterthreadPriorityQueue<El> Q;
struct Run {
	Src &src; World w; std::vector<Op> ops; std::unique_ptr<Q> q; unsigned blocked, timeouts, feedPass;
	Run(Src &s):src(s),blocked(0),timeouts(0),feedPass(0) { W = &w; }
	size_t begin() { Quiet z; ops.emplace_back(); Op &o = ops.back(); o.call = ++w.clock; o.ret = UINT64_MAX; o.apply = [](St&) { return true; }; return ops.size()-1; }
	void end(size_t id, const std::string &text, std::function<bool(St&)> f) { ops[id].ret = ++w.clock; ops[id].apply = f; ops[id].text = text; NOTE("thread " << ds::self() << ": " << text); }
	void write(int pri) { El *e = new El(pri); int id = e->id; size_t o = begin(); { Quiet z; ops[o].apply = [pri,id](St &s) { s.s.insert({ pri, id }); return true; }; } { In in("write"); q->write(e); } Quiet z; end(o,"write of "+std::to_string(id)+" urgency "+std::to_string(pri),ops[o].apply); }
	std::vector<int> pris; 
	void read(int how, unsigned t) { static const char *N[] = {"read","readNoBlock","timed read","peek"}; size_t o = begin(); El *e; int64_t at; unsigned b = ds::blocks(ds::self()); bool waits = how==0 || (how==2 && t);
		{ In in(N[how],waits,0,how==2?(long)t:-1); at = env::nowNs; e = how==0 ? q->read() : how==1 ? q->readNoBlock() : how==2 ? q->read(t) : q->peek(); }
		{ Quiet z; int64_t us = (env::nowNs-at)/1000; int id = w.idOf(e); PCHECK(!e || id>=0,"ghost",N[how] << " gave something that was never written"); if (how==0) PCHECK(e,"nothing","a blocking read gave nothing"); if (how==2 && !e) { PCHECK(us>=(int64_t)t*1000-2001,"gave-up","a read of " << t << " ms gave up after " << us << " us"); timeouts++; } if (waits && e && ds::blocks(ds::self())!=b) blocked++;
			bool rem = how!=3; end(o,std::string(N[how])+" -> "+(id<0?"nothing":std::to_string(id)),[id,rem](St &s) { if (id<0) return s.s.empty(); if (s.s.empty()) return false; int p = s.s.begin()->first; auto it = s.s.find({ p, id }); if (it==s.s.end()) return false; if (rem) s.s.erase(it); return true; }); }
		if (e && how!=3) { e->look(); delete e; } }
	void size() { size_t o = begin(); size_t n; { In in("size"); n = q->size(); } Quiet z; end(o,"size -> "+std::to_string(n),[n](St &s) { return s.s.size()==n; }); }
	void gone(bool destroy) { size_t o = begin(); std::set<int> g; { In in("clear"); if (destroy) q.reset(); else q->clear(); Quiet z; auto &d = w.deleted[ds::self()]; g.insert(d.begin(),d.end()); } Quiet z; end(o,std::string(destroy?"destruction of ":"clear of ")+std::to_string(g.size()),[g](St &s) { std::set<int> h; for (auto &p : s.s) h.insert(p.second); s.s.clear(); return g==h; }); }
	int settle() { ds::idle(); overdue(); Quiet z; size_t n = q->size(); int stuck = 0; for (int t=1;t<ds::threads();t++) if (!ds::ended(t)) { stuck++; World::Cur &c = w.cur[t]; if (c.kind && c.wantsItem) PCHECK(n==0,"lost-wake-up","thread " << t << " stays in its " << c.kind << " though " << n << " elements are there"); } return stuck; }
	void finish() { for (int guard=0; settle(); guard++) { PCHECK(guard<60,"stuck","threads do not end"); if (feedPass) { feedPass--; ds::pass(feedPass%2 ? 7 : 700); continue; } write(guard%3); } }
	void linear() { Quiet z; St s; lin::Check<St> c(ops); if (!c.ok(s)) { std::string t; for (auto &o : ops) t += "\n    "+std::to_string(o.call)+".."+std::to_string(o.ret)+" "+o.text; PFAIL("history","no order of the operations explains what they returned:" << t); } }
};
}
PTEST(shared, 80000) {
	Run r(src); int nt = 2+src.draw(3), span = 1+src.draw(5); struct Step { int op, arg, pri; }; std::vector<std::vector<Step> > progs(nt);
	for (auto &p : progs) { size_t n = 1+src.draw(6); for (size_t i=0;i<n;i++) p.push_back({ (int)src.weighted({6,4,2,3,1,1,1}), (int)src.draw(40), (int)src.draw(span) }); } r.feedPass = src.draw(5);
	ds::run(src,[&]{ r.q.reset(new Q);
		for (auto &p : progs) ds::spawn([&r,p]{ for (auto &s : p) switch (s.op) { case 0: r.write(s.pri); break; case 1: r.read(0,0); break; case 2: r.read(1,0); break; case 3: r.read(2,s.arg%5==0 ? 0 : s.arg%3 ? s.arg*25 : s.arg); break; case 4: r.read(3,0); break; case 5: r.size(); break; default: if (s.arg%3==0) r.gone(false); } });
		r.finish(); ds::joinAll(); r.gone(true); r.linear();
		for (size_t i=0;i<r.w.all.size();i++) PCHECK(r.w.all[i].gone,"kept","element " << i << " was neither handed out nor released"); });
	if (r.blocked || r.timeouts) src.nontrivial(); if (r.blocked) src.label("woken"); if (r.timeouts) src.label("timeout"); W = 0;
}

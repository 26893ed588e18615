// C16: the inter-thread map shared by several threads under drawn schedules.
#include "qkit.h"
#include "Interthread.h"
#include <memory>
using namespace pbt; using namespace qk;
namespace {
struct St { std::map<int,int> m; std::string key() const { std::string k; for (auto &p : m) k += std::to_string(p.first)+":"+std::to_string(p.second)+","; return k; } };
typedef lin::Op<St> Op; typedef InterthreadMap<int,El> Map;
struct Run {
	Src &src; World w; std::vector<Op> ops; std::unique_ptr<Map> q; unsigned blocked, timeouts, feedPass;
	Run(Src &s):src(s),blocked(0),timeouts(0),feedPass(0) { W = &w; }
	size_t begin() { Quiet z; ops.emplace_back(); Op &o = ops.back(); o.call = ++w.clock; o.ret = UINT64_MAX; o.apply = [](St&) { return true; }; return ops.size()-1; }
	void end(size_t id, const std::string &text, std::function<bool(St&)> f) { ops[id].ret = ++w.clock; ops[id].apply = f; ops[id].text = text; NOTE("thread " << ds::self() << ": " << text); }
	static std::string nm(int id) { return id==-1 ? "nothing" : std::to_string(id); }
	void write(int k) { El *e = new El; int id = e->id; size_t o = begin(); { Quiet z; ops[o].apply = [k,id](St &s) { s.m[k] = id; return true; }; } std::set<int> gone; { In in("write",false,k); q->write(k,e); Quiet z; auto &d = w.deleted[ds::self()]; gone.insert(d.begin(),d.end()); } Quiet z; std::string t = "write of key "+std::to_string(k)+" element "+std::to_string(id); for (int g : gone) t += " replacing "+std::to_string(g);
		end(o,t,[k,id,gone](St &s) { std::set<int> old; if (s.m.count(k)) old.insert(s.m[k]); s.m[k] = id; return old==gone; }); }
	// how: 0 getNoBlock 1 get timed 2 get 3 readNoBlock 4 read timed 5 read
	void read(int k, int how, bool rem, unsigned t) { static const char *N[] = {"getNoBlock","timed get","get","readNoBlock","timed read","read"}; if (how>2) rem = false; size_t o = begin(); El *e = 0; bool ok = true; int64_t at; unsigned b = ds::blocks(ds::self()); bool timed = how%3==1, waits = how%3 && !(timed && t==0);
		{ In in(N[how],waits,k,timed?(long)t:-1); at = env::nowNs; switch (how) { case 0: ok = q->getNoBlock(k,e,rem); break; case 1: ok = q->get(k,e,t,rem); break; case 2: ok = q->get(k,e,rem); break; case 3: e = q->readNoBlock(k); ok = e; break; case 4: e = q->read(k,t); ok = e; break; default: e = q->read(k); ok = e; } }
		{ Quiet z; int64_t us = (env::nowNs-at)/1000; int id = ok ? w.idOf(e) : -1; PCHECK(!ok || id>=0,"ghost",N[how] << " of key " << k << " gave something that was never written"); if (how%3==2) PCHECK(ok,"nothing","a blocking " << N[how] << " gave nothing"); if (timed && !ok) { PCHECK(us>=(int64_t)t*1000-2001,"gave-up","a " << N[how] << " of " << t << " ms gave up after " << us << " us"); timeouts++; } if (waits && ok && ds::blocks(ds::self())!=b) blocked++;
			end(o,std::string(N[how])+(rem?" removing":"")+" of key "+std::to_string(k)+" -> "+nm(id),[k,id,rem](St &s) { auto it = s.m.find(k); if (id==-1) return it==s.m.end(); if (it==s.m.end() || it->second!=id) return false; if (rem) s.m.erase(it); return true; }); }
		if (rem && ok) { e->look(); delete e; } }
	void remove(int k) { size_t o = begin(); bool ok; std::set<int> gone; { In in("remove",false,k); ok = q->remove(k); Quiet z; auto &d = w.deleted[ds::self()]; gone.insert(d.begin(),d.end()); } Quiet z; end(o,"remove of key "+std::to_string(k)+" -> "+(ok?"true":"false"),[k,ok,gone](St &s) { std::set<int> old; if (s.m.count(k)) old.insert(s.m[k]); s.m.erase(k); return old==gone && ok==(old.size()==1); }); }
	void list() { size_t o = begin(); std::map<int,void*> l; { In in("iteration"); ScopedLock g(q->qGetLock()); for (Map::iterator it=q->begin(); it!=q->end(); ++it) { int k = it->first; void *p = it->second; Quiet z; l[k] = p; } } Quiet z; std::map<int,int> m; for (auto &p : l) m[p.first] = w.idOf(p.second); end(o,"iteration of "+std::to_string(m.size()),[m](St &s) { return s.m==m; }); }
	void size() { size_t o = begin(); size_t n; { In in("size"); n = q->size(); } Quiet z; end(o,"size -> "+std::to_string(n),[n](St &s) { return s.m.size()==n; }); }
	int settle() { ds::idle(); overdue(); Quiet z; int stuck = 0; for (int t=1;t<ds::threads();t++) if (!ds::ended(t)) { stuck++; World::Cur &c = w.cur[t]; if (!c.kind || !c.wantsItem) continue; El *e = 0; if (q->getNoBlock(c.arg,e,false)) PFAIL("lost-wake-up","thread " << t << " stays in its " << c.kind << " of key " << c.arg << " though the key is there"); } return stuck; }
	void finish() { for (int guard=0; settle(); guard++) { PCHECK(guard<80,"stuck","threads do not end"); if (feedPass) { feedPass--; ds::pass(feedPass%2 ? 7 : 700); continue; } int k = -1; { Quiet z; for (int t=1;t<ds::threads();t++) if (!ds::ended(t) && w.cur[t].kind && w.cur[t].wantsItem) k = w.cur[t].arg; } if (k>=0) write(k); else ds::pass(1000); } }
	void destroy() { std::set<int> gone; size_t o = begin(); { Quiet z; w.deleted[ds::self()].clear(); } q.reset(); Quiet z; auto &d = w.deleted[ds::self()]; gone.insert(d.begin(),d.end()); end(o,"destruction with "+std::to_string(gone.size()),[gone](St &s) { std::set<int> old; for (auto &p : s.m) old.insert(p.second); return old==gone; }); }
	void linear() { Quiet z; St s; lin::Check<St> c(ops); if (!c.ok(s)) { std::string t; for (auto &o : ops) t += "\n    "+std::to_string(o.call)+".."+std::to_string(o.ret)+" "+o.text; PFAIL("history","no order of the operations explains what they returned:" << t); } }
};
}
PTEST(shared, 80000) {
	Run r(src); int nt = 2+src.draw(3), nk = 1+src.draw(3); struct Step { int op, k, how, arg; bool rem; }; std::vector<std::vector<Step> > progs(nt);
	for (auto &p : progs) { size_t n = 1+src.draw(5); for (size_t i=0;i<n;i++) p.push_back({ (int)src.weighted({5,6,2,1,1}), (int)src.draw(nk), (int)src.draw(6), (int)src.draw(40), src.coin() }); } r.feedPass = src.draw(5);
	ds::run(src,[&]{ r.q.reset(new Map);
		for (auto &p : progs) ds::spawn([&r,p]{ for (auto &s : p) switch (s.op) { case 0: r.write(s.k); break; case 1: r.read(s.k,s.how,s.rem,s.arg%5==0 ? 0 : s.arg%3 ? s.arg*25 : s.arg); break; case 2: r.remove(s.k); break; case 3: r.list(); break; default: r.size(); } });
		r.finish(); ds::joinAll(); r.destroy(); r.linear();
		for (size_t i=0;i<r.w.all.size();i++) PCHECK(r.w.all[i].gone,"kept","element " << i << " was neither handed out nor released"); });
	if (r.blocked || r.timeouts) src.nontrivial(); if (r.blocked) src.label("woken"); if (r.timeouts) src.label("timeout"); W = 0;
}

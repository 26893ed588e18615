// C20: Thread objects started, joined and started again by several threads.
#include "common.h"
#include "ds.h"
#include "Threads.h"
#include "Interthread.h"
#include <memory>
#include <string.h>
using namespace pbt; using ds::Quiet;
namespace {
struct Job { int id; int runs; void *got; bool ended; int stage; int in[4], out[4]; size_t stack; int fiber; std::vector<int> nested; long work; Job():id(0),runs(0),got(0),ended(false),stage(0),stack(0),fiber(-1),work(0) { memset(in,0,sizeof in); memset(out,0,sizeof out); } };
void *task(void *a) { Job *j = (Job*)a; { Quiet q; j->runs++; j->got = a; j->fiber = ds::self(); NOTE("task " << j->id << " begins in thread " << ds::self()); }
	for (int i=0;i<4;i++) j->out[i] = j->in[i]*2+1;      // plain memory: the race detector watches it
	for (int i=0;i<j->work%4;i++) ds::point(); if (j->work>=4) ds::pass(j->work);
	Quiet q; j->ended = true; NOTE("task " << j->id << " ends"); return (void*)(intptr_t)j->id; }
void *countTask(void *a) { Quiet q; (*(long*)a)++; return 0; }
long gNulls; void *nullTask(void *a) { Quiet q; if (a==0) gNulls++; else gNulls = -1000; return 0; }
}
// Several threads, each with its own Thread objects.
PTEST(startjoin, 40000) {
	int nt = 1+src.draw(3); struct Op { int kind, work, v; size_t stack; }; std::vector<std::vector<Op> > progs(nt); std::vector<size_t> sizes; int left = 12; unsigned starts = 0;
	for (auto &p : progs) { sizes.push_back(src.chance(1,2) ? 0 : 16384+4096*src.draw(100)); size_t n = 1+src.draw(4); for (size_t i=0;i<n && left;i++,left--) p.push_back({ (int)src.weighted({4,2,2}), (int)src.draw(12), (int)src.draw(1000), 16384+(size_t)src.draw(1<<20) }); }
	auto runner = [&](int t) { std::vector<Op> &p = progs[t]; size_t cur = sizes[t]; std::unique_ptr<Thread> th(sizes[t] ? new Thread(sizes[t]) : new Thread());
		for (size_t i=0;i<p.size();i++) { Op &o = p[i]; std::unique_ptr<Job> j(new Job); { Quiet q; j->id = t*10+i; j->work = o.work; starts++; NOTE("thread " << ds::self() << " starts task " << j->id << (o.kind==1 ? " with stack "+std::to_string(o.stack) : std::string())); }
			for (int k=0;k<4;k++) j->in[k] = o.v+k;
			if (o.kind==1) { th->start2(task,j.get(),(int)o.stack); cur = o.stack; } else if (o.kind==2) { START_THREAD((*th),task,j.get()); } else th->start(task,j.get());
			if (o.v%3==0) ds::point(); if (o.v%7==0) ds::pass(5);
			th->join();
			{ Quiet q; PCHECK(j->runs==1,"once","after its join task " << j->id << " has run " << j->runs << " times"); PCHECK(j->got==j.get(),"argument","task " << j->id << " was given another argument"); PCHECK(j->ended,"join","join returned before task " << j->id << " ended"); if (cur) PCHECK(ds::askedStack(j->fiber)==cur,"stack","task " << j->id << " has a stack of " << ds::askedStack(j->fiber) << " bytes, " << cur << " were asked for"); }
			for (int k=0;k<4;k++) { int v = j->out[k]; Quiet q; PCHECK(v==(o.v+k)*2+1,"visible","task " << j->id << " left " << v << ", expected " << (o.v+k)*2+1); } } };
	ds::run(src,[&]{ for (int t=0;t<nt;t++) ds::spawn([&,t]{ runner(t); }); ds::joinAll(); });
	if (starts>1) src.nontrivial();
}
// Many started by one thread, joined in any order; some objects are never started.
PTEST(fleet, 30000) {
	int n = 1+src.draw(9), idle = src.draw(3); std::vector<int> order; for (int i=0;i<n;i++) order.push_back(i); for (int i=n-1;i>0;i--) std::swap(order[i],order[src.draw(i+1)]); std::vector<int> work; for (int i=0;i<n;i++) work.push_back(src.draw(12)); bool again = src.coin() && n<=7; bool byOther = src.coin(); long cnt = 0; gNulls = 0;
	ds::run(src,[&]{ std::vector<std::unique_ptr<Thread> > T, unused; std::vector<std::unique_ptr<Job> > J; for (int i=0;i<idle;i++) unused.emplace_back(new Thread(20000)); 
		for (int round=0; round<1+again; round++) { if (!round) for (int i=0;i<n;i++) T.emplace_back(new Thread); { Quiet q; J.clear(); } 
			for (int i=0;i<n;i++) { J.emplace_back(new Job); J[i]->id = i; J[i]->work = work[i]; for (int k=0;k<4;k++) J[i]->in[k] = i*4+k; T[i]->start(task,J[i].get()); }
			auto joins = [&]{ for (int i : order) { T[i]->join(); { Quiet q; PCHECK(J[i]->ended && J[i]->runs==1,"join","joined task " << i << " has run " << J[i]->runs << " times and has " << (J[i]->ended?"":"not ") << "ended"); PCHECK(J[i]->got==J[i].get(),"argument","task " << i << " was given another's argument"); } for (int k=0;k<4;k++) { int v = J[i]->out[k]; Quiet q; PCHECK(v==(i*4+k)*2+1,"visible","task " << i << " left " << v); } } };
			if (byOther && ds::threads()<22) { int o = ds::spawn(joins); ds::join(o); } else joins(); }
		if (ds::threads()<22) { T[0]->start(nullTask,0); T[0]->join(); Quiet q; PCHECK(gNulls==1,"argument","a task given no argument ran " << gNulls << " times"); }
		if (ds::threads()<22) { T[0]->start(countTask,&cnt); T[0]->join(); Quiet q; PCHECK(cnt==1,"once","the task ran " << cnt << " times"); } });
	if (n>1) src.nontrivial();
}
// Tasks that start tasks.
namespace { struct Tree { int depth, width; std::unique_ptr<Thread> t[3]; std::unique_ptr<Tree> kid[3]; int sum; bool ended; Tree():sum(0),ended(false) {} }; 
void *tree(void *a) { Tree *x = (Tree*)a; int s = 1; for (int i=0;i<x->width;i++) if (x->depth>0) { x->kid[i].reset(new Tree); x->kid[i]->depth = x->depth-1; x->kid[i]->width = x->width; x->t[i].reset(new Thread); x->t[i]->start(tree,x->kid[i].get()); }
	for (int i=0;i<x->width;i++) if (x->depth>0) { x->t[i]->join(); { Quiet q; PCHECK(x->kid[i]->ended,"join","join returned before the task ended"); } s += x->kid[i]->sum; } x->sum = s; Quiet q; x->ended = true; return 0; } }
PTEST(nested, 8000) { int shape = src.draw(4); static const int D[] = {1,2,3,2}, W[] = {3,2,1,3}, N[] = {4,7,4,13}; ds::run(src,[&]{ Tree t; t.depth = D[shape]; t.width = W[shape]; Thread th; th.start(tree,&t); th.join(); int s = t.sum; Quiet q; PCHECK(s==N[shape],"visible","the tasks counted " << s << ", expected " << N[shape]); }); src.nontrivial(); }

// C21: reference-counting pointers copied and dropped by several threads at once.
#include "common.h"
#include "ds.h"
#include "Utils.h"
#include <memory>
#include <string.h>
using namespace pbt; using ds::Quiet;
namespace {
int gGone[8], gRefs[8]; bool gLast[8];
struct Obj : public RefCntBase { int id, value; Obj(int i):id(i),value(i*11) {} virtual ~Obj() { value = -1; Quiet q; gGone[id]++; NOTE("object " << id << " destroyed by thread " << ds::self()); } };
typedef RefCntPointer<Obj> P;
}
PTEST(shared, 60000) {
	int no = 1+src.draw(3), nt = 2+src.draw(3); memset(gGone,0,sizeof gGone); memset(gRefs,0,sizeof gRefs); struct Op { int k, a, b; }; std::vector<std::vector<Op> > progs(nt); for (auto &p : progs) { size_t n = 1+src.draw(12); for (size_t i=0;i<n;i++) p.push_back({ (int)src.weighted({4,3,2,2,2,2,1}), (int)src.draw(4), (int)src.draw(4) }); } bool keep = src.coin(); unsigned dropped = 0;
	ds::Opt opt; opt.accessPoints = src.coin();
	ds::run(src,[&]{
		std::vector<P> root; for (int i=0;i<no;i++) root.push_back(P(new Obj(i)));
		for (int t=0;t<nt;t++) { // each thread starts with a copy made here, by the creating thread
			std::vector<P> *mine = new std::vector<P>(4); for (int i=0;i<4;i++) if (i<no) (*mine)[i] = root[i];
			std::vector<Op> p = progs[t];
			ds::spawn([&,mine,p]{ std::vector<P> &v = *mine;
				auto look = [&](P &x) { Obj *o = x.self(); if (!o) return; int id = x->id, val = (*x).value, c = o->getRefCnt(); int held = 0; for (auto &y : v) held += y==o; Quiet q; PCHECK(!gGone[id],"destroyed","object " << id << " was destroyed while thread " << ds::self() << " refers to it"); PCHECK(val==id*11,"content","object " << id << " reads " << val); PCHECK(c>=held,"count","object " << id << " counts " << c << " references, this thread alone has " << held); };
				for (auto &o : p) { { Quiet q; NOTE("thread " << ds::self() << ": operation " << o.k << " on " << o.a << "," << o.b); } switch (o.k) {
					case 0: v[o.a] = v[o.b]; break;
					case 1: v[o.a].free(); { Quiet q; dropped++; } break;
					case 2: v[o.a] = (Obj*)0; break;
					case 3: { P c(v[o.a]); const P d(c); P e(d); look(e); ds::point(); v[o.b] = e; break; }
					case 4: v[o.a] = v[o.b].self(); break;
					case 5: look(v[o.a]); break;
					case 6: { std::vector<P> w(v); w.push_back(v[o.a]); ds::point(); v.swap(w); v.resize(4); break; } }
					look(v[o.a]); look(v[o.b]); }
				delete mine; }); }
		if (!keep) root.clear();
		ds::joinAll();
		if (keep) { for (int i=0;i<no;i++) { int c = root[i].self()->getRefCnt(); Quiet q; PCHECK(!gGone[i],"destroyed","object " << i << " was destroyed while referred to"); PCHECK(c==1,"count","object " << i << " counts " << c << " references, there is one"); } root.clear(); }
		Quiet q; for (int i=0;i<no;i++) PCHECK(gGone[i]==1,gGone[i]?"double-free":"kept","object " << i << " was destroyed " << gGone[i] << " times"); },opt);
	src.nontrivial();
}
// Several threads drop the last references at the same moment.
PTEST(lastdrop, 20000) {
	int nt = 2+src.draw(4); memset(gGone,0,sizeof gGone); bool viaFree = src.coin();
	ds::run(src,[&]{ P *p[6]; { P a(new Obj(0)); for (int i=0;i<nt;i++) p[i] = new P(a); }
		for (int i=0;i<nt;i++) ds::spawn([&,i]{ { Quiet q; PCHECK(!gGone[0],"destroyed","destroyed with references left"); } if (viaFree) p[i]->free(); delete p[i]; });
		ds::joinAll(); Quiet q; PCHECK(gGone[0]==1,gGone[0]?"double-free":"kept","the object was destroyed " << gGone[0] << " times"); });
	src.nontrivial();
}

// C19: two or three locks at once, in whatever order, under drawn schedules.
#include "common.h"
#include "ds.h"
#include "Threads.h"
#include <memory>
#include <string.h>
using namespace pbt; using ds::Quiet;
namespace {
struct Lk { Mutex m; int owner, depth; int data; Lk():owner(-1),depth(0),data(0) {} };
}
static void body(Src &src, bool owners) {
	int nm = 2+src.draw(4), nt = 2+src.draw(3); std::vector<std::unique_ptr<Lk> > L; for (int i=0;i<nm;i++) L.emplace_back(new Lk); unsigned contended = 0, multi = 0;
	struct Op { int kind, named[3], n, bits, other, arg; bool place; }; std::vector<std::vector<Op> > progs(nt);
	for (auto &p : progs) { size_t n = 1+src.draw(5); for (size_t i=0;i<n;i++) { Op o; o.kind = src.weighted({6,2,1}); o.n = 2+src.draw(2); o.bits = 0; o.place = src.coin(); o.other = src.draw(nm); o.arg = src.draw(30);
		for (int k=0;k<3;k++) o.named[k] = src.draw(nm);
		if (owners && src.coin()) { o.bits = src.draw(1<<o.n); for (int k=0;k<o.n;k++) for (int j=0;j<o.n;j++) if (j!=k && o.named[k]==o.named[j]) o.bits &= ~(1<<k); }   // owning is only claimed for locks named once
		p.push_back(o); } }
	auto got = [&](int k, const char *how) { { Quiet q; Lk &l = *L[k]; int me = ds::self(); PCHECK(l.owner<0 || l.owner==me,"exclusion",how << " gave lock " << k << " to thread " << me << " while thread " << l.owner << " holds it"); l.owner = me; l.depth++; } };
	auto gone = [&](int k) { Quiet q; Lk &l = *L[k]; if (--l.depth==0) l.owner = -1; };
	auto count = [&](int k, const char *when) { int c = L[k]->m.lockcnt(); Quiet q; PCHECK(c==L[k]->depth,"count",when << " thread " << ds::self() << " lock " << k << " counts " << c << " locks, it should be " << L[k]->depth); };
	auto use = [&](int k) { L[k]->data++; };     // the race detector watches this
	auto thread = [&](std::vector<Op> prog) { int me = ds::self(); for (auto &o : prog) {
		if (o.kind==1) { L[o.other]->m.lock(); got(o.other,"lock"); use(o.other); ds::point(); gone(o.other); L[o.other]->m.unlock(); continue; }
		if (o.kind==2) { bool r = L[o.other]->m.trylock(); if (r) { got(o.other,"trylock"); use(o.other); ds::point(); gone(o.other); L[o.other]->m.unlock(); } continue; }
		// the locks the caller owns, taken in index order
		for (int k=0;k<nm;k++) for (int j=0;j<o.n;j++) if ((o.bits>>j&1) && o.named[j]==k) { L[k]->m.lock(); got(k,"lock"); use(k); }
		{ Quiet q; NOTE("thread " << me << ": takes " << o.named[0] << "," << o.named[1] << (o.n>2 ? ","+std::to_string(o.named[2]) : std::string()) << ", owning bits " << o.bits); for (int j=0;j<o.n;j++) { if (L[o.named[j]]->owner>=0 && L[o.named[j]]->owner!=me) contended++; } }
		for (int j=0;j<o.n;j++) if (o.bits>>j&1) gone(o.named[j]);     // may be given up meanwhile
		{ unsigned w = ds::blocks(me); (void)w; Mutex &a = L[o.named[0]]->m, &b = L[o.named[1]]->m, &c = L[o.named[2]]->m; typedef ScopedLockMultiple S;
			S *s; { if (o.n==2) s = o.place ? new S(o.bits,a,b,"x.cpp",7) : new S(o.bits,a,b); else s = o.place ? new S(o.bits,a,b,c,"x.cpp",7) : new S(o.bits,a,b,c); }
			for (int j=0;j<o.n;j++) got(o.named[j],"a multiple lock"); { Quiet q; multi++; NOTE("thread " << me << ": has them"); }
			for (int j=0;j<o.n;j++) { count(o.named[j],"inside"); use(o.named[j]); }
			if (o.arg%3==0) ds::pass(o.arg); else ds::point();
			if (o.arg%5==1) { int k = o.other; bool r = L[k]->m.trylock(); if (r) { got(k,"trylock"); use(k); gone(k); L[k]->m.unlock(); } else { Quiet q; PCHECK(L[k]->owner!=me,"held","a lock the multiple lock holds cannot be taken again by its thread"); } }
			for (int j=0;j<o.n;j++) use(o.named[j]);
			for (int j=0;j<o.n;j++) if (!(o.bits>>j&1)) gone(o.named[j]);
			delete s; }
		for (int j=0;j<o.n;j++) if (o.bits>>j&1) { int k = o.named[j]; count(k,"after the multiple lock ends, for the owner"); use(k); gone(k); L[k]->m.unlock(); }
		{ Quiet q; NOTE("thread " << me << ": done with them"); }
		} };
	ds::run(src,[&]{ for (auto &p : progs) ds::spawn([&,p]{ thread(p); }); ds::joinAll();
		for (int k=0;k<nm;k++) { int t = ds::spawn([&,k]{ bool r = L[k]->m.trylock(); { Quiet q; PCHECK(r,"left-locked","lock " << k << " is still held after every thread has ended"); } int c = L[k]->m.lockcnt(); { Quiet q; PCHECK(c==1,"count","lock " << k << " taken once counts " << c); } L[k]->m.unlock(); }); ds::join(t); } });
	if (contended && multi>1) src.nontrivial();
}
PTEST(unowned, 60000) { body(src,false); }
PTEST(owned, 60000) { body(src,true); }
// While the multiple lock lives nobody gets any of its locks; as soon as it ends everybody can.
PTEST(hold, 20000) {
	int n = 2+src.draw(2), bits = src.draw(1<<n), dup = src.chance(1,4) ? 1 : 0; std::vector<std::unique_ptr<Mutex> > M; for (int i=0;i<3;i++) M.emplace_back(new Mutex); int at[3] = { 0, 1, 2 }; for (int i=2;i>0;i--) std::swap(at[i],at[src.draw(i+1)]);
	if (dup) { at[1] = at[0]; bits &= ~3; }
	ds::run(src,[&]{ for (int j=0;j<n;j++) if (bits>>j&1) M[at[j]]->lock();
		ScopedLockMultiple *s = n==2 ? new ScopedLockMultiple(bits,*M[at[0]],*M[at[1]]) : new ScopedLockMultiple(bits,*M[at[0]],*M[at[1]],*M[at[2]]);
		auto probe = [&](bool after) { for (int j=0;j<n;j++) { bool wantHeld = !after || (bits>>j&1); int t = ds::spawn([&,j,wantHeld]{ bool r = M[at[j]]->trylock(); { Quiet q; PCHECK(r!=wantHeld,wantHeld?"held":"left-locked",(after?"after":"while") << " a multiple lock" << (after?"":" lives") << ", lock " << j+1 << (r?" is free":" is held")); } if (r) M[at[j]]->unlock(); }); ds::join(t); } };
		probe(false); delete s; probe(true); for (int j=0;j<n;j++) if (bits>>j&1) M[at[j]]->unlock(); });
	src.nontrivial();
}

// C36: memory counters changed by several threads under drawn schedules.
#include "common.h"
#include "ds.h"
#include "Utils.h"
#include "MemoryLeak.h"
#include <new>
using namespace pbt; using ds::Quiet;
PTEST(shared, 30000) {
	int nt = 2+src.draw(4); struct Op { bool add; int kind; }; std::vector<std::vector<Op> > progs(nt); int now[MemStats::mMax] = {}, tot[MemStats::mMax] = {};
	for (auto &p : progs) { size_t n = 1+src.draw(8); for (size_t i=0;i<n;i++) { Op o; o.add = src.chance(2,3); o.kind = src.draw(3)*7; p.push_back(o); now[o.kind] += o.add?1:-1; tot[o.kind] += o.add; } }
	MemStats s; bool own = src.coin(); MemStats &m = own ? s : gMemStats; int now0[MemStats::mMax], tot0[MemStats::mMax]; for (int k=0;k<MemStats::mMax;k++) { now0[k] = m.mMemNow[k]; tot0[k] = m.mMemTotal[k]; }
	ds::Opt opt; opt.accessPoints = true;
	ds::run(src,[&]{ for (int t=0;t<nt;t++) ds::spawn([&,t]{ for (Op &o : progs[t]) { { Quiet q; NOTE("thread " << ds::self() << (o.add?" counts one more of ":" counts one less of ") << o.kind); } if (o.add) m.memChkNew((MemStats::MemoryNames)o.kind,"kind"); else m.memChkDel((MemStats::MemoryNames)o.kind,"kind"); } }); ds::joinAll(); },opt);
	for (int k=0;k<MemStats::mMax;k++) PCHECK(m.mMemNow[k]-now0[k]==now[k] && m.mMemTotal[k]-tot0[k]==tot[k],"counts","kind " << k << " counts " << m.mMemNow[k]-now0[k] << "/" << m.mMemTotal[k]-tot0[k] << ", it is " << now[k] << "/" << tot[k]);
	src.nontrivial();
}

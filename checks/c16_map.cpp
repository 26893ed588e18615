// C16, from one thread: the inter-thread map against an ordinary map.
#include "common.h"
#include "Interthread.h"
#include <set>
#include <memory>
using namespace pbt;
namespace {
std::set<void*> gLive; int gBadFree;
struct El { int id; El(int i):id(i) { Untracked u; gLive.insert(this); } El(const El&); virtual ~El() { if (!gLive.erase(this)) gBadFree++; } };
}
static std::string idof(void *e) { return !e ? "nothing" : gLive.count(e) ? std::to_string(((El*)e)->id) : "a dead element"; }
static int mk(Src &src, int*) { return (int)src.range(-3,6); }
static std::string mk(Src &src, std::string*) { return src.chars("ab",2); }
static int other(size_t i, int*) { return 100+(int)i; }
static std::string other(size_t i, std::string*) { return "c"+std::to_string(i); }
template<class K> static void map(Src &src) {
	struct Reset { ~Reset(){ env::virtualTime = false; } } reset; env::setTime(1000000,src.draw(1000)*1000000); gLive.clear(); gBadFree = 0;
	std::unique_ptr<InterthreadMap<K,El> > q(new InterthreadMap<K,El>); std::map<K,El*> m; std::vector<El*> mine; int next = 0; size_t n = src.len(50); if (n>4) src.nontrivial();
	struct Clean { std::vector<El*> &v; ~Clean() { for (El *e : v) if (gLive.count(e)) delete e; } } clean = { mine };
	int big = 0; auto held = [&](const char *when) { if (m.size()>2000 && ++big%16) return; PCHECK(!gBadFree,"double-free","an element was released twice " << when); std::set<void*> want; for (auto &p : m) want.insert(p.second); for (El *e : mine) want.insert(e); PCHECK(want==gLive,"ownership",when << ": " << gLive.size() << " elements exist, " << m.size() << " are in the map and " << mine.size() << " were handed out"); };
	#define EXPECT(GOT,WANT,WHAT) do { El *_g = (GOT), *_w = (WANT); PCHECK(_g==_w,"value",WHAT << " of key " << key << " gave " << idof(_g) << ", expected " << idof(_w)); } while(0)
	size_t many = src.burst(); if (many) NOTE(many << " keys written"); for (size_t i=0;i<many;i++) { El *e = new El(next++); K key = other(i,(K*)0); m[key] = e; q->write(key,e); }
	for (size_t i=0;i<n;i++) {
		K key = mk(src,(K*)0); auto p = m.find(key); El *want = p==m.end() ? 0 : p->second, *e = 0; bool rem = src.coin(), ok; int64_t at = env::nowNs; unsigned t = src.chance(1,4) ? 0 : 1+(unsigned)src.draw(4000);
		#define TOOK(T) do { int64_t took = (env::nowNs-at)/1000; if (want || !(T)) PCHECK(took==0,"waited","reading a key there took " << took << " us"); else PCHECK(took>=(int64_t)(T)*1000-2001,"gave-up","reading for " << (T) << " ms gave up after " << took << " us"); } while(0)
		#define TAKE() do { if (e && rem) { mine.push_back(e); m.erase(key); } } while(0)
		switch (src.weighted({6,2,2,2,2,2,2,1})) {
		case 0: e = new El(next++); NOTE("write " << key << " element " << e->id); m[key] = e; q->write(key,e); break;
		case 1: NOTE("getNoBlock " << key << (rem?" removing":"")); ok = rem && src.coin() ? q->getNoBlock(key,e) : q->getNoBlock(key,e,rem); EXPECT(e,want,"getNoBlock"); PCHECK(ok==!!want,"found","getNoBlock of " << key << " returned " << ok); TAKE(); break;
		case 2: NOTE("get " << key << " for " << t << (rem?" removing":"")); ok = q->get(key,e,t,rem); EXPECT(e,want,"get"); PCHECK(ok==!!want,"found","get of " << key << " returned " << ok); TOOK(t); TAKE(); break;
		case 3: if (want) { NOTE("get " << key << (rem?" removing":"")); ok = q->get(key,e,rem); EXPECT(e,want,"get"); PCHECK(ok,"found","get of " << key << " returned false"); TAKE(); } break;
		case 4: NOTE("remove " << key); m.erase(key); ok = q->remove(key); PCHECK(ok==!!want,"found","remove of " << key << " returned " << ok); break;
		case 5: NOTE("readNoBlock " << key); EXPECT(q->readNoBlock(key),want,"readNoBlock"); break;
		case 6: NOTE("read " << key << " for " << t); EXPECT(q->read(key,t),want,"read"); TOOK(t); break;
		default: if (want) { NOTE("read " << key); EXPECT(q->read(key),want,"read"); }
		}
		PCHECK(q->size()==m.size(),"size","size is " << q->size() << " with " << m.size() << " entries"); held("after an operation");
		ScopedLock l(q->qGetLock()); auto w = m.begin(); size_t k = 0; for (typename InterthreadMap<K,El>::iterator it = q->begin(); it != q->end(); ++it,++w,k++) { PCHECK(w!=m.end() && it->first==w->first && it->second==w->second,"iterate","iteration at " << k << " shows key " << it->first << " element " << idof(it->second)); } PCHECK(w==m.end(),"iterate","iteration shows " << k << " of " << m.size() << " entries");
	}
	q.reset(); m.clear(); held("after the map is destroyed");
}
struct Counted : public InterthreadMap1<int,int> { std::vector<int> gone; void vdelete(int v) { gone.push_back(v); } };
static void plain(Src &src) {
	struct Reset { ~Reset(){ env::virtualTime = false; } } reset; env::setTime(1000000,0); Counted q; std::map<int,int> m; std::vector<int> gone; size_t n = src.len(40); if (n>4) src.nontrivial();
	for (size_t i=0;i<n;i++) { int key = (int)src.draw(5), v = (int)src.range(1,1000), e = -1; auto p = m.find(key); bool had = p!=m.end(), rem = src.coin(), ok; int want = had ? p->second : -1;
		switch (src.draw(6)) {
		case 0: case 1: NOTE("write " << key << " " << v); if (had) gone.push_back(want); q.write(key,v); m[key] = v; break;
		case 2: NOTE("remove " << key); ok = q.remove(key); PCHECK(ok==had,"found","remove of " << key << " returned " << ok); if (had) { gone.push_back(want); m.erase(key); } break;
		case 3: NOTE("getNoBlock " << key); ok = q.getNoBlock(key,e,rem); PCHECK(ok==had && e==want,"value","getNoBlock of " << key << " gave " << e << ", expected " << want); if (rem) m.erase(key); break;
		case 4: NOTE("get " << key << " for 5"); ok = q.get(key,e,5u,rem); PCHECK(ok==had && e==want,"value","get of " << key << " gave " << e << ", expected " << want); if (rem) m.erase(key); break;
		default: if (had) { NOTE("read " << key); PCHECK(q.read(key)==want && q.read(key,7)==want,"value","read of " << key << " expected " << want); q.get(key,e,rem); PCHECK(e==want,"value","get of " << key << " gave " << e << ", expected " << want); if (rem) m.erase(key); }
		}
		PCHECK(q.gone==gone,"release","values released " << q.gone.size() << " times, expected " << gone.size()); PCHECK(q.size()==m.size(),"size","size is " << q.size() << " with " << m.size() << " entries");
	}
}
PTEST(intmap, 60000) { noLeakCase("leak",src,map<int>); }
PTEST(textmap, 30000) { noLeakCase("leak",src,map<std::string>); }
PTEST(plainmap, 40000) { noLeakCase("leak",src,plain); }

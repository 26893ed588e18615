// C21, from one thread: reference-counting pointers in variables, objects and containers beside a count of references.
#include "common.h"
#include "Utils.h"
#include <list>
#include <memory>
using namespace pbt;
namespace {
int gDestroyed[64], gBad;
struct Obj : public RefCntBase { int id, value; unsigned magic; RefCntPointer<Obj> next; Obj(int i, int v):id(i),value(v),magic(0x600d) {} virtual ~Obj() { if (magic!=0x600d) gBad++; magic = 0xdead; gDestroyed[id]++; } };
struct Sub : public Obj { std::string extra; Sub(int i, int v):Obj(i,v),extra(40,'x') {} ~Sub() { if (extra.size()!=40) gBad++; } };
typedef RefCntPointer<Obj> P; typedef RefCntPointer<Sub> PS;
struct M { int next; bool dead, sub; Obj *p; };
const int NS = 6, NSUB = 2;
P byValue(P p) { return p; }
void takeConst(const P &p, P &to) { P q(p); to = q; }
}
static void body(Src &src) {
	memset(gDestroyed,0,sizeof gDestroyed); gBad = 0; std::vector<M> m; bool multi = false;
	{ P slot[NS]; PS sub[NSUB]; std::vector<P> vec; std::list<P> lst; std::map<int,P> mp; int s[NS], b[NSUB]; std::vector<int> v; std::list<int> l; std::map<int,int> mm; for (int &x : s) x = -1; for (int &x : b) x = -1;
	auto check = [&](const char *when) {
		for (bool more=true; more; ) { more = false; std::vector<int> c(m.size(),0); auto ref = [&](int i) { if (i>=0) c[i]++; }; for (int x : s) ref(x); for (int x : b) ref(x); for (int x : v) ref(x); for (int x : l) ref(x); for (auto &x : mm) ref(x.second); for (auto &x : m) if (!x.dead) ref(x.next);
			for (size_t i=0;i<m.size();i++) if (!m[i].dead && !c[i]) { m[i].dead = true; m[i].next = -1; more = true; }
			if (!more) { PCHECK(!gBad,"double-free","an object was destroyed twice, " << when);
				for (size_t i=0;i<m.size();i++) { PCHECK(gDestroyed[i]==(int)m[i].dead,m[i].dead?"kept":"destroyed","object " << i << " has been destroyed " << gDestroyed[i] << " times though " << c[i] << " pointers refer to it, " << when); if (!m[i].dead) { int n = m[i].p->getRefCnt(); PCHECK(n==c[i],"count","object " << i << " counts " << n << " references, there are " << c[i] << ", " << when); if (n>2) multi = true; } }
				auto same = [&](Obj *p, int w, const char *what, size_t k) { PCHECK(p==(w<0?0:m[w].p),"refers",what << " " << k << " does not refer to object " << w << ", " << when); };
				for (int i=0;i<NS;i++) { same(slot[i].self(),s[i],"pointer",i); PCHECK(slot[i].isNULL()==(s[i]<0) && (slot[i]==(Obj*)0)==(s[i]<0) && (slot[i]!=(Obj*)0)!=(s[i]<0),"isNULL","pointer " << i << " is" << (s[i]<0?"":" not") << " empty, " << when); if (s[i]>=0) PCHECK(slot[i]->id==s[i] && (*slot[i]).value==s[i]*7 && slot[i]->magic==0x600d,"refers","pointer " << i << " does not reach object " << s[i]); for (int k=0;k<i;k++) PCHECK((slot[i]==slot[k])==(s[i]==s[k]) && (slot[i]!=slot[k])==(s[i]!=s[k]),"equal","pointers " << i << " and " << k << " compare wrongly"); }
				for (int i=0;i<NSUB;i++) same(sub[i].self(),b[i],"derived pointer",i);
				PCHECK(vec.size()==v.size() && lst.size()==l.size() && mp.size()==mm.size(),"harness","sizes"); for (size_t i=0;i<v.size();i++) same(vec[i].self(),v[i],"vector element",i); size_t k = 0; auto li = l.begin(); for (auto it=lst.begin(); it!=lst.end(); ++it,++li) same(it->self(),*li,"list element",k++); for (auto &x : mp) same(x.second.self(),mm[x.first],"map element",x.first); } } };
	auto reach = [&](int from, int to) { for (int x=from; x>=0; x=m[x].next) if (x==to) return true; return false; };
	size_t n = 1+src.len(60);
	for (size_t k=0;k<n;k++) { int i = src.draw(NS), j = src.draw(NS); std::ostringstream o; bool noted = false; (void)noted;
		switch (src.weighted({4,3,2,2,2,2,3,2,2,2,2,2,2,2,2,1,1})) {
		case 0: case 16: if (m.size()<60) { int id = m.size(); bool isSub = src.coin(); Obj *p = isSub ? new Sub(id,id*7) : new Obj(id,id*7); m.push_back({ -1, false, isSub, p }); NOTE("pointer " << i << " = new object " << id); int how = src.draw(3); if (how==0) slot[i] = p; else if (how==1) slot[i] = P(p); else { P t(p); slot[i] = t; } s[i] = id; } break;
		case 1: NOTE("pointer " << i << " = pointer " << j); slot[i] = slot[j]; s[i] = s[j]; break;
		case 2: NOTE("pointer " << i << " = pointer " << j << "'s object"); slot[i] = slot[j].self(); s[i] = s[j]; break;
		case 3: NOTE("free pointer " << i); slot[i].free(); s[i] = -1; break;
		case 4: NOTE("pointer " << i << " = null"); if (src.coin()) slot[i] = (Obj*)0; else { P t; slot[i] = t; } s[i] = -1; break;
		case 5: NOTE("copies of pointer " << i); { P a(slot[i]); const P c(slot[i]); P d(c), e(slot[i].self()); a = d; d = e; e.free(); slot[j] = a; s[j] = s[i]; } break;
		case 6: if (s[i]>=0 && !(s[j]>=0 && reach(s[j],s[i]))) { NOTE("object " << s[i] << " keeps a pointer to " << s[j]); slot[i]->next = slot[j]; m[s[i]].next = s[j]; } break;
		case 7: if (s[i]>=0) { NOTE("pointer " << i << " steps along"); int to = m[s[i]].next; if (src.coin()) slot[i] = slot[i]->next; else slot[i] = slot[i]->next.self(); s[i] = to; } break;
		case 8: NOTE("vector gets pointer " << i); vec.push_back(slot[i]); v.push_back(s[i]); break;
		case 9: if (v.size()) { size_t x = src.draw(v.size()); NOTE("vector loses " << x); vec.erase(vec.begin()+x); v.erase(v.begin()+x); } break;
		case 10: { bool back = src.coin(); NOTE("list gets pointer " << i); if (back) { lst.push_back(slot[i]); l.push_back(s[i]); } else { lst.push_front(slot[i]); l.push_front(s[i]); } if (src.chance(1,3) && l.size()>1) { lst.reverse(); l.reverse(); } break; }
		case 11: if (l.size()) { NOTE("list moves one to pointer " << i); if (src.coin()) { slot[i] = lst.front(); s[i] = l.front(); lst.pop_front(); l.pop_front(); } else { slot[i] = lst.back(); s[i] = l.back(); lst.pop_back(); l.pop_back(); } } break;
		case 12: { int key = src.draw(4); NOTE("map[" << key << "] = pointer " << i); mp[key] = slot[i]; mm[key] = s[i]; break; }
		case 13: { int key = src.draw(4); NOTE("map loses " << key); mp.erase(key); mm.erase(key); break; }
		case 14: { int what = src.draw(3); if (what==0) { NOTE("pointer " << i << " = pointer " << j << " through a function"); slot[i] = byValue(slot[j]); s[i] = s[j]; } else if (what==1) { NOTE("pointer " << i << " = pointer " << j << " through a constant"); takeConst(slot[j],slot[i]); s[i] = s[j]; } else { NOTE("swap " << i << " and " << j); std::swap(slot[i],slot[j]); std::swap(s[i],s[j]); } break; }
		case 15: { int k2 = src.draw(NSUB); bool to = s[i]>=0 && m[s[i]].sub; NOTE("derived pointer " << k2 << " = " << (to?"pointer ":"nothing ") << i); if (to) { sub[k2] = (Sub*)slot[i].self(); b[k2] = s[i]; } else if (b[k2]>=0) { slot[i] = sub[k2].self(); s[i] = b[k2]; if (src.coin()) { sub[k2].free(); b[k2] = -1; } } break; }
		}
		if (src.chance(1,30)) { NOTE("clear the containers"); vec.clear(); v.clear(); if (src.coin()) { lst.clear(); l.clear(); mp.clear(); mm.clear(); } }
		check("after an operation");
	} }
	for (size_t i=0;i<m.size();i++) PCHECK(gDestroyed[i]==1,gDestroyed[i]?"double-free":"kept","after every pointer has gone object " << i << " has been destroyed " << gDestroyed[i] << " times");
	if (multi) src.nontrivial();
}
PTEST(history, 60000) { noLeakCase("leak",src,body); }
// One object with a great many references: copies arrive in a vector and leave again in another order.
PTEST(many, 60) {
	memset(gDestroyed,0,sizeof gDestroyed); gBad = 0; size_t n = src.coin() ? src.size(3000) : 32700+src.draw(34000);
	{ P a(new Obj(0,0)); std::vector<P> v; NOTE(n << " copies of a pointer");
		auto look = [&](const char *when) { PCHECK(!gDestroyed[0] && !gBad,"destroyed","the object has been destroyed though " << v.size()+1 << " pointers refer to it, " << when); int c = a->getRefCnt(); PCHECK(c==(int)v.size()+1,"count","the object counts " << c << " references, there are " << v.size()+1 << ", " << when); };
		auto due = [](size_t x) { return (x&(x-1))==0 || (x>32765 && x<32770) || (x>65533 && x<65538); };
		for (size_t x=0;x<n;x++) { v.push_back(x&1 ? v[x/2] : a); if (due(v.size())) look("while copies are made"); }
		look("after the copies"); size_t rest = n ? src.draw(n+1) : 0; NOTE("down to " << rest);
		while (v.size()>rest) { if (v.size()>2) std::swap(v[v.size()/2],v.back()); v.pop_back(); if (due(v.size())) look("while copies go"); } look("after copies have gone");
		if (n>2) src.nontrivial(); }
	PCHECK(gDestroyed[0]==1 && !gBad,"kept","after every pointer has gone the object has been destroyed " << gDestroyed[0] << " times");
}

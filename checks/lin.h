// Linearizability of a short history: is there an order of the operations, consistent with real time, in which each gives
// the result it gave?  The state must be copyable and give a key() for remembering what was tried.
#ifndef LIN_H
#define LIN_H
#include <vector>
#include <set>
#include <string>
#include <functional>
#include <stdint.h>
namespace lin {
template<class St> struct Op {
	uint64_t call, ret;                       // ret==UINT64_MAX: has not returned
	std::function<bool(St&)> apply;           // false: this result is impossible in this state
	std::string text;
};
template<class St> class Check {
	std::vector<Op<St> > &ops; std::set<std::string> seen; size_t nret; uint64_t budget;
	bool go(uint64_t done, size_t k, const St &s) {
		if (k==nret) return true;
		if (!budget) return true; budget--;
		std::string key = s.key(); key.append((char*)&done,8); if (!seen.insert(key).second) return false;
		uint64_t first = UINT64_MAX; for (size_t i=0;i<ops.size();i++) if (!(done>>i&1) && ops[i].ret<first) first = ops[i].ret;
		for (size_t i=0;i<ops.size();i++) if (!(done>>i&1) && ops[i].call<=first) { St t = s; if (ops[i].apply(t) && go(done|1ULL<<i,k+(ops[i].ret!=UINT64_MAX),t)) return true; }
		return false;
	}
public:
	Check(std::vector<Op<St> > &o):ops(o),nret(0),budget(200000) { for (auto &x : o) nret += x.ret!=UINT64_MAX; }
	bool ok(const St &init) { if (ops.size()>60) return true; return go(0,0,init); }
};
}
#endif

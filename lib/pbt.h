// Property-based testing engine used by every check in /verif/checks.
// A test is a function void(pbt::Src&) that draws every random choice from the Src, drives the
// code under test, and throws pbt::Fail (through PCHECK) when the oracle disagrees.
// The choices drawn are recorded, so a failure is replayed and shrunk as a list of integers;
// the same function serves the random workers and the coverage-guided (libFuzzer) workers.
#ifndef PBT_H
#define PBT_H
#include <stdint.h>
#include <string>
#include <vector>
#include <sstream>
#include <map>
#include <functional>

namespace pbt {

struct Fail { std::string sig, msg; Fail(const std::string &s, const std::string &m):sig(s),msg(m){} };
struct Discard {};

extern bool gNoting;                 // true when the case is being written out (sample or replay)
void noteText(const std::string &s);

class Src {
public:
	// draw from [0,n); n==0 means the whole 64-bit range.  Smaller is simpler.
	uint64_t draw(uint64_t n);
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi-lo)+1); } // lo simplest
	bool coin() { return draw(2)!=0; }
	bool chance(unsigned num, unsigned den) { return draw(den) >= den-num; } // false simplest
	// A length in [0,max]: mostly small, sometimes up to max.
	size_t len(size_t max);
	// The same, but now and then several times max, and rarely beyond 16 bits (only while searching at random).
	size_t size(size_t max, size_t huge = 70000);
	size_t burst(unsigned den=150);  // mostly 0, now and then hundreds, rarely more than 16 bits hold
	std::string run(const char *of, unsigned den=50, size_t huge=70000);  // mostly nothing, now and then a long run of characters of `of`
	// A value below 2^bits with boundary bias.
	uint64_t biased(unsigned bits=64);
	// A signed value with boundary bias.
	int64_t sbiased(unsigned bits=64);
	unsigned weighted(std::initializer_list<unsigned> w);
	template<class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
	std::string bytes(size_t maxlen);            // any bytes
	std::string chars(const char *alphabet, size_t maxlen);
	std::string nastyText(size_t maxlen);        // NUL-free text mixing ordinary and awkward characters
	void nontrivial() { isNontrivial = true; }
	void label(const char *l);
	void discard() { throw Discard(); }

	// engine side
	enum Mode { RANDOM, REPLAY, BYTES } mode;
	uint64_t s[4];
	const uint64_t *in; size_t nin, pos;
	const uint8_t *bp; size_t nb;
	bool isNontrivial;
	std::vector<const char*> labels;
	void seed(uint64_t a, uint64_t b, uint64_t c);
	uint64_t rng();
};

typedef void (*TestFn)(Src&);
struct Test { const char *name; TestFn fn; uint64_t quick; bool fuzz; };
struct Reg { Reg(const char *n, TestFn f, uint64_t quick, bool fuzz); };

// Live allocation tracking: number of blocks (malloc/new) live right now that were allocated since reset.
// Implemented through the ASan malloc hooks; always zero in builds without ASan.
long liveBlocks();
// Runs f (a complete, self-contained use of the code under test) and fails with sig if it leaks.
void noLeak(const char *sig, const std::function<void()> &f);
// The same for a whole test: f draws its own choices; a suspected leak is confirmed by replaying them.
void noLeakCase(const char *sig, Src &src, const std::function<void(Src&)> &f);
struct Untracked { Untracked(); ~Untracked(); int old; };  // harness allocations that outlive the case

std::string show(const std::string &s);  // printable rendering
std::string scratchDir();                // a private directory for this worker, emptied when the worker starts
void atCaseStart(void (*f)());           // called before each case

} // namespace pbt

// PTEST(name, quickcases) { ... src ... }
#define PTEST(NAME, QUICK) \
	static void ptest_##NAME(pbt::Src &src); \
	static pbt::Reg preg_##NAME(#NAME, ptest_##NAME, QUICK, true); \
	static void ptest_##NAME(pbt::Src &src)
// A test without the coverage-guided part.
#define PTEST_NOFUZZ(NAME, QUICK) \
	static void ptest_##NAME(pbt::Src &src); \
	static pbt::Reg preg_##NAME(#NAME, ptest_##NAME, QUICK, false); \
	static void ptest_##NAME(pbt::Src &src)

#define NOTE(EXPR) do { if (pbt::gNoting) { std::ostringstream _o; _o << EXPR; pbt::noteText(_o.str()); } } while(0)
#define PFAIL(SIG, EXPR) do { std::ostringstream _o; _o << EXPR; throw pbt::Fail(SIG, _o.str()); } while(0)
#define PCHECK(COND, SIG, EXPR) do { if (!(COND)) PFAIL(SIG, EXPR << "   [" #COND "]"); } while(0)
#endif

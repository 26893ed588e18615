#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <algorithm>
#include <set>
#include <unordered_set>
#include <iostream>
#include <fstream>

namespace pbt {

bool gNoting = false;
static std::string gNotes;
static __thread int tTrack = 0;
static bool gLiveNotes = false;
void noteText(const std::string &s) { Untracked u; if (gLiveNotes) { printf("%s\n",s.c_str()); fflush(stdout); return; }  if (gNotes.size() < 20000) { gNotes += s; gNotes += "\n"; } }

static const size_t CAP = 1<<17;
struct Cur { uint64_t test, caseNo, n, busy; uint64_t choices[CAP]; };
static Cur gDummy;
static Cur *gCur = &gDummy;

static std::vector<Test> &tests() { static std::vector<Test> t; return t; }
Reg::Reg(const char *n, TestFn f, uint64_t q, bool fz) { Test t = { n, f, q, fz }; tests().push_back(t); }
static std::vector<void(*)()> &starters() { static std::vector<void(*)()> t; return t; }
void atCaseStart(void (*f)()) { starters().push_back(f); }

static uint64_t mix(uint64_t &x) { uint64_t z = (x += 0x9e3779b97f4a7c15ULL); z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
void Src::seed(uint64_t a, uint64_t b, uint64_t c) {
	uint64_t x = a*0x2545F4914F6CDD1DULL + 1; x ^= mix(x)+b*0x9E3779B97F4A7C15ULL; mix(x); x ^= c*0xD1342543DE82EF95ULL + 77; 
	for (int i=0;i<4;i++) s[i]=mix(x);
}
static inline uint64_t rotl(uint64_t x,int k){return (x<<k)|(x>>(64-k));}
uint64_t Src::rng() {
	uint64_t r = rotl(s[1]*5,7)*9, t=s[1]<<17;
	s[2]^=s[0]; s[3]^=s[1]; s[1]^=s[2]; s[0]^=s[3]; s[2]^=t; s[3]=rotl(s[3],45);
	return r;
}
uint64_t Src::draw(uint64_t n) {
	uint64_t v = 0;
	if (n == 1) return 0;
	switch (mode) {
	case RANDOM:
		v = rng();
		if (n) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
		break;
	case REPLAY:
		v = pos < nin ? in[pos++] : 0;
		if (n) v %= n;
		break;
	case BYTES: {
		unsigned k = 8;
		if (n) { uint64_t m = n-1; k=0; while (m) { k++; m >>= 8; } }
		for (unsigned i=0;i<k;i++) { v = (v<<8) | (nb ? *bp : 0); if (nb) { bp++; nb--; } }
		if (n) v %= n;
		break; }
	}
	if (gCur->n >= CAP) throw Discard();
	gCur->choices[gCur->n++] = v;
	return v;
}
size_t Src::len(size_t max) {
	if (!max) return 0;
	switch (draw(8)) {
	case 0: case 1: return draw(std::min<size_t>(max,3)+1);
	case 2: case 3: case 4: return draw(std::min<size_t>(max,10)+1);
	case 5: return draw(std::min<size_t>(max,40)+1);
	case 6: { size_t m = max; unsigned k=0; while (m>>k) k++; size_t r = ((size_t)1<<draw(k)) + draw(3); r = r ? r-1 : 0; return std::min(r,max); }
	default: return draw(max+1);
	}
}
size_t Src::size(size_t max, size_t huge) {
	unsigned k = draw(2048);
	if (k==2047 && huge>8*max) return mode==BYTES ? draw(8*max+1) : draw(huge+1);
	if (k>=2000) return draw(8*max+1);
	return len(max);
}
size_t Src::burst(unsigned den) { if (draw(den)!=den-1) return 0; return draw(30)==29 && mode!=BYTES ? 65000+draw(1500) : 200+draw(400); }
std::string Src::run(const char *of, unsigned den, size_t huge) {
	if (draw(den)!=den-1) return "";
	size_t l = strlen(of), step = 1+draw(7), n = draw(32)==31 && mode!=BYTES ? draw(huge+1) : 200+draw(1200); std::string r;
	for (size_t i=0;i<n;i++) r += of[i*step/3%l];
	return r;
}
uint64_t Src::biased(unsigned bits) {
	if (!bits) return 0;
	uint64_t m = bits>=64 ? ~0ULL : ((1ULL<<bits)-1);
	switch (draw(6)) {
	case 0: return draw(4) & m;
	case 1: return draw(300) & m;
	case 2: { uint64_t k = draw(bits); uint64_t v = (1ULL<<k); return (v + draw(3) - 1) & m; }
	case 3: return (m - draw(4)) & m;
	case 4: { uint64_t k = draw(bits)+1; return (k>=64 ? draw(0) : draw(1ULL<<k)) & m; }
	default: return draw(0) & m;
	}
}
int64_t Src::sbiased(unsigned bits) {
	uint64_t v = biased(bits);
	if (bits>=64) return (int64_t)v;
	return (int64_t)(v << (64-bits)) >> (64-bits);
}
unsigned Src::weighted(std::initializer_list<unsigned> w) {
	unsigned t=0; for (unsigned x : w) t += x;
	unsigned v = draw(t), i=0;
	for (unsigned x : w) { if (v < x) return i; v -= x; i++; }
	return 0;
}
std::string Src::bytes(size_t maxlen) {
	size_t n = len(maxlen); std::string r(n,0);
	unsigned style = draw(3);
	for (size_t i=0;i<n;i++) r[i] = style==0 ? (char)('a'+draw(26)) : (char)draw(256);
	return r;
}
std::string Src::chars(const char *al, size_t maxlen) {
	size_t n = len(maxlen), k = strlen(al); std::string r(n,0);
	for (size_t i=0;i<n;i++) r[i] = al[draw(k)];
	return r;
}
std::string Src::nastyText(size_t maxlen) {
	static const char al[] = "abcXYZ0189 '\"%_;-().,:|*?[]\\/\t\n$&<>#=+{}\x7f\x01\xc3\xa9\xff";
	size_t n = len(maxlen), k = sizeof(al)-1; std::string r(n,0);
	unsigned style = draw(4);
	for (size_t i=0;i<n;i++) {
		if (style==0) r[i] = 'a'+draw(26);
		else if (style==3) r[i] = (char)(1+draw(255));
		else r[i] = al[draw(k)];
	}
	return r;
}

std::string show(const std::string &s) {
	std::string r="\"";
	for (size_t i=0;i<s.size();i++) {
		unsigned char c = s[i];
		if (i > 400) { r += "...(" + std::to_string(s.size()) + ")"; break; }
		if (c=='"'||c=='\\') { r+='\\'; r+=c; }
		else if (c>=32 && c<127) r+=c;
		else { char b[8]; snprintf(b,sizeof b,"\\x%02x",c); r+=b; }
	}
	return r+"\"";
}

// ---- leak tracking
} void dsQuiet(int) __attribute__((weak)); namespace pbt {
bool canDraw(size_t n) { return gCur->n+n < CAP; }
Untracked::Untracked():old(tTrack) { if (old==1) tTrack=3; if (dsQuiet) dsQuiet(1); }
Untracked::~Untracked() { tTrack=old; if (dsQuiet) dsQuiet(-1); }
void Src::label(const char *l) { Untracked u; labels.push_back(l); }
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*)) __attribute__((weak));
static std::unordered_set<const volatile void*> *gBlocks;
static void mhook(const volatile void *p, size_t) { if (tTrack==1) { tTrack=2; gBlocks->insert(p); tTrack=1; } }
static void fhook(const volatile void *p) { if (tTrack==1 || tTrack==3) { int t=tTrack; tTrack=2; gBlocks->erase(p); tTrack=t; } }
extern "C" void __asan_describe_address(void*) __attribute__((weak));
static void describeLeaks() { if (__asan_describe_address) for (const volatile void *p : *gBlocks) __asan_describe_address((void*)p); }
long liveBlocks() { return gBlocks ? (long)gBlocks->size() : 0; }
static void hooks() {
	static bool done = false;
	if (done) return;
	done = true;
	if (__sanitizer_install_malloc_and_free_hooks) { gBlocks = new std::unordered_set<const volatile void*>; __sanitizer_install_malloc_and_free_hooks(mhook,fhook); }
}
void noLeak(const char *sig, const std::function<void()> &f) {
	hooks();
	if (!gBlocks) { f(); return; }
	// A leak is blocks that stay live on every one of three runs: lazily created caches are not leaks.
	long n = 0;
	for (int k=0;k<3;k++) {
		gBlocks->clear();
		tTrack = 1;
		try { f(); } catch (...) { tTrack = 0; throw; }
		tTrack = 0;
		n = gBlocks->size();
		if (!n) return;
	}
	gBlocks->clear();
	PFAIL(sig, n << " block(s) still allocated after the objects were destroyed, on each of 3 identical runs");
}

void noLeakCase(const char *sig, Src &src, const std::function<void(Src&)> &f) {
	hooks();
	if (!gBlocks) { f(src); return; }
	uint64_t from = gCur->n;
	gBlocks->clear(); tTrack = 1;
	try { f(src); } catch (...) { tTrack = 0; throw; }
	tTrack = 0;
	if (!gBlocks->size()) return;
	std::vector<uint64_t> ch(gCur->choices+from, gCur->choices+gCur->n);
	uint64_t keep = gCur->n; size_t n = 0;
	for (int k=0;k<2;k++) {
		Src s2; s2.mode=Src::REPLAY; s2.in=ch.data(); s2.nin=ch.size(); s2.pos=0; s2.bp=0; s2.nb=0; s2.isNontrivial=false;
		bool nt = gNoting; gNoting = false;
		gBlocks->clear(); tTrack = 1;
		try { f(s2); } catch (...) { tTrack = 0; gNoting = nt; throw; }
		tTrack = 0; gNoting = nt; gCur->n = keep;
		n = gBlocks->size();
		if (!n) return;
	}
	if (getenv("PBT_LEAKTRACE")) describeLeaks();
	gBlocks->clear();
	PFAIL(sig, n << " block(s) still allocated after the objects were destroyed, on each of 3 identical runs");
}

// ---- main
static double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec/1e9; }
static std::string gOut = ".";
static std::string gWorker = "w";
std::string scratchDir() {
	static std::string d;
	if (d.empty()) {
		d = gOut + "/scratch-" + gWorker;
		std::string cmd = "rm -rf '" + d + "'";
		// only ever a directory below the check's own build directory
		if (d.find("/scratch-") != std::string::npos && d[0]=='/') { FILE *p = popen(cmd.c_str(),"r"); if (p) pclose(p); }
		mkdir(d.c_str(), 0777);
	}
	return d;
}

struct Stat { uint64_t cases, nontrivial, discards; std::vector<uint64_t> hashes; std::map<std::string,uint64_t> labels; std::vector<std::string> samples; Stat():cases(0),nontrivial(0),discards(0){} };
static std::vector<Stat> gStats;
static std::set<std::string> gKnown;
static std::map<std::string,uint64_t> gKnownHits;
static size_t gHashCap = 2000000;

static uint64_t hashChoices() {
	uint64_t h = 1469598103934665603ULL;
	for (uint64_t i=0;i<gCur->n;i++) { h ^= gCur->choices[i]; h *= 1099511628211ULL; h ^= h>>29; }
	return h;
}
static void startCase() { for (void (*f)() : starters()) f(); }

// Runs one case. Returns false on failure (fail filled in).
static bool runCase(unsigned ti, Src &src, Fail &fail, bool sample) {
	Test &t = tests()[ti]; Stat &st = gStats[ti];
	gCur->test = ti; gCur->caseNo++; gCur->n = 0; gCur->busy = 1;
	src.pos = 0; src.isNontrivial = false; src.labels.clear();
	gNotes.clear(); gNoting = sample;
	bool ok = true, disc = false;
	try { startCase(); t.fn(src); }
	catch (Fail &f) {
		if (gKnown.count(f.sig)) gKnownHits[f.sig]++;
		else { fail = f; ok = false; }
	}
	catch (Discard &) { disc = true; }
	// an exception the test did not expect
	catch (std::exception &e) { fail = Fail("unexpected-exception", std::string("unexpected C++ exception: ")+e.what()); ok = false; }
	catch (...) { fail = Fail("unexpected-exception","unexpected C++ exception of unknown type"); ok = false; }
	gCur->busy = 0;
	gNoting = false;
	st.cases++;
	if (disc) st.discards++;
	else if (src.isNontrivial) {
		st.nontrivial++;
		if (st.hashes.size() < gHashCap) st.hashes.push_back(hashChoices());
		if (sample && st.samples.size() < 3 && gNotes.size()) st.samples.push_back(gNotes.substr(0,1500));
	}
	for (const char *l : src.labels) st.labels[l]++;
	return ok;
}

static std::string jstr(const std::string &s) {
	std::string r="\"";
	for (unsigned char c : s) { if (c=='"'||c=='\\') { r+='\\'; r+=c; } else if (c>=32&&c<127) r+=c; else { char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } }
	return r+"\"";
}
static void writeFail(const char *test, const Fail &f, const std::string &path) {
	std::ofstream o(path);
	o << "test " << test << "\nsig " << f.sig << "\nchoices";
	for (uint64_t i=0;i<gCur->n;i++) o << " " << gCur->choices[i];
	o << "\n";
	std::string m = f.msg; std::istringstream is(m); std::string l; while (std::getline(is,l)) o << "# " << l << "\n";
}
static void writeStats(const std::string &path) {
	std::ofstream o(path + ".tmp"); o << "{\"tests\":{";
	for (size_t i=0;i<tests().size();i++) {
		Stat &s = gStats[i];
		o << (i?",":"") << jstr(tests()[i].name) << ":{\"cases\":" << s.cases << ",\"nontrivial\":" << s.nontrivial << ",\"discards\":" << s.discards << ",\"labels\":{";
		bool first=true; for (auto &l : s.labels) { o << (first?"":",") << jstr(l.first) << ":" << l.second; first=false; }
		o << "},\"samples\":["; for (size_t k=0;k<s.samples.size();k++) o << (k?",":"") << jstr(s.samples[k]); o << "]}";
	}
	o << "},\"known\":{"; bool first=true; for (auto &k : gKnownHits) { o << (first?"":",") << jstr(k.first) << ":" << k.second; first=false; }
	o << "}}\n"; o.close();
	rename((path+".tmp").c_str(), path.c_str());
	std::ofstream h(path + ".hash", std::ios::binary);
	for (size_t i=0;i<gStats.size();i++) for (uint64_t x : gStats[i].hashes) { x ^= i*0x9e3779b97f4a7c15ULL; h.write((char*)&x,8); }
}
static void mapCur(const std::string &path) {
	int fd = open(path.c_str(), O_RDWR|O_CREAT|O_TRUNC, 0644);
	if (fd<0 || ftruncate(fd,sizeof(Cur))) { perror("cur"); _exit(3); }
	gCur = (Cur*)mmap(0,sizeof(Cur),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
	close(fd);
}
static bool readFailFile(const char *p, std::string &test, std::string &sig, std::vector<uint64_t> &ch) {
	std::ifstream f(p); std::string l; bool got=false;
	while (std::getline(f,l)) {
		std::istringstream is(l); std::string k; is >> k;
		if (k=="test") is >> test;
		else if (k=="sig") is >> sig;
		else if (k=="choices") { uint64_t v; while (is >> v) ch.push_back(v); got=true; }
	}
	return got;
}
static int testIndex(const std::string &n) { for (size_t i=0;i<tests().size();i++) if (n==tests()[i].name) return i; return -1; }

static unsigned gFuzzTest; static std::string gFuzzBase; static uint64_t gFuzzRuns;
static int fuzzOne(const uint8_t *d, size_t n) {
	Src src; src.mode = Src::BYTES; src.bp=d; src.nb=n; src.in=0; src.nin=0;
	Fail f("","");
	static uint64_t cnt=0; cnt++;
	if (!runCase(gFuzzTest,src,f,(cnt%1000)==7)) { writeFail(tests()[gFuzzTest].name,f,gFuzzBase+".fail"); writeStats(gFuzzBase+".json"); _exit(1); }
	return 0;
}
} // namespace pbt
extern "C" int LLVMFuzzerRunDriver(int *argc, char ***argv, int (*cb)(const uint8_t*, size_t)) __attribute__((weak));

__attribute__((weak)) void pbtInit() {}
// The tests are run from here; a sched build supplies its own launcher.
int main(int argc, char **argv) {
	using namespace pbt;
	std::map<std::string,std::string> a; 
	for (int i=1;i+1<argc;i+=2) a[argv[i]] = argv[i+1];
	std::string mode = argc>1 ? argv[1] : "";
	auto get = [&](const char *k, const char *d) { auto it = a.find(k); return it==a.end()? std::string(d) : it->second; };
	gOut = get("-out",".");
	struct rlimit rl = {0,0}; setrlimit(RLIMIT_CORE,&rl);
	gStats.resize(tests().size());
	if (mode == "list") { for (auto &t : tests()) printf("%s %llu %d\n", t.name, (unsigned long long)t.quick, (int)t.fuzz); return 0; }
	if (mode == "merge") {
		std::vector<uint64_t> v;
		for (int i=2;i<argc;i++) { FILE *f = fopen(argv[i],"rb"); if (!f) continue; uint64_t b[4096]; size_t n; while ((n=fread(b,8,4096,f))>0) v.insert(v.end(),b,b+n); fclose(f); }
		std::sort(v.begin(),v.end()); printf("%zu\n", (size_t)(std::unique(v.begin(),v.end())-v.begin())); return 0;
	}
	{ std::ifstream k(get("-known","/dev/null")); std::string l; while (std::getline(k,l)) if (l.size()) gKnown.insert(l); }
	if (mode == "random") {
		a.clear(); for (int i=2;i+1<argc;i+=2) a[argv[i]] = argv[i+1];
		gOut = get("-out",".");
		{ std::ifstream k(get("-known","/dev/null")); std::string l; while (std::getline(k,l)) if (l.size()) gKnown.insert(l); }
		uint64_t seed = strtoull(get("-seed","1").c_str(),0,10);
		unsigned w = atoi(get("-worker","0").c_str()), W = atoi(get("-workers","1").c_str());
		double scale = atof(get("-scale","1").c_str()), limit = atof(get("-time","60").c_str());
		std::string only = get("-test",""); uint64_t upto = strtoull(get("-upto","0").c_str(),0,10);
		gWorker = get("-tag","w") + std::to_string(w);
		std::string base = gOut + "/" + get("-tag","w") + std::to_string(w);
		mapCur(base + ".cur");
		pbtInit();
		double t0 = wall();
		// interleave the tests in rounds so that a time limit cuts all of them alike
		std::vector<uint64_t> want(tests().size()), done(tests().size());
		for (size_t i=0;i<tests().size();i++) {
			want[i] = only.size() && only!=tests()[i].name ? 0 : (uint64_t)(tests()[i].quick*scale/W)+1;
		}
		const unsigned ROUNDS = 200; bool stop=false;
		for (unsigned r=1;r<=ROUNDS && !stop;r++) for (size_t i=0;i<tests().size() && !stop;i++) {
			uint64_t target = want[i]*r/ROUNDS; 
			for (;done[i]<target;done[i]++) {
				Src src; src.mode=Src::RANDOM; src.in=0; src.nin=0; src.bp=0; src.nb=0;
				src.seed(seed, i*1000003ULL+w, done[i]);
				Fail f("","");
				uint64_t no = gCur->caseNo+1;
				bool ok = runCase(i,src,f,w==0 && (done[i]==1 || done[i]%997==3));
				if (!ok) { writeFail(tests()[i].name,f,base+".fail"); std::ofstream(base+".failno") << no << "\n"; writeStats(base+".json"); fprintf(stderr,"FAIL %s: %s\n",f.sig.c_str(),f.msg.c_str()); _exit(1); }
				if (upto && no>=upto) { writeStats(base+".json"); _exit(0); }
				if ((done[i]&15)==0 && wall()-t0 > limit) { stop=true; break; }
			}
		}
		writeStats(base+".json");
		fflush(0); _exit(0);
	}
	if (mode == "replay") {
		a.clear(); for (int i=3;i+1<argc;i+=2) a[argv[i]] = argv[i+1];
		gOut = get("-out","."); gWorker = "r" + get("-tag","0");
		std::string test,sig; std::vector<uint64_t> ch;
		if (!readFailFile(argv[2],test,sig,ch)) { fprintf(stderr,"bad replay file\n"); return 3; }
		int ti = testIndex(test); if (ti<0) { fprintf(stderr,"no test %s\n",test.c_str()); return 3; }
		std::string cur = get("-cur",""); if (cur.size()) mapCur(cur);
		pbtInit();
		Src src; src.mode=Src::REPLAY; src.in=ch.data(); src.nin=ch.size(); src.bp=0; src.nb=0;
		Fail f("","");
		gLiveNotes = true;
		printf("--- case\n");
		bool ok = runCase(ti,src,f,true);
		printf("--- result: ");
		if (ok) printf("pass\n"); else printf("FAIL sig=%s\n%s\n", f.sig.c_str(), f.msg.c_str());
		printf("--- used"); for (uint64_t i=0;i<gCur->n;i++) printf(" %llu",(unsigned long long)gCur->choices[i]); printf("\n");
		fflush(0); _exit(ok?0:1);
	}
	if (mode == "fuzz") {
		a.clear(); int i; for (i=2;i+1<argc && strcmp(argv[i],"--");i+=2) a[argv[i]] = argv[i+1];
		gOut = get("-out","."); 
		{ std::ifstream k(get("-known","/dev/null")); std::string l; while (std::getline(k,l)) if (l.size()) gKnown.insert(l); }
		std::string name = get("-test",""); int ti = testIndex(name); if (ti<0) return 3;
		gFuzzTest = ti; gFuzzBase = gOut + "/fuzz-" + name; gWorker = "f-" + name;
		mapCur(gFuzzBase + ".cur");
		pbtInit();
		std::vector<char*> av; av.push_back(argv[0]); for (i++;i<argc;i++) av.push_back(argv[i]);
		int ac = av.size(); char **avp = av.data();
		if (!LLVMFuzzerRunDriver) { fprintf(stderr,"no fuzzer\n"); return 3; }
		atexit([](){ writeStats(gFuzzBase+".json"); });
		int rc = LLVMFuzzerRunDriver(&ac,&avp,fuzzOne);
		writeStats(gFuzzBase+".json");
		fflush(0); _exit(rc);
	}
	fprintf(stderr,"modes: list random replay fuzz merge\n");
	return 3;
}

// C38: console lines written by several threads through COUT, CERR and DCOUT come out whole.
#include "common.h"
#include "ds.h"
#include "Threads.h"
#include "Timeval.h"
#include <iomanip>
#include <string.h>
#include <math.h>
using namespace pbt; using ds::Quiet;
namespace {
struct Ev { int stream; std::string s; };
std::vector<Ev> *evs;                                   // what reached the console, in order
struct Con : std::streambuf { int which; std::string pend; Con(int w):which(w) {}
	int overflow(int c) { if (c!=EOF) { char ch = c; xsputn(&ch,1); } return c==EOF ? 0 : c; }
	std::streamsize xsputn(const char *p, std::streamsize n) { ds::point(); { Quiet q; pend.append(p,n); evs->push_back(Ev{which,std::string(p,n)}); } ds::point(); return n; }
	int sync() { Quiet q; pend.clear(); return 0; } };
Con con[2] = {0,1};
struct Line { int thread, stream; std::string body, tid; int64_t from, to; bool done; bool where; };
}
#define TEXT(S) "<" << id << S << ">"
PTEST(lines, 40000) {
	int nt = 2+src.draw(4); struct Act { int how, kind, wait; }; std::vector<std::vector<Act> > progs(nt); size_t total = 0;
	for (auto &p : progs) { size_t n = 1+src.draw(5); for (size_t i=0;i<n;i++) { p.push_back({ (int)src.weighted({4,3,2,1}), (int)src.draw(6), src.chance(1,5)?(int)src.draw(1500):0 }); total++; } }
	static int64_t day = 1700000000; day += 1000; env::setTime(day,(int64_t)src.draw(1000000000));
	std::vector<Ev> log; evs = &log; std::vector<Line> lines; for (auto &c : con) c.pend.clear();
	struct Off { std::streambuf *o, *e; std::ios::fmtflags fo, fe; Off():o(std::cout.rdbuf(&con[0])),e(std::cerr.rdbuf(&con[1])),fo(std::cout.flags()),fe(std::cerr.flags()) {} ~Off() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.flags(fo); std::cerr.flags(fe); env::virtualTime = false; } } off;
	unsigned open = 0, together = 0;
	ds::run(src,[&]{
		for (int t=0;t<nt;t++) ds::spawn([&,t]{ for (size_t i=0;i<progs[t].size();i++) { Act a = progs[t][i]; int id = t*10+i; size_t l; std::string want; const void *self = &progs[t];
			{ Quiet q; lines.emplace_back(); l = lines.size()-1; Line &x = lines[l]; x.thread = t; x.stream = a.how==1; x.from = env::nowNs; x.done = false; x.where = a.how!=0; x.tid = std::to_string((unsigned long)pthread_self()); if (open++) together++; }
			int line = 0;
			#define SAY(S) switch (a.how) { case 0: COUT(S); break; case 1: line = __LINE__; CERR(S); break; case 2: line = __LINE__; DCOUT(S); break; default: line = __LINE__; struct O { void say(int id, const std::string &w) { OBJDCOUT(S); } } o; self = &o; o.say(id,w); }
			std::string w; { Quiet q; w = "text"+std::string(a.kind*7,'.'); }
			switch (a.kind) {
			case 0: SAY(TEXT("")); break;
			case 1: SAY(TEXT(" hex " << std::hex << 255)); break;
			case 2: SAY(TEXT(" oct " << std::oct << 64 << " " << w)); break;
			case 3: SAY(TEXT(w << " " << std::dec << 100)); break;
			case 4: SAY(TEXT(w << std::hex << 4096 << std::flush << " after")); break;
			default: SAY(TEXT("\ttab " << w)); }
			{ Quiet q; std::ostringstream b; switch (a.kind) { case 0: b << TEXT(""); break; case 1: b << "<" << id << " hex ff>"; break; case 2: b << "<" << id << " oct 100 " << w << ">"; break; case 3: b << TEXT(w << " 100"); break; case 4: b << TEXT(w << "1000 after"); break; default: b << TEXT("\ttab " << w); }
			std::ostringstream at; if (a.how) at << __FILE__ << ":" << line << (a.how==1?": ":" "); if (a.how==3) at << self << " ";
			Line &x = lines[l]; x.body = at.str()+b.str(); x.to = env::nowNs; x.done = true; open--; NOTE("thread " << t << " wrote " << show(x.body) << (a.how==1?" to cerr":" to cout"));
			if (con[x.stream].pend.find(b.str())!=std::string::npos) PFAIL("flush","the line " << show(x.body) << " was not flushed when its writer went on"); }
			if (a.wait) ds::pass(a.wait); } });
		ds::joinAll(); });
	// The events, line by line: while one is unfinished nothing else is written to either stream.
	std::vector<bool> used(lines.size()); std::vector<int> at(nt,0); size_t i = 0, found = 0; std::string whole; for (auto &e : log) whole += e.s;
	while (i<log.size()) {
		std::string l; int s = log[i].stream; 
		while (i<log.size() && (l.empty() || l[l.size()-1]!='\n')) { PCHECK(log[i].stream==s,"mixed-streams","on the console, text for " << (log[i].stream?"cerr":"cout") << " comes into the line " << show(l) << " of " << (s?"cerr":"cout")); l += log[i++].s; }
		int hit = -1; double sec = 0; for (size_t k=0;k<lines.size();k++) { Line &x = lines[k]; std::string tail = " "+x.tid+": "+x.body+"\n"; if (!used[k] && x.stream==s && l.size()>tail.size() && l.compare(l.size()-tail.size(),tail.size(),tail)==0) {
			std::string ts = l.substr(0,l.size()-tail.size()); size_t dot = ts.find('.'); bool ok = dot!=std::string::npos && ts.size()==dot+7 && ts.find_first_not_of("0123456789.")==std::string::npos; sec = atof(ts.c_str()); int64_t us = llround(sec*1e6); if (ok && us>=x.from/1000-1 && us<=x.to/1000+1) hit = k; } }
		PCHECK(hit>=0,"whole-line","the console line " << show(l) << " is none that was written whole, in\n" << whole);
		used[hit] = true; found++;
		for (size_t k=0;k<(size_t)hit;k++) if (lines[k].thread==lines[hit].thread && !used[k]) PFAIL("order","line " << show(lines[k].body) << " comes after a later one of its thread");
	}
	PCHECK(found==lines.size(),"missing","of " << lines.size() << " lines " << found << " came out, in\n" << whole);
	for (auto &c : con) PCHECK(c.pend.empty(),"flush","text was left unflushed: " << show(c.pend));
	if (together) src.nontrivial();
}

// C29, shared: messages logged by several threads under drawn schedules reach every sink whole and once, in each
// thread's order, and the alarm list behaves as one list of the latest.
#include "logkit.h"
#include "ds.h"
#include "lin.h"
#include <algorithm>
#include <string.h>
#include <unistd.h>
using namespace pbt; using ds::Quiet;
extern FILE *gLogToFile;
#define POINTS(R,N,P,A) extern "C" R __real_##N P; extern "C" R __wrap_##N P { ds::point(); R r = __real_##N A; ds::point(); return r; }
POINTS(int,fputs,(const char *s, FILE *f),(s,f)) POINTS(int,fputc,(int c, FILE *f),(c,f)) POINTS(int,putc,(int c, FILE *f),(c,f)) POINTS(size_t,fwrite,(const void *p, size_t a, size_t b, FILE *f),(p,a,b,f)) POINTS(int,fflush,(FILE *f),(f))
namespace {
std::string *console;
struct Con : std::streambuf { int overflow(int c) { if (c!=EOF) { char ch = c; xsputn(&ch,1); } return c==EOF ? 0 : c; } std::streamsize xsputn(const char *p, std::streamsize n) { ds::point(); { Quiet q; console->append(p,n); } ds::point(); return n; } int sync() { return 0; } } con;
// The configured maximum may be read before the entry is made: an alarm counts as two steps, each somewhere in its call.
struct St { std::vector<int> l; unsigned max; std::map<int,unsigned> read; std::string key() const { std::string k = std::to_string(max)+":"; for (auto &r : read) k += std::to_string(r.first)+"="+std::to_string(r.second)+","; k += ":"; for (int i : l) k += std::to_string(i)+","; return k; } bool add(int id) { auto r = read.find(id); if (r==read.end()) return false; l.push_back(id); if (l.size()>r->second) l.erase(l.begin(),l.end()-r->second); read.erase(r); return true; } };
typedef lin::Op<St> Op;
struct Msg { int thread, level; std::string text; bool nl; };
// Is text made of the messages' lines, each once, those of one thread in its order?  Lines are unique, so reading greedily is enough.
std::string whole(const std::string &text, size_t at, const std::vector<Msg> &all, const std::vector<std::string> &lines, const std::vector<std::pair<int,int> > &order) {
	std::vector<bool> seen(lines.size()); std::map<std::pair<int,int>,int> last;
	while (at<text.size()) { int hit = -1; for (size_t i=0;i<lines.size();i++) if (!seen[i] && text.compare(at,lines[i].size(),lines[i])==0 && (hit<0 || lines[i].size()>lines[hit].size())) hit = i;
		if (hit<0) return "at "+show(text.substr(at,80))+" no whole message begins, after "+show(text.substr(at>80?at-80:0,at>80?80:at));
		seen[hit] = true; int &l = last[std::make_pair(order[hit].first,order[hit].second%2)]; if (order[hit].second<l) return "message "+show(lines[hit])+" comes after a later one of the same thread"; l = order[hit].second; at += lines[hit].size(); }
	for (size_t i=0;i<lines.size();i++) if (!seen[i]) return "message "+show(lines[i])+" is missing";
	return "";
}
}
PTEST(shared, 12000) {
	int nt = 2+src.draw(3); std::vector<std::vector<int> > progs(nt); std::vector<Msg> msgs; struct Act { int what, arg; }; std::vector<Act> acts;
	for (int t=0;t<nt;t++) { size_t n = 1+src.draw(5); for (size_t i=0;i<n;i++) { int what = src.weighted({6,2,1}); int arg = 0;
		if (what==0) { static const char *pad[] = { "","x","%s%n","two\nlines","long long long long long long long long long long long long long long long long long long long long long long" }; Msg m; m.thread = t; m.level = src.weighted({3,2,2,1,1,1,1,1}); m.nl = src.chance(1,4); m.text = "<"+std::to_string(msgs.size())+pad[src.draw(5)]+">"+(m.nl?"\n":""); arg = msgs.size(); msgs.push_back(m); }
		if (what==2) arg = src.draw(8);
		progs[t].push_back(acts.size()); acts.push_back({ what, arg }); } }
	bool file = src.coin(), cons = src.coin(); unsigned limit = src.draw(6);
	static int64_t day = 1700000000; day += 1000; env::setTime(day,0);
	std::string conText, path = scratchDir()+"/shared.log"; console = &conText;
	struct Off { std::streambuf *o; Off():o(std::cerr.rdbuf(&con)) {} ~Off() { std::cerr.rdbuf(o); if (gLogToFile) fclose(gLogToFile); gLogToFile = 0; gLogToConsole = 0; env::captureSyslog = false; env::syslogs.clear(); env::virtualTime = false; } } off;
	logkit::resetConfig(); gConfig.set("Log.Alarms.Max","0"); { Log l(LOG_CRIT); l.get() << "clear"; } gConfig.set("Log.Alarms.Max",(long)limit);
	env::captureSyslog = true; env::syslogs.clear(); conText.clear();
	if (file) gLogToFile = fopen(path.c_str(),"w"); gLogToConsole = cons;
	std::vector<Op> ops; uint64_t clock = 0; unsigned open = 0, together = 0;
	auto begin = [&]() { Quiet z; ops.emplace_back(); ops.back().call = ++clock; ops.back().ret = UINT64_MAX; ops.back().apply = [](St&) { return true; }; if (open++) together++; return ops.size()-1; };
	auto end = [&](size_t o, const std::string &t, std::function<bool(St&)> f) { ops[o].ret = ++clock; ops[o].text = t; ops[o].apply = f; open--; NOTE("thread " << ds::self() << ": " << t); };
	std::string want[64]; for (size_t i=0;i<msgs.size();i++) want[i] = std::string(logkit::levels[msgs[i].level])+" "+msgs[i].text;
	ds::run(src,[&]{
		for (int t=0;t<nt;t++) ds::spawn([&,t]{ for (int a : progs[t]) { int arg = acts[a].arg; switch (acts[a].what) {
			case 0: { bool alarm = msgs[arg].level<=LOG_CRIT; size_t o = begin(); { Log l(msgs[arg].level); l.get() << msgs[arg].text; } Quiet z; end(o,"log "+show(want[arg]),[alarm,arg](St &s) { return !alarm || s.add(arg); }); if (alarm) { Op first = ops[o]; first.text += " (reads the limit)"; first.apply = [arg](St &s) { s.read[arg] = s.max; return true; }; ops.push_back(first); } break; }
			case 1: { size_t o = begin(); std::list<std::string> l = gGetLoggerAlarms(); Quiet z; std::vector<int> ids; for (auto &x : l) { int id = -1; for (size_t i=0;i<msgs.size();i++) if (want[i]==x) id = i; PCHECK(id>=0,"alarm-text","the alarm list holds " << show(x) << ", which nobody logged"); ids.push_back(id); } std::string t; for (int i : ids) t += std::to_string(i)+" "; end(o,"alarms -> "+t,[ids](St &s) { return s.l==ids; }); break; }
			case 2: { size_t o = begin(); gConfig.set("Log.Alarms.Max",(long)arg); Quiet z; end(o,"limit "+std::to_string(arg),[arg](St &s) { s.max = arg; return true; }); break; } } } });
		ds::joinAll();
		{ size_t o = begin(); std::list<std::string> l = gGetLoggerAlarms(); Quiet z; std::vector<int> ids; for (auto &x : l) { int id = -1; for (size_t i=0;i<msgs.size();i++) if (want[i]==x) id = i; ids.push_back(id); } std::string t; for (int i : ids) t += std::to_string(i)+" "; end(o,"at the end alarms -> "+t,[ids](St &s) { return s.l==ids; }); }
		Quiet z; St s; s.max = limit; lin::Check<St> c(ops); if (!c.ok(s)) { std::string t = "\n    initial limit "+std::to_string(limit); for (auto &o : ops) t += "\n    "+std::to_string(o.call)+".."+std::to_string(o.ret)+" "+o.text; PFAIL("alarm-list","no order of the alarms explains the lists:" << t); } });
	// the sinks
	std::vector<std::string> lines, clines; std::vector<std::pair<int,int> > order, corder; std::string sys; std::vector<std::string> slines;
	for (size_t i=0;i<msgs.size();i++) { lines.push_back(want[i]+(msgs[i].nl?"":"\n")); order.push_back(std::make_pair(msgs[i].thread,(int)i*2)); slines.push_back(want[i]+"\1"); if (msgs[i].level<=LOG_CRIT) { clines.push_back(want[i]+"\n"); corder.push_back(std::make_pair(msgs[i].thread,(int)i*2)); } if (cons) { clines.push_back(lines.back()); corder.push_back(std::make_pair(msgs[i].thread,(int)i*2+1)); } }
	for (auto &e : env::syslogs) { sys += e.text+"\1"; for (size_t i=0;i<msgs.size();i++) if (e.text==want[i]) PCHECK((e.pri&7)==msgs[i].level,"syslog-level","a message of level " << msgs[i].level << " was sent at " << e.pri); }
	std::string bad = whole(sys,0,msgs,slines,order); PCHECK(bad.empty(),"syslog-text","in the system log " << bad);
	if (file) { fflush(gLogToFile); std::string text; FILE *f = fopen(path.c_str(),"r"); char b[4096]; size_t k; while ((k=fread(b,1,sizeof b,f))>0) text.append(b,k); fclose(f); bad = whole(text,0,msgs,lines,order); PCHECK(bad.empty(),"file-text","in the log file " << bad); }
	bad = whole(conText,0,msgs,clines,corder); PCHECK(bad.empty(),"console-text","on the console " << bad);
	if (together>1) src.nontrivial();
}

// C29: every enabled message is delivered whole to every sink, and the alarm list keeps the latest ones (one thread).
#include "logkit.h"
#include <fstream>
#include <sys/syscall.h>
using namespace pbt;
extern FILE *gLogToFile;
static std::string slurp(const std::string &p) { std::ifstream f(p,std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static std::string stamp() { time_t t = env::nowNs/1000000000LL; struct tm tm; gmtime_r(&t,&tm); char b[80]; snprintf(b,80," %04d-%02d-%02dT%02d:%02d:%02d.%d",tm.tm_year+1900,tm.tm_mon+1,tm.tm_mday,tm.tm_hour,tm.tm_min,tm.tm_sec,(int)(env::nowNs%1000000000LL/100000000)); return b; }
static std::string message(Src &src) {
	switch (src.weighted({4,3,1,1,1,1})) {
	case 0: return src.nastyText(60);
	case 1: { static const char *t[] = { "","plain","%s%n%d","line\nline","ends\n","\n","two\n\n","100%" }; return t[src.draw(8)]; }
	case 2: return src.nastyText(300);
	case 3: return std::string(1000+src.draw(3000),'a'+src.draw(26)) + "end";
	case 4: return std::string(src.draw(40)*1024+src.draw(3)-1+1,'x') + "end\n";
	default: return src.nastyText(5000);
	}
}
static void body(Src &src) {
	env::setTime(1500000000+(int64_t)src.draw(100000),(int64_t)src.draw(1000000000));
	env::captureSyslog = true; env::syslogs.clear();
	logkit::Cerr err; logkit::resetConfig(); cfg::Db &db = logkit::db(); (void)db;
	struct Off { ~Off() { if (gLogToFile) fclose(gLogToFile); gLogToFile = 0; gLogToConsole = 0; env::captureSyslog = false; env::syslogs.clear(); gCmdName[0] = 0; } } off;
	gConfig.set("Log.Alarms.Max","0"); { Log l(LOG_CRIT); l.get() << "clear"; }
	{ auto a = gGetLoggerAlarms(); PCHECK(a.empty(),"alarm-limit","with a limit of 0 alarms the list holds " << a.size()); }
	gConfig.set("Log.Level","DEBUG"); logkit::flushLevelCache();
	std::string path = scratchDir()+"/app.log", fileText, header; bool file = false; gPid = 0;
	if (src.chance(2,3)) { unlink(path.c_str()); env::openlogs.clear(); if (src.coin()) { NOTE("a log file of an earlier run is there"); std::ofstream(path.c_str(),std::ios::binary) << "Starting at the beginning\nolder message\n"; } int how = src.draw(3); int fac = src.pick(std::vector<int>{LOG_LOCAL7,LOG_USER,LOG_DAEMON});
		std::string p = path;
		if (how==0) { gLogInitWithFile("prog",0,fac,&p[0]); file = true; NOTE("log file given at start-up"); }
		else { gConfig.set("Log.File",path); bool mine = how==1; static const char *mineNames[] = { "OpenBTS:","RMSC:","RangeFinderGW:" }; strcpy(gCmdName,mine?mineNames[src.draw(3)]:"transceiver:"); gLogInit("prog","DEBUG",fac); file = mine; NOTE("log file from Log.File for " << gCmdName);
			PCHECK(gPid==getpid(),"init-pid","gPid is " << gPid); }
		PCHECK((gLogToFile!=0)==file,"log-file","the log file was " << (gLogToFile?"":"not ") << "opened");
		PCHECK(env::openlogs.size()==1 && env::openlogs[0].facility==fac && env::openlogs[0].ident=="prog","openlog","the system log was opened differently");
		if (file) { header = slurp(path); fileText = header; PCHECK(header.compare(0,12,"Starting at ")==0 && header.size() && header.find('\n')==header.size()-1 && header.find("beginning")==std::string::npos,"log-file","the log file starts with " << show(header)); }
		logkit::flushLevelCache(); }
	unsigned max = 0; std::vector<std::string> alarms; size_t n = 1+src.len(60);
	{ unsigned k = src.draw(8); gConfig.set("Log.Alarms.Max",std::to_string(k)); max = k; }
	for (size_t i=0;i<n;i++) {
		env::nowNs += 1000000*(int64_t)src.draw(200);
		switch (src.weighted({12,6,3,1,1,1})) {
		case 0: case 1: { // a message
			int lv = src.draw(8); std::string msg = message(src), want = std::string(logkit::levels[lv])+" "; bool macro = src.coin();
			env::syslogs.clear(); err.take();
			if (!macro) { want += msg; Log l(lv); l.get() << msg; }
			else { bool grouped = src.chance(1,3); int f = src.draw(4), ev = 0, line = 0; int64_t t0 = env::nowNs;
				grouped ? logkit::gstmt((LogGroup::Group)src.draw(6),lv,msg,ev,line) : logkit::stmt(f,lv,msg,ev,line);
				PCHECK(t0==env::nowNs,"clock","time passed while logging");
				want += std::to_string(gPid)+":"+std::to_string(syscall(SYS_gettid))+stamp()+" "+(grouped?"Grouped.cpp":logkit::files[f])+":"+std::to_string(line)+":"+logkit::funcName(f,grouped)+": "+msg; }
			NOTE("level " << logkit::levels[lv] << (macro?" LOG ":" raw ") << show(msg));
			std::string got = env::syslogs.size() ? env::syslogs[0].text : "(nothing)"; int pri = env::syslogs.size() ? env::syslogs[0].pri : -1;
			PCHECK(env::syslogs.size()==1 && got==want,"syslog-text",env::syslogs.size() << " messages to the system log, the first " << show(got) << " (" << got.size() << "), expected " << show(want) << " (" << want.size() << ")");
			PCHECK((pri&7)==lv,"syslog-level","sent at priority " << pri << " instead of " << lv);
			std::string nl = want.size() && want[want.size()-1]=='\n' ? want : want+"\n", e = err.take(), we = (lv<=LOG_CRIT ? want+"\n" : std::string())+(gLogToConsole?nl:std::string());
			PCHECK(e==we,"stderr","stderr received " << show(e) << ", expected " << show(we));
			if (file) { fileText += nl; if (src.chance(1,4)) { std::string g = slurp(path); PCHECK(g==fileText,"file-text","after this message the log file is wrong, it ends with " << show(g.substr(g.size()>300?g.size()-300:0))); } }
			if (lv<=LOG_CRIT) { alarms.push_back(want); if (alarms.size()>max) alarms.erase(alarms.begin(),alarms.end()-max); if (i) src.nontrivial(); }
			break; }
		case 2: { unsigned k = src.weighted({4,2,1}); k = k==0 ? src.draw(8) : k==1 ? src.draw(30) : 20; NOTE("alarm limit " << k); gConfig.set("Log.Alarms.Max",std::to_string(k)); max = k; break; }
		case 3: gLogToConsole = !gLogToConsole; NOTE("console " << gLogToConsole); break;
		case 4: { int lv = src.draw(8); std::string t = src.nastyText(50); int num = src.sbiased(31); env::syslogs.clear(); NOTE("early " << show(t)); int fac = src.coin() ? 0 : LOG_LOCAL7; gLogEarly(lv|fac,"early %s %d",t.c_str(),num); if (fac) PCHECK(env::syslogs.size()==1 && (env::syslogs[0].pri&LOG_FACMASK)==fac,"early","gLogEarly sent priority " << (env::syslogs.size()?env::syslogs[0].pri:0) << ", asked for " << (lv|fac));
			PCHECK(env::syslogs.size()==1 && env::syslogs[0].text=="early "+t+" "+std::to_string(num) && (env::syslogs[0].pri&7)==lv,"early","gLogEarly sent " << (env::syslogs.size()?show(env::syslogs[0].text):"nothing")); break; }
		case 5: { env::syslogs.clear(); err.take(); { Log dummy("prog2"); } bool any = false; for (auto &s : env::syslogs) if (s.text.find("Configuration")==std::string::npos) any = true; PCHECK(!any && err.take()=="","init-message","initialising the logger logged a message"); break; }
		}
		auto l = gGetLoggerAlarms(); std::vector<std::string> got(l.begin(),l.end());
		if (got!=alarms) { std::string a,b; for (auto &x : got) a += "\n  "+show(x.substr(0,60)); for (auto &x : alarms) b += "\n  "+show(x.substr(0,60)); PFAIL("alarm-list","the alarm list is:" << a << "\nexpected (limit " << max << "):" << b); }
	}
	if (file) { std::string g = slurp(path); PCHECK(g==fileText,"file-text","the log file holds " << g.size() << " characters ending in " << show(g.substr(g.size()>100?g.size()-100:0)) << ", expected " << fileText.size()); }
}
PTEST(delivery, 12000) { body(src); }

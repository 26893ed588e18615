// C28: a message is logged exactly when its level is enabled for its group or file, else by default.
#include "logkit.h"
#include "twin.h"
using namespace pbt;
static const char *gnames[] = { "Control","SIP","GSM","GPRS","Layer2","SMS" };
struct Version { int64_t at; uint64_t check; bool own; std::string v; bool set; };
struct Model {
	std::map<std::string,std::vector<Version> > h;
	uint64_t checks; std::vector<int64_t> times;    // time of every level check
	Model():checks(0) { times.push_back(env::nowNs); }
	void change(const std::string &k, bool own, bool set, const std::string &v) { h[k].push_back(Version{env::nowNs,checks,own,v,set}); }
	// An unknown level read from the cache is replaced by the default, which can overwrite an outside change made meanwhile.
	bool mended(const std::string &k, size_t i) {
		auto &x = h[k]; if (x[i].own) return false;
		for (size_t j=i;j-->0;) { if (x[j].set && logkit::levelNumber(x[j].v)<0) return true; if (x[j].own) return false; }
		return false;
	}
	// Versions the key may have been read as when a level was looked up at any time since moment lo.
	std::vector<Version> since(const std::string &k, int64_t lo) {
		std::vector<Version> r; auto &x = h[k];
		if (x.empty() || x[0].at>lo) r.push_back(Version{0,0,true,"",false});
		for (size_t i=0;i<x.size();i++) if (i+1==x.size() || x[i+1].at>lo) { r.push_back(x[i]); if (mended(k,i)) r.push_back(Version{x[i].at,0,true,"NOTICE",true}); }
		return r;
	}
};
static const int64_t LIFE = 3000000000LL;
// every level a file may be given when looked up no earlier than lo
static std::set<int> levelsSince(Model &m, const std::string &file, int64_t lo) {
	std::set<int> r; bool fall = false;
	auto num = [](const std::string &v) { int n = logkit::levelNumber(v); return n<0 ? 5 : n; };
	if (file.size()) { for (auto &v : m.since("Log.Level."+file,lo)) if (v.set && v.v.size()) r.insert(num(v.v)); else fall = true; }
	else fall = true;
	if (fall) for (auto &v : m.since("Log.Level",lo)) r.insert(v.set ? num(v.v) : 5);
	return r;
}
static void body(Src &src) {
	env::setTime(1500000000+(int64_t)src.draw(100000),(int64_t)src.draw(1000000000));
	env::captureSyslog = true; env::syslogs.clear();
	logkit::Cerr err;
	env::advanceMs(4000); logkit::resetConfig(); env::advanceMs(4000); logkit::flushLevelCache();
	Model m; cfg::Db &db = logkit::db();
	// lowest time at which the level in the cache may have been looked up
	auto horizon = [&]() { uint64_t c = m.checks; return (c<1003 ? m.times[0] : m.times[c-1003]) - LIFE; };
	auto tick = [&](int n) { for (int i=0;i<n;i++) { m.checks++; m.times.push_back(env::nowNs); } };
	bool bad = false; int64_t setAllAt = -1; bool changed = false;
	std::vector<std::string> keys = { "Log.Level" };
	for (auto f : logkit::files) keys.push_back(std::string("Log.Level.")+f);
	keys.push_back("Log.Level.Grouped.cpp");
	std::string odd = src.chance(1,3) ? cfg::twin(src,src.chance(1,4) ? "Grouped.cpp" : logkit::files[src.draw(4)]) : std::string("odd.cpp");   // a file without statements
	keys.push_back("Log.Level."+odd);
	for (auto g : gnames) { keys.push_back(std::string("Log.Group.")+g); keys.push_back(std::string("Log.Watch.")+g); }
	// a few keys are changed again and again
	int hotGroup = src.draw(6); std::vector<std::string> hot = { std::string("Log.Group.")+gnames[hotGroup], std::string("Log.Watch.")+gnames[hotGroup], keys[src.draw(keys.size())] };
	auto drawKey = [&]() { return src.coin() ? hot[src.draw(hot.size())] : keys[src.draw(keys.size())]; };
	static const char *vals[] = { "EMERG","ALERT","CRIT","ERR","WARNING","NOTICE","INFO","DEBUG","INFORMATION","WARN","ERROR","CRITICAL","EMERGENCY","","notice","Debug ","7","LOUD","INF","NOTICES" };
	// What a group's debug or watch level may be: levels at the last setAll.
	auto groupLevels = [&](const char *kind, int g) { std::set<int> r; if (setAllAt<0) { r.insert(0); return r; }
		std::string k = std::string("Log.")+kind+"."+gnames[g]; auto &x = m.h[k]; int64_t lo = setAllAt-LIFE; 
		if (x.empty() || x[0].at>lo) r.insert(0);
		for (size_t i=0;i<x.size();i++) if (x[i].at<=setAllAt && (i+1==x.size() || x[i+1].at>lo)) { int n = x[i].set && x[i].v.size() ? logkit::levelNumber(x[i].v) : 0; r.insert(n<0?5:n); if (m.mended(k,i)) r.insert(5); }
		return r; };
	// The library's own words about unknown levels, the only thing it may log here by itself.
	auto own = [&]() { size_t n=0; std::vector<env::Syslog> rest; for (auto &s : env::syslogs) {
			if (s.text.find("undefined logging level (")!=std::string::npos) { n++; PCHECK(bad,"invented-message","an unknown level is reported though every level is known: " << show(s.text)); PCHECK(s.pri==LOG_CRIT,"unknown-level-report","reported at priority " << s.pri); }
			else if (s.text.find("Configuration.cpp:")==std::string::npos && s.text.find(" request for configuration key ")==std::string::npos) rest.push_back(s); }
		env::syslogs = rest; return n; };
	size_t n = 1+src.len(60);
	for (size_t i=0;i<n;i++) {
		env::nowNs += 1000;
		switch (src.weighted({10,6,5,3,4,3,4,2,2,1})) {
		case 0: case 1: { // a statement
			bool grouped = src.chance(1,3); int f = src.draw(4), g = src.coin() ? hotGroup : (int)src.draw(6), lv = src.draw(8); std::string msg = "hello "+std::to_string(i);
			int evals = 0, line = 0; int how = src.weighted({8,2,2,2,3}); bool on;
			own(); size_t before = env::syslogs.size(); (void)before; env::syslogs.clear(); err.take();
			std::string fname = grouped ? "Grouped.cpp" : logkit::files[f];
			if (how==0) { grouped ? logkit::gstmt((LogGroup::Group)g,lv,msg,evals,line) : logkit::stmt(f,lv,msg,evals,line);
				own(); on = env::syslogs.size()>0;
				PCHECK(env::syslogs.size()<=1,"logged-twice","one statement gave " << env::syslogs.size() << " messages");
				PCHECK(evals==(on?1:0),"evaluation","the message was evaluated " << evals << " times, and " << (on?"":"not ") << "sent");
				if (on) PCHECK(env::syslogs[0].pri==lv && env::syslogs[0].text.find(msg)!=std::string::npos,"wrong-message","priority " << env::syslogs[0].pri << ", text " << show(env::syslogs[0].text));
				PCHECK((err.s.str().find(msg)!=std::string::npos)==(on && lv<=LOG_CRIT),"alarm-echo","a message of level " << lv << " was " << (on?"sent":"not sent") << ", and stderr has " << show(err.s.str()));
				std::list<std::string> al = gGetLoggerAlarms(); bool inAl = al.size() && al.back().find(msg)!=std::string::npos && al.back().find(fname+":")!=std::string::npos;
				if (lv<=LOG_CRIT && on) PCHECK(inAl,"alarm-missing","a sent message of level " << lv << " is not in the alarm list");
				own(); }
			else if (how==4) { // a watch statement: its message goes to the console if the watch level is enabled, and to the log (not for WATCHLEVEL) if the level is
				int kind = src.draw(4); int wl = kind==0||kind==3 ? 7 : kind==1 ? 6 : lv; static const char *kn[] = {"WATCH","WATCHINFO","WATCHLEVEL","WATCHF"}; logkit::Cout out;
				grouped ? logkit::gwstmt((LogGroup::Group)g,kind,lv,msg,evals) : logkit::wstmt(f,kind,lv,msg,evals); std::string text = out.take(); own();
				bool shown = !text.empty(); on = env::syslogs.size()>0; NOTE(kn[kind] << " " << logkit::levels[wl] << " in " << fname << (grouped?std::string(" group ")+gnames[g]:std::string()) << " -> " << (on?"sent":"not sent") << ", console " << show(text));
				PCHECK(env::syslogs.size()<=1,"logged-twice","one watch statement gave " << env::syslogs.size() << " messages"); PCHECK(evals==on+shown,"evaluation","the message was evaluated " << evals << " times");
				if (kind==2) PCHECK(!on,"watch-logged","WATCHLEVEL sent a message to the log");
				if (on) PCHECK(env::syslogs[0].pri==wl && env::syslogs[0].text.find(msg)!=std::string::npos,"wrong-message","priority " << env::syslogs[0].pri << ", text " << show(env::syslogs[0].text));
				std::string due = Utils::timestr(7)+" "+msg+(kind==3?" "+std::to_string(lv):std::string())+"\n"; if (shown) PCHECK(text==due,"watch-text","the console shows " << show(text) << ", not " << show(due));
				tick(kind==2?1:2); std::set<int> a = levelsSince(m,fname,horizon()), w; if (grouped) w = groupLevels("Watch",g); else w = a;
				bool ok = false; for (int x : w) ok = ok || (x>=wl)==shown; std::string ws; for (int x : w) ws += std::string(" ")+logkit::levels[x];
				PCHECK(ok,"watch-level","a watch statement of level " << logkit::levels[wl] << " was " << (shown?"":"not ") << "shown, the watch level is" << ws);
				if (kind==2) break; lv = wl; }
			else if (how==1) { on = grouped ? logkit::genabled((LogGroup::Group)g,lv) : logkit::enabled(f,lv); }
			else if (how==2 && !grouped) { on = logkit::watching(f,lv); }
			else if (how==2) { on = logkit::gwatching((LogGroup::Group)g,lv);
				std::set<int> w = groupLevels("Watch",g); bool ok = false; for (int x : w) ok = ok || (x>=lv)==on;
				std::string ws; for (int x : w) ws += std::string(" ")+logkit::levels[x];
				NOTE("watch level " << logkit::levels[lv] << " in group " << gnames[g] << " -> " << on);
				PCHECK(ok,"watch-level","watching " << logkit::levels[lv] << " in group " << gnames[g] << " is " << on << ", its level is" << ws); break; }
			else { if (src.chance(1,3)) fname = odd; int l = gGetLoggingLevel(fname.c_str()); tick(1); std::set<int> a = levelsSince(m,fname,horizon()); NOTE("level of " << fname << " -> " << l);
				std::string ws; for (int x : a) ws += std::string(" ")+logkit::levels[x];
				PCHECK(a.count(l),"level","the level of " << fname << " is " << l << ", configured" << ws); break; }
			if (how!=4) tick(1);
			std::set<int> a = levelsSince(m,fname,horizon()), gs; if (grouped) gs = groupLevels("Group",g); else gs.insert(-1);
			bool ok = false; for (int x : a) for (int y : gs) ok = ok || (std::max(x,y)>=lv)==on;
			NOTE((how==0?"log ":"query ") << logkit::levels[lv] << " in " << fname << (grouped?std::string(" group ")+gnames[g]:std::string()) << " -> " << (on?"sent":"not sent"));
			std::string ws; for (int x : a) ws += std::string(" ")+logkit::levels[x]; if (grouped) { ws += ", its group's"; for (int y : gs) ws += std::string(" ")+logkit::levels[y]; }
			PCHECK(ok,"enabled","a message of level " << logkit::levels[lv] << " in " << fname << " was " << (on?"sent":"not sent") << "; the file's level is" << ws);
			if (changed) src.nontrivial();
			break; }
		case 2: case 3: { std::string k = drawKey(), v = vals[src.weighted({3,3,3,3,3,3,3,3,1,1,1,1,1,3,2,1,1,1,1,1})];
			NOTE("set " << k << "=" << v); gConfig.set(k,v); m.change(k,true,true,v); changed = true; if (logkit::levelNumber(v)<0) bad = true; break; }
		case 4: { std::string k = drawKey(); NOTE("remove " << k); gConfig.remove(k); m.change(k,true,false,""); changed = true; break; }
		case 5: { std::string k = drawKey(), v = vals[src.draw(14)]; NOTE("outside: " << k << "=" << v);
			if (src.chance(1,3)) { db.exec("DELETE FROM CONFIG WHERE KEYSTRING=%Q",k.c_str()); m.change(k,false,false,""); }
			else { db.exec("INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING) VALUES (%Q,%Q)",k.c_str(),v.c_str()); m.change(k,false,true,v); if (v.empty()) bad = true; }
			changed = true; break; }
		case 6: NOTE("setAll"); gLogGroup.setAll(); tick(1); setAllAt = env::nowNs; break;
		case 7: { int64_t ms = src.coin() ? 3001 : src.draw(7000); NOTE("+" << ms << " ms"); env::advanceMs(ms); break; }
		case 8: { unsigned k = src.coin() ? 1003 : 990+src.draw(20); NOTE(k << " level checks"); for (unsigned j=0;j<k;j++) gGetLoggingLevel("other.cpp"); tick(k); break; }
		case 9: { int lv = src.draw(8); int fac = src.coin()?LOG_LOCAL7:LOG_USER; bool with = src.chance(2,3), file = src.chance(1,3); NOTE("init " << (with?logkit::levels[lv]:"-")); env::openlogs.clear();
			if (file) gLogInitWithFile("prog",with?logkit::levels[lv]:0,fac,0); else gLogInit("prog",with?logkit::levels[lv]:0,fac); tick(1);
			PCHECK(env::openlogs.size()==1 && env::openlogs[0].ident=="prog" && env::openlogs[0].facility==fac,"init","the log was not opened as asked");
			if (with) { m.change("Log.Level",true,true,logkit::levels[lv]); changed = true; std::string got = gConfig.getStr("Log.Level"); PCHECK(got==logkit::levels[lv],"init","Log.Level is " << show(got) << " after initialising with " << logkit::levels[lv]); }
			break; }
		}
	}
	// settle: everything is as configured now, unknown levels having been replaced by the default at most
	env::advanceMs(3001); logkit::flushLevelCache();
	auto last = [&](const std::string &k) { auto &x = m.h[k]; return x.empty() ? Version{0,0,true,"",false} : x.back(); };
	std::set<int> a;
	for (int f=0;f<5;f++) { std::string fn = f<4?logkit::files[f]:"Grouped.cpp"; a = levelsSince(m,fn,env::nowNs); int l = gGetLoggingLevel(fn.c_str());
		PCHECK(a.count(l),"level-settled","the level of " << fn << " is " << l << ", configured " << *a.begin());
		bool on = f<4 ? logkit::enabled(f,l) : logkit::genabled((LogGroup::Group)0,l), over = f<4 && l<7 && logkit::enabled(f,l+1);
		PCHECK(on && !over,"level-settled","at level " << l << " of " << fn << " its own level is " << (on?"on":"off") << " and the next " << (over?"on":"off")); }
	for (auto &k : keys) { Version v = last(k); auto r = db.rows("SELECT VALUESTRING FROM CONFIG WHERE KEYSTRING='"+k+"'");
		bool same = v.set ? r.size()==1 && r[0][0]==v.v : r.empty();
		bool mended = v.set && logkit::levelNumber(v.v)<0 && r.size()==1 && r[0][0]=="NOTICE";
		bool over = m.h[k].size() && m.mended(k,m.h[k].size()-1) && r.size()==1 && r[0][0]=="NOTICE";
		PCHECK(same || mended || over,"config-changed",k << " holds " << (r.size()?show(r[0][0]):"nothing") << ", set to " << (v.set?show(v.v):"nothing")); }
	env::captureSyslog = false; env::syslogs.clear();
}
PTEST(levels, 20000) { body(src); }

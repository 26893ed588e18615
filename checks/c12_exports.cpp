// C12: exports and descriptions of a schema.
#include "cfg.h"
#include <memory>
using namespace pbt;
typedef ConfigurationKey CK;
static const CK::Type types[] = { CK::BOOLEAN,CK::CHOICE,CK::CIDR,CK::FILEPATH,CK::HOSTANDPORT,CK::IPADDRESS,CK::IPANDPORT,CK::MIPADDRESS,CK::PORT,CK::REGEX,CK::STRING,CK::VALRANGE,
	CK::CHOICE_OPT,CK::CIDR_OPT,CK::FILEPATH_OPT,CK::HOSTANDPORT_OPT,CK::IPADDRESS_OPT,CK::MIPADDRESS_OPT,CK::PORT_OPT,CK::REGEX_OPT,CK::STRING_OPT };
static const CK::VisibilityLevel levels[] = { CK::CUSTOMER,CK::CUSTOMERSITE,CK::CUSTOMERTUNE,CK::CUSTOMERWARN,CK::DEVELOPER,CK::FACTORY };
static std::string text(Src &s, size_t n) { std::string r = s.nastyText(n), o; for (char c : r) if (c!='\n' && c!='\\') o += c; return o; }
static ConfigurationKeyMap drawSchema(Src &src) {
	ConfigurationKeyMap m; size_t n = src.len(8);
	for (size_t i=0;i<n;i++) {
		std::string k = src.coin() ? text(src,src.chance(1,6)?200:15) : "Key."+src.chars("ABC_^.'",6); if (src.chance(1,8)) k += std::string(src.draw(70),'n')+src.chars("ABC_^.'",40);
		m[k] = CK(k,src.coin()?"dflt":text(src,30),src.coin()?"":text(src,10),levels[src.draw(6)],types[src.draw(21)],"",src.coin(),text(src,src.chance(1,10)?400:60),src.draw(32));
		if (src.chance(1,6)) { if (src.coin()) { int v = (int)src.sbiased(32); m[k].updateDefaultValue(v); PCHECK(m[k].getDefaultValue()==std::to_string(v),"update","the default updated to " << v << " is " << m[k].getDefaultValue()); } else { std::string v = text(src,30); m[k].updateDefaultValue(v); PCHECK(m[k].getDefaultValue()==v,"update","the default updated to " << show(v) << " is " << show(m[k].getDefaultValue())); } }
	}
	return m;
}
static std::string line(Src &src) { return src.coin()?"OpenBTS":text(src,20); }
static void sqlBody(Src &src) {
	env::setTime(1500000000);
	ConfigurationKeyMap schema = drawSchema(src); std::string def;
	cfg::Db db; std::unique_ptr<ConfigurationTable> t(new ConfigurationTable(":memory:",0,schema));
	schema = t->mSchema;
	std::string sql = t->getDefaultSQL(line(src),line(src));
	NOTE(show(sql)); if (schema.size()>5) src.nontrivial();
	char *err = 0; int rc = sqlite3_exec(db.h,sql.c_str(),0,0,&err); std::string e = err?err:""; sqlite3_free(err);
	PCHECK(rc==SQLITE_OK,"sql-rejected","the generated SQL is not accepted: " << e << "\n" << sql);
	auto rows = db.rows("SELECT KEYSTRING,VALUESTRING,STATIC,OPTIONAL,COMMENTS FROM CONFIG ORDER BY ROWID");
	PCHECK(rows.size()==schema.size(),"sql-rows","the generated SQL defines " << rows.size() << " keys, the schema has " << schema.size());
	size_t i = 0;
	for (auto &s : schema) { auto &r = rows[i++]; const CK &k = s.second;
		PCHECK(r[0]==s.first,"sql-key","row " << i << " is " << show(r[0]) << ", expected " << show(s.first));
		PCHECK(r[1]==k.getDefaultValue(),"sql-default",show(s.first) << " gets " << show(r[1]) << ", its default is " << show(k.getDefaultValue()));
		PCHECK(r[2]==(k.isStatic()?"1":"0"),"sql-static",show(s.first) << " has static " << r[2]);
		PCHECK(r[3]=="0","sql-optional",show(s.first) << " has optional " << r[3]);
		PCHECK(r[4].find(k.getDescription())!=std::string::npos,"sql-comment",show(s.first) << " is described as " << show(r[4]));
		PCHECK(k.getType()!=CK::BOOLEAN || (r[4].find("1=enabled")!=std::string::npos && r[4].find("0=disabled")!=std::string::npos),"sql-comment","the boolean " << show(s.first) << " is described as " << show(r[4]));
		if (k.getDescription().find("tatic")==std::string::npos) PCHECK((r[4].find("Static.")!=std::string::npos)==k.isStatic(),"sql-comment","the comment of " << show(s.first) << " is " << show(r[4]));
	}
	// a second run over the loaded table changes nothing, and values already there win
	if (!schema.empty() && src.coin()) { std::string k = schema.begin()->first; db.exec("UPDATE CONFIG SET VALUESTRING='mine' WHERE KEYSTRING=%Q",k.c_str());
		db.exec("%s",sql.c_str()); auto r = db.rows("SELECT COUNT(*), (SELECT COUNT(*) FROM CONFIG WHERE VALUESTRING='mine') FROM CONFIG"); PCHECK(r[0][0]==std::to_string(schema.size()),"sql-again","loading twice gives " << r[0][0] << " rows"); PCHECK(r[0][1]!="0","sql-again","loading the defaults overwrote a set value"); }
	std::unique_ptr<ConfigurationTable> u(new ConfigurationTable(db.name.c_str()));
	ConfigurationRecordMap all = u->getAllPairs(); PCHECK(all.size()==schema.size(),"sql-table","a table over the loaded database lists " << all.size() << " keys");
	u.reset(); t.reset(); db.closeOthers();
}
PTEST(sql, 12000) { noLeakCase("leak",src,sqlBody); }
static std::string tex(const std::string &s) { std::string r; for (char c : s) { if (c=='^'||c=='_') r += '\\'; r += c; } return r; }
static void texBody(Src &src) {
	env::setTime(1500000000);
	ConfigurationKeyMap schema = drawSchema(src);
	cfg::Db db; std::unique_ptr<ConfigurationTable> t(new ConfigurationTable(":memory:",0,schema)); schema = t->mSchema;
	std::string out = t->getTeX("prog","1.0"); NOTE(show(out)); if (schema.size()>5) src.nontrivial();
	const char *heads[] = { "\\section{Customer Site Parameters}","\\section{Customer Tuneable Parameters}","\\section{Developer/Factory Parameters}" };
	size_t at = 0;
	for (int s=0;s<3;s++) {
		at = out.find(heads[s],at); PCHECK(at!=std::string::npos,"tex-section","section " << heads[s] << " missing or out of order");
		size_t b = out.find("\\begin{itemize}\n",at), e = out.find("\\end{itemize}",at); PCHECK(b!=std::string::npos&&e!=std::string::npos&&b<e,"tex-section","no list in " << heads[s]);
		std::string want;
		for (auto &k : schema) { CK::VisibilityLevel v = k.second.getVisibility(); int sec = v==CK::CUSTOMERSITE?0:(v==CK::DEVELOPER||v==CK::FACTORY)?2:1;
			if (sec==s) want += "\t\\item \\texttt{"+tex(k.first)+"} -- "+tex(k.second.getDescription())+"\n"; }
		std::string got = out.substr(b+16,e-b-16);
		PCHECK(got==want,"tex-items","section " << heads[s] << " lists\n" << got << "expected\n" << want);
		at = e;
	}
	// similar keys and the cross-check hook
	std::string sn = src.coin()&&!schema.empty() ? [&]{ std::string k = std::next(schema.begin(),src.draw(schema.size()))->first; if (src.coin()) return k; size_t a = src.draw(k.size()+1); return src.coin() ? k.substr(0,src.draw(4)) : k.substr(a,src.draw(k.size()-a+1)); }() : src.chars("Key.ABLog_",3);
	ConfigurationKeyMap sim = t->getSimilarKeys(sn); size_t n = 0; NOTE("similar to " << show(sn) << ": " << sim.size());
	for (auto &k : schema) if (k.first.find(sn)!=std::string::npos) { n++; PCHECK(sim.count(k.first),"similar","getSimilarKeys(" << show(sn) << ") lacks " << show(k.first)); PCHECK(sim[k.first].getDescription()==k.second.getDescription(),"similar","entry of " << show(k.first)); }
	PCHECK(sim.size()==n,"similar","getSimilarKeys(" << show(sn) << ") has " << sim.size() << " entries, expected " << n);
	t.reset(); db.closeOthers();
}
PTEST(texform, 10000) { noLeakCase("leak",src,texBody); }
static std::vector<std::string> hook(const std::string &k) { std::vector<std::string> r; for (char c : k) r.push_back(std::string(1,c)); return r; }
PTEST(cross, 2000) {
	env::setTime(1500000000); cfg::Db db;
	std::unique_ptr<ConfigurationTable> t(new ConfigurationTable(":memory:"));
	std::string k = src.nastyText(10);
	PCHECK(t->crossCheck(k).empty(),"cross-check","a table without a hook reports problems");
	t->setCrossCheckHook(hook); PCHECK(t->crossCheck(k)==hook(k),"cross-check","the hook's answer for " << show(k) << " was changed"); if (k.size()>1) src.nontrivial();
	t.reset(); db.closeOthers();
}
// The on-screen forms: one "label: text" line per attribute.
PTEST(screen, 25000) {
	CK::Type ty = types[src.draw(21)]; CK::VisibilityLevel vis = levels[src.draw(6)]; unsigned scope = src.draw(32); bool st = src.coin();
	std::string name = "Key."+src.chars("abc",4), def = src.coin()?"":text(src,20), units = src.coin()?"":text(src,10), desc = text(src,40), valid; std::vector<std::string> vv;
	if (ty==CK::VALRANGE) { std::string lo = std::to_string(src.sbiased(16)), hi = std::to_string(src.sbiased(16)); valid = lo+":"+hi; if (src.coin()) valid += "("+std::to_string(1+src.draw(9))+")"; vv.push_back("from "+lo+" to "+hi); }
	else if (ty==CK::CHOICE) { size_t n = 1+src.len(5); for (size_t i=0;i<n;i++) { std::string c = src.chars("abcXYZ019",6)+std::to_string(i); valid += (i?",":"")+c; if (src.coin()) { std::string d = src.chars("abc def.",10); valid += "|"+d; c += " = "+d; } vv.push_back(c); } }
	else if (ty==CK::BOOLEAN) { vv.push_back("0 = disabled"); vv.push_back("1 = enabled"); }
	else if (src.coin()) { valid = text(src,15); }
	bool late = src.chance(1,3); CK key(name,late?"before":def,units,vis,ty,late?"1:2(3)":valid,st,desc,scope); if (late) { key.updateValidValues(valid); key.updateDefaultValue(def); } { CK copy(key); if (src.coin()) key = copy; }
	PCHECK(key.getName()==name && key.getDefaultValue()==def && key.getUnits()==units && key.getVisibility()==vis && key.getType()==ty && key.getValidValues()==valid && key.isStatic()==st && key.getDescription()==desc && key.getScope()==scope,"attribute","an attribute of the key " << name << " is not what it was made with");
	std::ostringstream os; CK::printDescription(key,os); std::string out = os.str(); NOTE(out); src.nontrivial();
	std::multimap<std::string,std::string> got; std::istringstream is(out); std::string l; size_t lines=0;
	while (std::getline(is,l)) { lines++; size_t c = l.find(':'); PCHECK(l.compare(0,3," - ")==0 && c!=std::string::npos,"screen-form","line " << show(l)); std::string t = l.substr(c+1); size_t b = t.find_first_not_of(' '); got.insert(std::make_pair(l.substr(3,c-3),b==std::string::npos?"":t.substr(b))); }
	auto trim = [](const std::string &s) { size_t b = s.find_first_not_of(' '); return b==std::string::npos?std::string():s.substr(b); };
	auto one = [&](const char *label, bool present, const std::string &want) {
		PCHECK(got.count(label)==(present?1u:0u),"screen-attribute","there are " << got.count(label) << " lines for " << label << " in\n" << out);
		if (present) PCHECK(got.find(label)->second==trim(want),"screen-attribute",label << " is shown as " << show(got.find(label)->second) << ", expected " << show(want)); };
	one("description",true,desc); one("units",!units.empty(),units); one("default value",!def.empty(),def);
	one("type",true,CK::typeToString(ty)); one("visibility level",true,CK::visibilityLevelToString(vis)); one("static",true,st?"1":"0");
	PCHECK(got.count("valid values")==vv.size(),"screen-valid","there are " << got.count("valid values") << " valid-values lines for " << show(valid) << " in\n" << out);
	auto r = got.equal_range("valid values"); size_t i = 0;
	for (auto p=r.first;p!=r.second;++p,++i) PCHECK(p->second==vv[i],"screen-valid","valid values " << show(p->second) << ", expected " << show(vv[i]) << " from " << show(valid));
	if (ty==CK::STRING) one("valid val regex",true,valid);
	else if (vv.empty()) one("raw valid values",!valid.empty(),valid);
	auto sc = [&](const char *a, const char *b) { auto q = got.equal_range("scope"); for (auto p=q.first;p!=q.second;++p) if (p->second.find(a)!=std::string::npos && p->second.find(b)!=std::string::npos) return true; return false; };
	PCHECK(sc("unique","all nodes")==((scope&CK::GLOBALLYUNIQUE)!=0) && sc("same","all nodes")==((scope&CK::GLOBALLYSAME)!=0) && sc("unique","all neighbors")==((scope&CK::NEIGHBORSUNIQUE)!=0) && sc("same","all neighbors")==((scope&CK::NEIGHBORSSAME)!=0) && sc("specific","individual node")==((scope&CK::NODESPECIFIC)!=0),"screen-scope","scope " << scope << " is shown as\n" << out);
	// names of types and levels are all different
	CK::Type t2 = types[src.draw(21)]; CK::VisibilityLevel v2 = levels[src.draw(6)];
	PCHECK((CK::typeToString(ty)==CK::typeToString(t2))==(ty==t2) && CK::typeToString(ty).find("UNKNOWN")==std::string::npos,"type-name","types " << ty << " and " << t2 << " are both called " << CK::typeToString(ty));
	PCHECK((CK::visibilityLevelToString(vis)==CK::visibilityLevelToString(v2))==(vis==v2) && CK::visibilityLevelToString(vis).find("UNKNOWN")==std::string::npos,"level-name","levels " << vis << " and " << v2);
	std::ostringstream ks; std::string cur = src.weighted({2,2,1})==0?def:src.coin()?text(src,10):""; CK::printKey(key,cur,ks);
	std::string want = name+" "+(cur.empty()?"(disabled)":cur)+(cur==def?"     [default]":"")+"\n";
	PCHECK(ks.str()==want,"print-key","printKey gave " << show(ks.str()) << ", expected " << show(want));
}

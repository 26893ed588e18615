// C34: one instance at a time holds the pid file, and only its own files go when it ends.
// The program under test runs in a child process whose file calls see /var/run as a scratch directory; calls that would
// reach anything outside the scratch directory are refused and reported.
#include "cfg.h"
#include "SelfDetect.h"
#include "UnixSignal.h"
#include "Exit.h"
#include <signal.h>
#include <fcntl.h>
#include <stdarg.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fstream>
#include <set>
using namespace pbt;
extern ConfigurationTable gConfig;
static bool gChild; static int gPipe; static std::string gDir; static int gOtherAt, gCalls; static std::string gPidPath;
static void say(char c, const std::string &s) { std::string l = std::string(1,c)+s+"\n"; for (size_t i=1;i+1<l.size();i++) if (l[i]=='\n') l[i] = '|'; if (write(gPipe,l.data(),l.size())) {} }
// The scratch file a path stands for; false if it is none of ours.
static bool mapped(const char *p, std::string &out) {
	std::string s = p ? p : "";
	if (s.compare(0,8,"/var/run")==0) s = gDir+"/run"+s.substr(8); else if (s.compare(0,4,"/run")==0) s = gDir+"/run"+s.substr(4);
	std::string r; for (char c : s) if (c!='/' || r.empty() || r[r.size()-1]!='/') r += c;
	out = r; return r.compare(0,gDir.size()+1,gDir+"/")==0 && r.find("/../")==std::string::npos;
}
extern "C" {
FILE *__real_fopen(const char*, const char*); int __real_open(const char*, int, ...); int __real_unlink(const char*); int __real_stat(const char*, struct stat*); int __real_lstat(const char*, struct stat*); int __real_access(const char*, int);
int __real_remove(const char*); int __real_rename(const char*, const char*); int __real_link(const char*, const char*); int __real_system(const char*); int __real_kill(pid_t,int);
static void other(const std::string &p) {  // another instance starts just before this call
	if (p!=gPidPath || gOtherAt<0) return;
	if (gCalls++==gOtherAt) { int fd = __real_open(p.c_str(),O_WRONLY|O_CREAT|O_EXCL,0644); if (fd>=0) { if (write(fd,"99999\n",6)) {} close(fd); say('O',""); } }
}
#define PATH(P,FAIL) std::string m; if (gChild) { if (!mapped(P,m)) { say('X',std::string(__func__)+" "+(P?P:"")); errno = EACCES; return FAIL; } other(m); P = m.c_str(); }
FILE *__wrap_fopen(const char *p, const char *mode) { PATH(p,NULL) return __real_fopen(p,mode); }
FILE *__wrap_fopen64(const char *p, const char *mode) { PATH(p,NULL) return __real_fopen(p,mode); }
int __wrap_open(const char *p, int fl, ...) { va_list ap; va_start(ap,fl); int mode = va_arg(ap,int); va_end(ap); PATH(p,-1) return __real_open(p,fl,mode); }
int __wrap_open64(const char *p, int fl, ...) { va_list ap; va_start(ap,fl); int mode = va_arg(ap,int); va_end(ap); PATH(p,-1) return __real_open(p,fl,mode); }
int __wrap_unlink(const char *p) { PATH(p,-1) return __real_unlink(p); }
int __wrap_remove(const char *p) { PATH(p,-1) return __real_unlink(p); }
int __wrap_stat(const char *p, struct stat *s) { PATH(p,-1) return __real_stat(p,s); }
int __wrap_lstat(const char *p, struct stat *s) { PATH(p,-1) return __real_lstat(p,s); }
int __wrap_access(const char *p, int a) { PATH(p,-1) return __real_access(p,a); }
int __wrap_rename(const char *p, const char *q) { PATH(p,-1) std::string n; if (gChild) { if (!mapped(q,n)) { say('X',std::string("rename ")+q); return -1; } q = n.c_str(); } return __real_rename(p,q); }
int __wrap_link(const char *p, const char *q) { PATH(p,-1) std::string n; if (gChild) { if (!mapped(q,n)) { say('X',std::string("link ")+q); return -1; } q = n.c_str(); } return __real_link(p,q); }
int __wrap_system(const char *c) { if (gChild) { say('S',c); return 0; } return __real_system(c); }
int __wrap_kill(pid_t p, int s) { if (gChild && p!=getpid()) { if (s) say('X',"kill "+std::to_string(p)); return s ? -1 : __real_kill(p,0); } return __real_kill(p,s); }
}
static std::string slurp(const std::string &p) { std::ifstream f(p,std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static bool exists(const std::string &p) { struct stat s; return __real_lstat(p.c_str(),&s)==0; }
static void spit(const std::string &p, const std::string &t) { std::ofstream f(p,std::ios::binary); f << t; }
static void empty(const std::string &d) { DIR *D = opendir(d.c_str()); if (!D) return; while (dirent *e = readdir(D)) { std::string n = e->d_name; if (n=="."||n=="..") continue; std::string p = d+"/"+n; struct stat s; if (__real_lstat(p.c_str(),&s)==0 && S_ISDIR(s.st_mode)) { empty(p); rmdir(p.c_str()); } else __real_unlink(p.c_str()); } closedir(D); }
// The signal itself if it ends a program and the C library leaves it to the program.
static int anyFatal(int s) { switch (s) { case SIGKILL: case SIGSTOP: case SIGCHLD: case SIGCONT: case SIGURG: case SIGWINCH: case SIGTSTP: case SIGTTIN: case SIGTTOU: case 32: case 33: return SIGTERM; } return s; }
extern void (*gCoreHook)(const char*);
static void coreSaid(const char *f) { if (gChild) say('D',f); }
struct End { int kind, n; };   // 0 exit, 1 fatal signal, 2 a signal that does not end the program and then exit, 3 SIGKILL
PTEST_NOFUZZ(instances, 6000) {
	gDir = scratchDir(); umask(0); chmod(gDir.c_str(),0777); empty(gDir); mkdir((gDir+"/run").c_str(),0777);
	static const char *progs[] = { "prog","./prog","/opt/bin/prog","/opt/prog.d/x","OpenBTS","a b","../up/prog","/prog","%s%n","-x" };
	std::string argv0 = progs[src.draw(10)], base = argv0.substr(argv0.rfind('/')==std::string::npos?0:argv0.rfind('/')+1); if (src.chance(1,6)) { base = std::string(1+src.draw(60),'p'); argv0 = "/usr/bin/"+base; }
	std::string pidf = gDir+"/run/"+base+".pid"; gPidPath = pidf;
	int prior = src.weighted({12,4,2,2,2,2,2,1,1}); std::string text; bool there = prior!=0 && prior!=6 && prior!=7;
	switch (prior) { case 1: text = "12345\n"; spit(pidf,text); break; case 2: text = ""; spit(pidf,text); break; case 3: text = src.nastyText(40); spit(pidf,text); break;
		case 4: mkdir(pidf.c_str(),0777); break; case 5: text = std::to_string(getpid())+"\n"; spit(pidf,text); break; case 6: rmdir((gDir+"/run").c_str()); break; case 7: chmod((gDir+"/run").c_str(),0555); break; case 8: if (symlink((gDir+"/nowhere").c_str(),pidf.c_str())) {} break; }
	std::set<std::string> mine, others; int nf = src.draw(5);
	for (int i=0;i<8;i++) { std::string p = gDir+"/file"+std::to_string(i); if (!src.chance(1,5)) spit(p,"data"); if (i<nf) mine.insert(p); else if (exists(p)) others.insert(p); }
	if (prior!=6) { for (const char *o : { "other.pid","pro.pid","prog.pid.bak" }) if (gDir+"/run/"+o!=pidf) { spit(gDir+"/run/"+o,"1\n"); others.insert(gDir+"/run/"+o); } }
	static const int common[] = { SIGTERM,SIGINT,SIGHUP,SIGQUIT,SIGSEGV,SIGABRT,SIGPIPE,SIGUSR1,64 }, mild[] = { SIGCHLD,SIGCONT,SIGURG,SIGWINCH };
	End e; e.kind = src.weighted({4,4,2,1}); e.n = e.kind==0 ? src.draw(256) : e.kind==1 ? anyFatal(src.coin()?common[src.draw(9)]:(int)src.range(1,64)) : e.kind==2 ? mild[src.draw(4)] : SIGKILL;
	bool twice = src.chance(1,6), before = src.coin(), noReg = src.chance(1,10); gOtherAt = src.chance(1,3) ? (int)src.draw(5) : -1; bool save = src.chance(1,4), corePid = src.coin(); std::string coreFile = gDir+"/"+src.pick(std::vector<std::string>{"core","my core","c.%d"}), tarFile = gDir+"/"+src.pick(std::vector<std::string>{"tar","files.tgz"});
	int fd[2]; if (pipe(fd)) return; fflush(0);
	pid_t p = fork();
	if (!p) { close(fd[0]); gPipe = fd[1]; gCalls = 0; alarm(30); int nul = __real_open("/dev/null",O_RDWR); dup2(nul,1); dup2(nul,2);
		for (int i=1;i<65;i++) if (i!=SIGKILL && i!=SIGSTOP) signal(i,SIG_DFL); alarm(30);
		gConfig.set("Core.File",coreFile); gConfig.set("Core.Pid",corePid?"1":"0"); gConfig.set("Core.TarFile",tarFile); gCoreHook = coreSaid; gConfig.set("Core.SaveFiles",save?"1":"0");
		for (int i=0;i<8;i++) chmod((gDir+"/file"+std::to_string(i)).c_str(),0666);
		if (geteuid()==0 && (setgid(65534) || setuid(65534))) { say('X',"cannot give up privileges"); _exit(3); }   // an escaped call reaches nothing
		gChild = true;
		if (before) for (auto &f : mine) gSelf.RegisterFile(f.c_str());
		if (!noReg) gSelf.RegisterProgram(argv0.c_str());
		say('R',slurp(pidf)); gOtherAt = -1;
		if (!before) for (auto &f : mine) { gSelf.RegisterFile(f.c_str()); if (twice) gSelf.RegisterFile(f.c_str()); }
		if (e.kind!=0) { __real_kill(getpid(),e.n); say('C',exists(pidf)?"kept":"gone"); }
		exit(e.kind==0?e.n:9); }
	close(fd[1]); std::string out; char b[512]; ssize_t r; while ((r=read(fd[0],b,512))>0) out.append(b,r); close(fd[0]); int st = 0; waitpid(p,&st,0);
	bool ran = false, raced = false; std::string held, cont; std::istringstream is(out); std::string l, esc; int commands = 0, cores = 0; std::string command, coreName;
	while (std::getline(is,l)) { if (l[0]=='R') { ran = true; held = l.substr(1); } else if (l[0]=='O') raced = true; else if (l[0]=='C') cont = l.substr(1); else if (l[0]=='X') esc = l.substr(1); else if (l[0]=='S') { commands++; command = l; } else if (l[0]=='D') { cores++; coreName = l.substr(1); } }
	NOTE("program " << show(argv0) << ", pid file " << (prior==0?"absent":prior==6?"impossible (no directory)":prior==7?"impossible (directory closed)":prior==8?"a link to nowhere":prior==4?"a directory":show(text)) << (raced?", another instance starts meanwhile":"") << ", " << mine.size() << " registered files, ends by " << (e.kind==0?"exit ":"signal ") << e.n << (noReg?", never registered":"") << " -> status " << st);
	PCHECK(esc.empty(),"foreign-file","the program touched a file that is not its own: " << show(esc));
	auto untouched = [&](bool my) { for (auto &f : others) PCHECK(exists(f),"foreign-file","another program's file " << f << " was removed"); if (my) for (auto &f : mine) (void)f; };
	untouched(false);
	if (noReg) { PCHECK(ran && (e.kind!=0 || (WIFEXITED(st) && WEXITSTATUS(st)==e.n)),"exit","an unregistered program ended with status " << st); return; }
	src.nontrivial();
	if (there || raced || prior==6 || prior==7) {
		int code = prior==6 || prior==7 ? Exit::CREATEFILE : Exit::DETECTFILE;
		PCHECK(!ran,"second-instance","a second instance started although the pid file was there" << (raced?" by the time it was to be created":""));
		PCHECK(WIFEXITED(st) && WEXITSTATUS(st)==code,"exit-code","a refused instance ended with status " << st << ", not exit " << code);
		if (prior==8) PCHECK(exists(pidf) && !exists(gDir+"/nowhere"),"pid-file-touched","the pid path that leads nowhere was touched"); else if (prior==7) PCHECK(!exists(pidf),"pid-file-touched","a pid file appeared"); else if (prior==4) PCHECK(exists(pidf),"pid-file-touched","the pid path was removed"); else if (prior!=6) PCHECK(exists(pidf) && slurp(pidf)==(raced?std::string("99999\n"):text),"pid-file-touched","a refused instance changed the pid file to " << (exists(pidf)?show(slurp(pidf)):"nothing"));
		for (int i=0;i<nf;i++) {} return; }
	PCHECK(ran,"refused","the program was refused although no pid file was there (status " << st << ")");
	PCHECK(held==std::to_string(p)+"|" || held==std::to_string(p),"pid-recorded","the pid file of process " << p << " holds " << show(held));
	if (e.kind==3) { PCHECK(WIFSIGNALED(st) && WTERMSIG(st)==SIGKILL,"exit","status " << st); return; }
	if (e.kind==2) { PCHECK(cont=="kept","live-pid-file-removed","signal " << e.n << " does not end the program, but its pid file was removed"); PCHECK(WIFEXITED(st) && WEXITSTATUS(st)==9,"exit","status " << st); }
	if (e.kind==0) PCHECK(WIFEXITED(st) && WEXITSTATUS(st)==e.n,"exit","exit " << e.n << " gave status " << st);
	if (e.kind==1) { PCHECK(WIFSIGNALED(st) && WTERMSIG(st)==e.n,"exit","fatal signal " << e.n << " gave status " << st); bool core = e.n==SIGQUIT||e.n==SIGSEGV||e.n==SIGABRT||e.n==SIGFPE||e.n==SIGBUS||e.n==SIGSYS||e.n==SIGILL||e.n==SIGTRAP||e.n==SIGXCPU||e.n==SIGXFSZ; PCHECK(commands==(core&&save?1:0),"save-files","signal " << e.n << " ran " << commands << " commands, saving files is " << (save?"on":"off"));
		PCHECK(cores==(core?1:0) && (!core || coreName==(corePid ? coreFile+"."+std::to_string(p) : coreFile)),"core-file","signal " << e.n << " wrote " << cores << " cores, to " << show(coreName) << ", configured is " << show(coreFile) << (corePid?" with":" without") << " the process id");
		if (core && save) PCHECK(command.find(tarFile)!=std::string::npos,"saved-files","the files were not saved to " << tarFile << " but by " << show(command)); }
	PCHECK(!exists(pidf),"pid-file-left","the pid file was left behind (status " << st << ")");
	for (auto &f : mine) PCHECK(!exists(f),"file-left","registered file " << f << " was left behind");
	untouched(true);
}

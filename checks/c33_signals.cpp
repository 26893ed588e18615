// C33: every handler registered for a signal runs once, in order, before the signal's own action.
#include "common.h"
#include "UnixSignal.h"
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <new>
#include <string.h>
using namespace pbt;
extern std::vector<std::string> gCoreDumps;
// ---- stand-ins: dispositions are recorded, signals are not sent, commands are not run
static bool gReal;                         // inside a forked child the real calls are made
static const int NS = 65;
static sighandler_t table[NS]; static bool refusedSignal;
struct Sent { int pid, sig; sighandler_t disp; size_t ran; };
static std::vector<Sent> sent; static std::vector<std::string> commands;
struct Ran { int id, sig; size_t cores, kills; };
static std::vector<Ran> ran;
extern "C" {
sighandler_t __real_signal(int, sighandler_t); int __real_kill(pid_t, int); int __real_raise(int); int __real_sigaction(int, const struct sigaction*, struct sigaction*);
sighandler_t __wrap_signal(int s, sighandler_t h) { if (gReal) return __real_signal(s,h); if (s<=0 || s>=NS || s==SIGKILL || s==SIGSTOP) { errno = EINVAL; return SIG_ERR; } sighandler_t o = table[s]; table[s] = h; return o; }
int __wrap_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (gReal) return __real_sigaction(s,a,o); if (s<=0 || s>=NS || s==SIGKILL || s==SIGSTOP) { errno = EINVAL; return -1; } if (o) { memset(o,0,sizeof *o); o->sa_handler = table[s]; } if (a) table[s] = a->sa_handler; return 0; }
int __wrap_kill(pid_t p, int s) { if (gReal) return p==getpid() ? __real_kill(p,s) : -1; Untracked u; sent.push_back(Sent{(int)p,s,s>0&&s<NS?table[s]:SIG_ERR,ran.size()}); return 0; }
int __wrap_raise(int s) { if (gReal) return __real_raise(s); return __wrap_kill(getpid(),s); }
int __wrap_system(const char *c) { Untracked u; commands.push_back(c); return 0; }
}
static int gAgain;                         // the signal that arrives once more, at another thread, while its handlers run
static bool gKilled;
static void record(int id, int sig) { if (gAgain==sig) { gAgain = 0; if (table[sig]==SIG_DFL) gKilled = true; else if (table[sig]!=SIG_IGN) table[sig](sig); } Untracked u; ran.push_back(Ran{id,sig,gCoreDumps.size(),sent.size()}); }
static int gPipe = -1;
static void note(int id, int sig) { if (gReal) { unsigned char b[2] = { (unsigned char)id,(unsigned char)sig }; if (write(gPipe,b,2)) {} } else record(id,sig); }
template<int N> static void H(int sig) { note(N,sig); }
static const sighandler_t handlers[] = { H<0>,H<1>,H<2>,H<3>,H<4>,H<5> };
static bool coreSignal(int s) { switch (s) { case SIGQUIT: case SIGILL: case SIGABRT: case SIGFPE: case SIGSEGV: case SIGBUS: case SIGSYS: case SIGTRAP: case SIGXCPU: case SIGXFSZ: return true; } return false; }
static int sigNumber(Src &src) { static const int common[] = { SIGTERM,SIGINT,SIGSEGV,SIGABRT,SIGQUIT,SIGUSR1,63,64,1,SIGHUP,SIGPIPE,SIGSYS,SIGTRAP,SIGXCPU,SIGXFSZ,SIGBUS,SIGILL,SIGFPE };
	return src.weighted({5,3,1})==0 ? common[src.draw(18)] : src.chance(3,4) ? src.range(1,64) : (int)src.pick(std::vector<int>{0,-1,65,66,100,-64,1000000,-2147483647-1,2147483647,-1,65}); }
struct Out { int fd; Out() { fflush(stdout); } };
static void body(Src &src) {
	for (int i=0;i<NS;i++) table[i] = SIG_DFL;
	sent.clear(); commands.clear(); ran.clear(); { Untracked u; gCoreDumps.clear(); }
	gSigVec.~UnixSignal(); for (int i=0;i<NS;i++) table[i] = SIG_DFL; new (&gSigVec) UnixSignal();
	for (int i=1;i<NS;i++) PCHECK(table[i]==SIG_DFL,"unasked","signal " << i << " is caught before any registration");
	std::map<int,std::vector<int> > reg; std::string core = "core", tar; bool addPid = false, save = false; sighandler_t mine = 0;
	auto expectRun = [&](int sig, size_t from, const char *what) {
		std::vector<int> want = reg[sig], got; for (size_t i=from;i<ran.size();i++) { got.push_back(ran[i].id); PCHECK(ran[i].sig==sig,"signal-number","a handler of signal " << sig << " was called with " << ran[i].sig); }
		std::string a,b; for (int x : got) a += " "+std::to_string(x); for (int x : want) b += " "+std::to_string(x);
		PCHECK(got==want,"handlers",what << " of signal " << sig << " ran handlers" << a << ", registered" << b); if (want.size()>=2) src.nontrivial();
		std::string name = addPid ? core+"."+std::to_string(getpid()) : core;
		PCHECK(gCoreDumps.size()==(coreSignal(sig)?1u:0u),"core","signal " << sig << " wrote " << gCoreDumps.size() << " core files");
		if (coreSignal(sig)) { PCHECK(gCoreDumps[0]==name.substr(0,BUFSIZ-2),"core-name","the core file is " << show(gCoreDumps[0]) << ", configured " << show(name)); for (size_t i=from;i<ran.size();i++) PCHECK(ran[i].cores==1,"core-late","a handler ran before the core file was written"); }
		PCHECK(commands.size()==(coreSignal(sig)&&save?1u:0u),"save-files","signal " << sig << " ran " << commands.size() << " commands, saving files is " << (save?"on":"off"));
		if (commands.size()) PCHECK(commands[0].find(tar)!=std::string::npos && commands[0].find("staging."+std::to_string(getpid()))!=std::string::npos,"save-files","the command is " << show(commands[0]));
	};
	size_t n = 1+src.len(40);
	for (size_t i=0;i<n;i++) {
		size_t from = ran.size(), kfrom = sent.size(); { Untracked u; gCoreDumps.clear(); commands.clear(); }
		switch (src.weighted({10,6,2,2,1,1})) {
		case 0: { int sig = sigNumber(src), h = src.draw(6); if (reg.size() && src.coin()) { auto it = reg.begin(); std::advance(it,src.draw(reg.size())); sig = it->first; }
			std::vector<sighandler_t> before(table,table+NS); NOTE("register " << h << " for " << sig); gSigVec.Register(handlers[h],sig); bool ok = sig>0 && sig<65;
			if (ok) reg[sig].push_back(h);
			for (int s=1;s<NS;s++) if (s==sig && ok && s!=SIGKILL && s!=SIGSTOP) { PCHECK(table[s]!=SIG_DFL && table[s]!=SIG_IGN && table[s]!=handlers[h],"not-caught","signal " << s << " is not caught after a registration"); mine = table[s]; }
				else PCHECK(table[s]==before[s],"other-signal","registering for " << sig << " changed what happens on " << s);
			break; }
		case 1: { int sig = sigNumber(src); if (reg.size() && src.chance(2,3)) { auto it = reg.begin(); std::advance(it,src.draw(reg.size())); sig = it->first; }
			if (sig<=0 || sig>=NS || table[sig]==SIG_DFL) { NOTE("signal " << sig << " is not caught"); if (sig>0 && sig<65 && sig!=SIGKILL && sig!=SIGSTOP) break;
				if (!mine || (sig>0 && sig<65)) break; mine(sig); PCHECK(ran.size()==from && sent.size()==kfrom,"bad-number","an impossible signal number " << sig << " ran handlers"); break; }
			gAgain = src.coin() ? sig : 0; gKilled = false; NOTE("deliver " << sig << (gAgain?", and again while its handlers run":"")); if (gAgain) src.label("again"); table[sig](sig); gAgain = 0; expectRun(sig,from,"delivery");
			for (size_t j=from;j<ran.size();j++) { PCHECK(ran[j].kills==kfrom,"order","the signal was sent on before its handlers ran"); } PCHECK(!gKilled,"nested","the same signal arriving once more ends the program before its handlers have run");
			PCHECK(sent.size()==kfrom+1 && sent[kfrom].sig==sig && sent[kfrom].pid==getpid() && sent[kfrom].disp==SIG_DFL,"rethrow","after its handlers signal " << sig << " was " << (sent.size()==kfrom?"not sent on":"sent on wrongly"));
			break; }
		case 2: { int sig = 1+src.draw(64); NOTE("handler call for " << sig); gSigVec.Handler(sig); expectRun(sig,from,"a handler call"); PCHECK(sent.size()==kfrom,"rethrow","Handler sent a signal"); break; }
		case 3: { core = src.chance(1,6) ? std::string(src.draw(12000),'c') : "/tmp/"+src.chars("abc.",8); addPid = src.coin(); if (core.size()>8000) addPid = false; NOTE("core name " << core.size() << " characters, pid " << addPid); gSigVec.CoreName(core,addPid); break; }
		case 4: { tar = "t"+src.chars("abc.",8)+".tgz"; save = src.coin(); NOTE("tar name " << tar << " " << save); gSigVec.TarName(tar,save); break; }
		case 5: gSigVec.Dump(); break;
		}
		PCHECK(sent.size()<=kfrom+1,"rethrow","several signals were sent");
	}
	gSigVec.~UnixSignal(); new (&gSigVec) UnixSignal();
	Untracked u; gCoreDumps.clear(); commands.clear();
}
PTEST(signals, 20000) { noLeakCase("leak",src,body); }
// The same through the kernel, in a child process.
PTEST_NOFUZZ(delivered, 400) {
	static const int sigs[] = { SIGTERM,SIGINT,SIGHUP,SIGQUIT,SIGUSR1,SIGUSR2,SIGSEGV,SIGABRT,SIGFPE,SIGBUS,SIGILL,SIGPIPE,SIGALRM,SIGXCPU,SIGSYS,SIGTRAP,40,64,SIGURG,SIGWINCH,SIGCHLD,SIGCONT };
	int k = src.draw(5), sig = sigs[src.draw(22)], other = sigs[src.draw(22)]; std::vector<std::pair<int,int> > regs;
	for (int i=0;i<k;i++) regs.push_back(std::make_pair((int)src.draw(6), src.chance(3,4)?sig:other));
	std::string want; bool caught = false; for (auto &r : regs) if (r.second==sig) { want += (char)r.first; want += (char)sig; caught = true; }
	bool ignored = sig==SIGURG || sig==SIGWINCH || sig==SIGCHLD || sig==SIGCONT;
	int fd[2]; if (pipe(fd)) return; fflush(0);
	pid_t p = fork();
	if (!p) { gReal = true; for (int s=1;s<NS;s++) if (s!=SIGKILL && s!=SIGSTOP) __real_signal(s,SIG_DFL); gPipe = fd[1]; close(fd[0]); alarm(20); if (!freopen("/dev/null","w",stdout)) {}
		gSigVec.~UnixSignal(); new (&gSigVec) UnixSignal(); for (auto &r : regs) gSigVec.Register(handlers[r.first],r.second);
		__real_kill(getpid(),sig); usleep(1000); _exit(7); }
	close(fd[1]); std::string got; char b[64]; ssize_t r; while ((r=read(fd[0],b,64))>0) got.append(b,r); close(fd[0]);
	int st = 0; waitpid(p,&st,0);
	NOTE("signal " << sig << " with " << want.size()/2 << " handlers -> status " << st);
	PCHECK(got==want,"handlers","delivery of signal " << sig << " ran " << show(got) << " (handler, signal), registered " << show(want));
	PCHECK(ignored ? WIFEXITED(st) && WEXITSTATUS(st)==7 : WIFSIGNALED(st) && WTERMSIG(st)==sig,"default-action","after " << (caught?"its handlers":"no handlers") << " signal " << sig << " ended the process with status " << st);
	if (want.size()>=4) src.nontrivial();
}

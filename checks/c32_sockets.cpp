// C32: datagram sockets deliver messages unchanged to the right peer. Real loopback and local sockets; every process uses
// a loopback address of its own (bind and name resolution are redirected), so that parallel workers cannot meet.
#include "common.h"
#include "Sockets.h"
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <pthread.h>
#include <memory>
#include <deque>
#include <string.h>
using namespace pbt;
static int openFds() { int n = 0; for (int f=0;f<1200;f++) n += fcntl(f,F_GETFD)>=0; return n; }
static uint32_t myAddr() { unsigned p = getpid(); return 0x7f000000u | ((64+((p>>16)&63))<<16) | (((p>>8)&255)<<8) | (p&255); }
static std::string addrText(uint32_t a) { char b[32]; snprintf(b,32,"%u.%u.%u.%u",a>>24,(a>>16)&255,(a>>8)&255,a&255); return b; }
static unsigned nextPort = 20000; static std::string gBadUnlink; static std::string gScratch;
static unsigned freshPort() { if (++nextPort>=60000) nextPort = 20001; return nextPort; }
static uint32_t gBoundAny = 1;
// ---- redirected calls
extern "C" {
// In some cases the process has so many descriptors open that a new socket's number is beyond FD_SETSIZE.
static bool gHigh, gZeroLeft; int __real_socket(int, int, int);
int __wrap_socket(int d, int t, int p) { int fd = __real_socket(d,t,p); if (gHigh && fd>=0) { int h = fcntl(fd,F_DUPFD,1030); if (h>=0) { ::close(fd); fd = h; } } return fd; }
int __real_bind(int, const struct sockaddr*, socklen_t); int __real_unlink(const char*);
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n) {
	if (a->sa_family==AF_INET && n>=sizeof(sockaddr_in)) { sockaddr_in in = *(sockaddr_in*)a; gBoundAny = in.sin_addr.s_addr; in.sin_addr.s_addr = htonl(myAddr()); if (!in.sin_port) in.sin_port = htons(freshPort()); return __real_bind(fd,(sockaddr*)&in,sizeof in); }
	return __real_bind(fd,a,n);
}
static bool okPath(const char *p) { return gScratch.size() && strncmp(p,gScratch.c_str(),gScratch.size())==0 && !strstr(p,"/../"); }
int __wrap_unlink(const char *p) { if (!okPath(p)) { if (gBadUnlink.empty()) gBadUnlink = p; errno = EPERM; return -1; } return __real_unlink(p); }
int __wrap_remove(const char *p) { return __wrap_unlink(p); }
struct Host { const char *name; uint32_t addr; };
static const Host hosts[] = { {"host.test",0x0a010203}, {"other-host.test",0xc0a80001}, {"localhost",0}, {"a",0x01020304} };
static bool lookup(const char *name, uint32_t &a, bool &v6) {
	v6 = !strcmp(name,"v6.test"); if (v6) return true;
	for (auto &h : hosts) if (!strcmp(h.name,name)) { a = h.addr ? h.addr : myAddr(); return true; }
	unsigned x[4]; char c; if (sscanf(name,"%u.%u.%u.%u%c",x,x+1,x+2,x+3,&c)==4 && x[0]<256&&x[1]<256&&x[2]<256&&x[3]<256) { a = (x[0]<<24)|(x[1]<<16)|(x[2]<<8)|x[3]; return true; }
	return false;
}
static char *ptrs[2]; static uint32_t be; static char v6a[16]; static struct hostent he; static char *noAlias[1];
static struct hostent *resolveHost(const char *name, int fam) {
	uint32_t a; bool v6; h_errno = HOST_NOT_FOUND; if (!lookup(name,a,v6) || (v6 && fam==AF_INET)) return 0;
	be = htonl(a); ptrs[0] = v6 ? v6a : (char*)&be; ptrs[1] = 0; he.h_name = (char*)"x"; he.h_aliases = noAlias; he.h_addrtype = v6 ? AF_INET6 : AF_INET; he.h_length = v6 ? 16 : 4; he.h_addr_list = ptrs; h_errno = 0; return &he;
}
struct hostent *__wrap_gethostbyname(const char *n) { return resolveHost(n,0); }
struct hostent *__wrap_gethostbyname2(const char *n, int f) { return resolveHost(n,f); }
int __wrap_gethostbyname_r(const char *n, struct hostent *r, char*, size_t, struct hostent **out, int *e) { struct hostent *h = resolveHost(n,0); *e = h_errno; *out = 0; if (h) { *r = *h; *out = r; } return 0; }
int __wrap_gethostbyname2_r(const char *n, int f, struct hostent *r, char*, size_t, struct hostent **out, int *e) { struct hostent *h = resolveHost(n,f); *e = h_errno; *out = 0; if (h) { *r = *h; *out = r; } return 0; }
}
void pbtInit() { // loopback delivery keeps its order on one processor
	cpu_set_t s; if (sched_getaffinity(0,sizeof s,&s)) return; int n = CPU_COUNT(&s); if (n<1) return; int k = getpid()%n; for (int c=0;c<CPU_SETSIZE;c++) if (CPU_ISSET(c,&s) && k--==0) { CPU_ZERO(&s); CPU_SET(c,&s); sched_setaffinity(0,sizeof s,&s); return; } }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec*1e3+t.tv_nsec/1e6; }
struct Msg { std::string text; int from; };
struct Peer { std::unique_ptr<UDPSocket> u; std::unique_ptr<UDDSocket> d; bool udp, open, nonblock; unsigned port; std::string destPath; std::string path; int dest; int src; std::deque<Msg> in; size_t bytes;
	Peer():udp(true),open(false),nonblock(false),port(0),dest(-1),src(-1),bytes(0){} DatagramSocket *s() { return udp ? (DatagramSocket*)u.get() : d.get(); } };
static void emptyScratch() { DIR *D = opendir(gScratch.c_str()); if (!D) return; while (dirent *e = readdir(D)) if (e->d_name[0]!='.') __real_unlink((gScratch+"/"+e->d_name).c_str()); closedir(D); }
struct Late { DatagramSocket *s; int ms; std::string text; };
static void *lateWriter(void *p) { Late *l = (Late*)p; usleep(l->ms*1000); l->s->write(l->text.data(),l->text.size()); return 0; }
#ifndef RESOLVE_ONLY
static void body(Src &src) {
	{ Untracked u; gScratch = scratchDir(); gBadUnlink = ""; } emptyScratch();
	gHigh = src.chance(1,12); if (gHigh) { NOTE("with more than a thousand descriptors open"); src.label("many-descriptors"); }
	struct Zero { int kept; Zero(bool on):kept(-1) { if (on) { kept = fcntl(0,F_DUPFD,1100); if (kept>=0) ::close(0); } } ~Zero() { if (kept>=0) { gZeroLeft = fcntl(0,F_GETFD)>=0; dup2(kept,0); ::close(kept); } } } zero(!gHigh && src.chance(1,12)); if (zero.kept>=0) { NOTE("with descriptor 0 free"); src.label("descriptor-zero"); }
	const int N = 5; Peer P[N]; unsigned delivered = 0; std::string me = addrText(myAddr());
	auto openPeer = [&](int i) { Peer &p = P[i]; p.in.clear(); p.bytes = 0; p.nonblock = false; p.src = -1;
		if (p.udp) { bool any = src.coin(); unsigned want = any ? 0 : freshPort(); gBoundAny = 1; int to = -1; if (!p.u && src.coin()) { to = src.draw(3); if (!P[to].open) to = -1; }
			if (p.u) p.u->open(want); else if (to>=0) { p.u.reset(new UDPSocket(want,src.coin()?me.c_str():"localhost",P[to].port)); p.dest = to; NOTE("made with destination " << to); } else p.u.reset(new UDPSocket(want)); p.port = p.u->port(); PCHECK(gBoundAny==0 || gBoundAny==htonl(INADDR_LOOPBACK),"bind-address","the socket was bound to a strange address"); PCHECK(any ? p.port!=0 : p.port==want,"port","opened for port " << want << ", port() says " << p.port); NOTE("open " << i << " (udp)"); }
		else { size_t pad = src.chance(1,4) ? src.draw(70) : 0; p.path = gScratch+"/s"+std::to_string(i)+std::string(pad,'x'); if (p.path.size()>107) p.path.resize(107); NOTE("open " << i << " (local, path of " << p.path.size() << ")"); int to = -1; if (!p.d && src.coin()) { to = 3+src.draw(2); if (!P[to].open || to==i) to = -1; }
			if (p.d) p.d->open(p.path.c_str()); else if (to>=0) { p.d.reset(new UDDSocket(p.path.c_str(),P[to].path.c_str())); p.dest = to; p.destPath = P[to].path; NOTE("made with destination " << to); } else p.d.reset(new UDDSocket(p.path.c_str())); }
		p.open = true; };
	auto setDest = [&](int i, int j) { Peer &p = P[i]; if (p.udp) p.u->destination(P[j].port,src.coin()?me.c_str():"localhost"); else { p.d->destination(P[j].path.c_str()); p.destPath = P[j].path; } p.dest = j; NOTE("destination of " << i << " is " << j); };
	for (int i=0;i<N;i++) P[i].udp = i<3;
	for (int i=0;i<N;i++) openPeer(i);
	setDest(0,1); setDest(3,4);
	auto room = [&](int j, size_t len) { return P[j].in.size()<7 && (len<4000 || P[j].bytes<4000) && P[j].bytes<60000; };
	auto expectRead = [&](int i, int n, const std::string &buf, const char *how) { Peer &p = P[i]; Msg m = p.in.front(); p.in.pop_front(); p.bytes -= m.text.size(); std::string want = m.text.substr(0,MAX_UDP_LENGTH);
		PCHECK(n==(int)want.size() && buf.compare(0,n,want)==0,"message",how << " of " << i << " gave " << n << " bytes " << show(buf.substr(0,std::max(n,0))) << ", sent " << want.size() << " " << show(want));
		p.src = m.from;
		if (m.from>=0 && p.udp) PCHECK(ntohl(p.u->source()->sin_addr.s_addr)==myAddr() && ntohs(p.u->source()->sin_port)==P[m.from].port && p.u->source()->sin_family==AF_INET,"source","the recorded source is port " << ntohs(p.u->source()->sin_port) << " of " << addrText(ntohl(p.u->source()->sin_addr.s_addr)) << ", sent from " << P[m.from].port);
		if (m.from>=0 && !p.udp) PCHECK(P[m.from].path==p.d->source()->sun_path,"source","the recorded source is " << show(p.d->source()->sun_path) << ", sent from " << P[m.from].path);
		if (++delivered>=2) src.nontrivial(); };
	size_t n = 3+src.len(40);
	for (size_t k=0;k<n;k++) {
		int i = src.draw(N); Peer &p = P[i];
		switch (src.weighted({10,10,4,3,2,2,1,1,1})) {
		case 0: case 2: { // write in some form
			if (!p.open) { if (p.s()) { NOTE("write on closed " << i); PCHECK(p.s()->write("x",1)==-1,"closed-write","a write on a closed socket succeeded"); } break; }
			int form = src.weighted({4,2,2,1,2,1}); int j = -1;
			if (form<=1) j = p.dest; else if (form<=3) { j = p.udp ? src.draw(3) : 3+src.draw(2); if (!P[j].open) j = -1; } else { j = p.src; if (j<0) break; }
			std::string text; bool c = form==1 || form==3 || form==5; size_t kind = src.weighted({6,2,2,1});
			if (c) text = kind==1 ? std::string(1490+src.draw(20),'c') : src.nastyText(60);
			else if (kind==0) text = src.bytes(60); else if (kind==1) text = std::string(1495+src.draw(10),(char)src.draw(256)); else if (kind==2) text = src.bytes(3000); else { size_t l = src.coin() ? 65507 : 65508+src.draw(100); text.assign(l,'z'); text[l-1] = '!'; if (!p.udp && l>65507) break; }
			size_t len = text.size()+(c?1:0);
			if (j<0 || !P[j].open) { if (form>1) break; bool live = false; for (auto &q : P) live = live || (!p.udp && !q.udp && q.open && q.path==p.destPath); if (live) break; NOTE("write of " << len << " by " << i << " to nobody"); if (!p.udp) PCHECK(p.s()->write(text.data(),text.size())==-1,"no-peer","a write to a path nobody has succeeded"); break; }
			if (!room(j,len)) break;
			int r; struct sockaddr_in in; struct sockaddr_un un; const struct sockaddr *to = 0;
			if (form==2 || form==3) { if (p.udp) { PCHECK(resolveAddress(&in,(me+":"+std::to_string(P[j].port)).c_str()),"resolve","own address not resolved"); to = (sockaddr*)&in; } else { memset(&un,0,sizeof un); un.sun_family = AF_UNIX; strcpy(un.sun_path,P[j].path.c_str()); to = (sockaddr*)&un; } }
			char *exact = (char*)malloc(len+1); memcpy(exact,text.c_str(),text.size()); exact[text.size()] = 0;
			switch (form) { case 0: r = p.s()->write(exact,len); break; case 1: r = p.s()->write(exact); break; case 2: r = p.s()->send(to,exact,len); break; case 3: r = p.s()->send(to,exact); break; case 4: r = p.s()->writeBack(exact,len); break; default: r = p.s()->writeBack(exact); }
			free(exact);
			NOTE("form " << form << " of " << len << " bytes by " << i << " to " << j << " -> " << r);
			if (p.udp && len>65507) { PCHECK(r==-1,"too-long","a datagram of " << len << " bytes was accepted"); break; }
			PCHECK(r==(int)len,"write-result","sending " << len << " bytes returned " << r << (r==-1?strerror(errno):""));
			Msg m; m.text = c ? text+std::string(1,'\0') : text; m.from = i; P[j].in.push_back(m); P[j].bytes += len;
			break; }
		case 1: { // read
			char *b = (char*)malloc(MAX_UDP_LENGTH); struct F { char *b; ~F() { free(b); } } f = { b }; int r = -1;
			if (!p.open) { if (!p.s()) break; NOTE("read on closed " << i); bool threw = false; try { r = p.s()->read(b); } catch (SocketError&) { threw = true; } PCHECK(threw,"closed-read","a read on a closed socket returned " << r); break; }
			bool timed = src.coin(); double t0 = now();
			if (p.in.size()) { unsigned to = timed ? (src.coin()?0:1+src.draw(2000)) : 0; if (!timed && !p.nonblock && src.coin()) { r = p.s()->read(b); PCHECK(r>=0,"blocking","a blocking read returned " << r << " with a message waiting"); }
				else { do { if (timed) r = p.s()->read(b,to); else { p.s()->nonblocking(); p.nonblock = true; r = p.s()->read(b); } if (r<0) usleep(200); } while (r<0 && now()-t0<5000); PCHECK(r>=0,"lost","the message sent to " << i << " does not arrive"); }
				NOTE((timed?"timed read":"read") << " of " << i << " -> " << r); expectRead(i,r,std::string(b,std::max(r,0)),timed?"a timed read":"a read"); }
			else if (timed) { unsigned to = src.chance(1,3) ? src.draw(30) : src.draw(4); bool keepBlocking = !p.nonblock; r = p.s()->read(b,to); double el = now()-t0; NOTE("timed read of " << i << " for " << to << " ms -> " << r); (void)keepBlocking;
				PCHECK(r==-1,"invented","a timed read of " << i << " gave " << r << " bytes nobody sent"); PCHECK(el>=to-1.0,"early","a timed read of " << to << " ms returned nothing after " << el << " ms"); }
			else { if (!p.nonblock) { p.s()->nonblocking(); p.nonblock = true; } r = p.s()->read(b); NOTE("read of empty " << i << " -> " << r); PCHECK(r==-1,"invented","a read of " << i << " gave " << r << " bytes nobody sent"); }
			break; }
		case 3: if (p.open) { int j = p.udp ? src.draw(3) : 3+src.draw(2); if (P[j].open) setDest(i,j); } break;
		case 4: if (p.open) { if (src.coin()) { p.s()->nonblocking(); p.nonblock = true; } else { p.s()->blocking(); p.nonblock = false; } NOTE(i << (p.nonblock?" non-blocking":" blocking")); } break;
		case 5: { if (!p.open) break; NOTE("close " << i); p.s()->close(); p.open = false; p.in.clear(); p.bytes = 0; for (auto &q : P) { if (q.dest==i) q.dest = -1; if (q.src==i) q.src = -1; for (auto &m : q.in) if (m.from==i) m.from = -1; }
			int fd[2]; if (pipe(fd)) break; if (src.coin()) { p.u.reset(); p.d.reset(); p.dest = -1; p.destPath = ""; } else p.s()->close(); // neither may touch the pipe
			bool ok = fcntl(fd[0],F_GETFD)>=0 && fcntl(fd[1],F_GETFD)>=0; ::close(fd[0]); ::close(fd[1]); PCHECK(ok,"foreign-descriptor","closing or destroying a closed socket closed a descriptor that is not its own"); break; }
		case 6: if (!p.open) openPeer(i); else if (src.coin()) { NOTE("re-open " << i); int fd = openFds(); for (auto &q : P) { if (q.dest==i) q.dest = -1; if (q.src==i) q.src = -1; for (auto &m : q.in) if (m.from==i) m.from = -1; } p.dest = -1; openPeer(i); int fd2 = openFds(); PCHECK(fd2<=fd,"descriptor-leak","re-opening a socket left its old descriptor open"); if (P[i].udp) p.u->destination(p.port,me.c_str()); else { p.d->destination(p.path.c_str()); p.destPath = p.path; } p.dest = i; } break;
		case 7: { if (!p.open || p.in.size()) break; int j = -1; for (int q=0;q<N;q++) if (P[q].open && P[q].dest==i) j = q; if (j<0) break; p.s()->blocking(); p.nonblock = false;
			Late l; l.s = P[j].s(); l.ms = src.draw(8); l.text = src.bytes(40)+"!"; bool timed = src.coin(); NOTE("blocking " << (timed?"timed ":"") << "read of " << i << ", written after " << l.ms << " ms"); pthread_t t; if (pthread_create(&t,0,lateWriter,&l)) break;
			char *b = (char*)malloc(MAX_UDP_LENGTH); int r = timed ? p.s()->read(b,20000) : p.s()->read(b); std::string got(b,std::max(r,0)); free(b); pthread_join(t,0);
			PCHECK(r==(int)l.text.size() && got==l.text,"blocking","a blocking read returned " << r << " instead of the message written meanwhile"); p.src = j; break; }
		case 8: { size_t len = src.pick(std::vector<int>{108,109,120,200,254,255,256,300,1000,1200,3000}); std::string longp = gScratch+"/"+std::string(len,'y'); longp.resize(len); bool threw = false; NOTE("path of " << len);
			if (src.coin() && P[3].open) { try { P[3].d->destination(longp.c_str()); } catch (SocketError&) { threw = true; } if (!threw) { threw = P[3].d->write("x",1)==-1; } P[3].dest = -1; for (int j : {3,4}) if (P[j].open) { P[3].d->destination(P[j].path.c_str()); P[3].destPath = P[j].path; P[3].dest = j; } }
			else { try { UDDSocket s(longp.c_str()); } catch (SocketError&) { threw = true; } }
			PCHECK(threw,"long-path","a path of " << len << " characters was accepted"); break; }
		}
		PCHECK(gBadUnlink.empty(),"foreign-file","the socket tried to remove " << show(gBadUnlink));
	}
	for (int i=0;i<N;i++) { Peer &p = P[i]; while (p.open && p.in.size()) { char *b = (char*)malloc(MAX_UDP_LENGTH); int r = -1; try { r = p.s()->read(b,5000); } catch (...) { free(b); throw; } std::string got(b,std::max(r,0)); free(b); PCHECK(r>=0,"lost","the message sent to " << i << " does not arrive"); expectRead(i,r,got,"the last read"); } 
		if (p.open) { char *b = (char*)malloc(MAX_UDP_LENGTH); int r = p.s()->read(b,0); free(b); PCHECK(r==-1,"duplicated","socket " << i << " holds a message nobody sent (" << r << " bytes)"); } }
}
PTEST_NOFUZZ(datagrams, 4000) { int fd0 = openFds(); gZeroLeft = false; noLeakCase("leak",src,body); PCHECK(!gZeroLeft,"descriptor-leak","descriptor 0 is still open after every socket was destroyed"); int fd1 = openFds(); PCHECK(fd1<=fd0,"descriptor-leak","a descriptor is still open after every socket was destroyed"); }
PTEST(unopened, 400) { int fds[3]; for (int i=0;i<3;i++) fds[i] = dup(0); { memset(alloca(4096),src.draw(256),4096); UDDSocket s; if (src.coin()) s.destination("nowhere"); if (src.coin()) s.close(); PCHECK(s.write("x",1)==-1,"closed-write","a write on a socket never opened succeeded"); } bool ok = true; for (int i=0;i<3;i++) { ok = ok && fcntl(fds[i],F_GETFD)>=0; close(fds[i]); } PCHECK(ok && fcntl(0,F_GETFD)>=0,"foreign-descriptor","a socket never opened closed someone else's descriptor"); src.nontrivial(); }
#endif
static void resolveBody(Src &src) {
	static const char *names[] = { "host.test","other-host.test","localhost","a","v6.test","no.such.host","999.1.1.1","","host.test." };
	std::string host; if (src.coin()) { uint32_t a = src.coin() ? (uint32_t)src.draw(0) : (uint32_t)src.biased(32); host = addrText(a); } else host = names[src.draw(9)];
	unsigned port = src.coin() ? src.draw(65536) : src.biased(16); bool pair = src.coin(), noPort = pair && src.chance(1,5);
	struct sockaddr_in *out = (sockaddr_in*)malloc(sizeof *out); memset(out,0xa5,sizeof *out); struct F { void *p; ~F() { free(p); } } f = { out };
	std::string text = noPort ? host : host+":"+std::to_string(port); bool r = pair ? resolveAddress(out,text.c_str()) : resolveAddress(out,host.c_str(),port);
	uint32_t a = 0; bool v6 = false, known = lookup(host.c_str(),a,v6) && !v6 && !noPort;
	NOTE((pair?text:host+" "+std::to_string(port)) << " -> " << r);
	PCHECK(r==known,"resolve","resolving " << show(pair?text:host) << " returned " << r);
	if (r) { PCHECK(out->sin_family==AF_INET && ntohl(out->sin_addr.s_addr)==a && ntohs(out->sin_port)==port,"resolve","resolving " << show(pair?text:host) << " gave " << addrText(ntohl(out->sin_addr.s_addr)) << " port " << ntohs(out->sin_port)); src.nontrivial(); }
}
PTEST(resolve, 20000) { noLeakCase("leak",src,resolveBody); }

#include "env.h"
#include "pbt.h"
#include <time.h>
#include <sys/time.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <pthread.h>
#include <unistd.h>
namespace env {
bool virtualTime = false;
int64_t nowNs = 0, tickNs = 0;
uint64_t clockReads = 0;
void setTime(int64_t s, int64_t ns) { virtualTime = true; nowNs = s*1000000000LL+ns; tickNs = 0; }
void advanceMs(int64_t ms) { nowNs += ms*1000000LL; }
bool captureSyslog = false;
void (*onSleep)() = 0;
std::vector<Syslog> syslogs;
std::vector<Openlog> openlogs;
void (*onClock)() = 0;
static int64_t rd() { if (onClock) onClock(); clockReads++; int64_t r = nowNs; nowNs += tickNs; return r; }
}
using namespace env;
extern "C" {
time_t __real_time(time_t*); int __real_gettimeofday(struct timeval*, void*); int __real_clock_gettime(clockid_t, struct timespec*);
unsigned __real_sleep(unsigned); int __real_usleep(useconds_t); int __real_nanosleep(const struct timespec*, struct timespec*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int __real_pthread_mutex_timedlock(pthread_mutex_t*, const struct timespec*);
void __real_openlog(const char*,int,int);

time_t __wrap_time(time_t *t) { if (!virtualTime) return __real_time(t); time_t r = rd()/1000000000LL; if (t) *t = r; return r; }
int __wrap_gettimeofday(struct timeval *tv, void *tz) {
	if (!virtualTime) return __real_gettimeofday(tv,tz);
	int64_t r = rd(); tv->tv_sec = r/1000000000LL; tv->tv_usec = (r%1000000000LL)/1000; return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
	if (!virtualTime) return __real_clock_gettime(c,ts);
	int64_t r = rd(); ts->tv_sec = r/1000000000LL; ts->tv_nsec = r%1000000000LL; return 0;
}
#ifndef ENV_SCHED
unsigned __wrap_sleep(unsigned s) { if (!virtualTime) return __real_sleep(s); nowNs += s*1000000000LL; if (onSleep) onSleep(); return 0; }
int __wrap_usleep(useconds_t u) { if (!virtualTime) return __real_usleep(u); nowNs += u*1000LL; if (onSleep) onSleep(); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { if (!virtualTime) return __real_nanosleep(a,b); nowNs += a->tv_sec*1000000000LL+a->tv_nsec; if (onSleep) onSleep(); return 0; }
// One thread: nobody can signal, so a timed wait ends at its deadline.
static int expire(const struct timespec *ts) {
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L) return EINVAL;
	int64_t t = ts->tv_sec*1000000000LL+ts->tv_nsec; if (t > nowNs) nowNs = t; return ETIMEDOUT;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
	if (!virtualTime) return __real_pthread_cond_timedwait(c,m,ts);
	return expire(ts);
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
	if (!virtualTime) return __real_pthread_mutex_timedlock(m,ts);
	if (pthread_mutex_trylock(m)==0) return 0;
	return expire(ts);
}
#endif
static void vlog(int pri, const char *fmt, va_list ap) {
	if (!captureSyslog) return;
	pbt::Untracked u;
	va_list ap2; va_copy(ap2,ap); int n = vsnprintf(0,0,fmt,ap2); va_end(ap2);
	std::string s(n<0?0:n+1,0); if (n>=0) { vsnprintf(&s[0],n+1,fmt,ap); s.resize(n); }
	Syslog l = { pri, s }; syslogs.push_back(l);
}
void __wrap_syslog(int pri, const char *fmt, ...) { va_list ap; va_start(ap,fmt); vlog(pri,fmt,ap); va_end(ap); }
void __wrap___syslog_chk(int pri, int flag, const char *fmt, ...) { va_list ap; va_start(ap,fmt); vlog(pri,fmt,ap); va_end(ap); }
void __wrap_vsyslog(int pri, const char *fmt, va_list ap) { vlog(pri,fmt,ap); }
void __wrap_openlog(const char *id, int o, int f) { pbt::Untracked u; Openlog x = { id?id:"", o, f }; openlogs.push_back(x); if (openlogs.size()>100) openlogs.clear(); }
void __wrap_closelog() {}
// std::chrono clocks
int64_t __real__ZNSt6chrono3_V212system_clock3nowEv(); int64_t __real__ZNSt6chrono3_V212steady_clock3nowEv();
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return virtualTime ? rd() : __real__ZNSt6chrono3_V212system_clock3nowEv(); }
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return virtualTime ? rd() : __real__ZNSt6chrono3_V212steady_clock3nowEv(); }
#ifndef ENV_SCHED
int __real_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*);
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
	if (!virtualTime) return __real_clock_nanosleep(c,fl,a,b);
	int64_t t = a->tv_sec*1000000000LL+a->tv_nsec; if (fl & TIMER_ABSTIME) { if (t > nowNs) nowNs = t; } else nowNs += t;
	if (onSleep) onSleep(); return 0;
}
#endif
}

// For the scheduled checks: the library's database calls are places where another thread may come in between, and the
// database's own mutexes, which are real ones and belong to the one real thread there is, are backed by scheduled ones.
#include "cfg.h"
#include "ds.h"
#include <pthread.h>
extern "C" {
#define AROUND(R,N,P,A) R __real_##N P; R __wrap_##N P { ds::point(); R r = __real_##N A; ds::point(); return r; }
AROUND(int,sqlite3_prepare_v2,(sqlite3 *d, const char *q, int n, sqlite3_stmt **s, const char **t),(d,q,n,s,t))
AROUND(int,sqlite3_step,(sqlite3_stmt *s),(s))
AROUND(int,sqlite3_reset,(sqlite3_stmt *s),(s))
AROUND(int,sqlite3_changes,(sqlite3 *d),(d))
AROUND(int,sqlite3_finalize,(sqlite3_stmt *s),(s))
AROUND(int,sqlite3_exec,(sqlite3 *d, const char *q, int (*cb)(void*,int,char**,char**), void *a, char **e),(d,q,cb,a,e))
void __real_sqlite3_mutex_enter(sqlite3_mutex*); void __real_sqlite3_mutex_leave(sqlite3_mutex*); int __real_sqlite3_mutex_try(sqlite3_mutex*);
static pthread_mutex_t *backing(sqlite3_mutex *m) { ds::Quiet q; pbt::Untracked u; static std::map<sqlite3_mutex*,pthread_mutex_t> all; auto it = all.find(m); if (it==all.end()) { pthread_mutex_t p = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP; it = all.emplace(m,p).first; } return &it->second; }
void __wrap_sqlite3_mutex_enter(sqlite3_mutex *m) { if (m && ds::running()) pthread_mutex_lock(backing(m)); __real_sqlite3_mutex_enter(m); }
void __wrap_sqlite3_mutex_leave(sqlite3_mutex *m) { __real_sqlite3_mutex_leave(m); if (m && ds::running()) pthread_mutex_unlock(backing(m)); }
int __wrap_sqlite3_mutex_try(sqlite3_mutex *m) { if (m && ds::running() && pthread_mutex_trylock(backing(m))) return SQLITE_BUSY; return __real_sqlite3_mutex_try(m); }
}

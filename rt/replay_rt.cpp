// Replay runtime: drives the natively compiled harness with the values and the schedule of a counterexample.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <new>
#include <sstream>
#include <string>
#include <vector>
#include <semaphore.h>
#include <pthread.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <atomic>
#ifdef KSE_TSAN   // threads hand the token over through operations ThreadSanitizer does not see, so that the
#include <sched.h>   // enforced schedule adds no ordering of its own; the modelled synchronisation is announced explicitly
extern "C" void __tsan_acquire(void *); extern "C" void __tsan_release(void *);
extern "C" void AnnotateIgnoreReadsBegin(const char *, int); extern "C" void AnnotateIgnoreReadsEnd(const char *, int);
extern "C" void AnnotateIgnoreWritesBegin(const char *, int); extern "C" void AnnotateIgnoreWritesEnd(const char *, int);
struct quiet { quiet() { AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreWritesBegin("", 0); } ~quiet() { AnnotateIgnoreWritesEnd("", 0); AnnotateIgnoreReadsEnd("", 0); } };
#define QUIET quiet quiet_
struct token { volatile int n = 0; };
static inline void sem_init(token *, int, int) {}
static inline void sem_post(token *t) { __asm__ __volatile__("mfence" ::: "memory"); t->n = 1; }
static inline int sem_wait(token *t) { while (!t->n) sched_yield(); t->n = 0; __asm__ __volatile__("mfence" ::: "memory"); return 0; }
#define SEM token
#define TACQ(p) __tsan_acquire(p)
#define TREL(p) __tsan_release(p)
#else
#define QUIET (void)0
#define SEM sem_t
#define TACQ(p) (void)0
#define TREL(p) (void)0
#endif
#define NOI __attribute__((no_sanitize("address", "thread", "undefined")))
namespace {
std::map<std::string, uint64_t> vals; std::map<std::string, int> cnt;
std::vector<int> sched; size_t spos = 0;
std::string expectLabel;
void *lastpt; bool inited = false, trace = getenv("KSE_RTRACE");
long liveAllocs = 0;
void finish(const char *what, const char *label, int code) { fprintf(stderr, "KSE-REPLAY-%s %s\n", what, label); fflush(nullptr); _exit(code); }
void init() {
    if (inited) return; inited = true;
    const char *f = getenv("KSE_REPLAY"); if (!f) return;
    std::ifstream in(f); std::string l;
    while (std::getline(in, l)) {
        if (l.rfind("sched ", 0) == 0) { std::istringstream s(l.substr(6)); int x; while (s >> x) sched.push_back(x); }
        else if (l.rfind("input ", 0) == 0) { size_t k = l.rfind(' '); vals[l.substr(6, k - 6)] = strtoull(l.c_str() + k + 1, nullptr, 10); }
    }
}
enum St { RUN, MUTEX, COND, JOIN, DONE, SPIN, YIELD, CONDLOCK };
struct T { int id; St st = RUN; SEM sem; void *(*fn)(void *); void *arg; void *mx = nullptr, *cv = nullptr; int join = -1; bool timed = false, to = false; uint64_t dl = 0; int depth = 1; pthread_t pt; bool skip = false; std::vector<void *> acqs; };
std::vector<T *> th; int cur = 0; int atomicDepth = 0; uint64_t vclock = 1000000000ULL;
std::map<void *, int> owner, depthOf;
uint64_t freeRun = 0;
int live() { int n = 0; for (auto t : th) if (t->st != DONE) n++; return n; }
bool freeM(void *m) { auto i = owner.find(m); return i == owner.end() || i->second < 0; }
thread_local int self = 0;
void pend_acq(T *t, void *m) { if (t->id == self) TACQ(m); else t->acqs.push_back(m); }
void acq(T *t, void *m, int d) { pend_acq(t, m); owner[m] = t->id; depthOf[m] = d; }
void boot() { init(); if (th.empty()) { T *t = new T; t->id = 0; sem_init(&t->sem, 0, 0); th.push_back(t); } }
// hand the token over according to the schedule; returns when this thread holds it again
void dispatch() {
    int me = self;
    for (;;) {
        int c = -1;
        if (spos < sched.size()) c = sched[spos++];
        else { // beyond the counterexample: run anything that can run, give up after a while
            if (++freeRun > 20000) finish("HANG", "no progress", 77);
            bool any = false;
            for (int k = 1; k <= (int)th.size(); k++) { T *t = th[(cur + k) % th.size()];
                bool en = t->st == RUN || t->st == YIELD || t->st == SPIN || ((t->st == MUTEX || t->st == CONDLOCK) && freeM(t->mx)) || (t->st == JOIN && th[t->join]->st == DONE);
                if (en) { c = t->id; any = true; break; } }
            if (!any) for (auto t : th) if (t->st == COND && t->timed) { c = t->id; any = true; break; }
            if (!any) finish("HANG", "every thread is blocked", 77);
        }
        bool spur = c >= 1000; int id = c % 1000; if (id >= (int)th.size()) finish("DIVERGED", "unknown thread", 79);
        T *t = th[id];
        for (auto o : th) if (o != t && o->st == YIELD) o->st = RUN;
        cur = id;
        if (trace) fprintf(stderr, "[%zu] -> %d status %d from %p\n", spos, c, t->st, lastpt);
        switch (t->st) {
        case DONE: finish("DIVERGED", "finished thread scheduled", 79);
        case CONDLOCK: if (!freeM(t->mx)) finish("DIVERGED", "mutex busy", 79); acq(t, t->mx, t->depth); t->st = RUN; break;
        case COND: t->to = !spur; if (!spur) { if (t->dl > vclock) vclock = t->dl; vclock++; }
            if (freeM(t->mx)) { acq(t, t->mx, t->depth); t->st = RUN; } else t->st = CONDLOCK; break;
        case JOIN: if (th[t->join]->st != DONE) finish("DIVERGED", "join", 79); t->st = RUN; break;
        default: t->st = RUN;
        }
        if (t->st == RUN) break;
    }
    if (cur != me) {
        sem_post(&th[cur]->sem);
        if (th[me]->st == DONE) return;
        while (sem_wait(&th[me]->sem) != 0) {}
    }
}
void *tramp(void *p) { T *t = (T *)p; self = t->id; while (sem_wait(&t->sem) != 0) {} t->skip = true; t->fn(t->arg); QUIET; TREL(t); t->st = DONE; dispatch(); return nullptr; }
void block(St s) { th[self]->st = s; dispatch(); for (auto m : th[self]->acqs) TACQ(m); th[self]->acqs.clear(); }
}
#ifndef KSE_TSAN
extern "C" void __tsan_init() {}
#endif
extern "C" {
NOI void *kse_launder(void *p) { return p; }
NOI uint64_t kse_sym(const char *name, unsigned bits) { init(); int k = cnt[name]++; std::string n = name; if (k) n += "#" + std::to_string(k); auto i = vals.find(n); uint64_t v = i == vals.end() ? 0 : i->second; return bits >= 64 ? v : v & ((1ULL << bits) - 1); }
NOI void kse_make_symbolic(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)kse_sym(name, 8); }
NOI void kse_assume(int c) { if (!c) finish("ASSUME", "", 78); }
NOI void kse_assert(int c, const char *l) { if (!c) finish("FAIL", l, 77); }
NOI void kse_fail(const char *l) { finish("FAIL", l, 77); }
NOI void kse_reach(const char *) {}
NOI uint64_t kse_choose(unsigned n, const char *name) { init(); int k = cnt[name]++; std::string s = name; if (k) s += "#" + std::to_string(k); auto i = vals.find(s); return i == vals.end() ? 0 : i->second % n; }
NOI uint64_t kse_pick(unsigned n, const char *name) { return kse_choose(n, name); }
NOI uint64_t kse_concretize(uint64_t v) { return v; }
NOI void kse_log(const char *s, uint64_t v) { fprintf(stderr, "log: %s %lld\n", s, (long long)v); }
NOI uint64_t kse_live_allocs(void) { return liveAllocs; }
NOI int kse_symbolic(void) { return 0; }
NOI void kse_atomic_begin(void) { atomicDepth++; }
NOI void kse_atomic_end(void) { atomicDepth--; }
NOI void kse_races(int) {}
NOI void kse_set_clock(uint64_t ns) { vclock = ns; }
NOI uint64_t kse_clock(void) { return vclock++; }
NOI void kse_stop(void) { finish("DONE", "", 0); }
NOI void kse_rt_point(void) { QUIET; lastpt = __builtin_return_address(0); boot(); bool s = th[self]->skip; th[self]->skip = false; if (s || atomicDepth > 0 || live() <= 1) return; dispatch(); }
NOI void kse_visible(void) { QUIET; kse_rt_point(); }
NOI int kse_rt_pthread_create(pthread_t *p, const pthread_attr_t *, void *(*fn)(void *), void *arg) { QUIET;
    boot(); T *t = new T; t->id = (int)th.size(); t->fn = fn; t->arg = arg; sem_init(&t->sem, 0, 0); th.push_back(t); *p = (pthread_t)(t->id + 100);
    pthread_create(&t->pt, nullptr, tramp, t); return 0; }
NOI int kse_rt_pthread_join(pthread_t p, void **) { QUIET; kse_rt_point(); int id = (int)p - 100; if (id == self) return 35; while (th[id]->st != DONE) { th[self]->join = id; block(JOIN); } TACQ(th[id]); return 0; }
NOI int kse_rt_pthread_detach(pthread_t) { QUIET; return 0; }
NOI pthread_t kse_rt_pthread_self(void) { QUIET; return (pthread_t)(self + 100); }
NOI int kse_rt_pthread_equal(pthread_t a, pthread_t b) { QUIET; return a == b; }
NOI static int mkind(void *m) { return ((unsigned char *)m)[16] & 3; }
NOI int kse_rt_pthread_mutex_lock(pthread_mutex_t *m) { QUIET;
    kse_rt_point(); boot();
    auto i = owner.find(m);
    if (i != owner.end() && i->second == self) { if (mkind(m) == 1) { depthOf[m]++; return 0; } if (mkind(m) == 2) return 35; finish("HANG", "mutex locked again by its owner", 77); }
    while (!freeM(m)) { th[self]->mx = m; if (live() <= 1) finish("HANG", "mutex never released", 77); block(MUTEX); }
    acq(th[self], m, 1); return 0; }
NOI int kse_rt_pthread_mutex_trylock(pthread_mutex_t *m) { QUIET; kse_rt_point(); boot(); auto i = owner.find(m); if (i != owner.end() && i->second == self && mkind(m) == 1) { depthOf[m]++; return 0; } if (!freeM(m)) return 16; acq(th[self], m, 1); return 0; }
NOI int kse_rt_pthread_mutex_unlock(pthread_mutex_t *m) { QUIET; boot(); auto i = owner.find(m); if (i == owner.end() || i->second != self) finish("FAIL", "unlock of a mutex not held", 77); if (--depthOf[m] <= 0) { TREL(m); i->second = -1; } return 0; }
NOI int kse_rt_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { QUIET; boot(); int r = pthread_mutex_init(m, a); owner.erase(m); return r; }
NOI int kse_rt_pthread_mutex_destroy(pthread_mutex_t *m) { QUIET; boot(); auto i = owner.find(m); if (i != owner.end() && i->second >= 0) finish("FAIL", "destruction of a locked mutex", 77); owner.erase(m); return 0; }
NOI static int cwait(void *c, void *m, bool timed, uint64_t dl) { QUIET;
    boot(); T *t = th[self]; auto i = owner.find(m); if (i == owner.end() || i->second != self) finish("FAIL", "condition wait without holding the mutex", 77);
    t->cv = c; t->mx = m; t->timed = timed; t->dl = dl; t->to = false; t->depth = depthOf[m]; TREL(m); i->second = -1;
    if (live() <= 1) { if (!timed) finish("HANG", "wait on a condition nobody can signal", 77); if (++freeRun > 200) finish("HANG", "only timed waits remain", 77); if (dl > vclock) vclock = dl; vclock++; acq(t, m, t->depth); return 110; }
    block(COND); bool to = t->to; t->to = t->timed = false; return to ? 110 : 0; }
NOI int kse_rt_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { QUIET; kse_rt_point(); return cwait(c, m, false, 0); }
NOI int kse_rt_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { QUIET; kse_rt_point(); return cwait(c, m, true, t->tv_sec * 1000000000ULL + t->tv_nsec); }
NOI int kse_rt_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) { QUIET; kse_rt_point(); return cwait(c, m, true, t->tv_sec * 1000000000ULL + t->tv_nsec); }
NOI int kse_rt_pthread_cond_signal(pthread_cond_t *c) { QUIET;
    kse_rt_point(); boot(); std::vector<T *> w; for (auto t : th) if (t->st == COND && t->cv == c) w.push_back(t);
    if (w.empty()) return 0; T *p = w[0]; if (w.size() > 1 && spos < sched.size()) { int id = sched[spos++] - 2000; for (auto t : w) if (t->id == id) p = t; }
    p->st = CONDLOCK; return 0; }
NOI int kse_rt_pthread_cond_broadcast(pthread_cond_t *c) { QUIET; kse_rt_point(); boot(); for (auto t : th) if (t->st == COND && t->cv == c) t->st = CONDLOCK; return 0; }
NOI int kse_rt_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { QUIET; return 0; }
NOI int kse_rt_pthread_cond_destroy(pthread_cond_t *c) { QUIET; boot(); for (auto t : th) if (t->st == COND && t->cv == c) finish("FAIL", "destruction of a condition variable with waiters", 77); return 0; }
NOI static int yld(uint64_t ns, bool visible) { QUIET; boot(); if (visible) kse_rt_point(); vclock += ns ? ns : 1; if (live() > 1) { block(YIELD); th[self]->skip = true; } return 0; }
NOI int kse_rt_sched_yield(void) { QUIET; return yld(0, false); }
NOI void kse_yield(void) { yld(0, true); }
NOI int kse_rt_nanosleep(const struct timespec *t, struct timespec *) { return yld(t->tv_sec * 1000000000ULL + t->tv_nsec, false); }
NOI int kse_rt_clock_nanosleep(clockid_t, int, const struct timespec *t, struct timespec *) { return yld(t->tv_sec * 1000000000ULL + t->tv_nsec, false); }
NOI int kse_rt_usleep(unsigned u) { return yld(u * 1000ULL, false); }
NOI unsigned kse_rt_sleep(unsigned s) { return yld(s * 1000000000ULL, false); }
NOI int kse_rt_clock_gettime(clockid_t, struct timespec *ts) { QUIET; uint64_t c = kse_clock(); ts->tv_sec = c / 1000000000ULL; ts->tv_nsec = c % 1000000000ULL; return 0; }
void kse_main_entry(void);
NOI void *kse_rt__Znwm(size_t n) { liveAllocs++; return ::operator new(n); }
NOI void *kse_rt__Znam(size_t n) { liveAllocs++; return ::operator new[](n); }
NOI void *kse_rt__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t &) { liveAllocs++; return ::operator new(n); }
NOI void *kse_rt__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t &) { liveAllocs++; return ::operator new[](n); }
NOI void *kse_rt__ZnwmSt11align_val_t(size_t n, std::align_val_t a) { liveAllocs++; return ::operator new(n, a); }
NOI void *kse_rt__ZnamSt11align_val_t(size_t n, std::align_val_t a) { liveAllocs++; return ::operator new[](n, a); }
NOI void kse_rt__ZdlPv(void *p) { if (p) liveAllocs--; ::operator delete(p); }
NOI void kse_rt__ZdlPvm(void *p, size_t) { if (p) liveAllocs--; ::operator delete(p); }
NOI void kse_rt__ZdaPv(void *p) { if (p) liveAllocs--; ::operator delete[](p); }
NOI void kse_rt__ZdaPvm(void *p, size_t) { if (p) liveAllocs--; ::operator delete[](p); }
NOI void kse_rt__ZdlPvSt11align_val_t(void *p, std::align_val_t a) { if (p) liveAllocs--; ::operator delete(p, a); }
NOI void kse_rt__ZdlPvmSt11align_val_t(void *p, size_t, std::align_val_t a) { if (p) liveAllocs--; ::operator delete(p, a); }
NOI void kse_rt__ZdaPvSt11align_val_t(void *p, std::align_val_t a) { if (p) liveAllocs--; ::operator delete[](p, a); }
NOI void kse_rt__ZdaPvmSt11align_val_t(void *p, size_t, std::align_val_t a) { if (p) liveAllocs--; ::operator delete[](p, a); }
NOI void kse_rt__ZdlPvRKSt9nothrow_t(void *p, const std::nothrow_t &) { if (p) liveAllocs--; ::operator delete(p); }
}
#ifndef KSE_NO_NEW
#endif
int main() { boot(); kse_main_entry(); finish("DONE", "", 0); }

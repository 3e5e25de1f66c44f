// std::thread, std::condition_variable and the clocks on top of pthread calls (symbolic runs and replays).
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <chrono>
#include <condition_variable>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <unordered_map>
#include <atomic>
#include <string.h>
#include <exception>
#include <pthread.h>
#include <time.h>
#include "kse_rt.h"

// ---- chrono
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((int64_t)kse_clock())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration((int64_t)kse_clock())); }
}}}
namespace std {
// ---- threads
thread::_State::~_State() {}
static void *kse_thread_entry(void *p) { std::unique_ptr<thread::_State> s((thread::_State *)p); s->_M_run(); return nullptr; }
void thread::_M_start_thread(_State_ptr st, void (*)()) { pthread_t t; pthread_create(&t, nullptr, &kse_thread_entry, st.get()); st.release(); _M_id = id(t); }
void __throw_system_error(int);
void thread::join() { int e = 22; if (_M_id != id()) e = pthread_join(_M_id._M_thread, nullptr); if (e) __throw_system_error(e); _M_id = id(); }
void thread::detach() { int e = 22; if (_M_id != id()) e = pthread_detach(_M_id._M_thread); if (e) __throw_system_error(e); _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 4; }
namespace this_thread { void __sleep_for(chrono::seconds s, chrono::nanoseconds n) { struct timespec ts = {(time_t)s.count(), (long)n.count()}; nanosleep(&ts, nullptr); } }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() { pthread_cond_destroy(_M_cond.native_handle()); }
void condition_variable::wait(unique_lock<mutex> &l) { pthread_cond_wait(_M_cond.native_handle(), l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal(_M_cond.native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(_M_cond.native_handle()); }
}

// ---- read-write locks, timed locks and atomic shared pointers, made from the primitives the engine and the replay know
namespace {
struct kse_rw { std::atomic<int> state; int pad; char m[40]; char c[8]; }; // state: readers, or -1 for a writer; the condition is known by its address
static_assert(sizeof(kse_rw) <= sizeof(pthread_rwlock_t), "");
bool kse_rd_try(kse_rw *r) { int s = r->state.load(std::memory_order_relaxed); while (s >= 0) if (r->state.compare_exchange_strong(s, s + 1, std::memory_order_acquire, std::memory_order_relaxed)) return true; return false; }
bool kse_wr_try(kse_rw *r) { int s = 0; return r->state.compare_exchange_strong(s, -1, std::memory_order_acquire, std::memory_order_relaxed); }
template<class F> int kse_rw_lock(kse_rw *r, F take)
{
    if (take(r)) return 0;
    pthread_mutex_lock((pthread_mutex_t *) r->m);
    while (!take(r)) pthread_cond_wait((pthread_cond_t *) r->c, (pthread_mutex_t *) r->m);
    pthread_mutex_unlock((pthread_mutex_t *) r->m);
    return 0;
}
}
extern "C" {
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return kse_rw_lock((kse_rw *) l, kse_rd_try); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return kse_rw_lock((kse_rw *) l, kse_wr_try); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return kse_rd_try((kse_rw *) l) ? 0 : 16; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return kse_wr_try((kse_rw *) l) ? 0 : 16; }
int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
    kse_rw *r = (kse_rw *) l;
    if (r->state.load(std::memory_order_relaxed) < 0) r->state.store(0, std::memory_order_release); else r->state.fetch_sub(1, std::memory_order_release);
    pthread_mutex_lock((pthread_mutex_t *) r->m);
    pthread_cond_broadcast((pthread_cond_t *) r->c);
    pthread_mutex_unlock((pthread_mutex_t *) r->m);
    return 0;
}
static int kse_until(pthread_mutex_t *m, const struct timespec *t)
{
    if (pthread_mutex_trylock(m) == 0) return 0;
    struct timespec now, d;
    clock_gettime(CLOCK_MONOTONIC, &now);
    d.tv_sec = t->tv_sec - now.tv_sec; d.tv_nsec = t->tv_nsec - now.tv_nsec;
    if (d.tv_nsec < 0) { d.tv_sec--; d.tv_nsec += 1000000000; }
    if (d.tv_sec >= 0) nanosleep(&d, nullptr);
    return pthread_mutex_trylock(m) == 0 ? 0 : 110;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { return kse_until(m, t); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *t) { return kse_until(m, t); }
}
static pthread_mutex_t kse_sp_mutex = PTHREAD_MUTEX_INITIALIZER;
namespace std {
_Sp_locker::_Sp_locker(const void *) noexcept { _M_key1 = _M_key2 = 0; pthread_mutex_lock(&kse_sp_mutex); }
_Sp_locker::_Sp_locker(const void *, const void *) noexcept { _M_key1 = _M_key2 = 0; pthread_mutex_lock(&kse_sp_mutex); }
_Sp_locker::~_Sp_locker() { pthread_mutex_unlock(&kse_sp_mutex); }
}

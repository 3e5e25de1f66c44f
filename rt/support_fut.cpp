// std::future, std::packaged_task, std::promise and std::call_once: the parts without IR (symbolic runs only).
#include <future>
#include <mutex>
#include <string>
#include <system_error>
#include <pthread.h>
namespace std {
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
namespace {
struct kse_category : error_category { const char *name() const noexcept override { return "future"; } string message(int) const override { return string("future error"); } };
const kse_category category;
}
const error_category &future_category() noexcept { return category; }
future_error::~future_error() noexcept {}
const char *future_error::what() const noexcept { return "std::future_error"; }
void __throw_future_error(int i) { throw future_error(make_error_code(future_errc(i))); }
__thread void *__once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds)
{
    if (timed) { bool same = __atomic_load_n(a, __ATOMIC_ACQUIRE) == v; if (same) this_thread::yield(); return __atomic_load_n(a, __ATOMIC_ACQUIRE) != v; }
    while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == v) {}
    return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned *a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds n) { return _M_futex_wait_until(a, v, timed, s, n); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *) {}
}
extern "C" int pthread_once(pthread_once_t *o, void (*f)())
{
    // 0: not run, 1: running, 2: done
    for (;;) {
        int e = 0;
        if (__atomic_compare_exchange_n((int *) o, &e, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
            try { f(); } catch (...) { __atomic_store_n((int *) o, 0, __ATOMIC_RELEASE); throw; }
            __atomic_store_n((int *) o, 2, __ATOMIC_RELEASE);
            return 0;
        }
        if (e == 2) return 0;
        while (__atomic_load_n((int *) o, __ATOMIC_ACQUIRE) == 1) {}
    }
}

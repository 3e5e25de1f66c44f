// C09: the lock-free stack; C10: the smart object pool.
//! libs: -lpthread
#include "kse_rt.h"
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <spdlog/spdlog.h>
#include <klepsydra/core/lock_free_stack.h>
// gcc accepts std::exception("text") in the pool's unsupported operations, clang does not
namespace std { struct kse_exception : exception { kse_exception(const char *) {} }; }
#define exception kse_exception
#include <klepsydra/core/smart_object_pool.h>
#undef exception
using kpsr::LockFreeStack;
using kpsr::SmartObjectPool;

namespace {
struct item { int64_t v = -7; int id = -1; };
const int MAXN = 4;

// takes the initial elements out, each exactly once
template<class S> void drain(S &s, int n)
{
    bool seen[MAXN] = {};
    for (int i = 0; i < n; i++) {
        item x;
        CHECK(s.pop(x), "a new stack holds as many elements as its capacity");
        CHECK(x.id >= 0 && x.id < n && !seen[x.id], "every element is initialised once and handed out once");
        seen[x.id] = true;
    }
}
}

//! harness: stack_history
//! prop: C09
//! bounds: capacity 1..4, 5 (thorough 7) pushes and pops of arbitrary values in any order from an empty, partly filled or full stack
//! outside: capacities above 4; more than 65535 elements; longer histories
//! reach: refused empty wrapped
HARNESS(stack_history)
{
    int n = 1 + (int) kse_pick(MAXN, "capacity"), inits = 0;
    LockFreeStack<item> s(n, [&](item &x) { x.id = inits++; });
    CHECK(inits == n, "every element is initialised once");
    drain(s, n);
    int64_t model[MAXN];
    int size = 0;
    int pre = (int) kse_pick(n + 1, "pushed first");
    for (int i = 0; i < pre; i++) { item x; x.v = sym_i64("v"); CHECK(s.push(x), "a stack with room accepts an element"); model[size++] = x.v; }
    for (int k = 0; k < (KSE_THOROUGH ? 7 : 5); k++) {
        item x;
        if (kse_pick(2, "operation")) {
            int64_t old = x.v = sym_i64("v");
            bool ok = s.pop(x);
            CHECK(ok == (size > 0), "a pop succeeds exactly when the stack is not empty");
            if (ok) CHECK(x.v == model[--size], "a pop returns the last element pushed");
            else { CHECK(x.v == old, "a refused pop leaves its argument alone"); REACH("empty"); }
        } else {
            x.v = sym_i64("v");
            bool ok = s.push(x);
            CHECK(ok == (size < n), "a push succeeds exactly when there is room");
            if (ok) { model[size++] = x.v; if (k > 2) REACH("wrapped"); } else REACH("refused");
        }
    }
    while (size > 0) { item x; CHECK(s.pop(x) && x.v == model[--size], "the remaining elements come out in reverse order"); }
    item x;
    CHECK(!s.pop(x), "an emptied stack is empty");
}
//! harness: stack_move_only
//! prop: C09
//! bounds: capacity 1..3, owning elements; a refused push keeps the caller's element; nothing leaks or is freed twice
//! reach: refused
HARNESS(stack_move_only)
{
    uint64_t before = kse_live_allocs();
    {
        int n = 1 + (int) kse_pick(3, "capacity");
        int64_t k = 0;
        LockFreeStack<std::unique_ptr<int64_t>> s(n, [&](std::unique_ptr<int64_t> &x) { x.reset(new int64_t(k++)); });
        std::unique_ptr<int64_t> extra(new int64_t(99)), got;
        CHECK(!s.push(std::move(extra)), "a push to a full stack is refused");
        CHECK(extra && *extra == 99, "a refused push leaves the element with the caller");
        REACH("refused");
        CHECK(s.pop(got) && got, "a full stack hands out an element");
        CHECK(s.push(std::move(extra)) && !extra, "an accepted push takes the element");
        std::unique_ptr<int64_t> again;
        CHECK(s.pop(again) && again && *again == 99, "the pushed element comes back");
        if (kse_pick(2, "put back")) CHECK(s.push(std::move(got)), "there is room again");
    }
    CHECK(kse_live_allocs() == before, "a stack frees everything it holds exactly once");
}

namespace {
void exchange(int n, int threads, int rounds)
{
    int inits = 0;
    LockFreeStack<item> s(n, [&](item &x) { x.id = inits++; });
    int64_t tag = sym_i64("tag");
    auto work = [&](int me) {
        for (int r = 0; r < rounds; r++) {
            item x;
            if (!s.pop(x)) { REACH("empty"); continue; }
            CHECK(x.id >= 0 && x.id < n, "only elements of the stack are handed out");
            x.v = tag + me;
            CHECK(s.push(x), "an element taken out can always be put back");
            REACH("exchanged");
        }
    };
    std::vector<std::thread> t;
    for (int i = 1; i < threads; i++) t.emplace_back(work, i);
    work(0);
    for (auto &x : t) x.join();
    drain(s, n);
    item x;
    CHECK(!s.pop(x), "no element appears twice");
}
}
//! harness: stack_threads
//! prop: C09
//! bounds: capacity 2, 2 threads popping and pushing back twice each; at most 3 (thorough 5) preemptions
//! opts: --pb=3
//! thorough-opts: --pb=5
//! thorough-time: 1200
//! reach: exchanged
HARNESS(stack_threads) { exchange(2, 2, 2); }
//! harness: stack_threads_one
//! prop: C09
//! bounds: capacity 1, 2 threads popping and pushing back twice each; at most 4 (thorough: all) preemptions
//! opts: --pb=4
//! thorough-opts: --pb=-1
//! thorough-time: 1200
//! reach: exchanged empty
HARNESS(stack_threads_one) { exchange(1, 2, 2); }
//! harness: stack_threads_three
//! prop: C09
//! bounds: capacity 2, 3 threads popping and pushing back once each; at most 2 (thorough 4) preemptions
//! opts: --pb=2
//! thorough-opts: --pb=4
//! thorough-time: 1200
//! reach: exchanged
HARNESS(stack_threads_three) { exchange(2, 3, 1); }
//! harness: stack_aba
//! prop: C09
//! bounds: capacity 3; one thread pops once while another pops two elements and pushes the first back (then the second), all interleavings
//! opts: --pb=-1
//! reach: done
HARNESS(stack_aba)
{
    int inits = 0;
    LockFreeStack<item> s(3, [&](item &x) { x.id = inits++; });
    item mine;
    bool got = false;
    std::thread t([&] { got = s.pop(mine); });
    item a, b;
    CHECK(s.pop(a) && s.pop(b), "two of three elements can be taken");
    CHECK(a.id != b.id, "two takes return different elements");
    CHECK(s.push(a), "an element can be put back");
    bool second = kse_pick(2, "second push");
    if (second) CHECK(s.push(b), "an element can be put back");
    t.join();
    CHECK(got, "an element is always left for the other thread");
    CHECK(second || mine.id != b.id, "an element in use is not handed out again");
    bool seen[3] = {};
    seen[mine.id] = true;
    if (!second) seen[b.id] = true;
    item x;
    int left = 0;
    while (s.pop(x)) { CHECK(left < 3 && x.id >= 0 && x.id < 3 && !seen[x.id], "every element exists exactly once"); seen[x.id] = true; left++; }
    CHECK(left == (second ? 2 : 1), "no element is lost");
    REACH("done");
}

namespace {
struct obj { // counts constructions and destructions of pooled objects
    static int born, dead;
    int64_t v = 5;
    int users = 0;
    obj() { born++; }
    ~obj() { dead++; }
};
int obj::born = 0, obj::dead = 0;
typedef SmartObjectPool<obj> pool_t;
}
//! harness: pool_history
//! prop: C10
//! bounds: pool of 1..3 objects, 4 (thorough 6) acquisitions and releases in any order, then the pool or the held objects go first
//! reach: exhausted outlived reused
HARNESS(pool_history)
{
    obj::born = obj::dead = 0;
    uint64_t before = kse_live_allocs();
    {
        int n = 1 + (int) kse_pick(3, "size"), inits = 0, finals = 0, fails = 0;
        int64_t mark = sym_i64("mark");
        std::unique_ptr<pool_t> p(new pool_t("p", n, [&](obj &o) { inits++; o.v = mark; }, [&](obj &) { finals++; }));
        CHECK(obj::born == n && inits == n, "every object is created and initialised once");
        std::vector<pool_t::ptr_type> held;
        for (int i = 0; i < n; i++) { held.push_back(p->acquire()); }
        for (auto &h : held) h.reset();
        obj *seen[3] = {};
        int out = 0, distinct = 0;
        for (int k = 0; k < (KSE_THOROUGH ? 6 : 4); k++) {
            if (kse_pick(2, "operation") == 0) {
                bool threw = false;
                pool_t::ptr_type x(nullptr, held[0].get_deleter());
                try { x = p->acquire(); } catch (const std::out_of_range &) { threw = true; }
                CHECK(threw == (out == n), "an acquisition fails exactly when every object is in use");
                if (threw) { fails++; REACH("exhausted"); continue; }
                CHECK(x != nullptr, "an acquisition returns an object");
                for (int i = 0; i < n; i++) CHECK(held[i] == nullptr || held[i] != x, "an object has one holder at a time");
                int j = 0;
                while (j < distinct && seen[j] != x.get()) j++;
                if (j == distinct) { CHECK(distinct < n, "only the pool's objects are handed out"); seen[distinct++] = x.get(); CHECK(x->v == mark, "objects are handed out initialised"); }
                else REACH("reused");
                for (int i = 0; i < n; i++) if (!held[i]) { held[i] = std::move(x); break; }
                out++;
            } else {
                int i = (int) kse_pick(n, "which");
                if (held[i]) { held[i].reset(); out--; }
            }
            CHECK(obj::born == n && obj::dead == 0, "objects are neither created nor destroyed while the pool lives");
            CHECK(p->objectPoolFails == fails, "failed acquisitions are counted");
        }
        if (kse_pick(2, "order")) {
            p.reset();
            CHECK(finals == n - out && obj::dead == n - out, "a pool finalises and destroys exactly the objects it holds");
            if (out) REACH("outlived");
            for (auto &h : held) { if (h) CHECK(h->v == mark, "an object outlives its pool while it is held"); h.reset(); }
        } else {
            for (auto &h : held) h.reset();
            p.reset();
            CHECK(finals == n, "a pool finalises every object once");
        }
        CHECK(obj::dead == n, "every object is destroyed exactly once");
    }
    CHECK(kse_live_allocs() == before, "a pool leaks nothing");
}
namespace {
void pool_users(int n, int threads, int rounds)
{
    obj::born = obj::dead = 0;
    int fails[3] = {};
    {
        pool_t p("p", n);
        int64_t base = sym_i64("base");
        auto work = [&](int me) {
            for (int r = 0; r < rounds; r++) {
                try {
                    auto x = p.acquire();
                    CHECK(++x->users == 1, "an object is never used by two holders at once");
                    x->v = base + me;
                    CHECK(x->v == base + me, "a holder's object is its own");
                    --x->users;
                    REACH("used");
                } catch (const std::out_of_range &) { fails[me]++; REACH("exhausted"); }
            }
        };
        std::vector<std::thread> t;
        for (int i = 1; i < threads; i++) t.emplace_back(work, i);
        work(0);
        for (auto &x : t) x.join();
        CHECK(threads > n || fails[0] + fails[1] + fails[2] == 0, "an acquisition cannot fail while there are objects for everyone");
        CHECK(p.objectPoolFails == fails[0] + fails[1] + fails[2], "every failed acquisition is counted");
        std::vector<pool_t::ptr_type> all;
        for (int i = 0; i < n; i++) {
            all.push_back(p.acquire());
            CHECK(all.back()->users == 0, "every released object is back in the pool");
        }
    }
    CHECK(obj::born == n && obj::dead == n, "every object is created and destroyed once");
}
}
//! harness: pool_threads
//! prop: C10
//! bounds: pool of 1 object, 2 threads acquiring and releasing twice; at most 3 (thorough 5) preemptions
//! opts: --pb=3
//! thorough-opts: --pb=5
//! thorough-time: 1200
//! reach: used exhausted
HARNESS(pool_threads) { pool_users(1, 2, 2); }
//! harness: pool_threads_enough
//! prop: C10
//! bounds: pool of 2 objects, 2 threads acquiring and releasing twice; at most 2 (thorough 4) preemptions
//! opts: --pb=2
//! thorough-opts: --pb=4
//! thorough-time: 1200
//! reach: used
HARNESS(pool_threads_enough) { pool_users(2, 2, 2); }
//! harness: pool_threads_starved
//! prop: C10
//! bounds: pool of 1 object, 3 threads acquiring and releasing once; at most 2 (thorough 4) preemptions
//! opts: --pb=2
//! thorough-opts: --pb=4
//! thorough-time: 1200
//! reach: used exhausted
HARNESS(pool_threads_starved) { pool_users(1, 3, 1); }

// C11: the blocking queue used by one thread; C12: the blocking queue shared by threads.
//! libs: -lpthread
#include "kse_rt.h"
#include <sys/types.h>
#include <chrono>
#include <memory>
#include <thread>
#include <vector>
#include <klepsydra/mem_core/safe_queue.h>
using kpsr::mem::SafeQueue;

namespace {
struct item { // remembers what it carries; a moved-from item is marked
    int64_t v = 0;
    item() {}
    item(int64_t x) : v(x) {}
};
typedef SafeQueue<item> queue_t;
const int MAXN = 8;
struct model_t {
    uint32_t limit;
    int n = 0;
    int64_t v[MAXN];
    bool room() const { return limit == 0 || (uint32_t) n < limit; }
    void put(int64_t x) { v[n++] = x; }
    int64_t take() { int64_t x = v[0]; for (int i = 1; i < n; i++) v[i - 1] = v[i]; n--; return x; }
};
void observe(const queue_t &q, const model_t &m)
{
    CHECK(q.size() == (size_t) m.n, "the size is the number of items");
    CHECK(q.empty() == (m.n == 0), "a queue is empty when it has no items");
    CHECK(q.full() == !m.room(), "a queue is full when it holds as many items as its limit, never without a limit");
}
void drain(queue_t &q, model_t &m)
{
    item x;
    while (m.n) { CHECK(q.try_pop(x), "no item is lost"); CHECK(x.v == m.take(), "items come out in the order they went in"); }
    CHECK(!q.try_pop(x), "no item is duplicated");
}
bool putAny(queue_t &q, model_t &m, int kind)
{
    int64_t v = sym_i64("v");
    item x(v);
    bool room = m.room();
    if (kind < 3 && !room) return false; // it would block
    switch (kind) {
    case 0: CHECK(q.push(x), "an accepted push says so"); break;
    case 1: CHECK(q.push(item(v)), "an accepted push says so"); break;
    case 2: CHECK(q.move_push(x), "an accepted push says so"); break;
    case 3: CHECK(q.try_push(x) == room, "a non-blocking push succeeds exactly when there is room"); break;
    case 4: CHECK(q.try_push(item(v)) == room, "a non-blocking push succeeds exactly when there is room"); break;
    case 5: CHECK(q.try_move_push(x) == room, "a non-blocking push succeeds exactly when there is room"); break;
    default: {
        unsigned gone = 0;
        while (!m.room()) { m.take(); gone++; }
        CHECK(q.force_move_push(x) == gone, "a forced push reports how many of the oldest items it discarded");
        if (gone) REACH("forced");
        room = true;
    }
    }
    if (room) m.put(v); else REACH("refused");
    return true;
}
bool getAny(queue_t &q, model_t &m, int kind)
{
    int64_t old = sym_i64("o");
    item x(old);
    bool has = m.n > 0, got = true;
    if (kind < 2 && !has) return false; // it would block
    uint64_t t = kind < 4 ? 0 : kse_choose(2, "timeout") ? 7 : 0, t0 = kse_clock();
    switch (kind) {
    case 0: q.pop(x); break;
    case 1: q.move_pop(x); break;
    case 2: got = q.try_pop(x); break;
    case 3: got = q.try_move_pop(x); break;
    case 4: got = q.timeout_pop(x, t); break;
    default: got = q.timeout_move_pop(x, t); break;
    }
    uint64_t waited = kse_clock() - t0;
    CHECK(got == has, "a take succeeds exactly when there is an item");
    if (got) CHECK(x.v == m.take(), "a take returns the oldest item");
    else { CHECK(x.v == old, "a failed take leaves its argument alone"); REACH("nothing"); }
    if (!has && t) { CHECK(waited >= t * 1000, "a timed take waits for its whole timeout"); REACH("timeout"); }
    if (has || !t) CHECK(waited < 1000, "a take does not wait when it need not");
    else CHECK(waited < t * 1000 + 1000, "a timed take gives up when its timeout ends");
    return true;
}
}

//! harness: queue_history
//! prop: C11
//! bounds: any 32-bit limit, up to 2 items before, 3 (thorough 4) operations of every kind with arbitrary values
//! outside: longer histories; element types whose moves throw
//! reach: forced refused nothing timeout
//! thorough-time: 900
HARNESS(queue_history)
{
    model_t m;
    m.limit = sym_u32("limit");
    queue_t q(m.limit);
    observe(q, m);
    int pre = (int) kse_choose(3, "items before");
    for (int i = 0; i < pre; i++) if (!putAny(q, m, 3)) return;
    for (int k = 0; k < (KSE_THOROUGH ? 4 : 3); k++) {
        int op = (int) kse_choose(14, "operation");
        if (op < 7) { if (!putAny(q, m, op)) return; }
        else if (op < 13) { if (!getAny(q, m, op - 7)) return; }
        else { m.limit = sym_u32("new limit"); q.set_max_num_items(m.limit); REACH("limit changed"); }
        observe(q, m);
    }
    drain(q, m);
}
//! harness: queue_values
//! prop: C11
//! bounds: two queues of any limits with up to 2 items each; one swap, assignment, copy or move; then one more push on each
//! reach: swap copied moved
HARNESS(queue_values)
{
    model_t ma, mb;
    ma.limit = sym_u32("limit a"); mb.limit = sym_u32("limit b");
    queue_t a(ma.limit), b(mb.limit);
    int na = (int) kse_pick(3, "items of a"), nb = (int) kse_pick(3, "items of b");
    for (int i = 0; i < na; i++) putAny(a, ma, 3);
    for (int i = 0; i < nb; i++) putAny(b, mb, 3);
    auto contents = [](model_t &x, const model_t &y) { x.n = y.n; for (int i = 0; i < y.n; i++) x.v[i] = y.v[i]; };
    switch (kse_pick(8, "operation")) {
    case 0: { a.swap(b); model_t t = ma; contents(ma, mb); contents(mb, t); REACH("swap"); break; }
    case 1: { swap(a, b); model_t t = ma; contents(ma, mb); contents(mb, t); break; }
    case 2: a.swap(a); break;
    case 3: a = b; contents(ma, mb); break;
    case 4: { queue_t &r = a; a = r; break; }
    case 5: a = std::move(b); contents(ma, mb); mb.n = (int) b.size(); CHECK(mb.n == 0, "moving empties the source"); break;
    case 6: { queue_t c(b); model_t mc = mb; observe(c, mc); putAny(c, mc, 3); drain(c, mc); REACH("copied"); break; }
    default: { queue_t c(std::move(b)); model_t mc = mb; observe(c, mc); putAny(c, mc, 3); drain(c, mc); mb.n = (int) b.size(); CHECK(mb.n == 0, "moving empties the source"); REACH("moved"); break; }
    }
    observe(a, ma); observe(b, mb);
    putAny(a, ma, 3); putAny(b, mb, 3);
    drain(a, ma); drain(b, mb);
}
//! harness: queue_owning
//! prop: C11
//! bounds: shared items through every pair of push and take; nothing leaks and a taken or discarded item is let go
//! reach: done
HARNESS(queue_owning)
{
    uint64_t before = kse_live_allocs();
    {
        SafeQueue<std::shared_ptr<int64_t>> q(2);
        auto p = std::make_shared<int64_t>(sym_i64("v")), o = std::make_shared<int64_t>(3);
        for (int i = 0; i < 3; i++) switch (i < 2 ? (int) kse_pick(4, "push") : 3) {
            case 0: q.push(i ? o : p); break;
            case 1: q.try_push(i ? o : p); break;
            case 2: q.move_push(i ? o : p); break;
            default: q.force_move_push(i ? o : p); break;
        }
        CHECK(p.use_count() == 1, "a discarded item is let go");
        std::shared_ptr<int64_t> x;
        switch (kse_pick(4, "take")) { case 0: q.pop(x); break; case 1: q.move_pop(x); break; case 2: q.try_move_pop(x); break; default: q.timeout_move_pop(x, 5); }
        CHECK(x == o && o.use_count() == 3, "a taken item leaves the queue");
        REACH("done");
    }
    CHECK(kse_live_allocs() == before, "a queue frees everything it holds");
}

namespace {
void put(queue_t &q, int64_t v, int kind)
{
    item x(v);
    switch (kind) { case 0: q.push(x); break; case 1: q.push(item(v)); break; default: q.move_push(x); }
}
int64_t get(queue_t &q, int kind)
{
    item x;
    if (kind == 0) q.pop(x); else if (kind == 1) q.move_pop(x);
    else while (!(kind == 2 ? q.timeout_pop(x, 50) : q.timeout_move_pop(x, 50))) REACH("timed out");
    return x.v;
}
}
//! harness: queue_handoff
//! prop: C12
//! bounds: limit 1 or 2, one producer of 3 items, one consumer, every kind of blocking push and take, all interleavings, up to 1 spurious wake-up and 1 early timeout
//! opts: --pb=-1 --spurious=1 --timeouts=1
//! thorough-opts: --pb=-1 --spurious=2 --timeouts=2
//! reach: done
HARNESS(queue_handoff)
{
    queue_t q(1 + (unsigned) kse_pick(2, "limit"));
    int64_t base = sym_i64("base");
    int pk = (int) kse_pick(3, "push"), gk = (int) kse_pick(4, "take");
    std::thread t([&] { for (int i = 0; i < 3; i++) put(q, base + i, pk); });
    for (int i = 0; i < 3; i++) CHECK(get(q, gk) == base + i, "items of one producer arrive once, in order");
    t.join();
    CHECK(q.empty(), "no item is duplicated");
    REACH("done");
}
//! harness: queue_wakes_consumers
//! prop: C12
//! bounds: two consumers blocked on an empty queue without limit; two items arrive by any two kinds of push, also non-blocking and forced ones; at most 2 (thorough: all) preemptions
//! opts: --pb=2
//! thorough-opts: --pb=-1
//! reach: done
HARNESS(queue_wakes_consumers)
{
    queue_t q(0);
    int64_t base = sym_i64("base"), got[2];
    int kind = (int) kse_concretize(kse_pick(2, "take"));
    std::thread a([&] { got[0] = get(q, 0) - base; }), b([&] { got[1] = get(q, kind) - base; });
    for (int i = 0; i < 2; i++) {
        item x(base + i);
        switch ((int) kse_concretize(kse_pick(7, "push"))) {
        case 0: q.push(x); break;
        case 1: q.push(item(base + i)); break;
        case 2: q.move_push(x); break;
        case 3: q.try_push(x); break;
        case 4: q.try_push(item(base + i)); break;
        case 5: q.try_move_push(x); break;
        default: q.force_move_push(x); break;
        }
    }
    a.join(); b.join();
    CHECK(got[0] + got[1] == 1 && got[0] >= 0 && got[1] >= 0 && q.empty(), "every item arrives exactly once");
    REACH("done");
}
//! harness: queue_wakes_producers
//! prop: C12
//! bounds: two producers blocked on a full queue of limit 2; two items leave by any two kinds of take, also non-blocking and timed ones; at most 2 (thorough: all) preemptions
//! opts: --pb=2
//! thorough-opts: --pb=-1
//! reach: done
HARNESS(queue_wakes_producers)
{
    queue_t q(2);
    int64_t base = sym_i64("base");
    int kind = (int) kse_concretize(kse_pick(3, "push"));
    put(q, base, 0); put(q, base + 1, 0);
    std::thread a([&] { put(q, base + 10, 0); }), b([&] { put(q, base + 11, kind); });
    for (int i = 0; i < 2; i++) {
        item x;
        switch ((int) kse_concretize(kse_pick(6, "take"))) {
        case 0: q.pop(x); break;
        case 1: q.move_pop(x); break;
        case 2: CHECK(q.try_pop(x), "a take succeeds when there is an item"); break;
        case 3: CHECK(q.try_move_pop(x), "a take succeeds when there is an item"); break;
        case 4: CHECK(q.timeout_pop(x, 5), "a take succeeds when there is an item"); break;
        default: CHECK(q.timeout_move_pop(x, 5), "a take succeeds when there is an item"); break;
        }
        CHECK(x.v == base + i, "a take returns the oldest item");
    }
    a.join(); b.join();
    CHECK(q.size() == 2, "every producer that waited gets through");
    REACH("done");
}
//! harness: queue_two_producers
//! prop: C12
//! bounds: limit 1, two producers of 2 items each, one consumer; at most 3 (thorough 5) preemptions
//! opts: --pb=3
//! thorough-opts: --pb=5 --spurious=1
//! thorough-time: 900
//! reach: done
HARNESS(queue_two_producers)
{
    queue_t q(1);
    int64_t base = sym_i64("base");
    std::thread a([&] { for (int i = 0; i < 2; i++) put(q, base + i, 0); }), b([&] { for (int i = 0; i < 2; i++) put(q, base + 10 + i, 2); });
    int na = 0, nb = 0;
    for (int i = 0; i < 4; i++) {
        int64_t v = get(q, i & 1) - base;
        if (v < 10) { CHECK(v == na, "items of one producer arrive once, in order"); na++; } else { CHECK(v == 10 + nb, "items of one producer arrive once, in order"); nb++; }
    }
    a.join(); b.join();
    CHECK(q.empty() && na == 2 && nb == 2, "every item arrives exactly once");
    REACH("done");
}
//! harness: queue_two_consumers
//! prop: C12
//! bounds: limit 1 or none, one producer of 4 items, two consumers of 2 each, one of them with timeouts; at most 3 (thorough 4) preemptions, 1 early timeout
//! opts: --pb=3 --timeouts=1
//! thorough-opts: --pb=4 --timeouts=2 --spurious=1
//! thorough-time: 900
//! reach: done
HARNESS(queue_two_consumers)
{
    queue_t q((unsigned) kse_pick(2, "limit"));
    int64_t base = sym_i64("base"), got[2][2];
    std::thread a([&] { for (int i = 0; i < 2; i++) got[0][i] = get(q, 0) - base; }), b([&] { for (int i = 0; i < 2; i++) got[1][i] = get(q, 2) - base; });
    for (int i = 0; i < 4; i++) put(q, base + i, 1);
    a.join(); b.join();
    int seen = 0;
    for (auto &g : got) { CHECK(g[0] < g[1], "a consumer sees items in order"); for (int64_t v : g) { CHECK(v >= 0 && v < 4, "only pushed items arrive"); seen |= 1 << v; } }
    CHECK(seen == 15 && q.empty(), "every item arrives exactly once");
    REACH("done");
}
//! harness: queue_mixed_takes
//! prop: C12
//! bounds: a waiting consumer, a timed consumer that may give up and a non-blocking one share up to 2 items; at most 4 (thorough: all) preemptions, 1 spurious wake-up, 1 early timeout
//! opts: --pb=4 --timeouts=1 --spurious=1
//! thorough-opts: --pb=-1 --timeouts=2 --spurious=2
//! thorough-time: 900
//! reach: gave_up
HARNESS(queue_mixed_takes)
{
    queue_t q(2);
    int64_t base = sym_i64("base");
    int64_t first = -1, second = -1;
    bool timed = false;
    std::thread a([&] { first = get(q, 0) - base; }), b([&] { item x; timed = kse_pick(2, "timed") ? q.timeout_pop(x, 20) : q.timeout_move_pop(x, 20); if (timed) second = x.v - base; });
    put(q, base, 0);
    item x;
    bool tried = q.try_pop(x);
    if (tried) { CHECK(x.v == base, "a take returns the oldest item"); put(q, base, 0); }
    put(q, base + 1, 0);
    a.join(); b.join();
    CHECK((first == 0) != (first == 1), "the waiting consumer gets one of the items");
    if (timed) CHECK(second == 1 - first, "the timed consumer gets the other item");
    else { CHECK(q.size() == 1, "what nobody took stays in the queue"); REACH("gave_up"); }
}
//! harness: queue_limit_raised
//! prop: C12
//! bounds: up to 2 producers blocked on a full queue of limit 1; the limit is raised by 1 or 2 or removed; all interleavings
//! opts: --pb=-1
//! reach: done
HARNESS(queue_limit_raised)
{
    queue_t q(1);
    put(q, 1, 0);
    int n = 1 + (int) kse_pick(2, "producers"), kind = (int) kse_pick(3, "push");
    std::vector<std::thread> t;
    for (int i = 0; i < n; i++) t.emplace_back([&q, kind] { put(q, 2, kind); });
    q.set_max_num_items(kse_pick(2, "unlimited") ? 0 : 1 + n);
    for (auto &x : t) x.join();
    CHECK(q.size() == (size_t) (1 + n), "raising the limit lets blocked producers through");
    REACH("done");
}
//! harness: queue_contents_replaced
//! prop: C12
//! bounds: a consumer blocked on an empty queue or a producer blocked on a full one, whose contents another thread swaps or assigns; all interleavings
//! opts: --pb=-1
//! reach: consumer producer
HARNESS(queue_contents_replaced)
{
    queue_t q(1), o(1);
    int64_t v = sym_i64("v");
    bool consumer = kse_pick(2, "consumer");
    put(consumer ? o : q, v, 0);
    int64_t got = 0;
    std::thread t([&] { if (consumer) got = get(q, 0); else put(q, v + 1, 0); });
    switch (kse_pick(4, "how")) { case 0: q.swap(o); break; case 1: o.swap(q); break; case 2: q = o; break; default: q = std::move(o); }
    t.join();
    if (consumer) { CHECK(got == v, "new contents reach a waiting consumer"); REACH("consumer"); }
    else { CHECK(get(q, 0) == v + 1, "new room reaches a waiting producer"); REACH("producer"); }
}
//! harness: queue_crossed
//! prop: C12
//! bounds: two threads swap or assign the same two queues in opposite directions while a third reads them; all interleavings
//! opts: --pb=-1
//! thorough-opts: --pb=-1
//! thorough-time: 600
//! reach: done
HARNESS(queue_crossed)
{
    queue_t a(2), b(2);
    put(a, 1, 0); put(b, 2, 0); put(b, 3, 0);
    bool sw1 = kse_pick(2, "swap"), sw2 = kse_pick(2, "swap too");
    std::thread t([&] { if (sw1) a.swap(b); else a = b; });
    if (sw2) b.swap(a); else b = a;
    t.join();
    if (sw1 && sw2) CHECK(a.size() == 1 && b.size() == 2, "swapping twice changes nothing");
    else CHECK(a.size() >= 1 && b.size() >= 1, "contents are copied whole");
    REACH("done");
}
//! harness: queue_forced
//! prop: C12
//! bounds: limit 1, one thread forcing in 2 items, another taking 1 and observing the queue; all interleavings
//! opts: --pb=-1
//! reach: discarded kept
HARNESS(queue_forced)
{
    queue_t q(1);
    int64_t base = sym_i64("base");
    unsigned gone = 0;
    std::thread t([&] { for (int i = 0; i < 2; i++) gone += q.force_move_push(item(base + i)); });
    size_t n = q.size();
    CHECK(n <= 1, "a forced push never exceeds the limit");
    bool f = q.full(), e = q.empty();
    (void) f; (void) e;
    int64_t v = get(q, 1) - base;
    t.join();
    CHECK(v == 0 || v == 1, "only pushed items arrive");
    CHECK(gone + q.size() == 1, "an item is taken, discarded or kept");
    if (gone) { CHECK(v == 1, "the oldest item is discarded"); REACH("discarded"); } else { CHECK(get(q, 0) == base + (v ? 0 : 1), "the rest stays"); REACH("kept"); }
}

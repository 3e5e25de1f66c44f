// C03: concurrent producers and consumers on one ring: exclusive slots, no overrun, published data visible.
//! libs: -lpthread
#include "kse_rt.h"
#include <thread>
#include <klepsydra/high_performance/disruptor4cpp/disruptor4cpp.h>
using namespace disruptor4cpp;

namespace {
struct ev { int64_t seq; int val; };
typedef ring_buffer<ev, 2, busy_spin_wait_strategy, producer_type::multi> mring;
typedef ring_buffer<ev, 2, busy_spin_wait_strategy, producer_type::single> sring;

// Brings the ring to an arbitrary position with everything published and consumed.
template<class R>
int64_t start(R &r, std::initializer_list<sequence *> gates)
{
    int64_t round = sym_i64("round");
    ASSUME(round >= 0 && round < (INT64_C(1) << 31));
    int64_t p = round * 2 + (int) kse_choose(2, "slot") - 1;
    for (int i = 1; i >= 0; i--) if (p - i >= 0) r.publish(p - i);
    r.claim(p);
    for (auto g : gates) g->set(p);
    return p;
}
template<class R>
void produce(R &r, int id, int count, int n)
{
    for (int i = 0; i < count; i++) {
        int64_t hi = r.next(n);
        for (int64_t s = hi - n + 1; s <= hi; s++) { r[s].seq = s; r[s].val = id; }
        if (n == 1) r.publish(hi); else r.publish(hi - n + 1, hi);
    }
}
// Reads `total` events through a barrier, checks each, and frees the slots.
template<class R, class B>
void consume(R &r, B &b, sequence &mine, int total, int *per)
{
    int64_t next = mine.get() + 1, end = next + total;
    while (next < end) {
        int64_t av = b.wait_for(next);
        CHECK(av >= next - 1 && av < end, "the barrier reports published events only");
        for (; next <= av; next++) {
            CHECK(r[next].seq == next, "a consumer reads the event published at this position");
            per[r[next].val]++;
        }
        mine.set(av);
    }
}
}

//! harness: conc_claim
//! prop: C03
//! opts: --pb=3
//! thorough-opts: --pb=5
//! bounds: ring of 2 slots, 2 producers claiming 2 and 1 slots, consumers already past everything needed, any starting position; every interleaving of atomic operations with at most 3 (thorough 5) preemptions
HARNESS(conc_claim)
{
    mring r;
    sequence g;
    r.add_gating_sequences({&g});
    int64_t p = sym_i64("position");
    ASSUME(p >= -1 && p < (INT64_C(1) << 61));
    r.claim(p);
    g.set(p);
    int64_t a[2] = {0, 0}, b = 0;
    bool aok[2] = {}, bok = false;
    std::thread t([&] { for (int i = 0; i < 2; i++) try { a[i] = r.try_next(1); aok[i] = true; } catch (const insufficient_capacity_exception &) {} });
    try { b = r.try_next(1); bok = true; } catch (const insufficient_capacity_exception &) {}
    t.join();
    int got = aok[0] + aok[1] + bok;
    CHECK(got == 2, "exactly the free slots are handed out");
    CHECK(r.get_cursor() == p + 2, "the claimed position counts the slots handed out");
    bool s1 = (aok[0] && a[0] == p + 1) || (aok[1] && a[1] == p + 1) || (bok && b == p + 1);
    bool s2 = (aok[0] && a[0] == p + 2) || (aok[1] && a[1] == p + 2) || (bok && b == p + 2);
    CHECK(s1 && s2, "every free slot is handed out once");
}

//! harness: conc_two_producers
//! prop: C03
//! opts: --pb=2
//! thorough-opts: --pb=3
//! bounds: ring of 2 slots, 2 producers publishing 2 and 1 events, 1 consumer; any starting position below 2^31 rounds; every interleaving of atomic operations with at most 2 (thorough 3) preemptions
//! outside: weak-memory reorderings that are not data races
HARNESS(conc_two_producers)
{
    mring r;
    sequence g;
    r.add_gating_sequences({&g});
    auto b = r.new_barrier();
    start(r, {&g});
    int per[2] = {};
    std::thread t1([&] { produce(r, 0, 2, 1); });
    std::thread t2([&] { produce(r, 1, 1, 1); });
    consume(r, *b, g, 3, per);
    t1.join();
    t2.join();
    CHECK(per[0] == 2 && per[1] == 1, "every event is delivered once");
    REACH("done");
}

//! harness: conc_batch
//! prop: C03
//! opts: --pb=2
//! thorough-opts: --pb=4
//! bounds: ring of 2 slots, one producer claiming 2 slots at a time twice, 1 consumer
HARNESS(conc_batch)
{
    mring r;
    sequence g;
    r.add_gating_sequences({&g});
    auto b = r.new_barrier();
    start(r, {&g});
    int per[2] = {};
    std::thread t1([&] { produce(r, 0, 2, 2); });
    consume(r, *b, g, 4, per);
    t1.join();
    CHECK(per[0] == 4, "every event is delivered once");
}

//! harness: conc_single
//! prop: C03
//! opts: --pb=3
//! thorough-opts: --pb=-1
//! bounds: ring of 2 slots, single producer publishing 4 events, 1 consumer
HARNESS(conc_single)
{
    sring r;
    sequence g;
    r.add_gating_sequences({&g});
    auto b = r.new_barrier();
    start(r, {&g});
    int per[2] = {};
    std::thread t1([&] { produce(r, 1, 4, 1); });
    consume(r, *b, g, 4, per);
    t1.join();
    CHECK(per[1] == 4, "every event is delivered once");
}

//! harness: conc_pipeline
//! prop: C03
//! opts: --pb=1
//! thorough-opts: --pb=2
//! bounds: ring of 2 slots, single producer publishing 3 events, a two-stage consumer pipeline
HARNESS(conc_pipeline)
{
    sring r;
    sequence first, last;
    r.add_gating_sequences({&last});
    auto b1 = r.new_barrier();
    auto b2 = r.new_barrier({&first});
    int64_t p = start(r, {&first, &last});
    int per[2] = {};
    std::thread t1([&] { produce(r, 1, 3, 1); });
    std::thread t2([&] {
        for (int64_t next = p + 1; next < p + 4;) {
            int64_t av = b1->wait_for(next);
            for (; next <= av; next++) r[next].val = 0;   // the first stage rewrites the event
            first.set(av);
        }
    });
    consume(r, *b2, last, 3, per);
    t1.join();
    t2.join();
    CHECK(per[0] == 3 && per[1] == 0, "a later stage sees every event only after the earlier stage");
}

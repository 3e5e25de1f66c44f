// C02: multi-producer claims and availability, sequential histories from arbitrary 64-bit positions.
#include "kse_rt.h"
#include <klepsydra/high_performance/disruptor4cpp/disruptor4cpp.h>
using namespace disruptor4cpp;

namespace {
static const int64_t LIM = INT64_C(1) << 61;
struct noop_wait {
    template<class B, class S>
    int64_t wait_for(int64_t, const S &c, const fixed_sequence_group<S> &, const B &) { return c.get(); }
    void signal_all_when_blocking() {}
};
template<int BS, int G, int K>
void history(int64_t maxpos)
{
    multi_producer_sequencer<BS, noop_wait> s;
    sequence gate[3];
    int64_t g[3];
    std::vector<sequence *> v;
    for (int i = 0; i < G; i++) v.push_back(&gate[i]);
    s.add_gating_sequences(v);
    int64_t next = sym_i64("position");
    ASSUME(next >= -1 && next < maxpos);
    s.claim(next);
    for (int i = 0; i < G; i++) {
        g[i] = sym_i64("consumer");
        ASSUME(g[i] >= -1 && g[i] <= next && g[i] >= next - BS);
        gate[i].set(g[i]);
    }
    if (sym_bool("probed earlier")) {
        int n0 = sym_i32("n0");
        ASSUME(n0 >= 0);
        s.has_available_capacity(n0);
        for (int i = 0; i < G; i++) {
            int64_t to = sym_i64("advance");
            ASSUME(to >= g[i] && to <= next);
            g[i] = to;
            gate[i].set(to);
        }
    }
    for (int k = 0; k < K; k++) {
        int64_t mn = next;
        for (int i = 0; i < G; i++) if (g[i] < mn) mn = g[i];
        switch (kse_choose(4, "operation")) {
        case 0: {
            int n = sym_i32("n");
            int what = 0;
            int64_t r = 0;
            try { r = s.try_next(n); } catch (const std::invalid_argument &) { what = 1; } catch (const insufficient_capacity_exception &) { what = 2; }
            if (n < 1) { CHECK(what == 1, "a non-positive claim is rejected"); REACH("rejected"); }
            else if (next + n - BS > mn) { CHECK(what == 2, "a claim beyond the free slots reports insufficient capacity"); REACH("insufficient"); }
            else {
                CHECK(what == 0, "a claim within the free slots succeeds");
                CHECK(r == next + n, "claims are contiguous");
                next += n;
                REACH("claimed");
            }
            CHECK(s.get_cursor() == next, "a refused claim leaves the claimed position alone");
            break;
        }
        case 1: {
            int n = sym_i32("n");
            ASSUME(n < 1 || next + n - BS <= mn);
            bool inv = false;
            int64_t r = 0;
            try { r = s.next(n); } catch (const std::invalid_argument &) { inv = true; }
            CHECK(inv == (n < 1), "a non-positive claim is rejected");
            if (!inv) { CHECK(r == next + n, "claims are contiguous"); next += n; }
            CHECK(s.get_cursor() == next, "claimed position is reported");
            break;
        }
        case 2: {
            int i = kse_choose(G, "which");
            int64_t to = sym_i64("advance");
            ASSUME(to >= g[i] && to <= next);
            g[i] = to;
            gate[i].set(to);
            break;
        }
        default: {
            CHECK(s.remaining_capacity() == BS - (next - mn), "remaining capacity counts the free slots");
            int n = sym_i32("n");
            ASSUME(n >= 0);
            CHECK(s.has_available_capacity(n) == (next + n - BS <= mn), "capacity test is exact");
            REACH("capacity");
        }
        }
    }
}
}

//! harness: mp_history
//! prop: C02
//! bounds: ring of 8 slots, 2 consumers, 2 (thorough 3) operations after an arbitrary earlier probe, from any position in [-1,2^61), any claim size (int)
//! outside: longer histories; positions beyond 2^61
//! thorough-time: 500
//! reach: rejected insufficient claimed capacity
HARNESS(mp_history) { history<8, 2, KSE_THOROUGH ? 3 : 2>(LIM); }

//! harness: mp_history_small
//! prop: C02
//! bounds: ring of 2 slots, 1 consumer, 3 (thorough 4) operations, any position in [-1,2^61)
//! reach: rejected insufficient claimed
HARNESS(mp_history_small) { history<2, 1, KSE_THOROUGH ? 4 : 3>(LIM); }

//! harness: mp_history_large
//! prop: C02
//! bounds: ring of 1024 slots, 3 consumers, 2 operations
//! reach: rejected insufficient claimed
HARNESS(mp_history_large) { history<1024, 3, 2>(LIM); }

namespace {
// Events published out of order around an arbitrary position; everything older than the ring was published in earlier rounds.
template<int BS>
void availability()
{
    multi_producer_sequencer<BS, noop_wait> s;
    int64_t round = sym_i64("round");
    ASSUME(round >= 0 && round < (INT64_C(1) << 31));
    int64_t base = round * BS + (int) kse_choose(BS, "slot") - 1;
    // the last full round up to base is published
    for (int i = 0; i < BS; i++) if (base - i >= 0) s.publish(base - i);
    s.claim(base + BS);
    bool pub[BS + 1] = {};
    for (int k = 0; k < 2; k++) {
        int lo = kse_choose(BS, "lo"), hi = kse_choose(BS, "hi");
        ASSUME(lo <= hi);
        if (lo == hi) s.publish(base + 1 + lo); else s.publish(base + 1 + lo, base + 1 + hi);
        for (int i = lo; i <= hi; i++) pub[i] = true;
    }
    for (int i = 0; i < BS; i++) CHECK(s.is_available(base + 1 + i) == pub[i], "an event is available exactly when it was published");
    CHECK(!s.is_available(base + 1 + BS), "an unclaimed event is not available");
    for (int lo = 0; lo < BS; lo++) {
        int64_t want = base + lo;
        for (int i = lo; i < BS && pub[i]; i++) want = base + 1 + i;
        CHECK(s.get_highest_published_sequence(base + 1 + lo, base + BS) == want, "the highest published position stops at the first gap");
        if (want < base + BS) REACH("gap");
        CHECK(s.get_highest_published_sequence(base + 1, base + 1 + lo) == (pub[0] ? base + 1 + [&] { int n = 0; while (n < lo && pub[n + 1]) n++; return n; }() : base), "the highest published position stops at the upper bound");
    }
    int64_t older = sym_i64("other");
    ASSUME(older > base + BS && older <= base + 3 * BS);
    CHECK(!s.is_available(older), "a position of a later round is not available");
}
}
//! harness: mp_availability
//! prop: C02
//! bounds: ring of 4 slots at any position below 2^31 rounds, 3 publications (single or batch) in any order, every query in the following ring
//! outside: availability flags repeat after 2^32 rounds of the ring
//! time: 200
//! reach: gap
HARNESS(mp_availability) { availability<4>(); }

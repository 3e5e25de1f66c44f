// C01: single-producer claims. Public API only; arbitrary 64-bit positions.
#include "kse_rt.h"
#include <klepsydra/high_performance/disruptor4cpp/disruptor4cpp.h>
using namespace disruptor4cpp;

namespace {
static const int64_t LIM = INT64_C(1) << 61;
struct noop_wait {
    int signals = 0;
    template<class B, class S>
    int64_t wait_for(int64_t, const S &c, const fixed_sequence_group<S> &, const B &) { return c.get(); }
    void signal_all_when_blocking() { signals++; }
};

// One arbitrary history of K operations from an arbitrary reachable position, compared with a reference model.
template<int BS, int G, int K>
void history()
{
    single_producer_sequencer<BS, noop_wait> s;
    sequence gate[3];
    int64_t g[3];
    std::vector<sequence *> v;
    for (int i = 0; i < G; i++) v.push_back(&gate[i]);
    s.add_gating_sequences(v);
    int64_t next = sym_i64("position");
    ASSUME(next >= -1 && next < LIM);
    s.claim(next);
    s.publish(next);
    int64_t cursor = next;
    for (int i = 0; i < G; i++) {
        g[i] = sym_i64("consumer");
        ASSUME(g[i] >= -1 && g[i] <= next && g[i] >= next - BS);
        gate[i].set(g[i]);
    }
    CHECK(s.get_cursor() == next, "published position is reported");
    if (sym_bool("probed earlier")) {   // an earlier capacity test leaves an arbitrary remembered consumer position
        int n0 = sym_i32("n0");
        ASSUME(n0 >= 0);
        s.has_available_capacity(n0);
        for (int i = 0; i < G; i++) {
            int64_t to = sym_i64("advance");
            ASSUME(to >= g[i] && to <= cursor);
            g[i] = to;
            gate[i].set(to);
        }
    }
    for (int k = 0; k < K; k++) {
        int64_t mn = next;
        for (int i = 0; i < G; i++) if (g[i] < mn) mn = g[i];
        switch (kse_choose(5, "operation")) {
        case 0: {
            int n = sym_i32("n");
            int what = 0;
            int64_t r = 0;
            try { r = s.try_next(n); } catch (const std::invalid_argument &) { what = 1; } catch (const insufficient_capacity_exception &) { what = 2; }
            if (n < 1) { CHECK(what == 1, "a non-positive claim is rejected"); REACH("rejected"); }
            else if (next + n - BS > mn) { CHECK(what == 2, "a claim beyond the free slots reports insufficient capacity"); REACH("insufficient"); }
            else {
                CHECK(what == 0, "a claim within the free slots succeeds");
                CHECK(r == next + n, "claims are contiguous");
                CHECK(r - BS <= mn, "a claim never reaches an unconsumed slot");
                next += n;
                REACH("claimed");
            }
            break;
        }
        case 1: {
            int n = sym_i32("n");
            ASSUME(n < 1 || next + n - BS <= mn);   // otherwise next() waits: see sp_wait
            bool inv = false;
            int64_t r = 0;
            try { r = s.next(n); } catch (const std::invalid_argument &) { inv = true; }
            CHECK(inv == (n < 1), "a non-positive claim is rejected");
            if (!inv) { CHECK(r == next + n, "claims are contiguous"); next += n; }
            break;
        }
        case 2: {
            int i = kse_choose(G, "which");
            int64_t to = sym_i64("advance");
            ASSUME(to >= g[i] && to <= cursor);
            g[i] = to;
            gate[i].set(to);
            break;
        }
        case 3: {
            CHECK(s.remaining_capacity() == BS - (next - mn), "remaining capacity counts the free slots");
            int n = sym_i32("n");
            ASSUME(n >= 0);
            CHECK(s.has_available_capacity(n) == (next + n - BS <= mn), "capacity test is exact");
            REACH("capacity");
            break;
        }
        default: {
            int64_t before = cursor;
            s.publish(before, next);
            cursor = next;
            CHECK(s.get_cursor() == next, "published position is reported");
            int64_t q = sym_i64("query");
            CHECK(s.is_available(q) == (q <= next), "availability is exact");
            REACH("published");
        }
        }
    }
}
}

//! harness: sp_history
//! prop: C01
//! bounds: ring of 8 slots, 2 consumers, 2 (thorough 3) operations after an arbitrary earlier probe, from any position in [-1,2^61), any claim size (int), any consumer positions
//! outside: longer histories; positions beyond 2^61; other ring sizes
//! thorough-time: 500
//! reach: rejected insufficient claimed capacity published
HARNESS(sp_history) { history<8, 2, KSE_THOROUGH ? 3 : 2>(); }

//! harness: sp_history_small
//! prop: C01
//! bounds: ring of 2 slots, 1 consumer, 3 (thorough 4) operations
//! reach: rejected insufficient claimed
HARNESS(sp_history_small) { history<2, 1, KSE_THOROUGH ? 4 : 3>(); }

//! harness: sp_history_large
//! prop: C01
//! bounds: ring of 1024 slots, 3 consumers, 2 (thorough 3) operations
//! reach: rejected insufficient claimed
HARNESS(sp_history_large) { history<1024, 3, KSE_THOROUGH ? 3 : 2>(); }

namespace {
// A consumer position that moves under the producer's feet: every read may return any later published value.
// Stands for all interleavings of a consumer with one claim.
int64_t limit_published;
int reads_left;
struct moving {
    static constexpr int64_t INITIAL_VALUE = -1;
    mutable int64_t v = -1;
    bool moves = false;
    moving() = default;
    explicit moving(int64_t x) : v(x) {}
    int64_t get() const
    {
        if (moves) {
            int64_t n = sym_i64("moved");
            ASSUME(n >= v && n <= limit_published);
            if (reads_left > 0) reads_left--; else ASSUME(n == limit_published);   // fairness: consumers eventually catch up
            v = n;
        }
        return v;
    }
    void set(int64_t x) { v = x; }
    bool compare_and_set(int64_t e, int64_t n) { if (v == e) { v = n; return true; } return false; }
};
}

//! harness: sp_wait
//! prop: C01
//! bounds: 8 slots, 2 consumers moving concurrently at every read of their position, two blocking claims of any size that fits the ring
//! outside: more than 6 moves of the consumers before they catch up
//! reach: waited
HARNESS(sp_wait)
{
    const int BS = 8;
    single_producer_sequencer<BS, noop_wait, moving> s;
    moving gate[2];
    s.add_gating_sequences({&gate[0], &gate[1]});
    int64_t next = sym_i64("position");
    ASSUME(next >= -1 && next < LIM);
    s.claim(next);
    s.publish(next);
    limit_published = next;
    for (auto &x : gate) {
        int64_t p = sym_i64("consumer");
        ASSUME(p >= -1 && p <= next && p >= next - BS);
        x.set(p);
        x.moves = true;
    }
    for (int k = 0; k < 2; k++) {
        reads_left = 6;
        int n = sym_i32("n");
        ASSUME(n >= 1 && n <= BS);
        int64_t lo = gate[0].v < gate[1].v ? gate[0].v : gate[1].v;
        int64_t r = s.next(n);
        CHECK(r == next + n, "claims are contiguous");
        int64_t mn = gate[0].v < gate[1].v ? gate[0].v : gate[1].v;
        CHECK(r - BS <= mn, "a blocking claim returns only when its slots are consumed");
        if (next + n - BS > lo) REACH("waited");
        next = r;
        s.publish(next);
        limit_published = next;
    }
}

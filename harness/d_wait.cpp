// C04/C05: what waiting consumers may return, and that they always make progress.
//! libs: -lpthread
#include "kse_rt.h"
#include <thread>
#include <klepsydra/high_performance/disruptor4cpp/disruptor4cpp.h>
using namespace disruptor4cpp;

namespace {
struct ev { int64_t seq; };
static const int64_t LIM = INT64_C(1) << 40;

template<class R>
int64_t start(R &r, std::initializer_list<sequence *> seqs)
{
    int64_t p = sym_i64("position");
    ASSUME(p >= -1 && p < LIM);
    for (int i = 3; i >= 0; i--) r.publish(p - i);
    r.claim(p);
    for (auto s : seqs) s->set(p);
    return p;
}
// A consumer waiting for two events while they are published; the wait returns and only reports published events.
template<class WS, producer_type PT>
void publish_wakes()
{
    typedef ring_buffer<ev, 4, WS, PT> R;
    R r;
    sequence g;
    r.add_gating_sequences({&g});
    auto b = r.new_barrier();
    int64_t p = start(r, {&g});
    std::thread t([&] {
        for (int i = 0; i < 2; i++) { int64_t s = r.next(); r[s].seq = s; r.publish(s); }
    });
    int64_t next = p + 1;
    while (next <= p + 2) {
        int64_t av = next - 1;
        try { av = b->wait_for(next); } catch (const timeout_exception &) { REACH("timeout"); continue; }
        // a claimed but unpublished position makes a multi-producer wait return early with nothing new
        CHECK(av >= (PT == producer_type::multi ? next - 1 : next) && av <= p + 2, "a wait returns published positions only");
        for (; next <= av; next++) CHECK(r[next].seq == next, "a reported event is published");
        g.set(av);
    }
    t.join();
    REACH("woken");
}
// A consumer depending on an earlier stage only ever sees what that stage finished.
template<class WS>
void stage_wakes()
{
    typedef ring_buffer<ev, 4, WS, producer_type::single> R;
    R r;
    sequence first, last;
    r.add_gating_sequences({&last});
    auto b = r.new_barrier({&first});
    int64_t p = start(r, {&first, &last});
    int done = 0;
    int64_t at = p;
    std::thread t([&] {
        int64_t s = r.next(2);
        r.publish(s - 1, s);
        r[p + 1].seq = 1;   // the earlier stage, working after publication
        first.set(p + 1);
        r[p + 2].seq = 2;
        first.set(p + 2);
    });
    int64_t next = p + 1;
    while (next <= p + 2) {
        int64_t av = next - 1;
        try { av = b->wait_for(next); } catch (const timeout_exception &) { continue; }
        CHECK(av >= next && av <= p + 2, "a wait returns finished positions only");
        for (; next <= av; next++) CHECK(r[next].seq == next - p, "a later stage sees an event only after the earlier stage");
        last.set(av);
    }
    t.join();
    REACH("woken");
}
// An alert ends a wait for something never published, and stays raised until cleared.
template<class WS>
void alert_wakes()
{
    typedef ring_buffer<ev, 4, WS, producer_type::single> R;
    R r;
    sequence g;
    r.add_gating_sequences({&g});
    auto b = r.new_barrier();
    int64_t p = start(r, {&g});
    bool one = kse_choose(2, "publish first");
    std::thread t([&] {
        if (one) { int64_t s = r.next(); r[s].seq = s; r.publish(s); }
        b->alert();
    });
    int64_t next = p + 1;
    int alerts = 0;
    for (;;) {
        try {
            int64_t av = b->wait_for(next);
            CHECK(one && next == p + 1 && av == p + 1, "a wait returns published positions only");
            next = av + 1;
        } catch (const alert_exception &) { alerts++; break; } catch (const timeout_exception &) {}
    }
    CHECK(b->is_alerted(), "an alert stays raised until it is cleared");
    bool again = false;
    try { b->wait_for(p); } catch (const alert_exception &) { again = true; }
    CHECK(again, "a wait on an alerted barrier raises the alert");
    t.join();
    b->clear_alert();
    CHECK(!b->is_alerted(), "clearing removes the alert");
    CHECK(b->wait_for(p) >= p, "a cleared barrier works again");
    REACH("alerted");
}
// Two consumers wait for the same event (or the same alert): both are woken.
template<class WS, producer_type PT>
void both_wake()
{
    typedef ring_buffer<ev, 4, WS, PT> R;
    R r;
    sequence g[2];
    r.add_gating_sequences({&g[0], &g[1]});
    auto b = r.new_barrier();
    int64_t p = start(r, {&g[0], &g[1]});
    bool alert = kse_choose(2, "alert");
    auto waiter = [&](int w) {
        for (;;) {
            try {
                int64_t av = b->wait_for(p + 1);
                if (av == p) continue;
                CHECK(!alert && av == p + 1 && r[av].seq == av, "a wait returns published positions only");
                g[w].set(av);
                return;
            } catch (const alert_exception &) {
                CHECK(alert, "a wait is ended by an alert only when one was raised");
                return;
            } catch (const timeout_exception &) {
                CHECK(false, "a waiter is woken by the event or the alert, not by its timeout");   // a timeout expires here only when nothing else can happen
            }
        }
    };
    std::thread t0(waiter, 0), t1(waiter, 1);
    if (alert) b->alert();
    else { int64_t s = r.next(); r[s].seq = s; r.publish(s); }
    t0.join();
    t1.join();
    if (alert) REACH("alerted"); else REACH("woken");
}
typedef timeout_blocking_wait_strategy<1000> timeout_ws;
// A wait for a position that is published (and finished by the earlier stage) already returns at once, also for the last one.
template<class WS, producer_type PT>
void ready_returns()
{
    typedef ring_buffer<ev, 4, WS, PT> R;
    R r;
    sequence first, g;
    r.add_gating_sequences({&first, &g});
    bool staged = kse_choose(2, "behind another stage");
    auto b = staged ? r.new_barrier({&first}) : r.new_barrier();
    int64_t p = start(r, {&first, &g});
    int n = 1 + kse_choose(3, "published"), done = staged ? 1 + kse_choose(n, "finished") : n;
    for (int i = 0; i < n; i++) { int64_t s = r.next(); r[s].seq = s; r.publish(s); }
    first.set(p + done);
    int64_t at = p + 1 + kse_choose(done, "awaited");
    int64_t av = b->wait_for(at);
    CHECK(av == (staged ? p + done : p + n), "a wait for a reached position returns all that is reached");
    if (at == p + done) REACH("last");
}
typedef sleeping_wait_strategy<1> sleeping_ws;
typedef yielding_wait_strategy<1> yielding_ws;
}

//! harness: wait_blocking
//! prop: C04 C05
//! opts: --pb=2 --spurious=1
//! thorough-opts: --pb=-1 --spurious=1
//! bounds: ring of 4 slots at any position below 2^40, one waiter and one producer of 2 events; every interleaving with at most 2 preemptions (thorough: all), one spurious wake-up
//! reach: woken
HARNESS(wait_blocking) { publish_wakes<blocking_wait_strategy, producer_type::single>(); }

//! harness: wait_blocking_multi
//! prop: C04 C05
//! opts: --pb=2
//! thorough-opts: --pb=4 --spurious=1
//! bounds: as wait_blocking with a multi-producer ring
//! reach: woken
HARNESS(wait_blocking_multi) { publish_wakes<blocking_wait_strategy, producer_type::multi>(); }

//! harness: wait_lite
//! prop: C04 C05
//! opts: --pb=2 --spurious=1
//! thorough-opts: --pb=5 --spurious=1
//! bounds: as wait_blocking
//! outside: store-buffer reordering (see DESIGN.md)
//! reach: woken
HARNESS(wait_lite) { publish_wakes<lite_blocking_wait_strategy, producer_type::single>(); }

//! harness: wait_timeout
//! prop: C04 C05
//! opts: --pb=2 --timeouts=1 --spurious=1
//! thorough-opts: --pb=4 --timeouts=2 --spurious=1
//! bounds: as wait_blocking with at most 1 (thorough 2) expiring timeouts
//! reach: woken timeout
HARNESS(wait_timeout) { publish_wakes<timeout_ws, producer_type::single>(); }

//! harness: wait_busy
//! prop: C04 C05
//! opts: --pb=2
//! thorough-opts: --pb=-1
//! reach: woken
//! bounds: as wait_blocking
HARNESS(wait_busy) { publish_wakes<busy_spin_wait_strategy, producer_type::multi>(); }

//! harness: wait_sleeping
//! prop: C04 C05
//! opts: --pb=3
//! thorough-opts: --pb=5
//! reach: woken
//! bounds: as wait_blocking; 1 retry before yielding
HARNESS(wait_sleeping) { publish_wakes<sleeping_ws, producer_type::single>(); }

//! harness: wait_yielding
//! prop: C04 C05
//! opts: --pb=3
//! thorough-opts: --pb=5
//! reach: woken
//! bounds: as wait_blocking; 1 spin before yielding
HARNESS(wait_yielding) { publish_wakes<yielding_ws, producer_type::single>(); }

//! harness: stage_blocking
//! prop: C04 C05
//! opts: --pb=3
//! thorough-opts: --pb=-1
//! reach: woken
//! bounds: one upstream stage finishing 2 published events, one waiter
HARNESS(stage_blocking) { stage_wakes<blocking_wait_strategy>(); }
//! harness: stage_lite
//! prop: C04 C05
//! opts: --pb=3
//! thorough-opts: --pb=5
//! reach: woken
//! bounds: as stage_blocking
HARNESS(stage_lite) { stage_wakes<lite_blocking_wait_strategy>(); }
//! harness: stage_timeout
//! prop: C04 C05
//! opts: --pb=2 --timeouts=1
//! thorough-opts: --pb=4 --timeouts=1
//! reach: woken
//! bounds: as stage_blocking
HARNESS(stage_timeout) { stage_wakes<timeout_ws>(); }
//! harness: stage_busy
//! prop: C04 C05
//! opts: --pb=3
//! thorough-opts: --pb=-1
//! reach: woken
//! bounds: as stage_blocking
HARNESS(stage_busy) { stage_wakes<busy_spin_wait_strategy>(); }
//! harness: stage_sleeping
//! prop: C04 C05
//! opts: --pb=3
//! thorough-opts: --pb=5
//! reach: woken
//! bounds: as stage_blocking
HARNESS(stage_sleeping) { stage_wakes<sleeping_ws>(); }
//! harness: stage_yielding
//! prop: C04 C05
//! opts: --pb=3
//! thorough-opts: --pb=5
//! reach: woken
//! bounds: as stage_blocking
HARNESS(stage_yielding) { stage_wakes<yielding_ws>(); }

//! harness: both_blocking
//! prop: C04 C05
//! opts: --pb=2
//! thorough-opts: --pb=4
//! reach: woken alerted
//! bounds: two waiters for one event or one alert
HARNESS(both_blocking) { both_wake<blocking_wait_strategy, producer_type::single>(); }
//! harness: both_lite
//! prop: C04 C05
//! opts: --pb=2
//! thorough-opts: --pb=4
//! reach: woken alerted
//! bounds: two waiters for one event or one alert
HARNESS(both_lite) { both_wake<lite_blocking_wait_strategy, producer_type::multi>(); }
//! harness: both_timeout
//! prop: C04 C05
//! opts: --pb=2 --timeouts=0
//! thorough-opts: --pb=4 --timeouts=0
//! reach: woken alerted
//! bounds: two waiters for one event or one alert; no timeout expires
HARNESS(both_timeout) { both_wake<timeout_ws, producer_type::single>(); }

//! harness: alert_blocking
//! prop: C04 C05
//! opts: --pb=3 --spurious=1
//! thorough-opts: --pb=-1 --spurious=1
//! reach: alerted
//! bounds: one waiter; one thread publishing at most one event and raising an alert
HARNESS(alert_blocking) { alert_wakes<blocking_wait_strategy>(); }
//! harness: alert_lite
//! prop: C04 C05
//! opts: --pb=3
//! thorough-opts: --pb=5
//! reach: alerted
//! bounds: as alert_blocking
HARNESS(alert_lite) { alert_wakes<lite_blocking_wait_strategy>(); }
//! harness: alert_timeout
//! prop: C04 C05
//! opts: --pb=2 --timeouts=1
//! thorough-opts: --pb=4 --timeouts=1
//! reach: alerted
//! bounds: as alert_blocking
HARNESS(alert_timeout) { alert_wakes<timeout_ws>(); }
//! harness: alert_busy
//! prop: C04 C05
//! opts: --pb=3
//! thorough-opts: --pb=-1
//! reach: alerted
//! bounds: as alert_blocking
HARNESS(alert_busy) { alert_wakes<busy_spin_wait_strategy>(); }
//! harness: alert_sleeping
//! prop: C04 C05
//! opts: --pb=3
//! thorough-opts: --pb=5
//! reach: alerted
//! bounds: as alert_blocking
HARNESS(alert_sleeping) { alert_wakes<sleeping_ws>(); }
//! harness: alert_yielding
//! prop: C04 C05
//! opts: --pb=3
//! thorough-opts: --pb=5
//! reach: alerted
//! bounds: as alert_blocking
HARNESS(alert_yielding) { alert_wakes<yielding_ws>(); }

//! harness: wait_reached
//! prop: C04 C05
//! bounds: ring of 4 slots at any position below 2^40, 1 to 3 events published and finished before the wait; every wait strategy
//! reach: last
HARNESS(wait_reached)
{
    switch (kse_choose(7, "strategy")) {
    case 0: ready_returns<blocking_wait_strategy, producer_type::single>(); break;
    case 1: ready_returns<lite_blocking_wait_strategy, producer_type::single>(); break;
    case 2: ready_returns<timeout_ws, producer_type::single>(); break;
    case 3: ready_returns<busy_spin_wait_strategy, producer_type::single>(); break;
    case 4: ready_returns<sleeping_ws, producer_type::single>(); break;
    case 5: ready_returns<yielding_ws, producer_type::single>(); break;
    default: ready_returns<blocking_wait_strategy, producer_type::multi>(); break;
    }
}

// ---- the phased strategy, in an environment that only moves time and the awaited position
namespace {
struct phased_env {
    int calls = 0, ready = -1;        // the awaited position is reached at this look (-1: never)
    int64_t seq = 0;
    uint64_t t0 = 0, step = 0;
    int fallback = 0, signals = 0;
    uint64_t at_fallback = 0;
} P;
struct env_sequence {
    env_sequence() {}
    int64_t get() const {
        P.calls++;
        if (P.calls > 200000) kse_fail("a phased wait reaches its fallback");
        kse_set_clock(P.t0 + P.step * P.calls);
        return P.ready >= 0 && P.calls > P.ready ? P.seq + 3 : P.seq - 1;
    }
};
struct fallback_ws {
    template<class B, class S>
    int64_t wait_for(int64_t s, const S &c, const fixed_sequence_group<S> &d, const B &b)
    {
        CHECK(s == P.seq, "the fallback waits for the same position");
        P.fallback++;
        P.at_fallback = kse_clock();
        return P.seq + 7;
    }
    void signal_all_when_blocking() { P.signals++; }
};
struct no_alert { void check_alert() const {} bool is_alerted() const { return false; } };
}

//! harness: wait_phased
//! prop: C04 C05
//! bounds: spin timeout 2 ms, yield timeout 5 ms; time moves by any constant 200..2000 ns per look; the position becomes available at the first look, after 1 or 10000 further looks, or never; a stand-in fallback strategy
//! reach: immediate later fallback
HARNESS(wait_phased)
{
    phased_backoff_wait_strategy<2000000, 5000000, fallback_ws> ws;
    env_sequence s;
    auto group = fixed_sequence_group<env_sequence>::create(s);
    P = phased_env();
    P.seq = sym_i64("position");
    ASSUME(P.seq >= 0 && P.seq < (INT64_C(1) << 62));
    P.t0 = 1000000000;
    P.step = sym_u64("time per look");
    ASSUME(P.step >= 200 && P.step <= 2000);
    static const int when[] = {0, 1, 10000, -1};
    P.ready = when[kse_choose(4, "ready")];
    int64_t r = ws.wait_for(P.seq, s, group, no_alert());
    if (P.fallback) {
        CHECK(P.fallback == 1 && r == P.seq + 7, "the fallback's answer is returned");
        CHECK(P.at_fallback - P.t0 > 5000000, "the fallback is used only after the yield timeout");
        CHECK(P.ready < 0, "a reached position is returned without the fallback");
        REACH("fallback");
    } else {
        CHECK(P.ready >= 0 && r == P.seq + 3, "a wait returns the reached position");
        if (P.ready == 0) REACH("immediate"); else REACH("later");
    }
    ws.signal_all_when_blocking();
    CHECK(P.signals == 1, "signals reach the fallback");
}

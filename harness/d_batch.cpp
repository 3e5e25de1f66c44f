// C06/C07: the batch event processor delivers every published event once and in order, and can always be halted.
//! libs: -lpthread
#include "kse_rt.h"
#include <thread>
#include <klepsydra/high_performance/disruptor4cpp/disruptor4cpp.h>
using namespace disruptor4cpp;

namespace {
struct ev { int64_t seq; };
struct bad : std::exception { int id; bad(int i) : id(i) {} };
struct other {};

struct script_ws;
typedef ring_buffer<ev, 4, script_ws, producer_type::single> SR;
typedef batch_event_processor<SR> SP;

struct env_t {
    SR *r = nullptr;
    SP *p = nullptr;
    int64_t first = 0, expect = 0, published = 0, avail = 0;   // next expected event, last published, last reported
    int waits = 0, max_waits = 0, starts = 0, stops = 0, excs = 0, timeouts = 0, start_excs = 0, stop_excs = 0, timeout_excs = 0;
    int64_t exc_seq = -1; const void *exc_event = nullptr; int pending_exc = 0;
    bool in_event = false, foreign = false, halted = false;
} E;

struct script_ws {
    template<class B, class S>
    int64_t wait_for(int64_t seq, const S &cursor, const fixed_sequence_group<S> &, const B &)
    {
        CHECK(!E.in_event, "no wait happens inside an event");
        CHECK(E.pending_exc == 0, "an exception is reported before the next wait");
        CHECK(seq == E.expect, "the processor waits for the first undelivered event");
        CHECK(E.p->get_sequence().get() == E.expect - 1, "every delivered event is released before waiting");
        CHECK(E.p->is_running(), "the processor reports running while it runs");
        E.waits++;
        switch (E.waits > E.max_waits ? 2 : kse_choose(5, "environment")) {
        case 0: { // one or two more events (a batch may already be waiting after an exception)
            int n = 1 + (int) kse_choose(2, "batch");
            for (int i = 0; i < n; i++) {
                int64_t s = E.r->next();
                (*E.r)[s].seq = s;
                E.r->publish(s);
            }
            E.published = E.r->get_cursor();
            return E.avail = E.published;
        }
        case 1: E.timeouts++; throw timeout_exception();
        case 2: E.halted = true; E.p->halt(); throw alert_exception();
        case 3: if (E.published >= seq) return E.avail = E.published; throw alert_exception();  // an alert without a halt
        default: return E.avail = seq - 1;                            // nothing new yet
        }
    }
    void signal_all_when_blocking() {}
};
struct handler : event_handler<ev> {
    bool throw_start = false, throw_stop = false, throw_timeout = false;
    void on_start() override { E.starts++; CHECK(E.starts == 1 && E.waits == 0, "start is announced once, before the first event"); if (throw_start) throw bad(1); }
    void on_shutdown() override { E.stops++; CHECK(E.stops == 1, "shutdown is announced once"); if (throw_stop) throw bad(2); }
    void on_event(ev &e, int64_t s, bool last) override
    {
        CHECK(E.starts == 1 && E.stops == 0, "events are delivered between start and shutdown");
        CHECK(s == E.expect, "events are delivered in order, none skipped or repeated");
        CHECK(s <= E.published, "only published events are delivered");
        CHECK(e.seq == s, "the delivered event is the one published at that position");
        CHECK(last == (s == E.avail), "the end of a batch is marked exactly on its last event");
        CHECK(E.p->get_sequence().get() < s, "an event is not released before it is handled");
        E.expect = s + 1;
        switch (kse_choose(3, "handler")) {
        case 1: E.pending_exc = 1; E.exc_seq = s; E.exc_event = &e; throw bad(3);
        case 2: E.foreign = true; throw other();
        default: break;
        }
    }
    void on_timeout(int64_t s) override { E.timeouts += 100; CHECK(s == E.expect - 1, "a timeout reports the last handled position"); if (throw_timeout) { E.pending_exc = 2; throw bad(4); } }
    void on_event_exception(const std::exception &x, int64_t s, ev *e) override
    {
        const bad *b = dynamic_cast<const bad *>(&x);
        if (E.pending_exc == 2) { E.timeout_excs++; CHECK(b && b->id == 4 && s == E.expect - 1, "an exception of the timeout handler is reported"); }
        else { CHECK(E.pending_exc == 1 && b && b->id == 3 && s == E.exc_seq && e == E.exc_event, "a handler exception is reported with its event"); E.excs++; }
        E.pending_exc = 0;
    }
    void on_start_exception(const std::exception &x) override { const bad *b = dynamic_cast<const bad *>(&x); CHECK(throw_start && b && b->id == 1, "an exception of the start handler is reported"); E.start_excs++; }
    void on_shutdown_exception(const std::exception &x) override { const bad *b = dynamic_cast<const bad *>(&x); CHECK(throw_stop && b && b->id == 2, "an exception of the shutdown handler is reported"); E.stop_excs++; }
};
void batch(int waits)
{
    SR r;
    auto b = r.new_barrier();
    handler h;
    SP p(r, *b, h, "p");
    E = env_t();
    E.r = &r;
    E.p = &p;
    E.max_waits = waits;
    int64_t at = sym_i64("position");
    ASSUME(at >= -1 && at < (INT64_C(1) << 60));
    r.claim(at);
    r.publish(at);
    p.get_sequence().set(at);
    r.add_gating_sequences({&p.get_sequence()});
    E.expect = at + 1;
    E.published = at;
    int k = (int) kse_choose(4, "lifecycle exceptions");
    h.throw_start = k == 1; h.throw_stop = k == 2; h.throw_timeout = k == 3;
    CHECK(!p.is_running(), "a new processor is not running");
    bool foreign = false;
    try { p.run(); } catch (const other &) { foreign = true; }
    CHECK(foreign == E.foreign, "a foreign exception leaves the processor");
    CHECK(foreign || E.halted, "the processor only stops when it is halted");
    CHECK(!p.is_running(), "a stopped processor reports so");
    CHECK(E.starts == 1 && E.stops == 1, "start and shutdown are each announced once");
    CHECK(E.start_excs == (h.throw_start ? 1 : 0) && E.stop_excs == (h.throw_stop ? 1 : 0), "lifecycle exceptions are reported");
    CHECK(E.timeouts % 101 == 0, "every timeout is announced");
    CHECK(E.timeout_excs == (h.throw_timeout ? E.timeouts / 101 : 0), "exceptions of the timeout handler are reported");
    if (!foreign) { CHECK(p.get_sequence().get() == E.expect - 1, "the final position is the last handled event"); REACH("halted"); }
    else { CHECK(p.get_sequence().get() <= E.expect - 1, "the final position does not pass the failing event"); REACH("foreign"); }
    if (E.excs) REACH("exception");
    if (E.timeouts) REACH("timeout");
}
}

//! harness: batch_script
//! prop: C06
//! bounds: ring of 4 slots at any position below 2^60; up to 3 (thorough 4) environment steps, each new events (1 or 2), timeout, alert, halt or nothing new; every handler may return, throw a standard or a foreign exception
//! reach: halted foreign exception timeout
HARNESS(batch_script) { batch(KSE_THOROUGH ? 4 : 3); }

// ---- real threads
namespace {
typedef ring_buffer<ev, 2, blocking_wait_strategy, producer_type::single> BR;
struct count_handler : event_handler<ev> {
    int n = 0, starts = 0, stops = 0; int64_t next = 0;
    void on_start() override { starts++; }
    void on_shutdown() override { stops++; }
    void on_event(ev &e, int64_t s, bool) override { CHECK(e.seq == s && s == next, "each event is handled once, in order, with its data"); next++; n++; }
    void on_timeout(int64_t) override {}
    void on_event_exception(const std::exception &, int64_t, ev *) override {}
    void on_start_exception(const std::exception &) override {}
    void on_shutdown_exception(const std::exception &) override {}
};
template<class R>
void produce_and_halt(int count)
{
    R r;
    auto b = r.new_barrier();
    count_handler h;
    batch_event_processor<R> p(r, *b, h);
    r.add_gating_sequences({&p.get_sequence()});
    int64_t at = sym_i64("position");
    ASSUME(at >= -1 && at < (INT64_C(1) << 40));
    r.publish(at - 1); r.publish(at);
    r.claim(at);
    p.get_sequence().set(at);
    h.next = at + 1;
    std::thread t([&] { p.run(); });
    for (int i = 0; i < count; i++) { int64_t s = r.next(); r[s].seq = s; r.publish(s); }
    while (p.get_sequence().get() < at + count) std::this_thread::yield();
    CHECK(p.is_running(), "the processor runs until it is halted");
    p.halt();
    t.join();
    CHECK(h.n == count && h.starts == 1 && h.stops == 1, "every published event is handled exactly once");
    CHECK(!p.is_running(), "a halted processor stops");
    REACH("done");
}
}

//! harness: batch_threads
//! prop: C06 C07
//! opts: --pb=2
//! thorough-opts: --pb=4
//! bounds: ring of 2 slots at any position, one producer of 3 events, one processor, blocking strategy; at most 2 (thorough 4) preemptions
//! reach: done
HARNESS(batch_threads) { produce_and_halt<BR>(3); }

//! harness: batch_threads_multi
//! prop: C06 C07
//! opts: --pb=1
//! thorough-opts: --pb=3
//! bounds: as batch_threads with a multi-producer ring, the busy-spin strategy and 3 events
//! reach: done
HARNESS(batch_threads_multi) { produce_and_halt<ring_buffer<ev, 2, busy_spin_wait_strategy, producer_type::multi>>(3); }

//! harness: halt_anytime
//! prop: C07
//! opts: --pb=4
//! thorough-opts: --pb=-1
//! bounds: one processor thread; halt requested at any moment after the processor reports running; blocking strategy; at most 4 preemptions (thorough: all interleavings)
//! reach: halted
HARNESS(halt_anytime)
{
    BR r;
    auto b = r.new_barrier();
    count_handler h;
    batch_event_processor<BR> p(r, *b, h);
    r.add_gating_sequences({&p.get_sequence()});
    int64_t at = sym_i64("position");
    ASSUME(at >= -1 && at < (INT64_C(1) << 60));
    r.claim(at);
    r.publish(at);
    p.get_sequence().set(at);
    std::thread t([&] { p.run(); });
    while (!p.is_running()) std::this_thread::yield();
    p.halt();
    t.join();
    CHECK(!p.is_running() && h.stops == h.starts, "a halted processor shuts down");
    REACH("halted");
}

//! harness: halt_busy
//! prop: C07
//! opts: --pb=4
//! thorough-opts: --pb=-1
//! bounds: as halt_anytime with the busy-spin strategy
//! reach: halted
HARNESS(halt_busy)
{
    typedef ring_buffer<ev, 2, busy_spin_wait_strategy, producer_type::single> R;
    R r;
    auto b = r.new_barrier();
    count_handler h;
    batch_event_processor<R> p(r, *b, h);
    std::thread t([&] { p.run(); });
    while (!p.is_running()) std::this_thread::yield();
    p.halt();
    t.join();
    CHECK(!p.is_running() && h.stops == h.starts, "a halted processor shuts down");
    REACH("halted");
}

//! harness: halt_from_handler
//! prop: C07
//! opts: --pb=2
//! thorough-opts: --pb=3
//! bounds: the handler halts its own processor while handling an event, then a second run continues where the first ended
//! reach: halted
HARNESS(halt_from_handler)
{
    BR r;
    auto b = r.new_barrier();
    struct H : count_handler {
        batch_event_processor<BR> *p = nullptr;
        void on_event(ev &e, int64_t s, bool l) override { count_handler::on_event(e, s, l); p->halt(); }
    } h;
    batch_event_processor<BR> p(r, *b, h);
    h.p = &p;
    r.add_gating_sequences({&p.get_sequence()});
    for (int i = 0; i < 2; i++) {
        std::thread t([&] { p.run(); });
        int64_t s = r.next(); r[s].seq = s; r.publish(s);
        t.join();
        CHECK(h.n == i + 1 && p.get_sequence().get() == s, "a processor can be run again and continues");
    }
    REACH("halted");
}

//! harness: halt_noop
//! prop: C07
//! opts: --pb=3
//! thorough-opts: --pb=-1
//! bounds: the no-op processor follows 2 events and is halted at any moment after it reports running
//! reach: halted
HARNESS(halt_noop)
{
    BR r;
    auto b = r.new_barrier();
    no_op_event_processor<BR> p(r, *b);
    r.add_gating_sequences({&p.get_sequence()});
    bool drain = kse_choose(2, "drain");
    std::thread t([&] { p.run(); });
    for (int i = 0; i < 2; i++) { int64_t s = r.next(); r[s].seq = s; r.publish(s); }
    if (drain) while (p.get_sequence().get() < 1) std::this_thread::yield();
    while (!p.is_running()) std::this_thread::yield();
    CHECK(p.get_sequence().get() <= 1, "the no-op processor never passes the published events");
    p.halt();
    t.join();
    CHECK(!p.is_running(), "a halted processor stops");
    REACH("halted");
}

// C35: the data multiplexer. C36: its subscribers start and end.
//! cflags: -I$V/stubs/sdk -I$V/rt
//! libs: -lpthread
//! assume: the Klepsydra SDK (containers, statistics, clock, publisher and subscriber interfaces, event transformer) is a stand-in written from its uses and documentation
#include "kse_rt.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <klepsydra/high_performance/data_multiplexer_middleware_provider.h>
#include "sdk_container.h"

namespace {
int pick(unsigned n, const char *name) { return (int) kse_concretize(kse_pick(n, name)); }
struct event_t { int64_t v = 0, w = 0; event_t() {} event_t(int64_t v) : v(v), w(~v) {} };
template<int N> using provider_t = kpsr::high_performance::DataMultiplexerMiddlewareProvider<event_t, N>;
// what a subscriber got
struct Got {
    std::atomic<int> n{0};
    int64_t v[8];
    void take(const event_t &e) { CHECK(n < 8 && e.w == ~e.v, "events arrive intact"); v[n] = e.v; kse_yield(); CHECK(e.v == v[n] && e.w == ~e.v, "an event stays as it is while a listener uses it"); n++; }
    bool has(int64_t x) const { int k = n; for (int i = 0; i < k; i++) if (v[i] == x) return true; return false; }
    // the events are some of the given ones in their order, none of them twice
    void check(const std::vector<int64_t> &sent) const
    {
        size_t at = 0;
        bool ok = true;
        for (int i = 0; i < n; i++) { while (at < sent.size() && sent[at] != v[i]) at++; if (at == sent.size()) ok = false; else at++; }
        CHECK(ok, "a subscriber gets published events in order, none twice");
        CHECK(sent.empty() || (n > 0 && v[n - 1] == sent.back()), "a subscriber gets the newest event");
    }
};
enum { COPY, CLONE, SHARED, PROCESS };
template<int N> void publish(kpsr::Publisher<event_t> *p, int how, int64_t v)
{
    if (how == PROCESS) p->processAndPublish([v](event_t &e) { e.v = v; e.w = ~v; });
    else if (how == SHARED) p->publish(std::make_shared<const event_t>(v));
    else { event_t e(v); p->publish(e); e.v = 0; }
}
template<int N> void mux(int subscribers, int events, int how)
{
    Rec container;
    Got got[2];
    std::vector<int64_t> sent;
    int64_t base = sym_i64("v");
    {
        int started = 0;
        provider_t<N> provider(&container, "mux", [&](event_t &e) { e.v = 1; e.w = ~1; started++; }, how == CLONE ? std::function<void(const event_t &, event_t &)>([](const event_t &a, event_t &b) { b.v = a.v; b.w = a.w; }) : nullptr);
        CHECK(started == N, "every event of the buffer is initialised once");
        auto *publisher = provider.getPublisher();
        const char *names[2] = {"a", "b"};
        kpsr::Subscriber<event_t> *subscriber[2];
        std::thread::id thread = std::this_thread::get_id();
        for (int i = 0; i < subscribers; i++) {
            subscriber[i] = provider.getSubscriber(names[i]);
            CHECK(subscriber[i] == provider.getSubscriber(names[i]), "a name has one subscriber");
            subscriber[i]->registerListener("listener", [&, i](const event_t &e) { CHECK(std::this_thread::get_id() != thread, "listeners run in a thread of their subscriber"); got[i].take(e); });
        }
        long long lost = 0;
        for (int i = 0; i < events; i++) {
            publish<N>(publisher, how, base + i);
            long long now = (long long) publisher->publicationStats.totalDiscardedEvents;
            if (now == lost) sent.push_back(base + i);
            else { CHECK(now == lost + 1 && (int) sent.size() >= N, "an event is discarded, and counted, only when the buffer is full"); lost = now; REACH("discarded"); }
        }
        for (int i = 0; i < subscribers; i++) {
            while (!got[i].has(sent.back())) kse_yield();
            auto stats = subscriber[i]->getSubscriptionStats("listener");
            if (got[i].n < (int) sent.size()) REACH("skipped");
            CHECK(got[i].n + (long long) stats->totalDiscardedEvents == (long long) sent.size(), "events that a subscriber does not get are counted as discarded");
        }
    }
    for (int i = 0; i < subscribers; i++) got[i].check(sent);
    CHECK(container.publication.empty() && container.subscription.empty() && !container.bad, "publisher and listeners are detached from the container when they end");
    REACH("delivered");
}
}
//! harness: mux_one
//! prop: C35
//! opts: --races=1 --pb=2 --qtime=60
//! thorough-opts: --races=1 --pb=3 --qtime=60
//! time: 150
//! thorough-time: 900
//! reach: delivered discarded skipped
//! bounds: one subscriber and 3 (thorough: 4) consecutive events from an arbitrary value on, copied with or without a cloner, shared or filled in place, buffer of 2; every interleaving with at most 2 (thorough: 3) preemptions
//! outside: more events; larger buffers; subscribing while another thread publishes
HARNESS(mux_one) { mux<2>(1, KSE_THOROUGH ? 4 : 3, pick(4, "way")); }
//! harness: mux_two
//! prop: C35
//! opts: --races=1 --db=1 --qtime=60
//! thorough-opts: --races=1 --db=2 --qtime=60
//! time: 150
//! thorough-time: 900
//! reach: delivered discarded skipped
//! bounds: two subscribers and 3 consecutive events from an arbitrary value on, copied, cloned or filled in place, buffer of 2; every interleaving with at most 1 (thorough: 2) deviations from running the threads in turn
//! outside: more events or subscribers; larger buffers; subscribing while another thread publishes
HARNESS(mux_two) { mux<2>(2, 3, pick(2, "way") ? PROCESS : KSE_THOROUGH && pick(2, "copied") ? COPY : CLONE); }
//! harness: mux_behind
//! prop: C35
//! opts: --races=1 --db=1 --qtime=60
//! thorough-opts: --races=1 --db=2 --qtime=60
//! time: 150
//! thorough-time: 900
//! reach: behind caught_up
//! bounds: a subscriber that uses the first or second event while 2 or 3 more are published, the buffer of 4 full or not, copied, shared or filled in place; every interleaving with at most 1 (thorough: 2) deviations from running the threads in turn
//! outside: more events; larger buffers
HARNESS(mux_behind)
{
    Rec container;
    Got got;
    int64_t base = sym_i64("v");
    int slow = pick(2, "slow"), more = 2 + pick(2, "more"), how = pick(2, "way") ? SHARED : PROCESS;
    std::atomic<int> at{-1}, until{0};
    std::vector<int64_t> sent;
    {
        provider_t<4> provider(&container, "mux");
        auto *publisher = provider.getPublisher();
        auto *subscriber = provider.getSubscriber("a");
        subscriber->registerListener("listener", [&](const event_t &e) {
            int n = got.n;
            got.take(e);
            at = n;
            if (n == slow) while (!until) kse_yield();
        });
        for (int i = 0; i <= slow; i++) { // the subscriber keeps up to here
            publish<4>(publisher, how, base + i);
            sent.push_back(base + i);
            while (at < i) kse_yield();
        }
        for (int i = 1; i <= more; i++) { publish<4>(publisher, how, base + slow + i); sent.push_back(base + slow + i); }
        CHECK(publisher->publicationStats.totalDiscardedEvents + 0 == 0, "an event is discarded only when the buffer is full");
        until = 1;
        REACH("behind");
        for (int waits = 0; at <= slow; kse_yield()) CHECK(++waits < 200, "a subscriber gets the newest event");
        CHECK(got.n == slow + 2 && got.v[slow + 1] == sent.back(), "a subscriber that is behind gets the newest event next");
        CHECK((int) subscriber->getSubscriptionStats("listener")->totalDiscardedEvents == more - 1, "events that a subscriber does not get are counted as discarded");
        REACH("caught_up");
    }
    got.check(sent);
}
//! harness: mux_life
//! prop: C36
//! opts: --races=1 --pb=2 --qtime=60
//! thorough-opts: --races=1 --pb=3 --qtime=60
//! time: 150
//! thorough-time: 900
//! reach: late ended late_ended published waited
//! bounds: a ring buffer with a publisher and subscribers that are patient or impatient with their threads; a subscriber ends with events pending or not, 2 events are published after it has ended, to no or to another subscriber; every interleaving with at most 2 (thorough: 3) preemptions
//! outside: more events; subscribing while another thread publishes
HARNESS(mux_life)
{
    using namespace kpsr::high_performance;
    typedef DataMultiplexerSubscriber<event_t, 2> subscriber_t;
    subscriber_t::RingBuffer ring;
    DataMultiplexerPublisher<event_t, 2> publisher(nullptr, "mux", nullptr, ring);
    Got got[2];
    std::atomic<bool> allowed{true};
    bool late = false;
    int before = pick(3, "events"), patient = pick(2, "patience");
    try {
        subscriber_t first(nullptr, "mux", "a", ring, patient ? 100 * 1000 : 0);
        first.registerListener("listener", [&](const event_t &e) { CHECK(allowed, "listeners run only while their subscriber lives"); got[0].take(e); });
        for (int i = 0; i < before; i++) publisher.publish(event_t(10 + i));
        if (before == 2 && pick(2, "wait")) {
            for (int waits = 0; !got[0].has(9 + before); kse_yield()) CHECK(++waits < 60, "a subscriber gets the newest event");
            REACH("waited");
        }
    } catch (const std::runtime_error &) { late = true; }
    allowed = false;
    if (late) { CHECK(!patient, "a thread that starts in time is not late"); REACH("late"); } else REACH("ended");
    CHECK(got[0].n <= before, "events are delivered at most once");
    // the subscriber that has ended holds nothing back
    if (pick(2, "another")) {
        subscriber_t second(nullptr, "mux", "b", ring);
        second.registerListener("listener", [&](const event_t &e) { got[1].take(e); });
        for (int i = 0; i < 2; i++) publisher.publish(event_t(20 + i));
        while (!got[1].has(21)) kse_yield();
        CHECK(got[1].n == 1 || got[1].v[0] == 20, "a subscriber gets what is published after it was created");
        REACH("published");
    } else for (int i = 0; i < 4; i++) publisher.publish(event_t(20 + i));
    CHECK(publisher.publicationStats.totalDiscardedEvents + 0 == 0, "an event is discarded only when the buffer is full");
    if (late) REACH("late_ended");
}

// C27: the in-memory middleware delivers from its own thread. C28: its poller starts and stops.
//! cflags: -I$V/stubs/sdk -I$V/stubs/mq -I$V/rt
//! src: $R/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
//! libs: -lpthread
//! assume: the Klepsydra SDK (containers, statistics, clock, publisher and subscriber interfaces, event transformer) and the moodycamel queue are stand-ins written from their uses and documentation
#include "kse_rt.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <functional>
#include <list>
#include <memory>
#include <stdexcept>
#include <string>
#include <sys/types.h>
#include <thread>
#include <vector>
#include <spdlog/spdlog.h>
// gcc accepts std::exception("text") in the pool's unsupported operations, clang does not
namespace std { struct kse_exception : exception { kse_exception(const char *) {} }; }
#define exception kse_exception
#include <klepsydra/core/smart_object_pool.h>
#undef exception
#include <klepsydra/mem_core/basic_middleware_provider.h>
#include <klepsydra/mem_core/concurrent_middleware_provider.h>
#include "sdk_container.h"

namespace {
int pick(unsigned n, const char *name) { return (int) kse_concretize(kse_pick(n, name)); }
struct event_t { int64_t v = 0; event_t() {} event_t(int64_t v) : v(v) {} };
typedef std::shared_ptr<const event_t> ptr;
typedef kpsr::mem::InMemoryMiddlewareProvider<event_t> provider_t;
std::unique_ptr<provider_t> make(kpsr::Container *c, bool basic, int queue, int pool, bool discard)
{
    if (basic) return std::unique_ptr<provider_t>(new kpsr::mem::BasicMiddlewareProvider<event_t>(c, "event", queue, pool, nullptr, nullptr, discard));
    return std::unique_ptr<provider_t>(new kpsr::mem::ConcurrentMiddlewareProvider<event_t>(c, "event", queue, pool, nullptr, nullptr, discard, 10));
}
// a poller that only counts; impatient ones give a thread no time to start
struct Poller : kpsr::mem::InMemoryQueuePoller {
    Poller(long timeoutMS) : InMemoryQueuePoller("event", 10, timeoutMS) {}
    std::atomic<int> polls{0};
    std::atomic<bool> allowed{false}, ending{false};
    std::atomic<int> late{0};
    void end() { late = 0; ending = true; stop(); ending = false; allowed = false; }
    void takeEventFromQueue() override
    {
        CHECK(allowed, "a poller polls only between its start and the end of its stop");
        polls++;
        if (ending) CHECK(++late < 40, "a poller stops");
        std::this_thread::sleep_for(std::chrono::microseconds(_sleepPeriodUS));
    }
};
}
//! harness: poller
//! prop: C28
//! opts: --pb=2 --qtime=60
//! thorough-opts: --pb=4 --qtime=60
//! time: 120
//! reach: polled late restarted
//! bounds: every sequence of 3 (thorough: 4) starts and stops of a poller, patient or impatient with its thread; every interleaving with at most 2 (thorough: 4) preemptions
//! outside: longer sequences; starting or stopping from several threads; stopping from inside a listener
HARNESS(poller)
{
    {
        Poller p(pick(2, "patience") ? 0 : 100);
        bool running = false, once = false;
        CHECK(!p.isRunning(), "a poller does not run before its start");
        for (int k = 0; k < (KSE_THOROUGH ? 4 : 3); k++) {
            int op = pick(3, "op");
            if (op == 0) {
                p.allowed = true;
                bool late = false;
                try { p.start(); } catch (const std::runtime_error &) { late = true; REACH("late"); }
                if (late) { CHECK(!running, "a poller that runs stays as it is when started again"); p.end(); CHECK(!p.isRunning(), "a stopped poller does not run"); continue; }
                CHECK(p.isRunning(), "a started poller runs");
                if (once && !running) REACH("restarted");
                running = once = true;
            } else if (op == 1) {
                p.end();
                running = false;
                CHECK(!p.isRunning(), "a stopped poller does not run");
            } else if (running) {
                int n = p.polls;
                while (p.polls == n) kse_yield();
                REACH("polled");
            }
            CHECK(p.isRunning() == running, "a poller runs from its start to its stop");
        }
        p.end();
    }
}
//! harness: deliver
//! prop: C27
//! opts: --races=1 --pb=1 --qtime=60
//! thorough-opts: --races=1 --pb=2 --qtime=60
//! time: 180
//! reach: delivered discarded kept resumed
//! bounds: both queues with a limit of 1 or 2 (the locking one also with none), blocking or discarding, pool of 0 (events shared) or 1 (copied); 3 arbitrary events published before or after the start and after a stop and another start; every interleaving with at most 1 (thorough: 2) preemptions
//! outside: publishing from several threads at the same time; more events
HARNESS(deliver)
{
    bool basic = pick(2, "queue"), discard = pick(2, "discarding");
    int limit = 1 + pick(2, "limit"), pool = pick(2, "pool size");
    int early = pick(3, "published before the start"), again = pick(2, "stop in between");
    if (!discard && early > limit) return;
    moodycamel::kse_block = limit;
    Rec container;
    std::vector<int64_t> got;
    std::atomic<int> n{0};
    std::thread::id thread;
    int64_t v[3];
    std::weak_ptr<const event_t> kept[3];
    {
        auto provider = make(&container, basic, limit, pool, discard);
        auto *publisher = provider->getPublisher();
        provider->getSubscriber()->registerListener("listener", [&](const event_t &e) { CHECK(std::this_thread::get_id() != thread, "listeners run in the thread of the poller"); got.push_back(e.v); n++; });
        thread = std::this_thread::get_id();
        auto publish = [&](int i) { 
            v[i] = sym_i64("v");
            if (pool) { event_t e(v[i]); publisher->publish(e); e.v = 0; }
            else { auto e = std::make_shared<const event_t>(v[i]); kept[i] = e; publisher->publish(e); }
        };
        for (int i = 0; i < early; i++) publish(i);
        CHECK(n == 0, "nothing is delivered before the start");
        CHECK(!provider->isRunning(), "a provider does not run before its start");
        provider->start();
        CHECK(provider->isRunning(), "a started provider runs");
        for (int i = early; i < 3; i++) {
            if (again && i == 2) {
                provider->stop();
                int m = n;
                CHECK(!provider->isRunning(), "a stopped provider does not run");
                // whatever was not delivered waits for the next start
                if (discard || m == 2) { publish(i); CHECK(n == m, "nothing is delivered after the stop"); REACH("kept"); provider->start(); REACH("resumed"); continue; }
                provider->start();
            }
            publish(i);
        }
        int discarded = 0;
        for (int waits = 0;;) {
            discarded = (int) publisher->publicationStats.totalDiscardedEvents;
            if (n + discarded >= 3) break;
            CHECK(++waits < 40, "every event is delivered once, or discarded and counted");
            kse_yield();
        }
        provider->stop();
        CHECK(n + discarded == 3, "every event is delivered once, or discarded and counted");
        for (auto &w : kept) CHECK(w.expired(), "nothing is kept of an event that was delivered or dropped");
        if (!discard) CHECK(discarded == 0, "a blocking publisher discards nothing");
        if (discarded) REACH("discarded"); else REACH("delivered");
        // the delivered events are published ones in their order
        size_t at = 0;
        bool ordered = true;
        if (n == 3) { for (int i = 0; i < 3; i++) ordered &= got[i] == v[i]; }
        else if (n == 2) ordered = got[1] == v[2] && (got[0] == v[0] || got[0] == v[1]);
        else ordered = n == 1 && got[0] == v[2];
        (void) at;
        CHECK(ordered, "events arrive intact and in the order of their publication");
        CHECK(publisher->publicationStats.totalProcessed == 3, "publications are counted");
    }
    CHECK(container.publication.empty() && container.subscription.empty() && !container.bad, "publisher and listeners are detached from the container when they end");
}
//! harness: patience
//! prop: C27
//! opts: --races=1 --pb=0 --fair=1 --maxsched=3000 --qtime=60
//! thorough-opts: --races=1 --pb=1 --fair=1 --maxsched=3000 --qtime=60
//! time: 60
//! reach: waited
//! bounds: a thread publishes through either blocking queue with a limit of 1, full with an arbitrary event, and waits through 150 of its retries until the provider starts
//! outside: longer waits
HARNESS(patience)
{
    bool basic = pick(2, "queue");
    int64_t a = sym_i64("a"), b = sym_i64("b");
    std::atomic<int> n{0};
    std::atomic<bool> done{false};
    int64_t got[2] = {};
    auto provider = make(nullptr, basic, 1, 0, false);
    provider->getSubscriber()->registerListener("listener", [&](const event_t &e) { CHECK(n < 2, "every event is delivered once"); got[n] = e.v; n++; });
    provider->getPublisher()->publish(event_t(a));
    std::thread t([&]() { provider->getPublisher()->publish(event_t(b)); done = true; });
    for (int i = 0; i < 150; i++) kse_yield();
    CHECK(!done, "a blocking publisher waits until there is room");
    REACH("waited");
    provider->start();
    t.join();
    for (int waits = 0; n < 2; kse_yield()) CHECK(++waits < 60, "every event is delivered once, or discarded and counted");
    provider->stop();
    CHECK(got[0] == a && got[1] == b, "events arrive intact and in the order of their publication");
}
//! harness: end_running
//! prop: C28
//! opts: --pb=3 --races=1 --qtime=60
//! thorough-opts: --pb=5 --races=1 --qtime=60
//! time: 120
//! reach: ended
//! bounds: a provider with either queue is destroyed while it runs, with an event pending or not; every interleaving with at most 3 (thorough: 5) preemptions
//! outside: publishing from another thread at the same time
HARNESS(end_running)
{
    bool basic = pick(2, "queue");
    int events = pick(2, "events");
    std::atomic<int> n{0};
    {
        auto provider = make(nullptr, basic, 2, 0, true);
        provider->getSubscriber()->registerListener("listener", [&](const event_t &e) { CHECK(e.v == 5, "events arrive intact"); n++; });
        provider->start();
        for (int i = 0; i < events; i++) provider->getPublisher()->publish(event_t(5));
    }
    CHECK(n <= events, "every event is delivered at most once");
    REACH("ended");
}
//! harness: deliver_threads
//! prop: C27
//! opts: --races=1 --pb=1 --qtime=60
//! thorough-opts: --races=1 --pb=2 --qtime=60
//! time: 180
//! thorough-time: 900
//! reach: done forwarded
//! bounds: two threads publish one arbitrary event each through the locking queue with a limit of 1, blocking, pool of 0 or 1, to a listener that forwards a transformed event to a second provider or not; every interleaving with at most 1 (thorough: 2) preemption
//! outside: more threads or events
HARNESS(deliver_threads)
{
    int pool = pick(2, "pool size");
    bool forward = pick(2, "forwarding");
    int64_t a = sym_i64("a"), b = sym_i64("b");
    std::atomic<int> n{0}, m{0};
    int64_t got[3] = {}, second[3] = {};
    kpsr::mem::BasicMiddlewareProvider<event_t> next(nullptr, "next", 4, 0, nullptr, nullptr, false);
    kpsr::mem::BasicMiddlewareProvider<event_t> provider(nullptr, "event", 1, pool, nullptr, nullptr, false);
    provider.getSubscriber()->registerListener("listener", [&](const event_t &e) { CHECK(n < 2, "every event is delivered once"); got[n] = e.v; n++; });
    auto forwarder = next.getProcessForwarder<event_t>([](const event_t &s, event_t &d) { d.v = s.v + 1; });
    if (forward) provider.getSubscriber()->registerListener("forwarder", forwarder->forwarderListenerFunction);
    next.getSubscriber()->registerListener("last", [&](const event_t &e) { CHECK(m < 2, "every event is delivered once"); second[m] = e.v; m++; });
    provider.start();
    std::thread t([&]() { provider.getPublisher()->publish(event_t(a)); });
    provider.getPublisher()->publish(event_t(b));
    t.join();
    while (n < 2) kse_yield();
    provider.stop();
    if (forward) {
        next.start();
        while (m < 2) kse_yield();
        next.stop();
        CHECK(second[0] == got[0] + 1 && second[1] == got[1] + 1, "forwarded events are transformed and in order");
        REACH("forwarded");
    }
    CHECK((got[0] == a && got[1] == b) || (got[0] == b && got[1] == a), "events of two threads arrive intact");
    REACH("done");
}

// C32: an event loop delivers from its own thread. C33: it starts and stops. C34: its scheduler.
//! cflags: -I$V/stubs/sdk -I$V/rt
//! src: $R/core/modules/mem_mdlw/src/basic_scheduler.cpp $R/high_performance/modules/high_performance/src/event_loop_scheduler.cpp
//! libs: -lpthread
//! assume: the Klepsydra SDK (containers, statistics, clock, publisher, subscriber and scheduler interfaces) is a stand-in written from its uses and documentation
#include "kse_rt.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <functional>
#include <list>
#include <memory>
#include <stdexcept>
#include <string>
#include <sys/types.h>
#include <thread>
#include <vector>
#include <spdlog/spdlog.h>
// gcc accepts std::exception("text") in the pool's unsupported operations, clang does not
namespace std { struct kse_exception : exception { kse_exception(const char *) {} }; }
#define exception kse_exception
#include <klepsydra/core/smart_object_pool.h>
#undef exception
#include <klepsydra/high_performance/event_loop_middleware_provider.h>
#include "sdk_container.h"

namespace {
int pick(unsigned n, const char *name) { return (int) kse_concretize(kse_pick(n, name)); }
struct event_t { int64_t v = 0; event_t() {} event_t(int64_t v) : v(v) {} };
template<int N> using provider_t = kpsr::high_performance::EventLoopMiddlewareProvider<N>;
template<int N> long long discarded(kpsr::Publisher<event_t> *p) { return (long long) static_cast<kpsr::high_performance::EventLoopPublisher<event_t, N> *>(p)->_discardedMessages; }

template<int N> void deliver()
{
    int pool = pick(2, "pool size") * 2;
    bool unsafe = KSE_THOROUGH ? pick(2, "unsafe publisher") : pool;
    int topics = 1 + pick(2, "topics"), again = pick(2, "stop in between");
    bool safe = KSE_THOROUGH ? pick(2, "emitter") : topics == 2;
    Rec container;
    std::atomic<int> n{0};
    std::vector<int64_t> got[2];
    std::vector<int64_t> sent[2];
    {
        provider_t<N> provider(&container, "loop", 100 * 1000, {}, safe ? kpsr::EventEmitterType::SAFE : kpsr::EventEmitterType::UNSAFE_MULTI);
        const char *names[2] = {"a", "b"};
        kpsr::Publisher<event_t> *publisher[2];
        std::thread::id thread = std::this_thread::get_id();
        for (int t = 0; t < topics; t++) {
            publisher[t] = provider.template getPublisher<event_t>(names[t], pool, nullptr, nullptr, unsafe);
            CHECK(publisher[t] == provider.template getPublisher<event_t>(names[t], pool, nullptr, nullptr, unsafe), "a topic has one publisher");
            auto *subscriber = provider.template getSubscriber<event_t>(names[t]);
            CHECK(subscriber == provider.template getSubscriber<event_t>(names[t]), "a topic has one subscriber");
            subscriber->registerListener("listener", [&, t](const event_t &e) { CHECK(std::this_thread::get_id() != thread, "listeners run in the thread of the loop"); got[t].push_back(e.v); n++; });
        }
        provider.start();
        CHECK(provider.isRunning(), "a started provider runs");
        int published = 0;
        auto lost = [&]() { long long d = 0; for (int t = 0; t < topics; t++) d += discarded<N>(publisher[t]); return (int) d; };
        for (int i = 0; i < 3; i++) {
            if (again && i == 2) {
                while (n + lost() < published) kse_yield();
                provider.stop();
                CHECK(!provider.isRunning(), "a stopped provider does not run");
                provider.start();
                REACH("resumed");
            }
            int t = topics == 1 ? 0 : pick(2, "topic");
            int64_t v = sym_i64("v");
            int before = lost();
            { event_t e(v); publisher[t]->publish(e); e.v = 0; }
            published++;
            if (lost() == before) sent[t].push_back(v);
            else { CHECK(lost() == before + 1 && published - 1 - before >= N, "an event is discarded only when the buffer is full"); REACH("discarded"); }
        }
        while (n + lost() < published) kse_yield();
        provider.stop();
        CHECK(n + lost() == published, "every event is delivered once, or discarded and counted");
        for (int t = 0; t < topics; t++) CHECK(publisher[t]->publicationStats.totalProcessed + 0 >= (long long) sent[t].size(), "publications are counted");
    }
    for (int t = 0; t < 2; t++) {
        CHECK(got[t].size() == sent[t].size(), "events arrive at the listeners of their topic");
        bool ordered = true;
        for (size_t i = 0; i < got[t].size(); i++) ordered &= got[t][i] == sent[t][i];
        CHECK(ordered, "events of a topic arrive intact and in the order of their publication");
    }
    CHECK(container.publication.empty() && container.subscription.empty() && !container.bad, "publishers and listeners are detached from the container when they end");
    REACH("delivered");
}
}
//! harness: loop_deliver
//! prop: C32
//! opts: --races=1 --pb=1 --qtime=60
//! thorough-opts: --races=1 --pb=2 --qtime=60
//! time: 180
//! thorough-time: 900
//! reach: delivered discarded resumed
//! bounds: an event loop with a buffer of 2 (thorough: also 4), 1 or 2 topics with a pool of 0 or 2, checking or not; 3 arbitrary events, with a stop and another start in between or not; every interleaving with at most 1 (thorough: 2) preemptions
//! outside: more events or larger buffers; publishing while the loop starts or stops
HARNESS(loop_deliver)
{
    if (KSE_THOROUGH && pick(2, "size")) deliver<4>(); else deliver<2>();
}
//! harness: loop_threads
//! prop: C32
//! opts: --races=1 --pb=1 --qtime=60
//! thorough-opts: --races=1 --pb=2 --qtime=60
//! time: 180
//! thorough-time: 900
//! reach: done discarded processed
//! bounds: two threads publish 2 and 1 arbitrary events to one topic of an event loop with a buffer of 2, pool of 0 or 1, copied, shared or filled in place; every interleaving with at most 1 (thorough: 2) preemptions
//! outside: more threads or events
HARNESS(loop_threads)
{
    int pool = pick(2, "pool size"), how = pick(3, "way");
    int64_t a[2] = {sym_i64("a"), sym_i64("a")}, b = sym_i64("b");
    std::atomic<int> n{0};
    int64_t got[4] = {};
    std::weak_ptr<const event_t> kept[3];
    {
        provider_t<2> provider(nullptr, "loop");
        auto *publisher = provider.getPublisher<event_t>("topic", pool, nullptr, nullptr);
        provider.getSubscriber<event_t>("topic")->registerListener("listener", [&](const event_t &e) { CHECK(n < 3, "every event is delivered once"); got[n] = e.v; n++; });
        auto publish = [&](int64_t v, int k) {
            if (how == 0) { event_t e(v); publisher->publish(e); e.v = 0; }
            else if (how == 1) { auto e = std::make_shared<const event_t>(v); kept[k] = e; publisher->publish(e); }
            else { publisher->processAndPublish([v](event_t &e) { e.v = v; }); REACH("processed"); }
        };
        provider.start();
        std::thread t([&]() { publish(a[0], 0); publish(a[1], 1); });
        publish(b, 2);
        t.join();
        int lost;
        for (;;) { lost = (int) discarded<2>(publisher); if (n + lost >= 3) break; kse_yield(); }
        provider.stop();
        CHECK(n + lost == 3, "every event is delivered once, or discarded and counted");
        for (auto &w : kept) CHECK(w.expired(), "the loop keeps nothing of an event that was handled");
        if (lost) REACH("discarded");
        CHECK(lost <= 1, "an event is discarded only when the buffer is full");
    }
    if (n == 3) CHECK((got[0] == a[0] && got[1] == a[1] && got[2] == b) || (got[0] == a[0] && got[1] == b && got[2] == a[1]) || (got[0] == b && got[1] == a[0] && got[2] == a[1]), "events of two threads arrive intact, those of one thread in order");
    else CHECK((got[0] == a[0] && got[1] == a[1]) || (got[0] == a[0] && got[1] == b) || (got[0] == b && got[1] == a[0]) || (got[0] == b && got[1] == a[1]), "events of two threads arrive intact, those of one thread in order");
    REACH("done");
}
//! harness: loop_life
//! prop: C33
//! opts: --races=1 --pb=2 --qtime=60
//! thorough-opts: --races=1 --pb=3 --qtime=60
//! time: 180
//! thorough-time: 900
//! reach: late stopped restarted delivered running
//! bounds: every sequence of 3 (thorough: 4) starts, stops and publications of an event loop that is patient or impatient with its thread, which ends stopped or running; every interleaving with at most 2 (thorough: 3) preemptions
//! outside: longer sequences; starting or stopping from several threads or from a listener
HARNESS(loop_life)
{
    std::atomic<int> n{0};
    std::atomic<bool> allowed{false};
    {
        provider_t<2> provider(nullptr, "loop", pick(2, "patience") ? 0 : 100 * 1000);
        auto *publisher = provider.getPublisher<event_t>("topic", 0, nullptr, nullptr);
        provider.getSubscriber<event_t>("topic")->registerListener("listener", [&](const event_t &e) { CHECK(allowed, "listeners run only between the start of the loop and the end of its stop"); n++; });
        bool running = false, once = false;
        CHECK(!provider.isRunning(), "a loop does not run before its start");
        for (int k = 0; k < (KSE_THOROUGH ? 4 : 3); k++) {
            int op = pick(3, "op");
            if (op == 0) {
                allowed = true;
                bool late = false;
                try { provider.start(); } catch (const std::runtime_error &) { late = true; REACH("late"); }
                if (late) { CHECK(!running, "a loop that runs stays as it is when started again"); provider.stop(); allowed = false; CHECK(!provider.isRunning(), "a stopped loop does not run"); continue; }
                CHECK(provider.isRunning(), "a started loop runs");
                if (once && !running) REACH("restarted");
                running = once = true;
            } else if (op == 1) {
                provider.stop();
                allowed = false;
                if (running) REACH("stopped");
                running = false;
                CHECK(!provider.isRunning(), "a stopped loop does not run");
            } else {
                int m = n;
                publisher->publish(event_t(k));
                if (running) { while (n == m) kse_yield(); CHECK(n == m + 1, "an event is delivered once"); REACH("delivered"); }
                else CHECK(n == m, "a loop that does not run delivers nothing");
            }
            CHECK(provider.isRunning() == running, "a loop runs from its start to its stop");
        }
        if (running) REACH("running");
    }
}
//! harness: loop_pending
//! prop: C33
//! opts: --races=1 --pb=2 --qtime=60
//! thorough-opts: --races=1 --pb=4 --qtime=60
//! time: 180
//! reach: ended none some again
//! bounds: a loop is stopped or destroyed with 1 or 2 events pending, pool of 0 or 2, and started again or not; every interleaving with at most 2 (thorough: 4) preemptions
//! outside: publishing while the loop stops
HARNESS(loop_pending)
{
    std::atomic<int> n{0};
    std::atomic<int64_t> last{-1};
    std::atomic<bool> allowed{true};
    int events = 1 + pick(2, "events"), pool = pick(2, "pool size") * 2, end = pick(3, "end");
    {
        provider_t<2> provider(nullptr, "loop");
        auto *publisher = provider.getPublisher<event_t>("topic", pool, nullptr, nullptr);
        provider.getSubscriber<event_t>("topic")->registerListener("listener", [&](const event_t &e) { CHECK(allowed, "listeners run only between the start of the loop and the end of its stop"); CHECK(e.v > last, "every event is delivered at most once, in order"); last = e.v; n++; kse_yield(); CHECK(allowed, "a stop waits until the listeners have returned"); });
        provider.start();
        for (int i = 0; i < events; i++) publisher->publish(event_t(i));
        if (end) {
            provider.stop();
            allowed = false;
            if (n == 0) REACH("none"); else REACH("some");
            if (end == 2) {
                allowed = true;
                provider.start();
                publisher->publish(event_t(7));
                while (last != 7) kse_yield();
                REACH("again");
                provider.stop();
                allowed = false;
            }
        }
    }
    CHECK(n <= events + 1, "every event is delivered at most once");
    REACH("ended");
}
//! harness: loop_tasks
//! prop: C34
//! opts: --db=1 --races=1 --maxsched=800 --qtime=60
//! thorough-opts: --db=2 --races=1 --maxsched=800 --qtime=60
//! time: 180
//! thorough-time: 900
//! reach: ran repeated drained ended notstarted
//! bounds: a named task or a (started or not) service, once or repeating, at once or after some time, on an event loop with a buffer of 2 (thorough: 4) together with an event; it is stopped or not before the loop ends; every interleaving with at most 1 (thorough: 2) deviations from running the threads in turn
//! outside: several tasks; using one scheduler from several threads; a task that stops itself
HARNESS(loop_tasks)
{
    constexpr int N = KSE_THOROUGH ? 4 : 2;
    struct Task {
        std::atomic<int> runs{0};
        std::atomic<bool> allowed{false}, repeat{false};
        std::atomic<std::thread::id> loop{std::thread::id()};
        std::atomic<uint64_t> from{0};
        void run()
        {
            CHECK(allowed, "a task runs only between its start and what is pending at its stop");
            CHECK(repeat || runs == 0, "a task that does not repeat runs once");
            CHECK(kse_clock() >= from, "a task runs when its time has passed");
            std::thread::id me = std::this_thread::get_id();
            if (loop == std::thread::id()) loop = me; else CHECK(loop == me, "tasks and listeners run in the thread of the loop");
            runs++;
            CHECK(allowed, "the end of the loop waits for the task");
        }
    } task;
    struct App : kpsr::Service {
        App(Task &t) : Service(nullptr, nullptr, "service"), task(t) {}
        void start() override {}
        void execute() override { task.run(); }
        void stop() override {}
        Task &task;
    } app(task);
    bool service = pick(2, "service"), up = !service || pick(2, "service started"), stopped = pick(2, "stopped");
    task.repeat = pick(2, "repeating");
    int after = task.repeat || pick(2, "after") ? 5 : 0;
    if (service && up) app.startup();
    {
        provider_t<N> provider(nullptr, "loop");
        std::atomic<bool> marked{false};
        auto *publisher = provider.template getPublisher<event_t>("topic", 0, nullptr, nullptr);
        std::thread::id thread = std::this_thread::get_id();
        provider.template getSubscriber<event_t>("topic")->registerListener("listener", [&](const event_t &e) {
            std::thread::id me = std::this_thread::get_id();
            CHECK(me != thread && (task.loop == std::thread::id() || task.loop == me), "tasks and listeners run in the thread of the loop");
            if (e.v) { task.allowed = false; marked = true; }
        });
        const char *name = service ? "tasks" : "";
        kpsr::Scheduler *scheduler = provider.getScheduler(name);
        CHECK(scheduler && scheduler == provider.getScheduler(name), "an event loop has one scheduler");
        provider.start();
        task.from = kse_clock() + after * 1000;
        task.allowed = up;
        if (service) scheduler->startScheduledService(after, task.repeat, &app);
        else scheduler->startScheduledTask("task", after, task.repeat, [&]() { task.run(); });
        publisher->publish(event_t(0));
        if (up) { int want = task.repeat ? 2 : 1; while (task.runs < want) kse_yield(); if (want == 2) REACH("repeated"); else REACH("ran"); }
        else REACH("notstarted");
        if (stopped) {
            if (service) scheduler->stopScheduledService(&app); else scheduler->stopScheduledTask("task");
            // what was handed to the loop before runs before this event
            long long before = discarded<N>(publisher);
            publisher->publish(event_t(1));
            if (discarded<N>(publisher) == before) { while (!marked) kse_yield(); REACH("drained"); }
            provider.stop();
            task.allowed = false;
        }
    }
    task.allowed = false;
    if (service && up) app.shutdown();
    REACH("ended");
}

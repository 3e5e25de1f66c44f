// C41: a provider can be given its container later.
//! cflags: -I$V/stubs/sdk -I$V/rt
//! src: $R/core/modules/mem_mdlw/src/basic_scheduler.cpp $R/high_performance/modules/high_performance/src/event_loop_scheduler.cpp
//! libs: -lpthread
//! assume: the Klepsydra SDK (containers, statistics, clock, publisher, subscriber and scheduler interfaces) is a stand-in written from its uses and documentation
#include "kse_rt.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <functional>
#include <list>
#include <memory>
#include <stdexcept>
#include <string>
#include <sys/types.h>
#include <thread>
#include <vector>
#include <spdlog/spdlog.h>
// gcc accepts std::exception("text") in the pool's unsupported operations, clang does not
namespace std { struct kse_exception : exception { kse_exception(const char *) {} }; }
#define exception kse_exception
#include <klepsydra/core/smart_object_pool.h>
#undef exception
#include <klepsydra/high_performance/event_loop_middleware_provider.h>
#include <klepsydra/high_performance/data_multiplexer_middleware_provider.h>
#include "sdk_container.h"

namespace {
int pick(unsigned n, const char *name) { return (int) kse_concretize(kse_pick(n, name)); }
struct event_t { int64_t v = 0; event_t() {} event_t(int64_t v) : v(v) {} };
}
//! harness: later_loop
//! prop: C41
//! opts: --races=1 --db=0 --qtime=60
//! thorough-opts: --races=1 --db=1 --qtime=60
//! time: 120
//! thorough-time: 600
//! reach: running set scheduler existing counted twice
//! bounds: an event loop with any kind of emitter and no container; a scheduler, a publisher and a subscriber with a listener made before the container is set or not, the loop running or not; a publisher, a subscriber and a listener made afterwards, one arbitrary event; the threads run in turn (thorough: 1 deviation)
//! outside: replacing one container by another; taking a container away
HARNESS(later_loop)
{
    typedef kpsr::high_performance::EventLoopMiddlewareProvider<4> provider_t;
    Rec container;
    int type = pick(3, "emitter");
    bool running = pick(2, "running"), scheduler = pick(2, "scheduler"), existing = type != kpsr::EventEmitterType::UNSAFE_SINGLE && pick(2, "existing");
    std::atomic<int> got{0}, old{0}, ran{0};
    int64_t v = sym_i64("v");
    {
        provider_t provider(nullptr, "loop", 100 * 1000, {}, (kpsr::EventEmitterType) type);
        kpsr::Publisher<event_t> *before = nullptr;
        if (existing) {
            before = provider.getPublisher<event_t>("old", 0, nullptr, nullptr);
            provider.getSubscriber<event_t>("old")->registerListener("listener", [&](const event_t &e) { CHECK(e.v == v, "events arrive intact"); old++; });
        }
        if (scheduler) provider.getScheduler();
        if (running) provider.start();
        provider.setContainer(&container);
        if (!running && scheduler && !existing) {
            CHECK(container.publication.size() == 1, "the publisher of a scheduler that is alone is attached to the container set later");
            CHECK(container.subscription.size() == (type == kpsr::EventEmitterType::SAFE ? 1 : 0), "the statistics of a scheduler that is alone are attached to the container set later");
            REACH("scheduler");
        } else CHECK(!running || (container.publication.empty() && container.subscription.empty()), "a running event loop ignores the container");
        size_t publications = container.publication.size();
        kpsr::Publisher<event_t> *publisher = nullptr;
        bool topic = type != kpsr::EventEmitterType::UNSAFE_SINGLE || !scheduler;
        if (topic) {
            publisher = provider.getPublisher<event_t>("new", 0, nullptr, nullptr);
            auto *subscriber = provider.getSubscriber<event_t>("new");
            subscriber->registerListener("listener", [&](const event_t &e) { CHECK(e.v == v, "events arrive intact"); got++; });
            CHECK(container.pubs(&publisher->publicationStats) == (running ? 0 : 1), "a publisher made after the container was set is attached to it");
            auto stats = subscriber->getSubscriptionStats("listener");
            CHECK(running ? container.subscription.empty() : stats && container.subs(stats.get()) == 1, "a listener added after the container was set is attached to it");
            CHECK(container.publication.size() == publications + (running ? 0 : 1), "nothing else is attached");
            if (!running) REACH("set");
        }
        if (!running) provider.start(); else REACH("running");
        if (before) { before->publish(event_t(v)); while (!old) kse_yield(); REACH("existing"); }
        if (publisher) {
            publisher->publish(event_t(v));
            while (!got) kse_yield();
            auto stats = provider.getSubscriber<event_t>("new")->getSubscriptionStats("listener");
            provider.stop();
            if (!running) { CHECK(stats->totalProcessed == 1, "statistics count what a listener got"); REACH("counted"); }
        }
        if (scheduler) {
            if (!provider.isRunning()) { provider.start(); REACH("twice"); }
            provider.getScheduler()->startScheduledTask("task", 0, false, [&]() { ran++; });
            while (!ran) kse_yield();
            provider.getScheduler()->stopScheduledTask("task");
        }
    }
    CHECK(got <= 1 && old <= 1 && ran <= 1, "events and tasks arrive once");
    CHECK(container.publication.empty(), "nothing of a provider that has ended stays attached: publishers");
    CHECK(container.subscription.empty(), "nothing of a provider that has ended stays attached: listeners");
}
//! harness: later_mux
//! prop: C41
//! opts: --races=1 --db=0 --qtime=60
//! thorough-opts: --races=1 --db=1 --qtime=60
//! time: 120
//! thorough-time: 600
//! reach: existing set delivered
//! bounds: a data multiplexer with no container and no or one subscriber with or without a listener when the container is set; a listener of that or of another subscriber afterwards, one arbitrary event; the threads run in turn (thorough: 1 deviation)
//! outside: replacing one container by another; taking a container away
HARNESS(later_mux)
{
    Rec container;
    int64_t v = sym_i64("v");
    int existing = pick(3, "existing");
    bool same = existing && pick(2, "same");
    std::atomic<int> got{0}, old{0};
    {
        kpsr::high_performance::DataMultiplexerMiddlewareProvider<event_t, 4> provider(nullptr, "mux");
        if (existing) { auto *s = provider.getSubscriber("a"); if (existing == 2) s->registerListener("old", [&](const event_t &e) { CHECK(e.v == v, "events arrive intact"); old++; }); REACH("existing"); }
        provider.setContainer(&container);
        auto *publisher = provider.getPublisher();
        CHECK(container.publication.size() == 1 && container.pubs(&publisher->publicationStats) == 1, "the publisher of a multiplexer is attached to the container set later");
        size_t before = container.subscription.size();
        auto *subscriber = provider.getSubscriber(same ? "a" : "b");
        subscriber->registerListener("new", [&](const event_t &e) { CHECK(e.v == v, "events arrive intact"); got++; });
        auto stats = subscriber->getSubscriptionStats("new");
        CHECK(container.subs(stats.get()) == 1 && container.subscription.size() == before + 1, "a listener added after the container was set is attached to it");
        REACH("set");
        publisher->publish(event_t(v));
        while (!got || (existing == 2 && !old)) kse_yield();
        CHECK(publisher->publicationStats.totalProcessed == 1, "publications are counted");
        REACH("delivered");
    }
    CHECK(got == 1 && old == (existing == 2), "events arrive once");
    CHECK(container.publication.empty(), "nothing of a provider that has ended stays attached: publishers");
    CHECK(container.subscription.empty(), "nothing of a provider that has ended stays attached: listeners");
}

// C21: in-process publishers and subscribers, with and without an object pool.
//! cflags: -I$V/stubs/sdk
//! libs: -lpthread
//! assume: the Klepsydra SDK (containers, statistics, clock, publisher and subscriber interfaces, event transformer) is a stand-in written from its uses
#include "kse_rt.h"
#include <algorithm>
#include <atomic>
#include <functional>
#include <list>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <spdlog/spdlog.h>
// gcc accepts std::exception("text") in the pool's unsupported operations, clang does not
namespace std { struct kse_exception : exception { kse_exception(const char *) {} }; }
#define exception kse_exception
#include <klepsydra/core/smart_object_pool.h>
#undef exception
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <klepsydra/core/event_forwarder.h>
#include "sdk_container.h"

namespace {
kpsr::SdkCounter<int> constructed, destroyed;
struct event_t {
    int64_t v = 0, init = 0;
    event_t() { constructed++; }
    event_t(int64_t v, int64_t init) : v(v), init(init) { constructed++; }
    event_t(const event_t &o) : v(o.v), init(o.init) { constructed++; }
    event_t &operator=(const event_t &o) { v = o.v; init = o.init; return *this; }
    ~event_t() { destroyed++; v = init = -999; }
};
typedef std::shared_ptr<const event_t> ptr;
const kpsr::EventEmitterType TYPE[] = {kpsr::SAFE, kpsr::UNSAFE_MULTI, kpsr::UNSAFE_SINGLE};
typedef std::function<void(event_t &)> init_t;
typedef std::function<void(const event_t &, event_t &)> clone_t;
init_t initOf(bool on) { return on ? init_t([](event_t &e) { e.init = 77; }) : init_t(); }
clone_t cloneOf(bool on) { return on ? clone_t([](const event_t &o, event_t &c) { c.v = o.v + 1; }) : clone_t(); }
}
//! harness: publish
//! prop: C21
//! opts: --qtime=60
//! time: 120
//! reach: pooled exhausted shared processed
//! bounds: pools of 0 to 2 events, with or without initialiser and cloner, every emitter; every sequence of 3 (thorough: 4) publications (by value, by shared pointer, by processing) of arbitrary events, where a listener keeps any of the events and lets go of any of them, even after the publisher is gone
//! outside: larger pools, longer sequences; cloners, initialisers and processing functions that throw
HARNESS(publish)
{
    constructed = 0; destroyed = 0;
    std::vector<ptr> held;
    std::vector<int64_t> heldV;
    {
        int pool = (int) kse_concretize(kse_pick(3, "pool size"));
        bool init = kse_concretize(kse_pick(2, "initialiser")), cloner = kse_concretize(kse_pick(2, "cloner"));
        Rec container;
        std::unique_ptr<kpsr::EventEmitterMiddlewareProvider<event_t>> provider(new kpsr::EventEmitterMiddlewareProvider<event_t>(&container, "event", pool, initOf(init), cloneOf(cloner), TYPE[kse_concretize(kse_pick(3, "emitter"))]));
        kpsr::Publisher<event_t> *publisher = provider->getPublisher();
        CHECK(container.pubs(&publisher->publicationStats) == 1, "a publisher is attached to its container");
        int got = 0;
        ptr last;
        bool keep = false;
        provider->getSubscriber()->registerSharedPtrListener("listener", [&](const ptr &e) { got++; last = e; });
        uint64_t allocations = pool;
        CHECK(publisher->publicationStats._totalEventAllocations == allocations, "a publisher counts the events it allocates");
        int steps = KSE_THOROUGH ? 4 : 3, pooledHeld = 0;
        std::vector<bool> heldPooled;
        for (int s = 0; s < steps; s++) {
            int kind = (int) kse_concretize(kse_pick(3, "publication"));
            int64_t v = sym_i64("v"), w = sym_i64("w");
            got = 0; last.reset();
            bool fresh = false, pooled = false;
            if (kind != 1) {
                pooled = pooledHeld < pool;
                if (!pooled) { allocations++; REACH("exhausted"); } else REACH("pooled");
            }
            if (kind == 0) {
                event_t e(v, w);
                publisher->publish(e);
                CHECK(e.v == v && e.init == w, "publishing leaves the publisher's own event alone");
                e.v++;
                CHECK(got == 1 && last && last.get() != &e, "a listener gets a copy of a published event");
                if (cloner) CHECK(last->v == v + 1 && last->init == (init ? 77 : 0), "an event is initialised and cloned by the given functions");
                else CHECK(last->v == v && last->init == w, "an event is copied when there is no cloner");
            } else if (kind == 1) {
                ptr e = std::make_shared<event_t>(v, w);
                publisher->publish(e);
                CHECK(got == 1 && last == e && e->v == v && e->init == w, "an event published by pointer is not copied");
                REACH("shared");
            } else {
                int runs = 0;
                publisher->processAndPublish([&](event_t &e) { runs++; if (init) CHECK(e.init == 77, "an event is initialised before it is processed"); e.v = v; });
                CHECK(runs == 1 && got == 1 && last && last->v == v, "a listener gets the processed event");
                REACH("processed");
            }
            CHECK(publisher->publicationStats._totalEventAllocations == allocations, "a publisher allocates an event exactly when no event of its pool is free");
            CHECK(publisher->publicationStats.totalProcessed == (uint64_t) (s + 1), "publications are counted");
            for (size_t i = 0; i < held.size(); i++) CHECK(held[i] != last && held[i]->v == heldV[i], "an event that is still held is not reused");
            if (kse_concretize(kse_pick(2, "keep"))) { held.push_back(last); heldV.push_back(last->v); heldPooled.push_back(pooled); if (pooled) pooledHeld++; }
            last.reset();
            if (held.size() && kse_concretize(kse_pick(2, "release"))) { if (heldPooled[0]) pooledHeld--; held.erase(held.begin()); heldV.erase(heldV.begin()); heldPooled.erase(heldPooled.begin()); }
        }
        provider.reset();
        CHECK(container.publication.empty() && container.subscription.empty() && !container.bad, "publisher and listeners are detached from the container when they end");
        for (size_t i = 0; i < held.size(); i++) CHECK(held[i]->v == heldV[i], "an event that is held outlives its publisher");
    }
    held.clear();
    CHECK(constructed == destroyed, "every event is destroyed once");
}
//! harness: subscribe
//! prop: C21
//! opts: --qtime=60
//! time: 120
//! reach: received once removed refused
//! bounds: every sequence of 4 (thorough: 5) registrations (by reference, by pointer, for single execution), removals by name, statistics look-ups and publications with 2 listener names, safe and unsafe multi-listener emitters
//! outside: two listeners of one name; several listeners on an emitter for a single one
HARNESS(subscribe)
{
    Rec container;
    kpsr::EventEmitterType type = TYPE[kse_concretize(kse_pick(2, "emitter"))];
    bool attached = kse_concretize(kse_pick(2, "container"));
    const char *name[] = {"a", "ab"};
    bool live[2] = {};
    int calls[2] = {}, expected[2] = {}, total[2] = {}, onceCalls = 0, onceExpected = 0, onceLive = 0;
    int64_t v = 0;
    {
        auto emitter = kpsr::EventEmitterFactory::createEventEmitter<ptr>(type);
        kpsr::EventEmitterSubscriber<event_t> subscriber(attached ? &container : nullptr, emitter, "event");
        kpsr::EventEmitterPublisher<event_t> publisher(nullptr, "event", emitter, 0, nullptr, nullptr);
        kpsr::EventForwarder<event_t> forwarder(&publisher);
        int steps = KSE_THOROUGH ? 5 : 4;
        for (int s = 0; s <= steps; s++) {
            int op = s == steps ? 9 : (int) kse_concretize(kse_pick(9, "op")), i = op & 1;
            if (op < 4) {
                if (live[i]) continue;
                if (op < 2) subscriber.registerListener(name[i], [&calls, &v, i](const event_t &e) { calls[i]++; CHECK(e.v == v, "a listener gets the published event"); });
                else subscriber.registerSharedPtrListener(name[i], [&calls, &v, i](const ptr &e) { calls[i]++; CHECK(e->v == v, "a listener gets the published event"); });
                live[i] = true; total[i] = 0;
            } else if (op < 6) { subscriber.removeListener(name[i]); if (live[i]) REACH("removed"); live[i] = false; }
            else if (op < 8) {
                auto st = subscriber.getSubscriptionStats(name[i]);
                if (!live[i]) CHECK(!st, "a name that is not registered has no statistics");
                else CHECK((st != nullptr) == (attached || type == kpsr::SAFE), "a registered listener has statistics");
                if (st) CHECK(st->totalProcessed == (uint64_t) total[i], "statistics belong to the listener of that name");
                auto none = subscriber.getSubscriptionStats("b");
                CHECK(!none, "a name that is not registered has no statistics");
                subscriber.removeListener("b");
            } else if (op == 8) {
                bool threw = false;
                try { if (s & 1) subscriber.registerListenerOnce([&](const event_t &e) { onceCalls++; CHECK(e.v == v, "a listener gets the published event"); });
                      else subscriber.registerSharedPtrListenerOnce([&](const ptr &e) { onceCalls++; CHECK(e->v == v, "a listener gets the published event"); }); }
                catch (std::invalid_argument &) { threw = true; }
                CHECK(threw == (type != kpsr::SAFE), "only a safe emitter takes single execution listeners");
                if (!threw) onceLive++;
            }
            if (op >= 6) {
                v = sym_i64("v");
                int before[2] = {calls[0], calls[1]};
                event_t e(v, 0);
                switch (s % 3) { case 0: publisher.publish(e); break; case 1: forwarder.onMessageReceived(e); break; default: publisher.publish(std::make_shared<const event_t>(e)); }
                for (int k = 0; k < 2; k++) { CHECK(calls[k] - before[k] == live[k], "a publication calls each registered listener once"); total[k] += live[k]; if (live[k]) REACH("received"); }
                onceExpected += onceLive; if (onceLive) REACH("once");
                onceLive = 0;
                CHECK(onceCalls == onceExpected, "a single execution listener is called by the next publication only");
            }
            CHECK(container.subscription.size() == (attached ? (size_t) (live[0] + live[1]) : 0) && !container.bad, "the statistics of the registered listeners are attached");
        }
        int refused = 0;
        std::function<void(const event_t &)> none; std::function<void(const ptr &)> noneShared;
        try { subscriber.registerListener("n", none); } catch (std::invalid_argument &) { refused++; }
        try { subscriber.registerListenerOnce(none); } catch (std::invalid_argument &) { refused++; }
        try { subscriber.registerSharedPtrListener("n", noneShared); } catch (std::invalid_argument &) { refused++; }
        try { subscriber.registerSharedPtrListenerOnce(noneShared); } catch (std::invalid_argument &) { refused++; }
        CHECK(refused == 4, "an empty listener is refused");
        REACH("refused");
        publisher.publish(event_t(v, 0));
    }
    CHECK(container.subscription.empty() && !container.bad, "a subscriber that ends detaches its listeners");
}
//! harness: forward
//! prop: C21
//! opts: --qtime=60
//! time: 60
//! reach: forwarded
//! bounds: a chain of two topics, pools of 0 or 1, every event, up to 3 events, a listener that keeps one of them
//! outside: longer chains
HARNESS(forward)
{
    int pool = (int) kse_concretize(kse_pick(2, "pool size"));
    kpsr::EventEmitterMiddlewareProvider<int64_t> source(nullptr, "source", 0, nullptr, nullptr);
    kpsr::EventEmitterMiddlewareProvider<event_t> target(nullptr, "target", pool, nullptr, nullptr);
    std::function<void(const int64_t &, event_t &)> f = [](const int64_t &s, event_t &d) { d.v = s ^ 0x55; };
    auto forwarder = target.getProcessForwarder(f);
    source.getSubscriber()->registerListener("forwarder", forwarder->forwarderListenerFunction);
    int got = 0; int64_t x = 0;
    ptr kept; int64_t keptV = 0;
    int keep = (int) kse_concretize(kse_pick(3, "keep"));
    target.getSubscriber()->registerSharedPtrListener("listener", [&](const ptr &e) { CHECK(e->v == (x ^ 0x55), "an event is transformed and published once"); if (got == keep) { kept = e; keptV = e->v; } got++; });
    for (int i = 0; i < 3; i++) {
        x = sym_i64("x");
        source.getPublisher()->publish(x);
        CHECK(got == i + 1, "an event is transformed and published once");
        if (kept) CHECK(kept->v == keptV, "an event that is still held is not reused");
    }
    REACH("forwarded");
}
//! harness: publish_threads
//! prop: C21
//! opts: --races=1 --pb=2 --qtime=60
//! time: 180
//! reach: done
//! bounds: two threads publish one event each, by value or by processing, through a pool of 1 or 2 events to a listener that keeps the events; every interleaving with at most 2 preemptions
//! outside: more threads, events or preemptions
HARNESS(publish_threads)
{
    kpsr::EventEmitterMiddlewareProvider<event_t> provider(nullptr, "event", 1 + (int) kse_concretize(kse_pick(2, "pool size")), nullptr, nullptr);
    bool process = kse_concretize(kse_pick(2, "processing"));
    std::atomic<int> n{0};
    ptr seen[2];
    provider.getSubscriber()->registerSharedPtrListener("listener", [&](const ptr &e) { seen[n++] = e; });
    auto run = [&](int64_t v) {
        if (process) provider.getPublisher()->processAndPublish([v](event_t &e) { e.v = v; e.init = -v; });
        else provider.getPublisher()->publish(event_t(v, -v));
    };
    std::thread t([&]() { run(1); });
    run(2);
    t.join();
    CHECK(n == 2 && seen[0] && seen[1] && seen[0] != seen[1], "every publication reaches the listener once");
    CHECK(seen[0]->v + seen[1]->v == 3 && seen[0]->v * seen[1]->v == 2 && seen[0]->init == -seen[0]->v && seen[1]->init == -seen[1]->v, "events published at the same time do not mix");
    REACH("done");
}

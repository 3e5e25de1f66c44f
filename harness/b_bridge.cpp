// C30: channels to and from a middleware. C31: managed services.
//! cflags: -I$V/stubs/sdk -I$V/rt
//! libs: -lpthread
//! assume: the Klepsydra SDK (containers, statistics, clock, services, publisher and subscriber interfaces, event transformer) is a stand-in written from its uses and documentation
#include "kse_rt.h"
#include <algorithm>
#include <atomic>
#include <functional>
#include <list>
#include <memory>
#include <stdexcept>
#include <string>
#include <sys/types.h>
#include <thread>
#include <vector>
#include <spdlog/spdlog.h>
// gcc accepts std::exception("text") in the pool's unsupported operations, clang does not
namespace std { struct kse_exception : exception { kse_exception(const char *) {} }; }
#define exception kse_exception
#include <klepsydra/core/smart_object_pool.h>
#undef exception
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <klepsydra/core/event_forwarder.h>
#include <klepsydra/core/from_middleware_channel.h>
#include <klepsydra/core/manage_service.h>
#include <klepsydra/core/to_middleware_channel.h>
#include "sdk_container.h"

namespace {
int pick(unsigned n, const char *name) { return (int) kse_concretize(kse_pick(n, name)); }
struct event_t { int64_t v = 0; event_t() {} event_t(int64_t v) : v(v) {} };
struct msg_t { uint32_t lo = 0, hi = 0; };
std::atomic<int> to{0}, from{0};
}
namespace kpsr {
template<> class Mapper<event_t, msg_t>
{
public:
    void fromMiddleware(const msg_t &m, event_t &e) { from++; e.v = (int64_t) ((uint64_t) m.hi << 32 | m.lo); }
    void toMiddleware(const event_t &e, msg_t &m) { to++; m.lo = (uint32_t) e.v; m.hi = (uint32_t) ((uint64_t) e.v >> 32); }
};
}
namespace {
// the middleware: what is published into it arrives at a function
struct Out : kpsr::Publisher<msg_t> {
    std::function<void(const msg_t &)> sink;
    int direct = 0;
    Out(std::function<void(const msg_t &)> f) : Publisher<msg_t>(nullptr, "out", "TEST"), sink(f) {}
    void processAndPublish(std::function<void(msg_t &)> process) override { msg_t m; process(m); sink(m); }
    void internalPublish(const msg_t &m) override { direct++; sink(m); }
    void internalPublish(std::shared_ptr<const msg_t> m) override { direct++; sink(*m); }
};
void send(kpsr::Publisher<event_t> *p, int how, int64_t v)
{
    if (how == 0) { event_t e(v); p->publish(e); e.v = 0; }
    else if (how == 1) p->publish(std::make_shared<const event_t>(v));
    else p->processAndPublish([v](event_t &e) { e.v = v; });
}
}
//! harness: bridge
//! prop: C30
//! opts: --qtime=60
//! time: 60
//! reach: done forwarded
//! bounds: 3 arbitrary events sent over a channel to a middleware and back, each copied, shared or filled in place, into a publisher with a pool of 0 to 2, with or without a forwarder
//! outside: mappers that throw
HARNESS(bridge)
{
    int pool = pick(3, "pool size");
    bool forward = pick(2, "forwarding");
    Rec container;
    to = from = 0;
    {
        std::vector<int64_t> got, second;
        int messages = 0;
        kpsr::EventEmitterMiddlewareProvider<event_t> next(&container, "next", pool, nullptr, nullptr), last(&container, "last", pool, nullptr, nullptr);
        next.getSubscriber()->registerListener("listener", [&](const event_t &e) { got.push_back(e.v); });
        last.getSubscriber()->registerListener("listener", [&](const event_t &e) { second.push_back(e.v); });
        kpsr::EventForwarder<event_t> forwarder(last.getPublisher());
        if (forward) next.getSubscriber()->registerListener("forwarder", [&](const event_t &e) { forwarder.onMessageReceived(e); });
        kpsr::FromMiddlewareChannel<event_t, msg_t> in(next.getPublisher());
        int64_t v[3];
        int sent = 0;
        kpsr::ToMiddlewareChannel<event_t, msg_t> out(&container, "out", std::unique_ptr<kpsr::Publisher<msg_t>>(new Out([&](const msg_t &m) {
            messages++;
            CHECK((int64_t) ((uint64_t) m.hi << 32 | m.lo) == v[sent], "the message is made from the event");
            in.onMiddlewareMessage(m);
        })));
        for (sent = 0; sent < 3; sent++) {
            v[sent] = sym_i64("v");
            send(&out, pick(3, "way"), v[sent]);
            CHECK(messages == sent + 1, "one message for each event");
            CHECK((int) got.size() == sent + 1 && got[sent] == v[sent], "the event arrives once and is what was sent");
        }
        CHECK(to == 3 && from == 3, "each event is mapped once in each direction");
        if (forward) { CHECK(second.size() == 3, "each event is forwarded once"); for (int i = 0; i < 3; i++) CHECK(second[i] == v[i], "each event is forwarded as it is"); REACH("forwarded"); }
        else CHECK(second.empty(), "nothing is forwarded without a forwarder");
    }
    CHECK(container.publication.empty() && container.subscription.empty() && !container.bad, "publishers and listeners are detached from the container when they end");
    REACH("done");
}
//! harness: bridge_threads
//! prop: C30
//! opts: --races=1 --pb=2 --qtime=60
//! thorough-opts: --races=1 --pb=4 --qtime=60
//! time: 120
//! reach: done
//! bounds: two threads send an arbitrary event each over one channel, copied, shared or filled in place; every interleaving with at most 2 (thorough: 4) preemptions
//! outside: more threads or events
HARNESS(bridge_threads)
{
    int64_t v[2] = {sym_i64("a"), sym_i64("b")};
    int how[2] = {pick(3, "way"), pick(3, "way")};
    std::atomic<int> n{0};
    msg_t got[2];
    kpsr::ToMiddlewareChannel<event_t, msg_t> out(nullptr, "out", std::unique_ptr<kpsr::Publisher<msg_t>>(new Out([&](const msg_t &m) { int i = n++; CHECK(i < 2, "one message for each event"); got[i] = m; })));
    std::thread t([&]() { send(&out, how[0], v[0]); });
    send(&out, how[1], v[1]);
    t.join();
    CHECK(n == 2, "one message for each event");
    auto value = [](const msg_t &m) { return (int64_t) ((uint64_t) m.hi << 32 | m.lo); };
    CHECK((value(got[0]) == v[0] && value(got[1]) == v[1]) || (value(got[0]) == v[1] && value(got[1]) == v[0]), "messages are made from the events");
    REACH("done");
}
//! harness: managed
//! prop: C31
//! opts: --qtime=60
//! time: 60
//! reach: started stopped ignored unmanaged
//! bounds: two managed services and one that has no subscriber, 4 arbitrary system events, any number outside of the known events included
//! outside: what happens on a second start or stop in a row; services that end before their subscriber
HARNESS(managed)
{
    struct S : kpsr::ManagedService {
        S(kpsr::Subscriber<kpsr::SystemEventData> *s, const char *name) : ManagedService(nullptr, s, name) {}
        int starts = 0, stops = 0;
        void start() override { starts++; }
        void execute() override {}
        void stop() override { stops++; }
    };
    kpsr::EventEmitterMiddlewareProvider<kpsr::SystemEventData> provider(nullptr, "system", 0, nullptr, nullptr);
    S a(provider.getSubscriber(), "a"), b(provider.getSubscriber(), "b"), c(nullptr, "c");
    bool started = false;
    for (int i = 0; i < 4; i++) {
        int e = (int) sym_u32("event");
        kse_assume(e >= 0 && e < 4); // the values of the enumeration's type
        if (e == kpsr::Start && started) return;
        if (e == kpsr::Stop && !started) return;
        int n = a.starts, m = a.stops;
        provider.getPublisher()->publish((kpsr::SystemEventData) e);
        if (e == kpsr::Start) { started = true; CHECK(a.starts == n + 1 && a.stops == m, "a start event starts the service"); REACH("started"); }
        else if (e == kpsr::Stop) { started = false; CHECK(a.starts == n && a.stops == m + 1, "a stop event stops the service"); REACH("stopped"); }
        else { CHECK(a.starts == n && a.stops == m, "other events are ignored"); REACH("ignored"); }
        CHECK(b.starts == a.starts && b.stops == a.stops, "each managed service follows the events");
        CHECK(a.isStarted() == started && b.isStarted() == started, "a service is started from a start event to a stop event");
    }
    CHECK(!c.starts && !c.stops, "a service without subscriber is left alone");
    REACH("unmanaged");
}

// C37: events travel over ZMQ channels. C38: the pollers of ZMQ channels start and stop.
//! cflags: -I$V/stubs/sdk -I$V/stubs/zmq -I$V/rt
//! libs: -lpthread
//! assume: ZMQ is a stand-in of publish-subscribe sockets in one process that drop nothing; the Klepsydra SDK (containers, statistics, clock, publisher and subscriber interfaces, event transformer) and string buffers are stand-ins written from their uses and documentation
#include "kse_rt.h"
#include <string.h>
#include <algorithm>
#include <atomic>
#include <functional>
#include <future>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <sys/types.h>
#include <thread>
#include <vector>
#include <spdlog/spdlog.h>
#include <zmq.hpp>
// gcc accepts std::exception("text") in the pool's unsupported operations, clang does not
namespace std {
struct kse_exception : exception { kse_exception(const char *) {} };
// string buffers as the library documents them
template<class C> struct kse_basic_streambuf {
    virtual ~kse_basic_streambuf() {}
    std::streamsize sputn(const C *s, std::streamsize n) { return xsputn(s, n); }
    std::streamsize sgetn(C *s, std::streamsize n) { return xsgetn(s, n); }
    std::streamsize in_avail() { return avail(); }
    long pubseekpos(long at, std::ios_base::openmode which = std::ios_base::in | std::ios_base::out) { return seekpos(at, which); }
protected:
    void setg(C *b, C *at, C *e) { _b = b; _g = at; _e = e; }
    virtual std::streamsize avail() { return _e - _g; }
    virtual std::streamsize xsputn(const C *, std::streamsize) { return 0; }
    virtual std::streamsize xsgetn(C *s, std::streamsize n) { std::streamsize k = 0; while (k < n && _g < _e) s[k++] = *_g++; return k; }
    virtual long seekpos(long, std::ios_base::openmode) { return -1; }
private:
    C *_b = nullptr, *_g = nullptr, *_e = nullptr;
};
std::atomic<int> kse_buffers{0};
struct kse_stringbuf : kse_basic_streambuf<char> {
    kse_stringbuf() { kse_buffers++; }
    kse_stringbuf(const kse_stringbuf &) = delete;
    ~kse_stringbuf() { kse_buffers--; }
    std::string str() const { return _text; }
    void str(const std::string &s) { _text = s; _in = _out = 0; }
protected:
    std::streamsize avail() override { return (std::streamsize) (_text.size() - _in); }
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        for (std::streamsize i = 0; i < n; i++, _out++) if (_out < _text.size()) _text[_out] = s[i]; else _text.push_back(s[i]);
        return n;
    }
    std::streamsize xsgetn(char *s, std::streamsize n) override { std::streamsize k = 0; while (k < n && _in < _text.size()) s[k++] = _text[_in++]; return k; }
    long seekpos(long at, std::ios_base::openmode which) override
    {
        if (at < 0 || (size_t) at > _text.size()) return -1;
        if (which & std::ios_base::in) _in = (size_t) at;
        if (which & std::ios_base::out) _out = (size_t) at;
        return at;
    }
private:
    std::string _text;
    size_t _in = 0, _out = 0;
};
}
#define exception kse_exception
#include <klepsydra/core/smart_object_pool.h>
#undef exception
#define basic_streambuf kse_basic_streambuf
#define stringbuf kse_stringbuf
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <klepsydra/zmq_core/from_zmq_middleware_provider.h>
#include <klepsydra/zmq_core/to_zmq_middleware_provider.h>
#include "sdk_container.h"

namespace {
int pick(unsigned n, const char *name) { return (int) kse_concretize(kse_pick(n, name)); }
// an event is a text of up to 3 bytes
struct event_t {
    int n = 0;
    unsigned char b[3] = {};
    bool operator==(const event_t &o) const { if (n != o.n) return false; bool same = true; for (int i = 0; i < n; i++) same &= b[i] == o.b[i]; return same; }
};
event_t any(int n) { event_t e; e.n = n; for (int i = 0; i < n; i++) e.b[i] = sym_u8("b"); return e; }
}
namespace kpsr {
template<> class Mapper<event_t, Base>
{
public:
    void fromMiddleware(const Base &m, event_t &e) { CHECK(m->in_avail() <= 3, "a message holds one event"); e.n = (int) m->sgetn((char *) e.b, 3); }
    void toMiddleware(const event_t &e, Base &m) { m->sputn((const char *) e.b, e.n); }
};
template<> class Mapper<event_t, std::string>
{
public:
    void fromMiddleware(const std::string &m, event_t &e) { CHECK(m.size() <= 3, "a message holds one event"); e.n = (int) m.size(); for (int i = 0; i < e.n; i++) e.b[i] = (unsigned char) m[i]; }
    void toMiddleware(const event_t &e, std::string &m) { m.assign((const char *) e.b, (size_t) e.n); }
};
template<> class Mapper<event_t, std::vector<unsigned char>>
{
public:
    void fromMiddleware(const std::vector<unsigned char> &m, event_t &e) { CHECK(m.size() <= 3, "a message holds one event"); e.n = (int) m.size(); for (int i = 0; i < e.n; i++) e.b[i] = m[i]; }
    void toMiddleware(const event_t &e, std::vector<unsigned char> &m) { m.assign(e.b, e.b + e.n); }
};
}
namespace {
typedef std::string Json;
typedef std::vector<unsigned char> Bytes;
using namespace kpsr::zmq_mdlw;
template<class U> struct Kind;
template<> struct Kind<Base> {
    static kpsr::Publisher<event_t> *to(ToZMQMiddlewareProvider &p, const char *topic, int pool) { return p.getBinaryToMiddlewareChannel<event_t>(topic, pool); }
    static std::unique_ptr<FromZmqChannel<Base>> from(FromZmqMiddlewareProvider &p, zmq::socket_t &s) { return p.getBinaryFromMiddlewareChannel<event_t>(s, 1); }
};
template<> struct Kind<Json> {
    static kpsr::Publisher<event_t> *to(ToZMQMiddlewareProvider &p, const char *topic, int pool) { return p.getJsonToMiddlewareChannel<event_t>(topic, pool); }
    static std::unique_ptr<FromZmqChannel<Json>> from(FromZmqMiddlewareProvider &p, zmq::socket_t &s) { return p.getJsonFromMiddlewareChannel<event_t>(s, 1); }
};
template<> struct Kind<Bytes> {
    static kpsr::Publisher<event_t> *to(ToZMQMiddlewareProvider &p, const char *topic, int pool) { return p.getVoidCasterToMiddlewareChannel<event_t>(topic, pool); }
    static std::unique_ptr<FromZmqChannel<Bytes>> from(FromZmqMiddlewareProvider &p, zmq::socket_t &s) { return p.getVoidCasterFromMiddlewareChannel<event_t>(s, 1); }
};
void send(kpsr::Publisher<event_t> *p, int how, const event_t &v)
{
    if (how == 0) { event_t e(v); p->publish(e); e.n = 0; }
    else if (how == 1) p->publish(std::make_shared<const event_t>(v));
    else p->processAndPublish([v](event_t &e) { e = v; });
}
// what arrives at the listeners of a topic
struct Got {
    std::atomic<int> n{0};
    event_t e[8];
    void take(const event_t &x) { CHECK(n < 8, "every event arrives once"); e[n] = x; n++; }
};
const char *topics[2] = {"a", "ab"};
template<class U> void out()
{
    Rec container;
    int pool = pick(3, "pool size"), how = pick(3, "way");
    zmq::context_t context;
    {
        zmq::socket_t pub(context, ZMQ_PUB), sub(context, ZMQ_SUB);
        sub.kse_connect(pub);
        sub.setsockopt(ZMQ_SUBSCRIBE, "", 0);
        ToZMQMiddlewareProvider provider(&container, pub);
        kpsr::Publisher<event_t> *p[2];
        for (int t = 0; t < 2; t++) { p[t] = Kind<U>::to(provider, topics[t], pool); CHECK(p[t] && p[t] == Kind<U>::to(provider, topics[t], pool), "a topic has one channel"); }
        CHECK(p[0] != p[1], "each topic has its own channel");
        for (int k = 0; k < 3; k++) {
            int t = pick(2, "topic");
            event_t e = any(pick(4, "length"));
            send(p[t], how, e);
            CHECK(sub.kse_pending() == 1, "an event is sent once");
            zmq::message_t topic, content;
            sub.recv(topic);
            CHECK(topic.more() && topic.to_string() == topics[t], "a message starts with its topic");
            sub.recv(content);
            CHECK(!content.more() && (int) content.size() == e.n, "a message holds one event");
            bool same = true;
            for (int i = 0; i < e.n; i++) same &= (unsigned char) ((char *) content.data())[i] == e.b[i];
            CHECK(same, "the message is made from the event");
            REACH("sent");
        }
    }
    CHECK(container.publication.empty() && !container.bad, "publishers are detached from the container when they end");
    CHECK(std::kse_buffers == 0, "message buffers are freed");
}
template<class U> void in()
{
    zmq::context_t context;
    zmq::socket_t pub(context, ZMQ_PUB), sub(context, ZMQ_SUB);
    sub.kse_connect(pub);
    sub.setsockopt(ZMQ_SUBSCRIBE, "a", 1);
    Got got[2], last;
    bool registered[2] = {};
    kpsr::EventEmitterMiddlewareProvider<event_t> first(nullptr, "first", 0, nullptr, nullptr), second(nullptr, "second", 0, nullptr, nullptr);
    kpsr::EventEmitterMiddlewareProvider<event_t> *provider[2] = {&first, &second};
    std::atomic<bool> allowed{false};
    for (int t = 0; t < 2; t++) provider[t]->getSubscriber()->registerListener("listener", [&, t](const event_t &e) { CHECK(allowed, "nothing is delivered by a stopped channel"); got[t].take(e); });
    FromZmqMiddlewareProvider from;
    auto channel = Kind<U>::from(from, sub);
    ToZMQMiddlewareProvider to(nullptr, pub);
    channel->registerToTopic(topics[0], first.getPublisher());
    registered[0] = true;
    allowed = true;
    channel->start();
    for (int k = 0; k < 3; k++) {
        int op = pick(3, "op");
        if (op == 0) {
            // a later event shows that an earlier one was dealt with
            int t = pick(2, "topic");
            event_t e = any(k + 1), mark = any(2);
            int before[2] = {got[0].n, got[1].n};
            send(Kind<U>::to(to, topics[t], 1), 0, e);
            if (!registered[0] && !registered[1]) { while (sub.kse_pending()) kse_yield(); REACH("ignored"); continue; }
            int m = registered[0] ? 0 : 1;
            send(Kind<U>::to(to, topics[m], 1), 0, mark);
            int want[2] = {before[0], before[1]};
            if (registered[t]) want[t]++;
            want[m]++;
            for (int waits = 0; got[m].n < want[m]; kse_yield()) CHECK(++waits < 60, "events of a registered topic arrive");
            CHECK(got[0].n == want[0] && got[1].n == want[1], "events arrive once, at the publisher of their topic only");
            CHECK(got[m].e[want[m] - 1] == mark, "events arrive intact and in order");
            if (registered[t]) { CHECK(got[t].e[before[t]] == e, "events arrive intact and in order"); REACH("arrived"); } else REACH("ignored");
        } else {
            int t = pick(2, "topic");
            if (registered[t]) { channel->unregisterFromTopic(topics[t]); REACH("unregistered"); }
            else { channel->registerToTopic(topics[t], provider[t]->getPublisher()); REACH("registered"); }
            registered[t] = !registered[t];
        }
    }
    channel->stop();
    allowed = false;
}
}
//! harness: zmq_out
//! prop: C37
//! opts: --qtime=60
//! time: 120
//! reach: sent
//! bounds: 3 arbitrary events of 0 to 3 bytes over channels to two topics of one socket, binary, JSON or plain bytes, pool of 0 to 2, copied, shared or filled in place
//! outside: longer events; publishing into one socket from several threads; mappers that throw; lost messages
HARNESS(zmq_out)
{
    int kind = pick(3, "kind");
    if (kind == 0) out<Base>(); else if (kind == 1) out<Json>(); else out<Bytes>();
}
//! harness: zmq_in
//! prop: C37
//! opts: --races=1 --db=0 --maxsched=800 --qtime=60
//! thorough-opts: --races=1 --db=1 --maxsched=800 --qtime=60
//! time: 150
//! thorough-time: 900
//! reach: arrived ignored unregistered registered
//! bounds: 3 registrations, unregistrations and arbitrary events of two topics (one a prefix of the other) at a running channel, binary, JSON or plain bytes; threads run in turn (thorough: every interleaving with at most 1 deviation from that)
//! outside: longer events and sequences; lost or malformed messages; registering topics from a listener
HARNESS(zmq_in)
{
    int kind = pick(3, "kind");
    if (kind == 0) in<Base>(); else if (kind == 1) in<Json>(); else in<Bytes>();
}

//! harness: zmq_unregister
//! prop: C37
//! opts: --races=1 --pb=2 --qtime=60
//! thorough-opts: --races=1 --pb=3 --qtime=60
//! time: 150
//! thorough-time: 900
//! reach: before never other
//! bounds: an event of one byte is published to each of two topics, one of which is unregistered meanwhile; JSON or plain bytes; every interleaving with at most 2 (thorough: 3) preemptions
//! outside: more events; registering topics from a listener
HARNESS(zmq_unregister)
{
    int kind = pick(2, "kind");
    auto run = [](auto from, zmq::socket_t &pub, zmq::socket_t &sub, auto to) {
        std::atomic<bool> allowed{true};
        std::atomic<int> n[2] = {{0}, {0}};
        event_t e = any(1);
        kpsr::EventEmitterMiddlewareProvider<event_t> first(nullptr, "first", 0, nullptr, nullptr), second(nullptr, "second", 0, nullptr, nullptr);
        first.getSubscriber()->registerListener("listener", [&](const event_t &x) { CHECK(allowed, "nothing is delivered to an unregistered topic"); CHECK(x == e, "events arrive intact and in order"); kse_yield(); CHECK(allowed, "nothing is delivered to an unregistered topic"); n[0]++; });
        second.getSubscriber()->registerListener("listener", [&](const event_t &x) { CHECK(x == e, "events arrive intact and in order"); n[1]++; });
        ToZMQMiddlewareProvider out(nullptr, pub);
        FromZmqMiddlewareProvider provider;
        auto channel = from(provider, sub);
        channel->registerToTopic(topics[0], first.getPublisher());
        channel->registerToTopic(topics[1], second.getPublisher());
        channel->start();
        for (int t = 0; t < 2; t++) send(to(out, topics[t]), 0, e);
        channel->unregisterFromTopic(topics[0]);
        allowed = false;
        for (int waits = 0; n[1] < 1; kse_yield()) CHECK(++waits < 60, "events of a registered topic arrive");
        REACH("other");
        if (n[0]) REACH("before"); else REACH("never");
        channel->stop();
        CHECK(n[0] <= 1 && n[1] == 1, "every event arrives once");
    };
    zmq::context_t context;
    zmq::socket_t pub(context, ZMQ_PUB), sub(context, ZMQ_SUB);
    sub.kse_connect(pub);
    sub.setsockopt(ZMQ_SUBSCRIBE, "", 0);
    if (kind) run(Kind<Json>::from, pub, sub, [](ToZMQMiddlewareProvider &p, const char *t) { return Kind<Json>::to(p, t, 0); });
    else run(Kind<Bytes>::from, pub, sub, [](ToZMQMiddlewareProvider &p, const char *t) { return Kind<Bytes>::to(p, t, 1); });
}
//! harness: zmq_life
//! prop: C38
//! opts: --races=1 --pb=1 --qtime=60
//! thorough-opts: --races=1 --pb=2 --qtime=60
//! time: 150
//! thorough-time: 900
//! reach: ended arrived stopped restarted running
//! bounds: every sequence of 3 (thorough: 4) starts, stops and events of a channel from ZMQ, destroyed stopped or running, with an event pending or not; every interleaving with at most 1 (thorough: 2) preemptions
//! outside: longer sequences; starting or stopping from several threads or from a listener; sockets that fail
HARNESS(zmq_life)
{
    zmq::context_t context;
    zmq::socket_t pub(context, ZMQ_PUB), sub(context, ZMQ_SUB);
    sub.kse_connect(pub);
    sub.setsockopt(ZMQ_SUBSCRIBE, "", 0);
    std::atomic<bool> allowed{false};
    std::atomic<int> n{0};
    event_t e = any(1);
    int sent = 0;
    kpsr::EventEmitterMiddlewareProvider<event_t> provider(nullptr, "provider", 0, nullptr, nullptr);
    provider.getSubscriber()->registerListener("listener", [&](const event_t &x) { CHECK(allowed, "nothing is delivered by a stopped channel"); CHECK(x == e, "events arrive intact and in order"); kse_yield(); CHECK(allowed, "the end of a channel waits for a delivery"); n++; });
    ToZMQMiddlewareProvider out(nullptr, pub);
    {
        FromZmqMiddlewareProvider from;
        auto channel = Kind<Json>::from(from, sub);
        channel->registerToTopic("a", provider.getPublisher());
        bool running = false, once = false;
        for (int k = 0; k < (KSE_THOROUGH ? 4 : 3); k++) {
            int op = pick(3, "op");
            if (op == 0) {
                allowed = true;
                channel->start();
                if (once && !running) REACH("restarted");
                running = once = true;
            } else if (op == 1) {
                channel->stop();
                allowed = false;
                if (running) REACH("stopped");
                running = false;
            } else {
                send(Kind<Json>::to(out, "a", 0), 0, e);
                sent++;
                if (running && pick(2, "wait")) { for (int waits = 0; n < sent; kse_yield()) CHECK(++waits < 60, "events of a registered topic arrive"); REACH("arrived"); }
            }
        }
        if (running) REACH("running");
    }
    allowed = false;
    CHECK(n <= sent, "every event arrives at most once");
    REACH("ended");
}
namespace {
// a poller that only counts; impatient ones give a thread no time to start
struct Poller : ZMQPoller<std::string> {
    Poller(zmq::socket_t &s, long timeout) : ZMQPoller<std::string>(s, 1, timeout) {}
    std::atomic<int> polls{0};
    std::atomic<bool> allowed{false}, ending{false};
    std::atomic<int> late{0};
    void end() { late = 0; ending = true; stop(); ending = false; allowed = false; }
    bool runs() { return isRunning(); }
    void poll() override
    {
        while (_running) {
            CHECK(allowed, "a poller polls only between its start and the end of its stop");
            polls++;
            if (ending) CHECK(++late < 40, "a poller stops");
            std::this_thread::sleep_for(std::chrono::milliseconds(_pollPeriod));
        }
    }
};
}
//! harness: zmq_poller
//! prop: C38
//! opts: --races=1 --pb=2 --qtime=60
//! thorough-opts: --races=1 --pb=4 --qtime=60
//! time: 150
//! thorough-time: 900
//! reach: polled late restarted
//! bounds: every sequence of 3 (thorough: 4) starts and stops of a poller, patient or impatient with its thread; every interleaving with at most 2 (thorough: 4) preemptions
//! outside: longer sequences; starting or stopping from several threads; a poller destroyed while it runs
HARNESS(zmq_poller)
{
    zmq::context_t context;
    zmq::socket_t sub(context, ZMQ_SUB);
    Poller p(sub, pick(2, "patience") ? 0 : 100 * 1000);
    bool running = false, once = false;
    for (int k = 0; k < (KSE_THOROUGH ? 4 : 3); k++) {
        int op = pick(3, "op");
        if (op == 0) {
            p.allowed = true;
            bool late = false;
            try { p.start(); } catch (const std::runtime_error &) { late = true; REACH("late"); }
            if (late) { CHECK(!running, "a poller that runs stays as it is when started again"); p.end(); continue; }
            CHECK(p.runs(), "a started poller runs");
            if (once && !running) REACH("restarted");
            running = once = true;
        } else if (op == 1) {
            p.end();
            running = false;
        } else if (running) {
            int n = p.polls;
            while (p.polls == n) kse_yield();
            REACH("polled");
        }
    }
    p.end();
}

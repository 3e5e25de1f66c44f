// C22: request and reply callbacks. C23: cache listeners.
//! cflags: -I$V/stubs/sdk
//! libs: -lpthread
//! assume: the Klepsydra SDK (containers, statistics, clock, publisher and subscriber interfaces) is a stand-in written from its uses
#include "kse_rt.h"
#include <algorithm>
#include <atomic>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <klepsydra/core/callback_handler.h>
#include <klepsydra/core/cache_listener.h>

namespace {
struct request_t { uint8_t lo = 0, hi = 0; int serial = 0; };
struct reply_t { uint8_t id = 0; };
// a middleware of the application: requests are recorded and may be answered at once
struct Requests : kpsr::Publisher<request_t> {
    Requests() : Publisher(nullptr, "requests", "TEST") {}
    void processAndPublish(std::function<void(request_t &)>) override { CHECK(false, "requests are published as they are"); }
    void internalPublish(const request_t &r) override { onRequest(r); }
    void internalPublish(std::shared_ptr<const request_t> r) override { onRequest(*r); }
    std::function<void(const request_t &)> onRequest;
};
struct Replies : kpsr::Subscriber<reply_t> {
    Replies() : Subscriber(nullptr, "replies", "TEST") {}
    void registerListener(const std::string &name, const std::function<void(const reply_t &)> l) override
    { CHECK(!listener && l, "one listener for replies is registered"); listenerName = name; listener = l; }
    void registerListenerOnce(const std::function<void(const reply_t &)>) override { CHECK(false, "one listener for replies is registered"); }
    void removeListener(const std::string &name) override
    { CHECK(listener && name == listenerName, "the listener for replies is removed by its name"); listener = nullptr; removed++; }
    std::shared_ptr<kpsr::SubscriptionStats> getSubscriptionStats(const std::string &) override { return nullptr; }
    std::string listenerName;
    std::function<void(const reply_t &)> listener;
    int removed = 0;
};
typedef kpsr::CallbackHandler<request_t, reply_t> handler_t;
typedef kpsr::MultiThreadCallbackHandler<request_t, reply_t> mt_handler_t;
bool correlated(const request_t &r, const reply_t &p) { return r.lo <= p.id && p.id <= r.hi; }

struct World {
    Requests requests;
    Replies replies;
    std::unique_ptr<handler_t> handler;
    struct ref_t { request_t r; int nested; };
    std::vector<ref_t> pending;             // reference model
    int serials = 0, published = 0, depth = 0, budget = 0;
    int expected = -1;                      // serial of the callback that has to run now
    uint8_t replyId = 0;
    bool sync = false;
    uint8_t syncId = 0;
    void request(int nested)
    {
        request_t r;
        r.lo = sym_u8("lo"); r.hi = sym_u8("hi"); r.serial = serials++;
        int before = published;
        pending.push_back(ref_t{r, nested});
        int serial = r.serial;
        std::shared_ptr<int> token(new int(serial));
        CHECK(serial < 16, "a small number of requests");
        held[serial] = token;
        handler->requestAndReply(r, [this, serial, nested, token](const reply_t &p) {
            CHECK(serial == expected, "a reply runs the callback of the first pending request it is correlated with");
            CHECK(p.id == replyId, "a callback gets the reply");
            expected = -1;
            if (nested == 1) { REACH("nested-request"); request(0); }
            if (nested == 2) { REACH("nested-reply"); reply(sym_u8("nested id")); }
        });
        CHECK(published == before + 1 + (int) (nestedPublished), "a request is published once");
        nestedPublished = 0;
    }
    std::weak_ptr<int> held[16];            // what each callback holds on to
    void released()
    {
        for (int i = 0; i < serials; i++) {
            bool waits = false;
            for (auto &p : pending) waits = waits || p.r.serial == i;
            CHECK(waits == !held[i].expired(), "a callback is kept until its reply came, and let go of then");
        }
    }
    int nestedPublished = 0;
    void reply(uint8_t id)
    {
        reply_t p; p.id = id;
        int found = -1;
        for (size_t i = 0; i < pending.size() && found < 0; i++) if (correlated(pending[i].r, p)) found = (int) i;
        if (found >= 0) { expected = pending[found].r.serial; pending.erase(pending.begin() + found); REACH("answered"); }
        else { expected = -1; REACH("unmatched"); }
        replyId = id;
        bool must = found >= 0;
        ran = !must;
        int want = expected;
        replies.listener(p);
        CHECK(expected == -1 && (want >= 0 || !must), "a correlated reply runs the callback of its request");
    }
    bool ran = false;
};
}
//! harness: callback
//! prop: C22
//! opts: --qtime=60
//! time: 120
//! reach: answered unmatched nested-request nested-reply sync
//! bounds: single- and multi-thread handlers; every sequence of 4 (thorough: 5) requests and replies, correlated in any way, where replies may arrive while a request is being published and callbacks may issue requests and get replies themselves
//! outside: longer sequences; callbacks and correlation functions that throw; a correlation function that uses the handler
HARNESS(callback)
{
    World w;
    bool sync = kse_pick(2, "answer while publishing");
    w.requests.onRequest = [&](const request_t &r) {
        CHECK(w.pending.size() && w.pending.back().r.serial == r.serial && w.pending.back().r.lo == r.lo && w.pending.back().r.hi == r.hi, "the request itself is published");
        w.published++;
        if (sync && w.depth == 0) { w.depth++; int p = w.published; REACH("sync"); w.reply(sym_u8("sync id")); w.depth--; w.nestedPublished = w.published - p; }
    };
    if (kse_pick(2, "handler")) w.handler.reset(new mt_handler_t("app", &w.requests, &w.replies, correlated));
    else w.handler.reset(new handler_t("app", &w.requests, &w.replies, correlated));
    CHECK(w.replies.listener && w.replies.listenerName == "app", "a handler listens to the replies under its name");
    int steps = (sync ? 2 : 4) + (KSE_THOROUGH ? 1 : 0);
    for (int s = 0; s < steps; s++) {
        int op = (int) kse_pick(s == 0 ? 3 : 4, "op");
        if (op < 3) w.request(op);
        else { w.reply(sym_u8("id")); }
        w.released();
    }
    w.handler.reset();
    w.pending.clear();
    w.released();
    CHECK(!w.replies.listener && w.replies.removed == 1, "a handler that is gone does not listen any more");
}
//! harness: callback_threads
//! prop: C22
//! opts: --races=1 --qtime=60
//! time: 120
//! reach: early late
//! bounds: one thread issues a request while another one issues a request and a third delivers replies, or two deliver replies; every interleaving
//! outside: more threads or operations; destroying a handler while it is in use
HARNESS(callback_threads)
{
    Requests requests;
    Replies replies;
    std::atomic<int> published{0}, calls[3] = {{0}, {0}, {0}};
    requests.onRequest = [&](const request_t &) { published++; };
    {
        mt_handler_t handler("app", &requests, &replies, correlated);
        auto ask = [&](uint8_t lo, uint8_t hi, int i) { request_t r; r.lo = lo; r.hi = hi; handler.requestAndReply(r, [&calls, i](const reply_t &) { calls[i]++; }); };
        auto answer = [&](uint8_t id) { reply_t p; p.id = id; replies.listener(p); };
        int mode = (int) kse_pick(3, "mode");
        ask(0, 9, 0);
        if (mode == 0) { // two requests at once
            std::thread a([&]() { ask(1, 1, 1); });
            ask(2, 2, 2);
            a.join();
            answer(1); answer(1); answer(2);
            CHECK(calls[0] == 1 && calls[1] == 1 && calls[2] == 1, "every request gets its reply");
        } else if (mode == 1) { // request and reply
            std::thread a([&]() { ask(1, 1, 1); });
            answer(1); answer(1);
            a.join();
            CHECK(calls[0] == 1, "a reply runs the callback of the first pending request it is correlated with");
            if (calls[1]) REACH("early"); else REACH("late");
            bool was = calls[1];
            answer(1);
            CHECK(calls[1] == 1, "every request gets its reply");
            ask(3, 3, 2);
            (void) was;
        } else { // two replies at once
            ask(1, 1, 1);
            std::thread a([&]() { answer(1); });
            answer(1);
            a.join();
            CHECK(calls[0] == 1 && calls[1] == 1 && calls[2] == 0, "every reply answers one request");
            ask(3, 3, 2);
        }
        CHECK(published == 3, "a request is published once");
        int before = calls[2];
        answer(3);
        CHECK(calls[0] == 1 && calls[1] == 1 && calls[2] == (mode == 0 ? before : 1), "a callback runs once");
    }
    CHECK(!replies.listener, "a handler that is gone does not listen any more");
}
namespace {
struct value_t {
    int64_t v = 0, w = 0;
    bool operator==(const value_t &o) const { return v == o.v && w == o.w; }
};
typedef kpsr::mem::CacheListener<value_t> cache_t;
typedef kpsr::mem::MultiThreadCacheListener<value_t> mt_cache_t;
}
//! harness: cache
//! prop: C23
//! opts: --qtime=60
//! time: 60
//! reach: copied shared kept
//! bounds: plain, multi-thread and test listeners; every sequence of 4 (thorough: 6) arbitrary events, received by reference through the listener function, directly, or by pointer, any of which may be kept by a reader
//! outside: longer sequences; the time the copying takes
HARNESS(cache)
{
    int kind = (int) kse_pick(3, "listener");
    mt_cache_t *mt = nullptr;
    std::unique_ptr<cache_t> cache;
    if (kind == 0) cache.reset(new cache_t());
    else if (kind == 1) cache.reset(mt = new mt_cache_t());
    else cache.reset(new kpsr::mem::TestCacheListener<value_t>(0));
    CHECK(cache->counter == 0 && !cache->getLastReceivedEvent(), "nothing is cached before the first event");
    std::vector<std::shared_ptr<value_t>> held;
    std::vector<value_t> heldV;
    int steps = KSE_THOROUGH ? 6 : 4;
    for (int s = 0; s < steps; s++) {
        value_t e; e.v = sym_i64("v"); e.w = sym_i64("w");
        int op = (int) kse_pick(3, "op");
        std::shared_ptr<value_t> raw;
        value_t was = e;
        if (op == 0) cache->cacheListenerFunction(e);
        else if (op == 1) cache->onEventReceived(e);
        else { raw = std::make_shared<value_t>(e); cache->onEventReceivedRaw(raw); }
        CHECK(e == was, "the event itself is left alone");
        e.v++; // the cached copy is independent
        std::shared_ptr<value_t> last = cache->getLastReceivedEvent();
        CHECK(last && *last == was, "the last received event is cached");
        if (op == 2) { CHECK(last == raw, "an event received by pointer is not copied"); REACH("shared"); } else REACH("copied");
        CHECK(cache->counter == s + 1, "received events are counted");
        CHECK(cache->getLastReceivedEvent() == last, "reading the cached event leaves it there");
        if (mt) { auto both = mt->getCounterAndEvent(); CHECK(both.first == s + 1 && both.second == last, "counter and event belong together"); }
        for (size_t i = 0; i < held.size(); i++) CHECK(*held[i] == heldV[i] && held[i] != last, "an event that is still held is not changed by later events");
        if (kse_pick(2, "keep")) { held.push_back(last); heldV.push_back(was); REACH("kept"); }
    }
    cache.reset();
    for (size_t i = 0; i < held.size(); i++) CHECK(*held[i] == heldV[i], "an event that is held outlives the listener");
}
//! harness: cache_threads
//! prop: C23
//! opts: --races=1 --qtime=60
//! time: 120
//! reach: none first second
//! bounds: one thread receives two events, by reference or by pointer, while another one reads counter and event, or receives one too; every interleaving
//! outside: more threads or events; listeners that are not the multi-thread one; the time the copying takes
HARNESS(cache_threads)
{
    mt_cache_t cache;
    bool raw = kse_pick(2, "by pointer");
    auto receive = [&](int64_t v) {
        value_t e; e.v = v; e.w = -v;
        if (raw) cache.onEventReceivedRaw(std::make_shared<value_t>(e)); else cache.cacheListenerFunction(e);
    };
    int mode = (int) kse_pick(2, "mode");
    if (mode == 0) {
        std::thread t([&]() { receive(1); receive(2); });
        auto both = cache.getCounterAndEvent();
        auto last = cache.getLastReceivedEvent();
        if (both.first == 0) { CHECK(!both.second, "counter and event belong together"); REACH("none"); }
        else {
            CHECK(both.first <= 2 && both.second && both.second->v == both.first && both.second->w == -both.first, "counter and event belong together");
            CHECK(last && last->v >= both.second->v && last->w == -last->v, "the cached event is a whole event and never an older one");
            if (both.first == 1) REACH("first"); else REACH("second");
        }
        t.join();
        CHECK(cache.counter == 2 && cache.getLastReceivedEvent()->v == 2, "the last received event is cached");
    } else {
        std::thread t([&]() { receive(1); });
        receive(2);
        t.join();
        auto both = cache.getCounterAndEvent();
        CHECK(both.first == 2, "received events are counted");
        CHECK(both.second && (both.second->v == 1 || both.second->v == 2) && both.second->w == -both.second->v, "the cached event is a whole event and never an older one");
    }
}

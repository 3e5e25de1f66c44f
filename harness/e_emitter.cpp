// C18: unsafe multi-listener emitter; C19: unsafe single-listener emitter; C20: safe emitter.
//! cflags: -I$V/stubs/sdk
//! libs: -lpthread
//! assume: the Klepsydra SDK (containers, statistics, clock) is a stand-in written from its uses
#include "kse_rt.h"
#include <algorithm>
#include <atomic>
#include <list>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <spdlog/spdlog.h>
#include <klepsydra/core/safe_event_emitter.h>
#include <klepsydra/core/unsafe_multi_listener_event_emitter.h>
#include <klepsydra/core/unsafe_single_listener_event_emitter.h>
#include "sdk_container.h"

namespace {
struct event_t { int64_t v; };
const char *NAME[] = {"", "ab", "a"};
const char *SUB[] = {"", "st", "s"};
const int MAXL = 8;
struct rec { bool live = false; unsigned id = 0; int name = 0, sub = 0; bool once = false, stats = false; uint64_t calls = 0, discarded = 0, enqueued = 0; };
struct model_t {
    int n = 0;
    rec l[MAXL];
    int order[32], calls = 0;   // the listeners in the order they were called by the current emission
    const event_t *event = nullptr;
    int64_t v = 0;
    bool emitting = false;
} *M;
std::weak_ptr<int> held[MAXL]; // what each listener holds on to
std::function<void(const event_t &)> callbackOf(int i)
{
    std::shared_ptr<int> token(new int(i));
    held[i] = token;
    return [i, token](const event_t &e) {
        CHECK(M->emitting && &e == M->event && e.v == M->v, "a listener gets the event that is emitted");
        if (M->calls < 32) M->order[M->calls++] = i;
    };
}
template<class E> void emit(E &emitter, int sub, bool waiting = false)
{
    event_t e{sym_i64("event")};
    M->event = &e; M->v = e.v; M->calls = 0; M->emitting = true;
    kpsr::sdkClock = sym_u64("now");
    uint64_t enq = sym_u64("enqueued"), now = kpsr::sdkClock;
    if (waiting) ASSUME(enq > 0);
    emitter.emitEvent(SUB[sub], enq, e);
    M->emitting = false;
    CHECK(e.v == M->v, "an event is not changed by the emitter");
    int k = 0;
    for (int i = 0; i < M->n; i++) {
        rec &r = M->l[i];
        if (!r.live || r.sub != sub) continue;
        CHECK(k < M->calls && M->order[k] == i, "an emission calls each listener of its subscriber once, in the order of registration");
        k++;
        r.calls++;
        if (enq > 0) r.enqueued += now - enq;
        if (r.once) { r.live = false; REACH("once"); }
        REACH("emitted");
    }
    CHECK(k == M->calls, "an emission calls no other listener");
}
template<class E> void observeStats(E &emitter, Rec &container, bool attached)
{
    size_t live = 0;
    for (int i = 0; i < M->n; i++) {
        rec &r = M->l[i];
        auto st = emitter.getListenerStats(r.id);
        // an id is looked up for its current owner only
        bool current = r.live;
        for (int j = 0; j < M->n; j++) if (j != i && M->l[j].live && M->l[j].id == r.id) current = false;
        if (!r.live) CHECK(held[i].expired(), "a listener that was removed is let go of");
        if (!r.live) { if (!std::any_of(M->l, M->l + M->n, [&](rec &o) { return o.live && o.id == r.id; })) CHECK(st == nullptr, "a listener that was removed has no statistics"); continue; }
        CHECK((st != nullptr) == r.stats, "a registered listener has statistics when it was added for a container");
        if (!st) continue;
        CHECK(st->totalProcessed == r.calls, "statistics count the events a listener got");
        CHECK(st->totalDiscardedEvents == r.discarded, "statistics count the events discarded for a listener");
        CHECK(st->totalEnqueuedTimeInNs == r.enqueued, "statistics sum up the time the events were waiting");
        CHECK(st->open == 0, "every measure that starts ends");
        CHECK(st->name == NAME[r.name], "statistics have the name of their listener");
        if (attached) { live++; CHECK(container.subs(st.get()) == 1, "the statistics of a registered listener are attached to the container once"); }
    }
    if (attached) CHECK(container.subscription.size() == live, "only the statistics of registered listeners are attached");
    CHECK(!container.bad, "only what is attached is detached");
}
template<class E> void discard(E &emitter, int sub)
{
    emitter.discardEvent(SUB[sub]);
    for (int i = 0; i < M->n; i++) if (M->l[i].live && M->l[i].sub == sub && M->l[i].stats) M->l[i].discarded++;
}
}
//! harness: multi
//! prop: C18
//! opts: --qtime=60
//! time: 120
//! reach: emitted duplicate removed cleared
//! bounds: every sequence of up to 4 (thorough: 5) operations (add, remove, remove all, emit, discard) with 2 listener names, 2 subscriber names, with or without a container, every event and every time; all listeners emitted to and removed in the end
//! outside: adding or removing listeners from inside a listener; use by several threads; listeners that throw; adding with one container and removing with another
HARNESS(multi)
{
    model_t m; M = &m;
    Rec container;
    bool attached = kse_choose(2, "container");
    kpsr::Container *c = attached ? &container : nullptr;
    kpsr::UnsafeMultiListenerEventEmitter<event_t> emitter;
    unsigned next = 0;
    int steps = KSE_THOROUGH ? 5 : 4;
    for (int s = 0; s < steps; s++) {
        int op = (int) kse_choose(12, "op");
        if (op < 4) {
            int name = op & 1, sub = op >> 1, old = -1;
            for (int i = 0; i < m.n; i++) if (m.l[i].live && m.l[i].name == name) old = i;
            unsigned id = emitter.on(c, NAME[name], SUB[sub], callbackOf(m.n));
            if (old >= 0) { CHECK(id == m.l[old].id, "adding a listener again changes nothing and yields its id"); REACH("duplicate"); }
            else {
                for (int i = 0; i < m.n; i++) CHECK(!m.l[i].live || m.l[i].id != id, "registered listeners have different ids");
                rec &r = m.l[m.n++]; r.live = true; r.id = id; r.name = name; r.sub = sub; r.stats = attached;
                if (id >= next) next = id + 1;
            }
        } else if (op < 8) { // the last ones are not registered
            unsigned id = op - 4;
            emitter.removeListener(c, id);
            for (int i = 0; i < m.n; i++) if (m.l[i].live && m.l[i].id == id) { m.l[i].live = false; REACH("removed"); }
        } else if (op == 8) { emitter.removeAllListeners(c); for (int i = 0; i < m.n; i++) m.l[i].live = false; REACH("cleared"); }
        else if (op == 9) emit(emitter, 0);
        else if (op == 10) emit(emitter, 1);
        else discard(emitter, 0);
        observeStats(emitter, container, attached);
    }
    CHECK(emitter.getListenerStats(1000) == nullptr, "a listener that was never added has no statistics");
    bool threw = false;
    try { emitter.once(SUB[0], callbackOf(0)); } catch (std::invalid_argument &) { threw = true; }
    CHECK(threw, "single execution listeners are refused");
    emit(emitter, 2); emit(emitter, 0); emit(emitter, 1); discard(emitter, 1); discard(emitter, 2);
    observeStats(emitter, container, attached);
    emitter.removeAllListeners(c);
    for (int i = 0; i < m.n; i++) m.l[i].live = false;
    observeStats(emitter, container, attached);
    emit(emitter, 0);
}
//! harness: many
//! prop: C18
//! opts: --qtime=60
//! time: 120
//! reach: emitted removed again
//! bounds: 4 listeners of two subscribers in every distribution, one or two of them removed in every order and one of them added again, every event and every time
//! outside: adding or removing listeners from inside a listener; use by several threads; listeners that throw
HARNESS(many)
{
    static const char *const names[] = {"one", "", "three", "four"};
    model_t m; M = &m;
    Rec container;
    bool attached = kse_choose(2, "container");
    kpsr::Container *c = attached ? &container : nullptr;
    kpsr::UnsafeMultiListenerEventEmitter<event_t> emitter;
    auto add = [&](int name) {
        unsigned id = emitter.on(c, names[name], SUB[m.l[m.n].sub], callbackOf(m.n));
        for (int i = 0; i < m.n; i++) CHECK(!m.l[i].live || m.l[i].id != id, "registered listeners have different ids");
        rec &r = m.l[m.n++]; r.live = true; r.id = id; r.name = name; r.stats = attached;
    };
    for (int i = 0; i < 4; i++) { m.l[i].sub = (int) kse_concretize(kse_pick(2, "subscriber")); add(i); }
    int removed[2] = {-1, -1}, n = 1 + (int) kse_concretize(kse_pick(2, "number"));
    for (int k = 0; k < n; k++) {
        int i = removed[k] = (int) kse_concretize(kse_pick(4, "removed"));
        emitter.removeListener(c, m.l[i].id);
        m.l[i].live = false;
        REACH("removed");
        emit(emitter, 0, true); emit(emitter, 1, true);
    }
    for (int i = 0; i < 4; i++) CHECK(!attached || !m.l[i].live || emitter.getListenerStats(m.l[i].id)->name == names[m.l[i].name], "statistics have the name of their listener");
    if (kse_choose(2, "again")) { m.l[m.n].sub = m.l[removed[0]].sub; add(removed[0]); REACH("again"); }
    discard(emitter, 0);
    emit(emitter, 0, true); emit(emitter, 1, true);
    for (int i = 0; i < m.n; i++) if (m.l[i].live && attached) {
        auto st = emitter.getListenerStats(m.l[i].id);
        CHECK(st && st->totalProcessed == m.l[i].calls, "statistics count the events a listener got");
        CHECK(st->totalDiscardedEvents == m.l[i].discarded, "statistics count the events discarded for a listener");
    }
}
//! harness: single
//! prop: C19
//! opts: --qtime=60
//! time: 120
//! reach: emitted duplicate removed
//! bounds: every sequence of up to 4 (thorough: 6) operations (add, remove by any id, remove all, emit, discard) with 2 listener names and 2 subscriber names, with or without a container, every event and every time
//! outside: adding or removing listeners from inside a listener; use by several threads; listeners that throw; adding with one container and removing with another
HARNESS(single)
{
    model_t m; M = &m;
    Rec container;
    bool attached = kse_choose(2, "container");
    kpsr::Container *c = attached ? &container : nullptr;
    kpsr::UnsafeSingleListenerEventEmitter<event_t> emitter;
    int steps = KSE_THOROUGH ? 6 : 4;
    for (int s = 0; s < steps; s++) {
        int op = (int) kse_choose(11, "op");
        if (op < 4) {
            int name = op & 1, sub = op >> 1;
            bool live = false;
            for (int i = 0; i < m.n; i++) live |= m.l[i].live;
            if (!live && m.n) m.l[0] = rec(), m.n = 0;
            unsigned id = emitter.on(c, NAME[name], SUB[sub], callbackOf(m.n));
            CHECK(id == 0, "the only listener has id 0");
            if (live) REACH("duplicate"); // the first one stays
            else { rec &r = m.l[m.n++]; r.live = true; r.id = id; r.name = name; r.sub = sub; r.stats = attached; }
        } else if (op < 6) {
            unsigned id = op == 4 ? 0 : sym_u32("id");
            if (op == 5) ASSUME(id != 0);
            emitter.removeListener(c, id);
            for (int i = 0; i < m.n; i++) if (m.l[i].live && m.l[i].id == id) { m.l[i].live = false; REACH("removed"); }
        } else if (op == 6) { emitter.removeAllListeners(c); for (int i = 0; i < m.n; i++) m.l[i].live = false; }
        else if (op < 9) emit(emitter, op - 7);
        else discard(emitter, op - 9);
        observeStats(emitter, container, attached);
        if (m.n) CHECK(emitter.getListenerStats(1) == nullptr, "no other listener has statistics");
    }
    bool threw = false;
    try { emitter.once(SUB[0], callbackOf(0)); } catch (std::invalid_argument &) { threw = true; }
    CHECK(threw, "single execution listeners are refused");
    emit(emitter, 0); emit(emitter, 1); emit(emitter, 2);
    observeStats(emitter, container, attached);
}

//! harness: safe
//! prop: C20
//! opts: --qtime=60
//! time: 120
//! reach: emitted once removed refused cleared
//! bounds: every sequence of up to 4 (thorough: 5) operations (add, add for single execution, remove, remove all, emit, discard) with 2 subscriber names, with or without a container, every event and every time; all listeners emitted to and removed in the end
//! outside: listeners that throw; adding with one container and removing with another
HARNESS(safe)
{
    model_t m; M = &m;
    Rec container;
    bool attached = kse_choose(2, "container");
    kpsr::Container *c = attached ? &container : nullptr;
    kpsr::SafeEventEmitter<event_t> emitter;
    int steps = KSE_THOROUGH ? 5 : 4;
    for (int s = 0; s < steps; s++) {
        int op = (int) kse_choose(10, "op");
        if (op < 4) {
            int sub = op & 1, i = m.n++;
            rec &r = m.l[i];
            r.live = true; r.sub = sub; r.once = op >= 2; r.stats = !r.once; r.name = i % 3;
            r.id = r.once ? emitter.once(SUB[sub], callbackOf(i)) : emitter.on(c, NAME[r.name], SUB[sub], callbackOf(i));
            for (int j = 0; j < i; j++) CHECK(!m.l[j].live || m.l[j].id != r.id, "registered listeners have different ids");
        } else if (op < 7) { // the i-th listener that was added, or an id that was never given out
            unsigned id = sym_u32("id");
            int i = op - 4, found = -1;
            if (op < 6) { if (i >= m.n) continue; id = m.l[i].id; } else for (int j = 0; j < m.n; j++) ASSUME(id != m.l[j].id);
            for (int j = 0; j < m.n; j++) if (m.l[j].live && m.l[j].id == id) found = j;
            bool threw = false;
            try { emitter.removeListener(c, id); } catch (std::invalid_argument &) { threw = true; }
            CHECK(threw == (found < 0), "removing a listener that is not registered is refused");
            if (threw) REACH("refused"); else { m.l[found].live = false; REACH("removed"); }
        } else if (op == 7) { emitter.removeAllListeners(c); for (int i = 0; i < m.n; i++) m.l[i].live = false; REACH("cleared"); }
        else if (op == 8) emit(emitter, 0);
        else discard(emitter, 0);
        observeStats(emitter, container, attached);
    }
    emit(emitter, 2); emit(emitter, 0); emit(emitter, 1); discard(emitter, 1); discard(emitter, 2);
    observeStats(emitter, container, attached);
    emitter.removeAllListeners(c);
    for (int i = 0; i < m.n; i++) m.l[i].live = false;
    observeStats(emitter, container, attached);
    emit(emitter, 0);
}
//! harness: nested
//! prop: C20
//! opts: --qtime=60
//! time: 120
//! reach: selfremoval added nestedemission otherremoval
//! bounds: three listeners of one subscriber, each of either kind, where the second acts from inside its call: it removes itself, the first, or the third, adds a listener of either kind, emits a second event, discards, or removes all; then a further emission
//! outside: listeners that throw; deeper nesting than 2 emissions
HARNESS(nested)
{
    Rec container;
    kpsr::Container *c = kse_choose(2, "container") ? &container : nullptr;
    kpsr::SafeEventEmitter<event_t> emitter;
    int action = (int) kse_choose(9, "action");
    bool once[3];
    for (int i = 0; i < 3; i++) once[i] = kse_choose(2, "once");
    unsigned id[3];
    int calls[5] = {}, emissions = 0;
    bool acted = false;
    int64_t v[4], current = 0;
    for (auto &x : v) x = sym_i64("event");
    auto emitNext = [&]() { event_t e{v[emissions++]}; int64_t outer = current; current = e.v; emitter.emitEvent("s", 0, e); current = outer; };
    int before[5];
    auto body = [&](int i) { return [&, i](const event_t &e) {
        calls[i]++;
        CHECK(e.v == current, "a listener gets the event that is emitted");
        if (i != 1 || acted) return;
        acted = true;
        switch (action) {
        case 0: if (!once[1]) emitter.removeListener(c, id[1]); REACH("selfremoval"); break;
        case 1: if (!once[0]) { emitter.removeListener(c, id[0]); REACH("otherremoval"); } break;
        case 2: emitter.removeListener(c, id[2]); break;
        case 3: emitter.on(c, "d", "s", [&](const event_t &) { calls[3]++; }); REACH("added"); break;
        case 4: emitter.once("s", [&](const event_t &) { calls[4]++; }); break;
        case 5: emitNext(); REACH("nestedemission"); break;
        case 6: emitter.discardEvent("s"); break;
        case 7: emitter.removeAllListeners(c); break;
        default: break;
        } }; };
    for (int i = 0; i < 3; i++) id[i] = once[i] ? emitter.once("s", body(i)) : emitter.on(c, i == 0 ? "a" : i == 1 ? "b" : "c", "s", body(i));
    emitNext();
    int e1 = emissions; // emissions so far
    bool gone0 = (action == 1 && !once[0]) || action == 7, gone2 = action == 2 || action == 7;
    CHECK(calls[0] == (once[0] ? 1 : e1), "a listener is called by every emission, a single execution one by the first only");
    CHECK(calls[1] == (once[1] ? 1 : e1), "a listener is called by every emission, a single execution one by the first only");
    if (gone2) CHECK(calls[2] <= 1, "a listener is called at most once by an emission");
    else CHECK(calls[2] == (once[2] ? 1 : e1), "a listener that stays is called by every emission, a single execution one by the first only");
    CHECK(calls[3] == 0 && calls[4] == 0, "a listener added during an emission is not called by it");
    for (int i = 0; i < 5; i++) before[i] = calls[i];
    emitNext();
    CHECK(calls[0] - before[0] == (!once[0] && !gone0), "a listener that is gone is not called any more");
    CHECK(calls[1] - before[1] == (!once[1] && action != 0 && action != 7), "a listener that is gone is not called any more");
    CHECK(calls[2] - before[2] == (!once[2] && !gone2), "a listener that is gone is not called any more");
    CHECK(calls[3] == (action == 3) && calls[4] == (action == 4), "a listener added during an emission is called by the next one");
    emitNext();
    CHECK(calls[4] == (action == 4), "a single execution listener is called once");
    emitter.removeAllListeners(c);
    CHECK(container.subscription.empty() && !container.bad, "what was attached to the container is detached");
}
//! harness: threads_emit
//! prop: C20
//! opts: --races=1 --pb=3 --qtime=60
//! time: 120
//! reach: done
//! bounds: two threads emit, each once, to a single execution listener, alone or after a permanent one; every interleaving with at most 3 preemptions
//! outside: more threads or emissions
HARNESS(threads_emit)
{
    kpsr::SafeEventEmitter<event_t> emitter;
    std::atomic<int> always{0}, once{0};
    bool permanent = kse_choose(2, "permanent");
    unsigned id = permanent ? emitter.on(nullptr, "a", "s", [&](const event_t &) { always++; }) : 0;
    emitter.once("s", [&](const event_t &) { once++; });
    std::thread t([&]() { event_t e{1}; emitter.emitEvent("s", 0, e); });
    { event_t e{2}; emitter.emitEvent("s", 0, e); }
    t.join();
    CHECK(always == (permanent ? 2 : 0), "every emission calls a permanent listener");
    CHECK(once == 1, "a single execution listener is called once, whoever emits");
    if (permanent) CHECK(emitter.getListenerStats(id)->totalProcessed == 2, "every call is counted");
    REACH("done");
}
//! harness: threads_change
//! prop: C20
//! opts: --races=1 --pb=3 --qtime=60
//! time: 120
//! reach: both before
//! bounds: one thread emits twice while another adds a listener, looks up statistics, removes a listener or removes all; every interleaving with at most 3 preemptions
//! outside: more threads or operations
HARNESS(threads_change)
{
    Rec container;
    kpsr::SafeEventEmitter<event_t> emitter;
    int a = 0, b = 0, n = 0; // called by one thread only
    unsigned ida = emitter.on(&container, "a", "s", [&](const event_t &) { a++; });
    unsigned idb = emitter.on(&container, "b", "s", [&](const event_t &) { b++; });
    int op = (int) kse_choose(5, "op");
    std::thread t([&]() { event_t e{1}; emitter.emitEvent("s", 0, e); emitter.emitEvent("s", 0, e); });
    switch (op) {
    case 0: emitter.on(&container, "c", "s", [&](const event_t &) { n++; }); break;
    case 1: emitter.removeListener(&container, idb); break;
    case 2: emitter.removeAllListeners(&container); break;
    case 3: { auto st = emitter.getListenerStats(ida); CHECK(st && st->totalProcessed <= 2, "statistics can be looked up at any time"); break; }
    default: emitter.discardEvent("s"); emitter.once("s", [&](const event_t &) { n++; });
    }
    t.join();
    if (op != 2) CHECK(a == 2, "a listener that stays is called by every emission"); else CHECK(a <= 2, "a listener is called at most once by an emission");
    if (op == 1 || op == 2) CHECK(b <= 2, "a listener is called at most once by an emission"); else CHECK(b == 2, "a listener that stays is called by every emission");
    CHECK(n <= (op == 0 ? 2 : op == 4 ? 1 : 0), "a listener is called at most once by an emission");
    if (n == 2) REACH("before");
    a = b = 0; int n0 = n;
    event_t e{3};
    emitter.emitEvent("s", 0, e);
    CHECK(a == (op != 2) && b == (op != 1 && op != 2), "a listener that was removed is not called any more, all others are");
    if (op == 0) CHECK(n == n0 + 1, "a listener that was added is called");
    if (op == 4) CHECK(n == 1, "a single execution listener is called once");
    CHECK(container.subscription.size() == (op == 0 ? 3u : op == 1 ? 1u : op == 2 ? 0u : 2u) && !container.bad, "only the statistics of registered listeners are attached");
    REACH("both");
}
//! harness: threads_register
//! prop: C20
//! opts: --races=1 --pb=3 --qtime=60
//! time: 120
//! reach: done
//! bounds: two threads, each of which adds a listener and then keeps or removes it; every interleaving with at most 3 preemptions
//! outside: more threads or operations
HARNESS(threads_register)
{
    kpsr::SafeEventEmitter<event_t> emitter;
    int calls[2] = {};
    bool keep[2] = {(bool) kse_choose(2, "keep"), (bool) kse_choose(2, "keep")};
    unsigned id[2];
    auto body = [&](int i) { id[i] = emitter.on(nullptr, "a", "s", [&calls, i](const event_t &) { calls[i]++; }); if (!keep[i]) emitter.removeListener(nullptr, id[i]); };
    std::thread t([&]() { body(1); });
    body(0);
    t.join();
    CHECK(id[0] != id[1], "listeners have different ids");
    event_t e{1};
    emitter.emitEvent("s", 0, e);
    CHECK(calls[0] == keep[0] && calls[1] == keep[1], "a listener is called exactly while it is registered");
    REACH("done");
}

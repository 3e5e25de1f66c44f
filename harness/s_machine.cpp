// C13: a state machine follows its specification; C14: listeners run the actions of the states entered.
//! src: $R/state_machine/modules/state_machine/src/sm_factory_impl.cpp $R/state_machine/modules/state_machine/src/state_impl.cpp $R/state_machine/modules/state_machine/src/state_machine_impl.cpp $R/state_machine/modules/state_machine/src/state_machine_listener.cpp $R/state_machine/modules/state_machine/src/transition_impl.cpp
#include "kse_rt.h"
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <klepsydra/state_machine/sm_factory_impl.h>
#include <klepsydra/state_machine/state_machine_listener.h>
using namespace kpsr::fsm;

namespace {
const char *const ids[4] = {"idle", "a state with a long name", "x", "nowhere"}; // the last one is never a state
std::string symEvent(const char *n)
{
    std::string s(1, 'e');
    s[0] = (char) sym_u8(n);
    return s;
}
struct spec {
    int states;
    struct tr { int dest; char event; };
    std::vector<tr> t[3];
    ConfigStateMachine config;
    spec(int states, int most, int others) : states(states)
    {
        config.id = "m";
        for (int i = 0; i < states; i++) {
            ConfigState s;
            s.id = ids[i];
            int n = (int) kse_choose((i ? others : most) + 1, "transitions");
            for (int j = 0; j < n; j++) {
                int d = (int) kse_choose(states + 1, "destination");
                if (d == states) d = 3;
                ConfigTransition c;
                c.destinationId = ids[d];
                c.event = symEvent("transition event");
                t[i].push_back(tr{d, c.event[0]});
                s.transitions.push_back(c);
            }
            config.states.push_back(s);
        }
    }
};
struct machine_model {
    spec &sp;
    int current = 0;
    bool started = false;
    std::vector<char> queue;
    machine_model(spec &s) : sp(s) {}
    bool known() const { return current < sp.states; }
    bool update(bool &changed)
    {
        changed = false;
        if (!started || !known()) return false;
        while (!changed && !queue.empty()) {
            char e = queue[0];
            queue.erase(queue.begin());
            for (auto &x : sp.t[current]) if (x.event == e) { current = x.dest; changed = true; break; }
        }
        return true;
    }
};
struct seen {
    int calls = 0;
    std::string state;
    bool changed = false;
    std::function<void(const std::string &, bool)> func() { return [this](const std::string &s, bool c) { calls++; state = s; changed = c; }; }
};
void told(seen &o, int calls, const machine_model &m, bool changed)
{
    CHECK(o.calls == calls, "observers are told exactly once about every start and update of a running machine");
    if (calls) {
        CHECK(o.state == std::string("m:") + ids[m.current], "observers are told the machine and its current state");
        CHECK(o.changed == changed, "observers are told whether the state changed");
    }
    o.calls = 0;
}
}

//! harness: machine_history
//! prop: C13
//! bounds: 1..2 (thorough 3) states, 2 transitions from the first and 1 from the others, to any state or to an unknown one, on arbitrary one-byte events; 3 (thorough 4) operations: start, stop, events queued or handled at once, updates, resets
//! outside: longer event names; duplicate state names; resets with events pending
//! thorough-time: 1500
//! reach: moved ignored first_wins unknown several
HARNESS(machine_history)
{
    spec sp(1 + (int) kse_choose(KSE_THOROUGH ? 3 : 2, "states"), 2, 1);
    auto sm = SMFactoryImpl().createStateMachine(sp.config);
    machine_model m(sp);
    seen o;
    sm->registerObserver(o.func());
    if (kse_pick(2, "start at once")) { sm->start(); m.started = true; told(o, 1, m, true); }
    for (int k = 0; k < (KSE_THOROUGH ? 4 : 3); k++) {
        bool changed = false;
        switch (kse_pick(6, "operation")) {
        case 0: { std::string e = symEvent("event"); sm->enqueueEvent(e); if (m.started) m.queue.push_back(e[0]); else REACH("ignored"); told(o, 0, m, false); break; }
        case 1: { std::string e = symEvent("event"); size_t before = m.queue.size(); sm->enqueueAndUpdate(e); if (m.started) m.queue.push_back(e[0]);
            int was = m.current; bool tell = m.update(changed);
            if (changed) { REACH("moved"); if (sp.t[was].size() == 2 && sp.t[was][0].event == sp.t[was][1].event && sp.t[was][0].dest != sp.t[was][1].dest) REACH("first_wins"); if (before) REACH("several"); }
            told(o, tell, m, changed); break; }
        case 2: { sm->update(); bool tell = m.update(changed); told(o, tell, m, changed); if (m.started && !tell) REACH("unknown"); break; }
        case 3: sm->start(); m.started = true; told(o, 1, m, true); break;
        case 4: sm->stop(); m.started = false; told(o, 0, m, false); break;
        default: if (!m.queue.empty()) return; sm->reset(); m.started = false; m.current = 0; told(o, 0, m, false); break;
        }
    }
}
//! harness: machine_long_run
//! prop: C13
//! bounds: 3 states with one transition each (all to known states) on arbitrary one-byte events, 4 (thorough 5) events queued first, then updates until nothing is left
//! thorough-time: 900
//! reach: round
HARNESS(machine_long_run)
{
    spec sp(3, 0, 0);
    for (int i = 0; i < 3; i++) { ConfigTransition c; c.destinationId = ids[(i + 1) % 3]; c.event = symEvent("transition event"); sp.t[i].push_back(spec::tr{(i + 1) % 3, c.event[0]}); sp.config.states[i].transitions.push_back(c); }
    auto sm = SMFactoryImpl().createStateMachine(sp.config);
    machine_model m(sp);
    seen o, late;
    sm->registerObserver(o.func());
    sm->start(); m.started = true; told(o, 1, m, true);
    for (int i = 0; i < (KSE_THOROUGH ? 5 : 4); i++) { std::string e = symEvent("event"); sm->enqueueEvent(e); m.queue.push_back(e[0]); }
    bool stopping = kse_pick(2, "stop in between");
    for (int i = 0, rounds = 0; i < 6; i++) {
        bool changed;
        sm->update();
        bool tell = m.update(changed);
        told(o, tell, m, changed);
        if (changed && m.current == 0) { rounds++; REACH("round"); }
        if (i == 1 && stopping) { // pending events wait until the machine is started again
            sm->stop(); m.started = false; sm->update(); told(o, 0, m, false); sm->enqueueEvent("e"); sm->start(); m.started = true; told(o, 1, m, true);
        }
        if (i == 2) { sm->registerObserver(late.func()); }
        if (i == 3) { CHECK(late.calls == 1 && late.state == o.state && late.changed == changed, "every observer is told the same"); sm->unregisterObservers(); sm->update(); CHECK(late.calls == 1 && o.calls == 0, "unregistered observers are not told any more"); return; }
    }
}
//! harness: machine_names
//! prop: C13
//! bounds: transition events and the event of up to 3 arbitrary bytes each, two transitions; state, machine and destination names of arbitrary bytes
//! reach: first second none
HARNESS(machine_names)
{
    auto name = [](const char *n) { std::string s(kse_pick(4, "length"), '?'); for (auto &c : s) c = (char) sym_u8(n); return s; };
    ConfigStateMachine config;
    config.id = name("machine");
    std::string e1 = name("first event"), e2 = name("second event"), e = name("event");
    ConfigState st;
    st.id = "start";
    ConfigTransition c1, c2;
    c1.event = e1; c1.destinationId = "one"; c2.event = e2; c2.destinationId = "two";
    st.transitions = {c1, c2};
    config.states = {st};
    auto sm = SMFactoryImpl().createStateMachine(config);
    seen o;
    sm->registerObserver(o.func());
    sm->start();
    CHECK(o.state == config.id + ":start" && o.changed, "a machine starts in its first state");
    sm->enqueueAndUpdate(e);
    auto same = [](const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i]; return r; };
    const char *want = "start";
    if (same(e, e1)) { want = "one"; REACH("first"); } else if (same(e, e2)) { want = "two"; REACH("second"); } else REACH("none");
    CHECK(o.calls == 2 && o.state == config.id + ":" + want, "an event triggers the first transition with exactly its name");
}
//! harness: machine_reentrant
//! prop: C13
//! bounds: an observer that, once, feeds another arbitrary event, registers another observer or unregisters all of them while it is being told
//! reach: nested registered unregistered
HARNESS(machine_reentrant)
{
    spec sp(2, 1, 1);
    auto sm = SMFactoryImpl().createStateMachine(sp.config);
    machine_model m(sp);
    seen late, after;
    int how = (int) kse_pick(3, "how"), calls = 0;
    bool again = false;
    std::vector<std::string> states;
    sm->registerObserver([&](const std::string &s, bool) {
        states.push_back(s); // the argument stays valid until the observer acts
        calls++;
        if (!again || calls != 2) return;
        switch (how) {
        case 0: { std::string e = symEvent("nested event"); m.queue.push_back(e[0]); REACH("nested"); sm->enqueueAndUpdate(e); break; }
        case 1: sm->registerObserver(late.func()); sm->registerObserver(late.func()); sm->registerObserver(late.func()); REACH("registered"); break;
        default: sm->unregisterObservers(); REACH("unregistered"); break;
        }
        CHECK(s == states[1], "what an observer is told does not change under it");
    });
    sm->registerObserver(after.func());
    sm->start(); m.started = true;
    again = true;
    std::string e = symEvent("event");
    m.queue.push_back(e[0]);
    bool changed;
    int was = m.current;
    (void) was;
    m.queue.pop_back(); m.queue.push_back(e[0]);
    bool first = m.update(changed);
    sm->enqueueAndUpdate(e);
    CHECK(first && states.size() >= 2 && states[1].compare(0, 2, "m:") == 0, "observers are told");
    if (how == 0) { bool tell = m.update(changed); CHECK(calls == 2 + (tell ? 1 : 0), "a nested event is handled as any other"); }
    late.calls = 0;
    int before = calls;
    sm->update();
    bool tell = m.update(changed);
    if (how == 1) CHECK(late.calls == (tell ? 3 : 0), "an observer registered by another is told from the next update on");
    CHECK(calls - before == (tell && how != 2 ? 1 : 0), "an unregistered observer is not told any more");
}

namespace {
struct counter { int n = 0; std::string last; };
}
//! harness: listener_actions
//! prop: C14
//! bounds: a listener with or without a machine name, one action of every kind (thorough: another of any kind) on either of 2 states in any order, 3 (thorough 4) notifications of either state, another one, or another machine's, changed or not; periodic actions removed for one or all states in between
//! outside: actions added while notifications run, except in listener_reentrant
//! thorough-time: 900
//! reach: one_off plain periodic removed
HARNESS(listener_actions)
{
    bool named = kse_choose(2, "named");
    StateMachineListener l(named ? "m" : "");
    const char *full[4] = {"m:a", "m:b", "m:c", "n:a"};
    std::string key[2] = {named ? "a" : "m:a", named ? "b" : "m:b"};
    int got[3][2] = {}, want[3][2] = {}, have[3][2] = {};
    std::string last;
    auto add = [&](int kind, int s) {
        auto f = [&got, &last, kind, s](const std::string &x) { got[kind][s]++; last = x; };
        if (kind == 0) l.addOneOffAction(key[s], f); else if (kind == 1) l.addAction(key[s], f); else l.addPeriodicAction(key[s], f);
        have[kind][s]++;
    };
    int first = (int) kse_choose(3, "kind");
    for (int kind = 0; kind < 3; kind++) add((first + kind) % 3, (int) kse_choose(2, "state"));
    if (KSE_THOROUGH && kse_choose(2, "another")) add((int) kse_pick(3, "kind"), (int) kse_pick(2, "state"));
    auto tell = l.getObserverFunc();
    for (int k = 0; k < (KSE_THOROUGH ? 4 : 3); k++) {
        int op = (int) kse_choose(k == 0 ? 4 : 6, "step");
        if (op == 4) { int s = (int) kse_choose(2, "state"); l.removeActions(key[s]); have[2][s] = 0; REACH("removed"); continue; }
        if (op == 5) { l.removeActions(); have[2][0] = have[2][1] = 0; continue; }
        bool changed = sym_bool("changed");
        int before[3][2];
        for (int i = 0; i < 3; i++) for (int s = 0; s < 2; s++) before[i][s] = got[i][s];
        tell(full[op], changed);
        for (int s = 0; s < 2; s++) if (s == op) {
            if (changed) { want[0][s] += have[0][s]; if (have[0][s]) REACH("one_off"); have[0][s] = 0; want[1][s] += have[1][s]; if (have[1][s]) REACH("plain"); }
            want[2][s] += have[2][s];
            if (have[2][s]) REACH("periodic");
        }
        for (int i = 0; i < 3; i++) for (int s = 0; s < 2; s++) {
            CHECK(got[i][s] == want[i][s], i == 0 ? "a one-off action runs once, when its state is next entered" : i == 1 ? "an action runs each time its state is entered" : "a periodic action runs on every update in its state until removed");
            if (got[i][s] != before[i][s]) CHECK(last == full[op], "an action is told the state");
        }
    }
}
//! harness: listener_reentrant
//! prop: C14
//! bounds: an action of each kind that notifies the same entry again, adds three actions of any kind for its own or another state, or removes actions while it runs
//! outside: whether an action added for the state that is just being entered already runs at this entry (it must from the next one on)
//! reach: nested added removed
HARNESS(listener_reentrant)
{
    StateMachineListener l("m");
    auto tell = l.getObserverFunc();
    int kind = (int) kse_pick(3, "kind"), how = (int) kse_pick(3, "how"), calls = 0, second = 0, extra = 0, akind = 0;
    bool other = false;
    auto addTo = [&](int k, const char *st, std::function<void(const std::string &)> f) { if (k == 0) l.addOneOffAction(st, f); else if (k == 1) l.addAction(st, f); else l.addPeriodicAction(st, f); };
    if (how == 1) { akind = (int) kse_concretize(kse_pick(3, "added kind")); other = kse_concretize(kse_pick(2, "other state")); }
    addTo(kind, "a", [&](const std::string &) {
        if (++calls > 1) return;
        switch (how) {
        case 0: tell("m:a", true); REACH("nested"); break;
        case 1: for (int i = 0; i < 3; i++) addTo(akind, other ? "b" : "a", [&](const std::string &) { extra++; }); REACH("added"); break;
        default: if (kse_pick(2, "all")) l.removeActions(); else l.removeActions("a"); REACH("removed"); break;
        }
    });
    addTo(kind, "a", [&](const std::string &) { second++; });
    tell("m:a", true);
    if (kind == 0) { CHECK(calls == 1 && second == 1, "a one-off action runs once, however it is triggered"); }
    else if (how == 0) CHECK(calls == 2 && second == 2, "a nested notification runs the actions again");
    if (how == 1) CHECK(!other ? extra == 0 || extra == 3 : extra == 0, "an added action runs at most once for an entry, and only in its state");
    bool early = extra != 0;
    if (other && how == 1) { tell("m:b", true); CHECK(extra == 3, "an added action runs at the next entry of its state"); early = true; }
    extra = 0;
    int c = calls, s = second;
    tell("m:a", true);
    if (kind == 0) { CHECK(calls == c && second == s, "a one-off action is gone after it ran"); }
    else if (how != 2 || kind == 1) CHECK(calls == c + 1 && second == s + 1, "an action stays");
    else CHECK(calls == c && second == s, "a removed periodic action does not run any more");
    if (how == 1 && !other) CHECK(extra == (akind == 0 && early ? 0 : 3), "an added action runs at the next entry");
    if (how == 1 && other) { CHECK(extra == 0, "an action of another state does not run"); tell("m:b", true); CHECK(extra == (akind ? 3 : 0), "a one-off action runs once, the others again"); }
}
//! harness: listener_names
//! prop: C14
//! bounds: a listener with or without a machine name; the state of its action and the one notified are any names of up to 2 bytes
//! reach: same different
HARNESS(listener_names)
{
    bool named = kse_pick(2, "named");
    StateMachineListener l(named ? "m" : "");
    std::string a = symEvent("state"), b = symEvent("notified");
    if (kse_pick(2, "longer")) a += symEvent("state");
    if (kse_pick(2, "longer too")) b += symEvent("notified");
    int kind = (int) kse_concretize(kse_pick(3, "kind")), calls = 0;
    auto f = [&](const std::string &) { calls++; };
    std::string key = named ? a : "m:" + a;
    if (kind == 0) l.addOneOffAction(key, f); else if (kind == 1) l.addAction(key, f); else l.addPeriodicAction(key, f);
    l.getObserverFunc()("m:" + b, true);
    bool same = a == b;
    CHECK(calls == (same ? 1 : 0), "an action runs in exactly the state it was added for");
    if (same) REACH("same"); else REACH("different");
}
//! harness: listener_on_machine
//! prop: C14
//! bounds: a machine of 2 states with arbitrary events; one-off, plain and periodic actions, also ones feeding the machine its next event; 3 events
//! reach: chained
HARNESS(listener_on_machine)
{
    spec sp(2, 1, 1);
    auto sm = SMFactoryImpl().createStateMachine(sp.config);
    machine_model m(sp);
    StateMachineListener l("m");
    int entered[2] = {}, once[2] = {}, during[2] = {}, wantEntered[2] = {}, wantDuring[2] = {};
    for (int i = 0; i < 2; i++) {
        l.addAction(ids[i], [&entered, i](const std::string &) { entered[i]++; });
        l.addOneOffAction(ids[i], [&once, i](const std::string &) { once[i]++; });
        l.addPeriodicAction(ids[i], [&during, i](const std::string &) { during[i]++; });
    }
    bool chain = kse_pick(2, "chain");
    std::string next = symEvent("chained event");
    if (chain) l.addOneOffAction(ids[1], [&](const std::string &) { sm->enqueueEvent(next); REACH("chained"); });
    sm->registerObserver(l.getObserverFunc());
    bool visited1 = false;
    auto account = [&](bool tell, bool changed) { if (!tell || !m.known()) return; if (changed) wantEntered[m.current]++; wantDuring[m.current]++; if (changed && m.current == 1 && !visited1) { visited1 = true; if (chain) m.queue.push_back(next[0]); } };
    sm->start(); m.started = true; account(true, true);
    for (int k = 0; k < 3; k++) {
        std::string e = symEvent("event");
        m.queue.push_back(e[0]);
        bool changed, tellIt = m.update(changed);
        account(tellIt, changed);
        sm->enqueueAndUpdate(e);
        for (int i = 0; i < 2; i++) {
            CHECK(entered[i] == wantEntered[i], "entering a state runs its actions once");
            CHECK(once[i] == (wantEntered[i] > 0), "a one-off action runs at the first entry only");
            CHECK(during[i] == wantDuring[i], "periodic actions run on every update in their state");
        }
    }
}

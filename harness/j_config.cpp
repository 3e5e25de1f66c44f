// C40: state machines and listeners loaded from a file follow the file.
//! cflags: -I$V/stubs/json -I$R/state_machine/modules/json_conf/include -I$R/state_machine/modules/json_conf/src
//! src: $R/state_machine/modules/state_machine/src/sm_factory_impl.cpp $R/state_machine/modules/state_machine/src/state_impl.cpp $R/state_machine/modules/state_machine/src/state_machine_impl.cpp $R/state_machine/modules/state_machine/src/state_machine_listener.cpp $R/state_machine/modules/state_machine/src/transition_impl.cpp
//! assume: cereal's JSON archives are a stand-in that keeps documents as trees of named nodes (members are found by name in any order, a missing member or one of another type is an exception), and file streams are a stand-in that holds texts
#include "kse_rt.h"
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <fstream>
#include <cereal/archives/json.hpp>
#include "text_streams.h"
#include <json_config_loader.cpp>
#include <kpsr_state_machine.cpp>
using namespace kpsr::fsm;

namespace {
int pick(unsigned n, const char *name) { return (int) kse_concretize(kse_pick(n, name)); }
cereal::Node text(const char *name, const std::string &s) { cereal::Node n; n.name = name; n.kind = 1; n.s = s; return n; }
cereal::Node array(const char *name) { cereal::Node n; n.name = name; n.kind = 6; return n; }
// an object of two members, in either order; a third one that nobody knows may stand anywhere
cereal::Node object(const char *name, cereal::Node a, cereal::Node b, int how)
{
    cereal::Node n;
    n.name = name;
    if (how % 2) std::swap(a, b);
    if (how == 2) n.children.push_back(text("comment", "?"));
    n.children.push_back(a);
    if (how == 3) n.children.push_back(text("comment", "?"));
    n.children.push_back(b);
    return n;
}
std::string sym1(const char *n) { std::string s(1, '?'); s[0] = (char) sym_u8(n); return s; }
const char *const ids[3] = {"first", "a state with a long name", "nowhere"};
}
//! harness: config_file
//! prop: C40
//! reach: moved stays first_wins reordered
//! thorough-time: 600
//! bounds: files of up to 2 states with up to 2 (the second: 1) transitions to either of them or to an unknown one on arbitrary one-byte events, two machine names; the members of every object in either order, with an unknown one before or between them; 2 (thorough 3) arbitrary events
//! outside: how JSON is written and parsed
HARNESS(config_file)
{
    std::map<std::string, std::string> files;
    std::kse_files = &files;
    cereal::documents().clear();
    std::string id = pick(2, "machine") ? "m" : "another machine";
    int states = 1 + pick(2, "states"), how = pick(4, "order");
    if (how) REACH("reordered");
    struct tr { int dest; char event; };
    std::vector<tr> t[3];
    cereal::Node list = array("states");
    for (int i = 0; i < states; i++) {
        cereal::Node trs = array("transitions");
        int n = pick(i ? 2 : 3, "transitions");
        for (int k = 0; k < n; k++) {
            int d = pick(3, "destination");
            std::string e = sym1("transition event");
            t[i].push_back(tr{d, e[0]});
            trs.children.push_back(object("", text("destination", ids[d]), text("event", e), how));
        }
        list.children.push_back(object("", text("id", ids[i]), trs, how));
    }
    files["f"] = cereal::publish(object("", text("id", id), list, how));
    auto sm = FromJson::createStateMachine("f");
    auto listener = FromJson::createStateMachineListener("f");
    int entered[3] = {}, calls = 0;
    std::string told;
    for (int i = 0; i < 3; i++) listener->addAction(ids[i], [&entered, i](const std::string &) { entered[i]++; });
    sm->registerObserver([&](const std::string &s, bool) { calls++; told = s; });
    sm->registerObserver(listener->getObserverFunc());
    sm->start();
    int current = 0;
    CHECK(calls == 1 && told == id + ":" + ids[0], "a machine starts in the first state of the file, under the name in the file");
    CHECK(entered[0] == 1 && entered[1] == 0 && entered[2] == 0, "a listener of the file belongs to the machine of the file");
    for (int k = 0; k < (KSE_THOROUGH ? 3 : 2); k++) {
        std::string e = sym1("event");
        int to = -1, want[3] = {entered[0], entered[1], entered[2]};
        bool known = current < states;
        if (known) for (size_t x = 0; x < t[current].size(); x++) if (t[current][x].event == e[0]) { to = t[current][x].dest; if (t[current].size() == 2 && !x && t[current][1].event == e[0] && t[current][1].dest != to) REACH("first_wins"); break; }
        calls = 0;
        sm->enqueueAndUpdate(e);
        if (to >= 0) { current = to; want[to]++; REACH("moved"); } else REACH("stays");
        CHECK(calls == (known ? 1 : 0), "observers are told about every update in a state of the file");
        if (known) CHECK(told == id + ":" + ids[current], "a machine moves as its file says");
        for (int i = 0; i < 3; i++) CHECK(entered[i] == want[i], "a listener runs the actions of the states entered");
    }
    std::kse_files = nullptr;
}
//! harness: config_wrong
//! prop: C40
//! reach: missing text member type
//! bounds: a file that does not exist, that holds no document, or that lacks one member or has one of another type at any place
//! outside: how JSON is written and parsed
HARNESS(config_wrong)
{
    std::map<std::string, std::string> files;
    std::kse_files = &files;
    cereal::documents().clear();
    bool listener = pick(2, "listener");
    int what = pick(4, "what"), where = what < 2 ? 0 : pick(6, "where"), at = 0;
    auto member = [&](cereal::Node n) {
        if (what >= 2 && at++ == where) { if (what == 2) n.name = "other"; else if (n.kind == 1) { n.kind = 2; } else n.kind = 0; }
        return n;
    };
    cereal::Node trs = array("transitions"), list = array("states");
    { cereal::Node d = member(text("destination", "b")), e = member(text("event", "e")); trs.children.push_back(object("", d, e, 0)); }
    { cereal::Node i = member(text("id", "a")); cereal::Node x = member(trs); list.children.push_back(object("", i, x, 0)); }
    cereal::Node i = member(text("id", "m")), l = member(list);
    std::string doc = cereal::publish(object("", i, l, 0));
    if (what == 1) files["f"] = sym1("text"); else if (what >= 2) files["f"] = doc;
    bool thrown = false;
    try {
        if (listener) FromJson::createStateMachineListener("f"); else FromJson::createStateMachine("f");
    } catch (std::exception &) { thrown = true; }
    CHECK(thrown, "a file that is missing or wrong is refused");
    if (what == 0) REACH("missing"); else if (what == 1) REACH("text"); else if (what == 2) REACH("member"); else REACH("type");
    std::kse_files = nullptr;
}

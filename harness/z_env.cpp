// C39: environments that share their settings over ZMQ.
//! cflags: -I$V/stubs/sdk -I$V/stubs/zmq -I$V/stubs/json -I$V/rt -I$R/core/modules/core/src -I$R/core/modules/zmq_mdlw/src
//! libs: -lpthread
//! assume: ZMQ is a stand-in of publish-subscribe sockets in one process that drop nothing; the Klepsydra SDK's environment interface is a stand-in written from its uses; cereal's JSON archives are a stand-in that keeps documents as trees of named nodes, and file and string streams are stand-ins that hold lines of text
#include "kse_rt.h"
#include <string.h>
#include <algorithm>
#include <atomic>
#include <fstream>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <spdlog/spdlog.h>
#include <cereal/archives/json.hpp>
#include <zmq.hpp>
#include <klepsydra/sdk/environment.h>
#include "text_streams.h"
#include <configuration_environment.cpp>
#include <zmq_env.cpp>

namespace {
int pick(unsigned n, const char *name) { return (int) kse_concretize(kse_pick(n, name)); }
float bits(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
uint32_t bitsOf(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
typedef kpsr::zmq_mdlw::ZMQEnv env_t;
// a value of one of the four types, made from a small number
void set(kpsr::Environment &e, int kind, const char *key, const char *root, uint32_t v)
{
    switch (kind) {
    case 0: e.setPropertyString(key, std::string(1, (char) v), root); break;
    case 1: e.setPropertyInt(key, (int) v, root); break;
    case 2: e.setPropertyFloat(key, bits(v), root); break;
    default: e.setPropertyBool(key, v & 1, root);
    }
}
bool has(kpsr::Environment &e, int kind, const char *key, const char *root, uint32_t v)
{
    switch (kind) {
    case 0: { std::string s; return e.getPropertyString(key, s, "", root) && s.size() == 1 && s[0] == (char) v; }
    case 1: { int i; return e.getPropertyInt(key, i, 0, root) && i == (int) v; }
    case 2: { float f; return e.getPropertyFloat(key, f, 0, root) && bitsOf(f) == v; }
    default: { bool b; return e.getPropertyBool(key, b, false, root) && b == (v & 1); }
    }
}
bool missing(kpsr::Environment &e, int kind, const char *key, const char *root)
{
    switch (kind) {
    case 0: { std::string s; return !e.getPropertyString(key, s, "?", root) && s == "?"; }
    case 1: { int i; return !e.getPropertyInt(key, i, 7, root) && i == 7; }
    case 2: { float f; return !e.getPropertyFloat(key, f, 7, root) && f == 7; }
    default: { bool b; return !e.getPropertyBool(key, b, true, root) && b; }
    }
}
struct Net {
    zmq::context_t context;
    zmq::socket_t pub[2], sub[2];
    Net() : pub{{context, ZMQ_PUB}, {context, ZMQ_PUB}}, sub{{context, ZMQ_SUB}, {context, ZMQ_SUB}}
    {
        for (auto &s : sub) { s.setsockopt(ZMQ_SUBSCRIBE, "t", 1); for (auto &p : pub) s.kse_connect(p); }
    }
};
std::unique_ptr<env_t> make(Net &net, int i, const char *key, kpsr::ConfigurationEnvironment *conf)
{
    if (!conf) return std::unique_ptr<env_t>(new env_t("", key, "t", 1, net.pub[i], net.sub[i]));
    conf->setPropertyString("kpsr_zmq_env_topic_name", "t");
    conf->setPropertyString("kpsr_zmq_env_key", key);
    conf->setPropertyInt("kpsr_zmq_env_poll_period", 1);
    return std::unique_ptr<env_t>(new env_t(conf, net.pub[i], net.sub[i]));
}
}
//! harness: zenv_share
//! prop: C39
//! opts: --races=1 --db=0 --maxsched=1500 --qtime=60
//! thorough-opts: --races=1 --db=1 --maxsched=1500 --qtime=60
//! time: 150
//! thorough-time: 900
//! reach: shared both file
//! bounds: two environments with one key, made of a file or of a configuration environment: 2 settings of any type with arbitrary values and any root node, or loaded files, by one or both of them; threads run in turn (thorough: at most 1 deviation from that)
//! outside: more environments; settings of both at the same time; lost or malformed messages; using the decorated environment directly
HARNESS(zenv_share)
{
    std::map<std::string, std::string> files;
    std::kse_files = &files;
    cereal::documents().clear();
    Net net;
    kpsr::ConfigurationEnvironment conf;
    auto first = make(net, 0, "k", nullptr), second = make(net, 1, "k", pick(2, "own") ? nullptr : &conf);
    env_t *e[2] = {first.get(), second.get()};
    const char *keys[2] = {"a", "b"}, *root = pick(2, "root") ? "n" : "";
    struct { bool there; int kind; uint32_t v; } set_[2] = {};
    int by = -1;
    for (int k = 0; k < 2; k++) {
        int i = pick(2, "who"), kind = k ? (set_[0].kind + pick(2, "kind")) % 4 : pick(4, "kind");
        uint32_t v = sym_u8("v");
        if (k && pick(2, "file")) {
            cereal::Node doc, s, n;
            s.name = kind == 0 ? "StringProperties" : kind == 1 ? "IntProperties" : kind == 2 ? "FloatProperties" : "BoolProperties";
            n.name = keys[k]; n.kind = kind + 1; n.s = std::string(1, (char) v); n.i = (int) v; n.f = bits(v); n.b = v & 1;
            s.children.push_back(n);
            doc.children.push_back(s);
            files["f"] = cereal::publish(doc);
            CHECK(e[i]->loadFile("f", root), "a file is loaded");
            CHECK(!e[i]->loadFile("g", root), "a file that is missing is reported");
            REACH("file");
        } else set(*e[i], kind, keys[k], root, v);
        set_[k] = {true, kind, v};
        CHECK(has(*e[i], kind, keys[k], root, v), "a property has the value that was set last");
        for (int waits = 0; !has(*e[!i], kind, keys[k], root, v); kse_yield()) CHECK(++waits < 80, "the other environment gets the new value");
        for (int x = 0; x < 2; x++) for (int p = 0; p < 2; p++) {
            if (set_[p].there) CHECK(has(*e[x], set_[p].kind, keys[p], root, set_[p].v), "a property keeps its value when others are set");
            else CHECK(missing(*e[x], kind, keys[p], root), "a property that was not set is missing");
        }
        if (by >= 0 && by != i) REACH("both");
        by = i;
    }
    REACH("shared");
    first.reset();
    second.reset();
    std::kse_files = nullptr;
}
//! harness: zenv_apart
//! prop: C39
//! opts: --races=1 --fair=1 --pb=1 --maxsched=1500 --qtime=60
//! thorough-opts: --races=1 --fair=1 --pb=2 --maxsched=1500 --qtime=60
//! time: 150
//! thorough-time: 900
//! reach: apart own created ended
//! bounds: an environment sets a property twice; another one, made of a configuration environment, has a different key, or is not there, or is created and ended without a setting, or ends while news for it are on the way; every interleaving with at most 1 (thorough: 2) preemptions
//! outside: more environments; lost or malformed messages; using the decorated environment directly
HARNESS(zenv_apart)
{
    std::kse_files = nullptr;
    cereal::documents().clear();
    Net net;
    int kind = pick(4, "kind"), mode = pick(4, "mode");
    const std::string other = std::string("otherkx").substr(mode == 0 ? pick(2, "key") * 5 : 7);
    uint32_t v[2] = {sym_u8("v"), sym_u8("v")};
    kpsr::ConfigurationEnvironment conf, mine;
    {
        auto first = make(net, 0, "k", mode ? nullptr : &mine);
        if (mode == 3) { // an environment that ends while news for it are on the way
            auto second = make(net, 1, "k", nullptr);
            set(*first, kind, "a", "", v[0]);
            if (net.sub[1].kse_pending()) REACH("ended");
        } else if (mode != 1) {
            auto second = make(net, 1, other.c_str(), &conf);
            if (mode == 0) for (int k = 0; k < 2; k++) { set(*first, kind, "a", "", v[k]); CHECK(has(*first, kind, "a", "", v[k]), "an environment keeps what it has set"); }
        }
        if (mode == 1) {
            for (int k = 0; k < 2; k++) { set(*first, kind, "a", "", v[k]); CHECK(has(*first, kind, "a", "", v[k]), "an environment keeps what it has set"); }
            while (net.sub[0].kse_pending()) kse_yield();
            CHECK(has(*first, kind, "a", "", v[1]), "an environment keeps what it has set");
            REACH("own");
        }
        if (mode == 2) REACH("created");
        if (mode == 0) { CHECK(missing(conf, kind, "a", ""), "an environment with another key gets nothing"); REACH("apart"); }
    }
    if (mode == 0) CHECK(has(mine, kind, "a", "", v[1]), "the decorated environment stays and has the settings");
}
//! harness: zenv_threads
//! prop: C39
//! opts: --races=1 --fair=1 --pb=1 --maxsched=1500 --qtime=60
//! thorough-opts: --races=1 --fair=1 --pb=2 --maxsched=1500 --qtime=60
//! time: 150
//! thorough-time: 900
//! reach: old new
//! bounds: an environment reads a property and sets another one of the same type while it gets a new value for the first one from another environment; every interleaving with at most 1 (thorough: 2) preemptions
//! outside: more environments or settings; using the decorated environment directly
HARNESS(zenv_threads)
{
    std::kse_files = nullptr;
    cereal::documents().clear();
    Net net;
    int kind = 1 + pick(2, "kind") * 2;
    auto first = make(net, 0, "k", nullptr), second = make(net, 1, "k", nullptr);
    set(*first, kind, "a", "", 1);
    bool got;
    if (kind == 1) { int i = 5; got = second->getPropertyInt("a", i, 7); CHECK(i == (got ? 1 : 7), "a property has a value that was set, or the default"); }
    else { bool b = false; got = second->getPropertyBool("a", b, true); CHECK(b, "a property has a value that was set, or the default"); }
    if (got) REACH("new"); else REACH("old");
    for (int waits = 0; !has(*second, kind, "a", "", 1); kse_yield()) CHECK(++waits < 80, "the other environment gets the new value");
}

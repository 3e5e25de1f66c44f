// C24: the core container.
//! cflags: -I$V/stubs/sdk
//! src: $R/core/modules/core/src/core_container.cpp
//! libs: -lpthread
//! assume: the Klepsydra SDK (container interface, services, statistics) is a stand-in written from its uses; what the statistics count is no synchronisation
#include "kse_rt.h"
#include <algorithm>
#include <atomic>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <klepsydra/core/core_container.h>
#include <klepsydra/sdk/service.h>

namespace {
struct App : kpsr::Service {
    App(kpsr::Container *c, const char *name) : Service(c, nullptr, name) {}
    void start() override {}
    void execute() override {}
    void stop() override {}
};
std::string symName(const char *n) { char c = (char) sym_u8(n); ASSUME(c != 0); return std::string(1, c); }
// two statistics of every kind, with any two names
struct World {
    World() : a(symName("name")), b(symName("other name")), f0(a), f1(b), v0(a), v1(b), p0(a, "m"), p1(b, "m"), s0(a, "l", "m"), s1(b, "l", "m"), q0(nullptr, a.c_str()), q1(nullptr, b.c_str()) {}
    std::string a, b;
    kpsr::FunctionStats f0, f1;
    kpsr::ServiceStats v0, v1;
    kpsr::PublicationStats p0, p1;
    kpsr::SubscriptionStats s0, s1;
    App q0, q1;
    kpsr::FunctionStats *stats(int i)
    {
        switch (i) {
        case 0: return &f0;
        case 1: return &f1;
        case 2: return &p0;
        case 3: return &p1;
        case 4: return &s0;
        case 5: return &s1;
        case 6: return &q0.serviceStats;
        case 7: return &q1.serviceStats;
        case 8: return &v0;
        default: return &v1;
        }
    }
    void attach(kpsr::Container &c, int i)
    {
        switch (i) {
        case 0: c.attach(&f0); break;
        case 1: c.attach(&f1); break;
        case 2: c.attach(&p0); break;
        case 3: c.attach(&p1); break;
        case 4: c.attach(&s0); break;
        case 5: c.attach(&s1); break;
        case 6: c.attach(&q0); break;
        case 7: c.attach(&q1); break;
        case 8: c.attach(&v0); break;
        default: c.attach(&v1);
        }
    }
    void detach(kpsr::Container &c, int i)
    {
        switch (i) {
        case 0: c.detach(&f0); break;
        case 1: c.detach(&f1); break;
        case 2: c.detach(&p0); break;
        case 3: c.detach(&p1); break;
        case 4: c.detach(&s0); break;
        case 5: c.detach(&s1); break;
        case 6: c.detach(&q0); break;
        default: c.detach(&q1);
        }
    }
};
void nulls(kpsr::Container &c)
{
    c.attach((kpsr::Service *) nullptr); c.detach((kpsr::Service *) nullptr);
    c.attach((kpsr::FunctionStats *) nullptr); c.detach((kpsr::FunctionStats *) nullptr);
    c.attach((kpsr::ServiceStats *) nullptr);
    c.attach((kpsr::PublicationStats *) nullptr); c.detach((kpsr::PublicationStats *) nullptr);
    c.attach((kpsr::SubscriptionStats *) nullptr); c.detach((kpsr::SubscriptionStats *) nullptr);
}
}
//! harness: container
//! prop: C24
//! opts: --qtime=60 --maxsteps=400000
//! time: 120
//! reach: late detached stopped restarted
//! bounds: two services, functions, publishers, subscribers and bare service statistics, with arbitrary names of one character; every sequence of 4 (thorough: 5) attachments, detachments, starts and stops, over every pair of kinds
//! outside: longer sequences; attaching something twice; more than two of a kind
HARNESS(container)
{
    World w;
    int64_t envTag = 0;
    kpsr::Environment *env = reinterpret_cast<kpsr::Environment *>(&envTag);
    std::unique_ptr<kpsr::CoreContainer> c(new kpsr::CoreContainer(env, "app"));
    CHECK(c->getName() == "app" && c->getEnvironment() == env, "a container knows its name and environment");
    // both of one kind and one of another
    int k = (int) kse_concretize(kse_pick(5, "kind")), k2 = (int) kse_concretize(kse_pick(5, "other kind"));
    if (k2 == k) return;
    int item[3] = {2 * k, 2 * k + 1, 2 * k2};
    bool live[3] = {}, running = false;
    int starts[3] = {}, stops[3] = {};
    bool everStopped = false;
    int steps = KSE_THOROUGH ? 5 : 4;
    for (int s = 0; s < steps; s++) {
        int op = (int) kse_concretize(kse_pick(5, "op"));
        if (op < 3) {
            if (!live[op]) { w.attach(*c, item[op]); live[op] = true; if (running) { starts[op]++; REACH("late"); } }
            else if (item[op] < 8) { w.detach(*c, item[op]); live[op] = false; REACH("detached"); }
            else return;
        } else if (op == 3) {
            if (running) return;
            c->start(); running = true;
            if (everStopped) REACH("restarted");
            for (int i = 0; i < 3; i++) if (live[i]) starts[i]++;
        } else {
            if (!running) return;
            c->stop(); running = false; everStopped = true;
            for (int i = 0; i < 3; i++) if (live[i]) stops[i]++;
            REACH("stopped");
        }
        nulls(*c);
        for (int i = 0; i < 3; i++) {
            CHECK(w.stats(item[i])->started == starts[i], "exactly what is attached is started with the container, or when it is attached to a running one");
            CHECK(w.stats(item[i])->stopped == stops[i], "exactly what is attached is stopped with the container");
        }
    }
    if (running) { c->stop(); for (int i = 0; i < 3; i++) if (live[i]) stops[i]++; }
    for (int i = 0; i < 3; i++) CHECK(w.stats(item[i])->stopped == stops[i] && w.stats(item[i])->started == starts[i], "exactly what is attached is stopped with the container");
}
//! harness: container_threads
//! prop: C24
//! opts: --races=1 --qtime=60
//! time: 120
//! reach: done
//! bounds: one thread attaches and detaches something while another starts, stops or changes the same container, over every pair of kinds; every interleaving
//! outside: more threads or operations
HARNESS(container_threads)
{
    World w;
    kpsr::CoreContainer c(nullptr, "app");
    int kept = (int) kse_concretize(kse_pick(5, "kind")) * 2;
    int other = (int) kse_concretize(kse_pick(5, "other kind")) * 2 + 1;
    w.attach(c, kept);
    int mode = (int) kse_concretize(kse_pick(3, "mode"));
    if (mode == 1) c.start();
    std::thread t([&]() {
        w.attach(c, other);
        if (other < 8 && mode != 2) w.detach(c, other);
    });
    int third = (kept + 2) % 10;
    switch (mode) {
    case 0: c.start(); break;
    case 1: c.stop(); break;
    default: w.attach(c, third); if (kept < 8) w.detach(c, kept);
    }
    t.join();
    CHECK(w.stats(kept)->started == (mode == 2 ? 0 : 1) && w.stats(kept)->stopped == (mode == 1), "what stays attached is started and stopped with the container");
    if (mode != 2) {
        int n = w.stats(other)->started, m = w.stats(other)->stopped;
        if (mode == 0) CHECK(other < 8 ? n <= 2 : n >= 1 && n <= 2, "what is attached while the container starts is started");
        else CHECK(n <= 1 && m <= 1, "what is attached while the container stops is started at most once");
        c.start();
        CHECK(w.stats(other)->started == n + (other >= 8) && w.stats(kept)->started == 2, "exactly what is attached is started with the container");
    } else {
        c.start();
        CHECK(w.stats(other)->started == 1 && w.stats(third)->started == 1 && w.stats(kept)->started == (kept >= 8), "exactly what is attached is started with the container");
    }
    REACH("done");
}

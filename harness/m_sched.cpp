// C29: the scheduler runs tasks in their own threads.
//! cflags: -I$V/stubs/sdk
//! src: $R/core/modules/mem_mdlw/src/basic_scheduler.cpp
//! libs: -lpthread
//! assume: the Klepsydra SDK (scheduler interface, services, statistics) is a stand-in written from its uses
#include "kse_rt.h"
#include <atomic>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <klepsydra/mem_core/basic_scheduler.h>

namespace {
int pick(unsigned n, const char *name) { return (int) kse_concretize(kse_pick(n, name)); }
// what a task of the application does; a stopped one must not run
struct Task {
    std::atomic<int> runs{0}, ending{0};
    std::atomic<bool> allowed{false};
    int64_t after = 0;
    uint64_t started = 0, last = 0;
    bool repeat = false;
    uint64_t busy = 0;
    void begin(int64_t us, bool r) { after = us; repeat = r; allowed = true; runs = 0; ending = 0; started = kse_clock(); }
    void run()
    {
        uint64_t now = kse_clock();
        CHECK(allowed, "a task runs only between its start and the end of its stop");
        CHECK(repeat || runs == 0, "a task that does not repeat runs once");
        if (after > 0) CHECK((int64_t) (now - (runs ? last : started)) >= after * 1000 - (runs ? 2000 : 0), "a task runs when its time has passed, and repeats after at least the same time");
        last = now;
        runs++;
        if (ending) CHECK(++ending < 30, "a repeating task ends");
        if (busy) std::this_thread::sleep_for(std::chrono::nanoseconds(busy));
        CHECK(allowed, "a stop waits until a run of the task ends");
        kse_yield();
    }
};
struct App : kpsr::Service {
    App(Task &t) : Service(nullptr, nullptr, "service"), task(t) {}
    void start() override {}
    void execute() override { task.run(); }
    void stop() override {}
    Task &task;
};
}
//! harness: scheduler
//! prop: C29
//! opts: --pb=2 --fair=1 --races=1 --qtime=60
//! thorough-opts: --pb=4 --fair=1 --races=1 --qtime=60
//! time: 150
//! thorough-time: 900
//! reach: ran repeated stopped restarted ended
//! bounds: a task, named or of a service: a start (once or repeating, at once or after some time) and every sequence of 2 more starts, stops and waits, then the end of the scheduler with the task stopped or not; every interleaving with at most 2 (thorough: 4) preemptions
//! outside: using one scheduler from several threads; a task that stops itself; when exactly a late task runs
HARNESS(scheduler)
{
    std::unique_ptr<Task> task[3]; // one for each start
    for (auto &t : task) t.reset(new Task);
    int current = -1;
    bool service = pick(2, "service");
    Task *serviced = nullptr;
    struct Forward : kpsr::Service {
        Forward(Task *&t) : Service(nullptr, nullptr, "service"), task(t) {}
        void start() override {}
        void execute() override { task->run(); }
        void stop() override {}
        Task *&task;
    } app(serviced);
    app.startup();
    {
        kpsr::mem::BasicScheduler scheduler;
        bool live = false;
        for (int k = 0; k < 3; k++) {
            int op = k ? pick(3, "op") : 0;
            if (op == 0) {
                if (service && live) return;
                bool repeat = pick(2, "repeating");
                int after = pick(2, "after") ? 50 : 0;
                int old = live ? current : -1;
                Task *t = task[++current].get();
                t->begin(after, repeat);
                t->busy = after && pick(2, "busy") ? 20000 : 0;
                if (old >= 0) { task[old]->ending = 1; REACH("restarted"); } // the new one replaces the old one
                if (service) { serviced = t; scheduler.startScheduledService(after, repeat, &app); }
                else scheduler.startScheduledTask("task", after, repeat, [t]() { t->run(); });
                if (old >= 0) task[old]->allowed = false;
                live = true;
            } else if (op == 1) {
                if (live) task[current]->ending = 1;
                if (service) scheduler.stopScheduledService(&app); else scheduler.stopScheduledTask("task");
                if (live) task[current]->allowed = false;
                live = false;
                REACH("stopped");
            } else if (live) {
                Task &t = *task[current];
                int want = t.repeat ? t.runs + 1 : 1;
                while (t.runs < want) kse_yield();
                if (want > 1) REACH("repeated"); else REACH("ran");
            } else return;
        }
        if (live) { task[current]->ending = 1; REACH("ended"); }
    }
    for (auto &t : task) t->allowed = false;
    app.shutdown();
}
//! harness: scheduler_two
//! prop: C29
//! opts: --pb=2 --fair=1 --races=1 --qtime=60
//! thorough-opts: --pb=4 --fair=1 --races=1 --qtime=60
//! time: 150
//! thorough-time: 900
//! reach: other both notstarted
//! bounds: a named task and a service, once or repeating, started both; one of them is stopped, the other one still runs; every interleaving with at most 2 (thorough: 4) preemptions
//! outside: using one scheduler from several threads
HARNESS(scheduler_two)
{
    Task task[2];
    App app(task[1]);
    bool up = pick(2, "service started");
    if (up) app.startup();
    bool repeat = pick(2, "repeating");
    int first = pick(2, "stopped");
    {
        kpsr::mem::BasicScheduler scheduler;
        for (auto &t : task) t.begin(0, repeat);
        if (!up) task[1].allowed = false; // a service that is not started is not executed
        scheduler.startScheduledTask("task", 0, repeat, [&]() { task[0].run(); });
        scheduler.startScheduledService(0, repeat, &app);
        auto stop = [&](int i) {
            task[i].ending = 1;
            if (i) scheduler.stopScheduledService(&app); else scheduler.stopScheduledTask("task");
            task[i].allowed = false;
        };
        stop(first);
        Task &other = task[!first];
        if (first || up) {
            int want = repeat ? other.runs + 1 : 1;
            while (other.runs < want) kse_yield();
            REACH("other");
        }
        if (up) REACH("both"); else REACH("notstarted");
        stop(!first);
    }
    if (up) app.shutdown();
}

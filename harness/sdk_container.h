// A container that records what is attached to it.
#pragma once
#include <algorithm>
#include <vector>
#include <klepsydra/sdk/container.h>
namespace {
struct Rec : kpsr::Container {
    std::vector<kpsr::SubscriptionStats *> subscription;
    std::vector<kpsr::PublicationStats *> publication;
    std::vector<kpsr::FunctionStats *> function;
    std::vector<kpsr::Service *> services;
    bool bad = false;   // something was detached that is not attached
    template<class T> static int count(std::vector<T *> &v, T *p) { return (int) std::count(v.begin(), v.end(), p); }
    template<class T> void take(std::vector<T *> &v, T *p) { if (!p) return; auto i = std::find(v.begin(), v.end(), p); if (i == v.end()) bad = true; else v.erase(i); }
    int subs(kpsr::SubscriptionStats *p) { return count(subscription, p); }
    int pubs(kpsr::PublicationStats *p) { return count(publication, p); }
    void start() override {}
    void stop() override {}
    void attach(kpsr::Service *p) override { if (p) services.push_back(p); }
    void detach(kpsr::Service *p) override { take(services, p); }
    void attach(kpsr::FunctionStats *p) override { if (p) function.push_back(p); }
    void detach(kpsr::FunctionStats *p) override { take(function, p); }
    void attach(kpsr::ServiceStats *) override {}
    void attach(kpsr::PublicationStats *p) override { if (p) publication.push_back(p); }
    void detach(kpsr::PublicationStats *p) override { take(publication, p); }
    void attach(kpsr::SubscriptionStats *p) override { if (p) subscription.push_back(p); }
    void detach(kpsr::SubscriptionStats *p) override { take(subscription, p); }
    std::string getName() const override { return "container"; }
    kpsr::Environment *getEnvironment() const override { return nullptr; }
};
}

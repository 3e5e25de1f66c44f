// Stand-in for the Klepsydra SDK (not part of /repo, absent here), written from its uses in /repo and its tests.
#pragma once
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <klepsydra/sdk/container.h>
#include <klepsydra/sdk/subscription_stats.h>
namespace kpsr {
template<class T>
class Subscriber
{
public:
    Subscriber(Container *container, const std::string &name, const std::string &type) : name(name), container(container), _type(type) {}
    virtual ~Subscriber() {}
    virtual void registerListener(const std::string &name, const std::function<void(const T &)> listener) = 0;
    virtual void registerListenerOnce(const std::function<void(const T &)> listener) = 0;
    virtual void registerSharedPtrListener(const std::string &name, const std::function<void(const std::shared_ptr<const T> &)> listener)
    { throw std::invalid_argument("unsupported"); }
    virtual void registerSharedPtrListenerOnce(const std::function<void(const std::shared_ptr<const T> &)> listener)
    { throw std::invalid_argument("unsupported"); }
    virtual void removeListener(const std::string &name) = 0;
    virtual std::shared_ptr<SubscriptionStats> getSubscriptionStats(const std::string &name) = 0;
    void setContainer(Container *newContainer) { container = newContainer; }
    std::string name;
    Container *container;
protected:
    std::string _type;
};
} // namespace kpsr

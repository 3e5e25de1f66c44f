// Stand-in for the Klepsydra SDK (not part of /repo, absent here), written from its uses in /repo and its tests.
#pragma once
#include <string>
#include <klepsydra/sdk/environment.h>
#include <klepsydra/sdk/function_stats.h>
#include <klepsydra/sdk/publication_stats.h>
#include <klepsydra/sdk/service_stats.h>
#include <klepsydra/sdk/subscription_stats.h>
namespace kpsr {
class Service;
class Container
{
public:
    Container() {}
    virtual ~Container() {}
    virtual void start() = 0;
    virtual void stop() = 0;
    virtual void attach(Service *service) = 0;
    virtual void detach(Service *service) = 0;
    virtual void attach(FunctionStats *functionStats) = 0;
    virtual void detach(FunctionStats *functionStats) = 0;
    virtual void attach(ServiceStats *serviceStats) = 0;
    virtual void attach(PublicationStats *publicationStats) = 0;
    virtual void detach(PublicationStats *publicationStats) = 0;
    virtual void attach(SubscriptionStats *subscriptionStats) = 0;
    virtual void detach(SubscriptionStats *subscriptionStats) = 0;
    virtual std::string getName() const = 0;
    virtual Environment *getEnvironment() const = 0;
};
} // namespace kpsr

// Stand-in for the Klepsydra SDK (not part of /repo, absent here), written from its uses in /repo and its tests.
#pragma once
#include <memory>
#include <klepsydra/sdk/function_stats.h>
namespace kpsr {
class SubscriptionStats : public FunctionStats
{
public:
    SubscriptionStats(const std::string &eventName, const std::string &listenerName, const std::string &middlewareType, bool batched = false)
        : FunctionStats(listenerName), _eventName(eventName), _type(middlewareType) {}
    std::string _eventName, _type;
    SdkCount totalEnqueuedTimeInNs;
};
} // namespace kpsr

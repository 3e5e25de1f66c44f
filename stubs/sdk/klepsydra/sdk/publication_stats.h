// Stand-in for the Klepsydra SDK (not part of /repo, absent here), written from its uses in /repo and its tests.
#pragma once
#include <klepsydra/sdk/function_stats.h>
namespace kpsr {
class PublicationStats : public FunctionStats
{
public:
    PublicationStats(const std::string &eventName, const std::string &middlewareType) : FunctionStats(eventName), _type(middlewareType) {}
    std::string _type;
    SdkCount _totalEventAllocations;
};
} // namespace kpsr

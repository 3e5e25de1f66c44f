// Stand-in for the Klepsydra SDK (not part of /repo, absent here), written from its uses in /repo and its tests.
#pragma once
#include <klepsydra/sdk/function_stats.h>
namespace kpsr {
class ServiceStats : public FunctionStats
{
public:
    explicit ServiceStats(const std::string &name) : FunctionStats(name) {}
};
} // namespace kpsr

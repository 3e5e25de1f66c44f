// Stand-in for the Klepsydra SDK (not part of /repo, absent here), written from its uses in /repo and its tests.
#pragma once
#include <klepsydra/sdk/sdk_clock.h>
namespace kpsr {
struct TimeUtils
{
    static long getCurrentNanoseconds() { return (long) sdkClock; }
    static long getCurrentMilliseconds() { return (long) (sdkClock / 1000000); }
    static long long unsigned int getCurrentNanosecondsAsLlu() { return sdkClock; }
};
} // namespace kpsr

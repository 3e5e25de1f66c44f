// Stand-in for the Klepsydra SDK (not part of /repo, absent here), written from its uses in /repo and its tests.
#pragma once
#include <atomic>
#include <map>
#include <string>
#include <thread>
#include <vector>
#if __has_include("kse_rt.h")
#include "kse_rt.h"
#else
static inline void kse_atomic_begin() {}
static inline void kse_atomic_end() {}
#endif
namespace kpsr {
// what the statistics count is no synchronisation: no scheduling point and no race
template<class N> class SdkCounter
{
public:
    SdkCounter(N n = 0) : v(n) {}
    SdkCounter(const SdkCounter &o) : v((N) o) {}
    SdkCounter &operator=(N n) { kse_atomic_begin(); v.store(n, std::memory_order_relaxed); kse_atomic_end(); return *this; }
    SdkCounter &operator=(const SdkCounter &o) { return *this = (N) o; }
    operator N() const { kse_atomic_begin(); N n = v.load(std::memory_order_relaxed); kse_atomic_end(); return n; }
    N operator+=(N d) { kse_atomic_begin(); N n = v.fetch_add(d, std::memory_order_relaxed) + d; kse_atomic_end(); return n; }
    N operator++() { return *this += 1; }
    N operator++(int) { return (*this += 1) - 1; }
    N operator--(int) { return (*this += (N) -1) + 1; }
private:
    std::atomic<N> v;
};
typedef SdkCounter<long long unsigned int> SdkCount;
class FunctionStats
{
public:
    explicit FunctionStats(const std::string &name) : name(name) {}
    virtual ~FunctionStats() {}
    void start() { started++; }
    void stop() { stopped++; }
    void startProcessMeasure() { open++; }
    void stopProcessMeasure() { open--; totalProcessed++; }
    std::string name;
    SdkCount totalProcessed, totalDiscardedEvents, totalProcessingTimeInNanoSecs;
    SdkCounter<int> started, stopped, open;
};
} // namespace kpsr

// Stand-in for the Klepsydra SDK (not part of /repo, absent here), written from its uses in /repo and its tests.
#pragma once
#include <atomic>
#include <string>
#include <klepsydra/sdk/container.h>
#include <klepsydra/sdk/environment.h>
#include <klepsydra/sdk/service_stats.h>
namespace kpsr {
class Service
{
public:
    Service(Container *container, Environment *environment, const std::string &serviceName, bool isManaged = true)
        : serviceStats(serviceName), _environment(environment), _started(false), _container(container) { if (_container) _container->attach(this); }
    virtual ~Service() { if (_container) _container->detach(this); }
    void startup() { start(); _started = true; serviceStats.start(); }
    void runOnce() { if (!_started) return; serviceStats.startProcessMeasure(); execute(); serviceStats.stopProcessMeasure(); }
    void shutdown() { stop(); _started = false; serviceStats.stop(); }
    bool isStarted() { return _started; }
    ServiceStats serviceStats;
protected:
    virtual void start() = 0;
    virtual void execute() = 0;
    virtual void stop() = 0;
    Environment *_environment;
private:
    std::atomic<bool> _started;
    Container *_container;
};
} // namespace kpsr

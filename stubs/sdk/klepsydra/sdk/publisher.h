// Stand-in for the Klepsydra SDK (not part of /repo, absent here), written from its uses in /repo and its tests.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <klepsydra/sdk/container.h>
#include <klepsydra/sdk/publication_stats.h>
#include <klepsydra/sdk/time_utils.h>
namespace kpsr {
template<class T>
class Publisher
{
public:
    Publisher(Container *container, const std::string &name, const std::string &middlewareType)
        : publicationStats(name, middlewareType), name(name), container(container) { if (container) container->attach(&publicationStats); }
    virtual ~Publisher() { if (container) container->detach(&publicationStats); }
    void publish(const T &event) { publicationStats.startProcessMeasure(); internalPublish(event); publicationStats.stopProcessMeasure(); }
    void publish(std::shared_ptr<const T> event) { publicationStats.startProcessMeasure(); internalPublish(event); publicationStats.stopProcessMeasure(); }
    virtual void processAndPublish(std::function<void(T &)> process) = 0;
    void setContainer(Container *newContainer)
    {
        if (container) container->detach(&publicationStats);
        container = newContainer;
        if (container) container->attach(&publicationStats);
    }
    PublicationStats publicationStats;
    std::string name;
protected:
    Container *container;
    virtual void internalPublish(const T &event) = 0;
    virtual void internalPublish(std::shared_ptr<const T> event) = 0;
};
} // namespace kpsr

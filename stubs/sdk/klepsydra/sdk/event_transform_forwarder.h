// Stand-in for the Klepsydra SDK (not part of /repo, absent here), written from its uses in /repo and its tests.
#pragma once
#include <functional>
#include <klepsydra/sdk/publisher.h>
namespace kpsr {
template<class SourceEvent, class DestinationEvent>
class EventTransformForwarder
{
public:
    EventTransformForwarder(const std::function<void(const SourceEvent &, DestinationEvent &)> &transformFunction, Publisher<DestinationEvent> *destination)
        : forwarderListenerFunction([this](const SourceEvent &e) { onEventReceived(e); }), _transform(transformFunction), _destination(destination) {}
    void onEventReceived(const SourceEvent &event) { _destination->processAndPublish([this, &event](DestinationEvent &d) { _transform(event, d); }); }
    std::function<void(const SourceEvent &)> forwarderListenerFunction;
private:
    std::function<void(const SourceEvent &, DestinationEvent &)> _transform;
    Publisher<DestinationEvent> *_destination;
};
} // namespace kpsr

#ifndef SDK_EVENT_TRANSFORM_FORWARDER_H
#define SDK_EVENT_TRANSFORM_FORWARDER_H
#include <functional>
#include <klepsydra/sdk/publisher.h>
namespace kpsr {
template<class S, class D>
class EventTransformForwarder
{
public:
    EventTransformForwarder(const std::function<void(const S &, D &)> &transformFunction, Publisher<D> *publisher)
        : _transformFunction(transformFunction)
        , _publisher(publisher)
        , forwarderListenerFunction(
              std::bind(&EventTransformForwarder::onEventReceived, this, std::placeholders::_1))
    {}
    void onEventReceived(const S &event)
    {
        _publisher->processAndPublish([&event, this](D &d) { _transformFunction(event, d); });
    }

private:
    std::function<void(const S &, D &)> _transformFunction;
    Publisher<D> *_publisher;

public:
    std::function<void(const S &)> forwarderListenerFunction;
};
} // namespace kpsr
#endif

#ifndef SDK_SUBSCRIBER_H
#define SDK_SUBSCRIBER_H
#include <functional>
#include <memory>
#include <string>
#include <klepsydra/sdk/container.h>
#include <klepsydra/sdk/subscription_stats.h>
namespace kpsr {
template<class T>
class Subscriber
{
public:
    Subscriber(Container *container, const std::string &name, const std::string &type)
        : container(container), name(name), type(type)
    {}
    virtual ~Subscriber() {}
    void setContainer(Container *c) { container = c; }
    virtual void registerListenerOnce(const std::function<void(const T &)> listener) = 0;
    virtual void registerListener(const std::string &name, const std::function<void(const T &)> listener) = 0;
    virtual void registerSharedPtrListener(const std::string &, const std::function<void(const std::shared_ptr<const T> &)>) {}
    virtual void registerSharedPtrListenerOnce(const std::function<void(const std::shared_ptr<const T> &)>) {}
    virtual void removeListener(const std::string &name) = 0;
    virtual std::shared_ptr<SubscriptionStats> getSubscriptionStats(const std::string &name) = 0;

    Container *container;
    const std::string name, type;
};
} // namespace kpsr
#endif

#ifndef SDK_PUBLISHER_H
#define SDK_PUBLISHER_H
#include <functional>
#include <memory>
#include <string>
#include <klepsydra/sdk/container.h>
#include <klepsydra/sdk/publication_stats.h>
namespace kpsr {
template<class T>
class Publisher
{
public:
    Publisher(Container *container, const std::string &name, const std::string &type)
        : container(container), name(name), publicationStats(name, type)
    {
        if (container)
            container->attach(&publicationStats);
    }
    virtual ~Publisher()
    {
        if (container)
            container->detach(&publicationStats);
    }
    void setContainer(Container *c)
    {
        container = c;
        if (container)
            container->attach(&publicationStats);
    }
    void publish(const T &event)
    {
        publicationStats.startProcessMeasure();
        internalPublish(event);
        publicationStats.stopProcessMeasure();
    }
    void publish(std::shared_ptr<const T> event)
    {
        publicationStats.startProcessMeasure();
        internalPublish(event);
        publicationStats.stopProcessMeasure();
    }
    virtual void processAndPublish(std::function<void(T &)> process) = 0;

    Container *container;
    std::string name;
    PublicationStats publicationStats;

protected:
    virtual void internalPublish(const T &event) = 0;
    virtual void internalPublish(std::shared_ptr<const T> event) = 0;
};
} // namespace kpsr
#endif

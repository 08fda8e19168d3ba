#ifndef SDK_SERVICE_H
#define SDK_SERVICE_H
#include <string>
#include <klepsydra/sdk/container.h>
#include <klepsydra/sdk/environment.h>
#include <klepsydra/sdk/service_stats.h>
namespace kpsr {
class Service
{
public:
    Service(Container *container, Environment *environment, const std::string &serviceName, bool isManaged = false)
        : serviceStats(serviceName, isManaged), _container(container), _environment(environment)
    {
        if (_container)
            _container->attach(this);
    }
    virtual ~Service()
    {
        if (_container)
            _container->detach(this);
    }
    void startup()
    {
        if (!_running) {
            start();
            _running = true;
        }
    }
    void shutdown()
    {
        if (_running) {
            stop();
            _running = false;
        }
    }
    void runOnce()
    {
        if (_running) {
            serviceStats.startProcessMeasure();
            execute();
            serviceStats.stopProcessMeasure();
        }
    }
    ServiceStats serviceStats;

protected:
    virtual void start() = 0;
    virtual void stop() = 0;
    virtual void execute() = 0;
    Container *_container;
    Environment *_environment;
    bool _running = false;
};
} // namespace kpsr
#endif

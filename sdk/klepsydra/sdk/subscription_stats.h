#ifndef SUBSCRIPTION_STATS_H
#define SUBSCRIPTION_STATS_H
#include <klepsydra/sdk/function_stats.h>
namespace kpsr {
struct SubscriptionStats : public FunctionStats
{
    SubscriptionStats(const std::string &name, const std::string &listenerName, const std::string &type,
                      bool haveContainer = false)
        : FunctionStats(name), listenerName(listenerName), type(type)
    {}
    std::string listenerName, type;
    StatCounter totalDiscardedEvents, totalEnqueuedTimeInNs;
};
} // namespace kpsr
#endif

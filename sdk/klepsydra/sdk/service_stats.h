#ifndef SERVICE_STATS_H
#define SERVICE_STATS_H
#include <klepsydra/sdk/function_stats.h>
namespace kpsr {
struct ServiceStats : public FunctionStats
{
    ServiceStats(const std::string &name, bool isManaged = false) : FunctionStats(name) {}
};
} // namespace kpsr
#endif

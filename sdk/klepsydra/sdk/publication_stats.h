#ifndef PUBLICATION_STATS_H
#define PUBLICATION_STATS_H
#include <klepsydra/sdk/function_stats.h>
namespace kpsr {
struct PublicationStats : public FunctionStats
{
    PublicationStats(const std::string &name, const std::string &type) : FunctionStats(name), type(type) {}
    std::string type;
    StatCounter _totalEventAllocations, totalDiscardedEvents;
};
} // namespace kpsr
#endif

#ifndef FUNCTION_STATS_H
#define FUNCTION_STATS_H
#include <string>
#include <klepsydra/sdk/sdk_stat.h>
namespace kpsr {
struct FunctionStats
{
    FunctionStats(const std::string &name) : name(name) {}
    virtual ~FunctionStats() {}
    virtual void start() { started = 1; starts++; }
    virtual void stop() { started = 0; stops++; }
    virtual void startProcessMeasure() { begun++; }
    virtual void stopProcessMeasure() { totalProcessed++; }
    std::string name;
    StatCounter totalProcessed, begun;
    StatCounter started, starts, stops; // stand-in only: observable state of start()/stop()
};
} // namespace kpsr
#endif

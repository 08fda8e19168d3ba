#ifndef SDK_TIME_UTILS_H
#define SDK_TIME_UTILS_H
#include <chrono>
namespace kpsr {
struct TimeUtils
{
    template<class D>
    static long long now()
    {
        return std::chrono::duration_cast<D>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }
    static long getCurrentNanoseconds() { return now<std::chrono::nanoseconds>(); }
    static unsigned long long getCurrentNanosecondsAsLlu() { return now<std::chrono::nanoseconds>(); }
    static long getCurrentMilliseconds() { return now<std::chrono::milliseconds>(); }
    static unsigned long long getCurrentMillisecondsAsLlu() { return now<std::chrono::milliseconds>(); }
};
} // namespace kpsr
#endif

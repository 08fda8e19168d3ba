// Stand-in for the (closed, not installed) KlepsydraSDK.  Only what kpsr-core uses.
// The counters are invisible to the race detector: whether the real SDK makes them atomic is not
// kpsr-core's business.
#ifndef SDK_STAT_H
#define SDK_STAT_H
#define SDK_QUIET __attribute__((no_sanitize("thread"), noinline))
namespace kpsr {
class StatCounter
{
public:
    SDK_QUIET StatCounter(long long v = 0) : _v(v) {}
    SDK_QUIET StatCounter(const StatCounter &o) : _v(o._v) {}
    SDK_QUIET StatCounter &operator=(long long v) { _v = v; return *this; }
    SDK_QUIET StatCounter &operator=(const StatCounter &o) { _v = o._v; return *this; }
    SDK_QUIET StatCounter &operator+=(long long v) { _v += v; return *this; }
    SDK_QUIET StatCounter &operator++() { _v++; return *this; }
    SDK_QUIET long long operator++(int) { return _v++; }
    SDK_QUIET operator long long() const { return _v; }
    SDK_QUIET long long load() const { return _v; }

private:
    long long _v;
};
} // namespace kpsr
#endif

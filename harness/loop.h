// shared pieces of the event loop harnesses (C08, C09)
#ifndef LOOP_H
#define LOOP_H
#include "enumerate.h"
#include <atomic>
#include <klepsydra/high_performance/event_loop_middleware_provider.h>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
using namespace kpsr;
namespace {
inline mc::Options opt(int a, int b, int t0 = 0, int t1 = 1)
{
    mc::Options o;
    o.preempt[0] = a;
    o.preempt[1] = b;
    o.timers[0] = t0;
    o.timers[1] = t1;
    o.leak = true;
    return o;
}
// for long scenarios
inline mc::Options deep(int a, int b)
{
    mc::Options o = opt(a, b, 0, 0);
    o.delays = true;
    return o;
}
struct A
{
    long a = -1, b = -1; // both words carry the value
    A() {}
    explicit A(long v) : a(v), b(v) {}
    long v() const
    {
        mc::check(a == b, "an event is delivered as it was published");
        return a;
    }
};
struct B
{
    std::string s;
    B() {}
    explicit B(long v) : s(std::to_string(v)) {}
    long v() const { return std::stol(s); }
};
// what the listeners of one loop saw
struct Seen
{
    int ch;
    std::atomic<int> n{0};      // deliveries
    std::atomic<int> inside{0}; // listeners running
    std::atomic<bool> quiet{false};
    std::atomic<int> thread{-1};
    explicit Seen(int ch = 0) : ch(ch) {}
    // listener `who` received `value`
    void got(int who, long value)
    {
        mc::check(inside.exchange(1) == 0, "no two listeners of a loop run at once");
        mc::check(!quiet, "no listener runs once stopping the loop has returned");
        int t = mc::mc_thread_id(), none = -1;
        if (!thread.compare_exchange_strong(none, t))
            mc::check(none == t, "all listeners run on the loop's thread");
        mc::rec(ch, who);
        mc::rec(ch, value);
        inside = 0;
        n++;
    }
    void wait(int k)
    {
        while (n < k)
            std::this_thread::yield();
    }
    void stopped()
    {
        mc::check(inside == 0, "stopping waits for the listener that is running");
        quiet = true;
        thread = -1;
    }
    void started() { quiet = false; }
    std::vector<long> of(int who) const
    {
        auto r = mc::recs(ch);
        std::vector<long> out;
        for (size_t i = 0; i + 1 < r.size(); i += 2)
            if (r[i] == who)
                out.push_back(r[i + 1]);
        return out;
    }
};
// the values of `v` that satisfy p
template<class P>
std::vector<long> only(const std::vector<long> &v, P p)
{
    std::vector<long> r;
    for (long x : v)
        if (p(x))
            r.push_back(x);
    return r;
}
inline bool increasing(const std::vector<long> &v)
{
    for (size_t i = 1; i < v.size(); i++)
        if (v[i] <= v[i - 1])
            return false;
    return true;
}
template<class T, size_t N>
unsigned long long discarded(Publisher<T> *p)
{
    return dynamic_cast<high_performance::EventLoopPublisher<T, N> *>(p)->_discardedMessages;
}
} // namespace
#endif

// shared pieces for the ring-buffer harnesses
#ifndef DISR_H
#define DISR_H
#include <klepsydra/high_performance/disruptor4cpp/disruptor4cpp.h>
#include "mc.h"
#include <thread>
using namespace disruptor4cpp;
struct Ev
{
    long a = -1, b = -1; // both words carry the value: a torn or stale slot is visible
};
// event values: producer p's k-th event
inline long val(int p, int k) { return (p + 1) * 100 + k; }

// pauses: a producer before it publishes, a consumer before it gives an event back, for so many rounds of the others
inline int slow_producer = 0, slow_consumer = 0;
inline void slowly(int rounds)
{
    for (int i = 0; i < rounds; i++)
        std::this_thread::yield();
}
// who pauses is chosen; spinning for that long is no livelock
inline void choose_slow(int rounds)
{
    int who = mc::choose(3, "who pauses");
    slow_producer = who != 0 ? rounds : 0;
    slow_consumer = who != 1 ? rounds : 0;
}
inline void slow_options(mc::Options &o)
{
    o.preempt[0] = 0;
    o.preempt[1] = 1;
    o.timers[0] = o.timers[1] = 0;
    o.delays = true;
    o.horizon = 20000000;
    o.stall = 20000000;
}
// handler: records (sequence, value, end_of_batch) on channel ch; halts its processor after `stop_after` events
template<class RB>
struct Handler : public event_handler<Ev>
{
    int ch;
    long stop_after;
    long seen = 0;
    batch_event_processor<RB> *proc = nullptr;
    std::function<void(long)> hook; // called with the sequence, may throw
    int starts = 0, stops = 0, timeouts = 0;
    Handler(int ch, long n) : ch(ch), stop_after(n) {}
    void on_start() override { starts++; }
    void on_shutdown() override { stops++; }
    void on_event(Ev &e, int64_t seq, bool eob) override
    {
        long a = e.a, b = e.b;
        mc::check(a == b, "an event is read whole, as it was written");
        slowly(slow_consumer);
        mc::check(e.a == a && e.b == b, "an event stays as it is while it is being handled");
        mc::rec(ch, seq);
        mc::rec(ch, a);
        mc::rec(ch, eob);
        if (++seen == stop_after)
            proc->halt();
        if (hook)
            hook(seq);
    }
    void on_timeout(int64_t) override { timeouts++; }
    void on_event_exception(const std::exception &, int64_t seq, Ev *) override
    {
        mc::rec(ch + 16, seq);
    }
    void on_start_exception(const std::exception &) override {}
    void on_shutdown_exception(const std::exception &) override {}
};
// sequences / values / eob flags recorded on a channel
struct Log
{
    std::vector<long> seq, v, eob;
    Log(int ch)
    {
        auto r = mc::recs(ch);
        for (size_t i = 0; i + 2 < r.size() + 0 || i + 2 == r.size() - 0; i += 3) {
            if (i + 2 >= r.size())
                break;
            seq.push_back(r[i]);
            v.push_back(r[i + 1]);
            eob.push_back(r[i + 2]);
        }
    }
};
// every consumer sees every sequence exactly once, in order, from `from`
inline void check_seq(const Log &l, long from, long n, const char *who)
{
    mc::check((long) l.seq.size() == n, "a consumer sees every published event exactly once",
              [&] { return std::string(who) + " saw " + mc::str(l.seq) + " expected " + std::to_string(n) + " events"; });
    for (long i = 0; i < n; i++)
        mc::check(l.seq[i] == from + i, "events are delivered in sequence order without gaps or repetition",
                  [&] { return std::string(who) + " saw " + mc::str(l.seq); });
}
template<class RB>
void put(RB &rb, int64_t seq, long v)
{
    rb[seq].a = v;
    rb[seq].b = v;
}
#endif

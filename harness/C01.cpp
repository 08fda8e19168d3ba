// C01 single-producer ring: exactly-once, in-order, intact delivery to every consumer, with back-pressure
#include "disr.h"
namespace {
template<class WS, size_t B>
using RB1 = ring_buffer<Ev, B, WS, producer_type::single>;

// batches: sizes of the successive claims; mode 0 next(n), 1 try_next(n) with retry
template<class WS, size_t B>
void run1(std::vector<int> batches, int consumers, int mode, bool chain)
{
    typedef RB1<WS, B> RB;
    RB rb;
    long total = 0;
    for (int b : batches)
        total += b;
    std::vector<std::unique_ptr<Handler<RB>>> h;
    std::vector<std::unique_ptr<batch_event_processor<RB>>> p;
    std::vector<typename RB::sequence_type *> gate;
    for (int c = 0; c < consumers; c++) {
        h.emplace_back(new Handler<RB>(c, total));
        if (chain && c > 0)
            p.emplace_back(new batch_event_processor<RB>(
                rb, rb.new_barrier(std::vector<typename RB::sequence_type *>{&p[c - 1]->get_sequence()}), *h[c]));
        else
            p.emplace_back(new batch_event_processor<RB>(rb, rb.new_barrier(), *h[c]));
        h[c]->proc = p[c].get();
        if (!chain || c == consumers - 1)
            gate.push_back(&p[c]->get_sequence());
    }
    rb.add_gating_sequences(gate);
    {
        std::vector<std::thread> th;
        for (int c = 0; c < consumers; c++)
            th.emplace_back([&, c] { p[c]->run(); });
        int k = 0;
        for (int n : batches) {
            int64_t hi;
            if (mode == 0)
                hi = rb.next(n);
            else {
                for (;;) {
                    try {
                        hi = rb.try_next(n);
                        break;
                    } catch (insufficient_capacity_exception &) {
                        std::this_thread::yield();
                    }
                }
            }
            mc::check(hi == k + n - 1, "claims are consecutive");
            for (int i = n - 1; i >= 0; i--)
                put(rb, hi - i, val(0, k++));
            slowly(slow_producer);
            if (n == 1)
                rb.publish(hi);
            else
                rb.publish(hi - n + 1, hi);
        }
        for (auto &t : th)
            t.join();
    }
    for (int c = 0; c < consumers; c++) {
        Log l(c);
        check_seq(l, 0, total, ("consumer " + std::to_string(c)).c_str());
        for (long i = 0; i < total; i++)
            mc::check(l.v[i] == val(0, i), "the event delivered for a sequence is the one published there");
        mc::check(p[c]->get_sequence().get() == total - 1, "a consumer's progress ends at the last event");
        mc::check(l.eob.back() == 1, "the last event of a batch is flagged");
        mc::check(h[c]->starts == 1 && h[c]->stops == 1, "start and shutdown are notified once");
        mc::observe(l.eob);
    }
}
template<class WS>
void reg(const char *name, bool spinning, int dq, int dt, bool light)
{
    mc::Options o;
    auto add = [&](const char *n, std::function<void()> f, int q, int t, bool th = false, int stale = 0) {
        mc::Options o;
        o.preempt[0] = q;
        o.preempt[1] = t;
        o.timers[0] = o.timers[1] = 0;
        o.stale[0] = o.stale[1] = stale;
        o.thorough_only = th;
        o.seconds[0] = 25;
        o.horizon = 20000;
        mc::register_fn(std::string(name) + "_" + n, f, o);
    };
    auto deep = [&](const char *n, std::function<void()> f, int q, int t) {
        mc::Options o;
        o.preempt[0] = q;
        o.preempt[1] = t;
        o.timers[0] = o.timers[1] = 0;
        o.delays = true;
        mc::register_fn(std::string(name) + "_" + n, f, o);
    };
    {
        mc::Options o;
        slow_options(o);
        mc::register_fn(std::string(name) + "_slow", [] {
            choose_slow(mc::mc_thorough() ? 20000 : 4000);
            run1<WS, 2>({1, 2, 1, 1, 2}, 2, mc::choose(2), mc::choose(2));
        }, o);
    }
    add("wrap", [] { run1<WS, 2>({1, 1, 1}, 1, 0, false); }, dq, dt);
    add("batch", [] { run1<WS, 4>({2, 3, 1}, 1, 0, false); }, dq, dt);
    add("try", [] { run1<WS, 2>({1, 1, 1}, 1, 1, false); }, dq, dt);
    if (light)
        return;
    add("two", [] { run1<WS, 2>({1, 1, 1}, 2, 0, false); }, dq > 2 ? dq - 1 : dq, dt);
    add("weak", [] { run1<WS, 2>({1, 1, 1}, 1, 0, false); }, 2, 3, false, 1);
    add("weaktry", [] { run1<WS, 4>({3, 2}, 1, 1, false); }, 2, 3, false, 1);
    add("chain", [] { run1<WS, 2>({1, 1, 1}, 2, 0, true); }, 2, dt);
    add("chainbatch", [] { run1<WS, 4>({3, 2}, 2, 0, true); }, 2, 3);
    add("long", [] { run1<WS, 2>({1, 2, 1, 1, 2}, 1, 0, false); }, 2, 4);
    add("three", [] { run1<WS, 2>({1, 1}, 3, 0, false); }, 1, 2, true);
    // larger rings, longer histories, more consumers
    deep("scale8", [] { run1<WS, 8>({8, 1, 7, 2, 6, 3, 5, 4, 8, 1, 1, 8}, 1, mc::choose(2), false); }, 2, 3);
    deep("scale64", [] { run1<WS, 64>({64, 1, 63, 33, 32, 31, 64, 64, 2, 62, 5}, 1, mc::choose(2), false); }, 1, 2);
    deep("scale1024", [] { run1<WS, 1024>({1000, 1, 23, 1024, 513, 511, 300}, 2, mc::choose(2), mc::choose(2)); }, 0, 1);
    deep("ones", [] { run1<WS, 8>(std::vector<int>(300, 1), 2, 0, mc::choose(2)); }, 1, 2);
    deep("many", [] { run1<WS, 4>({1, 2, 3, 4, 1, 2}, 4 + mc::choose(3), 0, mc::choose(2)); }, 1, 2);
    add("one_slot", [] { run1<WS, 1>({1, 1, 1}, 1, 0, false); }, dq, dt);
}
struct Reg
{
    Reg()
    {
        reg<busy_spin_wait_strategy>("busy", true, 3, 6, false);
        reg<blocking_wait_strategy>("blocking", false, 3, 5, false);
        reg<yielding_wait_strategy<>>("yielding_default", true, 2, 4, true);
        reg<sleeping_wait_strategy<>>("sleeping_default", true, 2, 4, true);
        reg<yielding_wait_strategy<2>>("yielding", true, 3, 5, true);
        reg<sleeping_wait_strategy<2>>("sleeping", true, 3, 5, true);
        reg<lite_blocking_wait_strategy>("lite", false, 3, 5, true);
        reg<timeout_blocking_wait_strategy<1000000>>("timeoutblk", false, 2, 4, true);
    }
} r;
} // namespace
#include "main.inc"

// C06 batch processors: halt always ends a run, restart continues, handler errors are contained
#include "disr.h"
namespace {
typedef long long ll;
template<class WS>
struct Fix
{
    typedef ring_buffer<Ev, 4, WS, producer_type::single> RB;
    struct H : public event_handler<Ev>
    {
        std::function<void(ll)> hook;
        int starts = 0, stops = 0, timeouts = 0, startEx = 0, stopEx = 0;
        bool throwStart = false, throwStop = false, throwTimeout = false;
        bool inside = false;
        void on_start() override
        {
            starts++;
            if (throwStart)
                throw std::runtime_error("start");
        }
        void on_shutdown() override
        {
            stops++;
            if (throwStop)
                throw std::runtime_error("stop");
        }
        void on_event(Ev &e, int64_t seq, bool) override
        {
            mc::check(!inside, "one event is handled at a time");
            inside = true;
            mc::check(e.a == val(0, seq) && e.b == e.a, "the handler gets the event published at that sequence");
            mc::rec(0, seq);
            inside = false;
            if (hook)
                hook(seq);
        }
        void on_timeout(int64_t s) override
        {
            timeouts++;
            if (throwTimeout)
                throw std::runtime_error("timeout");
        }
        void on_event_exception(const std::exception &, int64_t seq, Ev *e) override
        {
            if (throwTimeout) {
                mc::check(e == nullptr, "a failing timeout notification has no event");
                mc::rec(2, seq);
                return;
            }
            mc::rec(1, seq);
            mc::check(e && e->a == val(0, seq), "an exception is reported with the event that caused it");
        }
        void on_start_exception(const std::exception &) override { startEx++; }
        void on_shutdown_exception(const std::exception &) override { stopEx++; }
    };
    RB rb;
    H h;
    batch_event_processor<RB> p{rb, rb.new_barrier(), h};
    Fix() { rb.add_gating_sequences({&p.get_sequence()}); }
    void pub(int k)
    {
        ll s = rb.next();
        put(rb, s, val(0, k));
        rb.publish(s);
    }
};
void check_prefix(const std::vector<long> &r, ll n, const char *m)
{
    mc::check((ll) r.size() == n, m, [&] { return mc::str(r); });
    for (ll i = 0; i < n; i++)
        mc::check(r[i] == i, m, [&] { return mc::str(r); });
}
// run, wait until it runs, publish some, halt, join: it returns, and what it handled is a prefix
template<class P>
void until_running(P &p)
{
    while (!p.is_running())
        std::this_thread::yield();
}
template<class WS>
void halt_run(int n, bool restart)
{
    Fix<WS> f;
    std::thread t([&] { f.p.run(); });
    until_running(f.p);
    for (int k = 0; k < n; k++)
        f.pub(k);
    f.p.halt();
    t.join();
    mc::check(!f.p.is_running(), "a halted processor is not running");
    mc::check(f.h.starts == 1 && f.h.stops == 1, "start and shutdown are notified once per run");
    auto r = mc::recs(0);
    mc::check((int) r.size() <= n, "no event is invented");
    check_prefix(r, r.size(), "a run handles the next events in order");
    mc::check(f.p.get_sequence().get() == (ll) r.size() - 1, "progress counts exactly the handled events");
    mc::observe(r.size());
    if (!restart)
        return;
    std::thread t2([&] { f.p.run(); });
    f.pub(n);
    while (f.p.get_sequence().get() < n)
        std::this_thread::yield();
    f.p.halt();
    t2.join();
    mc::check(f.h.starts == 2 && f.h.stops == 2, "start and shutdown are notified once per run");
    check_prefix(mc::recs(0), n + 1, "a second run continues with the first event not yet handled");
}
// many events, halts and restarts, and handlers that fail now and then
template<class WS>
void long_life(int n, int restarts, int failing)
{
    Fix<WS> f;
    f.h.hook = [&](ll s) {
        if (failing && s % failing == failing - 1)
            throw std::runtime_error("handler");
    };
    std::thread p([&] {
        for (int k = 0; k < n; k++)
            f.pub(k);
    });
    for (int i = 0; i < restarts; i++) {
        std::thread t([&] { f.p.run(); });
        until_running(f.p);
        if (i % 3 == 1)
            while (f.p.get_sequence().get() < n * i / restarts)
                std::this_thread::yield();
        f.p.halt();
        t.join();
        mc::check(!f.p.is_running() && f.h.starts == i + 1 && f.h.stops == i + 1, "start and shutdown are notified once per run");
        auto r = mc::recs(0);
        check_prefix(r, r.size(), "a run handles the next events in order");
        mc::check(f.p.get_sequence().get() == (ll) r.size() - 1, "progress counts exactly the handled events");
    }
    std::thread t([&] { f.p.run(); });
    until_running(f.p);
    while (f.p.get_sequence().get() < n - 1)
        std::this_thread::yield();
    f.p.halt();
    t.join();
    p.join();
    check_prefix(mc::recs(0), n, "every event is handled once, in order, however often the processor was halted");
    mc::check((int) mc::recs(1).size() == (failing ? n / failing : 0), "each handler failure is reported once");
}
// halt by a thread other than the publisher
template<class WS>
void halt_vs_publish()
{
    Fix<WS> f;
    std::thread t([&] { f.p.run(); });
    std::thread hl([&] {
        until_running(f.p);
        f.p.halt();
    });
    f.pub(0);
    f.pub(1);
    hl.join();
    t.join();
    auto r = mc::recs(0);
    check_prefix(r, r.size(), "a run handles the next events in order");
    mc::check(f.p.get_sequence().get() == (ll) r.size() - 1, "progress counts exactly the handled events");
    mc::observe(r.size());
}
// two threads run the same processor: one is refused
template<class WS>
void two_runs()
{
    Fix<WS> f;
    f.pub(0);
    std::atomic<int> refused{0}, finished{0};
    auto go = [&] {
        try {
            f.p.run();
            finished++;
        } catch (std::runtime_error &) {
            refused++;
        }
    };
    f.h.hook = [&](ll) {
        // keep running until the other has been refused
        while (refused == 0)
            std::this_thread::yield();
        f.p.halt();
    };
    std::thread a(go), b(go);
    a.join();
    b.join();
    mc::check(refused == 1 && finished == 1, "a second concurrent run is refused");
    mc::check(f.h.starts == 1 && f.h.stops == 1, "a refused run notifies nothing");
}
template<class WS>
void handler_throws(int n, int preloaded)
{
    Fix<WS> f;
    unsigned mask = mc::choose(1 << n, "events that throw");
    f.h.hook = [&](ll s) {
        if (s == n - 1)
            f.p.halt();
        if (mask >> s & 1)
            throw std::runtime_error("handler");
    };
    for (int k = 0; k < preloaded; k++)
        f.pub(k);
    std::thread t([&] { f.p.run(); });
    for (int k = preloaded; k < n; k++)
        f.pub(k);
    t.join();
    check_prefix(mc::recs(0), n, "every event is handled exactly once although handlers throw");
    auto ex = mc::recs(1);
    std::vector<long> want;
    for (int i = 0; i < n; i++)
        if (mask >> i & 1)
            want.push_back(i);
    mc::check(ex == want, "an exception is reported exactly for the events that threw",
              [&] { return mc::str(ex) + " expected " + mc::str(want); });
    mc::check(f.p.get_sequence().get() == n - 1, "a throwing handler's event counts as handled");
}
template<class WS>
void handler_throws_foreign()
{
    Fix<WS> f;
    f.h.hook = [&](ll s) {
        if (s == 1)
            throw 42;
    };
    bool got = false;
    for (int k = 0; k < 2; k++)
        f.pub(k);
    std::thread t([&] {
        try {
            f.p.run();
        } catch (int v) {
            got = v == 42;
        }
    });
    t.join();
    mc::check(got, "a foreign exception ends the run and reaches its caller");
    mc::check(!f.p.is_running() && f.h.stops == 1, "a run ended by an exception has shut down");
    f.h.hook = [&](ll s) { f.p.halt(); };
    f.p.run();
    mc::check(f.h.starts == 2 && f.h.stops == 2, "after a foreign exception the processor can run again");
}
template<class WS>
void notify_throws()
{
    Fix<WS> f;
    f.h.throwStart = mc::choose(2, "start throws");
    f.h.throwStop = mc::choose(2, "stop throws");
    f.h.hook = [&](ll) { f.p.halt(); };
    f.pub(0);
    f.p.run();
    check_prefix(mc::recs(0), 1, "failing notifications do not disturb delivery");
    mc::check(f.h.startEx == f.h.throwStart && f.h.stopEx == f.h.throwStop && f.h.starts == 1 && f.h.stops == 1,
              "a failing notification is reported once");
    mc::check(!f.p.is_running(), "the run has ended");
}
void timeouts()
{
    typedef timeout_blocking_wait_strategy<1000000> WS;
    Fix<WS> f;
    f.h.throwTimeout = mc::choose(2, "timeout throws");
    f.h.hook = [&](ll) { f.p.halt(); };
    int delay = mc::choose(3, "delay");
    std::thread t([&] { f.p.run(); });
    if (delay)
        std::this_thread::sleep_for(std::chrono::microseconds(1100 * delay));
    f.pub(0);
    t.join();
    check_prefix(mc::recs(0), 1, "timeouts do not disturb delivery");
    mc::check(f.h.timeouts >= 0, "a timeout is notified while no event arrives");
    mc::check(!f.h.throwTimeout || (int) mc::recs(2).size() == f.h.timeouts, "a failing timeout notification is reported");
    for (long v : mc::recs(2))
        mc::check(v == -1, "a timeout reports the progress so far");
    mc::observe(f.h.timeouts);
}
// the processor that only follows
template<class WS>
void no_op(int n, bool restart)
{
    typedef ring_buffer<Ev, 4, WS, producer_type::single> RB;
    RB rb;
    no_op_event_processor<RB> p(rb, rb.new_barrier());
    rb.add_gating_sequences({&p.get_sequence()});
    mc::check(!p.is_running(), "a processor not started is not running");
    for (int round = 0; round < (restart ? 2 : 1); round++) {
        std::thread t([&] { p.run(); });
        until_running(p);
        for (int k = 0; k < n; k++) {
            ll s = rb.next();
            rb.publish(s);
        }
        if (round == 0) {
            while (n && p.get_sequence().get() < 0)
                std::this_thread::yield();
        } else
            while (p.get_sequence().get() < 2 * n - 1)
                std::this_thread::yield();
        p.halt();
        t.join();
        mc::check(!p.is_running(), "a halted processor is not running");
        mc::check(p.get_sequence().get() <= (round + 1) * n - 1, "progress never passes what is published");
    }
}
void no_op_refused()
{
    typedef ring_buffer<Ev, 4, blocking_wait_strategy, producer_type::single> RB;
    RB rb;
    no_op_event_processor<RB> p(rb, rb.new_barrier());
    std::thread t([&] { p.run(); });
    until_running(p);
    bool refused = false;
    try {
        p.run();
    } catch (std::runtime_error &) {
        refused = true;
    }
    mc::check(refused, "a second concurrent run is refused");
    p.halt();
    t.join();
}
template<class WS>
void reg(const std::string &n, int d, bool light)
{
    auto add = [&](const char *s, std::function<void()> f, int q, int t, int stale = 0) {
        mc::Options o;
        o.preempt[0] = q + d;
        o.preempt[1] = t + d;
        o.timers[0] = 0;
        o.timers[1] = 1;
        o.stale[0] = stale;
        o.stale[1] = stale;
        mc::register_fn(n + "_" + s, f, o);
    };
    auto deep = [&](const char *s, std::function<void()> f, int q, int t) {
        mc::Options o;
        o.preempt[0] = q;
        o.preempt[1] = t;
        o.timers[0] = o.timers[1] = 0;
        o.delays = true;
        mc::register_fn(n + "_" + s, f, o);
    };
    deep("long", [] { long_life<WS>(12, 3, 5); }, 2, 3);
    deep("longer", [] { long_life<WS>(40, 12, 7); }, 1, 2);
    deep("very_long", [] { long_life<WS>(300, 5, 0); }, 1, 1);
    add("halt0", [] { halt_run<WS>(0, false); }, 4, 6);
    add("halt1", [] { halt_run<WS>(1, false); }, 3, 5);
    add("halt_weak", [] { halt_run<WS>(1, false); }, 2, 3, 1);
    add("restart", [] { halt_run<WS>(1, true); }, 2, 3);
    add("halt_publish", [] { halt_vs_publish<WS>(); }, 2, 4);
    add("two_runs", [] { two_runs<WS>(); }, 2, 4);
    add("throws", [] { handler_throws<WS>(3, 0); }, 2, 4);
    add("no_op", [] { no_op<WS>(1, false); }, 3, 5);
    if (light)
        return;
    add("halt2", [] { halt_run<WS>(2, false); }, 2, 4);
    add("throws_batch", [] { handler_throws<WS>(4, 4); }, 2, 3);
    add("throws_half", [] { handler_throws<WS>(4, 2); }, 2, 3);
    add("foreign", [] { handler_throws_foreign<WS>(); }, 2, 3);
    add("notify_throws", [] { notify_throws<WS>(); }, 1, 1);
    add("no_op_restart", [] { no_op<WS>(1, true); }, 2, 3);
    add("no_op0", [] { no_op<WS>(0, false); }, 3, 5);
    add("no_op_weak", [] { no_op<WS>(1, false); }, 2, 3, 1);
}
struct Reg
{
    Reg()
    {
        reg<blocking_wait_strategy>("blocking", 1, false);
        reg<busy_spin_wait_strategy>("busy", 1, false);
        reg<lite_blocking_wait_strategy>("lite", 1, true);
        reg<sleeping_wait_strategy<2>>("sleeping", 1, true);
        reg<yielding_wait_strategy<2>>("yielding", 1, true);
        reg<timeout_blocking_wait_strategy<1000000>>("timeoutblk", 1, true);
        mc::Options o;
        o.timers[0] = 1;
        o.timers[1] = 2;
        mc::register_fn("timeouts", timeouts, o);
        mc::register_fn("no_op_refused", no_op_refused, o);
    }
} r;
} // namespace
#include "main.inc"

// C05 wait strategies: wake on publish, abort on alert, honest timeouts, dependencies respected
#include "disr.h"
namespace {
typedef long long ll;
enum { W_SEQ, W_ALERT, W_TIMEOUT };
// the time limit of a strategy (no limit: it never reports a timeout)
template<class WS>
struct Limit
{
    static const ll ns = -1;
};
template<int64_t NS>
struct Limit<timeout_blocking_wait_strategy<NS>>
{
    static const ll ns = NS;
};
template<class WS>
struct Rig
{
    typedef ring_buffer<Ev, 4, WS, producer_type::single> RB;
    typedef typename RB::sequence_barrier_type Bar;
    RB rb;
    // one wait; returns the kind of outcome
    static int wait(Bar &b, ll seq, ll &got)
    {
        ll t0 = mc::mc_now_ns();
        try {
            got = b.wait_for(seq);
            return W_SEQ;
        } catch (alert_exception &) {
            return W_ALERT;
        } catch (timeout_exception &) {
            mc::check(Limit<WS>::ns >= 0, "a strategy without a time limit reports no timeout");
            mc::check(mc::mc_now_ns() - t0 >= Limit<WS>::ns, "a timeout is not reported before its limit");
            return W_TIMEOUT;
        }
    }
    void pub(int k)
    {
        ll s = rb.next();
        put(rb, s, val(0, k));
        rb.publish(s);
    }
};
// a fallback that tells the environment it has been entered
struct Entered
{
    std::mutex m;
    std::condition_variable cv;
    bool in = false;
};
Entered *entered;
template<class F>
struct Telling
{
    F f;
    template<typename B, typename S>
    int64_t wait_for(int64_t seq, const S &c, const fixed_sequence_group<S> &d, const B &b)
    {
        if (entered) {
            std::lock_guard<std::mutex> g(entered->m);
            entered->in = true;
            entered->cv.notify_all();
        }
        return f.wait_for(seq, c, d, b);
    }
    void signal_all_when_blocking() { f.signal_all_when_blocking(); }
};
void await_entered()
{
    std::unique_lock<std::mutex> l(entered->m);
    entered->cv.wait(l, [] { return entered->in; });
}

// publisher publishes n events, waiter waits for each (or for the last one directly)
template<class WS>
void publish_vs_wait(int n, bool last_only, bool late)
{
    Rig<WS> r;
    auto bar = r.rb.new_barrier();
    sequence cons;
    Entered e;
    entered = late ? &e : nullptr;
    std::thread w([&] {
        for (ll s = last_only ? n - 1 : 0; s < n;) {
            ll got = -9;
            int o = Rig<WS>::wait(*bar, s, got);
            mc::check(o != W_ALERT, "an alert is raised only if somebody alerted");
            if (o == W_TIMEOUT)
                continue;
            mc::check(got >= s && got < n, "a wait returns a published sequence not below the one waited for");
            for (ll i = 0; i <= got; i++)
                mc::check(r.rb[i].a == val(0, i) && r.rb[i].b == val(0, i), "the events up to the returned sequence are visible");
            mc::rec(0, got);
            s = got + 1;
        }
    });
    if (late)
        await_entered();
    for (int k = 0; k < n; k++)
        r.pub(k);
    w.join();
    entered = nullptr;
    mc::observe(mc::recs(0));
}
// nothing is published: an alert at any time ends the wait
template<class WS>
void alert_vs_wait(bool late)
{
    Rig<WS> r;
    auto bar = r.rb.new_barrier();
    Entered e;
    entered = late ? &e : nullptr;
    std::thread w([&] {
        ll got;
        int o;
        do
            o = Rig<WS>::wait(*bar, 0, got);
        while (o == W_TIMEOUT);
        mc::check(o == W_ALERT, "a wait on an alerted barrier aborts");
        mc::check(bar->is_alerted(), "the alert stays until cleared");
    });
    if (late)
        await_entered();
    bar->alert();
    w.join();
    entered = nullptr;
    // cleared: usable again
    bar->clear_alert();
    mc::check(!bar->is_alerted(), "a cleared barrier is not alerted");
    r.pub(0);
    ll got;
    mc::check(Rig<WS>::wait(*bar, 0, got) == W_SEQ && got == 0, "a cleared barrier waits normally again");
}
// publication and alert race: the waiter always gets out, by one or the other
template<class WS>
void both_vs_wait()
{
    Rig<WS> r;
    auto bar = r.rb.new_barrier();
    std::thread w([&] {
        ll s = 0;
        for (;;) {
            ll got;
            int o = Rig<WS>::wait(*bar, s, got);
            if (o == W_TIMEOUT)
                continue;
            mc::rec(0, o);
            if (o == W_ALERT)
                break;
            mc::check(got == 0, "only what was published is returned");
            s = got + 1;
        }
    });
    std::thread p([&] { r.pub(0); });
    bar->alert();
    p.join();
    w.join();
    mc::observe(mc::recs(0));
}
// dependent sequence: published first, the stage in front follows
template<class WS>
void dependent()
{
    Rig<WS> r;
    sequence d1, d2;
    auto bar = r.rb.new_barrier(std::vector<sequence *>{&d1, &d2});
    int done1 = -1, done2 = -1; // plain: the waiter reads them only under the dependency
    std::thread w([&] {
        for (ll s = 0; s < 2;) {
            ll got;
            int o = Rig<WS>::wait(*bar, s, got);
            if (o == W_TIMEOUT)
                continue;
            mc::check(o == W_SEQ, "an alert is raised only if somebody alerted");
            mc::check(got >= s && got <= 1, "a wait returns a sequence its dependencies have reached");
            mc::check(done1 >= got && done2 >= got, "a wait never passes the slowest dependency");
            s = got + 1;
            mc::rec(0, got);
        }
    });
    std::thread stage([&] {
        for (int i = 0; i < 2; i++) {
            if (i == 0) {
                done1 = 1; // the first stage finishes both at once
                d1.set(1);
            }
            done2 = i == 1 ? 1 : 1;
            d2.set(1);
            break;
        }
    });
    r.pub(0);
    r.pub(1);
    w.join();
    stage.join();
    mc::observe(mc::recs(0));
}
// a dependency that advances one by one, after the publications
template<class WS>
void dependent_slow(bool alert)
{
    Rig<WS> r;
    sequence d;
    auto bar = r.rb.new_barrier(std::vector<sequence *>{&d});
    r.pub(0);
    r.pub(1);
    std::thread w([&] {
        for (ll s = 0; s < 2;) {
            ll got;
            int o = Rig<WS>::wait(*bar, s, got);
            if (o == W_TIMEOUT)
                continue;
            if (o == W_ALERT) {
                mc::check(alert, "an alert is raised only if somebody alerted");
                mc::rec(0, -1);
                return;
            }
            mc::check(got >= s && got <= d.get(), "a wait never passes its dependency");
            mc::rec(0, got);
            s = got + 1;
        }
        mc::check(!alert, "a wait for a dependency that never comes ends only by an alert");
    });
    d.set(0);
    if (alert)
        bar->alert();
    else
        d.set(1);
    w.join();
    mc::observe(mc::recs(0));
}
// two waiters with barriers of their own share one strategy: a publication wakes both, an alert aborts only one
template<class WS>
void two_waiters(bool alert_one)
{
    Rig<WS> r;
    auto b1 = r.rb.new_barrier(), b2 = r.rb.new_barrier();
    auto waiter = [&](int id, typename Rig<WS>::Bar &b) {
        ll got;
        int o;
        do
            o = Rig<WS>::wait(b, 0, got);
        while (o == W_TIMEOUT);
        mc::rec(id, o);
    };
    std::thread w1([&] { waiter(1, *b1); });
    std::thread w2([&] { waiter(2, *b2); });
    if (alert_one)
        b1->alert();
    r.pub(0);
    w1.join();
    w2.join();
    mc::check(mc::recs(2)[0] == W_SEQ, "a publication wakes every waiter; another barrier's alert does not abort it");
    mc::check(alert_one || mc::recs(1)[0] == W_SEQ, "a publication wakes every waiter");
    mc::observe(mc::recs(1));
}
// two threads signal the same strategy
template<class WS>
void two_barriers_alert()
{
    Rig<WS> r;
    auto b1 = r.rb.new_barrier(), b2 = r.rb.new_barrier();
    auto waiter = [&](typename Rig<WS>::Bar &b) {
        ll got;
        int o;
        do
            o = Rig<WS>::wait(b, 0, got);
        while (o == W_TIMEOUT);
        mc::check(o == W_ALERT, "a wait on an alerted barrier aborts");
    };
    std::thread w1([&] { waiter(*b1); });
    std::thread a([&] { b1->alert(); });
    b2->alert();
    waiter(*b2);
    a.join();
    w1.join();
}
template<ll NS>
void timeout()
{
    typedef timeout_blocking_wait_strategy<NS> WS;
    Rig<WS> r;
    auto bar = r.rb.new_barrier();
    bool pub = mc::choose(2, "publish first") == 1;
    if (pub)
        r.pub(0);
    ll t0 = mc::mc_now_ns();
    ll got;
    int o = Rig<WS>::wait(*bar, 0, got);
    ll dt = mc::mc_now_ns() - t0;
    if (pub)
        mc::check(o == W_SEQ && got == 0, "a published sequence does not time out");
    else
        mc::check(o == W_TIMEOUT && dt >= NS, "a timeout is reported when, and not before, the limit has elapsed",
                  [&] { return "outcome " + std::to_string(o) + " after " + std::to_string(dt) + "ns"; });
}
template<ll NS>
void timeout_race()
{
    typedef timeout_blocking_wait_strategy<NS> WS;
    Rig<WS> r;
    auto bar = r.rb.new_barrier();
    std::thread w([&] {
        int n = 0;
        for (;;) {
            ll t0 = mc::mc_now_ns();
            ll got;
            int o = Rig<WS>::wait(*bar, 0, got);
            if (o == W_SEQ) {
                mc::check(got == 0, "only what was published is returned");
                break;
            }
            mc::check(o == W_TIMEOUT, "no alert was raised");
            mc::check(mc::mc_now_ns() - t0 >= NS, "a timeout is not reported before its limit");
            n++;
        }
        mc::observe(n);
    });
    std::this_thread::sleep_for(std::chrono::nanoseconds(NS / 2 * (1 + mc::choose(4, "delay"))));
    ll t0 = mc::mc_now_ns();
    if (int set = mc::choose(3, "clock set")) // the time that passes counts, not the time of day
        mc::mc_step_wall(set == 1 ? -3600000000000ll : 3600000000000ll);
    if (mc::choose(2, "later"))
        std::this_thread::sleep_for(std::chrono::nanoseconds(NS / 2 * (1 + mc::choose(3, "how late"))));
    r.pub(0);
    w.join();
    mc::check(mc::mc_now_ns() - t0 <= 5 * NS + 1000000, "setting the time of day does not keep a wait from ending");
}
// multi-producer barrier: a claimed but unpublished slot is never reported
template<class WS>
void unpublished()
{
    typedef ring_buffer<Ev, 4, WS, producer_type::multi> RB;
    RB rb;
    auto bar = rb.new_barrier();
    std::thread p1([&] {
        ll s = rb.next();
        put(rb, s, val(0, 0));
        rb.publish(s);
    });
    std::thread w([&] {
        for (ll s = 0; s < 2;) {
            ll got;
            try {
                got = bar->wait_for(s);
            } catch (timeout_exception &) {
                continue;
            }
            mc::check(got >= s - 1 && got <= 1, "a wait reports at most what is published");
            for (ll i = s; i <= got; i++)
                mc::check(rb[i].a == rb[i].b && rb[i].a >= 0, "a reported event is published and visible");
            if (got < s)
                std::this_thread::yield();
            s = got + 1;
        }
    });
    ll s = rb.next();
    put(rb, s, val(1, 0));
    rb.publish(s);
    p1.join();
    w.join();
}
// many events, two waiters that follow, alerts in between
template<class WS>
void long_waits(int n, int alerts)
{
    Rig<WS> r;
    sequence done[2];
    r.rb.add_gating_sequences({&done[0], &done[1]});
    typename std::decay<decltype(r.rb.new_barrier())>::type bar[2] = {r.rb.new_barrier(), r.rb.new_barrier()};
    std::atomic<int> given{0}, taken{0};
    auto waiter = [&](int id) {
        for (ll s = 0; s < n;) {
            ll got;
            int o = Rig<WS>::wait(*bar[id], s, got);
            if (o == W_TIMEOUT)
                continue;
            if (o == W_ALERT) {
                mc::check(id == 0 && taken < alerts, "an alert is raised only if somebody alerted");
                bar[id]->clear_alert();
                taken++;
                continue;
            }
            mc::check(got >= s && got < n, "a wait returns a published sequence not below the one waited for");
            for (ll i = s; i <= got; i++)
                mc::check(r.rb[i].a == val(0, i) && r.rb[i].b == val(0, i), "the events up to the returned sequence are visible");
            done[id].set(got);
            s = got + 1;
        }
        while (id == 0 && taken < alerts) {
            ll got;
            int o = Rig<WS>::wait(*bar[id], n, got);
            mc::check(o != W_SEQ, "only what was published is returned");
            if (o == W_ALERT) {
                bar[id]->clear_alert();
                taken++;
            }
        }
    };
    std::thread a(waiter, 0), b(waiter, 1);
    std::thread c;
    if (alerts)
        c = std::thread([&] {
            for (int i = 0; i < alerts; i++) {
                bar[0]->alert();
                while (taken <= i)
                    std::this_thread::yield();
            }
        });
    for (int i = 0; i < n; i++)
        r.pub(i);
    a.join();
    b.join();
    if (alerts)
        c.join();
}
// long waits: the event, the alert, the dependency come after thousands of rounds of waiting, again and again
template<class WS>
void long_pause(int rounds, bool behind, ll set = 0)
{
    Rig<WS> r;
    sequence d;
    auto bar = behind ? r.rb.new_barrier(std::vector<sequence *>{&d}) : r.rb.new_barrier();
    std::atomic<int> done{0};
    const int N = 4; // 0: event, 1: alert, 2: event, 3: event
    std::thread w([&] {
        ll s = 0;
        for (int i = 0; i < N; i++) {
            ll got = -9;
            int o;
            do
                o = Rig<WS>::wait(*bar, s, got);
            while (o == W_TIMEOUT);
            if (i == 1) {
                mc::check(o == W_ALERT && bar->is_alerted(), "a wait on an alerted barrier aborts, however long it waited");
                bar->clear_alert();
            } else {
                mc::check(o == W_SEQ && got == s && r.rb[s].a == val(0, s) && r.rb[s].b == val(0, s),
                          "a wait returns with the published event, however long it waited",
                          [&] { return "outcome " + std::to_string(o) + " sequence " + std::to_string(got); });
                s++;
            }
            done = i + 1;
        }
    });
    auto pause = [&] {
        for (int i = 0; i < rounds; i++)
            std::this_thread::yield();
    };
    int k = 0;
    for (int i = 0; i < N; i++) {
        pause();
        mc::check(done == i, "a wait does not end before there is a reason to");
        if (set)
            mc::mc_step_wall(set);
        ll t0 = mc::mc_now_ns();
        if (i == 1)
            bar->alert();
        else {
            r.pub(k);
            if (behind) {
                pause();
                mc::check(done == i, "a wait does not end before its dependency");
                d.set(k);
            }
            k++;
            // nobody signals the arrival of a dependency; only polling strategies see it at once
        }
        while (done == i)
            std::this_thread::yield();
        mc::check(!set || mc::mc_now_ns() - t0 < 10000000000ll, "setting the time of day does not keep a wait from ending");
    }
    w.join();
}
template<class WS>
void reg_pause(const std::string &n)
{
    mc::Options o;
    o.preempt[0] = o.preempt[1] = 0;
    o.timers[0] = o.timers[1] = 0;
    o.delays = true;
    o.horizon = 20000000;
    o.stall = 20000000;
    mc::register_fn(n + "_pause", [] { long_pause<WS>(mc::mc_thorough() ? 300000 : 30000, false); }, o);
    mc::register_fn(n + "_pause_behind", [] { long_pause<WS>(mc::mc_thorough() ? 300000 : 30000, true); }, o);
    mc::register_fn(n + "_clock_set", [] {
        int back = mc::choose(2, "back"), behind = mc::choose(2, "behind"), rounds = mc::choose(5, "rounds");
        long_pause<WS>(rounds ? rounds * 5000 : 3, behind, back ? -15000000000ll : 15000000000ll);
    }, o);
    o.preempt[0] = 1;
    o.preempt[1] = 2;
    mc::register_fn(n + "_pause_short", [] { long_pause<WS>(12, mc::choose(2)); }, o);
}
template<class WS>
void reg(const std::string &n, bool timed, bool fast = true)
{
    reg_pause<WS>(n);
    auto add = [&](const char *s, std::function<void()> f, int q, int t, int stale = 0, int tim = 0, int spur = 0) {
        mc::Options o;
        o.preempt[0] = q;
        o.preempt[1] = t;
        o.stale[0] = stale;
        o.stale[1] = stale;
        o.timers[0] = tim;
        o.timers[1] = tim * 2;
        o.spurious[0] = o.spurious[1] = spur;
        if (!fast) {
            o.horizon = 120000;
            o.stall = 100000;
        }
        mc::register_fn(n + "_" + s, f, o);
    };
    if (!fast) {
        add("publish_late", [] { publish_vs_wait<WS>(1, false, true); }, 1, 2);
        add("alert_late", [] { alert_vs_wait<WS>(true); }, 1, 2);
        add("publish1", [] { publish_vs_wait<WS>(1, false, false); }, 2, 4);
        add("publish3", [] { publish_vs_wait<WS>(3, false, false); }, 2, 3);
        add("dependent", [] { dependent<WS>(); }, 2, 3);
        return;
    }
    int tm = timed ? 1 : 0;
    auto deep = [&](const char *s, std::function<void()> f, int q, int t) {
        mc::Options o;
        o.preempt[0] = q;
        o.preempt[1] = t;
        o.timers[0] = o.timers[1] = 0;
        o.delays = true;
        mc::register_fn(n + "_" + s, f, o);
    };
    deep("long", [] { long_waits<WS>(30, 0); }, 2, 3);
    deep("long_alerts", [] { long_waits<WS>(8, 3); }, 2, 3);
    deep("very_long", [] { long_waits<WS>(200, 0); }, 1, 1);
    add("publish1", [] { publish_vs_wait<WS>(1, false, false); }, 5, 7, 0, tm, 1);
    add("publish3", [] { publish_vs_wait<WS>(3, false, false); }, 4, 6, 0, tm, 1);
    add("publish2_last", [] { publish_vs_wait<WS>(2, true, false); }, 4, 6, 0, tm, 1);
    add("publish_weak", [] { publish_vs_wait<WS>(2, false, false); }, 3, 4, 1, tm);
    add("alert", [] { alert_vs_wait<WS>(false); }, 5, 7, 0, tm, 1);
    add("alert_weak", [] { alert_vs_wait<WS>(false); }, 3, 4, 1, tm);
    add("both", [] { both_vs_wait<WS>(); }, 4, 5, 0, tm);
    add("dependent", [] { dependent<WS>(); }, 3, 5, 0, tm);
    add("dependent_slow", [] { dependent_slow<WS>(false); }, 4, 6, 0, tm);
    add("dependent_alert", [] { dependent_slow<WS>(true); }, 4, 6, 0, tm);
    add("two_waiters", [] { two_waiters<WS>(false); }, 3, 5, 0, tm);
    add("two_waiters_alert", [] { two_waiters<WS>(true); }, 3, 5, 0, tm);
    add("two_alerts", [] { two_barriers_alert<WS>(); }, 3, 5, 0, tm);
    add("unpublished", [] { unpublished<WS>(); }, 3, 4, 0, tm);
}
struct Reg
{
    Reg()
    {
        reg_pause<yielding_wait_strategy<>>("yielding_default");
        reg_pause<sleeping_wait_strategy<>>("sleeping_default");
        reg_pause<phased_backoff_wait_strategy<1000, 2000, sleeping_wait_strategy<>>>("phased_sleeping");
        reg_pause<phased_backoff_wait_strategy<100000, 300000, blocking_wait_strategy>>("phased_blocking");
        reg<busy_spin_wait_strategy>("busy", false);
        reg<yielding_wait_strategy<2>>("yielding", false);
        reg<sleeping_wait_strategy<2>>("sleeping", false);
        reg<blocking_wait_strategy>("blocking", false);
        reg<lite_blocking_wait_strategy>("lite", false);
        reg<timeout_blocking_wait_strategy<1000000>>("timeoutblk", true);
        reg<phased_backoff_wait_strategy<10000, 30000, Telling<blocking_wait_strategy>>>("phased", false, false);
        mc::Options o;
        mc::register_fn("timeout_honest", timeout<5000000>, o);
        mc::register_fn("timeout_honest_short", timeout<1000>, o);
        o.timers[0] = 1;
        o.timers[1] = 2;
        mc::register_fn("timeout_race", timeout_race<1000000>, o);
    }
} r;
} // namespace
#include "main.inc"

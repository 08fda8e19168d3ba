// C04 dependent consumers: a stage handles a sequence only after every stage it depends on, and sees all it wrote
#include "disr.h"
namespace {
typedef long long ll;
const int MAXS = 6;
// graph: deps[i] = stages consumer i depends on (empty: the publisher's cursor)
template<class WS, producer_type PT, size_t B>
struct Pipe
{
    typedef ring_buffer<Ev, B, WS, PT> RB;
    typedef batch_event_processor<RB> Proc;
    struct Cell
    {
        long mark[MAXS] = {0};
    };
    struct H : public event_handler<Ev>
    {
        Pipe *p;
        int me;
        long seen = 0;
        void on_event(Ev &e, int64_t seq, bool) override { p->handle(*this, e, seq); }
        void on_event_exception(const std::exception &, int64_t seq, Ev *) override { mc::rec(16 + me, seq - p->base - 1); }
        void on_timeout(int64_t) override {}
        void on_start() override {}
        void on_shutdown() override {}
        void on_start_exception(const std::exception &) override {}
        void on_shutdown_exception(const std::exception &) override {}
    };
    RB rb;
    ll base;
    int total;
    std::vector<std::vector<int>> deps;
    std::vector<std::unique_ptr<Proc>> proc;
    H h[MAXS];
    Cell cell[256]; // plain memory per sequence: an upstream write that is not visible downstream is a data race
    int thrower = -1;
    ll throwAt = -1;
    bool grow = false;
    Pipe(std::vector<std::vector<int>> deps, int total, bool gateAll, ll base) : base(base), total(total), deps(deps)
    {
        for (size_t i = 0; i < deps.size(); i++) {
            h[i].p = this;
            h[i].me = i;
            std::vector<sequence *> d;
            for (int j : deps[i])
                d.push_back(&proc[j]->get_sequence());
            proc.emplace_back(new Proc(rb, d.empty() ? rb.new_barrier() : rb.new_barrier(d), h[i]));
        }
        std::vector<sequence *> g;
        for (size_t i = 0; i < deps.size(); i++) {
            bool last = true;
            for (auto &d : deps)
                for (int j : d)
                    if (j == (int) i)
                        last = false;
            if (last || gateAll)
                g.push_back(&proc[i]->get_sequence());
        }
        if (base != -1) {
            rb.claim(base);
            rb.publish(base);
        }
        rb.add_gating_sequences(g);
        for (auto &p : proc)
            p->get_sequence().set(base);
    }
    // stages upstream of i, transitively
    void upstream(int i, std::vector<int> &out)
    {
        for (int j : deps[i]) {
            out.push_back(j);
            upstream(j, out);
        }
    }
    void handle(H &me, Ev &e, ll seq)
    {
        ll k = seq - base - 1;
        mc::check(k >= 0 && k < total, "no event is invented");
        std::vector<int> up;
        upstream(me.me, up);
        for (int j : up)
            mc::check(cell[k].mark[j] == 1 + seq, "a stage handles a sequence only after every stage it depends on",
                      [&] { return "stage " + std::to_string(me.me) + " at event " + std::to_string(k) + " before stage " + std::to_string(j); });
        mc::check(e.a == val(0, 0) + seq, "the event is the one published at that sequence");
        // b accumulates along the first-dependency chain: each stage edits the event in place
        if (deps.size() <= 3 && grow) {
            mc::check(e.b == me.me, "a stage sees the event as the stage before it left it", [&] { return "stage " + std::to_string(me.me) + " saw " + std::to_string(e.b); });
            e.b = me.me + 1;
        }
        mc::rec(me.me, k);
        slowly(slow_consumer);
        bool thr = thrower == me.me && throwAt == k;
        cell[k].mark[me.me] = 1 + seq;
        if (++me.seen == total)
            proc[me.me]->halt();
        if (thr)
            throw std::runtime_error("handler");
    }
    void publish(int n, int mode)
    {
        if (mode == 0)
            for (int k = 0; k < n; k++) {
                ll s = rb.next();
                rb[s].a = val(0, 0) + s;
                rb[s].b = 0;
                slowly(slow_producer);
                rb.publish(s);
            }
        else
            for (int k = 0; k < n; k += mode) {
                int m = std::min(mode, n - k);
                ll s = rb.next(m);
                for (ll q = s - m + 1; q <= s; q++) {
                    rb[q].a = val(0, 0) + q;
                    rb[q].b = 0;
                }
                slowly(slow_producer);
                rb.publish(s - m + 1, s);
            }
    }
    void run(std::vector<int> prod, int mode)
    {
        std::vector<std::thread> th;
        for (auto &p : proc)
            th.emplace_back([&p] { p->run(); });
        for (size_t i = 1; i < prod.size(); i++)
            th.emplace_back([&, i] { publish(prod[i], mode); });
        publish(prod[0], mode);
        for (auto &t : th)
            t.join();
        for (size_t i = 0; i < deps.size(); i++) {
            auto r = mc::recs(i);
            mc::check((int) r.size() == total, "every stage sees every event exactly once", [&] { return std::to_string(i) + ": " + mc::str(r); });
            for (int k = 0; k < total; k++)
                mc::check(r[k] == k, "every stage sees the events in order", [&] { return std::to_string(i) + ": " + mc::str(r); });
            // (a halted processor may leave its last batch unreported: its own sequence is not part of the statement)
        }
        if (thrower >= 0) {
            auto x = mc::recs(16 + thrower);
            mc::check(x.size() == 1 && x[0] == throwAt, "a handler failure is reported once, for its own event");
        }
    }
};
template<class WS, producer_type PT, size_t B>
void go(std::vector<std::vector<int>> deps, std::vector<int> prod, int mode = 0, bool gateAll = false, ll base = -1, int thrower = -1, ll throwAt = -1,
        bool grow = false)
{
    int total = 0;
    for (int n : prod)
        total += n;
    Pipe<WS, PT, B> p(deps, total, gateAll, base);
    p.thrower = thrower;
    p.throwAt = throwAt;
    p.grow = grow;
    p.run(prod, mode);
}
// barrier alone: what wait_for reports never exceeds any dependency, whatever their interleaved progress
template<producer_type PT>
void barrier_min()
{
    ring_buffer<Ev, 4, busy_spin_wait_strategy, PT> rb;
    sequence a, b;
    auto bar = rb.new_barrier({&a, &b});
    rb.add_gating_sequences({&a, &b});
    long plain[2][3] = {{0, 0, 0}, {0, 0, 0}};
    std::thread ta([&] {
        for (int i = 0; i < 3; i++) {
            plain[0][i] = i + 1;
            a.set(i);
        }
    });
    std::thread tb([&] {
        plain[1][0] = 1;
        plain[1][1] = 2;
        b.set(1);
        plain[1][2] = 3;
        b.increment_and_get();
    });
    for (int i = 0; i < 3; i++)
        rb.publish(rb.next());
    ll next = 0;
    while (next < 3) {
        ll c = bar->get_cursor();
        for (ll i = 0; i <= c; i++)
            mc::check(plain[0][i] == i + 1 && plain[1][i] == i + 1, "the barrier's cursor is behind every dependency");
        ll v = bar->wait_for(next);
        mc::check(v >= c, "the barrier never goes back");
        for (; next <= v; next++)
            mc::check(plain[0][next] == next + 1 && plain[1][next] == next + 1, "a reported sequence is behind every dependency");
    }
    ta.join();
    tb.join();
}
struct Reg
{
    Reg()
    {
        auto add = [&](const char *n, std::function<void()> f, int q, int t, bool th = false, int stale = 0) {
            mc::Options o;
            o.preempt[0] = q;
            o.preempt[1] = t;
            o.timers[0] = o.timers[1] = 0;
            o.stale[0] = o.stale[1] = stale;
            o.thorough_only = th;
            mc::register_fn(n, f, o);
        };
        auto deep = [&](const char *n, std::function<void()> f, int q, int t) {
            mc::Options o;
            o.preempt[0] = q;
            o.preempt[1] = t;
            o.timers[0] = o.timers[1] = 0;
            o.delays = true;
            mc::register_fn(n, f, o);
        };
        typedef busy_spin_wait_strategy BS;
        typedef blocking_wait_strategy BL;
        typedef lite_blocking_wait_strategy LB;
        typedef yielding_wait_strategy<2> YW;
        typedef sleeping_wait_strategy<2> SL;
        typedef timeout_blocking_wait_strategy<1000000> TB;
        typedef phased_backoff_wait_strategy<1000, 2000, BL> PB;
        const auto S = producer_type::single;
        const auto M = producer_type::multi;
        typedef std::vector<std::vector<int>> G;
        const G chain2{{}, {0}}, chain3{{}, {0}, {1}}, fork{{}, {0}, {0}}, joinG{{}, {}, {0, 1}}, diamond{{}, {0}, {0}, {1, 2}}, skip{{}, {0}, {0, 1}};
        {
            mc::Options o;
            slow_options(o);
            auto go2 = [&](const char *n, auto f) {
                mc::register_fn(n, [=] {
                    choose_slow(mc::mc_thorough() ? 10000 : 2000);
                    f(mc::choose(2) ? joinG : chain3, mc::choose(2) * 2);
                }, o);
            };
            go2("busy_slow", [](auto g, int mode) { go<BS, S, 2>(g, {6}, mode); });
            go2("sleeping_slow", [](auto g, int mode) { go<sleeping_wait_strategy<>, M, 2>(g, {6}, mode); });
            go2("yielding_slow", [](auto g, int mode) { go<yielding_wait_strategy<>, S, 2>(g, {6}, mode); });
            go2("blocking_slow", [](auto g, int mode) { go<blocking_wait_strategy, M, 2>(g, {6}, mode); });
        }
        add("busy_chain2", [=] { go<BS, S, 2>(chain2, {3}); }, 3, 4);
        add("busy_chain2_grow", [=] { go<BS, S, 2>(chain2, {3}, 0, false, -1, -1, -1, true); }, 3, 4);
        add("busy_chain2_batch", [=] { go<BS, S, 4>(chain2, {4}, 2); }, 3, 4);
        add("busy_chain2_batch3", [=] { go<BS, S, 4>(chain2, {6}, 3, false, -1, -1, -1, true); }, 2, 3);
        add("busy_chain3", [=] { go<BS, S, 2>(chain3, {2}); }, 2, 3);
        add("busy_chain3_grow", [=] { go<BS, S, 2>(chain3, {3}, 0, false, -1, -1, -1, true); }, 0, 1);
        add("busy_fork", [=] { go<BS, S, 2>(fork, {2}); }, 2, 3);
        add("busy_fork_gate_all", [=] { go<BS, S, 2>(fork, {2}, 0, true); }, 1, 2);
        add("busy_join", [=] { go<BS, S, 2>(joinG, {2}); }, 2, 3);
        add("busy_join_batch", [=] { go<BS, S, 4>(joinG, {4}, 2); }, 2, 3);
        add("busy_skip", [=] { go<BS, S, 2>(skip, {2}); }, 1, 2);
        add("busy_diamond", [=] { go<BS, S, 2>(diamond, {1}); }, 1, 2);
        add("busy_diamond_batch", [=] { go<BS, S, 4>(diamond, {2}, 2); }, 0, 1);
        add("busy_chain2_throw", [=] { go<BS, S, 2>(chain2, {3}, 0, false, -1, 0, 1); }, 3, 4);
        add("busy_chain2_throw_batch", [=] { go<BS, S, 4>(chain2, {4}, 4, false, -1, 0, 1); }, 3, 4);
        add("busy_chain2_throw_last", [=] { go<BS, S, 4>(chain2, {3}, 3, false, -1, 1, 0); }, 3, 4);
        add("busy_join_throw", [=] { go<BS, S, 4>(joinG, {3}, 3, false, -1, 1, 1); }, 2, 3);
        add("busy_chain2_big", [=] { go<BS, S, 2>(chain2, {3}, 0, false, (1LL << 31) - 2); }, 2, 3);
        add("busy_join_big", [=] { go<BS, S, 2>(joinG, {2}, 0, false, (1LL << 32) - 2); }, 2, 3);
        add("busy_multi_chain2", [=] { go<BS, M, 2>(chain2, {1, 1}); }, 2, 3);
        add("busy_multi_chain2_grow", [=] { go<BS, M, 2>(chain2, {2, 1}, 0, false, -1, -1, -1, true); }, 2, 3);
        add("busy_multi_join", [=] { go<BS, M, 2>(joinG, {1, 1}); }, 0, 1);
        add("busy_multi_one_chain3", [=] { go<BS, M, 2>(chain3, {2}); }, 1, 2);
        add("busy_multi_batch", [=] { go<BS, M, 4>(chain2, {2, 2}, 2); }, 2, 3);
        add("blocking_chain2", [=] { go<BL, S, 2>(chain2, {3}); }, 3, 4);
        add("blocking_chain3", [=] { go<BL, S, 2>(chain3, {2}); }, 2, 3);
        add("blocking_join", [=] { go<BL, S, 2>(joinG, {2}); }, 2, 3);
        add("blocking_diamond", [=] { go<BL, S, 2>(diamond, {1}); }, 0, 1);
        add("blocking_multi_chain2", [=] { go<BL, M, 2>(chain2, {1, 1}); }, 2, 3);
        add("lite_chain2", [=] { go<LB, S, 2>(chain2, {3}); }, 3, 4);
        add("lite_join", [=] { go<LB, S, 2>(joinG, {2}); }, 2, 3);
        add("yield_chain2", [=] { go<YW, S, 2>(chain2, {3}); }, 3, 4);
        add("yield_join", [=] { go<YW, S, 2>(joinG, {2}); }, 2, 3);
        add("sleep_chain2", [=] { go<SL, S, 2>(chain2, {2}); }, 2, 3);
        add("sleep_join", [=] { go<SL, S, 2>(joinG, {2}); }, 2, 3);
        add("timeout_chain2", [=] { go<TB, S, 2>(chain2, {2}); }, 2, 3);
        add("timeout_join", [=] { go<TB, S, 2>(joinG, {2}); }, 2, 3);
        add("phased_chain2", [=] { go<PB, S, 2>(chain2, {2}); }, 1, 2);
        add("busy_weak_chain2", [=] { go<BS, S, 2>(chain2, {2}); }, 2, 3, false, 1);
        add("busy_weak_join", [=] { go<BS, S, 2>(joinG, {2}); }, 1, 2, false, 1);
        add("busy_weak_multi", [=] { go<BS, M, 2>(chain2, {1, 1}); }, 1, 2, true, 1);
        // longer chains, wider joins, larger rings and longer histories
        auto c5 = std::vector<std::vector<int>>{{}, {0}, {1}, {2}, {3}, {4}};
        auto j5 = std::vector<std::vector<int>>{{}, {}, {}, {}, {0, 1, 2, 3}};
        auto j5r = std::vector<std::vector<int>>{{}, {}, {}, {}, {}, {4, 3, 2, 1, 0}};
        deep("busy_chain6", [=] { go<BS, S, 4>(c5, {9}, mc::choose(3)); }, 1, 2);
        deep("busy_join4", [=] { go<BS, S, 4>(j5, {9}, mc::choose(3)); }, 1, 2);
        deep("blocking_join5", [=] { go<BL, S, 4>(j5r, {9}, mc::choose(3)); }, 1, 2);
        deep("busy_multi_join4", [=] { go<BS, M, 4>(j5, {4, 4}, mc::choose(3)); }, 1, 2);
        deep("busy_chain2_long", [=] { go<BS, S, 8>(chain2, {200}, mc::choose(9)); }, 1, 2);
        deep("blocking_join_long", [=] { go<BL, S, 16>(joinG, {200}, 4 * mc::choose(5)); }, 1, 2);
        deep("busy_multi_chain2_long", [=] { go<BS, M, 64>(chain2, {120, 130}, 16 * mc::choose(5)); }, 1, 2);
        add("barrier_single", [] { barrier_min<producer_type::single>(); }, 3, 5);
        add("barrier_multi", [] { barrier_min<producer_type::multi>(); }, 3, 5);
    }
} r;
} // namespace
#include "main.inc"

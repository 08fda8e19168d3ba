// C03 back-pressure: a claim never returns a slot some gating consumer has not passed; a non-blocking claim fails
// only when there is no room; a full ring resumes when the slowest consumer advances
#include "disr.h"
namespace {
typedef long long ll;
enum { CLAIM, TRY };
template<producer_type PT, size_t B>
struct Rig
{
    typedef ring_buffer<Ev, B, busy_spin_wait_strategy, PT> RB;
    RB rb;
    sequence g[6];
    ll base;
    int gates;
    Rig(ll base, int gates) : base(base), gates(gates)
    {
        if (base != -1) {
            rb.claim(base);
            if (PT == producer_type::single)
                rb.publish(base);
        }
        std::vector<sequence *> v;
        for (int i = 0; i < gates; i++)
            v.push_back(&g[i]);
        rb.add_gating_sequences(v);
    }
    ll slowest() const
    {
        ll m = LLONG_MAX;
        for (int i = 0; i < gates; i++)
            m = std::min(m, (ll) g[i].get());
        return m;
    }
    // claim n slots, write, publish
    void produce(int p, int k, int n, int mode)
    {
        ll hi;
        if (mode == CLAIM)
            hi = rb.next(n);
        else
            for (;;) {
                ll before = PT == producer_type::single ? slowest() : 0;
                try {
                    hi = rb.try_next(n);
                    break;
                } catch (insufficient_capacity_exception &) {
                    if (PT == producer_type::single)
                        mc::check(base + k + n - (ll) B > before, "a non-blocking claim fails only when there is no room");
                    std::this_thread::yield();
                }
            }
        ll s;
        {
            mc::Quiet q;
            s = slowest();
        }
        mc::check(hi - (ll) B <= s, "a claim never returns a slot some consumer has not passed",
                  [&] { return "claimed base+" + std::to_string(hi - base) + " slowest base+" + std::to_string(s - base); });
        slowly(slow_producer);
        for (int i = n - 1; i >= 0; i--) {
            put(rb, hi - i, hi - i);
            mc::rec(8, hi - i - base);
        }
        if (n == 1)
            rb.publish(hi);
        else
            rb.publish(hi - n + 1, hi);
    }
    // consume up to `n` events in steps whose size is chosen, reading each slot before releasing it
    void consume(int i, int n, bool greedy)
    {
        for (ll s = base + 1; s <= base + n;) {
            while (!ready(s))
                std::this_thread::yield();
            ll to = s;
            if (greedy)
                while (to < base + n && ready(to + 1))
                    to++;
            for (ll q = s; q <= to; q++)
                mc::check(rb[q].a == q && rb[q].b == q, "a slot keeps its event until every consumer has passed it",
                          [&] { return "sequence base+" + std::to_string(q - base) + " holds " + std::to_string(rb[q].a - base); });
            slowly(slow_consumer);
            for (ll q = s; q <= to; q++)
                mc::check(rb[q].a == q && rb[q].b == q, "a slot keeps its event until every consumer has passed it",
                          [&] { return "sequence base+" + std::to_string(q - base) + " holds " + std::to_string(rb[q].a - base); });
            g[i].set(to);
            s = to + 1;
        }
    }
    bool ready(ll s)
    {
        if (PT == producer_type::multi)
            return rb.get_cursor() >= s && rb.is_available(s);
        return rb.get_cursor() >= s;
    }
};
template<producer_type PT, size_t B>
void run(std::vector<std::vector<int>> plan, int consumers, int mode, bool greedy, ll base = -1)
{
    Rig<PT, B> r(base, consumers);
    int total = 0;
    for (auto &p : plan)
        for (int n : p)
            total += n;
    std::vector<std::thread> th;
    for (int c = 0; c < consumers; c++)
        th.emplace_back([&, c] { r.consume(c, total, greedy); });
    auto prod = [&](int p) {
        int k = 0;
        for (int n : plan[p]) {
            r.produce(p, k, n, mode);
            k += n;
        }
    };
    for (size_t p = 1; p < plan.size(); p++)
        th.emplace_back(prod, (int) p);
    prod(0);
    for (auto &t : th)
        t.join();
    mc::check((int) mc::recs(8).size() == total && r.slowest() == base + total, "every claim resumed and every event was consumed");
}
// multi producer try: failure needs a reason even when producers race
template<size_t B>
void try_race(ll base, int pre)
{
    Rig<producer_type::multi, B> r(base, 1);
    for (int i = 0; i < pre; i++)
        r.produce(0, i, 1, CLAIM);
    mc::History h;
    auto go = [&] {
        int i = h.begin(0, 1);
        ll got;
        try {
            got = r.rb.try_next() - base;
        } catch (insufficient_capacity_exception &) {
            got = -1;
        }
        h.end(i, got);
    };
    auto adv = [&] {
        int i = h.begin(1, 1);
        r.g[0].set(base + 1);
        h.end(i, 1);
    };
    std::thread a(go), b(go);
    if (pre)
        adv();
    go();
    a.join();
    b.join();
    struct St
    {
        ll claimed, g;
    };
    ll b0 = base;
    (void) b0;
    const char *nm[] = {"try_next", "advance"};
    mc::check(mc::linearizable(h, St{pre, 0}, [&](St &s, const mc::Op &o, const mc::History &) {
                  if (o.kind == 1) {
                      s.g = 1;
                      return true;
                  }
                  if (o.res < 0)
                      return s.claimed + 1 - (ll) B > s.g;
                  if (o.res != s.claimed + 1 || s.claimed + 1 - (ll) B > s.g)
                      return false;
                  s.claimed++;
                  return true;
              }),
              "concurrent non-blocking claims behave as if made one at a time", [&] { return h.str(nm); });
}
// a stuck consumer that is removed no longer holds the producer back; one that is added does
template<producer_type PT, size_t B>
void reconfigure(ll base)
{
    Rig<PT, B> r(base, 2);
    for (size_t i = 0; i < B; i++)
        r.produce(0, i, 1, CLAIM);
    r.g[0].set(base + B); // g[1] stuck at base
    mc::check(!r.rb.has_available_capacity(1), "a stuck consumer keeps the ring full");
    r.gates = 1;
    mc::check(r.rb.remove_gating_sequence(r.g[1]), "a consumer can be removed");
    std::thread c([&] {
        for (ll s = base + B + 1; s <= base + (ll) B + 2; s++) {
            while (!r.ready(s))
                std::this_thread::yield();
            r.g[0].set(s);
        }
    });
    r.produce(0, B, 1, TRY);
    r.produce(0, B + 1, 1, CLAIM);
    c.join();
    sequence late;
    r.rb.add_gating_sequences({&late});
    mc::check(late.get() == base + (ll) B + 2, "a consumer joins at the cursor");
    r.g[0].set(base + (ll) B + 2);
    for (size_t i = 0; i < B; i++) {
        mc::check(r.rb.has_available_capacity(1), "a joined consumer leaves a whole ring of room");
        ll s = r.rb.next();
        r.rb.publish(s);
        r.g[0].set(s);
    }
    bool full = false;
    try {
        r.rb.try_next();
    } catch (insufficient_capacity_exception &) {
        full = true;
    }
    mc::check(full, "a joined consumer holds the producer back");
}
// consumers added together or one by one, some of them twice, and removed one by one: those left, and only those, count
template<producer_type PT, size_t B>
void leaving(ll base)
{
    const int n = 1 + mc::choose(4, "consumers");
    Rig<PT, B> r(base, 0);
    std::vector<sequence *> v;
    std::vector<bool> in(n, true);
    for (int i = 0; i < n; i++)
        v.push_back(&r.g[i]);
    int how = mc::choose(3, "added");
    if (how)
        for (auto *q : v)
            r.rb.add_gating_sequences({q});
    else
        r.rb.add_gating_sequences(v);
    if (how == 2)
        r.rb.add_gating_sequences({v[mc::choose(n, "twice")]});
    for (size_t i = 0; i < B; i++)
        r.rb.publish(r.rb.next());
    int slow = mc::choose(n, "slowest");
    for (int i = 0; i < n; i++)
        v[i]->set(base + (i == slow ? 1 : 2 + (i + slow) % 2));
    auto judge = [&] {
        ll m = base + (ll) B;
        for (int i = 0; i < n; i++)
            if (in[i])
                m = std::min(m, (ll) v[i]->get());
        ll roomy = m - base;
        for (int k = 1; k <= (int) B; k++)
            mc::check(r.rb.has_available_capacity(k) == (k <= roomy), "exactly the consumers that were not removed hold the producer back", [&] { return std::to_string(k) + " of " + std::to_string(roomy); });
    };
    judge();
    for (int left = n; left > 0; left--) {
        int i = mc::choose(left, "removed");
        for (int k = 0;; k++)
            if (in[k] && i-- == 0) {
                mc::check(r.rb.remove_gating_sequence(*v[k]), "a consumer can be removed");
                in[k] = false;
                mc::check(!r.rb.remove_gating_sequence(*v[k]), "a consumer is removed once");
                break;
            }
        judge();
        if (mc::choose(2, "stop"))
            break;
    }
    bool any = std::find(in.begin(), in.end(), true) != in.end();
    ll m = base + (ll) B;
    for (int i = 0; i < n; i++)
        if (in[i])
            m = std::min(m, (ll) v[i]->get());
    bool got = true;
    try {
        for (ll k = 0; k < m - base; k++)
            r.rb.publish(r.rb.try_next());
        if (any)
            r.rb.try_next();
        else
            got = false;
    } catch (insufficient_capacity_exception &) {
        got = false;
    }
    mc::check(!got && r.rb.get_cursor() == base + (ll) B + (m - base), "a producer gets exactly the room the consumers left");
}
// a crowd of consumers: each of them counts
template<producer_type PT, size_t B>
void crowded(ll base)
{
    const int sizes[] = {5, 9, 17, 40};
    const int n = sizes[mc::choose(4, "consumers")];
    ring_buffer<long, B, busy_spin_wait_strategy, PT> rb;
    std::vector<std::unique_ptr<sequence>> g;
    std::vector<sequence *> v;
    for (int i = 0; i < n; i++) {
        g.emplace_back(new sequence(base));
        v.push_back(g.back().get());
    }
    if (base >= 0)
        rb.claim(base);
    if (mc::choose(2, "together"))
        rb.add_gating_sequences(v);
    else
        for (auto *q : v)
            rb.add_gating_sequences({q});
    for (auto *q : v)
        q->set(base);
    for (size_t i = 0; i < B; i++)
        rb.publish(rb.next());
    for (int at = 0; at < n; at++) { // everybody but one has handled everything
        for (int i = 0; i < n; i++)
            v[i]->set(rb.get_cursor() - (i == at ? 1 : 0));
        for (int k = 1; k <= (int) B; k++)
            mc::check(rb.has_available_capacity(k) == (k < (int) B), "each consumer holds the producer back", [&] { return "consumer " + std::to_string(at) + " of " + std::to_string(n); });
        for (size_t i = 0; i + 1 < B; i++)
            rb.publish(rb.try_next());
        bool full = false;
        try {
            rb.try_next();
        } catch (insufficient_capacity_exception &) {
            full = true;
        }
        mc::check(full, "each consumer holds the producer back", [&] { return "consumer " + std::to_string(at) + " of " + std::to_string(n); });
    }
}
struct Reg
{
    Reg()
    {
        const auto S = producer_type::single;
        const auto M = producer_type::multi;
        auto add = [&](const std::string &n, std::function<void()> f, int q, int t, int stale = 0) {
            mc::Options o;
            o.preempt[0] = q;
            o.preempt[1] = t;
            o.stale[0] = o.stale[1] = stale;
            mc::register_fn(n, f, o);
        };
        auto deep = [&](const char *n, std::function<void()> f, int q, int t) {
            mc::Options o;
            o.preempt[0] = q;
            o.preempt[1] = t;
            o.timers[0] = o.timers[1] = 0;
            o.delays = true;
            mc::register_fn(n, f, o);
        };
        {
            mc::Options o;
            slow_options(o);
            mc::register_fn("s_slow", [] {
                choose_slow(mc::mc_thorough() ? 20000 : 4000);
                run<S, 4>({{1, 3, 2, 4, 1}}, 2, mc::choose(2) ? TRY : CLAIM, mc::choose(2));
            }, o);
            mc::register_fn("m_slow", [] {
                choose_slow(mc::mc_thorough() ? 20000 : 4000);
                run<M, 4>({{1, 3, 2}, {4, 1}}, 2, mc::choose(2) ? TRY : CLAIM, mc::choose(2));
            }, o);
        }
        add("s_b1", [] { run<S, 1>({{1, 1, 1}}, 1, CLAIM, false); }, 5, 7);
        add("s_b2", [] { run<S, 2>({{1, 1, 1, 1, 1}}, 1, CLAIM, false); }, 4, 6);
        add("s_b2_batch", [] { run<S, 2>({{2, 1, 2}}, 1, CLAIM, true); }, 4, 6);
        add("s_b4_batch", [] { run<S, 4>({{3, 2, 3}}, 1, CLAIM, true); }, 4, 6);
        add("s_b2_two", [] { run<S, 2>({{1, 1, 1}}, 2, CLAIM, false); }, 3, 4);
        add("s_b1_try", [] { run<S, 1>({{1, 1, 1}}, 1, TRY, false); }, 4, 6);
        add("s_b2_try", [] { run<S, 2>({{1, 2, 1}}, 1, TRY, false); }, 4, 6);
        add("s_b2_try_two", [] { run<S, 2>({{1, 1, 1}}, 2, TRY, true); }, 3, 4);
        add("s_weak", [] { run<S, 2>({{1, 1, 1}}, 1, CLAIM, false); }, 3, 4, 1);
        add("s_weak_try", [] { run<S, 2>({{2, 1, 1}}, 1, TRY, true); }, 3, 4, 1);
        add("m_b2", [] { run<M, 2>({{1, 1, 1, 1}}, 1, CLAIM, false); }, 4, 5);
        add("m_b2_2p", [] { run<M, 2>({{1, 1}, {1, 1}}, 1, CLAIM, false); }, 3, 4);
        add("m_b2_2p2c", [] { run<M, 2>({{1, 1}, {1}}, 2, CLAIM, false); }, 2, 3);
        add("m_b2_batch", [] { run<M, 2>({{2}, {1, 2}}, 1, CLAIM, true); }, 3, 4);
        add("m_b4_batch", [] { run<M, 4>({{3}, {2, 3}}, 1, CLAIM, true); }, 3, 4);
        add("m_b2_try", [] { run<M, 2>({{1, 1}, {1}}, 1, TRY, false); }, 3, 4);
        add("m_b4_trybatch", [] { run<M, 4>({{3}, {2, 3}}, 1, TRY, true); }, 3, 4);
        add("m_three", [] { run<M, 2>({{1}, {1}, {1}}, 1, CLAIM, false); }, 3, 4);
        add("m_weak", [] { run<M, 2>({{1, 1}, {1}}, 1, CLAIM, false); }, 2, 3, 1);
        add("m_big31", [] { run<M, 2>({{1, 1}, {1}}, 1, CLAIM, false, (1LL << 31) - 2); }, 3, 4);
        add("m_big31_try", [] { run<M, 2>({{1, 1}, {1}}, 1, TRY, false, (1LL << 31) - 2); }, 3, 4);
        add("m_big32_try", [] { run<M, 4>({{3}, {2, 2}}, 1, TRY, true, (1LL << 32) - 3); }, 2, 4);
        add("m_big33_try", [] { run<M, 2>({{1, 1}, {1}}, 1, TRY, false, (1LL << 33) + 5); }, 2, 4);
        add("s_big31", [] { run<S, 2>({{1, 1, 2}}, 1, CLAIM, false, (1LL << 31) - 2); }, 3, 4);
        add("s_big32_try", [] { run<S, 4>({{3, 2, 3}}, 1, TRY, true, (1LL << 32) - 3); }, 3, 4);
        add("try_race", [] { try_race<2>(-1, 0); }, 3, 4);
        add("try_race_full", [] { try_race<2>(-1, 2); }, 3, 4);
        add("try_race_big", [] { try_race<2>((1LL << 31) - 2, 1); }, 2, 4);
        deep("scale_s8", [] { run<S, 8>({{8, 1, 7, 2, 6, 3, 5, 4, 8, 1}}, 2, mc::choose(2), mc::choose(2)); }, 2, 3);
        deep("scale_s64", [] { run<S, 64>({{64, 1, 63, 33, 32, 31, 64, 64, 2, 62, 5}}, 3, mc::choose(2), mc::choose(2)); }, 1, 2);
        deep("scale_m8", [] { run<M, 8>({{8, 1, 7, 2, 6}, {3, 5, 4, 8, 1}}, 2, mc::choose(2), mc::choose(2)); }, 1, 2);
        deep("scale_m64", [] { run<M, 64>({{64, 1, 63, 33}, {32, 31, 64, 5}}, 3, mc::choose(2), mc::choose(2)); }, 1, 2);
        deep("many_s", [] { run<S, 4>({{1, 2, 3, 4, 1, 2}}, 4 + mc::choose(3), CLAIM, mc::choose(2)); }, 1, 2);
        deep("many_m", [] { run<M, 4>({{1, 2, 3}, {4, 1, 2}}, 4 + mc::choose(2), CLAIM, mc::choose(2)); }, 1, 2);
        deep("ones_s", [] { run<S, 8>({std::vector<int>(200, 1)}, 2, mc::choose(2), mc::choose(2)); }, 1, 2);
        deep("ones_m", [] { run<M, 8>({std::vector<int>(60, 1), std::vector<int>(60, 1)}, 2, mc::choose(2), mc::choose(2)); }, 1, 2);
        for (ll base : {-1LL, (1LL << 31) - 2}) {
            std::string big = base > 0 ? "_big" : "";
            add("leaving_s" + big, [base] { leaving<S, 4>(base); }, 0, 0);
            add("crowded_s" + big, [base] { crowded<S, 4>(base); }, 0, 0);
            add("crowded_m" + big, [base] { crowded<M, 4>(base); }, 0, 0);
            add("leaving_m" + big, [base] { leaving<M, 4>(base); }, 0, 0);
        }
        add("reconf_s1", [] { reconfigure<S, 1>(-1); }, 2, 4);
        add("reconf_s2", [] { reconfigure<S, 2>(-1); }, 2, 4);
        add("reconf_m2", [] { reconfigure<M, 2>(-1); }, 2, 4);
        add("reconf_m2_big", [] { reconfigure<M, 2>((1LL << 31) - 2); }, 2, 4);
    }
} r;
} // namespace
#include "main.inc"

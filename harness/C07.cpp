// C07 ring buffer claim / publish / capacity arithmetic against the mathematical model, sequentially
#include "disr.h"
#include <map>
#include <set>
namespace {
typedef long long ll;
// model: everything relative to the absolute sequence numbers
template<class RB, bool MULTI, size_t B>
void body(ll base, int gates, int depth, bool merge)
{
    RB rb;
    std::vector<std::unique_ptr<sequence>> g;
    std::vector<ll> gv;       // consumer positions
    std::vector<bool> active; // gating the ring
    if (base != -1) {
        rb.claim(base);
        if (!MULTI)
            rb.publish(base);
    }
    ll claimed = base, cursor = base; // cursor: what the sequencer reports (multi: highest claim)
    std::vector<std::pair<ll, ll>> pend; // claimed, not yet published ranges, in claim order
    std::set<ll> pub;                    // published sequences (multi)
    ll contiguous = base;                // highest sequence with everything up to it published
    std::vector<ll> recent;              // minima seen by the last claim attempts (for merging only)
    auto add_gate = [&](int i) {
        if ((int) g.size() <= i) {
            g.emplace_back(new sequence());
            gv.push_back(0);
            active.push_back(false);
        }
        rb.add_gating_sequences({g[i].get()});
        active[i] = true;
        gv[i] = cursor;
        mc::check(g[i]->get() == cursor, "an added consumer starts at the current cursor");
    };
    for (int i = 0; i < gates; i++)
        add_gate(i);
    auto minimum = [&](ll lim) {
        ll m = lim;
        for (size_t i = 0; i < g.size(); i++)
            if (active[i] && gv[i] < m)
                m = gv[i];
        return m;
    };
    auto room = [&](int n) { return claimed + n - (ll) B <= minimum(claimed); };
    auto queries = [&] {
        mc::check(rb.get_cursor() == cursor, "the cursor is the highest published (single) or claimed (multi) sequence",
                  [&] { return std::to_string(rb.get_cursor()) + " model " + std::to_string(cursor); });
        mc::check(rb.get_buffer_size() == B, "the buffer size is constant");
        mc::check(rb.remaining_capacity() == (ll) B - (claimed - minimum(claimed)), "remaining capacity = size - (claimed - slowest consumer)",
                  [&] { return std::to_string(rb.remaining_capacity()); });
        ll mn = minimum(LLONG_MAX);
        mc::check(rb.get_minimum_sequence() == mn, "the minimum sequence is the slowest consumer's");
        auto edge = [&](ll x) { // large rings: near an end of the window, or next to something that happened
            if (B <= 8)
                return true;
            for (ll y : {base + 1, claimed - (ll) B + 1, claimed, cursor, contiguous, mn})
                if (x >= y - 1 && x <= y + 1)
                    return true;
            for (auto &p : pend)
                if (x == p.first || x == p.second)
                    return true;
            return (x & (x - 1)) == 0;
        };
        for (ll s = std::max(base + 1, claimed - (ll) B + 1); s <= claimed + 2; s++) {
            if (!edge(s))
                continue;
            bool av = MULTI ? pub.count(s) != 0 : s <= cursor;
            mc::check(rb.is_available(s) == av, "a sequence is available exactly when it has been published",
                      [&] { return "sequence base+" + std::to_string(s - base) + " available=" + std::to_string(!av); });
        }
        for (ll lo = std::max(base + 1, claimed - (ll) B + 1); lo <= claimed; lo++)
            for (ll hi = lo - 1; edge(lo) && hi <= claimed; hi++) {
                if (!edge(hi))
                    continue;
                if (!MULTI && hi > cursor)
                    break;
                ll want = hi;
                for (ll s = lo; MULTI && s <= hi; s++)
                    if (!pub.count(s)) {
                        want = s - 1;
                        break;
                    }
                mc::check(rb.get_highest_published_sequence(lo, hi) == want, "the highest published sequence stops at the first gap",
                          [&] { return "lo base+" + std::to_string(lo - base) + " hi base+" + std::to_string(hi - base) + " got base+" +
                                       std::to_string(rb.get_highest_published_sequence(lo, hi) - base); });
            }
    };
    queries();
    for (int d = 0; d < depth; d++) {
        if (merge) {
            mc::Key k;
            k << d << (claimed - base) % (ll) (2 * B) << claimed - cursor << contiguous - claimed;
            for (auto &p : pend)
                k << p.first - claimed << p.second - claimed;
            for (size_t i = 0; i < g.size(); i++)
                k << (ll) active[i] << (active[i] ? gv[i] - claimed : 0);
            for (ll s : pub)
                k << s - claimed;
            for (ll m : recent)
                k << m - claimed;
            mc::state(k);
        }
        // alphabet: try claim 1..B+1 | blocking claim 1..B (when it would not block) | capacity query 1..B+1 |
        //           publish any pending range | advance a consumer by one / to the end | add, remove a consumer | bad argument
        struct Alt
        {
            int op, a;
        };
        std::vector<Alt> alts;
        for (int n = 1; n <= (int) B + 1; n++)
            if (B <= 8 || n == 1 || n == (int) B / 2 + 1 || n >= (int) B)
                alts.push_back({0, n});
        for (int n = 1; n <= (int) B; n++)
            if (room(n) && (B <= 8 || n == 2 || n == (int) B - 1))
                alts.push_back({1, n});
        for (size_t i = 0; i < pend.size(); i++)
            if (MULTI || i == 0)
                alts.push_back({2, (int) i});
        for (size_t i = 0; i < g.size(); i++)
            if (active[i] && gv[i] < contiguous) {
                alts.push_back({3, (int) i});
                if (gv[i] + 1 < contiguous)
                    alts.push_back({4, (int) i});
            }
        if (B <= 8) {
            alts.push_back({5, 1});
            alts.push_back({5, (int) B});
        } else
            for (int n : {1, (int) B / 2, (int) B, (int) B + 1})
                mc::check(rb.has_available_capacity(n) == room(n), "available capacity is what the consumers leave",
                          [&] { return "n=" + std::to_string(n); });
        for (size_t i = 0; i < g.size(); i++)
            if (active[i])
                alts.push_back({7, (int) i});
            else if (pend.empty()) // consumers join while no claim is outstanding
                alts.push_back({6, (int) i});
        if (d == 0)
            alts.push_back({8, 0});
        Alt o = alts[mc::choose((int) alts.size(), "op")];
        auto claim_ok = [&](ll hi, int n) {
            mc::check(hi == claimed + n, "a claim returns the next n sequences", [&] { return std::to_string(hi - base); });
            pend.push_back({claimed + 1, hi});
            claimed = hi;
            if (MULTI)
                cursor = hi;
        };
        if (o.op <= 1 || o.op == 5) {
            recent.push_back(minimum(claimed));
            if (recent.size() > 3)
                recent.erase(recent.begin());
        }
        switch (o.op) {
        case 0: {
            bool ok = room(o.a);
            try {
                ll hi = o.a == 1 ? rb.try_next() : rb.try_next(o.a);
                mc::check(ok, "a non-blocking claim fails when there is no room");
                claim_ok(hi, o.a);
            } catch (insufficient_capacity_exception &) {
                mc::check(!ok, "a non-blocking claim succeeds when there is room");
            }
            break;
        }
        case 1:
            claim_ok(o.a == 1 ? rb.next() : rb.next(o.a), o.a);
            break;
        case 2: {
            auto r = pend[o.a];
            pend.erase(pend.begin() + o.a);
            if (r.first == r.second)
                rb.publish(r.first);
            else
                rb.publish(r.first, r.second);
            if (MULTI) {
                for (ll s = r.first; s <= r.second; s++) {
                    // a slot remembers the last sequence published into it
                    for (auto it = pub.begin(); it != pub.end();)
                        it = (*it - s) % (ll) B == 0 ? pub.erase(it) : std::next(it);
                    pub.insert(s);
                }
                ll c = claimed;
                for (auto &p : pend)
                    c = std::min(c, p.first - 1);
                contiguous = c;
            } else
                cursor = contiguous = r.second;
            break;
        }
        case 3:
        case 4: {
            ll to = o.op == 3 ? gv[o.a] + 1 : contiguous;
            gv[o.a] = to;
            g[o.a]->set(to);
            break;
        }
        case 5:
            mc::check(rb.has_available_capacity(o.a) == room(o.a), "available capacity is what the consumers leave",
                      [&] { return "n=" + std::to_string(o.a); });
            break;
        case 6:
            add_gate(o.a);
            break;
        case 7:
            mc::check(rb.remove_gating_sequence(*g[o.a]), "a gating consumer can be removed");
            mc::check(!rb.remove_gating_sequence(*g[o.a]), "a consumer is removed once");
            active[o.a] = false;
            break;
        case 8: {
            int threw = 0;
            for (int n : {0, -1}) {
                try {
                    rb.try_next(n);
                } catch (std::invalid_argument &) {
                    threw++;
                }
                try {
                    rb.next(n);
                } catch (std::invalid_argument &) {
                    threw++;
                }
            }
            mc::check(threw == 4, "a claim of less than one slot is refused");
            break;
        }
        }
        queries();
    }
}
// many consumers, in any order of progress
template<producer_type PT>
void many_gates(int n)
{
    ring_buffer<Ev, 16, busy_spin_wait_strategy, PT> rb;
    std::vector<std::unique_ptr<sequence>> g;
    std::vector<sequence *> v;
    for (int i = 0; i < n; i++) {
        g.emplace_back(new sequence());
        v.push_back(g.back().get());
    }
    int split = mc::choose(3, "added");
    if (split == 0)
        rb.add_gating_sequences(v);
    else if (split == 1)
        for (auto *s : v)
            rb.add_gating_sequences({s});
    else {
        rb.add_gating_sequences(std::vector<sequence *>(v.begin(), v.begin() + n / 2));
        rb.add_gating_sequences(std::vector<sequence *>(v.begin() + n / 2, v.end()));
    }
    for (int i = 0; i < 10; i++)
        rb.publish(rb.next());
    auto bar = rb.new_barrier(v);
    std::vector<ll> at(n, -1);
    int slow = mc::choose(n, "slowest"), next = mc::choose(n, "second");
    for (int i = 0; i < n; i++)
        g[i]->set(at[i] = 9 - (i * 5 + 3) % 3);
    g[next]->set(at[next] = 4);
    g[slow]->set(at[slow] = 2);
    auto all = [&] {
        ll m = *std::min_element(at.begin(), at.end());
        mc::check(rb.get_minimum_sequence() == m, "the minimum sequence is the slowest consumer's");
        mc::check(bar->get_cursor() == m && bar->wait_for(0) == m, "a barrier reports its slowest dependency");
        mc::check(rb.remaining_capacity() == 16 - (9 - m), "remaining capacity = size - (claimed - slowest consumer)");
        mc::check(rb.has_available_capacity((int) (16 - (9 - m))) && !rb.has_available_capacity((int) (16 - (9 - m)) + 1), "available capacity is what the consumers leave");
    };
    all();
    mc::check(rb.remove_gating_sequence(*g[slow]), "a gating consumer can be removed");
    at[slow] = 99;
    ll m = *std::min_element(at.begin(), at.end());
    at[slow] = m == 99 ? LLONG_MAX : 99;
    if (n > 1)
        mc::check(rb.get_minimum_sequence() == m, "a consumer that was removed does not count");
    for (int i = 0; i < n; i++)
        if (i != slow)
            mc::check(rb.remove_gating_sequence(*g[i]), "the others stay");
    mc::check(rb.get_minimum_sequence() == LLONG_MAX || rb.get_minimum_sequence() == 9, "no consumer is left");
}
// sequence_group / sequence primitives
void seq_ops()
{
    sequence s;
    mc::check(s.get() == -1, "a sequence starts at the initial value");
    ll m = -1;
    for (int d = 0; d < (mc::thorough() ? 5 : 4); d++) {
        int o = mc::choose(4, "op");
        ll v = mc::choose(2, "v") == 0 ? m : (1LL << 40);
        switch (o) {
        case 0:
            s.set(v);
            m = v;
            break;
        case 1: {
            bool r = s.compare_and_set(v, v + 1);
            mc::check(r == (m == v), "compare-and-set succeeds exactly when the value matches");
            if (r)
                m = v + 1;
            break;
        }
        case 2:
            mc::check(s.increment_and_get() == m + 1, "increment returns the new value");
            m++;
            break;
        case 3:
            mc::check(s.add_and_get(v) == m + v, "add returns the new value");
            m += v;
            break;
        }
        mc::check(s.get() == m, "a sequence holds the last value written");
    }
    sequence a(3), b(5), c(4);
    std::vector<sequence *> v;
    ll mn = LLONG_MAX;
    sequence *all[3] = {&a, &b, &c};
    for (int i = 0; i < 3; i++)
        if (mc::choose(2, "in")) {
            v.push_back(all[i]);
            mn = std::min(mn, (ll) all[i]->get());
        }
    fixed_sequence_group<sequence> grp = fixed_sequence_group<sequence>::create(v);
    mc::check(grp.get() == mn, "a sequence group reports its minimum");
    mc::check(util::get_minimum_sequence(v, 4) == std::min(mn, 4LL), "a minimum is limited by its bound");
}
void race_inc()
{
    sequence s;
    long got[2];
    std::thread t([&] { got[1] = s.increment_and_get(); });
    got[0] = s.add_and_get(1);
    t.join();
    mc::check(got[0] != got[1] && s.get() == 1, "concurrent increments are all counted");
}
template<size_t B>
void regs(const char *nm, ll base, int dm, int dmt, int df, int dft)
{
    typedef ring_buffer<Ev, B, busy_spin_wait_strategy, producer_type::single> S;
    typedef ring_buffer<Ev, B < 2 ? 2 : B, busy_spin_wait_strategy, producer_type::multi> M;
    mc::Options o;
    o.seconds[0] = 60;
    std::string n = nm;
    mc::register_fn("single" + n, [=] { body<S, false, B>(base, 2, mc::thorough() ? dmt : dm, true); }, o);
    mc::register_fn("single_all" + n, [=] { body<S, false, B>(base, 1, mc::thorough() ? dft : df, false); }, o);
    if (B >= 2) {
        mc::register_fn("multi" + n, [=] { body<M, true, (B < 2 ? 2 : B)>(base, 2, mc::thorough() ? dmt : dm, true); }, o);
        mc::register_fn("multi_all" + n, [=] { body<M, true, (B < 2 ? 2 : B)>(base, 1, mc::thorough() ? dft : df, false); }, o);
    }
}
struct Reg
{
    Reg()
    {
        mc::register_fn("sequence_ops", seq_ops, mc::Options());
        mc::Options o;
        mc::register_fn("sequence_race", race_inc, o);
        regs<1>("_b1", -1, 10, 16, 5, 7);
        regs<2>("_b2", -1, 8, 11, 5, 6);
        regs<4>("_b4", -1, 6, 8, 4, 5);
        regs<8>("_b8", -1, 4, 6, 3, 4);
        regs<2>("_b2_2p31", (1LL << 31) - 3, 7, 9, 4, 6);
        regs<4>("_b4_2p31", (1LL << 31) - 3, 6, 8, 4, 5);
        regs<2>("_b2_2p32", (1LL << 32) - 3, 7, 9, 4, 6);
        regs<4>("_b4_2p33", (1LL << 33) + 1, 6, 9, 3, 5);
        regs<2>("_b2_2p62", (1LL << 62), 6, 9, 3, 5);
        regs<16>("_b16", -1, 4, 6, 3, 4);
        regs<64>("_b64", -1, 4, 6, 3, 4);
        regs<1024>("_b1024", -1, 3, 5, 3, 4);
        for (int n : {1, 2, 3, 4, 5, 7, 8, 9, 16, 17}) {
            mc::register_fn("gates_single_" + std::to_string(n), [n] { many_gates<producer_type::single>(n); }, mc::Options());
            mc::register_fn("gates_multi_" + std::to_string(n), [n] { many_gates<producer_type::multi>(n); }, mc::Options());
        }
    }
} r;
} // namespace
#include "main.inc"

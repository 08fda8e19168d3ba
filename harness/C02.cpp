// C02 multi-producer ring: unique claims, ordered gap-free delivery of what each producer wrote
#include "disr.h"
namespace {
template<class WS, size_t B>
using RBM = ring_buffer<Ev, B, WS, producer_type::multi>;

// plan[p] = batch sizes of producer p; try_claim: use try_next with retry; rev: publish a batch slot by slot, last first
template<class WS, size_t B>
void runm(std::vector<std::vector<int>> plan, int consumers, bool try_claim, bool rev, int64_t base = -1, bool chain = false)
{
    typedef RBM<WS, B> RB;
    RB rb;
    long total = 0;
    for (auto &p : plan)
        for (int b : p)
            total += b;
    std::vector<std::unique_ptr<Handler<RB>>> h;
    std::vector<std::unique_ptr<batch_event_processor<RB>>> pr;
    std::vector<typename RB::sequence_type *> gate;
    if (base >= 0)
        rb.claim(base);
    for (int c = 0; c < consumers; c++) {
        h.emplace_back(new Handler<RB>(c, total));
        if (chain && c > 0)
            pr.emplace_back(new batch_event_processor<RB>(
                rb, rb.new_barrier(std::vector<typename RB::sequence_type *>{&pr[c - 1]->get_sequence()}), *h[c]));
        else
            pr.emplace_back(new batch_event_processor<RB>(rb, rb.new_barrier(), *h[c]));
        h[c]->proc = pr[c].get();
        pr[c]->get_sequence().set(base);
        gate.push_back(&pr[c]->get_sequence());
    }
    rb.add_gating_sequences(gate);
    {
        std::vector<std::thread> th;
        for (int c = 0; c < consumers; c++)
            th.emplace_back([&, c] { pr[c]->run(); });
        auto producer = [&](int p) {
            int k = 0;
            for (int n : plan[p]) {
                int64_t hi;
                if (!try_claim)
                    hi = rb.next(n);
                else
                    for (;;) {
                        try {
                            hi = rb.try_next(n);
                            break;
                        } catch (insufficient_capacity_exception &) {
                            std::this_thread::yield();
                        }
                    }
                for (int i = n - 1; i >= 0; i--) {
                    long v = val(p, k++);
                    mc::rec(8 + p, hi - i);
                    mc::rec(8 + p, v);
                    put(rb, hi - i, v);
                }
                slowly(slow_producer);
                if (rev)
                    for (int i = 0; i < n; i++)
                        rb.publish(hi - i);
                else if (n == 1 && (p + k) % 2 == 0)
                    rb.publish(hi);
                else
                    rb.publish(hi - n + 1, hi);
            }
        };
        for (size_t p = 1; p < plan.size(); p++)
            th.emplace_back(producer, (int) p);
        producer(0);
        for (auto &t : th)
            t.join();
    }
    std::vector<long> owner(total, -1);
    for (size_t p = 0; p < plan.size(); p++) {
        auto r = mc::recs(8 + p);
        long prev = -1;
        for (size_t i = 0; i < r.size(); i += 2) {
            long s = r[i] - (base + 1);
            mc::check(s >= 0 && s < total && owner[s] == -1, "no two claims overlap and claims leave no gap",
                      [&] { return "claim " + std::to_string(r[i]); });
            owner[s] = r[i + 1];
            mc::check(r[i] > prev, "a producer's claims are increasing");
            prev = r[i];
        }
    }
    mc::observe(owner);
    for (int c = 0; c < consumers; c++) {
        Log l(c);
        check_seq(l, base + 1, total, ("consumer " + std::to_string(c)).c_str());
        for (long i = 0; i < total; i++)
            mc::check(l.v[i] == owner[i], "the event delivered for a sequence is the one its claimant wrote",
                      [&] { return "sequence " + std::to_string(i) + " delivered " + std::to_string(l.v[i]) + " written " + std::to_string(owner[i]); });
        mc::observe(l.eob);
    }
}
template<class T>
struct Tag
{
    typedef T type;
};
struct Reg
{
    Reg()
    {
        auto add = [&](const char *n, std::function<void()> f, int q, int t, bool th = false, int stale = 0) {
            mc::Options o;
            o.preempt[0] = q;
            o.preempt[1] = t;
            o.timers[0] = o.timers[1] = 0;
            o.stale[0] = stale;
            o.stale[1] = stale;
            o.thorough_only = th;
            mc::register_fn(n, f, o);
        };
        auto deep = [&](const char *n, std::function<void()> f, int q, int t) {
            mc::Options o;
            o.preempt[0] = q;
            o.preempt[1] = t;
            o.timers[0] = o.timers[1] = 0;
            o.delays = true;
            mc::register_fn(n, f, o);
        };
        typedef busy_spin_wait_strategy BS;
        typedef blocking_wait_strategy BL;
        {
            mc::Options o;
            slow_options(o);
            auto go = [&](const char *n, auto ws) {
                typedef decltype(ws) *WS;
                mc::register_fn(n, [] {
                    choose_slow(mc::mc_thorough() ? 20000 : 4000);
                    runm<typename std::remove_pointer<WS>::type::type, 2>({{1, 1, 2}, {1, 2}}, 2, mc::choose(2), mc::choose(2), -1, mc::choose(2));
                }, o);
            };
            go("busy_slow", Tag<BS>());
            go("blocking_slow", Tag<BL>());
            go("yielding_slow", Tag<yielding_wait_strategy<>>());
            go("sleeping_slow", Tag<sleeping_wait_strategy<>>());
        }
        add("busy_1x1", [] { runm<BS, 2>({{1}, {1}}, 1, false, false); }, 4, 6);
        add("busy_2x1", [] { runm<BS, 2>({{1, 1}, {1}}, 1, false, false); }, 3, 4);
        add("busy_2x2", [] { runm<BS, 4>({{1, 1}, {1, 1}}, 1, false, false); }, 3, 4);
        add("busy_batch", [] { runm<BS, 4>({{2}, {2}}, 1, false, false); }, 3, 5);
        add("busy_batchrev", [] { runm<BS, 4>({{3}, {2}}, 1, false, true); }, 3, 4);
        add("busy_try", [] { runm<BS, 2>({{1, 1}, {1}}, 1, true, false); }, 3, 4);
        add("busy_trybatch", [] { runm<BS, 4>({{2, 2}, {2}}, 1, true, false); }, 3, 4);
        add("busy_two_consumers", [] { runm<BS, 2>({{1}, {1}}, 2, false, false); }, 2, 3);
        add("busy_chain", [] { runm<BS, 2>({{1, 1}, {1}}, 2, false, false, -1, true); }, 1, 2);
        add("busy_three_producers", [] { runm<BS, 4>({{1}, {1}, {1}}, 1, false, false); }, 3, 4);
        add("busy_weak", [] { runm<BS, 2>({{1}, {1}}, 1, false, false); }, 3, 4, false, 1);
        add("busy_weak2", [] { runm<BS, 2>({{1, 1}, {1}}, 1, false, false); }, 2, 3, false, 1);
        add("busy_weak3", [] { runm<BS, 2>({{1, 1}, {1}}, 1, false, false); }, 1, 2, true, 2);
        add("busy_one_producer_wrap", [] { runm<BS, 2>({{1, 2, 1, 1}}, 1, false, true); }, 3, 5);
        add("busy_big_base", [] { runm<BS, 2>({{1, 1}, {1}}, 1, false, false, (1LL << 31) - 2); }, 3, 4);
        add("busy_big_base32", [] { runm<BS, 4>({{2}, {2, 1}}, 1, false, false, (1LL << 32) - 2); }, 2, 3);
        add("blocking_1x1", [] { runm<BL, 2>({{1}, {1}}, 1, false, false); }, 3, 5);
        add("blocking_2x1", [] { runm<BL, 2>({{1, 1}, {1}}, 1, false, false); }, 3, 4);
        add("blocking_batchrev", [] { runm<BL, 4>({{2}, {2}}, 1, false, true); }, 3, 4);
        add("lite_2x1", [] { runm<lite_blocking_wait_strategy, 2>({{1, 1}, {1}}, 1, false, false); }, 3, 4);
        add("yield_2x1", [] { runm<yielding_wait_strategy<2>, 2>({{1, 1}, {1}}, 1, false, false); }, 3, 4);
        deep("scale8", [] { runm<BS, 8>({{8, 1, 7, 2, 6}, {3, 5, 4, 8, 1}}, 1, mc::choose(2), mc::choose(2)); }, 2, 3);
        deep("scale64", [] { runm<BS, 64>({{64, 1, 63, 33}, {32, 31, 64}, {2, 62, 5}}, 2, mc::choose(2), mc::choose(2)); }, 1, 2);
        deep("scale1024", [] { runm<BL, 1024>({{1000, 1, 23, 1024}, {513, 511, 300}}, 1, mc::choose(2), mc::choose(2)); }, 0, 1);
        deep("ones", [] { runm<BL, 8>({std::vector<int>(80, 1), std::vector<int>(70, 1)}, 2, false, false, -1, mc::choose(2)); }, 1, 2);
        deep("many", [] { runm<BS, 4>({{1, 2}, {3, 1}, {4, 1}, {2, 1}}, 3, false, false, -1, mc::choose(2)); }, 1, 2);
        add("timeout_1x1", [] { runm<timeout_blocking_wait_strategy<1000000>, 2>({{1}, {1}}, 1, false, false); }, 3, 4);
    }
} r;
} // namespace
#include "main.inc"

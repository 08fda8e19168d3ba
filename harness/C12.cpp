// C12 bounded lock-free stack: linearizable LIFO, conservation of elements
#include <functional>
#include <klepsydra/core/lock_free_stack.h>
#include "mc.h"
using kpsr::LockFreeStack;
namespace {
// ---------------------------------------------------------------- sequential: all operation sequences
void seq_body(int cap, int depth)
{
    long ini = 100;
    LockFreeStack<long> st(cap, [&](long &v) { v = ini++; });
    std::vector<long> model; // initially full; first-initialised element on top
    for (int i = cap - 1; i >= 0; i--)
        model.push_back(100 + i);
    long next = 1;
    for (int d = 0; d < depth; d++) {
        if (mc::choose(2, "op") == 0) {
            long v = -7;
            bool ok = st.pop(v);
            mc::check(ok == !model.empty(), "pop succeeds exactly when the stack holds an element");
            if (ok) {
                mc::check(v == model.back(), "pop returns the most recently pushed element");
                model.pop_back();
            }
        } else {
            long v = next++;
            bool ok = st.push(v);
            mc::check(ok == ((int) model.size() < cap), "push succeeds exactly when there is room");
            if (ok)
                model.push_back(v);
        }
    }
    long v;
    while (!model.empty()) {
        mc::check(st.pop(v) && v == model.back(), "elements left in the stack come out in LIFO order");
        model.pop_back();
    }
    mc::check(!st.pop(v), "nothing comes out of an emptied stack");
}
// many elements: every capacity of a list, every pattern of runs of pops and pushes
void seq_sizes()
{
    static const int caps[] = {1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1025, 5000};
    int cap = caps[mc::choose(sizeof caps / sizeof *caps, "capacity")];
    long ini = 0;
    LockFreeStack<long> st(cap, [&](long &v) { v = ini++; });
    mc::check(ini == cap, "every element is initialised once");
    std::vector<long> model;
    for (int i = cap - 1; i >= 0; i--)
        model.push_back(i);
    const int runs[] = {0, 1, cap / 2, cap + 1};
    long next = 1000000;
    for (int d = 0; d < 4; d++) {
        int n = runs[mc::choose(4, "run")];
        for (int i = 0; i < n; i++)
            if (d % 2 == 0) {
                long v = -7;
                bool ok = st.pop(v);
                mc::check(ok == !model.empty() && (!ok || v == model.back()), "pop returns the most recently pushed element, and fails on an empty stack only");
                if (ok)
                    model.pop_back();
            } else {
                bool ok = st.push(next);
                mc::check(ok == ((int) model.size() < cap), "push succeeds exactly when there is room");
                if (ok)
                    model.push_back(next);
                next++;
            }
    }
    long v;
    while (!model.empty()) {
        mc::check(st.pop(v) && v == model.back(), "elements left in the stack come out in LIFO order");
        model.pop_back();
    }
    mc::check(!st.pop(v), "nothing comes out of an emptied stack");
}
// move-only payload: ownership is transferred, never duplicated
void seq_unique(int cap, int depth)
{
    LockFreeStack<std::unique_ptr<long>> st(cap, [](std::unique_ptr<long> &p) { p.reset(new long(5)); });
    int held = cap;
    for (int d = 0; d < depth; d++) {
        if (mc::choose(2, "op") == 0) {
            std::unique_ptr<long> p;
            bool ok = st.pop(p);
            mc::check(ok == (held > 0), "pop succeeds exactly when the stack holds an element");
            mc::check(!ok || p != nullptr, "a popped element carries its payload");
            held -= ok;
        } else {
            std::unique_ptr<long> p(new long(6));
            bool ok = st.push(std::move(p));
            mc::check(ok == (held < cap), "push succeeds exactly when there is room");
            mc::check(ok || p != nullptr, "a rejected push leaves the element with the caller");
            held += ok;
        }
    }
}

// ---------------------------------------------------------------- concurrent
const char *names[] = {"push", "pop"};
struct St
{
    long a[8];
    int n;
};
struct Step
{
    int cap;
    bool operator()(St &s, const mc::Op &o, const mc::History &h) const
    {
        if (o.kind == 0) {
            if (o.res) {
                if (s.n >= 8)
                    return false;
                s.a[s.n++] = o.arg;
                return true;
            }
            // a push may be refused only when every node is in the stack or in use by an overlapping operation
            int over = 0;
            for (int i = 0; i < h.n; i++)
                if (&h.ops[i] != &o && !(h.ops[i].end < o.start) && !(h.ops[i].start > o.end))
                    over++;
            return s.n + over >= cap;
        }
        if (o.res < 0)
            return s.n == 0;
        if (s.n == 0 || s.a[s.n - 1] != o.res)
            return false;
        s.n--;
        return true;
    }
};
// script: one string per thread, 'u' = push, 'o' = pop
void conc(int cap, int prepop, std::vector<std::string> scripts, bool weak)
{
    long ini = 100;
    LockFreeStack<long> st(cap, [&](long &v) { v = ini++; });
    long v;
    std::vector<long> model;
    for (int i = cap - 1; i >= 0; i--)
        model.push_back(100 + i);
    for (int i = 0; i < prepop; i++) {
        st.pop(v);
        model.pop_back();
    }
    mc::History h;
    auto run = [&](int id, const std::string &s) {
        int k = 0;
        for (char c : s) {
            if (c == 'u') {
                long x = id * 10 + k++;
                int i = h.begin(0, x);
                bool ok = st.push(x);
                h.end(i, ok);
            } else {
                long x = -1;
                int i = h.begin(1, 0);
                bool ok = st.pop(x);
                h.end(i, ok ? x : -1);
            }
        }
    };
    {
        std::vector<std::thread> th;
        for (size_t t = 1; t < scripts.size(); t++)
            th.emplace_back([&, t] { run(t + 1, scripts[t]); });
        run(1, scripts[0]);
        for (auto &t : th)
            t.join();
    }
    // drain
    std::vector<long> in = model, out;
    for (int i = 0; i < h.n; i++) {
        if (h.ops[i].kind == 0 && h.ops[i].res)
            in.push_back(h.ops[i].arg);
        if (h.ops[i].kind == 1 && h.ops[i].res >= 0)
            out.push_back(h.ops[i].res);
        mc::observe(h.ops[i].res);
    }
    int guard = 0;
    std::vector<long> rest;
    while (st.pop(v)) {
        rest.push_back(v);
        mc::check(++guard <= cap, "the stack never yields more elements than its capacity");
    }
    out.insert(out.end(), rest.begin(), rest.end());
    std::sort(in.begin(), in.end());
    std::sort(out.begin(), out.end());
    mc::check(in == out, "every element that went in comes out exactly once",
              [&] { return mc::str(in) + " vs " + mc::str(out) + " " + h.str(names); });
    // capacity is not lost
    for (int i = 0; i < cap; i++)
        mc::check(st.push(1000L + i), "a quiescent emptied stack accepts as many elements as its capacity");
    mc::check(!st.push(1), "and not one more");
    if (weak) // stale (relaxed) loads may legitimately look into the past: only conservation is checked
        return;
    // the drain, sequential, ends the history
    for (long x : rest) {
        if (h.n < mc::History::MAX) {
            int i = h.begin(1, 0);
            h.end(i, x);
        }
    }
    St s0;
    s0.n = 0;
    for (long x : model)
        s0.a[s0.n++] = x;
    mc::check(mc::linearizable(h, s0, Step{cap}), "the operations are equivalent to some sequential LIFO order",
              [&] { return h.str(names); });
}
struct Reg
{
    Reg()
    {
        mc::register_fn("seq_sizes", seq_sizes, mc::Options());
        for (int cap = 1; cap <= 3; cap++) {
            mc::Options o;
            mc::register_fn("seq_cap" + std::to_string(cap), [cap] { seq_body(cap, mc::thorough() ? 14 : 10); }, o);
            mc::register_fn("seq_unique_cap" + std::to_string(cap), [cap] { seq_unique(cap, mc::thorough() ? 12 : 8); }, o);
        }
        struct C
        {
            const char *n;
            int cap, prepop;
            std::vector<std::string> s;
            int q, t;
            bool laps = false; // many turns of one thread during one operation of another: conservation only
        };
        std::vector<C> cs = {
            {"pop_pop", 2, 0, {"o", "o"}, 99, 99},
            {"pop_push_aba", 2, 0, {"o", "oou"}, 6, 99},
            {"aba_reuse", 3, 0, {"o", "oouu"}, 5, 99},
            {"push_push", 2, 2, {"u", "u"}, 99, 99},
            {"push_pop", 2, 1, {"uo", "ou"}, 5, 99},
            {"full_push_pop", 1, 0, {"ou", "ou"}, 6, 99},
            {"three", 2, 0, {"o", "ou", "o"}, 4, 7},
            {"three_mixed", 3, 1, {"uo", "ou", "o"}, 3, 5},
            {"three_push", 3, 3, {"u", "uo", "u"}, 3, 5},
            {"long2", 3, 1, {"ouo", "uou"}, 4, 99},
            {"four", 2, 1, {"o", "u", "o", "u"}, 2, 4},
            {"long3", 3, 1, {"ouu", "oou", "ou"}, 2, 4},
            {"aba_laps", 2, 0, {"o", "ououououououououou"}, 4, 4, true},
            {"aba2", 3, 0, {"oo", "oouuo"}, 3, 99},
        };
        for (auto &c : cs) {
            mc::Options o;
            o.preempt[0] = c.q;
            o.preempt[1] = c.t;
            mc::register_fn(std::string("conc_") + c.n, [c] { conc(c.cap, c.prepop, c.s, c.laps); }, o);
            if (c.laps)
                continue;
            o.stale[0] = o.stale[1] = 1;
            o.preempt[0] = std::min(c.q, 3);
            o.preempt[1] = std::min(c.t, 5);
            mc::register_fn(std::string("weak_") + c.n, [c] { conc(c.cap, c.prepop, c.s, true); }, o);
        }
    }
} reg;
// ---- threads that take elements, hold some and put them back, again and again
std::atomic<int> owner[128];
void traffic(int cap, int threads, int rounds, int hold)
{
    for (auto &o : owner)
        o.store(0, std::memory_order_relaxed);
    long ini = 0;
    LockFreeStack<long> st(cap, [&](long &v) { v = ini++; });
    auto run = [&](int id) {
        std::vector<long> mine;
        for (int r = 0; r < rounds; r++) {
            int want = 1 + (r + id) % hold;
            while ((int) mine.size() < want) {
                long v = -1;
                if (!st.pop(v)) {
                    mc::check(cap < threads * hold, "a pop succeeds while there is an element for everyone");
                    break;
                }
                mc::check(v >= 0 && v < cap, "only what went in comes out");
                mc::check(owner[v].exchange(id) == 0, "an element that is out has one owner");
                mine.push_back(v);
            }
            for (int keep = r % 2; (int) mine.size() > keep;) {
                long v = r % 3 ? mine.back() : mine.front();
                owner[v].exchange(0);
                mc::check(st.push(v), "an element that came from the stack finds room in it");
                if (r % 3)
                    mine.pop_back();
                else
                    mine.erase(mine.begin());
            }
        }
        for (long v : mine) {
            owner[v].exchange(0);
            mc::check(st.push(v), "an element that came from the stack finds room in it");
        }
    };
    std::vector<std::thread> ts;
    for (int t = 2; t <= threads; t++)
        ts.emplace_back(run, t);
    run(1);
    for (auto &t : ts)
        t.join();
    std::vector<long> out, all;
    long v;
    for (int i = 0; i <= cap && st.pop(v); i++)
        out.push_back(v);
    for (int i = 0; i < cap; i++)
        all.push_back(i);
    mc::observe(out);
    std::sort(out.begin(), out.end());
    mc::check(out == all, "every element that went in comes out exactly once", [&] { return mc::str(out); });
    for (int i = 0; i < cap; i++)
        mc::check(st.push(1000L + i), "a quiescent emptied stack accepts as many elements as its capacity");
    mc::check(!st.push(1), "and not one more");
}
struct Traffic
{
    Traffic()
    {
        auto add = [](const char *n, int cap, int threads, int rounds, int hold, int q, int t, int stale = 0) {
            mc::Options o;
            o.preempt[0] = q;
            o.preempt[1] = t;
            o.stale[0] = o.stale[1] = stale;
            o.delays = true;
            mc::register_fn(std::string("traffic_") + n, [=] { traffic(cap, threads, rounds, hold); }, o);
        };
        add("short", 2, 3, 3, 2, 2, 4);
        add("tight", 3, 3, 8, 2, 2, 3);
        add("room", 8, 4, 5, 2, 1, 2);
        add("long", 4, 2, 60, 3, 1, 2);
        add("large", 100, 3, 12, 30, 1, 2);
        add("stale", 3, 2, 4, 2, 2, 3, 1);
    }
} traffic_reg;
} // namespace
#include "main.inc"

// C21 copying, moving, assigning and swapping safe queues: contents and bound go along, waiters wake, opposite operations finish
// @flags: --no-sdk
#include "enumerate.h"
#include <atomic>
#include <algorithm>
#include <cstring>
#include <deque>
#include <klepsydra/mem_core/safe_queue.h>
#include <memory>
#include <set>
#include <thread>
using kpsr::mem::SafeQueue;
namespace {
enum Kind { SWAP_AB, SWAP_BA, ASSIGN_AB, ASSIGN_BA, MOVE_AB, MOVE_BA, PUSH_A, PUSH_B, POP_A, POP_B, TPUSH_A, TPUSH_B, TPOP_A, TPOP_B, LEN_A, COPY_A, TAKE_A, BOUND_A, FORCE_A, SELF_COPY, SELF_MOVE, SELF_SWAP, FULL_B, EMPTY_B, NKIND };
const char *const names[] = {"a.swap(b)", "b.swap(a)", "a=b", "b=a", "a=move(b)", "b=move(a)", "a.push", "b.push", "a.pop", "b.pop", "a.try_push", "b.try_push", "a.try_pop", "b.try_pop", "a.size", "copy of a", "move of a", "a.set_max", "a.force_push", "a=a", "a=move(a)", "a.swap(a)", "b.full", "b.empty"};
// the mathematical model of two queues
struct Model
{
    struct Q
    {
        int n = 0, cap = 0;
        long a[6] = {0, 0, 0, 0, 0, 0};
        bool room() const { return cap == 0 || n < cap; }
        void push(long v)
        {
            if (n < 6)
                a[n] = v;
            n++;
        }
        long pop()
        {
            long v = a[0];
            for (int i = 1; i < 6; i++)
                a[i - 1] = a[i];
            n--;
            return v;
        }
        long digest() const
        {
            long d = cap;
            for (int i = 0; i < n && i < 6; i++)
                d = d * 1000 + a[i];
            return d * 10 + n;
        }
    } q[2];
    // false: cannot go on now
    bool apply(int kind, long arg, long &res)
    {
        res = 0;
        switch (kind) {
        case SWAP_AB:
        case SWAP_BA: std::swap(q[0], q[1]); break;
        case ASSIGN_AB: q[0] = q[1]; break;
        case ASSIGN_BA: q[1] = q[0]; break;
        case MOVE_AB:
        case MOVE_BA: {
            Q &x = q[kind == MOVE_BA], &y = q[kind == MOVE_AB];
            x = y;
            y.n = 0;
            break;
        }
        case PUSH_A:
        case PUSH_B:
            if (!q[kind == PUSH_B].room())
                return false;
            q[kind == PUSH_B].push(arg);
            break;
        case POP_A:
        case POP_B:
            if (!q[kind == POP_B].n)
                return false;
            res = q[kind == POP_B].pop();
            break;
        case TPUSH_A:
        case TPUSH_B:
            res = q[kind == TPUSH_B].room();
            if (res)
                q[kind == TPUSH_B].push(arg);
            break;
        case TPOP_A:
        case TPOP_B: res = q[kind == TPOP_B].n ? q[kind == TPOP_B].pop() : -1; break;
        case LEN_A: res = q[0].n; break;
        case COPY_A: res = q[0].digest(); break;
        case TAKE_A:
            res = q[0].digest();
            q[0].n = 0;
            break;
        case BOUND_A: q[0].cap = arg % 3; break;
        case FORCE_A:
            while (!q[0].room()) {
                q[0].pop();
                res++;
            }
            q[0].push(arg);
            break;
        case FULL_B: res = !q[1].room(); break;
        case EMPTY_B: res = q[1].n == 0; break;
        }
        return true;
    }
};
typedef SafeQueue<std::shared_ptr<long>> Queue;
std::shared_ptr<long> item(long v) { return std::make_shared<long>(v); }
// contents of a queue nobody else uses, and its bound as far as it shows
long digest(Queue &q)
{
    long d = 0, n = 0, cap = 0;
    std::deque<std::shared_ptr<long>> v;
    std::shared_ptr<long> x;
    long len = (long) q.size();
    bool full = q.full();
    while (q.try_pop(x))
        v.push_back(x);
    // how many fit
    while (cap < 3 && q.try_push(x))
        cap++;
    if (cap == 3)
        cap = 0;
    while (q.try_pop(x))
        ;
    mc::check(len == (long) v.size() && full == (cap && len >= cap), "size and fullness of a queue agree with its contents and bound");
    d = cap;
    for (auto &p : v) {
        mc::check(p != nullptr, "an element keeps its value through copies and moves");
        d = d * 1000 + *p;
        n++;
    }
    return d * 10 + n;
}
struct Real
{
    Queue a, b;
    Real(int ca, int cb) : a(ca), b(cb) {}
    long apply(int kind, long arg)
    {
        std::shared_ptr<long> x;
        switch (kind) {
        case SWAP_AB: a.swap(b); break;
        case SWAP_BA: swap(b, a); break;
        case ASSIGN_AB: a = b; break;
        case ASSIGN_BA: b = a; break;
        case MOVE_AB: a = std::move(b); break;
        case MOVE_BA: b = std::move(a); break;
        case PUSH_A: a.push(item(arg)); break;
        case PUSH_B: b.move_push(item(arg)); break;
        case POP_A: a.pop(x); return *x;
        case POP_B: b.move_pop(x); return *x;
        case TPUSH_A: return a.try_push(item(arg));
        case TPUSH_B: return b.try_move_push(item(arg));
        case TPOP_A: return a.try_pop(x) ? *x : -1;
        case TPOP_B: return b.try_move_pop(x) ? *x : -1;
        case LEN_A: return (long) a.size();
        case COPY_A: {
            Queue c(a);
            return digest(c);
        }
        case TAKE_A: {
            Queue c(std::move(a));
            return digest(c);
        }
        case BOUND_A: a.set_max_num_items(arg % 3); break;
        case FORCE_A: return (long) a.force_move_push(item(arg));
        case SELF_COPY: {
            Queue &self = a;
            a = self;
            break;
        }
        case SELF_MOVE: {
            Queue &self = a;
            a = std::move(self);
            break;
        }
        case SELF_SWAP: a.swap(a); break;
        case FULL_B: return b.full();
        case EMPTY_B: return b.empty();
        }
        return 0;
    }
};
const int setups[][4] = {{1, 0, 2, 1}, {1, 1, 2, 0}, {2, 2, 1, 0}, {2, 1, 1, 1}, {0, 1, 1, 1}, {0, 0, 2, 2}, {1, 1, 0, 0}};
Model setup(int i)
{
    Model m;
    for (int k = 0; k < 2; k++) {
        m.q[k].cap = setups[i][2 * k];
        for (int j = 0; j < setups[i][2 * k + 1]; j++)
            m.q[k].push(100 * (k + 1) + j);
    }
    return m;
}
std::unique_ptr<Real> build(const Model &m)
{
    std::unique_ptr<Real> r(new Real(m.q[0].cap, m.q[1].cap));
    for (int j = 0; j < m.q[0].n; j++)
        r->a.push(item(m.q[0].a[j]));
    for (int j = 0; j < m.q[1].n; j++)
        r->b.push(item(m.q[1].a[j]));
    return r;
}
// ---- one thread: every sequence
bool sequence(Odo &o, int s, int depth)
{
    mc::Case one;
    {
        Model m = setup(s);
        auto r = build(m);
        std::string trace;
        for (int d = 0; d < depth; d++) {
            int k = o.pick(NKIND);
            long want;
            trace += std::string(" ") + names[k];
            if (!m.apply(k, d + 1, want))
                break;
            long got = r->apply(k, d + 1);
            mc::check(got == want, "each operation gives what the model of two queues gives", [&] { return trace + " gave " + std::to_string(got) + " instead of " + std::to_string(want); });
        }
        if (m.q[0].cap == 0 || m.q[0].n <= 3) {
            long ga = digest(r->a), wa = m.q[0].digest();
            mc::check(ga == wa, "the first queue holds what the model holds", [&] { return trace + " gave " + std::to_string(ga) + " instead of " + std::to_string(wa); });
        }
        long gb = digest(r->b), wb = m.q[1].digest();
        mc::check(gb == wb, "the second queue holds what the model holds", [&] { return trace + " gave " + std::to_string(gb) + " instead of " + std::to_string(wb); });
    }
    return o.next();
}
// ---- several threads
typedef std::vector<std::vector<int>> Program;
bool mayBlock(const Program &p, const Model &m, std::vector<int> pc)
{
    bool done = true, moved = false;
    for (size_t t = 0; t < p.size(); t++)
        if (pc[t] < (int) p[t].size()) {
            done = false;
            Model n = m;
            long r;
            if (!n.apply(p[t][pc[t]], (long) (t * 10 + pc[t] + 1), r))
                continue;
            moved = true;
            auto q = pc;
            q[t]++;
            if (mayBlock(p, n, q))
                return true;
        }
    return !done && !moved;
}
void threads(const Program &p, int s)
{
    Model m = setup(s);
    auto r = build(m);
    mc::History h;
    std::vector<std::thread> ts;
    for (size_t t = 0; t < p.size(); t++)
        ts.emplace_back([&, t] {
            for (size_t i = 0; i < p[t].size(); i++) {
                long arg = (long) (t * 10 + i + 1);
                int k = h.begin(p[t][i], arg);
                long res = r->apply(p[t][i], arg);
                h.end(k, res);
            }
        });
    for (auto &t : ts)
        t.join();
    long da = digest(r->a), db = digest(r->b);
    int k = h.begin(NKIND, da);
    h.end(k, db);
    mc::check(mc::linearizable(h, m, [](Model &x, const mc::Op &o, const mc::History &) {
                  if (o.kind == NKIND)
                      return x.q[0].digest() == o.arg && x.q[1].digest() == o.res;
                  long res;
                  return x.apply(o.kind, o.arg, res) && res == o.res;
              }),
              "the history is that of two queues operated one call at a time", [&] {
                  std::string s;
                  for (int i = 0; i + 1 < h.n; i++)
                      s += std::string(names[h.ops[i].kind]) + "=" + std::to_string(h.ops[i].res) + " ";
                  return s + "left " + std::to_string(da) + " " + std::to_string(db);
              });
    mc::observe(da * 7919 + db);
}
mc::Options opt(int a, int b)
{
    mc::Options o;
    o.preempt[0] = a;
    o.preempt[1] = b;
    o.unlock_points = true;
    return o;
}
struct Reg
{
    void add(const std::string &name, std::vector<int> shape, int s, std::vector<int> alphabet, mc::Options o)
    {
        auto ps = new std::vector<Program>;
        int total = 0;
        for (int n : shape)
            total += n;
        std::vector<int> d(total, 0);
        for (;;) {
            Program p;
            int k = 0;
            for (int n : shape) {
                p.push_back({});
                for (int i = 0; i < n; i++)
                    p.back().push_back(alphabet[d[k++]]);
            }
            bool keep = false; // someone copies, moves or swaps
            for (auto &t : p)
                for (int x : t)
                    keep |= x <= MOVE_BA || x == COPY_A || x == TAKE_A || x == BOUND_A;
            for (size_t t = 0; t + 1 < p.size(); t++)
                if (p[t].size() == p[t + 1].size() && p[t] > p[t + 1])
                    keep = false;
            if (keep && !mayBlock(p, setup(s), std::vector<int>(p.size(), 0)))
                ps->push_back(p);
            int i = total - 1;
            while (i >= 0 && ++d[i] == (int) alphabet.size())
                d[i--] = 0;
            if (i < 0)
                break;
        }
        mc::register_fn(name + "_" + std::to_string(s), [=] { threads((*ps)[chooseOf((int) ps->size(), "program")], s); }, o);
    }
    Reg()
    {
        for (int s = 0; s < 7; s++)
            mc::register_fn("sequences_" + std::to_string(s), [s] {
                Odo o;
                while (sequence(o, s, mc::thorough() ? 4 : 3));
            }, mc::Options());
        std::vector<int> all, two = {SWAP_AB, SWAP_BA, ASSIGN_AB, ASSIGN_BA, MOVE_AB, MOVE_BA, PUSH_A, PUSH_B, POP_A, POP_B, COPY_A, TAKE_A, BOUND_A};
        for (int i = 0; i <= FORCE_A; i++)
            all.push_back(i);
        std::vector<int> three = {SWAP_AB, SWAP_BA, ASSIGN_AB, MOVE_BA, PUSH_A, POP_A, POP_B, PUSH_B, TAKE_A, BOUND_A};
        for (int s = 0; s < 7; s++) {
            add("pair", {1, 1}, s, all, opt(3, 4));
            add("two_one", {2, 1}, s, two, opt(2, 3));
            if (s < 4)
                add("three", {1, 1, 1}, s, three, opt(1, 2));
        }
    }
} reg;
// ---- longer: elements come and go while the queues are swapped again and again
void swapped(int capA, int capB, int each, int swaps)
{
    Queue a(capA), b(capB);
    std::vector<long> out;
    std::atomic<int> taken{0};
    std::thread consumer([&] {
        for (int i = 0; taken < 2 * each; i++) {
            std::shared_ptr<long> x;
            if ((i & 1 ? a : b).try_pop(x)) {
                out.push_back(*x);
                taken++;
            } else
                std::this_thread::yield();
        }
    });
    std::thread swapper([&] {
        for (int i = 0; i < swaps; i++)
            switch (i % 3) {
            case 0: a.swap(b); break;
            case 1: b.swap(a); break;
            case 2: {
                Queue c(std::move(a)); // and back
                if (!c.empty()) {
                    std::shared_ptr<long> x;
                    while (c.try_pop(x)) {
                        mc::check(x != nullptr, "an element keeps its value through copies and moves");
                        b.force_move_push(x);
                    }
                }
                break;
            }
            }
    });
    for (int i = 1; i <= each; i++) {
        a.push(item(i));
        b.move_push(item(1000 + i));
    }
    swapper.join();
    consumer.join();
    mc::check(a.empty() && b.empty(), "nothing is left over");
    std::sort(out.begin(), out.end());
    std::vector<long> want;
    for (int i = 1; i <= each; i++)
        want.push_back(i);
    for (int i = 1; i <= each; i++)
        want.push_back(1000 + i);
    mc::check(out == want, "no element is lost or doubled by swaps and moves", [&] { return mc::str(out); });
}
mc::Options deep(int a, int b)
{
    mc::Options o = opt(a, b);
    o.delays = true;
    return o;
}
MC_SCENARIO(swapped_unbounded, o = deep(2, 3)) { swapped(0, 0, 12, 9); }
MC_SCENARIO(swapped_swaps, o = deep(3, 4)) { swapped(2, 1, 4, 2); }
MC_SCENARIO(swapped_long, o = deep(1, 1)) { swapped(0, 0, 100, 90); }
} // namespace
#include "main.inc"

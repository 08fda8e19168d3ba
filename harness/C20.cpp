// C20 safe queue: linearizable bounded blocking FIFO, under every short program of two or three threads
// @flags: --no-sdk
#include "enumerate.h"
#include <atomic>
#include <algorithm>
#include <cstring>
#include <deque>
#include <functional>
#include <klepsydra/mem_core/safe_queue.h>
#include <set>
using kpsr::mem::SafeQueue;
namespace {
enum { PUSH, TRYPUSH, FORCE, POP, TRYPOP, TIMED, QUERY, NK };
const char *const names[] = {"push", "try_push", "force_push", "pop", "try_pop", "timed_pop", "query"};
const long TIMEOUT_US = 50;
enum { Q_SIZE, Q_EMPTY, Q_FULL };
struct St
{
    long a[8];
    int n;
};
struct Step
{
    int cap;
    bool operator()(St &s, const mc::Op &o, const mc::History &) const
    {
        bool room = cap == 0 || s.n < cap;
        switch (o.kind) {
        case PUSH:
        case TRYPUSH:
            if (o.kind == TRYPUSH && !o.res)
                return !room;
            if (!room || s.n >= 8)
                return false;
            s.a[s.n++] = o.arg;
            return true;
        case FORCE: {
            int drop = room ? 0 : s.n - cap + 1;
            if (o.res != drop)
                return false;
            for (int i = drop; i < s.n; i++)
                s.a[i - drop] = s.a[i];
            s.n -= drop;
            s.a[s.n++] = o.arg;
            return true;
        }
        case POP:
        case TRYPOP:
        case TIMED:
            if (o.res == -1)
                return o.kind != POP && s.n == 0;
            if (!s.n || s.a[0] != o.res)
                return false;
            for (int i = 1; i < s.n; i++)
                s.a[i - 1] = s.a[i];
            s.n--;
            return true;
        case QUERY:
            return o.res == (o.arg == Q_SIZE ? s.n : o.arg == Q_EMPTY ? s.n == 0 : !room);
        }
        return false;
    }
};
typedef std::vector<std::vector<int>> Program;
// every way the program can go on an ideal queue ends with all threads done (else blocking is its own fault)
bool mayBlock(const Program &p, int cap, int init)
{
    std::set<std::vector<int>> seen;
    std::vector<std::vector<int>> todo;
    std::vector<int> s(p.size() + 1, 0);
    s.back() = init;
    todo.push_back(s);
    while (!todo.empty()) {
        s = todo.back();
        todo.pop_back();
        if (!seen.insert(s).second)
            continue;
        bool done = true, moved = false;
        for (size_t t = 0; t < p.size(); t++) {
            if (s[t] == (int) p[t].size())
                continue;
            done = false;
            auto n = s;
            n[t]++;
            int &len = n.back();
            switch (p[t][s[t]]) {
            case PUSH:
                if (cap && len >= cap)
                    continue;
                len++;
                break;
            case TRYPUSH:
                if (!cap || len < cap)
                    len++;
                break;
            case FORCE:
                if (!cap || len < cap)
                    len++;
                break;
            case POP:
                if (!len)
                    continue;
                len--;
                break;
            case TRYPOP:
            case TIMED:
                if (len)
                    len--;
                break;
            }
            moved = true;
            todo.push_back(n);
        }
        if (!done && !moved)
            return true;
    }
    return false;
}
struct Run
{
    SafeQueue<long> q;
    mc::History h;
    int cap;
    Run(int cap) : q(cap), cap(cap) {}
    void op(int kind, int variant, long v)
    {
        const long cv = v;
        long out = -1;
        long long t0;
        int i;
        bool ok;
        switch (kind) {
        case PUSH:
            i = h.begin(kind, v);
            ok = variant == 0 ? q.push(cv) : variant == 1 ? q.push(static_cast<const long &&>(cv)) : q.move_push(cv);
            h.end(i, ok);
            mc::check(ok, "a blocking push succeeds");
            break;
        case TRYPUSH:
            i = h.begin(kind, v);
            ok = variant == 0 ? q.try_push(cv) : variant == 1 ? q.try_push(static_cast<const long &&>(cv)) : q.try_move_push(cv);
            h.end(i, ok);
            break;
        case FORCE: {
            i = h.begin(kind, v);
            long n = (long) q.force_move_push(cv);
            h.end(i, n);
            break;
        }
        case POP:
            i = h.begin(kind, 0);
            if (variant & 1)
                q.move_pop(out);
            else
                q.pop(out);
            h.end(i, out);
            break;
        case TRYPOP:
            i = h.begin(kind, 0);
            ok = variant & 1 ? q.try_move_pop(out) : q.try_pop(out);
            h.end(i, ok ? out : -1);
            mc::check(ok || out == -1, "a pop that fails leaves the caller's item alone");
            break;
        case TIMED:
            i = h.begin(kind, 0);
            t0 = mc::mc_now_ns();
            ok = variant & 1 ? q.timeout_move_pop(out, TIMEOUT_US) : q.timeout_pop(out, TIMEOUT_US);
            h.end(i, ok ? out : -1);
            mc::check(ok || mc::mc_now_ns() - t0 >= TIMEOUT_US * 1000, "a timed pop fails only after its time");
            mc::check(ok || out == -1, "a pop that fails leaves the caller's item alone");
            break;
        case QUERY:
            i = h.begin(kind, variant);
            h.end(i, variant == Q_SIZE ? (long) q.size() : variant == Q_EMPTY ? (long) q.empty() : (long) q.full());
            break;
        }
    }
};
void run(const Program &p, int cap, int init, int variant)
{
    Run r(cap);
    for (int i = 0; i < init; i++)
        r.op(PUSH, 0, 100 + i);
    std::vector<std::thread> ts;
    for (size_t t = 0; t < p.size(); t++)
        ts.emplace_back([&r, &p, t, variant] {
            for (size_t i = 0; i < p[t].size(); i++)
                r.op(p[t][i], (variant + (int) i + (int) t) % 3, (long) (t * 10 + i + 1));
        });
    for (auto &t : ts)
        t.join();
    // what is left comes out in order
    int n = (int) r.q.size();
    mc::check(cap == 0 || n <= cap, "a bounded queue never exceeds its bound");
    for (int i = 0; i <= n; i++)
        r.op(TRYPOP, 0, 0);
    St s;
    memset(&s, 0, sizeof s);
    mc::check(mc::linearizable(r.h, s, Step{cap}), "the history is that of a first-in first-out queue operated one call at a time", [&] { return r.h.str(names); });
    for (int i = 0; i < r.h.n; i++)
        mc::observe(r.h.ops[i].kind * 1000 + r.h.ops[i].res);
}
std::vector<Program> programs(const std::vector<int> &shape, int cap, int init, const std::vector<int> &alphabet)
{
    std::vector<Program> out;
    int total = 0;
    for (int n : shape)
        total += n;
    std::vector<int> d(total, 0);
    for (;;) {
        Program p;
        int k = 0;
        for (int n : shape) {
            p.push_back({});
            for (int i = 0; i < n; i++)
                p.back().push_back(alphabet[d[k++]]);
        }
        bool sorted = true; // threads of the same length are interchangeable
        for (size_t t = 0; t + 1 < p.size(); t++)
            if (p[t].size() == p[t + 1].size() && p[t] > p[t + 1])
                sorted = false;
        int adds = 0, takes = 0;
        for (auto &t : p)
            for (int o : t)
                (o <= FORCE ? adds : takes)++;
        if (sorted && adds + init > 0 && adds + takes > 0 && !mayBlock(p, cap, init))
            out.push_back(p);
        int i = total - 1;
        while (i >= 0 && ++d[i] == (int) alphabet.size())
            d[i--] = 0;
        if (i < 0)
            return out;
    }
}
mc::Options opt(int p0, int p1)
{
    mc::Options o;
    o.preempt[0] = p0;
    o.preempt[1] = p1;
    o.timers[0] = 1;
    o.timers[1] = 2;
    o.spurious[0] = 1;
    o.spurious[1] = 2;
    o.seconds[0] = 25;
    return o;
}
// one thread, all bounds and fill levels: every sequence of operations against a plain queue
void sequential()
{
    const int caps[] = {0, 1, 2, 3, 4, 5, 8, 9, 16, 33};
    int cap = caps[mc::choose(10, "bound")], fill = mc::choose((cap ? cap : 9) + 1, "fill");
    const int NOP = 16, depth = mc::thorough() ? 4 : 3;
    int first = mc::choose(NOP, "first operation");
    std::vector<int> d(depth, 0);
    d[0] = first;
    for (;;) {
        mc::Case one_sequence;
        SafeQueue<long> q(cap);
        std::deque<long> ref;
        size_t bound = cap;
        long v = 1000;
        for (int i = 0; i < fill; i++) {
            q.push(v);
            ref.push_back(v++);
        }
        auto full = [&] { return bound && ref.size() >= bound; };
        auto bad = [&](const char *what) {
            std::string s = std::string(what) + " | bound " + std::to_string(cap) + " fill " + std::to_string(fill) + " operations";
            for (int o : d)
                s += " " + std::to_string(o);
            mc::fail(s);
        };
        auto took = [&](bool ok, const long &out) {
            if (ok != !ref.empty())
                bad("a pop succeeds exactly if there is an element");
            if (!ok)
                return;
            if (out != ref.front())
                bad("elements come out in the order they went in");
            ref.pop_front();
        };
        for (int op : d) {
            const long cv = v++;
            long out = -1;
            switch (op) {
            case 0:
            case 1:
            case 2:
                if (full())
                    break;
                if (!(op == 0 ? q.push(cv) : op == 1 ? q.push(static_cast<const long &&>(cv)) : q.move_push(cv)))
                    bad("a blocking push succeeds");
                ref.push_back(cv);
                break;
            case 3:
            case 4:
            case 5: {
                bool ok = op == 3 ? q.try_push(cv) : op == 4 ? q.try_push(static_cast<const long &&>(cv)) : q.try_move_push(cv);
                if (ok == full())
                    bad("a push that does not wait fails exactly if the queue is full");
                if (ok)
                    ref.push_back(cv);
                break;
            }
            case 6: {
                unsigned drop = 0;
                while (full()) {
                    ref.pop_front();
                    drop++;
                }
                ref.push_back(cv);
                if (q.force_move_push(cv) != drop)
                    bad("a forced push discards what is over the bound and nothing else");
                break;
            }
            case 7:
            case 8:
                if (ref.empty())
                    break;
                op == 7 ? q.pop(out) : q.move_pop(out);
                took(true, out);
                break;
            case 9: took(q.try_pop(out), out); break;
            case 10: took(q.try_move_pop(out), out); break;
            case 11: took(q.timeout_pop(out, 0), out); break;
            case 12: took(q.timeout_move_pop(out, ref.empty() ? 1 : TIMEOUT_US), out); break;
            case 13: q.set_max_num_items(bound = cap + 1); break;
            case 14: q.set_max_num_items(bound = 2); break;
            case 15: q.set_max_num_items(bound = 0); break;
            }
            if (q.size() != ref.size() || q.empty() != ref.empty() || q.full() != (bool) full())
                bad("size, empty and full tell what is there");
        }
        long out;
        while (!ref.empty())
            took(q.try_pop(out), out);
        if (q.try_pop(out))
            bad("nothing is left over");
        int i = depth - 1;
        while (i >= 1 && ++d[i] == NOP)
            d[i--] = 0;
        if (i < 1)
            break;
    }
}
struct Reg
{
    void add(const std::string &name, std::vector<int> shape, int cap, int init, std::vector<int> alphabet, mc::Options o)
    {
        auto ps = new std::vector<Program>(programs(shape, cap, init, alphabet));
        mc::register_fn(name + "_cap" + std::to_string(cap) + "_init" + std::to_string(init), [=] {
            int i = chooseOf((int) ps->size(), "program");
            run((*ps)[i], cap, init, mc::thorough() ? mc::choose(3, "variant") : i % 3);
        }, o);
    }
    Reg()
    {
        std::vector<int> all = {PUSH, TRYPUSH, FORCE, POP, TRYPOP, TIMED, QUERY};
        std::vector<int> core = {PUSH, TRYPUSH, FORCE, POP, TIMED};
        for (int cap : {0, 1, 2})
            for (int init = 0; init <= cap; init++) {
                add("two_by_two", {2, 2}, cap, init, all, opt(2, 3));
                add("three_by_one", {1, 1, 1}, cap, init, all, opt(2, 3));
                add("two_one_one", {2, 1, 1}, cap, init, core, opt(1, 2));
            }
        mc::register_fn("sequential", sequential, opt(0, 0));
        mc::Options t = opt(2, 2);
        t.thorough_only = true;
        add("three_two", {3, 2}, 1, 0, core, t);
        add("four_by_one", {1, 1, 1, 1}, 1, 0, core, t);
        add("four_by_one", {1, 1, 1, 1}, 2, 1, core, t);
    }
} reg;
// ---- longer: producers and consumers of many elements, in every way to push and pop
void traffic(int cap, int producers, int consumers, int each, bool force)
{
    SafeQueue<long> q(cap);
    std::atomic<int> left{producers * each}, dropped{0};
    auto produce = [&](int t) {
        for (int i = 1; i <= each; i++) {
            const long v = t * 1000 + i;
            switch ((i + t) % (force ? 5 : 4)) {
            case 0: q.push(v); break;
            case 1: q.push(static_cast<const long &&>(v)); break;
            case 2: q.move_push(v); break;
            case 3:
                while (!(i % 2 ? q.try_push(v) : q.try_move_push(v)))
                    std::this_thread::yield();
                break;
            case 4: {
                int n = (int) q.force_move_push(v);
                mc::check(n <= 1, "a forced push discards what is over the bound and nothing else");
                dropped += n;
                break;
            }
            }
            mc::check(cap == 0 || (int) q.size() <= cap, "a bounded queue never exceeds its bound");
        }
    };
    std::vector<std::vector<long>> got(consumers);
    auto consume = [&](int c) {
        for (int i = c; !force ? left.fetch_sub(1) > 0 : left > dropped; i++) {
            long v = -1;
            switch (force ? 2 : i % 4) {
            case 0: q.pop(v); break;
            case 1: q.move_pop(v); break;
            case 2:
                if (force) {
                    if (i % 2 ? q.try_pop(v) : q.try_move_pop(v))
                        left--;
                    else
                        std::this_thread::yield();
                } else
                    while (!q.try_pop(v))
                        std::this_thread::yield();
                break;
            case 3:
                while (!q.timeout_pop(v, 100000000))
                    ;
                break;
            }
            if (v != -1)
                got[c].push_back(v);
        }
    };
    std::vector<std::thread> ts;
    for (int c = 0; c < consumers; c++)
        ts.emplace_back(consume, c);
    for (int t = 1; t < producers; t++)
        ts.emplace_back(produce, t);
    produce(0);
    for (auto &t : ts)
        t.join();
    std::vector<long> all, want;
    for (auto &g : got) {
        std::vector<long> last(producers, 0);
        for (long v : g) {
            mc::check(v > last[v / 1000], "the elements of a producer come out in the order they went in", [&] { return mc::str(g); });
            last[v / 1000] = v;
            all.push_back(v);
        }
        mc::observe(g);
    }
    for (int t = 0; t < producers; t++)
        for (int i = 1; i <= each; i++)
            want.push_back(t * 1000 + i);
    std::sort(all.begin(), all.end());
    if (force)
        mc::check((int) all.size() + dropped == producers * each && std::unique(all.begin(), all.end()) == all.end() && q.empty(), "every element comes out once or is reported as discarded");
    else
        mc::check(all == want && q.empty(), "every element comes out exactly once", [&] { return mc::str(all); });
}
mc::Options deep(int a, int b)
{
    mc::Options o = opt(a, b);
    o.timers[0] = o.timers[1] = o.spurious[0] = o.spurious[1] = 0;
    o.delays = true;
    return o;
}
// several threads blocked at once are all released by whatever makes room, or fills, for all of them
void released_together()
{
    int n = 2 + mc::choose(2, "waiting"), cap = 1 + mc::choose(2, "bound"), how = mc::choose(4, "how");
    SafeQueue<long> q(cap);
    std::vector<std::thread> ts;
    if (how < 3) { // pushers blocked on a full queue
        for (int i = 0; i < cap; i++)
            q.push(100 + i);
        std::atomic<int> done{0};
        for (int t = 0; t < n; t++)
            ts.emplace_back([&, t] {
                long v = 1 + t;
                switch (t) {
                case 0: q.push(v); break;
                case 1: q.push(static_cast<const long &&>(v)); break;
                case 2: q.move_push(v); break;
                }
                done++;
            });
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
        mc::check(done == 0 && (int) q.size() == cap, "a push blocks while the queue is full");
        if (how == 0)
            q.set_max_num_items(cap + n);
        else if (how == 1)
            q.set_max_num_items(0);
        else {
            SafeQueue<long> other(cap + n);
            q.swap(other);
            long v;
            mc::check((int) other.size() == cap && other.try_pop(v) && v == 100, "a swap exchanges the contents");
        }
        for (auto &t : ts)
            t.join();
        mc::check(done == n && (int) q.size() == (how == 2 ? n : cap + n), "a push ends once there is room");
        long v;
        if (how < 2)
            for (int i = 0; i < cap; i++)
                mc::check(q.try_pop(v) && v == 100 + i, "elements come out in order");
        std::vector<long> got, want;
        for (int i = 0; i < n; i++) {
            mc::check(q.try_pop(v), "every element comes out exactly once");
            got.push_back(v);
            want.push_back(1 + i);
        }
        mc::observe(got);
        std::sort(got.begin(), got.end());
        mc::check(got == want, "every element comes out exactly once", [&] { return mc::str(got); });
        return;
    }
    // poppers blocked on an empty one, filled at once by an assignment
    std::vector<std::atomic<long>> out(n);
    for (int t = 0; t < n; t++)
        ts.emplace_back([&, t] {
            long v = -1;
            switch (t) {
            case 0: q.pop(v); break;
            case 1: q.move_pop(v); break;
            case 2: mc::check(q.timeout_pop(v, 1000000), "a timed pop takes what came in time"); break;
            }
            out[t] = v;
        });
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
    SafeQueue<long> other(0);
    for (int i = 0; i < n; i++)
        other.push(i + 1);
    switch (cap) {
    case 1: q = other; break;
    case 2: q.swap(other); break;
    }
    for (auto &t : ts)
        t.join();
    std::vector<long> got, want;
    for (int i = 0; i < n; i++) {
        got.push_back(out[i]);
        want.push_back(i + 1);
    }
    mc::observe(got);
    std::sort(got.begin(), got.end());
    mc::check(got == want && q.empty(), "every element comes out exactly once", [&] { return mc::str(got); });
}
// each operation in a row of them releases one of the threads that wait for it
void released_one_by_one()
{
    int n = 2 + mc::choose(2, "waiting"), way = mc::choose(13, "way"), cap = way < 6 ? n + mc::choose(2, "bound") : 3 * mc::choose(2, "bound");
    SafeQueue<long> q(cap);
    std::vector<std::thread> ts;
    std::vector<long> got(n);
    if (way < 6) {
        for (int i = 0; i < cap; i++)
            q.push(100 + i);
        for (int t = 0; t < n; t++)
            ts.emplace_back([&, t] {
                if (t)
                    q.push(1 + t);
                else
                    q.move_push(1 + t);
            });
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
        std::vector<long> out;
        for (int i = 0; i < n; i++) {
            long v = -1;
            switch (way) {
            case 0: q.pop(v); break;
            case 1: q.move_pop(v); break;
            case 2: mc::check(q.try_pop(v), "a pop succeeds if there is an element"); break;
            case 3: mc::check(q.try_move_pop(v), "a pop succeeds if there is an element"); break;
            case 4: mc::check(q.timeout_pop(v, 0), "a pop succeeds if there is an element"); break;
            case 5: mc::check(q.timeout_move_pop(v, 0), "a pop succeeds if there is an element"); break;
            }
            out.push_back(v);
        }
        for (auto &t : ts)
            t.join();
        mc::check((int) q.size() == cap, "each pop makes room for one push");
        for (long v; q.try_pop(v);)
            out.push_back(v);
        mc::observe(out);
        for (int i = 0; i < cap; i++)
            mc::check(out[i] == 100 + i, "elements come out in order", [&] { return mc::str(out); });
        got.assign(out.begin() + cap, out.end());
    } else {
        for (int t = 0; t < n; t++)
            ts.emplace_back([&, t] {
                long v = -1;
                if (t == 0)
                    q.pop(v);
                else if (t == 1)
                    q.move_pop(v);
                else
                    mc::check(q.timeout_pop(v, 1000000), "a timed pop takes what came in time");
                got[t] = v;
            });
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
        for (long i = 1; i <= n; i++) {
            const long c = i;
            switch (way - 6) {
            case 0: q.push(c); break;
            case 1: q.push(static_cast<const long &&>(c)); break;
            case 2: q.move_push(c); break;
            case 3: mc::check(q.try_push(c), "a push succeeds if there is room"); break;
            case 4: mc::check(q.try_push(static_cast<const long &&>(c)), "a push succeeds if there is room"); break;
            case 5: mc::check(q.try_move_push(c), "a push succeeds if there is room"); break;
            case 6: mc::check(q.force_move_push(c) == 0, "a forced push discards what is over the bound and nothing else"); break;
            }
        }
        for (auto &t : ts)
            t.join();
        mc::check(q.empty(), "each push releases one pop");
        mc::observe(got);
    }
    std::sort(got.begin(), got.end());
    for (int i = 0; i < n; i++)
        mc::check(got[i] == i + 1, "every element comes out exactly once", [&] { return mc::str(got); });
}
MC_SCENARIO(released_in_a_row, o = deep(1, 2)) { released_one_by_one(); }
MC_SCENARIO(released_1, o = deep(1, 2)) { released_together(); }
// a timed pop measures time that passes, not the time of day
void clock_set()
{
    const long long steps[] = {-3600000000000ll, -TIMEOUT_US * 500, TIMEOUT_US * 500, 3600000000000ll};
    int push = mc::choose(4, "push"), move = mc::choose(2, "move"), at = mc::choose(3, "at");
    long long step = steps[mc::choose(4, "step")];
    kpsr::mem::SafeQueue<int> q(2);
    std::thread admin([&] {
        std::this_thread::sleep_for(std::chrono::microseconds(at * TIMEOUT_US / 3));
        mc::mc_step_wall(step);
    });
    std::thread p([&] {
        if (!push)
            return;
        std::this_thread::sleep_for(std::chrono::microseconds((push - 1) * TIMEOUT_US * 2 / 3));
        q.push(7);
    });
    int out = -1;
    long long t0 = mc::mc_now_ns();
    bool ok = move ? q.timeout_move_pop(out, TIMEOUT_US) : q.timeout_pop(out, TIMEOUT_US);
    long long t = mc::mc_now_ns() - t0;
    mc::check(ok || t >= TIMEOUT_US * 1000, "a timed pop fails only after its time", [&] { return std::to_string(t / 1000) + " us"; });
    mc::check(t <= TIMEOUT_US * 1000 + 100000, "a timed pop ends once its time is over", [&] { return std::to_string(t / 1000) + " us"; });
    mc::check(ok ? out == 7 && push : push != 1 && push != 2, "a timed pop takes what came in time");
    admin.join();
    p.join();
    mc::observe(ok);
}
MC_SCENARIO(clock_set_1, o = opt(2, 3); o.timers[0] = o.timers[1] = 0) { clock_set(); }
MC_SCENARIO(traffic_1, o = deep(3, 4)) { traffic(1, 2, 2, 4, false); }
MC_SCENARIO(traffic_2, o = deep(2, 3)) { traffic(2, 3, 2, 8, false); }
MC_SCENARIO(traffic_8, o = deep(1, 2)) { traffic(8, 2, 3, 20, false); }
MC_SCENARIO(traffic_unbounded, o = deep(2, 3)) { traffic(0, 2, 1, 40, false); }
MC_SCENARIO(traffic_64, o = deep(1, 2)) { traffic(64, 2, 1, 200, false); }
MC_SCENARIO(traffic_force_1, o = deep(2, 3)) { traffic(1, 2, 1, 8, true); }
MC_SCENARIO(traffic_force_8, o = deep(1, 2)) { traffic(8, 2, 2, 30, true); }
} // namespace
#include "main.inc"

// C18 cache listener: nothing or one whole delivered event, the latest, and an honest count
#include "enumerate.h"
#include <klepsydra/core/cache_listener.h>
#include <memory>
#include <thread>
using namespace kpsr::mem;
namespace {
int made, gone;
long copyNs; // what a copy takes
struct Ev
{
    long a = 0, b = ~0l;
    Ev(long v = 0) : a(v), b(~v) { count(made); }
    Ev(const Ev &o) : a(o.a), b(o.b)
    {
        count(made);
        mc::mc_advance_ns(copyNs);
    }
    Ev &operator=(const Ev &o)
    {
        a = o.a;
        b = o.b;
        mc::mc_advance_ns(copyNs);
        return *this;
    }
    ~Ev()
    {
        a = b = -7;
        count(gone);
    }
    static __attribute__((no_sanitize("thread"), noinline)) void count(int &n) { n++; }
};
typedef MultiThreadCacheListener<Ev> Multi;
mc::Options opt(int a, int b)
{
    mc::Options o;
    o.preempt[0] = a;
    o.preempt[1] = b;
    o.leak = true;
    return o;
}
long value(const std::shared_ptr<Ev> &e)
{
    if (!e)
        return 0;
    mc::check(e->b == ~e->a, "a cached event is whole");
    return e->a;
}
enum { WRITE, RAW, READ, BOTH, NK };
const char *const names[] = {"deliver", "deliver shared", "read", "read with count"};
struct St
{
    long v, n;
};
struct Run
{
    Multi c;
    mc::History h;
    void op(int kind, long v)
    {
        int i;
        switch (kind) {
        case WRITE: {
            Ev e(v);
            i = h.begin(WRITE, v);
            c.cacheListenerFunction(e);
            h.end(i, 0);
            break;
        }
        case RAW: {
            auto e = std::make_shared<Ev>(v);
            i = h.begin(RAW, v);
            c.onEventReceivedRaw(e);
            h.end(i, 0);
            break;
        }
        case READ: {
            i = h.begin(READ, 0);
            auto e = c.getLastReceivedEvent();
            h.end(i, value(e));
            break;
        }
        case BOTH: {
            i = h.begin(BOTH, 0);
            auto e = c.getCounterAndEvent();
            h.end(i, value(e.second) * 100 + e.first);
            break;
        }
        }
    }
};
void run(const std::vector<std::vector<int>> &p)
{
    made = gone = 0;
    {
        Run r;
        std::vector<std::thread> ts;
        auto body = [&](int t) {
            for (size_t i = 0; i < p[t].size(); i++)
                r.op(p[t][i], 10 * (t + 1) + (long) i);
        };
        for (size_t t = 1; t < p.size(); t++)
            ts.emplace_back(body, (int) t);
        body(0);
        for (auto &t : ts)
            t.join();
        r.op(BOTH, 0);
        bool ok = mc::linearizable(r.h, St{0, 0}, [](St &s, const mc::Op &o, const mc::History &) {
            switch (o.kind) {
            case WRITE:
            case RAW:
                s.v = o.arg;
                s.n++;
                return true;
            case READ: return o.res == s.v;
            default: return o.res == s.v * 100 + s.n;
            }
        });
        mc::check(ok, "a read returns the event last delivered, with the count of deliveries", [&] { return r.h.str(names); });
        for (int i = 0; i < r.h.n; i++)
            mc::observe(r.h.ops[i].res);
    }
    mc::check(made == gone, "every cached event is destroyed once");
}
// every program of these shapes
struct Programs
{
    Programs()
    {
        add("two_by_two", {2, 2}, opt(3, 5));
        add("three_threads", {1, 1, 1}, opt(3, 4));
        add("writers_and_reader", {1, 1, 2}, opt(2, 3));
    }
    void add(const char *name, std::vector<int> shape, mc::Options o)
    {
        int total = 0;
        for (int n : shape)
            total += n;
        auto *all = new std::vector<std::vector<std::vector<int>>>();
        Odo e;
        do {
            std::vector<std::vector<int>> p;
            bool writes = false;
            for (int n : shape) {
                p.emplace_back();
                for (int i = 0; i < n; i++) {
                    p.back().push_back(e.pick(NK));
                    writes |= p.back().back() <= RAW;
                }
            }
            if (writes)
                all->push_back(p);
        } while (e.next());
        mc::register_fn(name, [all] { run((*all)[chooseOf((int) all->size(), "program")]); }, o);
    }
} programs;
// the plain listener, delivered to by one thread, read by another that saw the count
MC_SCENARIO(counted_then_read, o = opt(3, 5))
{
    int raw = mc::choose(2, "raw"), kind = mc::choose(3, "kind"), n = 1 + mc::choose(2, "deliveries");
    std::unique_ptr<CacheListener<Ev>> c(kind == 0 ? new CacheListener<Ev>() : kind == 1 ? new Multi() : (CacheListener<Ev> *) new TestCacheListener<Ev>(2));
    std::thread t([&] {
        for (int i = 1; i <= n; i++) {
            if (raw)
                c->onEventReceivedRaw(std::make_shared<Ev>(i));
            else
                c->cacheListenerFunction(Ev(i));
        }
    });
    while (c->counter < n)
        std::this_thread::sleep_for(std::chrono::microseconds(100));
    mc::check(value(c->getLastReceivedEvent()) == n, "an event that was counted can be read");
    t.join();
    mc::check(c->counter == n, "each delivery is counted once");
}
bool sequence(Odo &o, int depth)
{
    mc::Case one;
    made = gone = 0;
    const int SLEEPS[] = {3, 1, 0};
    int kind = o.pick(5);
    int sleepMs = kind < 2 ? 0 : SLEEPS[kind - 2];
    std::string trace = std::to_string(kind);
    copyNs = 70000;
    long copying = 0;
    {
        Multi multi;
        TestCacheListener<Ev> test(sleepMs);
        CacheListener<Ev> plain;
        CacheListener<Ev> &c = kind == 0 ? plain : kind == 1 ? (CacheListener<Ev> &) multi : test;
        mc::check(!c.getLastReceivedEvent() && c.counter == 0, "an unused cache holds nothing");
        std::vector<std::pair<std::shared_ptr<Ev>, long>> got;
        long v = 0, n = 0, fresh = 0;
        std::shared_ptr<Ev> shared; // the event last delivered as a shared one
        for (int d = 0; d < depth; d++) {
            int op = o.pick(shared ? 5 : 4);
            trace += " " + std::to_string(op);
            long long before = mc::mc_now_ns();
            switch (op) {
            case 0: {
                Ev e(v = ++fresh);
                c.cacheListenerFunction(e);
                e.a = 99; // its own copy
                n++;
                break;
            }
            case 1: {
                auto e = std::make_shared<Ev>(v = ++fresh);
                shared = e;
                c.onEventReceivedRaw(e);
                mc::check(c.getLastReceivedEvent() == e, "a shared event is kept as it is", [&] { return trace; });
                n++;
                break;
            }
            case 2: {
                auto e = c.getLastReceivedEvent();
                mc::check(value(e) == v, "a read returns the event last delivered", [&] { return trace; });
                if (e)
                    got.emplace_back(e, v);
                break;
            }
            case 3: {
                auto f = c.cacheListenerFunction; // as the subscriber keeps it
                f(Ev(v = ++fresh));
                n++;
                break;
            }
            case 4: {
                c.onEventReceivedRaw(shared); // once more, as it is: a delivery like any other
                v = value(shared);
                mc::check(c.getLastReceivedEvent() == shared, "a shared event is kept as it is", [&] { return trace; });
                n++;
                break;
            }
            }
            long long took = mc::mc_now_ns() - before;
            if (op == 0 || op == 3)
                copying += copyNs;
            if (op != 2)
                mc::check(took >= sleepMs * 1000000ll && took < sleepMs * 1000000ll + 100000, "a sleeping cache sleeps its time, and no longer",
                          [&] { return trace + " took " + std::to_string(took); });
            mc::check(c.counter == n, "each delivery is counted once", [&] { return trace; });
            mc::check(c.totalCopyingTime >= copying && c.totalCopyingTime < copying + 100 * (d + 1), "the time spent on copying is counted",
                      [&] { return trace + ": " + std::to_string(c.totalCopyingTime); });
            for (auto &g : got)
                mc::check(value(g.first) == g.second, "an event that was read does not change", [&] { return trace; });
        }
    }
    copyNs = 0;
    mc::check(made == gone, "every cached event is destroyed once");
    return o.next();
}
MC_SCENARIO(sequences, o = opt(0, 0))
{
    Odo o;
    while (sequence(o, mc::thorough() ? 7 : 6))
        ;
}
// ---- longer: one thread delivers, others read; what they see is consistent and never goes back
void long_run(int n, int readers, bool mixed)
{
    made = gone = 0;
    {
        Multi c;
        std::vector<std::thread> ts;
        for (int t = 0; t < readers; t++)
            ts.emplace_back([&, t] {
                long last = 0, lastCount = 0;
                for (int i = 0; i < n / 2 || (last < n && i < 20 * n); i++) {
                    if ((i + t) % 2) {
                        auto e = c.getCounterAndEvent();
                        long v = value(e.second);
                        mc::check(e.first == v, "a read with count returns the event that was delivered as many deliveries ago as counted", [&] { return std::to_string(v) + " counted " + std::to_string(e.first); });
                        mc::check(e.first >= lastCount && v >= last, "a cache never goes back");
                        last = v;
                        lastCount = e.first;
                    } else {
                        long v = value(c.getLastReceivedEvent());
                        mc::check(v >= last, "a cache never goes back");
                        last = v;
                    }
                    if (i > n)
                        std::this_thread::yield();
                }
                mc::observe(last);
            });
        for (int i = 1; i <= n; i++) {
            if (mixed && i % 2)
                c.onEventReceivedRaw(std::make_shared<Ev>(i));
            else
                c.cacheListenerFunction(Ev(i));
        }
        for (auto &t : ts)
            t.join();
        auto e = c.getCounterAndEvent();
        mc::check(value(e.second) == n && e.first == n, "a read returns the event last delivered, with the count of deliveries");
    }
    mc::check(made == gone, "every cached event is destroyed once");
}
mc::Options deep(int a, int b)
{
    mc::Options o = opt(a, b);
    o.delays = true;
    return o;
}
MC_SCENARIO(long_one_reader, o = deep(3, 4)) { long_run(16, 1, mc::choose(2)); }
MC_SCENARIO(long_readers, o = deep(2, 3)) { long_run(20, 3, true); }
MC_SCENARIO(long_many, o = deep(1, 1)) { long_run(150, 2, true); }
} // namespace
#include "main.inc"

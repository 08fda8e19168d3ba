// C13 object pool: one holder per object, every object comes back, and the pool outlived by its objects
#include "enumerate.h"
#include <klepsydra/core/smart_object_pool.h>
#include <memory>
#include <thread>
using namespace kpsr;
namespace {
int made, destroyed;
struct Obj
{
    long a = 0, b = 0, inits = 0, finals = 0;
    int serial;
    Obj() : serial(count()) {}
    ~Obj() { gone(); }
    // books kept outside the execution
    static __attribute__((no_sanitize("thread"), noinline)) int count() { return made++; }
    static __attribute__((no_sanitize("thread"), noinline)) void gone() { destroyed++; }
    Obj(const Obj &) = delete;
};
void reset() { made = destroyed = 0; }
typedef SmartObjectPool<Obj> Pool;
typedef Pool::ptr_type Ptr;
// plain accesses: two holders of one object would race
void use(Obj &o, long v)
{
    o.a = v;
    o.b = ~v;
    mc::check(o.a == v && o.b == ~v, "nobody else touches a held object");
}
// what is left in the pool: exactly size objects, all different
void full(Pool &p, int size, long fails)
{
    std::vector<Ptr> v;
    std::vector<int> serials;
    for (int i = 0; i < size; i++) {
        try {
            v.push_back(p.acquire());
        } catch (const std::out_of_range &) {
            mc::fail("every released object is back in the pool");
        }
        serials.push_back(v.back()->serial);
        mc::check(v.back()->b == ~v.back()->a || (v.back()->a == 0 && v.back()->b == 0), "a returned object is whole");
    }
    std::sort(serials.begin(), serials.end());
    for (int i = 0; i < size; i++)
        mc::check(serials[i] == i, "the pool holds each of its objects once");
    bool threw = false;
    try {
        auto x = p.acquire();
    } catch (const std::out_of_range &) {
        threw = true;
    }
    mc::check(threw, "an exhausted pool says so");
    mc::check(p.objectPoolFails == fails + 1, "failed acquisitions are counted", [&] { return std::to_string((long) p.objectPoolFails) + " not " + std::to_string(fails + 1); });
}
mc::Options opt(int a, int b, int st0 = 0, int st1 = 1)
{
    mc::Options o;
    o.preempt[0] = a;
    o.preempt[1] = b;
    o.stale[0] = st0;
    o.stale[1] = st1;
    o.leak = true;
    return o;
}
enum Op { GET, PUT, SHARE, DROP, MOVE, NOP };
const char *const names[] = {"get", "put", "share", "drop", "move"};
// every sequence on one thread
bool sequence(Odo &o, int depth)
{
    mc::Case one;
    reset();
    int size = 1 + o.pick(3), fin = o.pick(2), keep = o.pick(2);
    long fails = 0, finals = 0, inits = 0;
    std::vector<Ptr> held;
    std::vector<std::shared_ptr<Obj>> shared;
    {
        Pool p("p", size, [&](Obj &x) {
            x.inits++;
            inits++;
        }, fin ? std::function<void(Obj &)>([&](Obj &x) {
            x.finals++;
            finals++;
        }) : nullptr);
        mc::check(made == size && inits == size, "the pool makes and initialises its objects once");
        std::string trace = "size " + std::to_string(size);
        for (int d = 0; d < depth; d++) {
            int k = o.pick(5);
            trace += std::string(" ") + names[k];
            switch (k) {
            case GET:
                try {
                    held.push_back(p.acquire());
                    mc::check((int) (held.size() + shared.size()) <= size, "no more objects are out than there are", [&] { return trace; });
                    for (size_t i = 0; i + 1 < held.size(); i++)
                        mc::check(held[i].get() != held.back().get(), "an object has one holder");
                    for (auto &s : shared)
                        mc::check(s.get() != held.back().get(), "an object has one holder");
                    mc::check(held.back()->inits == 1 && held.back()->finals == 0, "an object is initialised once and not finalised while in use");
                    use(*held.back(), d + 1);
                } catch (const std::out_of_range &) {
                    fails++;
                    mc::check((int) (held.size() + shared.size()) == size, "an acquisition fails only when everything is out", [&] { return trace; });
                }
                break;
            case PUT:
                if (!held.empty())
                    held.erase(held.begin());
                break;
            case SHARE:
                if (!held.empty()) {
                    shared.emplace_back(std::move(held.back()));
                    held.pop_back();
                }
                break;
            case DROP:
                if (!shared.empty())
                    shared.erase(shared.begin());
                break;
            case MOVE:
                if (!held.empty()) {
                    Ptr x = std::move(held.back());
                    held.back() = std::move(x);
                    mc::check(held.back() != nullptr, "ownership moves with the pointer");
                }
                break;
            }
            mc::check(p.objectPoolFails == fails && made == size && destroyed == 0, "the pool makes and destroys nothing in use", [&] { return trace; });
        }
        if (!keep) {
            held.clear();
            shared.clear();
            full(p, size, fails);
        }
    }
    int out = (int) (held.size() + shared.size());
    mc::check(destroyed == size - out, "destroying the pool destroys what is in it and nothing that is held");
    mc::check(finals == (fin ? size - out : 0), "each object left in the pool is finalised once");
    for (auto &h : held)
        use(*h, 77);
    held.clear();
    shared.clear();
    mc::check(destroyed == size && made == size, "every object is destroyed exactly once");
    return o.next();
}
MC_SCENARIO(sequences)
{
    Odo o;
    while (sequence(o, mc::thorough() ? 8 : 6));
}
// pools of many objects, on one thread: runs of acquisitions and releases, from either end
MC_SCENARIO(sizes, o = opt(0, 0))
{
    static const int sizes[] = {1, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000};
    int size = sizes[mc::choose(sizeof sizes / sizeof *sizes, "size")];
    const int runs[] = {0, 1, size / 2, size + 1};
    reset();
    {
        Pool p("p", size, [](Obj &x) { x.inits++; });
        mc::check(made == size, "the pool makes its objects once");
        std::vector<Ptr> held;
        long fails = 0;
        for (int d = 0; d < 4; d++) {
            int n = runs[mc::choose(4, "run")], back = d % 2 ? mc::choose(2, "end") : 0;
            for (int i = 0; i < n; i++)
                if (d % 2 == 0) {
                    try {
                        held.push_back(p.acquire());
                        mc::check((int) held.size() <= size && held.back()->inits == 1, "no more objects are out than there are");
                        mc::check(held.back()->a == 0, "an object has one holder");
                        use(*held.back(), i + 1);
                    } catch (const std::out_of_range &) {
                        fails++;
                        mc::check((int) held.size() == size, "an acquisition fails only when everything is out");
                    }
                } else if (!held.empty()) {
                    auto x = back ? held.end() - 1 : held.begin();
                    use(**x, 0);
                    (*x)->b = 0;
                    held.erase(x);
                }
        }
        for (auto &h : held)
            use(*h, 0);
        held.clear();
        full(p, size, fails);
    }
    mc::check(made == size && destroyed == size, "every object is destroyed exactly once");
}
struct State
{
    int out = 0, size = 0;
};
// threads that acquire and release
void threads(int size, int nthreads, int rounds, int held, bool realTime = true)
{
    reset();
    mc::History h;
    {
        Pool p("p", size);
        long fails[3] = {0, 0, 0};
        auto run = [&](int t) {
            for (int r = 0; r < rounds; r++) {
                std::vector<Ptr> mine;
                for (int i = 0; i < held; i++) {
                    int k = h.begin(GET, 0);
                    bool got = true;
                    try {
                        mine.push_back(p.acquire());
                        use(*mine.back(), t * 10 + r + 1);
                    } catch (const std::out_of_range &) {
                        fails[t]++;
                        got = false;
                    }
                    h.end(k, got);
                }
                for (auto &m : mine) {
                    mc::check(m->b == ~m->a, "nobody else touches a held object");
                    int k = h.begin(PUT, 0);
                    if (r & 1)
                        m.reset();
                    else {
                        std::shared_ptr<Obj> s(std::move(m));
                        s.reset();
                    }
                    h.end(k, 1);
                }
            }
        };
        std::vector<std::thread> ts;
        for (int t = 1; t < nthreads; t++)
            ts.emplace_back(run, t);
        run(0);
        for (auto &t : ts)
            t.join();
        State s;
        s.size = size;
        // where loads may be stale, a release not ordered before an acquisition need not be seen by it
        mc::check(!realTime || mc::linearizable(h, s, [](State &x, const mc::Op &o, const mc::History &) {
                      if (o.kind == PUT) {
                          x.out--;
                          return true;
                      }
                      if (!o.res)
                          return x.out == x.size;
                      return x.out++ < x.size;
                  }),
                  "an acquisition fails exactly when everything is out");
        full(p, size, fails[0] + fails[1] + fails[2]);
        mc::observe(fails[0] * 16 + fails[1] * 4 + fails[2]);
    }
    mc::check(made == size && destroyed == size, "every object is destroyed exactly once");
}
MC_SCENARIO(two_threads, o = opt(3, 4))
{
    threads(1 + mc::choose(2, "size"), 2, mc::thorough() ? 3 : 2, 1);
}
MC_SCENARIO(two_threads_holding_two, o = opt(3, 4))
{
    threads(1 + mc::choose(3, "size"), 2, mc::thorough() ? 2 : 1, 2);
}
MC_SCENARIO(two_threads_stale, o = opt(1, 2, 1, 2))
{
    threads(1 + mc::choose(2, "size"), 2, 2, 1, false);
}
MC_SCENARIO(three_threads, o = opt(2, 3))
{
    threads(1 + mc::choose(3, "size"), 3, 1, 1);
}
// objects handed from thread to thread
MC_SCENARIO(handed_over, o = opt(2, 3))
{
    reset();
    {
        Pool p("p", 1 + mc::choose(2, "size"));
        std::shared_ptr<Obj> s(p.acquire());
        use(*s, 1);
        std::thread t([s] { mc::check(s->a == 1 && s->b == ~1l, "a shared object keeps its contents"); });
        s.reset();
        long out = 1;
        try {
            auto q = p.acquire();
            use(*q, 2);
            out = 0;
        } catch (const std::out_of_range &) {
        }
        t.join();
        mc::observe(out);
    }
    mc::check(made == destroyed, "every object is destroyed exactly once");
}
// the pool is destroyed while an object is on its way back from another thread
MC_SCENARIO(outlived, o = opt(4, 6))
{
    reset();
    int size = 1 + mc::choose(2, "size"), fin = mc::choose(2, "finalizer");
    int finals = 0;
    std::thread t;
    {
        Pool p("p", size, nullptr, fin ? std::function<void(Obj &)>([&](Obj &) { finals++; }) : nullptr);
        auto x = std::make_shared<Ptr>(p.acquire());
        t = std::thread([x] {
            use(**x, 5);
            x->reset();
        });
        x.reset();
    }
    t.join();
    mc::check(made == size && destroyed == size, "every object is destroyed exactly once");
    mc::check(fin ? finals == size || finals == size - 1 : finals == 0, "each object left in the pool is finalised once");
    mc::observe(finals);
}
// ---- longer, with more threads and more objects: while there is an object for everyone nobody goes without
void traffic(int size, int nthreads, int rounds, int hold)
{
    reset();
    long fails[8] = {};
    {
        Pool p("p", size);
        auto run = [&](int t) {
            std::vector<Ptr> mine;
            std::vector<std::shared_ptr<Obj>> shared;
            for (int r = 0; r < rounds; r++) {
                while ((int) (mine.size() + shared.size()) < 1 + (r + t) % hold) {
                    try {
                        Ptr x = p.acquire();
                        use(*x, t * 1000 + r);
                        if (r % 3)
                            mine.push_back(std::move(x));
                        else
                            shared.emplace_back(std::move(x));
                    } catch (const std::out_of_range &) {
                        mc::check(size < nthreads * hold, "an acquisition fails only when everything is out");
                        fails[t]++;
                        break;
                    }
                }
                for (auto &m : mine)
                    mc::check(m->b == ~m->a && m->a / 1000 == t, "nobody else touches a held object");
                for (auto &m : shared)
                    mc::check(m->b == ~m->a && m->a / 1000 == t, "nobody else touches a held object");
                if (r % 4 == 3)
                    continue;
                if (!mine.empty())
                    mine.erase(mine.begin());
                if (r % 2)
                    mine.clear();
                if (r % 5 > 1)
                    shared.clear();
            }
        };
        std::vector<std::thread> ts;
        for (int t = 1; t < nthreads; t++)
            ts.emplace_back(run, t);
        run(0);
        long sum = 0;
        for (auto &t : ts)
            t.join();
        for (long f : fails)
            sum += f;
        full(p, size, sum);
        mc::observe(sum);
    }
    mc::check(made == size && destroyed == size, "every object is destroyed exactly once");
}
mc::Options deep(int a, int b)
{
    mc::Options o = opt(a, b, 0, 0);
    o.delays = true;
    return o;
}
MC_SCENARIO(traffic_tight, o = deep(2, 3)) { traffic(2 + mc::choose(3), 3, 4, 2); }
MC_SCENARIO(traffic_room, o = deep(1, 2)) { traffic(8, 4, 10, 2); }
MC_SCENARIO(traffic_long, o = deep(1, 2)) { traffic(5, 2, 80, 3); }
MC_SCENARIO(traffic_large, o = deep(1, 1)) { traffic(90, 3, 12, 30); }
} // namespace
#include "main.inc"

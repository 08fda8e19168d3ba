// C14 pooled publishing: one delivery per publication, contents that stay put while anybody holds them
#include "enumerate.h"
#include <condition_variable>
#include <deque>
#include <klepsydra/core/event_emitter_publisher.h>
#include <klepsydra/core/safe_event_emitter.h>
#include <klepsydra/core/object_pool_publisher.h>
#include <memory>
#include <mutex>
#include <thread>
using namespace kpsr;
namespace {
int made, gone;
struct Ev
{
    long a = 0, b = 0, tag = 0;
    Ev() { count(made); }
    Ev(const Ev &o) : a(o.a), b(o.b), tag(o.tag) { count(made); }
    Ev &operator=(const Ev &) = default;
    ~Ev()
    {
        a = b = -1;
        count(gone);
    }
    static __attribute__((no_sanitize("thread"), noinline)) void count(int &n) { n++; }
};
Ev ev(long v)
{
    Ev e;
    e.a = v;
    e.b = ~v;
    return e;
}
typedef std::shared_ptr<const Ev> Held;
struct Pub : public ObjectPoolPublisher<Ev>
{
    std::function<void(Held)> sink;
    Pub(int pool, std::function<void(Ev &)> init, std::function<void(const Ev &, Ev &)> clone, std::function<void(Ev &)> fin = nullptr)
        : ObjectPoolPublisher<Ev>(nullptr, "topic", "TEST", pool, init, clone, fin)
    {}
    using ObjectPoolPublisher<Ev>::internalPublish;
    void internalPublish(Held e) override { sink(e); }
};
mc::Options opt(int a, int b)
{
    mc::Options o;
    o.preempt[0] = a;
    o.preempt[1] = b;
    o.leak = true;
    return o;
}
struct Failure
{};
void fail(long v)
{
    if (v % 2)
        throw std::runtime_error("failing");
    throw Failure();
}
enum Op { COPY, SHARED, PROCESS, DROP_OLD, DROP_NEW, CLONE_FAILS, PROCESS_FAILS, OPS };
const char *const names[] = {"publish", "publish shared", "process", "drop oldest", "drop newest", "failing clone", "failing process"};
bool sequence(Odo &o, int depth)
{
    mc::Case one;
    made = gone = 0;
    int pool = o.pick(3), init = o.pick(2), clone = o.pick(2), fin = pool ? o.pick(2) : 0;
    std::string trace = std::to_string(pool) + " in the pool" + (init ? ", initializer" : "") + (clone ? ", cloner" : "") + (fin ? ", finalizer" : "");
    bool failing = false;
    long finals = 0, v = 0, delivered = 0, allocations = pool, pooledOut = 0;
    struct H
    {
        Held e;
        long a, b, tag;
        bool pooled, shared;
    };
    std::deque<H> held;
    {
        Held last;
        std::unique_ptr<Pub> p(new Pub(
            pool, init ? std::function<void(Ev &)>([](Ev &e) { e.tag = 7, e.b = 5; }) : nullptr,
            clone ? std::function<void(const Ev &, Ev &)>([&](const Ev &from, Ev &to) {
                if (failing)
                    fail(v);
                to.a = from.a;
                to.b = from.b;
            })
                  : nullptr,
            fin ? std::function<void(Ev &)>([&](Ev &) { finals++; }) : nullptr));
        p->sink = [&](Held e) {
            delivered++;
            last = e;
        };
        auto take = [&](long a, long b, long tag, bool tagKnown, const Ev *same) {
            mc::check(delivered == 1 && last != nullptr, "a publication delivers exactly one event", [&] { return trace; });
            mc::check(last->a == a && last->b == b && (!tagKnown || last->tag == tag), "the event delivered has the contents published",
                      [&] { return trace + mc::str(std::vector<long>{last->a, last->b, last->tag}); });
            for (auto &h : held)
                mc::check(h.shared || h.e.get() != last.get(), "an event still held is not used again", [&] { return trace; });
            if (same)
                mc::check(last.get() == same, "a shared event is passed on as it is", [&] { return trace; });
            bool pooled = !same && pooledOut < pool;
            held.push_back({last, a, b, last->tag, pooled, same != nullptr});
            if (!same) {
                if (pooled)
                    pooledOut++;
                else
                    allocations++;
            }
            last.reset();
        };
        auto drop = [&](std::deque<H>::iterator i) {
            pooledOut -= i->pooled;
            held.erase(i);
        };
        for (int d = 0; d < depth; d++) {
            int op = o.pick(OPS);
            if ((op == DROP_OLD || op == DROP_NEW) && held.empty())
                break;
            if ((op == DROP_NEW && held.size() < 2) || (op == CLONE_FAILS && !clone))
                break;
            trace += std::string("; ") + names[op];
            delivered = 0;
            v++;
            switch (op) {
            case COPY: {
                Ev e = ev(v);
                e.tag = 9;
                p->publish(e);
                // a cloner that leaves the tag alone leaves the initializer's, even in an event used before
                take(v, ~v, clone ? 7 : 9, !clone || init, nullptr);
                break;
            }
            case SHARED: {
                auto e = std::make_shared<Ev>(ev(v));
                p->publish(Held(e));
                take(v, ~v, 0, true, e.get());
                break;
            }
            case PROCESS:
                p->processAndPublish([&](Ev &e) {
                    mc::check(!init || (e.tag == 7 && e.b == 5), "an event to be filled in is initialised", [&] { return trace; });
                    e.a = v;
                    if (!init)
                        e.b = 5;
                    e.tag = 8;
                });
                take(v, 5, 8, true, nullptr);
                if (init && clone) { // leave it as the initializer did for a later copy
                    const_cast<Ev *>(held.back().e.get())->tag = 7;
                    held.back().tag = 7;
                }
                break;
            case CLONE_FAILS:
            case PROCESS_FAILS: {
                bool threw = false, pooled = pooledOut < pool;
                try {
                    failing = true;
                    if (op == CLONE_FAILS)
                        p->publish(ev(v));
                    else
                        p->processAndPublish([&](Ev &) { fail(v); });
                } catch (const Failure &) {
                    threw = !(v % 2);
                } catch (const std::runtime_error &) {
                    threw = v % 2;
                }
                failing = false;
                mc::check(threw && delivered == 0 && !last, "an event that could not be filled in is not published", [&] { return trace; });
                if (!pooled)
                    allocations++;
                break;
            }
            case DROP_OLD: drop(held.begin()); break;
            case DROP_NEW: drop(held.end() - 1); break;
            }
            for (auto &h : held)
                mc::check(h.e->a == h.a && h.e->b == h.b && h.e->tag == h.tag, "an event keeps its contents while it is held", [&] { return trace; });
            mc::check(p->publicationStats._totalEventAllocations == allocations, "allocated events are counted", [&] {
                return trace + ": " + std::to_string((long) p->publicationStats._totalEventAllocations) + " not " + std::to_string(allocations);
            });
            mc::check(made - gone >= pool, "released events stay in the pool", [&] { return trace; });
        }
        int out = 0, foreign = 0;
        for (auto &h : held)
            (h.pooled ? out : foreign)++;
        mc::check(made - gone == pool + foreign, "an event beyond the pool goes when it is released", [&] { return trace; });
        p.reset();
        mc::check(!fin || finals == pool - out, "the finalizer runs for each object in the pool", [&] { return trace; });
        for (auto &h : held)
            mc::check(h.e->a == h.a && h.e->b == h.b && h.e->tag == h.tag, "an event outlives its publisher", [&] { return trace; });
        mc::check(made - gone == (int) held.size(), "the pool goes with the publisher", [&] { return trace; });
        held.clear();
    }
    mc::check(made == gone, "every event is destroyed once", [&] { return trace; });
    return o.next();
}
MC_SCENARIO(histories, o = opt(0, 0))
{
    Odo o;
    while (sequence(o, mc::thorough() ? 6 : 5))
        ;
}
// a receiver that keeps what it gets: two publishers, another thread letting go
struct Box
{
    std::mutex m;
    std::condition_variable cv;
    std::deque<Held> q;
    int taken = 0;
    void put(Held e)
    {
        std::lock_guard<std::mutex> l(m);
        q.push_back(std::move(e));
        cv.notify_all();
    }
    Held get()
    {
        std::unique_lock<std::mutex> l(m);
        while (q.empty())
            cv.wait(l);
        Held e = std::move(q.front());
        q.pop_front();
        taken++;
        return e;
    }
};
void publishOne(ObjectPoolPublisher<Ev> &p, long v, int how)
{
    if (how)
        p.processAndPublish([v](Ev &e) { e = ev(v); });
    else
        static_cast<Publisher<Ev> &>(p).publish(ev(v));
}
void sound(const Held &e) { mc::check(e->b == ~e->a && e->a > 0, "an event keeps its contents while it is held"); }
MC_SCENARIO(two_publishers, o = opt(2, 3))
{
    int pool = 1 + mc::choose(2, "pool"), how = mc::choose(2, "how"), keep = mc::choose(2, "keep");
    made = gone = 0;
    {
        Box box;
        {
            Pub p(pool, nullptr, nullptr);
            p.sink = [&](Held e) { box.put(e); };
            std::thread a([&] {
                publishOne(p, 1, how);
                publishOne(p, 2, 0);
            });
            std::thread r([&] {
                std::vector<Held> mine;
                for (int i = 0; i < 3; i++) {
                    Held e = box.get();
                    sound(e);
                    mc::rec(0, e->a);
                    if (keep)
                        mine.push_back(e);
                    for (auto &h : mine)
                        sound(h);
                }
                for (size_t i = 0; i < mine.size(); i++)
                    mc::check(mine[i]->a == mc::recs(0)[i], "an event keeps its contents while it is held");
            });
            publishOne(p, 3, !how);
            a.join();
            r.join();
            mc::check(p.publicationStats._totalEventAllocations >= pool && p.publicationStats._totalEventAllocations <= 3 + pool, "allocated events are counted");
            mc::check(made - gone == pool, "every pooled event comes back");
        }
    }
    auto v = mc::recs(0);
    mc::observe(v);
    std::sort(v.begin(), v.end());
    mc::check(v == std::vector<long>{1, 2, 3}, "each event is delivered exactly once", [&] { return mc::str(v); });
    mc::check(made == gone, "every event is destroyed once");
}
// the receiver lets go while the publisher publishes on, and may be the last to go
MC_SCENARIO(late_release, o = opt(3, 4))
{
    int pool = 1 + mc::choose(2, "pool"), early = mc::choose(2, "publisher gone first");
    made = gone = 0;
    {
        Box box;
        std::unique_ptr<Pub> p(new Pub(pool, [](Ev &e) { e.tag = 1; }, nullptr, [](Ev &e) { e.tag = 2; }));
        p->sink = [&](Held e) { box.put(e); };
        std::thread r([&] {
            for (int i = 1; i <= 2; i++) {
                Held e = box.get();
                sound(e);
                std::this_thread::yield();
                mc::check(e->a == i && e->b == ~(long) i, "an event keeps its contents while it is held");
            }
        });
        for (int i = 1; i <= 2; i++)
            publishOne(*p, i, 0);
        if (early)
            p.reset();
        r.join();
        if (!early)
            mc::check(made - gone == pool, "every pooled event comes back");
    }
    mc::check(made == gone, "every event is destroyed once");
}
// several receivers of one event through the emitter: all see it whole, and it is reused after the last
MC_SCENARIO(shared_receivers, o = opt(2, 3))
{
    int pool = 1 + mc::choose(2, "pool");
    made = gone = 0;
    {
        std::shared_ptr<EventEmitterInterface<Held>> emitter = std::make_shared<SafeEventEmitter<Held>>();
        EventEmitterPublisher<Ev> p(nullptr, "topic", emitter, pool, nullptr, nullptr);
        Box a, b;
        emitter->on(nullptr, "a", "topic", [&](const Held &x) { a.put(x); });
        emitter->on(nullptr, "b", "topic", [&](const Held &x) { b.put(x); });
        auto read = [](Box *x, int ch) {
            for (int i = 0; i < 3; i++) {
                Held h = x->get();
                sound(h);
                mc::rec(ch, h->a);
            }
        };
        std::thread t(read, &a, 0);
        for (int i = 1; i <= 3; i++)
            publishOne(p, i, 0);
        read(&b, 1);
        t.join();
    }
    mc::check(mc::recs(0) == std::vector<long>{1, 2, 3} && mc::recs(1) == mc::recs(0), "each receiver gets every event once");
    mc::check(made == gone, "every event is destroyed once");
}
// ---- longer: several publishers and a receiver that keeps the last few events
void traffic(int pool, int publishers, int each, int window, bool early)
{
    made = gone = 0;
    {
        Box box;
        std::unique_ptr<Pub> p(new Pub(pool, nullptr, nullptr));
        p->sink = [&](Held e) { box.put(e); };
        auto feed = [&](int t) {
            for (int i = 1; i <= each; i++)
                publishOne(*p, t * 1000 + i, (i + t) % 3 == 0);
        };
        std::thread r([&] {
            std::deque<std::pair<Held, long>> mine;
            for (int i = 0; i < publishers * each; i++) {
                Held e = box.get();
                sound(e);
                mc::rec(0, e->a);
                mine.emplace_back(e, e->a);
                for (auto &h : mine)
                    mc::check(h.first->a == h.second && h.first->b == ~h.second, "an event keeps its contents while it is held");
                if ((int) mine.size() > window)
                    mine.pop_front();
            }
        });
        std::vector<std::thread> ts;
        for (int t = 1; t < publishers; t++)
            ts.emplace_back(feed, t);
        feed(0);
        for (auto &t : ts)
            t.join();
        if (early)
            p.reset();
        r.join();
        if (!early)
            mc::check(made - gone == pool, "every pooled event comes back");
    }
    auto v = mc::recs(0);
    std::vector<long> w;
    for (int t = 0; t < publishers; t++) {
        long last = 0;
        for (long x : v)
            if (x / 1000 == t) {
                mc::check(x > last, "the events of a thread are delivered in their order");
                last = x;
            }
        for (int i = 1; i <= each; i++)
            w.push_back(t * 1000 + i);
    }
    std::sort(v.begin(), v.end());
    mc::check(v == w, "each event is delivered exactly once", [&] { return mc::str(v); });
    mc::check(made == gone, "every event is destroyed once");
}
mc::Options deep(int a, int b)
{
    mc::Options o = opt(a, b);
    o.delays = true;
    return o;
}
MC_SCENARIO(traffic_three, o = deep(2, 3)) { traffic(1 + 2 * mc::choose(2), 3, 3, 2, mc::choose(2)); }
MC_SCENARIO(traffic_long, o = deep(1, 2)) { traffic(4, 2, 30, 6, mc::choose(2)); }
MC_SCENARIO(traffic_large, o = deep(0, 1)) { traffic(70, 2, 120, 66, mc::choose(2)); }
} // namespace
#include "main.inc"

// what the in-memory middleware harnesses (C22, C23) share; PROVIDER is the provider under test
#include "enumerate.h"
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
using namespace kpsr;
using namespace kpsr::mem;
namespace {
struct Ev
{
    long a = 0, b = 0;
};
Ev ev(long v)
{
    Ev e;
    e.a = v;
    e.b = ~v;
    return e;
}
typedef PROVIDER<Ev> Provider;
// counts deliveries and lets a thread wait for them without a deadline
struct Seen
{
    std::mutex m;
    std::condition_variable cv;
    int n = 0;
    void one()
    {
        std::lock_guard<std::mutex> l(m);
        n++;
        cv.notify_all();
    }
    void wait(int k)
    {
        std::unique_lock<std::mutex> l(m);
        while (n < k)
            cv.wait(l);
    }
    int now()
    {
        std::lock_guard<std::mutex> l(m);
        return n;
    }
};
void intact(const Ev &e) { mc::check(e.b == ~e.a, "an event arrives with the contents it was published with"); }
void listen(Provider &p, Seen &s, int ch, const char *name)
{
    p.getSubscriber()->registerListener(name, [&s, ch](const Ev &e) {
        intact(e);
        mc::rec(ch, e.a);
        s.one();
    });
}
std::vector<long> upTo(long n)
{
    std::vector<long> v;
    for (long i = 1; i <= n; i++)
        v.push_back(i);
    return v;
}
mc::Options opt(int a, int b, int t0 = 0, int t1 = 1)
{
    mc::Options o;
    o.preempt[0] = a;
    o.preempt[1] = b;
    o.timers[0] = t0;
    o.timers[1] = t1;
    o.leak = true;
    return o;
}
mc::Options deep(int a, int b)
{
    mc::Options o = opt(a, b, 0, 0);
    o.delays = true;
    return o;
}
// an event published as a shared object arrives as that object, under any topic and listener name
template<class Make>
void sharedArrives(Make make)
{
    Seen s;
    std::vector<const Ev *> sent, got;
    const std::string names[] = {"l", "", "topic", std::string(100, 'x'), "a b%s{}"};
    std::string name = names[mc::choose(5, "name")];
    int keep = mc::choose(2, "keep");
    {
        auto p = make();
        std::vector<std::shared_ptr<const Ev>> kept;
        static_cast<EventEmitterSubscriber<Ev> *>(p->getSubscriber())->registerSharedPtrListener(name, [&](const std::shared_ptr<const Ev> &e) {
            intact(*e);
            got.push_back(e.get());
            if (keep)
                kept.push_back(e);
            s.one();
        });
        p->start();
        for (int i = 1; i <= 3; i++) {
            auto e = std::make_shared<const Ev>(ev(i));
            std::weak_ptr<const Ev> w = e;
            sent.push_back(e.get());
            p->getPublisher()->publish(e);
            s.wait(i);
            if (!keep) {
                e.reset();
                while (!w.expired())
                    std::this_thread::yield();
            }
        }
        p->stop();
        for (size_t i = 0; i < kept.size(); i++)
            mc::check(kept[i]->a == (long) i + 1, "an event a listener keeps does not change");
    }
    mc::check(keep ? got == sent : got.size() == sent.size(), "a shared event is delivered without a copy");
}
// a publisher waits for room however long it takes: the middleware not started yet, or a listener busy
template<class Make>
void patient(Make make, int cap, int slack = 0)
{
    const long WAITS[] = {1, 20, mc::thorough() ? 1500 : 40};
    long ms = WAITS[mc::choose(3, "how long")];
    bool busy = mc::choose(2, "busy listener");
    const int N = cap + 3;
    Seen s;
    std::atomic<bool> in{false}, out{!busy};
    std::atomic<int> returned{0};
    {
        auto p = make();
        p->getSubscriber()->registerListener("l", [&](const Ev &e) {
            intact(e);
            in = true;
            while (!out)
                std::this_thread::sleep_for(std::chrono::milliseconds(1));
            mc::rec(0, e.a);
            s.one();
        });
        if (busy) {
            p->start();
            p->getPublisher()->publish(ev(1));
            while (!in)
                std::this_thread::yield();
        }
        std::thread t([&] {
            for (int i = 1 + busy; i <= N; i++) {
                p->getPublisher()->publish(ev(i));
                returned++;
            }
        });
        std::this_thread::sleep_for(std::chrono::milliseconds(ms));
        mc::check(returned <= cap && returned >= cap - (busy ? slack : 0), "a publisher fills the queue and then waits until there is room", [&] { return std::to_string(returned) + " published into a queue of " + std::to_string(cap); });
        if (!busy)
            p->start();
        out = true;
        t.join();
        s.wait(N);
        p->stop();
        mc::check(p->getPublisher()->publicationStats.totalDiscardedEvents == 0, "a blocking queue discards nothing");
    }
    mc::check(mc::recs(0) == upTo(N), "every event is delivered exactly once and in order", [&] { return mc::str(mc::recs(0)); });
}
// a listener that fails on one event: it and the others go on with the next ones, and the end is as clean as ever
template<class Make>
void throwing(Make make)
{
    int fails = 1 + mc::choose(3, "fails on"), kind = mc::choose(3, "what is thrown"), end = mc::choose(3, "end");
    const int N = 4;
    Seen s;
    std::vector<long> others = upTo(N);
    {
        auto p = make();
        p->getSubscriber()->registerListener("l", [&](const Ev &e) {
            intact(e);
            mc::rec(0, e.a);
            s.one();
            if (e.a == fails) {
                if (kind == 0)
                    throw std::runtime_error("listener");
                if (kind == 1)
                    throw std::bad_alloc();
                throw std::out_of_range("");
            }
        });
        p->start();
        for (int i = 1; i <= 3; i++)
            p->getPublisher()->publish(ev(i));
        s.wait(3);
        mc::check(p->isRunning(), "a middleware with a failing listener keeps running");
        if (end == 1) {
            p->stop();
            mc::check(!p->isRunning(), "a stopped middleware is not running");
            p->start();
        }
        p->getPublisher()->publish(ev(4));
        s.wait(4);
        if (end)
            p->stop();
    }
    mc::check(mc::recs(0) == others, "a failing listener costs no later event and repeats none", [&] { return mc::str(mc::recs(0)); });
}
// however long the listener takes: stopping and destroying wait for it
template<class Make>
void slowly(Make make)
{
    const int ms[] = {5, 150, 2500};
    int nap = ms[mc::choose(3, "how long")], end = mc::choose(3, "end"), before = mc::choose(2);
    std::atomic<int> inside{0}, n{0};
    {
        auto p = make();
        p->getSubscriber()->registerListener("l", [&](const Ev &e) {
            intact(e);
            mc::check(inside.exchange(1) == 0, "a listener handles one event at a time");
            std::this_thread::sleep_for(std::chrono::milliseconds(nap));
            inside = 0;
            n++;
            mc::rec(0, e.a);
        });
        p->start();
        p->getPublisher()->publish(ev(1));
        p->getPublisher()->publish(ev(2));
        if (before)
            while (!inside)
                std::this_thread::yield();
        if (end) {
            p->stop();
            int was = n;
            mc::check(inside == 0 && !p->isRunning(), "stopping waits for the listener that runs");
            mc::check(!before || n >= 1, "a listener that runs is not cut short");
            std::this_thread::sleep_for(std::chrono::milliseconds(nap * 3));
            mc::check(n == was && inside == 0, "a stopped middleware delivers nothing");
        }
        if (end == 2) {
            p->start();
            while (n < 2)
                std::this_thread::sleep_for(std::chrono::milliseconds(1));
            p->stop();
            mc::check(mc::recs(0) == upTo(2), "a restarted middleware goes on where it stopped");
        }
    }
    int was = n;
    mc::check(inside == 0, "destruction waits for the listener that runs");
    std::this_thread::sleep_for(std::chrono::milliseconds(nap * 3));
    mc::check(n == was && inside == 0, "nothing is delivered after the destruction");
}
// one failure after the other
template<class Make>
void failing(Make make)
{
    const int N = 40;
    int kind = mc::choose(3, "what is thrown");
    Seen s;
    {
        auto p = make();
        p->getSubscriber()->registerListener("l", [&](const Ev &e) {
            intact(e);
            mc::rec(0, e.a);
            s.one();
            if (kind == 0)
                throw std::runtime_error("listener");
            if (kind == 1)
                throw std::bad_alloc();
            throw std::out_of_range("");
        });
        p->start();
        for (int i = 1; i <= N; i++) {
            p->getPublisher()->publish(ev(i));
            s.wait(i);
        }
        mc::check(p->isRunning(), "a middleware with a failing listener keeps running");
        p->stop();
    }
    mc::check(mc::recs(0) == upTo(N), "a failing listener costs no later event and repeats none", [&] { return mc::str(mc::recs(0)); });
}
void isPrefix(const std::vector<long> &v, const char *what)
{
    mc::check(v == upTo((long) v.size()), what, [&] { return mc::str(v); });
}
} // namespace

// C23 concurrent-queue middleware: every event of the publishing thread delivered once and in order, clean stop, restart and destruction
// @repo: core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
// the real lock-free queue, in blocks of two elements instead of 32 so that it is full after a few
#define ConcurrentQueue RealConcurrentQueue
#include <concurrentqueue.h>
#undef ConcurrentQueue
namespace moodycamel {
struct SmallTraits : public ConcurrentQueueDefaultTraits
{
    static const size_t BLOCK_SIZE = 2;
};
template<class T, class Traits = SmallTraits>
using ConcurrentQueue = RealConcurrentQueue<T, Traits>;
} // namespace moodycamel
#include <klepsydra/mem_core/concurrent_middleware_provider.h>
#define PROVIDER ConcurrentMiddlewareProvider
#include "inmem.h"
namespace {
std::unique_ptr<Provider> make(int queue, int pool, bool discard)
{
    return std::unique_ptr<Provider>(new Provider(nullptr, "topic", queue, pool, [](Ev &) {}, nullptr, discard, 100));
}
// publish from a thread (blocking queue), wait for everything, then end in each of the possible ways
MC_SCENARIO(all_delivered, o = opt(2, 3))
{
    int queue = 1 + mc::choose(2, "queue"), pool = 2 * mc::choose(2, "pool"), before = mc::choose(2, "before start"), end = mc::choose(3, "end");
    const int N = 3;
    Seen s;
    {
        auto p = make(queue, pool, false);
        listen(*p, s, 0, "l");
        if (before)
            p->getPublisher()->publish(ev(1));
        p->start();
        mc::check(p->isRunning(), "a started middleware is running");
        std::thread t([&] {
            for (int i = 1 + before; i <= N; i++)
                p->getPublisher()->publish(ev(i));
        });
        s.wait(N);
        t.join();
        if (end == 1) {
            p->stop();
            mc::check(!p->isRunning(), "a stopped middleware is not running");
        }
        if (end == 2) {
            p->stop();
            p->stop();
        }
    }
    mc::check(mc::recs(0) == upTo(N), "every event is delivered exactly once and in order", [&] { return mc::str(mc::recs(0)); });
}
// two listeners, one of them leaving and another one-off
MC_SCENARIO(each_listener, o = opt(1, 2))
{
    Seen s, once;
    {
        auto p = make(2, 2 * mc::choose(2, "pool"), false);
        listen(*p, s, 0, "l");
        listen(*p, s, 1, "k");
        p->getSubscriber()->registerListenerOnce([&](const Ev &e) {
            mc::rec(2, e.a);
            once.one();
        });
        p->start();
        for (int i = 1; i <= 3; i++)
            p->getPublisher()->publish(ev(i));
        s.wait(6);
        once.wait(1);
    }
    mc::check(mc::recs(0) == upTo(3) && mc::recs(1) == upTo(3) && mc::recs(2) == upTo(1), "each listener of the topic gets every event once");
}
// stop at any moment: nothing afterwards, what is left comes after a restart
MC_SCENARIO(stop_and_restart, o = opt(2, 3))
{
    int pool = 2 * mc::choose(2, "pool");
    Seen s;
    size_t atStop;
    {
        auto p = make(0, pool, false);
        listen(*p, s, 0, "l");
        p->start();
        std::thread t([&] {
            for (int i = 1; i <= 3; i++)
                p->getPublisher()->publish(ev(i));
        });
        p->stop();
        atStop = mc::recs(0).size();
        mc::check(!p->isRunning(), "a stopped middleware is not running");
        t.join();
        mc::check(mc::recs(0).size() == atStop, "nothing is delivered after stop has returned");
        isPrefix(mc::recs(0), "events come in order, each once");
        p->start();
        mc::check(p->isRunning(), "a restarted middleware is running");
        s.wait(3);
        mc::check(mc::recs(0) == upTo(3), "a restart delivers what the stop left queued");
    }
    mc::check(mc::recs(0).size() == 3, "each event is delivered once");
    mc::observe(atStop);
}
// start and stop repeatedly with events in between
MC_SCENARIO(start_stop_sequences, o = opt(1, 2))
{
    Seen s;
    int published = 0;
    bool running = false;
    std::vector<long> last;
    {
        auto p = make(0, 0, false);
        listen(*p, s, 0, "l");
        int steps = mc::thorough() ? 5 : 4;
        for (int i = 0; i < steps; i++) {
            switch (mc::choose(4, "step")) {
            case 0:
                p->start();
                running = true;
                break;
            case 1:
                p->stop();
                running = false;
                last = mc::recs(0);
                break;
            case 2: p->getPublisher()->publish(ev(++published)); break;
            case 3:
                if (running) {
                    s.wait(published);
                    last = mc::recs(0);
                    mc::check(last == upTo(published), "everything published is delivered once while running");
                }
                break;
            }
            mc::check(p->isRunning() == running, "running exactly between start and stop");
            if (!running)
                mc::check(mc::recs(0) == last, "nothing is delivered while stopped");
        }
    }
    isPrefix(mc::recs(0), "events come in order, each once");
    mc::check((int) mc::recs(0).size() <= published, "no event is invented");
}
// destruction at any moment after the start, with events queued or not
MC_SCENARIO(destroyed_while_running, o = opt(2, 3))
{
    int pool = 2 * mc::choose(2, "pool"), n = mc::choose(3, "events"), stopped = mc::choose(2, "stop first"), discard = mc::choose(2, "discard");
    Seen s;
    {
        auto p = make(2, pool, discard);
        listen(*p, s, 0, "l");
        p->start();
        for (int i = 1; i <= n; i++)
            p->getPublisher()->publish(ev(i));
        if (stopped)
            p->stop();
    }
    size_t after = mc::recs(0).size();
    isPrefix(mc::recs(0), "events come in order, each once");
    std::this_thread::sleep_for(std::chrono::milliseconds(5));
    mc::check(mc::recs(0).size() == after, "nothing is delivered after the destruction");
}
// listeners come and go while the poller runs
MC_SCENARIO(listeners_come_and_go, o = opt(2, 2))
{
    int leaves = mc::choose(2, "leaves");
    Seen s;
    {
        auto p = make(0, 0, false);
        listen(*p, s, 0, "l");
        if (leaves)
            p->getSubscriber()->registerListener("k", [](const Ev &e) { mc::rec(1, e.a); });
        p->start();
        p->getPublisher()->publish(ev(1));
        if (leaves)
            p->getSubscriber()->removeListener("k");
        else
            p->getSubscriber()->registerListener("k", [](const Ev &e) { mc::rec(1, e.a); });
        p->getPublisher()->publish(ev(2));
        s.wait(2);
    }
    mc::check(mc::recs(0) == upTo(2), "the other listener gets every event once");
    auto v = mc::recs(1);
    if (leaves)
        isPrefix(v, "a listener that leaves got the events up to then");
    if (leaves)
        mc::check(v.size() <= 1, "a listener that left gets nothing published later");
    else
        mc::check(v == upTo(2) || v == std::vector<long>{2}, "a listener that came gets everything published later");
}
// publication time stamps reach the listener's statistics only with a container: without one they cost nothing
MC_SCENARIO(transform_forward, o = opt(1, 1))
{
    Seen s;
    {
        auto p = make(0, 2 * mc::choose(2, "pool"), false);
        listen(*p, s, 0, "l");
        auto f = p->getProcessForwarder<long>([](const long &x, Ev &e) { e = ev(x); });
        p->start();
        for (long i = 1; i <= 2; i++)
            f->forwarderListenerFunction(i);
        s.wait(2);
    }
    mc::check(mc::recs(0) == upTo(2), "forwarded events are delivered once with what was put in");
}
// how many events a queue asked for this size takes
int capacity(int queue)
{
    moodycamel::ConcurrentQueue<EventData<const Ev>> q(queue, 1, 1);
    moodycamel::ProducerToken t(q);
    int n = 0;
    while (q.try_enqueue(t, EventData<const Ev>()))
        n++;
    return n;
}
// a full queue that discards: the oldest go, all are accounted for
MC_SCENARIO(discard_oldest, o = opt(2, 3))
{
    int queue = 1 + mc::choose(2, "queue"), pool = 3 * mc::choose(2, "pool"), started = mc::choose(3, "started");
    const int cap = capacity(queue), N = cap + 2;
    mc::check(cap >= queue, "the queue takes at least as many events as asked for");
    Seen s;
    {
        auto p = make(queue, pool, true);
        listen(*p, s, 0, "l");
        if (started == 1)
            p->start();
        for (int i = 1; i <= N; i++) {
            if (started == 2 && i == cap)
                p->start();
            p->getPublisher()->publish(ev(i));
        }
        long dropped = p->getPublisher()->publicationStats.totalDiscardedEvents;
        if (!started) {
            mc::check(dropped >= N - cap, "a publication to a full queue discards an event");
            p->start();
        }
        s.wait(N - (int) dropped);
        p->stop();
        auto v = mc::recs(0);
        mc::check((long) v.size() == N - dropped, "each event is either delivered or counted as discarded", [&] { return mc::str(v); });
        for (size_t i = 1; i < v.size(); i++)
            mc::check(v[i - 1] < v[i], "events come in order, each once", [&] { return mc::str(v); });
        if (!started)
            mc::check(v.front() == dropped + 1 && v.back() == N, "the oldest events are discarded", [&] { return mc::str(v); });
        mc::check(v.back() == N, "the newest event is not discarded", [&] { return mc::str(v); });
        mc::observe(v);
    }
}
// a full queue that blocks: publisher waits for the poller, nothing is lost
MC_SCENARIO(block_when_full, o = opt(1, 2))
{
    const int cap = capacity(1), N = cap + 2;
    Seen s;
    {
        auto p = make(1, 2 * mc::choose(2, "pool"), false);
        listen(*p, s, 0, "l");
        std::thread t([&] {
            for (int i = 1; i <= N; i++)
                p->getPublisher()->publish(ev(i));
        });
        if (mc::choose(2, "late")) // the publisher waits
            std::this_thread::sleep_for(std::chrono::microseconds(25));
        p->start();
        if (mc::choose(2, "pause")) {
            p->stop();
            p->start();
        }
        t.join();
        s.wait(N);
        p->stop();
        mc::check(p->getPublisher()->publicationStats.totalDiscardedEvents == 0, "a blocking queue discards nothing");
    }
    mc::check(mc::recs(0) == upTo(N), "every event is delivered exactly once and in order");
}
// many events through few blocks: blocks are reused again and again
MC_SCENARIO(blocks_reused, o = opt(1, 2))
{
    int rounds = 3, each = 1 + mc::choose(3, "each"), n = 0;
    Seen s;
    {
        auto p = make(2, 0, mc::choose(2, "discard"));
        listen(*p, s, 0, "l");
        p->start();
        for (int r = 0; r < rounds; r++) {
            for (int i = 0; i < each; i++)
                p->getPublisher()->publish(ev(++n));
            s.wait(n);
        }
    }
    mc::check(mc::recs(0) == upTo(n), "every event is delivered exactly once and in order");
}
// providers do not get in each other's way
MC_SCENARIO(two_providers, o = opt(2, 2))
{
    Seen s, r;
    {
        auto p = make(1, 0, false), q = make(1, 2, true);
        listen(*p, s, 0, "l");
        listen(*q, r, 1, "l");
        p->start();
        q->start();
        std::thread t([&] {
            for (int i = 1; i <= 2; i++)
                q->getPublisher()->publish(ev(i));
        });
        for (int i = 1; i <= 2; i++)
            p->getPublisher()->publish(ev(i));
        s.wait(2);
        t.join();
        p->stop();
        r.wait(2);
    }
    mc::check(mc::recs(0) == upTo(2) && mc::recs(1) == upTo(2), "every event is delivered exactly once and in order");
}
MC_SCENARIO(shared_without_copy, o = opt(0, 1, 0, 0))
{
    int queue = 2 * mc::choose(2, "queue"), pool = 2 * mc::choose(2, "pool"), discard = queue && mc::choose(2, "discard");
    sharedArrives([=] { return make(queue, pool, discard); });
}
MC_SCENARIO(throwing_listener, o = opt(1, 2))
{
    int queue = 4, pool = 2 * mc::choose(2, "pool");
    throwing([=] { return make(queue, pool, false); });
}
MC_SCENARIO(failing_listener, o = opt(0, 1))
{
    int queue = 4, pool = 2 * mc::choose(2, "pool");
    failing([=] { return make(queue, pool, false); });
}
MC_SCENARIO(ended_while_slow, o = opt(0, 1, 0, 0), o.naps = true, o.horizon = 4000000)
{
    int queue = 4, pool = 2 * mc::choose(2, "pool");
    slowly([=] { return make(queue, pool, false); });
}
MC_SCENARIO(patient_publisher, o = opt(0, 0, 0, 0), o.naps = true, o.horizon = 2000000)
{
    int queue = 1 + 2 * mc::choose(2, "queue"), pool = 2 * mc::choose(2, "pool");
    // a block is free again when both of its elements are taken
    patient([=] { return make(queue, pool, false); }, capacity(queue), 1);
}
// ---- longer: many events, several publishing threads and restarts
void long_run(int queue, int pool, int publishers, int each, int restarts)
{
    Seen s;
    {
        auto p = make(queue, pool, false);
        listen(*p, s, 0, "l");
        listen(*p, s, 1, "k");
        p->start();
        auto feed = [&](int t) {
            for (int i = 1; i <= each; i++)
                if (i % 3 == 0)
                    p->getPublisher()->processAndPublish([&](Ev &e) { e = ev(t * 1000 + i); });
                else if (i % 3 == 1)
                    p->getPublisher()->publish(ev(t * 1000 + i));
                else
                    p->getPublisher()->publish(std::make_shared<const Ev>(ev(t * 1000 + i)));
        };
        std::vector<std::thread> ts;
        for (int t = 0; t < publishers; t++)
            ts.emplace_back(feed, t);
        for (int i = 0; i < restarts; i++) {
            p->stop();
            int n = s.now();
            std::this_thread::yield();
            mc::check(n == s.now(), "nothing is delivered after stop has returned");
            p->start();
        }
        for (auto &t : ts)
            t.join();
        s.wait(2 * publishers * each);
        p->stop();
        mc::check(p->getPublisher()->publicationStats.totalDiscardedEvents == 0, "a blocking queue discards nothing");
    }
    auto v = mc::recs(0);
    mc::check(v == mc::recs(1) && (int) v.size() == publishers * each, "each listener of the topic gets every event once");
    for (int t = 0; t < publishers; t++) {
        long next = t * 1000;
        for (long x : v)
            if (x / 1000 == t)
                mc::check(x == ++next, "each publisher's events come in its order, each once", [&] { return mc::str(v); });
    }
}

MC_SCENARIO(long_2, o = deep(2, 3)) { long_run(2, 3 * mc::choose(2), 1, 15, 2); }
MC_SCENARIO(long_64, o = deep(1, 1)) { long_run(64, 0, 1, 200, 3); }
MC_SCENARIO(long_restarts, o = deep(1, 1)) { long_run(8, 5, 1, 60, 30); }
} // namespace
#include "main.inc"

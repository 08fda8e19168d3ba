// C22 in-memory middleware: queued events delivered exactly once and in order, clean stop, restart and destruction
// @repo: core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
#include <klepsydra/mem_core/basic_middleware_provider.h>
#define PROVIDER BasicMiddlewareProvider
#include "inmem.h"
namespace {
std::unique_ptr<Provider> make(int queue, int pool, bool discard)
{
    return std::unique_ptr<Provider>(new Provider(nullptr, "topic", queue, pool, [](Ev &) {}, nullptr, discard));
}
// publish from a thread (blocking queue), wait for everything, then end in each of the possible ways
MC_SCENARIO(all_delivered, o = opt(2, 3))
{
    int queue = 1 + mc::choose(2, "queue"), pool = 2 * mc::choose(2, "pool"), before = mc::choose(2, "before start"), end = mc::choose(3, "end");
    const int N = 3;
    Seen s;
    {
        auto p = make(queue, pool, false);
        listen(*p, s, 0, "l");
        if (before)
            p->getPublisher()->publish(ev(1));
        p->start();
        mc::check(p->isRunning(), "a started middleware is running");
        std::thread t([&] {
            for (int i = 1 + before; i <= N; i++)
                p->getPublisher()->publish(ev(i));
        });
        s.wait(N);
        t.join();
        if (end == 1) {
            p->stop();
            mc::check(!p->isRunning(), "a stopped middleware is not running");
        }
        if (end == 2) {
            p->stop();
            p->stop();
        }
    }
    mc::check(mc::recs(0) == upTo(N), "every event is delivered exactly once and in order", [&] { return mc::str(mc::recs(0)); });
}
// two listeners, one of them leaving and another one-off
MC_SCENARIO(each_listener, o = opt(1, 2))
{
    Seen s, once;
    {
        auto p = make(2, 2 * mc::choose(2, "pool"), false);
        listen(*p, s, 0, "l");
        listen(*p, s, 1, "k");
        p->getSubscriber()->registerListenerOnce([&](const Ev &e) {
            mc::rec(2, e.a);
            once.one();
        });
        p->start();
        for (int i = 1; i <= 3; i++)
            p->getPublisher()->publish(ev(i));
        s.wait(6);
        once.wait(1);
    }
    mc::check(mc::recs(0) == upTo(3) && mc::recs(1) == upTo(3) && mc::recs(2) == upTo(1), "each listener of the topic gets every event once");
}
// stop at any moment: nothing afterwards, what is left comes after a restart
MC_SCENARIO(stop_and_restart, o = opt(2, 3))
{
    int pool = 2 * mc::choose(2, "pool");
    Seen s;
    size_t atStop;
    {
        auto p = make(0, pool, false);
        listen(*p, s, 0, "l");
        p->start();
        std::thread t([&] {
            for (int i = 1; i <= 3; i++)
                p->getPublisher()->publish(ev(i));
        });
        p->stop();
        atStop = mc::recs(0).size();
        mc::check(!p->isRunning(), "a stopped middleware is not running");
        t.join();
        mc::check(mc::recs(0).size() == atStop, "nothing is delivered after stop has returned");
        isPrefix(mc::recs(0), "events come in order, each once");
        p->start();
        mc::check(p->isRunning(), "a restarted middleware is running");
        s.wait(3);
        mc::check(mc::recs(0) == upTo(3), "a restart delivers what the stop left queued");
    }
    mc::check(mc::recs(0).size() == 3, "each event is delivered once");
    mc::observe(atStop);
}
// start and stop repeatedly with events in between
MC_SCENARIO(start_stop_sequences, o = opt(1, 2))
{
    Seen s;
    int published = 0;
    bool running = false;
    std::vector<long> last;
    {
        auto p = make(0, 0, false);
        listen(*p, s, 0, "l");
        int steps = mc::thorough() ? 5 : 4;
        for (int i = 0; i < steps; i++) {
            switch (mc::choose(4, "step")) {
            case 0:
                p->start();
                running = true;
                break;
            case 1:
                p->stop();
                running = false;
                last = mc::recs(0);
                break;
            case 2: p->getPublisher()->publish(ev(++published)); break;
            case 3:
                if (running) {
                    s.wait(published);
                    last = mc::recs(0);
                    mc::check(last == upTo(published), "everything published is delivered once while running");
                }
                break;
            }
            mc::check(p->isRunning() == running, "running exactly between start and stop");
            if (!running)
                mc::check(mc::recs(0) == last, "nothing is delivered while stopped");
        }
    }
    isPrefix(mc::recs(0), "events come in order, each once");
    mc::check((int) mc::recs(0).size() <= published, "no event is invented");
}
// destruction at any moment after the start, with events queued or not
MC_SCENARIO(destroyed_while_running, o = opt(2, 3))
{
    int pool = 2 * mc::choose(2, "pool"), n = mc::choose(3, "events"), stopped = mc::choose(2, "stop first"), discard = mc::choose(2, "discard");
    Seen s;
    {
        auto p = make(2, pool, discard);
        listen(*p, s, 0, "l");
        p->start();
        for (int i = 1; i <= n; i++)
            p->getPublisher()->publish(ev(i));
        if (stopped)
            p->stop();
    }
    size_t after = mc::recs(0).size();
    isPrefix(mc::recs(0), "events come in order, each once");
    std::this_thread::sleep_for(std::chrono::milliseconds(5));
    mc::check(mc::recs(0).size() == after, "nothing is delivered after the destruction");
}
// a full queue that discards: the oldest go, all are accounted for
MC_SCENARIO(discard_oldest, o = opt(2, 3))
{
    int queue = 1 + mc::choose(2, "queue"), pool = 3 * mc::choose(2, "pool"), late = mc::choose(2, "late start");
    const int N = 4;
    Seen s;
    long dropped;
    {
        auto p = make(queue, pool, true);
        listen(*p, s, 0, "l");
        if (!late)
            p->start();
        for (int i = 1; i <= N; i++)
            p->getPublisher()->publish(ev(i));
        dropped = p->getPublisher()->publicationStats.totalDiscardedEvents;
        if (late) {
            mc::check(dropped == N - queue, "a publication to a full queue discards exactly one event");
            p->start();
        }
        s.wait(N - (int) dropped);
        p->stop();
        auto v = mc::recs(0);
        mc::check((long) v.size() == N - dropped, "each event is either delivered or counted as discarded");
        for (size_t i = 1; i < v.size(); i++)
            mc::check(v[i - 1] < v[i], "events come in order, each once", [&] { return mc::str(v); });
        for (int q = 0; q < queue; q++)
            mc::check(std::find(v.begin(), v.end(), (long) (N - q)) != v.end(), "the newest events are not discarded", [&] { return mc::str(v); });
        mc::observe(v);
    }
}
// the same for longer queues, filled before the start and again afterwards
MC_SCENARIO(discard_oldest_long, o = opt(0, 0))
{
    const int sizes[] = {3, 4, 5, 8, 16, 17};
    int queue = sizes[mc::choose(6, "queue")], pool = mc::choose(2, "pool") * (queue + 1), extra = mc::choose(2 * queue + 2, "published too many");
    const int N = queue + extra;
    Seen s;
    {
        auto p = make(queue, pool, true);
        listen(*p, s, 0, "l");
        for (int i = 1; i <= N; i++)
            p->getPublisher()->publish(ev(i));
        mc::check((long) p->getPublisher()->publicationStats.totalDiscardedEvents == extra, "a publication to a full queue discards exactly one event");
        p->start();
        s.wait(queue);
        p->stop();
        for (int i = 1; i <= queue + 1; i++)
            p->getPublisher()->publish(ev(N + i));
        mc::check((long) p->getPublisher()->publicationStats.totalDiscardedEvents == extra + 1, "nothing is discarded while there is room");
        p->start();
        s.wait(2 * queue);
        p->stop();
    }
    std::vector<long> want;
    for (int i = extra + 1; i <= N + queue + 1; i++)
        if (i != N + 1)
            want.push_back(i);
    mc::check(mc::recs(0) == want, "exactly the newest events are delivered, in order", [&] { return mc::str(mc::recs(0)); });
}
// a full queue that blocks: publisher waits for the poller, nothing is lost
MC_SCENARIO(block_when_full, o = opt(2, 3))
{
    Seen s;
    {
        auto p = make(1, 0, false);
        listen(*p, s, 0, "l");
        std::thread t([&] {
            for (int i = 1; i <= 3; i++)
                p->getPublisher()->publish(ev(i));
        });
        p->start();
        if (mc::choose(2, "pause")) {
            p->stop();
            p->start();
        }
        t.join();
        s.wait(3);
        p->stop();
        mc::check(p->getPublisher()->publicationStats.totalDiscardedEvents == 0, "a blocking queue discards nothing");
    }
    mc::check(mc::recs(0) == upTo(3), "every event is delivered exactly once and in order");
}
// two publishing threads
MC_SCENARIO(two_publishers, o = opt(2, 2))
{
    int discard = mc::choose(2, "discard");
    Seen s;
    {
        auto p = make(discard ? 1 : 2, 0, discard);
        listen(*p, s, 0, "l");
        p->start();
        std::thread t([&] {
            for (int i = 1; i <= 2; i++)
                p->getPublisher()->publish(ev(i));
        });
        for (int i = 11; i <= (mc::thorough() ? 12 : 11); i++)
            p->getPublisher()->publish(ev(i));
        t.join();
        if (!discard)
            s.wait(mc::thorough() ? 4 : 3);
        else
            s.wait(1);
    }
    auto v = mc::recs(0);
    long last[2] = {0, 10};
    for (long x : v) {
        mc::check(x > last[x > 10], "each publisher's events come in its order, each once", [&] { return mc::str(v); });
        last[x > 10] = x;
    }
    if (!discard)
        mc::check(v.size() == (mc::thorough() ? 4u : 3u), "every event is delivered");
    mc::observe(v);
}
// listeners come and go while the poller runs
MC_SCENARIO(listeners_come_and_go, o = opt(2, 2))
{
    int leaves = mc::choose(2, "leaves");
    Seen s;
    {
        auto p = make(0, 0, false);
        listen(*p, s, 0, "l");
        if (leaves)
            p->getSubscriber()->registerListener("k", [](const Ev &e) { mc::rec(1, e.a); });
        p->start();
        p->getPublisher()->publish(ev(1));
        if (leaves)
            p->getSubscriber()->removeListener("k");
        else
            p->getSubscriber()->registerListener("k", [](const Ev &e) { mc::rec(1, e.a); });
        p->getPublisher()->publish(ev(2));
        s.wait(2);
    }
    mc::check(mc::recs(0) == upTo(2), "the other listener gets every event once");
    auto v = mc::recs(1);
    if (leaves)
        isPrefix(v, "a listener that leaves got the events up to then");
    if (leaves)
        mc::check(v.size() <= 1, "a listener that left gets nothing published later");
    else
        mc::check(v == upTo(2) || v == std::vector<long>{2}, "a listener that came gets everything published later");
}
// the poller itself with a short patience: its thread starts late
struct SlowPoller : public InMemoryQueuePoller
{
    SlowPoller() : InMemoryQueuePoller("topic", 100, 0) {}
    ~SlowPoller() { stop(); }
    void takeEventFromQueue() override
    {
        mc::rec(0, 1);
        std::this_thread::sleep_for(std::chrono::microseconds(100));
    }
};
MC_SCENARIO(late_thread, o = opt(2, 3, 2, 3))
{
    int what = mc::choose(3, "after");
    size_t n;
    {
        SlowPoller p;
        bool failed = false;
        try {
            p.start();
        } catch (const std::runtime_error &) {
            failed = true;
        }
        mc::observe(failed);
        if (what) {
            p.stop();
            n = mc::recs(0).size();
            mc::check(!p.isRunning(), "a stopped poller is not running");
        }
        if (what == 2) {
            try {
                p.start();
            } catch (const std::runtime_error &) {
            }
        }
    }
    n = mc::recs(0).size();
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
    mc::check(mc::recs(0).size() == n, "the queue is not touched after the poller is gone");
}
// publication time stamps reach the listener's statistics only with a container: without one they cost nothing
MC_SCENARIO(transform_forward, o = opt(1, 1))
{
    Seen s;
    {
        auto p = make(0, 2 * mc::choose(2, "pool"), false);
        listen(*p, s, 0, "l");
        auto f = p->getProcessForwarder<long>([](const long &x, Ev &e) { e = ev(x); });
        p->start();
        for (long i = 1; i <= 2; i++)
            f->forwarderListenerFunction(i);
        s.wait(2);
    }
    mc::check(mc::recs(0) == upTo(2), "forwarded events are delivered once with what was put in");
}
MC_SCENARIO(shared_without_copy, o = opt(0, 1, 0, 0))
{
    int queue = 2 * mc::choose(2, "queue"), pool = 2 * mc::choose(2, "pool"), discard = queue && mc::choose(2, "discard");
    sharedArrives([=] { return make(queue, pool, discard); });
}
MC_SCENARIO(throwing_listener, o = opt(1, 2))
{
    int queue = 2 * mc::choose(2, "queue"), pool = 2 * mc::choose(2, "pool");
    throwing([=] { return make(queue, pool, false); });
}
MC_SCENARIO(failing_listener, o = opt(0, 1))
{
    int queue = 2 * mc::choose(2, "queue"), pool = 2 * mc::choose(2, "pool");
    failing([=] { return make(queue, pool, false); });
}
MC_SCENARIO(ended_while_slow, o = opt(0, 1, 0, 0), o.naps = true, o.horizon = 4000000)
{
    int queue = 2 * mc::choose(2, "queue"), pool = 2 * mc::choose(2, "pool");
    slowly([=] { return make(queue, pool, false); });
}
MC_SCENARIO(patient_publisher, o = opt(0, 0, 0, 0), o.naps = true, o.horizon = 2000000)
{
    int queue = 1 + mc::choose(2, "queue"), pool = 2 * mc::choose(2, "pool");
    patient([=] { return make(queue, pool, false); }, queue);
}
// ---- longer: many events, several publishing threads and restarts
void long_run(int queue, int pool, int publishers, int each, int restarts)
{
    Seen s;
    {
        auto p = make(queue, pool, false);
        listen(*p, s, 0, "l");
        listen(*p, s, 1, "k");
        p->start();
        auto feed = [&](int t) {
            for (int i = 1; i <= each; i++)
                if (i % 3 == 0)
                    p->getPublisher()->processAndPublish([&](Ev &e) { e = ev(t * 1000 + i); });
                else if (i % 3 == 1)
                    p->getPublisher()->publish(ev(t * 1000 + i));
                else
                    p->getPublisher()->publish(std::make_shared<const Ev>(ev(t * 1000 + i)));
        };
        std::vector<std::thread> ts;
        for (int t = 0; t < publishers; t++)
            ts.emplace_back(feed, t);
        for (int i = 0; i < restarts; i++) {
            p->stop();
            int n = s.now();
            std::this_thread::yield();
            mc::check(n == s.now(), "nothing is delivered after stop has returned");
            p->start();
        }
        for (auto &t : ts)
            t.join();
        s.wait(2 * publishers * each);
        p->stop();
        mc::check(p->getPublisher()->publicationStats.totalDiscardedEvents == 0, "a blocking queue discards nothing");
    }
    auto v = mc::recs(0);
    mc::check(v == mc::recs(1) && (int) v.size() == publishers * each, "each listener of the topic gets every event once");
    for (int t = 0; t < publishers; t++) {
        long next = t * 1000;
        for (long x : v)
            if (x / 1000 == t)
                mc::check(x == ++next, "each publisher's events come in its order, each once", [&] { return mc::str(v); });
    }
}

MC_SCENARIO(long_1, o = deep(1, 2)) { long_run(1, 0, 2, 6, 1); }
MC_SCENARIO(long_4, o = deep(1, 2)) { long_run(4, 3 * mc::choose(2), 2, 15, 2); }
MC_SCENARIO(long_64, o = deep(0, 1)) { long_run(64, 0, 2, 150, 3); }
MC_SCENARIO(long_restarts, o = deep(0, 1)) { long_run(8, 5, 1, 60, 30); }
} // namespace
#include "main.inc"

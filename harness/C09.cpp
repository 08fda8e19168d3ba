// C09 event loop lifecycle: start, stop and destruction in any order lose and invent nothing, and end
// @repo: core/modules/mem_mdlw/src/basic_scheduler.cpp high_performance/modules/high_performance/src/event_loop_scheduler.cpp
#include "loop.h"
#include <optional>
namespace {
template<size_t N>
using Loop = high_performance::EventLoopMiddlewareProvider<N>;
const long TIMEOUT = high_performance::EVENT_LOOP_START_TIMEOUT_MICROSEC;

template<size_t N>
struct Rig
{
    Seen seen;
    std::optional<Loop<N>> loop;
    Publisher<A> *p;
    bool up = false;
    std::vector<long> accepted;
    long next = 100;
    int lost = 0;
    explicit Rig(long timeout = TIMEOUT)
    {
        loop.emplace(nullptr, "loop", timeout);
        p = loop->template getPublisher<A>("a", 0, nullptr, nullptr);
        loop->template getSubscriber<A>("a")->registerListener("1", [this](const A &e) { seen.got(1, e.v()); });
    }
    void running()
    {
        mc::check(loop->isRunning() == up, "a loop runs from its start to its stop");
    }
    void start()
    {
        seen.started();
        loop->start();
        up = true;
        running();
    }
    void stop()
    {
        loop->stop();
        seen.stopped();
        up = false;
        running();
        auto got = seen.of(1);
        mc::check(got.size() <= accepted.size() && std::equal(got.begin(), got.end(), accepted.begin()), "the events delivered are the first ones accepted", [&] { return mc::str(got) + " of " + mc::str(accepted); });
    }
    void publish()
    {
        size_t pending = accepted.size() - seen.of(1).size();
        p->publish(A(next));
        int now = discarded<A, N>(p);
        mc::check(now == lost || now == lost + 1, "an event is accepted or counted as discarded once");
        if (!up)
            mc::check((now == lost) == (pending < N), "a stopped loop accepts what it has room for", [&] { return std::to_string(pending) + " waiting"; });
        else if (accepted.size() < N)
            mc::check(now == lost, "no event is discarded while the loop has room");
        if (now == lost)
            accepted.push_back(next);
        lost = now;
        next++;
    }
    void drain() { seen.wait(accepted.size()); }
    void finish()
    {
        if (!up)
            start();
        drain();
        stop();
        mc::check(seen.of(1) == accepted, "every accepted event is delivered exactly once, in order, whenever the loop was stopped and started", [&] { return mc::str(seen.of(1)) + " not " + mc::str(accepted); });
        mc::observe(accepted);
    }
    void destroy()
    {
        loop.reset();
        seen.stopped();
    }
};
enum Op { START, STOP, PUBLISH, DRAIN, OPS };
const char *const names[] = {"start", "stop", "publish", "drain"};
// all programs of n operations without two equal starts, stops or drains in a row
std::vector<std::vector<int>> *programs(int n)
{
    auto *r = new std::vector<std::vector<int>>;
    std::vector<int> cur;
    std::function<void()> go = [&] {
        if ((int) cur.size() == n) {
            r->push_back(cur);
            return;
        }
        for (int op = 0; op < OPS; op++) {
            if (!cur.empty() && cur.back() == op && op == DRAIN)
                continue;
            cur.push_back(op);
            go();
            cur.pop_back();
        }
    };
    go();
    return r;
}
void run(const std::vector<int> &ops, bool destroy)
{
    std::string text = "program:";
    for (int op : ops)
        text += std::string(" ") + names[op];
    mc::mc_note(text.c_str());
    Rig<2> r;
    for (int op : ops)
        switch (op) {
        case START: r.start(); break;
        case STOP: r.stop(); break;
        case PUBLISH: r.publish(); break;
        case DRAIN:
            if (r.up)
                r.drain();
            break;
        }
    if (destroy)
        r.destroy();
    else
        r.finish();
}
auto *p4 = programs(4), *p5 = programs(5), *p7 = programs(7);
void deep()
{
    auto *p = mc::mc_thorough() ? p7 : p5;
    run((*p)[chooseOf(p->size())], mc::choose(2));
}
void wide()
{
    auto *p = mc::mc_thorough() ? p5 : p4;
    run((*p)[chooseOf(p->size())], mc::choose(2));
}
MC_SCENARIO(programs_long, o = opt(0, 0, 0, 0)) { deep(); }
MC_SCENARIO(programs_interleaved, o = opt(1, 1, 0, 0)) { wide(); }
MC_SCENARIO(restart_twice, o = opt(2, 3)) { run({START, PUBLISH, PUBLISH, STOP, PUBLISH, START, PUBLISH, STOP, PUBLISH, START}, false); }

// ---- another thread publishes while the loop is stopped, started again, destroyed
template<size_t N>
void against_publisher(int k, int restarts)
{
    Rig<N> r;
    r.start();
    std::atomic<int> lost{0};
    std::thread t([&] {
        for (int i = 0; i < k; i++) {
            r.p->publish(A(100 + i));
            int l = discarded<A, N>(r.p);
            if (l == lost)
                mc::rec(1, 100 + i);
            lost = l;
        }
    });
    for (int i = 0; i < restarts; i++) {
        r.loop->stop();
        r.seen.stopped();
        r.start();
    }
    t.join();
    r.accepted = mc::recs(1);
    if (k <= (int) N)
        mc::check((int) r.accepted.size() == k, "no event is discarded while the loop has room");
    r.finish();
}
MC_SCENARIO(publisher_and_restart, o = opt(2, 3)) { against_publisher<2>(2, 1); }
MC_SCENARIO(publisher_and_restart_full, o = opt(2, 2)) { against_publisher<2>(3, 1); }
MC_SCENARIO(publisher_and_restarts, o = opt(2, 3)) { against_publisher<2>(2, 2); }
// two publishers of their own topics while the loop starts for the second time
MC_SCENARIO(publishers_and_restart, o = opt(1, 2))
{
    Rig<4> r;
    auto *pb = r.loop->getPublisher<B>("b", 0, nullptr, nullptr);
    r.loop->getSubscriber<B>("b")->registerListener("3", [&](const B &e) { r.seen.got(3, e.v()); });
    r.start();
    std::thread t([&] {
        pb->publish(B(200));
        pb->publish(B(201));
    });
    std::thread u([&] {
        r.p->publish(A(100));
        r.p->publish(A(101));
    });
    r.loop->stop();
    r.seen.stopped();
    r.start();
    t.join();
    u.join();
    r.seen.wait(4);
    r.loop->stop();
    mc::check(r.seen.of(1) == std::vector<long>{100, 101} && r.seen.of(3) == std::vector<long>{200, 201}, "every accepted event is delivered once", [&] { return mc::str(r.seen.of(1)) + mc::str(r.seen.of(3)); });
}
// ---- a start that gives up waiting: the loop can still be stopped, destroyed and started again
MC_SCENARIO(start_times_out, o = opt(2, 3))
{
    Rig<2> r(-1);
    bool threw = false;
    try {
        r.loop->start();
    } catch (const std::runtime_error &) {
        threw = true;
    }
    r.up = true;
    int what = mc::choose(4);
    r.publish();
    if (what == 0) {
        r.destroy();
        return;
    }
    if (what == 1)
        r.drain(); // it starts in the end
    if (what == 3)
        r.start(); // has no effect
    r.stop();
    r.publish();
    bool again = false;
    r.seen.started();
    try {
        r.loop->start();
    } catch (const std::runtime_error &) {
        again = true;
    }
    r.up = true;
    r.finish();
    mc::observe(threw * 2 + again);
}
// ---- destruction with events waiting, in the listener, and with scheduled tasks
MC_SCENARIO(destroyed_while_busy, o = opt(2, 3))
{
    Rig<2> r;
    r.start();
    r.publish();
    r.publish();
    r.destroy();
    auto got = r.seen.of(1);
    mc::check(got.size() <= 2 && std::equal(got.begin(), got.end(), r.accepted.begin()), "the events delivered are the first ones accepted");
    mc::observe(got);
}
// however long the listener takes: stopping and destroying wait for it
MC_SCENARIO(ended_while_slow, o = opt(0, 1, 0, 0), o.naps = true, o.horizon = 4000000)
{
    const int ms[] = {30, 200, 2500};
    int nap = ms[mc::choose(3)], how = mc::choose(3, "stop, destroy or restart"), before = mc::choose(2);
    std::atomic<int> inside{0}, n{0};
    Seen seen;
    std::optional<Loop<4>> loop;
    loop.emplace(nullptr, "loop");
    auto *p = loop->getPublisher<A>("a", 0, nullptr, nullptr);
    loop->getSubscriber<A>("a")->registerListener("1", [&](const A &e) {
        mc::check(inside.exchange(1) == 0, "no two listeners run at the same time");
        std::this_thread::sleep_for(std::chrono::milliseconds(nap));
        inside = 0;
        n++;
        seen.got(1, e.v());
    });
    loop->start();
    p->publish(A(100));
    p->publish(A(101));
    if (before)
        while (!inside)
            std::this_thread::yield();
    if (how != 1) {
        loop->stop();
        mc::check(inside == 0 && !loop->isRunning(), "stopping waits for the listener that runs");
        int was = n;
        mc::check(!before || n >= 1, "a listener that runs is not cut short");
        std::this_thread::sleep_for(std::chrono::milliseconds(nap * 3));
        mc::check(n == was && inside == 0, "a stopped loop delivers nothing");
        if (how == 2) {
            loop->start();
            while (n < 2)
                std::this_thread::sleep_for(std::chrono::milliseconds(1));
            loop->stop();
            mc::check(seen.of(1) == std::vector<long>{100, 101}, "a restarted loop goes on where it stopped");
        }
    }
    loop.reset();
    int was = n;
    mc::check(inside == 0, "destruction waits for the listener that runs");
    std::this_thread::sleep_for(std::chrono::milliseconds(nap * 3));
    mc::check(n == was && inside == 0, "nothing is delivered after the destruction");
}
void with_tasks(bool repeat, int how)
{
    Rig<2> r;
    auto *s = r.loop->getScheduler();
    std::atomic<int> ran{0};
    r.start();
    s->startScheduledTask("x", 100, repeat, [&] {
        r.seen.got(4, 1);
        ran++;
    });
    if (how >= 1)
        while (ran < how)
            std::this_thread::yield();
    if (how == 2)
        r.loop->stop();
    r.destroy();
    int n = ran;
    mc::check(repeat || n <= 1, "a one-shot task runs once");
}
MC_SCENARIO(destroyed_with_task, o = opt(1, 2, 1, 1)) { with_tasks(false, mc::choose(2)); }
MC_SCENARIO(destroyed_with_repeating, o = opt(1, 2, 1, 1)) { with_tasks(true, mc::choose(3)); }
// ---- many scheduler threads meet a full ring: every task is run or counted
MC_SCENARIO(tasks_and_full_ring, o = opt(1, 2, 0, 1))
{
    Seen seen;
    Loop<2> loop(nullptr, "loop");
    auto *s = loop.getScheduler();
    auto *p = loop.getPublisher<std::function<void()>>("EVENTLOOP_SCHEDULER", 0, nullptr, nullptr);
    auto *pa = loop.getPublisher<A>("a", 0, nullptr, nullptr);
    loop.getSubscriber<A>("a")->registerListener("1", [&](const A &e) { seen.got(1, e.v()); });
    pa->publish(A(100));
    pa->publish(A(101));
    // the ring is full and the loop not started: both tasks are discarded
    s->startScheduledTask("x", 100, false, [&] { seen.got(4, 1); });
    s->startScheduledTask("y", 100, false, [&] { seen.got(4, 2); });
    while (p->publicationStats.totalProcessed < 2)
        std::this_thread::yield();
    s->stopScheduledTask("x");
    s->stopScheduledTask("y");
    mc::check(discarded<std::function<void()>, 2>(p) == 2, "every discarded task is counted once");
    loop.start();
    seen.wait(2);
    loop.stop();
    mc::check(seen.of(1) == std::vector<long>{100, 101} && seen.of(4).empty(), "what was discarded does not run");
}
// ---- many restarts, rings filled to the brim
template<size_t N>
void many_restarts(int cycles)
{
    Rig<N> r;
    int phase = mc::choose(4);
    for (int c = 0; c < cycles; c++) {
        int p = (c + phase) % 4;
        for (int i = 0; i < c % 3 && r.accepted.size() - r.seen.of(1).size() < N; i++)
            r.publish();
        if (p == 3 && c % 2) {
            r.stop(); // has no effect
            continue;
        }
        r.start();
        if (p == 1)
            r.start(); // has no effect
        for (int i = 0; i <= p && r.accepted.size() - r.seen.of(1).size() < N; i++)
            r.publish();
        if (p != 2)
            r.drain();
        r.stop();
    }
    r.finish();
}
MC_SCENARIO(restarts_many, o = deep(1, 2)) { many_restarts<4>(13); }
MC_SCENARIO(restarts_very_many, o = deep(0, 1), o.horizon = 200000) { many_restarts<8>(150); }
template<size_t N>
void filled()
{
    Rig<N> r;
    int before = mc::choose(2) ? 0 : 1 + mc::choose(2);
    if (before) { // the ring does not begin at its first place
        r.start();
        for (int i = 0; i < before; i++) {
            r.publish();
            r.drain();
        }
        r.stop();
    }
    for (int round = 0; round < 3; round++) {
        for (size_t i = 0; i < N + 1 + round; i++)
            r.publish();
        r.start();
        r.drain();
        r.stop();
        mc::check(r.seen.of(1) == r.accepted, "every accepted event is delivered exactly once, in order");
    }
    r.finish();
}
MC_SCENARIO(filled_2, o = deep(1, 2)) { filled<2>(); }
MC_SCENARIO(filled_8, o = deep(1, 2)) { filled<8>(); }
MC_SCENARIO(filled_64, o = deep(0, 1)) { filled<64>(); }
MC_SCENARIO(filled_256, o = deep(0, 0), o.horizon = 200000) { filled<256>(); }
MC_SCENARIO(long_against_restarts, o = deep(1, 2)) { against_publisher<4>(12, 4); }
} // namespace
#include "main.inc"

// C08 event loop: each event exactly once to each listener of its topic, in order, one at a time
// @repo: core/modules/mem_mdlw/src/basic_scheduler.cpp high_performance/modules/high_performance/src/event_loop_scheduler.cpp
#include "loop.h"
#include <optional>
namespace {
template<size_t N>
using Loop = high_performance::EventLoopMiddlewareProvider<N>;

// listeners 1 and 2 on topic a, 3 on topic b
template<size_t N>
struct Rig
{
    Seen seen;
    Loop<N> loop;
    Publisher<A> *pa;
    Publisher<B> *pb;
    Rig(EventEmitterType outer = EventEmitterType::SAFE, EventEmitterType inner = EventEmitterType::SAFE, bool two = true, int pool = 0, bool unsafe = false)
        : loop(nullptr, "loop", high_performance::EVENT_LOOP_START_TIMEOUT_MICROSEC, {}, outer)
    {
        pa = loop.template getPublisher<A>("a", pool, nullptr, nullptr, unsafe);
        pb = loop.template getPublisher<B>("b", pool, nullptr, nullptr, unsafe);
        auto *sa = loop.template getSubscriber<A>("a", inner);
        auto *sb = loop.template getSubscriber<B>("b", inner);
        sa->registerListener("1", [this](const A &e) { seen.got(1, e.v()); });
        if (two)
            static_cast<EventEmitterSubscriber<A> *>(sa)->registerSharedPtrListener("2", [this](const std::shared_ptr<const A> &e) { seen.got(2, e->v()); });
        sb->registerListener("3", [this](const B &e) { seen.got(3, e.v()); });
    }
    void end(bool two, int na, int nb)
    {
        loop.stop();
        seen.stopped();
        auto one = seen.of(1), twos = seen.of(2), three = seen.of(3);
        auto text = [&] { return mc::str(one) + " and " + mc::str(twos) + " on a, " + mc::str(three) + " on b"; };
        if (two)
            mc::check(one == twos, "all listeners of a topic get the same events in the same order", text);
        mc::check((long) one.size() + (long) discarded<A, N>(pa) == na && (long) three.size() + (long) discarded<B, N>(pb) == nb, "an event is either delivered once to each listener of its topic or counted as discarded", text);
        for (int t = 0; t < 4; t++) {
            auto mine = [t](long v) { return v / 100 == t; };
            mc::check(increasing(only(one, mine)) && increasing(only(three, mine)), "the events of a thread are delivered once, in their order", text);
        }
        mc::observe(one);
        mc::observe(three);
    }
    // the values in the order they were delivered by listeners 1 and 3
    void acrossTopics(int t)
    {
        auto r = mc::recs(seen.ch);
        std::vector<long> v;
        for (size_t i = 0; i + 1 < r.size(); i += 2)
            if (r[i] != 2 && r[i + 1] / 100 == t)
                v.push_back(r[i + 1]);
        mc::check(increasing(v), "the events of a thread are delivered in their order across topics", [&] { return mc::str(v); });
    }
};
// ---- two threads publish, each on its own topic and both topics fed alternately by one of them
template<size_t N>
void two_publishers(int k1, int k2, bool two)
{
    Rig<N> r(EventEmitterType::SAFE, EventEmitterType::SAFE, two);
    r.loop.start();
    std::thread p1([&] {
        for (int i = 0; i < k1; i++)
            r.pa->publish(A(100 + i));
    });
    for (int i = 0; i < k2; i++)
        r.pb->publish(B(200 + i));
    p1.join();
    int da = discarded<A, N>(r.pa), db = discarded<B, N>(r.pb);
    if (k1 + k2 <= (int) N)
        mc::check(da == 0 && db == 0, "no event is discarded while the loop has room");
    r.seen.wait((k1 - da) * (two ? 2 : 1) + k2 - db);
    r.end(two, k1, k2);
}
MC_SCENARIO(two_publishers_room, o = opt(2, 3)) { two_publishers<4>(2, 2, false); }
MC_SCENARIO(two_publishers_full, o = opt(2, 3)) { two_publishers<2>(2, 2, false); }
MC_SCENARIO(two_publishers_tight, o = opt(3, 4)) { two_publishers<2>(1, 1, false); }
MC_SCENARIO(two_listeners, o = opt(2, 3)) { two_publishers<2>(2, 1, true); }
// one thread over two topics
template<size_t N>
void alternating(int k)
{
    Rig<N> r(EventEmitterType::SAFE, EventEmitterType::SAFE, false);
    r.loop.start();
    int na = 0, nb = 0;
    for (int i = 0; i < k; i++)
        if (i & 1) {
            r.pb->publish(B(100 + i));
            nb++;
        } else {
            r.pa->publish(A(100 + i));
            na++;
        }
    r.seen.wait(k - discarded<A, N>(r.pa) - discarded<B, N>(r.pb));
    r.end(false, na, nb);
    r.acrossTopics(1);
}
MC_SCENARIO(alternating_full, o = opt(2, 3)) { alternating<2>(4); }
MC_SCENARIO(alternating_wrap, o = opt(2, 3)) { alternating<4>(7); }

// ---- every way to publish, pool size, emitter kind: what arrives is what was published
struct Counted
{
    static std::atomic<int> made;
    long v = 0;
    Counted() { made++; }
    Counted(const Counted &o) : v(o.v) { made++; }
};
std::atomic<int> Counted::made;
struct Way
{
    int pool, init, cloner, unsafe, outer, inner;
    int ops[3];
};
const EventEmitterType kinds[] = {EventEmitterType::SAFE, EventEmitterType::UNSAFE_MULTI, EventEmitterType::UNSAFE_SINGLE};
void run_way(const Way &w)
{
    Seen seen;
    Loop<4> loop(nullptr, "loop", high_performance::EVENT_LOOP_START_TIMEOUT_MICROSEC, {}, kinds[w.outer]);
    std::function<void(A &)> init;
    std::function<void(const A &, A &)> cloner;
    if (w.init)
        init = [](A &e) { e = A(1000); };
    if (w.cloner)
        cloner = [](const A &o, A &e) { e = A(o.v() + 10); };
    auto *p = loop.getPublisher<A>("a", w.pool, init, cloner, w.unsafe);
    mc::check(loop.getPublisher<A>("a", 0, nullptr, nullptr) == p, "one publisher per topic");
    auto *s = loop.getSubscriber<A>("a", kinds[w.inner]);
    mc::check(loop.getSubscriber<A>("a") == s, "one subscriber per topic");
    std::vector<std::shared_ptr<const A>> kept;
    std::atomic<const A *> handed{nullptr};
    static_cast<EventEmitterSubscriber<A> *>(s)->registerSharedPtrListener("1", [&](const std::shared_ptr<const A> &e) {
        kept.push_back(e); // a pooled event that is kept is not used for another one
        handed = e.get();
        seen.got(1, e->v());
    });
    loop.start();
    std::vector<long> want;
    for (int i = 0; i < 3; i++) {
        long v = 100 + i;
        if (w.ops[i] == 0) {
            A e(v);
            p->publish(e);
            e.a = e.b = -5; // the publisher's own object is its own
            want.push_back(w.cloner ? v + 10 : v);
        } else if (w.ops[i] == 1) {
            auto e = std::make_shared<const A>(v);
            p->publish(e);
            seen.wait(i + 1);
            mc::check(handed == e.get(), "a shared event is delivered without a copy");
            want.push_back(v);
        } else {
            long base = 0;
            p->processAndPublish([&](A &e) {
                if (w.init)
                    base = e.v() == 1000 ? 0 : -1;
                e = A(v);
            });
            mc::check(base == 0, "an event to be filled in was initialised");
            want.push_back(v);
        }
    }
    seen.wait(3);
    loop.stop();
    seen.stopped();
    std::vector<long> keptv;
    for (auto &e : kept)
        keptv.push_back(e->v());
    mc::check(seen.of(1) == want, "every event arrives with the contents it was published with", [&] { return mc::str(seen.of(1)) + " not " + mc::str(want); });
    mc::check(keptv == want, "an event a listener keeps does not change", [&] { return mc::str(keptv) + " not " + mc::str(want); });
    kept.clear();
}
std::vector<Way> *allWays(bool emitters)
{
    auto *r = new std::vector<Way>;
    for (int pool : {0, 1, 2})
        for (int init : {0, 1})
            for (int cl : {0, 1})
                for (int un : {0, 1})
                    for (int k = 0; k < (emitters ? 9 : 1); k++)
                        for (int o = 0; o < 27; o++) {
                            if (emitters && o != 5 && o != 21)
                                continue;
                            r->push_back({pool, init, cl, un, k / 3, k % 3, {o % 3, o / 3 % 3, o / 9}});
                        }
    return r;
}
const std::vector<Way> *ways = allWays(false), *emitterWays = allWays(true);
MC_SCENARIO(ways_to_publish, o = opt(0, 0, 0, 0)) { run_way((*ways)[chooseOf(ways->size())]); }
MC_SCENARIO(emitter_kinds, o = opt(0, 0, 0, 0)) { run_way((*emitterWays)[chooseOf(emitterWays->size())]); }
const Way sharpWays[] = {{0, 0, 0, 0, 0, 0, {0, 1, 0}}, {1, 0, 0, 0, 0, 0, {0, 0, 2}}, {2, 1, 1, 1, 1, 1, {0, 2, 0}}, {1, 0, 0, 0, 2, 2, {2, 0, 0}}};
MC_SCENARIO(ways_interleaved, o = opt(2, 3)) { run_way(sharpWays[chooseOf(4)]); }

// ---- a pooled event returns to its pool while the publisher takes the next one
MC_SCENARIO(pool_traffic, o = opt(2, 3))
{
    Rig<2> r(EventEmitterType::SAFE, EventEmitterType::SAFE, false, 1);
    r.loop.start();
    for (int i = 0; i < 3; i++)
        r.pa->publish(A(100 + i));
    r.seen.wait(3 - discarded<A, 2>(r.pa));
    r.end(false, 3, 0);
}
// ---- a delivered event is let go of, not kept until its place in the ring is used again
MC_SCENARIO(released, o = opt(2, 3))
{
    Rig<4> r(EventEmitterType::SAFE, EventEmitterType::SAFE, mc::choose(2));
    r.loop.start();
    std::vector<std::weak_ptr<const A>> events;
    int k = 1 + mc::choose(3);
    for (int i = 0; i < k; i++) {
        auto e = std::make_shared<const A>(100 + i);
        events.push_back(e);
        r.pa->publish(e);
    }
    if (mc::choose(2))
        r.pb->publish(B(200));
    for (auto &e : events)
        while (!e.expired())
            std::this_thread::yield();
    r.loop.stop();
    r.seen.stopped();
    mc::check((int) r.seen.of(1).size() == k, "an event is delivered before it is let go of");
}
// ---- ... nor when a listener threw while it was being delivered
MC_SCENARIO(released_after_throw, o = opt(2, 3))
{
    Seen seen;
    Loop<4> loop(nullptr, "loop");
    auto *pa = loop.getPublisher<A>("a", 2 * mc::choose(2, "pool"), nullptr, nullptr);
    int k = 1 + mc::choose(2);
    long bad = 100 + mc::choose(k);
    loop.getSubscriber<A>("a")->registerListener("1", [&](const A &e) {
        seen.got(1, e.v());
        if (e.v() == bad)
            throw std::runtime_error("listener");
    });
    loop.start();
    std::vector<std::weak_ptr<const A>> events;
    for (int i = 0; i < k; i++) {
        auto e = std::make_shared<const A>(100 + i);
        events.push_back(e);
        pa->publish(e);
    }
    for (auto &e : events)
        while (!e.expired())
            std::this_thread::yield();
    loop.stop();
    seen.stopped();
    mc::check((int) seen.of(1).size() == k, "an event is delivered before it is let go of");
}
// ---- any text names a topic; different texts are different topics
std::string oddName(int i)
{
    switch (i) {
    case 0: return "a";
    case 1: return "";
    case 2: return "a_external";
    case 3: return "A";
    case 4: return "a ";
    case 5: return std::string("a\0b", 3);
    case 6: return std::string(64, 'x');
    case 7: return std::string(64, 'x') + "y";
    case 8: return std::string(300, 'x');
    case 9: return std::string(300, 'x') + "y";
    default: return "a/b:c.d%s{}";
    }
}
MC_SCENARIO(topic_names, o = opt(0, 0, 0, 0))
{
    int i = mc::choose(11), j = mc::choose(11), way = mc::choose(3);
    if (i == j)
        return;
    std::string names[2] = {oddName(i), oddName(j)};
    Seen seen;
    Loop<4> loop(nullptr, "loop");
    Publisher<A> *p[2];
    for (int t = 0; t < 2; t++) {
        p[t] = loop.getPublisher<A>(names[t], way == 2 ? 2 : 0, nullptr, nullptr);
        loop.getSubscriber<A>(names[t])->registerListener(names[t], [&seen, t](const A &e) { seen.got(t, e.v()); });
    }
    mc::check(p[0] != p[1] && loop.getSubscriber<A>(names[0]) != loop.getSubscriber<A>(names[1]), "each topic has its own publisher and subscriber");
    loop.start();
    for (int k = 0; k < 2; k++)
        for (int t = 0; t < 2; t++)
            if (way == 1)
                p[t]->publish(std::make_shared<const A>(100 * t + k));
            else
                p[t]->publish(A(100 * t + k));
    seen.wait(4);
    loop.stop();
    seen.stopped();
    mc::check(seen.of(0) == std::vector<long>{0, 1} && seen.of(1) == std::vector<long>{100, 101}, "each topic's listener gets the events of its topic, whatever it is called", [&] { return mc::str(seen.of(0)) + mc::str(seen.of(1)); });
}
// ---- two loops with the same topics at work at the same time
MC_SCENARIO(two_loops, o = opt(1, 2))
{
    Seen seen[2] = {Seen(0), Seen(1)};
    std::optional<Loop<4>> loop[2];
    const char *names[2] = {"loop", mc::choose(2, "same name") ? "loop" : "other"};
    int pool = 2 * mc::choose(2, "pool");
    Publisher<A> *p[2];
    for (int t = 0; t < 2; t++) {
        loop[t].emplace(nullptr, names[t]);
        p[t] = loop[t]->getPublisher<A>("topic", pool, nullptr, nullptr);
        loop[t]->getSubscriber<A>("topic")->registerListener("l", [&, t](const A &e) { seen[t].got(1, e.v()); });
        loop[t]->start();
    }
    std::thread other([&] {
        for (int k = 0; k < 2; k++)
            p[1]->publish(A(100 + k));
    });
    for (int k = 0; k < 2; k++)
        p[0]->publish(A(k));
    other.join();
    for (int t = 0; t < 2; t++) {
        seen[t].wait(2);
        loop[t]->stop();
        seen[t].stopped();
    }
    mc::check(seen[0].of(1) == std::vector<long>{0, 1} && seen[1].of(1) == std::vector<long>{100, 101}, "each loop delivers its own events, and only those");
}
// ---- a listener that throws: nobody else's events are lost
MC_SCENARIO(throwing_listener, o = opt(2, 3))
{
    Seen seen;
    Loop<4> loop(nullptr, "loop");
    auto *pa = loop.getPublisher<A>("a", 0, nullptr, nullptr);
    auto *pb = loop.getPublisher<B>("b", 0, nullptr, nullptr);
    long bad = 100 + mc::choose(3);
    loop.getSubscriber<A>("a")->registerListener("1", [&](const A &e) {
        seen.got(1, e.v());
        if (e.v() == bad)
            throw std::runtime_error("listener");
    });
    loop.getSubscriber<B>("b")->registerListener("3", [&](const B &e) { seen.got(3, e.v()); });
    loop.start();
    for (int i = 0; i < 3; i++)
        pa->publish(A(100 + i));
    pb->publish(B(103));
    seen.wait(4);
    pa->publish(A(104));
    seen.wait(5);
    loop.stop();
    seen.stopped();
    mc::check(seen.of(1) == std::vector<long>{100, 101, 102, 104} && seen.of(3) == std::vector<long>{103}, "after a listener threw the events go on, once each", [&] { return mc::str(seen.of(1)) + mc::str(seen.of(3)); });
}
// ---- listeners publish: delivered after what was accepted before, discards counted, no deadlock
template<size_t N>
void nested(int k)
{
    Seen seen;
    std::atomic<int> lost{0}, published{0};
    Loop<N> loop(nullptr, "loop");
    auto *pa = loop.template getPublisher<A>("a", 0, nullptr, nullptr);
    auto *pb = loop.template getPublisher<B>("b", 0, nullptr, nullptr);
    loop.template getSubscriber<A>("a")->registerListener("1", [&](const A &e) {
        seen.got(1, e.v());
        pb->publish(B(e.v() + 100));
        lost = (int) discarded<B, N>(pb);
        published++;
    });
    loop.template getSubscriber<B>("b")->registerListener("3", [&](const B &e) { seen.got(3, e.v()); });
    loop.start();
    for (int i = 0; i < k; i++)
        pa->publish(A(100 + i));
    int na = k - discarded<A, N>(pa);
    while (published < na || seen.n + lost < 2 * na)
        std::this_thread::yield();
    if ((int) N >= 2 * k)
        mc::check(lost == 0 && na == k, "no event is discarded while the loop has room");
    loop.stop();
    seen.stopped();
    auto a = seen.of(1), b = seen.of(3);
    mc::check((int) a.size() == na && b.size() + discarded<B, N>(pb) == a.size(), "events published by a listener are delivered once or counted as discarded");
    mc::check(increasing(a) && increasing(b), "in order", [&] { return mc::str(a) + mc::str(b); });
    auto r = mc::recs(0);
    for (size_t i = 0; i < r.size(); i += 2)
        if (r[i] == 3) {
            bool before = false;
            for (size_t j = 0; j < i; j += 2)
                before = before || (r[j] == 1 && r[j + 1] + 100 == r[i + 1]);
            mc::check(before, "an event is delivered after the one that caused it");
        }
    mc::observe(r);
}
MC_SCENARIO(nested_room, o = opt(2, 3)) { nested<4>(2); }
MC_SCENARIO(nested_full, o = opt(2, 3)) { nested<2>(2); }
// ---- the scheduler's tasks run on the loop's thread between the events
MC_SCENARIO(scheduled_tasks, o = opt(1, 1, 0, 1))
{
    Seen seen;
    Loop<4> loop(nullptr, "loop");
    auto *pa = loop.getPublisher<A>("a", 0, nullptr, nullptr);
    loop.getSubscriber<A>("a")->registerListener("1", [&](const A &e) { seen.got(1, e.v()); });
    auto *s = loop.getScheduler();
    mc::check(loop.getScheduler() == s, "one scheduler per loop");
    loop.start();
    s->startScheduledTask("x", 100, false, [&] { seen.got(4, 1); });
    s->startScheduledTask("y", 100, false, [&] { seen.got(4, 2); });
    pa->publish(A(100));
    pa->publish(A(101));
    seen.wait(4);
    loop.stop();
    seen.stopped();
    auto t = seen.of(4);
    mc::check(t.size() == 2 && t[0] != t[1] && seen.of(1) == std::vector<long>{100, 101}, "every task and every event once");
}
// ---- listeners come and go on a running loop
MC_SCENARIO(late_listener, o = opt(2, 3))
{
    Rig<4> r(EventEmitterType::SAFE, EventEmitterType::SAFE, false);
    r.loop.start();
    std::thread p([&] {
        r.pa->publish(A(100));
        r.pa->publish(A(101));
    });
    auto *s = r.loop.getSubscriber<A>("a");
    s->registerListener("5", [&](const A &e) { mc::rec(5, e.v()); });
    p.join();
    r.seen.wait(2);
    s->removeListener("5");
    r.pa->publish(A(102));
    r.seen.wait(3);
    r.end(false, 3, 0);
    auto l = mc::recs(5);
    mc::check(l.empty() || l == std::vector<long>{101} || l == std::vector<long>{100, 101}, "a late listener gets the events from some moment on and none after it left", [&] { return mc::str(l); });
}
// ---- long histories, larger rings, more publishers
template<size_t N>
void busy(int k, int threads, int pool, bool two, EventEmitterType outer = EventEmitterType::SAFE)
{
    Rig<N> r(outer, EventEmitterType::SAFE, two, pool);
    r.loop.start();
    std::atomic<int> na{0}, nb{0};
    auto feed = [&](int t) {
        for (int i = 0; i < k; i++) {
            long v = t * 100 + i;
            if ((i + t) % 3 == 0) {
                r.pb->publish(B(v));
                nb++;
                continue;
            }
            if (i % 4 == 0)
                r.pa->processAndPublish([v](A &e) { e = A(v); });
            else if (i % 2)
                r.pa->publish(A(v));
            else
                r.pa->publish(std::make_shared<const A>(v));
            na++;
        }
    };
    std::vector<std::thread> ts;
    for (int t = 2; t <= threads; t++)
        ts.emplace_back(feed, t);
    feed(1);
    for (auto &t : ts)
        t.join();
    int da = discarded<A, N>(r.pa), db = discarded<B, N>(r.pb);
    if (threads * k <= (int) N)
        mc::check(da == 0 && db == 0, "no event is discarded while the loop has room");
    r.seen.wait((na - da) * (two ? 2 : 1) + nb - db);
    r.end(two, na, nb);
    for (int t = 1; t <= threads; t++)
        r.acrossTopics(t);
}
MC_SCENARIO(busy_full, o = deep(1, 2)) { busy<8>(30, 1 + mc::choose(2), 0, mc::choose(2)); }
MC_SCENARIO(busy_three, o = deep(1, 2)) { busy<4>(8, 3, 0, false); }
MC_SCENARIO(busy_room, o = deep(1, 2)) { busy<64>(32, 2, 3 * mc::choose(2), true); }
MC_SCENARIO(busy_pool, o = deep(1, 2)) { busy<8>(20, 2, 4, true); }
// one publisher that leaves the loop time: nothing is ever discarded
template<size_t N>
void paced(int total, int pool)
{
    Rig<N> r(EventEmitterType::SAFE, EventEmitterType::SAFE, true, pool);
    r.loop.start();
    std::vector<long> a, b;
    int burst = 1, inBurst = 0, due = 0;
    for (int i = 0; i < total; i++) {
        if (i % 5 == 3) {
            r.pb->publish(B(100 + i));
            b.push_back(100 + i);
            due++;
        } else {
            r.pa->publish(A(100 + i));
            a.push_back(100 + i);
            due += 2;
        }
        if (++inBurst == burst) {
            r.seen.wait(due);
            inBurst = 0;
            burst = burst % (int) (N / 2) + 1; // what was delivered may hold its places until the last of it is done
        }
    }
    r.seen.wait(due);
    r.loop.stop();
    r.seen.stopped();
    mc::check(r.seen.of(1) == a && r.seen.of(2) == a && r.seen.of(3) == b && !discarded<A, N>(r.pa) && !discarded<B, N>(r.pb), "every event is delivered once, in order, however many there were before");
}
MC_SCENARIO(paced_4, o = deep(1, 1)) { paced<4>(60, 2 * mc::choose(2)); }
MC_SCENARIO(paced_8, o = deep(0, 1), o.horizon = 200000) { paced<8>(mc::thorough() ? 1000 : 299, 2 * mc::choose(2)); }
MC_SCENARIO(paced_64, o = deep(0, 0), o.horizon = 200000) { paced<64>(2000, 0); }
MC_SCENARIO(paced_1024, o = deep(0, 0), o.horizon = 2000000) { paced<1024>(4000, 0); }
} // namespace
#include "main.inc"

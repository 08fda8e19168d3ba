// C10 data multiplexer: every subscriber sees an ordered, untorn stream that always ends with the newest event
#include "enumerate.h"
#include <atomic>
#include <klepsydra/high_performance/data_multiplexer_middleware_provider.h>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <thread>
using namespace kpsr;
namespace {
mc::Options opt(int a, int b, int t0 = 0, int t1 = 1)
{
    mc::Options o;
    o.preempt[0] = a;
    o.preempt[1] = b;
    o.timers[0] = t0;
    o.timers[1] = t1;
    o.leak = true;
    return o;
}
struct M
{
    long a = -1, b = -1; // both words carry the value
    M() {}
    explicit M(long v) : a(v), b(v) {}
    long v() const
    {
        mc::check(a == b, "an event is delivered untorn");
        return a;
    }
};
template<size_t N>
using Mux = high_performance::DataMultiplexerMiddlewareProvider<M, N>;
std::atomic<int> poke;
// one subscriber with two listeners
template<size_t N>
struct Sub
{
    int ch;
    Subscriber<M> *s = nullptr;
    std::atomic<long> last{0};
    std::atomic<int> n{0}, inside{0}, lastThread{-1};
    long from; // values up to this one are older than the subscriber
    std::shared_ptr<SubscriptionStats> st1, st2;
    Sub(Mux<N> &mux, int ch, long from, bool hold = true) : ch(ch), from(from)
    {
        std::string name = "s" + std::to_string(ch);
        s = mux.getSubscriber(name);
        mc::check(mux.getSubscriber(name) == s, "one subscriber per name");
        static_cast<EventEmitterSubscriber<M> *>(s)->registerSharedPtrListener("second", [this](const std::shared_ptr<const M> &e) { mc::rec(this->ch + 8, e->v()); });
        s->registerListener("first", [this, hold](const M &e) { got(e, hold); });
        st1 = s->getSubscriptionStats("first");
        st2 = s->getSubscriptionStats("second");
    }
    void got(const M &e, bool hold)
    {
        mc::check(inside.exchange(1) == 0, "a listener handles one event at a time");
        long v = e.v();
        if (hold) {
            poke++; // others may run here
            mc::check(e.v() == v, "an event does not change while a listener handles it");
        }
        mc::check(v > last, "a listener never sees an event twice or after a newer one", [&] { return std::to_string(v) + " after " + std::to_string((long) last); });
        mc::check(v > from, "a listener sees no event older than itself");
        mc::rec(ch, v);
        inside = 0;
        n++;
        last = v;
    }
    void drain(long v)
    {
        if (v > from)
            while (last < v)
                std::this_thread::yield();
    }
    // after the multiplexer is gone; `all` was accepted since the subscriber came
    void account(const std::vector<long> &accepted)
    {
        std::vector<long> all;
        for (long v : accepted)
            if (v > from)
                all.push_back(v);
        auto one = mc::recs(ch), two = mc::recs(ch + 8);
        auto text = [&] { return mc::str(one) + " and " + mc::str(two) + " of " + mc::str(all); };
        mc::check(one == two, "all listeners of a subscriber see the same events", text);
        size_t i = 0;
        for (long v : all)
            if (i < one.size() && one[i] == v)
                i++;
        mc::check(i == one.size(), "a subscriber sees only accepted events, in order", text);
        if (!all.empty())
            mc::check(!one.empty() && one.back() == all.back(), "the newest event reaches every subscriber", text);
        for (auto &st : {st1, st2})
            mc::check(st->totalProcessed + st->totalDiscardedEvents == all.size() && st->totalProcessed == one.size(), "an event is processed or counted as skipped, for each listener", [&] { return text() + " processed " + std::to_string((long) st->totalProcessed) + " skipped " + std::to_string((long) st->totalDiscardedEvents); });
        mc::observe(one);
    }
};
// the publisher's side
template<size_t N>
struct Pub
{
    Publisher<M> *p;
    bool cloner; // adds nothing, but writes in two steps
    long next = 1, lost = 0, kept = 0;
    std::vector<long> accepted;
    explicit Pub(Mux<N> &mux) : p(mux.getPublisher()) {}
    bool publish(int way)
    {
        long v = next++;
        if (way == 0) {
            M e(v);
            p->publish(e);
            e.a = e.b = -5;
        } else if (way == 1) {
            auto e = std::make_shared<M>(v);
            p->publish(std::shared_ptr<const M>(e));
            e->a = e->b = -5;
        } else
            p->processAndPublish([&](M &e) {
                e.a = v;
                e.b = v;
            });
        long now = p->publicationStats.totalDiscardedEvents;
        mc::check(now == lost || now == lost + 1, "an event is accepted or counted as discarded once");
        bool ok = now == lost;
        lost = now;
        if (ok)
            accepted.push_back(v);
        return ok;
    }
    void insist(int way)
    {
        while (!publish(way))
            std::this_thread::yield();
    }
    long newest() const { return accepted.empty() ? 0 : accepted.back(); }
};
std::function<void(const M &, M &)> stepCloner = [](const M &o, M &c) {
    c.a = o.a;
    c.b = o.b;
};
template<size_t N>
void make(std::optional<Mux<N>> &mux, int kind)
{
    if (kind == 0)
        mux.emplace(nullptr, "mux");
    else if (kind == 1)
        mux.emplace(nullptr, "mux", [](M &e) { e = M(0); }, stepCloner);
    else if (kind == 2)
        mux.emplace(nullptr, "mux", M(0), stepCloner);
    else
        mux.emplace(nullptr, "mux", M(0));
}
// ---- one publisher against one or two subscribers
template<size_t N>
void stream(int kind, int way, int k, int subs)
{
    std::optional<Mux<N>> mux;
    make<N>(mux, kind);
    Pub<N> p(*mux);
    std::optional<Sub<N>> a, b;
    a.emplace(*mux, 1, 0);
    if (subs == 2)
        b.emplace(*mux, 2, 0, false);
    for (int i = 0; i < k; i++)
        p.publish(way);
    if (k <= (int) N)
        mc::check(p.lost == 0, "no event is discarded while there is room");
    a->drain(p.newest());
    if (b)
        b->drain(p.newest());
    mux.reset();
    a->account(p.accepted);
    if (b)
        b->account(p.accepted);
}
const int sharp[][2] = {{0, 0}, {0, 1}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}, {3, 2}, {3, 0}};
MC_SCENARIO(stream_2, o = opt(2, 3))
{
    auto &s = sharp[mc::choose(9)];
    stream<2>(s[0], s[1], 3, 1);
}
MC_SCENARIO(stream_4, o = opt(2, 2))
{
    auto &s = sharp[mc::choose(9)];
    stream<4>(s[0], s[1], 4, 1);
}
MC_SCENARIO(stream_1, o = opt(2, 3))
{
    auto &s = sharp[mc::choose(9)];
    stream<1>(s[0], s[1], 3, 1);
}
// several subscribers at once
template<size_t N>
void stream_many(int subs, int kind, int way, int k)
{
    std::optional<Mux<N>> mux;
    make<N>(mux, kind);
    Pub<N> p(*mux);
    std::vector<std::unique_ptr<Sub<N>>> all;
    for (int i = 0; i < subs; i++)
        all.emplace_back(new Sub<N>(*mux, 1 + i, 0, false));
    for (int i = 0; i < k; i++)
        p.publish(way);
    if (k <= (int) N)
        mc::check(p.lost == 0, "no event is discarded while there is room");
    for (auto &s : all)
        s->drain(p.newest());
    mux.reset();
    for (auto &s : all)
        s->account(p.accepted);
}
mc::Options many(int a, int b)
{
    mc::Options o = opt(a, b);
    o.delays = true;
    return o;
}
MC_SCENARIO(stream_three, o = many(1, 2)) { stream_many<2>(3, mc::choose(4), mc::choose(3), 3); }
MC_SCENARIO(stream_four, o = many(1, 2)) { stream_many<4>(4, mc::choose(4), mc::choose(3), 5); }
MC_SCENARIO(stream_six, o = many(1, 2)) { stream_many<2>(5 + mc::choose(2), 1, mc::choose(3), 3); }
MC_SCENARIO(stream_wrap, o = opt(1, 2)) { stream<2>(1, mc::choose(3), 6, 1); }
MC_SCENARIO(stream_two, o = opt(1, 2)) { stream<2>(2, mc::choose(3), 3, 2); }
MC_SCENARIO(stream_two_4, o = opt(1, 2)) { stream<4>(1, mc::choose(3), 3, 2); }

// ---- every program of publications, drains and late subscribers: a subscriber that keeps up sees everything
enum Op { COPY, SHARED, PROCESS, DRAIN, JOIN, THROW, OPS };
struct Failure // an exception of the application's own kind
{};
void fail(int kind)
{
    if (kind % 2)
        throw Failure();
    throw std::runtime_error("failing");
}
template<size_t N>
void program(int kind, int depth)
{
    std::optional<Mux<N>> mux;
    make<N>(mux, kind);
    Pub<N> p(*mux);
    std::vector<std::unique_ptr<Sub<N>>> subs;
    std::string text = "program:";
    bool keptUp = true;
    subs.emplace_back(new Sub<N>(*mux, 1, 0));
    bool drained = true;
    for (int d = 0; d < depth; d++) {
        int op = mc::choose(OPS);
        switch (op) {
        case COPY:
        case SHARED:
        case PROCESS:
            p.insist(op);
            keptUp = keptUp && drained;
            drained = false;
            break;
        case DRAIN:
            for (auto &s : subs)
                s->drain(p.newest());
            drained = true;
            break;
        case JOIN:
            if (subs.size() == 1)
                subs.emplace_back(new Sub<N>(*mux, 2, p.newest()));
            break;
        case THROW: { // a publication that fails publishes nothing and costs nothing
            bool threw = false, called = false;
            try {
                p.p->processAndPublish([&](M &e) {
                    called = true;
                    e.a = 77;
                    fail(d);
                });
            } catch (const std::runtime_error &) {
                threw = !(d % 2);
            } catch (const Failure &) {
                threw = d % 2;
            }
            long now = p.p->publicationStats.totalDiscardedEvents;
            mc::check(threw == called && now - p.lost == !called, "a failing publication is reported to its caller, and is not counted as discarded unless there was no room");
            p.lost = now;
            break;
        }
        }
    }
    for (auto &s : subs)
        s->drain(p.newest());
    mux.reset();
    for (auto &s : subs) {
        s->account(p.accepted);
        if (keptUp) {
            size_t n = 0;
            for (long v : p.accepted)
                n += v > s->from;
            mc::check(mc::recs(s->ch).size() == n, "a subscriber that keeps up sees every event", [&] { return mc::str(mc::recs(s->ch)) + " of " + mc::str(p.accepted); });
        }
    }
}
MC_SCENARIO(programs_2, o = opt(0, 0, 0, 0)) { program<2>(mc::choose(4), mc::mc_thorough() ? 6 : 4); }
MC_SCENARIO(programs_1, o = opt(0, 0, 0, 0)) { program<1>(mc::choose(2), mc::mc_thorough() ? 6 : 4); }
MC_SCENARIO(programs_interleaved, o = opt(1, 1, 0, 0)) { program<2>(mc::choose(4), mc::mc_thorough() ? 3 : 2); }

// ---- a listener that fell behind goes on with the newest value there is
template<size_t N>
void behind(int kind)
{
    std::optional<Mux<N>> mux;
    make<N>(mux, kind);
    Pub<N> p(*mux);
    Sub<N> s(*mux, 1, 0, false);
    std::atomic<bool> in{false}, out{false};
    int at = 1 + mc::choose(2);
    s.s->registerListener("slow", [&](const M &e) {
        if (e.v() == at) {
            in = true;
            while (!out)
                std::this_thread::yield();
        }
    });
    for (int i = 1; i < at; i++) {
        p.publish(i % 3);
        s.drain(p.newest());
    }
    p.insist(mc::choose(3));
    while (!in)
        std::this_thread::yield();
    int k = mc::choose((int) N);
    for (int i = 0; i < k; i++)
        p.publish(i % 3);
    mc::check(p.lost == 0, "no event is discarded while there is room");
    out = true;
    s.drain(p.newest());
    p.insist(0);
    s.drain(p.newest());
    mux.reset();
    s.account(p.accepted);
    std::vector<long> want;
    for (int i = 1; i <= at; i++)
        want.push_back(i);
    if (k)
        want.push_back(at + k);
    want.push_back(at + k + 1);
    mc::check(mc::recs(1) == want, "a listener that fell behind goes on with the newest event", [&] { return mc::str(mc::recs(1)) + " not " + mc::str(want); });
}
MC_SCENARIO(behind_4, o = opt(0, 1)) { behind<4>(mc::choose(4)); }
MC_SCENARIO(behind_8, o = opt(0, 0)) { behind<8>(mc::choose(4)); }
MC_SCENARIO(behind_64, o = opt(0, 0)) { behind<64>(mc::choose(4)); }

// ---- a subscriber whose listener is stuck holds up no other, whatever they are called and in whichever order they came
MC_SCENARIO(stuck_neighbour, o = opt(0, 1))
{
    static const char *const NAMES[] = {"a", "b", "", "ab", "a b%s{}/c.d"};
    int i = mc::choose(5, "stuck"), j = mc::choose(5, "other");
    if (i == j)
        return;
    std::optional<Mux<4>> mux;
    make<4>(mux, 3 * mc::choose(2));
    Pub<4> p(*mux);
    std::atomic<bool> in{false}, out{false};
    std::atomic<long> last{0}, lastStuck{0};
    auto *stuck = mux->getSubscriber(NAMES[i]);
    auto *other = mux->getSubscriber(NAMES[j]);
    mc::check(stuck != other && mux->getSubscriber(NAMES[i]) == stuck && mux->getSubscriber(NAMES[j]) == other, "each name has its own subscriber");
    stuck->registerListener("l", [&](const M &e) {
        mc::rec(1, e.v());
        in = true;
        while (!out)
            std::this_thread::yield();
        lastStuck = e.v();
    });
    other->registerListener("l", [&](const M &e) {
        mc::rec(2, e.v());
        last = e.v();
    });
    for (int k = 1; k <= 3; k++) {
        p.insist(k % 2);
        while (last < k || !in)
            std::this_thread::yield();
    }
    out = true;
    while (lastStuck < 3)
        std::this_thread::yield();
    mux.reset();
    mc::check(mc::recs(2) == std::vector<long>{1, 2, 3}, "a listener that keeps up gets every event");
    mc::check(mc::recs(1) == std::vector<long>{1, 3}, "a listener that fell behind goes on with the newest event", [&] { return mc::str(mc::recs(1)); });
}
// ---- a cloner that throws, again and again: the room of the failed publications comes back
MC_SCENARIO(throwing_cloner, o = opt(1, 2))
{
    std::optional<Mux<2>> mux;
    bool failing = true;
    int way = mc::choose(2), kind = mc::choose(2, "exception");
    mux.emplace(nullptr, "mux", nullptr, [&](const M &o, M &c) {
        c.a = o.a;
        if (failing)
            fail(kind);
        c.b = o.b;
    });
    Pub<2> p(*mux);
    Sub<2> s(*mux, 1, 0);
    for (int i = 0; i < 3; i++) {
        bool threw = false;
        try {
            p.publish(way);
        } catch (const std::runtime_error &) {
            threw = kind == 0;
        } catch (const Failure &) {
            threw = kind == 1;
        }
        mc::check(threw, "a failing publication is reported to its caller");
    }
    failing = false;
    p.insist(way);
    s.drain(p.newest());
    mux.reset();
    s.account(p.accepted);
}
// ---- a subscriber is obtained, another one's listener leaves, while a thread publishes
MC_SCENARIO(late_subscriber, o = opt(2, 3))
{
    std::optional<Mux<2>> mux;
    make<2>(mux, mc::choose(2));
    Pub<2> p(*mux);
    std::thread t([&] {
        for (int i = 0; i < 3; i++)
            p.publish(i);
    });
    std::optional<Sub<2>> s;
    s.emplace(*mux, 1, 0, false);
    t.join();
    long old = p.newest();
    p.insist(0);
    s->drain(p.newest());
    mux.reset();
    auto l = mc::recs(1);
    size_t i = 0;
    for (long v : p.accepted)
        if (i < l.size() && l[i] == v)
            i++;
    mc::check(i == l.size() && !l.empty() && l.back() > old, "a late subscriber sees accepted events in order, the newest included", [&] { return mc::str(l) + " of " + mc::str(p.accepted); });
    mc::observe(l);
}
MC_SCENARIO(leaving_listener, o = opt(2, 3))
{
    std::optional<Mux<2>> mux;
    make<2>(mux, 0);
    Pub<2> p(*mux);
    Sub<2> s(*mux, 1, 0, false);
    std::atomic<int> begun{0}, limit{99};
    s.s->registerListener("third", [&](const M &e) { mc::check(e.v() <= limit, "a listener that left is not called for later events"); });
    std::thread t([&] {
        for (int way : {0, 2}) {
            begun++;
            p.insist(way);
        }
    });
    s.s->removeListener("third");
    limit = (int) begun;
    t.join();
    s.drain(p.newest());
    mux.reset();
    s.account(p.accepted);
}
// ---- a throwing listener costs nobody anything
MC_SCENARIO(throwing_listener, o = opt(1, 2))
{
    std::optional<Mux<2>> mux;
    make<2>(mux, 0);
    Pub<2> p(*mux);
    std::atomic<long> last{0};
    mux->getSubscriber("bad")->registerListener("bad", [&](const M &e) {
        last = e.v();
        if (e.v() != 2)
            throw std::runtime_error("listener");
    });
    Sub<2> s(*mux, 1, 0, false);
    for (int i = 0; i < 3; i++) {
        p.insist(0);
        while (last < p.newest())
            std::this_thread::yield();
        s.drain(p.newest());
    }
    mux.reset();
    s.account(p.accepted);
    mc::check(mc::recs(1).size() == 3, "a subscriber that keeps up sees every event");
}
// ---- destruction at any time, and subscribers of a ring that come and go
MC_SCENARIO(destroyed_while_busy, o = opt(2, 3))
{
    std::optional<Mux<2>> mux;
    make<2>(mux, mc::choose(2));
    Pub<2> p(*mux);
    std::optional<Sub<2>> s;
    s.emplace(*mux, 1, 0);
    for (int i = mc::choose(3); i > 0; i--)
        p.publish(2);
    mux.reset();
    mc::check(s->inside == 0, "destruction waits for the listener that runs");
    int n = s->n;
    std::this_thread::yield();
    mc::check(s->n == n, "no listener runs after the destruction");
}
// however long the listener takes
MC_SCENARIO(destroyed_while_slow, o = opt(0, 1, 0, 0), o.naps = true, o.horizon = 4000000)
{
    std::optional<Mux<2>> mux;
    make<2>(mux, mc::choose(2));
    Pub<2> p(*mux);
    std::atomic<int> inside{0}, n{0};
    const int ms[] = {30, 200, 2500};
    int nap = ms[mc::choose(3)], before = mc::choose(2);
    mux->getSubscriber("slow")->registerListener("slow", [&](const M &) {
        inside = 1;
        std::this_thread::sleep_for(std::chrono::milliseconds(nap));
        inside = 0;
        n++;
    });
    p.publish(0);
    if (before)
        while (!inside)
            std::this_thread::yield();
    mux.reset();
    mc::check(inside == 0, "destruction waits for the listener that runs");
    mc::check(n == 1 || !before, "a listener that runs is not cut short");
}
typedef high_performance::DataMultiplexerSubscriber<M, 2> RawSub;
MC_SCENARIO(subscriber_leaves, o = opt(1, 2))
{
    RawSub::RingBuffer ring;
    high_performance::DataMultiplexerPublisher<M, 2> pub(nullptr, "mux", nullptr, ring);
    auto left = std::make_unique<RawSub>(nullptr, "mux", "left", ring);
    std::atomic<long> last{0};
    auto stays = std::make_unique<RawSub>(nullptr, "mux", "stays", ring);
    stays->registerListener("x", [&](const M &e) { last = e.v(); });
    auto insist = [&](long v) {
        for (;;) {
            auto before = (long) pub.publicationStats.totalDiscardedEvents;
            static_cast<Publisher<M> &>(pub).publish(M(v));
            if ((long) pub.publicationStats.totalDiscardedEvents == before)
                break;
            std::this_thread::yield();
        }
    };
    insist(1);
    std::thread t([&] {
        insist(2);
        insist(3);
        insist(4);
    });
    left.reset(); // the ring does not wait for it any more
    t.join();
    while (last < 4)
        std::this_thread::yield();
    stays.reset();
    insist(5);
}
// ---- a subscriber whose thread does not start in time
MC_SCENARIO(start_times_out, o = opt(2, 3))
{
    RawSub::RingBuffer ring;
    high_performance::DataMultiplexerPublisher<M, 2> pub(nullptr, "mux", nullptr, ring);
    std::unique_ptr<RawSub> s;
    std::atomic<long> last{0};
    bool threw = false;
    try {
        s = std::make_unique<RawSub>(nullptr, "mux", "late", ring, -1);
        s->registerListener("x", [&](const M &e) { last = e.v(); });
    } catch (const std::runtime_error &) {
        threw = true;
    }
    for (long v = 1; v <= 3; v++)
        static_cast<Publisher<M> &>(pub).publish(M(v));
    if (threw)
        mc::check(pub.publicationStats.totalDiscardedEvents == 0, "a subscriber that failed to start holds nothing back");
    else
        while (last < 1)
            std::this_thread::yield();
    s.reset();
    mc::observe(threw);
}
// ---- long streams, large rings, three subscribers of which some keep up
mc::Options deep(int a, int b)
{
    mc::Options o = opt(a, b, 0, 0);
    o.delays = true;
    return o;
}
template<size_t N>
void long_stream(int kind, int k, int pace)
{
    std::optional<Mux<N>> mux;
    make<N>(mux, kind);
    Pub<N> p(*mux);
    std::optional<Sub<N>> subs[3];
    subs[0].emplace(*mux, 1, 0);
    subs[1].emplace(*mux, 2, 0, false);
    int late = k / 2;
    for (int i = 0; i < k; i++) {
        if (i == late)
            subs[2].emplace(*mux, 3, p.newest(), false);
        if (pace)
            p.insist(i % 3);
        else
            p.publish(i % 3);
        if (pace && i % pace == 0)
            for (auto &s : subs)
                if (s)
                    s->drain(p.newest());
    }
    if (k <= (int) N || pace == 1)
        mc::check(p.lost == 0, "no event is discarded while there is room");
    for (auto &s : subs)
        s->drain(p.newest());
    mux.reset();
    for (auto &s : subs) {
        s->account(p.accepted);
        if (pace == 1) {
            size_t n = 0;
            for (long v : p.accepted)
                n += v > s->from;
            mc::check(mc::recs(s->ch).size() == n, "a subscriber that keeps up sees every event");
        }
    }
}
MC_SCENARIO(long_4, o = deep(1, 2)) { long_stream<4>(mc::choose(4), 30, mc::choose(3)); }
MC_SCENARIO(long_16, o = deep(0, 1), o.horizon = 200000) { long_stream<16>(1, 150, mc::choose(4)); }
MC_SCENARIO(long_64, o = deep(0, 1), o.horizon = 200000) { long_stream<64>(0, 400, mc::choose(2) * 7); }
MC_SCENARIO(long_keeping_up, o = deep(0, 1), o.horizon = 200000) { long_stream<8>(2, 300, 1); }
} // namespace
#include "main.inc"

// C34 managed services, forwarders and channels: what comes in goes on exactly once
// @repo: core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
#include "enumerate.h"
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <klepsydra/core/event_forwarder.h>
#include <klepsydra/core/from_middleware_channel.h>
#include <klepsydra/core/manage_service.h>
#include <klepsydra/core/sensor.h>
#include <klepsydra/core/to_middleware_channel.h>
#include <klepsydra/mem_core/basic_middleware_provider.h>
#include <klepsydra/serialization/binary_cereal_mapper.h>
#include <klepsydra/serialization/identity_mapper.h>
#include <klepsydra/serialization/json_cereal_mapper.h>
#include <klepsydra/serialization/void_caster_mapper.h>
#include <climits>
#include <memory>
#include <thread>
using namespace kpsr;
namespace {
mc::Options opt(int a, int b)
{
    mc::Options o;
    o.preempt[0] = a;
    o.preempt[1] = b;
    o.timers[0] = 0;
    o.timers[1] = 1;
    o.leak = true;
    return o;
}
// ---- services that follow the system's events
struct Managed : ManagedService
{
    Managed(Subscriber<SystemEventData> *s, const std::string &name, int id)
        : ManagedService(nullptr, s, name)
        , id(id)
    {}
    void start() override
    {
        mc::check(!up, "a service is started once");
        up = true;
        mc::rec(id, 1);
    }
    void stop() override
    {
        mc::check(up, "a service is stopped once");
        up = false;
        mc::rec(id, 0);
    }
    void execute() override
    {
        mc::check(up, "a service runs only while it is up");
        runs++;
    }
    bool up = false;
    int id, runs = 0;
};
// every history of system events, runs, and services coming and going
void managed(EventEmitterType type, int services)
{
    enum { START, STOP, IDLE, RUN, TOGGLE };
    int depth = mc::thorough() ? 8 : 6, ops = 4 + services;
    std::vector<int> at(depth, 0);
    at[0] = mc::choose(ops);
    for (;;) {
        mc::Case c;
        EventEmitterMiddlewareProvider<SystemEventData> system(nullptr, "system", 0, nullptr, nullptr, type);
        std::unique_ptr<Managed> s[2];
        bool up[2] = {false, false};
        int runs[2] = {0, 0};
        for (int i = 0; i < services; i++)
            s[i] = std::make_unique<Managed>(system.getSubscriber(), "service" + std::to_string(i), i);
        for (int d = 0; d < depth; d++) {
            if (at[d] < RUN) {
                system.getPublisher()->publish(at[d] == START ? Start : at[d] == STOP ? Stop : Idle);
                for (int i = 0; i < services; i++)
                    if (s[i] && at[d] != IDLE)
                        up[i] = at[d] == START;
            } else if (at[d] == RUN) {
                for (int i = 0; i < services; i++)
                    if (s[i]) {
                        s[i]->runOnce();
                        runs[i] += up[i];
                    }
            } else {
                s[at[d] - TOGGLE].reset(); // once gone it is told nothing
            }
            for (int i = 0; i < services; i++)
                if (s[i])
                    mc::check(s[i]->up == up[i] && s[i]->runs == runs[i], "a service is up from a start to a stop of the system", [&] { return mc::str(std::vector<long>(at.begin(), at.end())); });
        }
        int d = depth - 1;
        while (d > 0 && ++at[d] == ops)
            at[d--] = 0;
        if (d == 0)
            break;
    }
}
MC_SCENARIO(managed_single, o = opt(0, 0)) { managed(UNSAFE_SINGLE, 1); }
MC_SCENARIO(managed_multi, o = opt(0, 0)) { managed(UNSAFE_MULTI, 2); }
MC_SCENARIO(managed_safe, o = opt(0, 0)) { managed(SAFE, 2); }
MC_SCENARIO(managed_alone, o = opt(0, 0))
{
    // without a system it is started and stopped by hand; and it may outlive the system
    Managed a(nullptr, "alone", 0);
    a.runOnce();
    mc::check(a.runs == 0, "a service runs only while it is up");
    a.startup();
    a.runOnce();
    mc::check(a.runs == 1, "a service that is up runs");
    auto system = std::make_unique<EventEmitterMiddlewareProvider<SystemEventData>>(nullptr, "system", 0, nullptr, nullptr);
    Managed b(system->getSubscriber(), "outlives", 1);
    if (mc::choose(2))
        system->getPublisher()->publish(Start);
    system.reset();
    if (mc::choose(2))
        b.shutdown();
}
MC_SCENARIO(managed_elsewhere, o = opt(2, 3))
{
    // told on the thread of a queue
    mem::BasicMiddlewareProvider<SystemEventData> system(nullptr, "system", 4, 0, nullptr, nullptr, false);
    {
        Managed s(system.getSubscriber(), "s", 0);
        system.start();
        system.getPublisher()->publish(Start);
        system.getPublisher()->publish(Idle);
        system.getPublisher()->publish(Stop);
        int last = mc::choose(2);
        if (last)
            system.getPublisher()->publish(Start);
        while (mc::recs(0).size() < (last ? 3u : 2u))
            std::this_thread::yield();
        system.stop();
        mc::check(mc::recs(0) == (last ? std::vector<long>{1, 0, 1} : std::vector<long>{1, 0}), "a service follows the system");
    }
    system.getPublisher()->publish(Start);
    system.start();
    system.stop();
    mc::check(mc::recs(0).size() < 4, "a service that is gone is told nothing");
}
// ---- forwarders and channels
struct Event
{
    int n = -1;
    std::string s;
    template<class A>
    void serialize(A &ar)
    {
        ar(CEREAL_NVP(n), CEREAL_NVP(s));
    }
};
struct Pod
{
    int n = -1;
    char s[12] = {};
};
void fill(Event &e, int n)
{
    e.n = n;
    e.s = std::string((n * 7) % 40, 'a' + n % 5);
}
void fill(Pod &e, int n)
{
    e.n = n;
    memset(e.s, 'a' + n % 5, sizeof e.s);
}
bool same(const Event &e)
{
    Event f;
    fill(f, e.n);
    return e.s == f.s;
}
bool same(const Pod &e)
{
    Pod f;
    fill(f, e.n);
    return !memcmp(e.s, f.s, sizeof f.s);
}
template<class T>
void put(Publisher<T> *p, int way, int n)
{
    if (way == 2) {
        p->processAndPublish([n](T &e) { fill(e, n); });
        return;
    }
    auto e = std::make_shared<T>();
    fill(*e, n);
    if (way == 0)
        p->publish(*e);
    else
        p->publish(std::shared_ptr<const T>(e));
}
// one publisher into another, into another
template<class T>
void chains()
{
    const int depth = mc::thorough() ? 7 : 5;
    int length = mc::choose(3, "length"), pool = mc::choose(3, "pool"), first = mc::choose(3, "first");
    std::vector<int> at(depth, 0);
    at[0] = first;
    for (;;) {
        mc::Case c;
        std::vector<std::unique_ptr<EventEmitterMiddlewareProvider<T>>> p;
        std::vector<std::unique_ptr<EventForwarder<T>>> f;
        for (int i = 0; i <= length + 1; i++)
            p.push_back(std::make_unique<EventEmitterMiddlewareProvider<T>>(nullptr, "p" + std::to_string(i), pool, nullptr, nullptr));
        for (int i = 0; i <= length; i++) {
            f.push_back(std::make_unique<EventForwarder<T>>(p[i + 1]->getPublisher()));
            p[i]->getSubscriber()->registerListener("forward", [f = f.back().get()](const T &e) { f->onMessageReceived(e); });
        }
        std::vector<int> got;
        std::vector<std::shared_ptr<const T>> kept;
        p.back()->getSubscriber()->registerListener("end", [&](const T &e) {
            mc::check(same(e), "an event is forwarded as it is");
            got.push_back(e.n);
        });
        p.back()->getSubscriber()->registerSharedPtrListener("keep", [&](const std::shared_ptr<const T> &e) { kept.push_back(e); });
        std::vector<int> want;
        for (int d = 0; d < depth; d++) {
            put(p[0]->getPublisher(), at[d], d);
            want.push_back(d);
            mc::check(got == want, "an event is forwarded once");
        }
        for (int d = 0; d < depth; d++)
            mc::check(kept[d]->n == d && same(*kept[d]), "a forwarded event does not change");
        int d = depth - 1;
        while (d > 0 && ++at[d] == 3)
            at[d--] = 0;
        if (d == 0)
            break;
    }
}
MC_SCENARIO(chain, o = opt(0, 0)) { chains<Event>(); }
// out through a channel to the middleware's own kind of message, and back
template<class M>
struct Relay : Publisher<M>
{
    Relay(Publisher<M> *p)
        : Publisher<M>(nullptr, "relay", "RELAY")
        , p(p)
    {}
    void processAndPublish(std::function<void(M &)> f) override { p->processAndPublish(f); }
    void internalPublish(const M &e) override { p->publish(e); }
    void internalPublish(std::shared_ptr<const M> e) override { p->publish(e); }
    Publisher<M> *p;
};
template<class T, class M>
void channels()
{
    const int depth = mc::thorough() ? 8 : 6;
    int pool = mc::choose(3, "pool"), first = mc::choose(3, "first"), ends = mc::choose(2, "ends");
    std::vector<int> at(depth, 0);
    at[0] = first;
    for (;;) {
        mc::Case c;
        EventEmitterMiddlewareProvider<T> end(nullptr, "end", pool, nullptr, nullptr);
        EventEmitterMiddlewareProvider<T> end2(nullptr, "end2", 0, nullptr, nullptr);
        EventEmitterMiddlewareProvider<M> middle(nullptr, "middle", pool, nullptr, nullptr);
        ToMiddlewareChannel<T, M> to(nullptr, "to", std::make_unique<Relay<M>>(middle.getPublisher()));
        auto from = std::make_unique<FromMiddlewareChannel<T, M>>(end.getPublisher());
        auto from2 = std::make_unique<FromMiddlewareChannel<T, M>>(end2.getPublisher());
        middle.getSubscriber()->registerListener("from", [&](const M &m) {
            from->onMiddlewareMessage(m);
            if (ends)
                from2->onMiddlewareMessage(m);
        });
        std::vector<int> got, got2, want;
        end.getSubscriber()->registerListener("end", [&](const T &e) {
            mc::check(same(e), "an event arrives as it was");
            got.push_back(e.n);
        });
        end2.getSubscriber()->registerListener("end", [&](const T &e) {
            mc::check(same(e), "an event arrives as it was");
            got2.push_back(e.n);
        });
        for (int d = 0; d < depth; d++) {
            int n = d * 3 + at[d]; // of different lengths
            put<T>(&to, at[d], n);
            want.push_back(n);
            mc::check(got == want && got2 == (ends ? want : std::vector<int>()), "an event arrives once");
        }
        int d = depth - 1;
        while (d > 0 && ++at[d] == 3)
            at[d--] = 0;
        if (d == 0)
            break;
    }
}
MC_SCENARIO(channel_json, o = opt(0, 0)) { channels<Event, std::string>(); }
MC_SCENARIO(channel_void, o = opt(0, 0)) { channels<Pod, std::vector<unsigned char>>(); }
MC_SCENARIO(channel_same, o = opt(0, 0)) { channels<Event, Event>(); }
// two threads use their own channels to the same listeners
MC_SCENARIO(channel_threads, o = opt(2, 3))
{
    EventEmitterMiddlewareProvider<Event> end(nullptr, "end", 0, nullptr, nullptr, SAFE);
    end.getSubscriber()->registerListener("end", [&](const Event &e) {
        mc::check(same(e), "an event arrives as it was");
        mc::rec(mc::mc_thread_id(), e.n);
    });
    FromMiddlewareChannel<Event, std::string> a(end.getPublisher()), b(end.getPublisher());
    auto run = [&](FromMiddlewareChannel<Event, std::string> &f, int n) {
        std::string m;
        Event e;
        fill(e, n);
        Mapper<Event, std::string>().toMiddleware(e, m);
        f.onMiddlewareMessage(m);
        return mc::recs(mc::mc_thread_id()) == std::vector<long>{n};
    };
    bool ok = false;
    std::thread t([&] { ok = run(a, 3); });
    bool ok2 = run(b, 4);
    t.join();
    mc::check(ok && ok2, "an event arrives once");
}
// forwarders of two threads, each with its own publishers
MC_SCENARIO(forwarder_threads, o = opt(2, 3))
{
    auto run = [](int ch) {
        EventEmitterMiddlewareProvider<Event> in(nullptr, "in", 0, nullptr, nullptr), out(nullptr, "out", 0, nullptr, nullptr);
        EventForwarder<Event> f(out.getPublisher());
        in.getSubscriber()->registerListener("f", [&](const Event &e) { f.onMessageReceived(e); });
        out.getSubscriber()->registerListener("end", [&](const Event &e) {
            mc::check(same(e), "an event is forwarded as it is");
            mc::rec(ch, e.n);
        });
        put<Event>(in.getPublisher(), 0, 3 * ch);
        put<Event>(in.getPublisher(), 1, 3 * ch + 1);
        mc::check(mc::recs(ch) == std::vector<long>{3 * ch, 3 * ch + 1}, "an event is forwarded once");
    };
    std::thread t([&] { run(1); });
    run(2);
    t.join();
}
// a forwarder called again while it forwards: listeners that publish
MC_SCENARIO(forwarder_again, o = opt(0, 0))
{
    int pool = mc::choose(3, "pool"), ways[4] = {mc::choose(3), mc::choose(3), mc::choose(3), mc::choose(3)};
    EventEmitterMiddlewareProvider<Event> in(nullptr, "in", pool, nullptr, nullptr), out(nullptr, "out", pool, nullptr, nullptr);
    EventForwarder<Event> f(out.getPublisher());
    in.getSubscriber()->registerListener("f", [&](const Event &e) {
        int n = e.n;
        f.onMessageReceived(e);
        mc::check(e.n == n && same(e), "an event does not change while it is forwarded");
    });
    int level = 0;
    std::vector<int> got, after;
    out.getSubscriber()->registerListener("end", [&](const Event &e) {
        mc::check(same(e), "an event is forwarded as it is");
        int n = e.n;
        got.push_back(n);
        if (level < 3) {
            level++;
            put<Event>(in.getPublisher(), ways[level], 10 * level);
            mc::check(e.n == n && same(e), "an event does not change while it is forwarded");
        }
        after.push_back(n);
    });
    put<Event>(in.getPublisher(), ways[0], 1);
    mc::check(got == std::vector<int>{1, 10, 20, 30} && after == std::vector<int>{30, 20, 10, 1}, "an event is forwarded once");
}
// channels called again while they convert
MC_SCENARIO(channel_again, o = opt(0, 0))
{
    int pool = mc::choose(3, "pool"), ways[4] = {mc::choose(3), mc::choose(3), mc::choose(3), mc::choose(3)};
    EventEmitterMiddlewareProvider<Event> end(nullptr, "end", pool, nullptr, nullptr);
    EventEmitterMiddlewareProvider<std::string> middle(nullptr, "middle", pool, nullptr, nullptr);
    ToMiddlewareChannel<Event, std::string> to(nullptr, "to", std::make_unique<Relay<std::string>>(middle.getPublisher()));
    FromMiddlewareChannel<Event, std::string> from(end.getPublisher());
    middle.getSubscriber()->registerListener("from", [&](const std::string &m) {
        std::string before = m;
        from.onMiddlewareMessage(m);
        mc::check(m == before, "an event does not change while it is passed on");
    });
    int level = 0;
    std::vector<int> got;
    end.getSubscriber()->registerListener("end", [&](const Event &e) {
        mc::check(same(e), "an event arrives as it was");
        int n = e.n;
        got.push_back(n);
        if (level < 3) {
            level++;
            put<Event>(&to, ways[level], 10 * level);
            mc::check(e.n == n && same(e), "an event does not change while it is passed on");
        }
    });
    put<Event>(&to, ways[0], 1);
    mc::check(got == std::vector<int>{1, 10, 20, 30}, "an event arrives once");
}
MC_SCENARIO(sensors, o = opt(0, 0))
{
    const char *ids[] = {"", "frame", "a longer name of a frame, on the heap"};
    const long times[] = {0, -1, LONG_MAX, LONG_MIN, 1577836800000};
    const int seqs[] = {0, 1, INT_MAX, INT_MIN};
    for (auto id : ids)
        for (long t : times)
            for (int q : seqs) {
                mc::Case c;
                Sensor a(id, q, t), b(a), d(id, q), e("other", 5, 6);
                e.clone(a);
                for (auto *s : {&a, &b, &e})
                    mc::check(s->frameId == id && s->seq == q && s->timestamp == t, "a sensor event and its copies keep what they were made of");
                mc::check(d.frameId == id && d.seq == q, "a sensor event keeps what it was made of");
            }
}
// ---- longer: many system events and services on a queue of their own
MC_SCENARIO(managed_long, o = opt(1, 2), o.delays = true, o.timers[0] = o.timers[1] = 0)
{
    mem::BasicMiddlewareProvider<SystemEventData> system(nullptr, "system", 0, 0, nullptr, nullptr, false);
    const int n = 20;
    int stop = mc::choose(2) * 7;
    std::vector<std::unique_ptr<Managed>> s;
    for (int i = 0; i < 12; i++)
        s.push_back(std::make_unique<Managed>(system.getSubscriber(), "service" + std::to_string(i), i));
    system.start();
    std::thread t([&] {
        for (int i = 0; i < n; i++) {
            system.getPublisher()->publish(Start);
            if (i % 3 == 0)
                system.getPublisher()->publish(Idle);
            system.getPublisher()->publish(Stop);
        }
    });
    s[3].reset(); // leaves at any moment
    size_t left = mc::recs(3).size();
    if (stop) {
        system.stop();
        system.start();
    }
    t.join();
    for (int i = 0; i < 12; i++)
        while (i != 3 && mc::recs(i).size() < (size_t) 2 * n)
            std::this_thread::yield();
    system.stop();
    for (int i = 0; i < 12; i++) {
        auto r = mc::recs(i);
        mc::check(r.size() == (i == 3 ? left : 2 * n), "a service follows the system, and is told nothing once it is gone");
        for (size_t k = 0; k < r.size(); k++)
            mc::check(r[k] == (k % 2 == 0), "a service is started and stopped in turn");
    }
}
} // namespace
#include "main.inc"

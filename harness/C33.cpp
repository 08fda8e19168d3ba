// C33 message bus: every message reaches its topic's listeners once and whole, over a model of the bus's sockets
// @repo: core/modules/zmq_mdlw/src/zmq_env.cpp core/modules/core/src/configuration_environment.cpp
#include "enumerate.h"
#include <atomic>
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <klepsydra/serialization/binary_cereal_mapper.h>
#include <klepsydra/serialization/json_cereal_mapper.h>
#include <klepsydra/serialization/void_caster_mapper.h>
#include <klepsydra/zmq_core/from_zmq_middleware_provider.h>
#include <klepsydra/zmq_core/to_zmq_middleware_provider.h>
#include <klepsydra/zmq_core/zmq_env.h>
#include <klepsydra/core/configuration_environment.h>
#include <memory>
#include <sys/mman.h>
#include <unistd.h>
#include <optional>
#include <thread>
using namespace kpsr;
using namespace kpsr::zmq_mdlw;
namespace {
mc::Options opt(int a, int b)
{
    mc::Options o;
    o.preempt[0] = a;
    o.preempt[1] = b;
    o.timers[0] = 0;
    o.timers[1] = 1;
    o.leak = true;
    return o;
}
struct Text
{
    int n = -1;
    std::string s;
    template<class A>
    void serialize(A &ar)
    {
        ar(CEREAL_NVP(n), CEREAL_NVP(s));
    }
    bool operator==(const Text &o) const { return n == o.n && s == o.s; }
};
struct Pod
{
    int n = -1;
    char body[4] = {};
    bool operator==(const Pod &o) const { return n == o.n && !memcmp(body, o.body, 4); }
};
template<class T>
T value(int n);
template<>
Text value(int n)
{
    Text t;
    t.n = n;
    t.s = n % 3 == 0 ? std::string(70, 'a' + n % 7) : n % 3 == 1 ? "" : "short";
    return t;
}
template<>
Pod value(int n)
{
    Pod p;
    p.n = n;
    memset(p.body, 'a' + n, 4);
    return p;
}
const char *TOPICS[] = {"T", "To", "other"}; // one the prefix of another: the bus delivers both to a subscription of the first
struct Bus
{
    zmq::context_t context{1};
    zmq::socket_t out{context, ZMQ_PUB}, in{context, ZMQ_SUB};
    Bus()
    {
        out.bind("inproc://bus");
        in.connect("inproc://bus");
        in.setsockopt(ZMQ_SUBSCRIBE, "", 0);
    }
    void raw(const std::string &topic, const std::string &content)
    {
        out.send(zmq::const_buffer(topic.data(), topic.size()), zmq::send_flags::sndmore);
        out.send(zmq::const_buffer(content.data(), content.size()));
    }
};
// the three encodings behind one face
template<class T>
struct Json
{
    typedef T Event;
    typedef std::string Wire;
    static Publisher<T> *to(ToZMQMiddlewareProvider &p, const std::string &topic, int pool) { return p.getJsonToMiddlewareChannel<T>(topic, pool); }
    static std::unique_ptr<FromZmqChannel<Wire>> from(zmq::socket_t &s) { return FromZmqMiddlewareProvider().getJsonFromMiddlewareChannel<T>(s, 10); }
    static std::string encode(const T &v)
    {
        std::string s;
        Mapper<T, std::string>().toMiddleware(v, s);
        return s;
    }
};
template<class T>
struct Binary
{
    typedef T Event;
    typedef Base Wire;
    static Publisher<T> *to(ToZMQMiddlewareProvider &p, const std::string &topic, int pool) { return p.getBinaryToMiddlewareChannel<T>(topic, pool); }
    static std::unique_ptr<FromZmqChannel<Wire>> from(zmq::socket_t &s) { return FromZmqMiddlewareProvider().getBinaryFromMiddlewareChannel<T>(s, 10); }
    static std::string encode(const T &v)
    {
        std::stringbuf b;
        Base base = &b;
        Mapper<T, Base>().toMiddleware(v, base);
        return b.str();
    }
};
template<class T>
struct Void
{
    typedef T Event;
    typedef std::vector<unsigned char> Wire;
    static Publisher<T> *to(ToZMQMiddlewareProvider &p, const std::string &topic, int pool) { return p.getVoidCasterToMiddlewareChannel<T>(topic, pool); }
    static std::unique_ptr<FromZmqChannel<Wire>> from(zmq::socket_t &s) { return FromZmqMiddlewareProvider().getVoidCasterFromMiddlewareChannel<T>(s, 10); }
    static std::string encode(const T &v)
    {
        std::vector<unsigned char> w;
        Mapper<T, std::vector<unsigned char>>().toMiddleware(v, w);
        return std::string(w.begin(), w.end());
    }
};
template<class T>
void put(Publisher<T> *p, int way, int n)
{
    if (way == 0)
        p->publish(value<T>(n));
    else if (way == 1)
        p->publish(std::shared_ptr<const T>(std::make_shared<T>(value<T>(n))));
    else
        p->processAndPublish([n](T &t) { t = value<T>(n); });
}
// ---- what goes over the wire: two parts, the topic and the event's own bytes
template<class E>
void wire(int pool)
{
    typedef typename E::Event T;
    const int n = mc::thorough() ? 5 : 4;
    int first = mc::choose(6, "first");
    std::vector<int> at(n, 0);
    at[0] = first;
    for (;;) {
        mc::Case c;
        Bus bus;
        {
            ToZMQMiddlewareProvider to(nullptr, bus.out);
            for (int i = 0; i < n; i++) {
                int topic = at[i] & 1, way = at[i] >> 1;
                auto p = E::to(to, TOPICS[topic], pool);
                mc::check(p == E::to(to, TOPICS[topic], pool), "one publisher per topic");
                int v = (i * 5 + at[i]) % 9;
                put<T>(p, way, v);
                zmq::message_t t, m;
                bus.in.recv(t);
                mc::check(t.to_string() == TOPICS[topic] && t.more(), "a message begins with its topic");
                bus.in.recv(m);
                mc::check(m.to_string() == E::encode(value<T>(v)) && !m.more(), "a message carries its event's bytes, and nothing else", [&] { return std::to_string(m.size()) + " bytes for " + std::to_string(E::encode(value<T>(v)).size()); });
                mc::check(!bus.in.wait(0), "a message is sent once");
            }
        }
        int d = n - 1;
        while (d > 0 && ++at[d] == 6)
            at[d--] = 0;
        if (d == 0)
            break;
    }
}
// messages beyond any buffer's size
template<class E, class T>
void big(const T &event, int pool)
{
    Bus bus;
    ToZMQMiddlewareProvider to(nullptr, bus.out);
    auto p = E::to(to, "T", pool);
    for (int i = 0; i < 3; i++) {
        if (i % 2)
            p->publish(T());
        else
            p->publish(event);
        zmq::message_t t, m;
        bus.in.recv(t);
        bus.in.recv(m);
        mc::check(m.to_string() == E::encode(i % 2 ? T() : event), "a large message carries its event's bytes, and nothing else", [&] { return std::to_string(m.size()) + " bytes for " + std::to_string(E::encode(event).size()); });
        std::vector<T> got;
        std::atomic<int> n{0};
        EventEmitterMiddlewareProvider<T> local(nullptr, "local", 0, nullptr, nullptr);
        local.getSubscriber()->registerListener("l", [&](const T &v) { got.push_back(v); n++; });
        auto from = E::from(bus.in);
        from->registerToTopic("T", local.getPublisher());
        from->start();
        if (i % 2)
            p->publish(T());
        else
            p->publish(event);
        while (n == 0)
            std::this_thread::yield();
        from->stop();
        mc::check(got.size() == 1 && got[0] == (i % 2 ? T() : event), "a large event crosses the bus unchanged");
    }
}
// many topics on one bus, each to its own listeners
template<class E>
void topics()
{
    typedef typename E::Event T;
    const int SIZES[] = {2, 9, 17, 40, 140, 300};
    int n = SIZES[mc::choose(6, "topics")], order = mc::choose(3, "order"), drop = mc::choose(2, "some leave"), pool = mc::choose(2);
    Bus bus;
    ToZMQMiddlewareProvider to(nullptr, bus.out);
    auto from = E::from(bus.in);
    std::vector<std::unique_ptr<EventEmitterMiddlewareProvider<T>>> local;
    std::vector<std::vector<T>> got(n);
    std::atomic<int> total{0};
    auto name = [&](int i) { return order == 2 ? std::string(i + 1, 't') : "topic " + std::to_string(i); };
    for (int i = 0; i < n; i++) {
        local.emplace_back(new EventEmitterMiddlewareProvider<T>(nullptr, "local", 0, nullptr, nullptr));
        local[i]->getSubscriber()->registerListener("l", [&, i](const T &v) { got[i].push_back(v); total++; });
        from->registerToTopic(name(i), local[i]->getPublisher());
    }
    auto left = [&](int i) { return drop && i % 3 == 1; };
    for (int i = 0; i < n; i++)
        if (left(i))
            from->unregisterFromTopic(name(i));
    from->start();
    int sent = 0;
    for (int round = 0; round < 2; round++)
        for (int k = 0; k < n; k++) {
            int i = order == 1 ? n - 1 - k : k;
            E::to(to, name(i), pool)->publish(value<T>((i + round) % 9));
            sent += !left(i);
        }
    // the bus keeps the order: this comes last
    from->registerToTopic("end", local[0]->getPublisher());
    E::to(to, "end", pool)->publish(value<T>(8));
    while (total < sent + 1)
        std::this_thread::yield();
    from->stop();
    mc::check(total == sent + 1, "every message reaches its topic's listeners once");
    for (int i = 0; i < n; i++) {
        std::vector<T> want;
        if (!left(i))
            want = {value<T>(i % 9), value<T>((i + 1) % 9)};
        if (i == 0)
            want.push_back(value<T>(8));
        mc::check(got[i] == want, "every message reaches its topic's listeners once and whole", [&] { return std::to_string(n) + " topics: " + std::to_string(got[i].size()) + " messages for topic " + std::to_string(i); });
    }
}
struct Block
{
    char body[200000] = {};
    bool operator==(const Block &o) const { return !memcmp(body, o.body, sizeof body); }
};
MC_SCENARIO(large, o = opt(0, 0))
{
    int way = mc::choose(3), pool = mc::choose(2);
    Text t;
    t.n = 7;
    for (int i = 0; i < 200000; i++)
        t.s += (char) ('a' + i % 23);
    std::unique_ptr<Block> b(new Block);
    for (int i = 0; i < 200000; i++)
        b->body[i] = (char) (i % 251);
    if (way == 0)
        big<Json<Text>>(t, pool);
    else if (way == 1)
        big<Binary<Text>>(t, pool);
    else
        big<Void<Block>>(*b, pool);
}
MC_SCENARIO(topics_json, o = opt(0, 0); o.delays = true; o.horizon = 4000000) { topics<Json<Text>>(); }
MC_SCENARIO(topics_void, o = opt(0, 0); o.delays = true; o.horizon = 4000000) { topics<Void<Pod>>(); }
MC_SCENARIO(wire_json, o = opt(0, 0)) { wire<Json<Text>>(mc::choose(3)); }
MC_SCENARIO(wire_binary, o = opt(0, 0)) { wire<Binary<Text>>(mc::choose(3)); }
MC_SCENARIO(wire_void, o = opt(0, 0)) { wire<Void<Pod>>(mc::choose(3)); }

// ---- the receiving side
template<class E>
struct Listener
{
    typedef typename E::Event T;
    EventEmitterMiddlewareProvider<T> provider;
    std::atomic<int> n{0};
    int ch;
    Listener(int ch)
        : provider(nullptr, "p" + std::to_string(ch), 0, nullptr, nullptr)
        , ch(ch)
    {
        provider.getSubscriber()->registerListener("l", [this](const T &e) {
            mc::check(e == value<T>(e.n), "a message arrives as it was sent");
            mc::rec(this->ch, e.n);
            n++;
        });
    }
    Publisher<T> *in() { return provider.getPublisher(); }
};
template<class C, class L>
void flush(C &channel, L &last, Bus &bus, Publisher<typename L::T> *end)
{
    // what was sent before has been handled when this message has
    int before = last.n;
    end->publish(value<typename L::T>(99));
    while (last.n == before)
        std::this_thread::yield();
}
// every history of publications, registrations, removals, restarts and malformed messages
enum Op { PUB0, PUB1, TOGGLE0, TOGGLE1, RESTART, GARBAGE, OPS };
template<class E>
void history(int depth)
{
    typedef typename E::Event T;
    Bus bus;
    std::optional<ToZMQMiddlewareProvider> to(std::in_place, nullptr, bus.out);
    Listener<E> l[2] = {1, 2}, end(3);
    auto from = E::from(bus.in);
    from->template registerToTopic<T>("end", end.in());
    from->start();
    auto pend = E::to(*to, "end", 0);
    bool on[2] = {false, false};
    std::vector<long> want[2];
    int n = 0;
    for (int d = 0; d < depth; d++) {
        int op = mc::choose(OPS);
        n++;
        switch (op) {
        case PUB0:
        case PUB1:
            put<T>(E::to(*to, TOPICS[op], 0), n % 3, n);
            if (on[op])
                want[op].push_back(n);
            break;
        case TOGGLE0:
        case TOGGLE1: {
            int t = op - TOGGLE0;
            flush(*from, end, bus, pend);
            if (on[t])
                from->unregisterFromTopic(TOPICS[t]);
            else
                from->template registerToTopic<T>(TOPICS[t], l[t].in());
            on[t] = !on[t];
            break;
        }
        case RESTART:
            from->stop();
            from->stop();
            from->start();
            from->start();
            break;
        case GARBAGE:
            bus.raw(TOPICS[0], "\x01");
            bus.raw("unknown", "");
            break;
        }
    }
    flush(*from, end, bus, pend);
    for (int t = 0; t < 2; t++)
        mc::check(mc::recs(t + 1) == want[t], "each message reaches its topic's listener once, in order, while it is registered", [&] { return std::string(TOPICS[t]) + ": " + mc::str(mc::recs(t + 1)) + " for " + mc::str(want[t]); });
    if (mc::choose(2))
        from->stop();
}
MC_SCENARIO(history_json, o = opt(0, 0)) { history<Json<Text>>(mc::thorough() ? 6 : 4); }
MC_SCENARIO(history_binary, o = opt(0, 0)) { history<Binary<Text>>(mc::thorough() ? 6 : 4); }
MC_SCENARIO(history_void, o = opt(0, 0)) { history<Void<Pod>>(mc::thorough() ? 6 : 4); }
MC_SCENARIO(history_interleaved, o = opt(1, 2)) { history<Void<Pod>>(mc::thorough() ? 3 : 2); }

// ---- publishing while topics come and go
template<class E>
void changing()
{
    typedef typename E::Event T;
    Bus bus;
    ToZMQMiddlewareProvider to(nullptr, bus.out);
    Listener<E> a(1), b(2), end(3);
    auto from = E::from(bus.in);
    from->template registerToTopic<T>("end", end.in());
    from->template registerToTopic<T>(TOPICS[0], a.in());
    from->start();
    auto p = E::to(to, TOPICS[0], 0), q = E::to(to, TOPICS[1], 0), pend = E::to(to, "end", 0);
    put<T>(p, 0, 1);
    put<T>(q, 0, 2);
    from->unregisterFromTopic(TOPICS[0]);
    int had = a.n;
    from->template registerToTopic<T>(TOPICS[1], b.in());
    put<T>(p, 0, 4);
    put<T>(q, 0, 5);
    flush(*from, end, bus, pend);
    mc::check(a.n == had, "nothing is delivered to a topic that was unregistered");
    auto l = mc::recs(2);
    mc::check(l == std::vector<long>{5} || l == std::vector<long>{2, 5}, "what is sent after a topic was registered arrives", [&] { return mc::str(l); });
    mc::observe(mc::recs(1));
    mc::observe(l);
}
MC_SCENARIO(changing_json, o = opt(2, 3)) { changing<Json<Text>>(); }
MC_SCENARIO(changing_void, o = opt(2, 3)) { changing<Void<Pod>>(); }

// ---- destruction, stop and restart at any time
MC_SCENARIO(ends, o = opt(2, 3))
{
    int kind = mc::choose(3);
    Bus bus;
    ToZMQMiddlewareProvider to(nullptr, bus.out);
    auto run = [&](auto tag) {
        typedef decltype(tag) E;
        typedef typename E::Event T;
        Listener<E> a(1);
        auto from = E::from(bus.in);
        from->template registerToTopic<T>(TOPICS[0], a.in());
        from->start();
        auto p = E::to(to, TOPICS[0], 0);
        put<T>(p, 0, 1);
        if (mc::choose(2))
            put<T>(p, 0, 2);
        if (mc::choose(2)) {
            from->stop();
            int n = a.n;
            put<T>(p, 0, 4);
            std::this_thread::yield();
            mc::check(a.n == n, "a stopped bridge delivers nothing");
        }
        from.reset();
        int n = a.n;
        std::this_thread::yield();
        mc::check(a.n == n, "a destroyed bridge delivers nothing");
        auto l = mc::recs(1);
        for (size_t i = 0; i < l.size(); i++)
            mc::check(l[i] == (long) i + 1, "messages arrive in order");
        mc::observe(l);
    };
    if (kind == 0)
        run(Json<Text>());
    else if (kind == 1)
        run(Binary<Text>());
    else
        run(Void<Pod>());
}
// however long the listener takes: stopping and destroying wait for it
MC_SCENARIO(ended_while_slow, o = opt(0, 1), o.naps = true, o.horizon = 4000000)
{
    const int ms[] = {30, 200, 2500};
    int nap = ms[mc::choose(3)], how = mc::choose(3, "stop, unregister or destroy");
    Bus bus;
    ToZMQMiddlewareProvider to(nullptr, bus.out);
    std::atomic<int> inside{0}, n{0};
    EventEmitterMiddlewareProvider<Pod> local(nullptr, "p", 0, nullptr, nullptr);
    local.getSubscriber()->registerListener("l", [&](const Pod &) {
        mc::check(inside.exchange(1) == 0, "a listener handles one message at a time");
        std::this_thread::sleep_for(std::chrono::milliseconds(nap));
        inside = 0;
        n++;
    });
    typedef Void<Pod> E;
    auto from = E::from(bus.in);
    from->registerToTopic<Pod>(TOPICS[0], local.getPublisher());
    from->start();
    auto p = E::to(to, TOPICS[0], 0);
    put<Pod>(p, 0, 1);
    put<Pod>(p, 0, 2);
    while (!inside)
        std::this_thread::sleep_for(std::chrono::microseconds(50));
    if (how == 0)
        from->stop();
    if (how == 1)
        from->unregisterFromTopic(TOPICS[0]);
    if (how == 2)
        from.reset();
    mc::check(inside == 0 && n >= 1, "a listener that runs is not cut short");
    int was = n;
    std::this_thread::sleep_for(std::chrono::milliseconds(nap * 2));
    mc::check(n == was && inside == 0, "a bridge that ended delivers nothing");
}
// a poller whose thread starts late
struct Poller : JsonZMQPoller
{
    Poller(zmq::socket_t &s, long timeout)
        : JsonZMQPoller(s, 10)
    {
        patience(this, timeout, 0);
    }
    template<class P>
    static auto patience(P *p, long timeout, int) -> decltype((void) p->_timeoutUs)
    {
        p->_timeoutUs = timeout;
    }
    template<class P>
    static void patience(P *, long, long)
    {}
    ~Poller() { stop(); }
};
MC_SCENARIO(start_times_out, o = opt(2, 3))
{
    Bus bus;
    std::atomic<int> n{0};
    std::unique_ptr<ZMQPoller<std::string>> p = std::make_unique<Poller>(bus.in, -1);
    p->registerToTopic("T", [&](const std::string &) { n++; });
    bool threw = false;
    try {
        p->start();
    } catch (const std::runtime_error &) {
        threw = true;
    }
    if (mc::choose(2)) {
        p->stop();
        if (!threw && mc::choose(2)) {
            try {
                p->start();
                bus.raw("T", "x");
                while (n == 0)
                    std::this_thread::yield();
            } catch (const std::runtime_error &) {
            }
        }
    }
    p.reset();
    mc::observe(threw);
}
// ---- environments that share their properties over the bus
struct EnvBus
{
    zmq::context_t context{1};
    zmq::socket_t outA{context, ZMQ_PUB}, outB{context, ZMQ_PUB}, inA{context, ZMQ_SUB}, inB{context, ZMQ_SUB};
    EnvBus()
    {
        outA.bind("inproc://a");
        outB.bind("inproc://b");
        for (auto s : {&inA, &inB}) {
            s->connect("inproc://a");
            s->connect("inproc://b");
            s->setsockopt(ZMQ_SUBSCRIBE, "env", 3);
        }
    }
};
template<class F>
void eventually(F f)
{
    while (!f())
        std::this_thread::yield();
}
int getInt(Environment &e, const char *k)
{
    int v = -7;
    bool found = e.getPropertyInt(k, v, -1);
    mc::check(found ? v >= 0 : v == -1, "a get returns a value that was stored, or the default");
    return v;
}
MC_SCENARIO(environments, o = opt(1, 2))
{
    EnvBus bus;
    ZMQEnv a("", "key", "env", 10, bus.outA, bus.inA), b("", "key", "env", 10, bus.outB, bus.inB);
    int way = mc::choose(4);
    if (way == 0)
        a.setPropertyInt("x", 1);
    else if (way == 1)
        a.setPropertyString("s", "text");
    else if (way == 2)
        a.setPropertyFloat("f", 2.5f);
    else
        a.setPropertyBool("b", true);
    eventually([&] {
        std::string s;
        float f;
        bool v;
        return way == 0 ? getInt(b, "x") == 1 : way == 1 ? b.getPropertyString("s", s) && s == "text" : way == 2 ? b.getPropertyFloat("f", f) && f == 2.5f : b.getPropertyBool("b", v) && v;
    });
    b.setPropertyInt("x", 2);
    eventually([&] { return getInt(a, "x") == 2; });
    if (way == 1) {
        std::string s;
        mc::check(a.getPropertyString("s", s) && s == "text", "an update keeps what both had");
    }
}
MC_SCENARIO(environment_in_use, o = opt(2, 3))
{
    EnvBus bus;
    ZMQEnv a("", "key", "env", 10, bus.outA, bus.inA), b("", "key", "env", 10, bus.outB, bus.inB);
    std::thread t([&] {
        a.setPropertyInt("x", 1);
        a.setPropertyInt("x", 2);
    });
    int last = -1;
    for (int i = 0; i < 2; i++) {
        int v = getInt(b, "x");
        mc::check(v >= last, "updates arrive in order");
        last = v;
    }
    t.join();
    eventually([&] { return getInt(b, "x") == 2; });
    mc::check(getInt(a, "x") == 2, "an environment is not overwritten by its own update");
    mc::observe(last);
}
// every way to make an environment and to change it: the other one follows, type and node included
struct TempFile
{
    int fd;
    explicit TempFile(const std::string &text)
        : fd(memfd_create("c33", 0))
    {
        mc::check(fd >= 0 && write(fd, text.data(), text.size()) == (ssize_t) text.size(), "harness: scratch file");
    }
    ~TempFile() { close(fd); }
    std::string path() const { return "/proc/self/fd/" + std::to_string(fd); }
};
void change(Environment &e, int way, const std::string &key, const std::string &root, bool second)
{
    if (way == 0)
        e.setPropertyInt(key, second ? -4 : 3, root);
    else if (way == 1)
        e.setPropertyString(key, second ? "" : "a \"b\"\n", root);
    else if (way == 2)
        e.setPropertyFloat(key, second ? 0.f : 2.5f, root);
    else
        e.setPropertyBool(key, !second, root);
}
bool changed(Environment &e, int way, const std::string &key, const std::string &root, bool second)
{
    std::string s = "none";
    int i = 99;
    float f = 99;
    bool b = second;
    bool has[4] = {e.getPropertyInt(key, i, 99, root), e.getPropertyString(key, s, "none", root), e.getPropertyFloat(key, f, 99, root), e.getPropertyBool(key, b, second, root)};
    for (int k = 0; k < 4; k++)
        mc::check(k == way || !has[k], "a property arrives with its type");
    return has[way] && (way == 0 ? i == (second ? -4 : 3) : way == 1 ? s == (second ? "" : "a \"b\"\n") : way == 2 ? f == (second ? 0.f : 2.5f) : b == !second);
}
MC_SCENARIO(environment_ways, o = opt(0, 0))
{
    int kind = mc::choose(4, "made"), way = mc::choose(5, "way"), node = mc::choose(2, "node");
    zmq::context_t context{1};
    zmq::socket_t outA(context, ZMQ_PUB), outB(context, ZMQ_PUB), inA(context, ZMQ_SUB), inB(context, ZMQ_SUB);
    outA.bind("inproc://a");
    outB.bind("inproc://b");
    inA.connect("inproc://b");
    inB.connect("inproc://a");
    std::string key = kind == 3 ? "DEFAULT_ZMQ_ENV_KEY" : "the key", topic = kind == 3 ? "DEFAULT_ZMQ_TOPIC_NAME" : "a topic", root = node ? "r/q" : "";
    inA.setsockopt(ZMQ_SUBSCRIBE, topic.data(), topic.size());
    inB.setsockopt(ZMQ_SUBSCRIBE, topic.data(), topic.size());
    ConfigurationEnvironment own, file;
    file.setPropertyInt("loaded", 5);
    TempFile f(file.exportEnvironment());
    std::unique_ptr<ZMQEnv> a;
    long long before = mc::mc_now_ns();
    ZMQEnv b("", key, topic, 10, outB, inB);
    if (mc::choose(2, "at once"))
        mc::mc_step_wall(before - mc::mc_now_ns()); // the other one is made at the same time of day
    if (kind == 0)
        a.reset(new ZMQEnv("", key, topic, 10, outA, inA));
    else if (kind == 1)
        a.reset(new ZMQEnv(f.path(), key, topic, 10, outA, inA, "n"));
    else {
        if (kind == 2) {
            own.setPropertyString("kpsr_zmq_env_topic_name", topic, "m");
            own.setPropertyString("kpsr_zmq_env_key", key, "m");
            own.setPropertyInt("kpsr_zmq_env_poll_period", 10, "m");
            own.setPropertyString("kpsr_zmq_env_key", "wrong");
        }
        a.reset(new ZMQEnv(&own, outA, inA, kind == 2 ? "m" : ""));
    }
    int v;
    if (kind == 1)
        mc::check(a->getPropertyInt("loaded", v, 0, "n") && v == 5, "an environment starts with its file");
    if (way == 4) {
        mc::check(!a->loadFile("/proc/self/fd/none", root), "a file that cannot be read is reported");
        mc::check(a->loadFile(f.path(), root), "a file is loaded");
        eventually([&] { return b.getPropertyInt("loaded", v, 0, root) && v == 5; });
        mc::check(!a->loadFile(f.path(), root), "a file whose properties are there already is reported");
        b.setPropertyInt("loaded", 6, root);
        eventually([&] { return a->getPropertyInt("loaded", v, 0, root) && v == 6; });
    } else {
        change(*a, way, "x", root, false);
        eventually([&] { return changed(b, way, "x", root, false); });
        change(b, way, "x", root, true);
        eventually([&] { return changed(*a, way, "x", root, true); });
        mc::check(changed(b, way, "x", root, true), "an environment keeps what was set in it");
    }
    if (kind == 1) {
        mc::check(a->getPropertyInt("loaded", v, 0, "n") && v == 5 && b.getPropertyInt("loaded", v, 0, "n") && v == 5, "an update keeps what both had");
    }
}
// two threads of one environment, each with properties of its own: the other environment gets all of them
MC_SCENARIO(environment_shared, o = opt(0, 1))
{
    int way1 = mc::choose(4, "one"), way2 = mc::choose(4, "two");
    EnvBus bus;
    ZMQEnv a("", "key", "env", 10, bus.outA, bus.inA), b("", "key", "env", 10, bus.outB, bus.inB);
    std::thread t([&] { change(a, way1, "x", "", false); });
    change(a, way2, "y", "", false);
    t.join();
    eventually([&] { return changed(b, way1, "x", "", false) && changed(b, way2, "y", "", false); });
    mc::check(changed(a, way1, "x", "", false) && changed(a, way2, "y", "", false), "an environment keeps what was set in it");
}
// environments of any size
MC_SCENARIO(environment_large, o = opt(0, 0); o.delays = true; o.horizon = 40000000)
{
    const int SIZES[] = {1, 20, 150};
    const int LENGTHS[] = {0, 256, 5000, 70000};
    int n = SIZES[mc::choose(3, "properties")], length = LENGTHS[mc::choose(4, "length")], node = mc::choose(2, "node");
    if ((long) n * length > 90000)
        return;
    EnvBus bus;
    std::string root = node ? "r/q" : "";
    auto text = [&](int i) { return std::string(length, (char) ('a' + i % 26)); };
    ConfigurationEnvironment own;
    for (int i = 0; i < n; i++)
        own.setPropertyString("key " + std::to_string(i), text(i), root);
    TempFile f(own.exportEnvironment());
    ZMQEnv a("", "key", "env", 10, bus.outA, bus.inA), b("", "key", "env", 10, bus.outB, bus.inB);
    mc::check(a.loadFile(f.path(), ""), "a file is loaded");
    std::string s;
    eventually([&] { return b.getPropertyString("key " + std::to_string(n - 1), s, "none", root); });
    for (int i = 0; i < n; i++)
        mc::check(b.getPropertyString("key " + std::to_string(i), s, "none", root) && s == text(i), "an update arrives whole", [&] { return std::to_string(n) + " properties of length " + std::to_string(length); });
    b.setPropertyString("key 0", "new", root);
    eventually([&] { return a.getPropertyString("key 0", s, "none", root) && s == "new"; });
    for (int i = 1; i < n; i++)
        mc::check(a.getPropertyString("key " + std::to_string(i), s, "none", root) && s == text(i), "an update keeps what both had");
}
// messages for others, or that nobody understands
MC_SCENARIO(environment_noise, o = opt(1, 2))
{
    EnvBus bus;
    ZMQEnv a("", "key", "env", 10, bus.outA, bus.inA);
    zmq::context_t c2;
    auto noise = [&](const std::string &content) {
        std::string topic = "env";
        bus.outB.send(zmq::const_buffer(topic.data(), topic.size()), zmq::send_flags::sndmore);
        bus.outB.send(zmq::const_buffer(content.data(), content.size()));
    };
    auto message = [&](const char *key, const char *data, long source = -3) {
        ZMQEnvironmentData d(key, data, source);
        std::string s;
        Mapper<ZMQEnvironmentData, std::string>().toMiddleware(d, s);
        noise(s);
    };
    a.setPropertyInt("x", 5);
    switch (mc::choose(11)) {
    case 8: message("key2", "{\"IntProperties\":{\"x\":9}}"); break;
    case 9: message("ke", "{\"IntProperties\":{\"x\":9}}"); break;
    case 10: message("", "{\"IntProperties\":{\"x\":9}}"); break;
    case 5: message("key", "{\"IntProperties\":{\"x\":\"text\"}}"); break;
    case 6: message("key", "{\"IntProperties\":{\"x\":9}, \"StringProperties\":{\"s\":1}}"); break;
    case 7: message("key", "{\"IntProperties\":{\"x\":9,\"z\":\"text\"}}"); break;
    case 0: noise("not json"); break;
    case 1: noise(""); break;
    case 2: message("other", "{\"IntProperties\":{\"x\":9}}"); break;
    case 3: message("key", "{\"IntProperties\":"); break;
    case 4: message("key", ""); break;
    }
    message("key", "{\"IntProperties\":{\"x\":5,\"y\":1}}");
    eventually([&] {
        mc::check(getInt(a, "x") == 5, "a message for another environment, or one that cannot be read, changes nothing");
        return getInt(a, "y") == 1;
    });
}
MC_SCENARIO(environment_ends, o = opt(2, 3))
{
    EnvBus bus;
    ZMQEnv a("", "key", "env", 10, bus.outA, bus.inA);
    std::optional<ZMQEnv> b;
    ConfigurationEnvironment own;
    own.setPropertyString("kpsr_zmq_env_topic_name", "env");
    own.setPropertyString("kpsr_zmq_env_key", "key");
    own.setPropertyInt("kpsr_zmq_env_poll_period", 10);
    int kind = mc::choose(2);
    if (kind)
        b.emplace(&own, bus.outB, bus.inB);
    else
        b.emplace("", "key", "env", 10, bus.outB, bus.inB);
    a.setPropertyInt("x", 1);
    if (mc::choose(2))
        b->setPropertyInt("y", 3);
    b.reset();
    if (kind) {
        int v;
        mc::check(!own.getPropertyInt("x", v, 0) || v == 1, "a get returns a value that was stored, or the default");
    }
}
} // namespace
#include "main.inc"

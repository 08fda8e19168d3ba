// C16 emitters, their subscriber and publisher follow the subscription table exactly
#include "enumerate.h"
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <memory>
#include <set>
using namespace kpsr;
namespace {
typedef std::shared_ptr<const long> Event;
typedef EventEmitterInterface<Event> Emitter;
const char *const kinds[] = {"single", "multi", "safe"};
// a container that only keeps books
struct Books : public Container
{
    std::multiset<const SubscriptionStats *> subs;
    std::multiset<const PublicationStats *> pubs;
    void start() override {}
    void stop() override {}
    void attach(Service *) override {}
    void detach(Service *) override {}
    void attach(FunctionStats *) override {}
    void detach(FunctionStats *) override {}
    void attach(ServiceStats *) override {}
    void attach(PublicationStats *p) override { pubs.insert(p); }
    void detach(PublicationStats *p) override
    {
        mc::check(pubs.count(p), "only what is attached is detached from the container");
        pubs.erase(pubs.find(p));
    }
    void attach(SubscriptionStats *s) override
    {
        mc::check(s && !subs.count(s), "statistics are attached to the container once");
        subs.insert(s);
    }
    void detach(SubscriptionStats *s) override
    {
        if (!s)
            return; // the container ignores it
        mc::check(subs.count(s), "only what is attached is detached from the container");
        subs.erase(subs.find(s));
    }
    std::string getName() const override { return "books"; }
    Environment *getEnvironment() const override { return nullptr; }
};
struct Row
{
    unsigned id;
    int token, topic, name;
    bool once;
    std::shared_ptr<SubscriptionStats> stats;
    long processed = 0, discarded = 0, waited = 0;
};
const char *const topics[] = {"A", "B"};
const char *const lnames[] = {"x", "y", "z"};
struct Table
{
    Books books;
    bool contained;
    EventEmitterType type;
    std::shared_ptr<Emitter> em;
    std::vector<Row> rows;                                                    // the subscription table, in order
    std::vector<std::pair<std::shared_ptr<SubscriptionStats>, std::pair<long, long>>> gone; // statistics of removed listeners no longer move
    std::vector<unsigned> ids;                                                // every id handed out since the last removal of all
    std::vector<std::pair<int, const long *>> calls;
    int tokens = 0;
    std::string trace;
    Table(EventEmitterType t, bool c) : contained(c), type(t), em(EventEmitterFactory::createEventEmitter<Event>(t)) {}
    Container *cont() { return contained ? &books : nullptr; }
    std::function<void(const Event &)> cb(int token)
    {
        return [this, token](const Event &e) { calls.push_back({token, e.get()}); };
    }
    bool expectStats(const Row &r) { return !r.once && (type == SAFE || contained); }
    void on(int topic, int name)
    {
        trace += std::string(" on(") + topics[topic] + lnames[name] + ")";
        int token = ++tokens;
        unsigned id = em->on(cont(), lnames[name], topics[topic], cb(token));
        bool ignored = false;
        for (auto &r : rows)
            if (type == UNSAFE_SINGLE || (type == UNSAFE_MULTI && r.name == name)) {
                ignored = true;
                mc::check(id == r.id, "a listener already registered keeps its number");
            }
        if (ignored)
            return;
        for (auto &r : rows)
            mc::check(r.id != id, "listeners have different numbers", [&] { return trace; });
        Row r{id, token, topic, name, false, nullptr};
        rows.push_back(r);
        ids.push_back(id);
        auto &n = rows.back();
        n.stats = em->getListenerStats(id);
        mc::check((n.stats != nullptr) == expectStats(n), "a listener has statistics of its own", [&] { return trace; });
        if (n.stats)
            mc::check(n.stats->name == topics[topic] && n.stats->listenerName == lnames[name] && n.stats->totalProcessed == 0 && n.stats->totalDiscardedEvents == 0, "new statistics start from nothing and carry the listener's name", [&] { return trace; });
    }
    void once(int topic)
    {
        trace += std::string(" once(") + topics[topic] + ")";
        int token = ++tokens;
        bool threw = false;
        unsigned id = 0;
        try {
            id = em->once(topics[topic], cb(token));
        } catch (const std::invalid_argument &) {
            threw = true;
        }
        mc::check(threw == (type != SAFE), "once-only listeners are refused exactly where they are not supported");
        if (!threw) {
            for (auto &r : rows)
                mc::check(r.id != id, "listeners have different numbers", [&] { return trace; });
            rows.push_back(Row{id, token, topic, -1, true, nullptr});
            ids.push_back(id);
        }
    }
    void leave(std::vector<Row>::iterator r)
    {
        if (r->stats)
            gone.push_back({r->stats, {r->processed, r->discarded}});
        rows.erase(r);
    }
    // k-th number handed out; beyond: one never handed out
    void remove(int k)
    {
        unsigned id = k < (int) ids.size() ? ids[k] : 77;
        trace += " remove(" + std::to_string(id) + ")";
        auto r = std::find_if(rows.begin(), rows.end(), [&](const Row &x) { return x.id == id; });
        bool threw = false;
        try {
            em->removeListener(cont(), id);
        } catch (const std::invalid_argument &) {
            threw = true;
        }
        mc::check(threw == (type == SAFE && r == rows.end()), "removing an unknown number is reported by the thread-safe emitter and ignored by the others", [&] { return trace; });
        if (r != rows.end())
            leave(r);
    }
    void removeAll()
    {
        trace += " removeAll";
        em->removeAllListeners(cont());
        while (!rows.empty())
            leave(rows.begin());
        ids.clear();
    }
    void emit(int topic, long wait)
    {
        trace += std::string(" emit(") + topics[topic] + ")";
        Event e = std::make_shared<const long>(7);
        calls.clear();
        em->emitEvent(topics[topic], wait ? TimeUtils::getCurrentNanosecondsAsLlu() - wait : 0, e);
        std::vector<int> want;
        for (size_t i = 0; i < rows.size();) {
            Row &r = rows[i];
            if (r.topic != topic) {
                i++;
                continue;
            }
            want.push_back(r.token);
            r.processed++;
            r.waited += wait;
            if (r.once)
                rows.erase(rows.begin() + i);
            else
                i++;
        }
        std::vector<int> got;
        for (auto &c : calls) {
            got.push_back(c.first);
            mc::check(c.second == e.get(), "a listener gets the event emitted");
        }
        mc::check(got == want, "an emission calls exactly the listeners of the topic, once each, in the order they came", [&] {
            std::string s = trace + " called";
            for (int g : got)
                s += " " + std::to_string(g);
            s += " not";
            for (int w : want)
                s += " " + std::to_string(w);
            return s;
        });
        mc::check(e.use_count() == 1, "nobody keeps the event");
    }
    void discard(int topic)
    {
        trace += std::string(" discard(") + topics[topic] + ")";
        calls.clear();
        em->discardEvent(topics[topic]);
        mc::check(calls.empty(), "a discarded event is delivered to nobody");
        for (auto &r : rows)
            if (r.topic == topic)
                r.discarded++;
    }
    void consistent()
    {
        size_t attached = 0;
        for (auto &r : rows) {
            auto s = em->getListenerStats(r.id);
            mc::check(s == r.stats, "the statistics found under a listener's number are its own", [&] { return trace + " id " + std::to_string(r.id); });
            if (s) {
                mc::check(s->totalProcessed == r.processed && s->begun == r.processed, "processed events are counted for exactly the listeners that got them", [&] { return trace; });
                mc::check(s->totalDiscardedEvents == r.discarded, "discarded events are counted for exactly the listeners of the topic", [&] { return trace; });
                mc::check(s->totalEnqueuedTimeInNs == r.waited, "the time an event waited is added up", [&] { return trace + " " + std::to_string((long) s->totalEnqueuedTimeInNs) + " not " + std::to_string(r.waited); });
                if (contained) {
                    attached++;
                    mc::check(books.subs.count(s.get()) == 1, "a listener's statistics are in the container", [&] { return trace; });
                }
            }
        }
        mc::check(books.subs.size() == attached, "the container holds the statistics of the present listeners only", [&] { return trace; });
        for (unsigned id : ids)
            if (std::none_of(rows.begin(), rows.end(), [&](const Row &r) { return r.id == id; }))
                mc::check(em->getListenerStats(id) == nullptr, "a listener that is gone has no statistics", [&] { return trace; });
        mc::check(em->getListenerStats(77) == nullptr, "an unknown number has no statistics", [&] { return trace; });
        for (auto &g : gone)
            mc::check(g.first->totalProcessed == g.second.first && g.first->totalDiscardedEvents == g.second.second, "events are not counted for a listener that is gone", [&] { return trace; });
    }
};
bool sequence(Odo &o, EventEmitterType type, bool contained, int depth)
{
    mc::Case one;
    {
        Table t(type, contained);
        for (int d = 0; d < depth; d++) {
            int nrem = std::min<int>((int) t.ids.size(), 3) + 1;
            // an unsupported once is tried as the first step only
            int nonce = type == SAFE ? 2 : d == 0 ? 1 : 0;
            int k = o.pick(4 + nonce + 4 + 1 + nrem);
            if (k < 4)
                t.on(k & 1, k >> 1);
            else if ((k -= 4) < nonce)
                t.once(k);
            else if ((k -= nonce) < 2)
                t.emit(k, d & 1 ? 5 : 0);
            else if ((k -= 2) < 2)
                t.discard(k);
            else if ((k -= 2) < 1)
                t.removeAll();
            else
                t.remove(k - 1 == nrem - 1 ? 99 : k - 1);
            t.consistent();
        }
        t.emit(0, 0);
        t.emit(1, 3);
        t.consistent();
        t.removeAll();
        t.emit(0, 0);
        t.consistent();
    }
    return o.next();
}
// three listener names on two topics, removed in every order
bool many(Odo &o, EventEmitterType type)
{
    mc::Case one;
    {
        Table t(type, true);
        for (int i = 0; i < 3; i++)
            t.on(o.pick(2), i);
        for (int i = 0; i < 3; i++) {
            t.remove(o.pick(3));
            t.consistent();
            t.emit(0, 1);
            t.discard(1);
            t.consistent();
        }
        t.on(0, o.pick(3));
        t.consistent();
        t.emit(0, 0);
        t.emit(1, 0);
        t.consistent();
    }
    return o.next();
}
// listeners that subscribe, unsubscribe and emit while being called
bool reentrant(Odo &o)
{
    mc::Case one;
    {
        auto em = EventEmitterFactory::createEventEmitter<Event>(SAFE);
        struct L
        {
            unsigned id = 0;
            bool in = false, once = false;
            int calls = 0;
        } l[4];
        int depth = 0, fourth = 0;
        // present listeners at the start of each emission; index of the one acting and what it does
        int actor = o.pick(3), act = o.pick(6), first = o.pick(2);
        int onceMask = o.pick(4);
        bool acted = false;
        bool goneDuring[4] = {false, false, false, false};
        std::function<void(int)> body;
        std::function<void()> emit;
        auto add = [&](int i, bool once) {
            auto f = [&body, i](const Event &) { body(i); };
            l[i].once = once;
            l[i].id = once ? em->once("A", f) : em->on(nullptr, lnames[i % 3], "A", f);
            l[i].in = true;
        };
        body = [&](int i) {
            l[i].calls++;
            if (l[i].once)
                l[i].in = false;
            if (i != actor || acted || (!first && l[i].calls < 2))
                return;
            acted = true;
            auto drop = [&](int j) {
                try {
                    em->removeListener(nullptr, l[j].id);
                    mc::check(l[j].in || (l[j].once && j == i), "only a present listener can be removed");
                } catch (const std::invalid_argument &) {
                    mc::check(!l[j].in, "a present listener can be removed");
                }
                l[j].in = false;
                goneDuring[j] = true;
            };
            switch (act) {
            case 0: drop(i); break;
            case 1: drop((i + 1) % 3); break;
            case 2: drop((i + 2) % 3); break;
            case 3:
                add(3, false);
                fourth = 1;
                break;
            case 4: emit(); break;
            case 5:
                em->removeAllListeners(nullptr);
                for (int j = 0; j < 3; j++) {
                    goneDuring[j] |= l[j].in;
                    l[j].in = false;
                }
                break;
            }
        };
        emit = [&] {
            int before[4];
            bool in[4];
            for (int i = 0; i < 4; i++) {
                before[i] = l[i].calls;
                in[i] = l[i].in;
                goneDuring[i] = false;
            }
            depth++;
            em->emitEvent("A", 0, std::make_shared<const long>(1));
            depth--;
            for (int i = 0; i < 4; i++) {
                int n = l[i].calls - before[i];
                bool nested = act == 4 && acted && depth == 0 && n;
                if (l[i].once) {
                    mc::check(l[i].calls <= 1, "a once-only listener is called at most once");
                    if (in[i] && !goneDuring[i])
                        mc::check(l[i].calls == 1, "a present once-only listener is called");
                    if (in[i])
                        l[i].in = false;
                } else if (!in[i])
                    mc::check(n == 0, "a listener that was not subscribed is not called");
                else if (goneDuring[i] || nested)
                    mc::check(n <= 2, "a listener is called once for each emission");
                else
                    mc::check(n == 1, "a listener subscribed throughout is called exactly once");
            }
        };
        for (int i = 0; i < 3; i++)
            add(i, i < 2 && (onceMask >> i & 1));
        emit();
        emit();
        emit();
        (void) fourth;
    }
    return o.next();
}
// the subscriber: listeners by name
struct SubTable
{
    Books books;
    std::shared_ptr<Emitter> em;
    std::unique_ptr<EventEmitterSubscriber<long>> sub;
    bool in[3] = {false, false, false};
    int nonce = 0;
    std::vector<int> order;
    std::vector<int> calls;
    std::string trace;
    EventEmitterType type;
    SubTable(EventEmitterType t, bool contained) : em(EventEmitterFactory::createEventEmitter<Event>(t)), type(t)
    {
        sub.reset(new EventEmitterSubscriber<long>(contained ? &books : nullptr, em, "A"));
    }
    bool room() { return type != UNSAFE_SINGLE || order.empty(); }
    void emit()
    {
        calls.clear();
        em->emitEvent("A", 0, std::make_shared<const long>(5));
        mc::check(calls == order, "an emission calls exactly the present listeners, once each, in the order they came", [&] { return trace; });
        order.erase(std::remove_if(order.begin(), order.end(), [](int t) { return t >= 10; }), order.end());
        calls.clear();
        em->emitEvent("B", 0, std::make_shared<const long>(5));
        mc::check(calls.empty(), "another topic's events go to nobody");
    }
    void look(int n)
    {
        auto s = sub->getSubscriptionStats(lnames[n]);
        if (!in[n])
            mc::check(s == nullptr, "an unknown name has no statistics", [&] { return trace; });
        else if (type == SAFE || !books.subs.empty())
            mc::check(s && s->listenerName == lnames[n], "the statistics found under a name are its own", [&] { return trace; });
    }
};
bool subscriber(Odo &o, EventEmitterType type, bool contained, int depth)
{
    mc::Case one;
    {
        SubTable t(type, contained);
        for (int d = 0; d < depth; d++) {
            int k = o.pick(12);
            if (k < 4) {
                int n = k & 1;
                if (t.in[n] || !t.room())
                    break; // re-registering a name is left to the emitter
                t.trace += std::string(" register ") + lnames[n];
                if (k < 2)
                    t.sub->registerListener(lnames[n], [&t, n](const long &x) {
                        mc::check(x == 5, "a listener gets the event emitted");
                        t.calls.push_back(n);
                    });
                else
                    t.sub->registerSharedPtrListener(lnames[n], [&t, n](const Event &x) {
                        mc::check(*x == 5, "a listener gets the event emitted");
                        t.calls.push_back(n);
                    });
                t.in[n] = true;
                t.order.push_back(n);
            } else if (k < 6) {
                if (type != SAFE)
                    break;
                t.trace += " once";
                int token = 10 + t.nonce++;
                if (k == 4)
                    t.sub->registerListenerOnce([&t, token](const long &) { t.calls.push_back(token); });
                else
                    t.sub->registerSharedPtrListenerOnce([&t, token](const Event &) { t.calls.push_back(token); });
                t.order.push_back(token);
            } else if (k < 9) {
                int n = k - 6;
                t.trace += std::string(" remove ") + lnames[n];
                t.sub->removeListener(lnames[n]);
                t.in[n] = false;
                t.order.erase(std::remove(t.order.begin(), t.order.end(), n), t.order.end());
            } else if (k == 9) {
                t.trace += " emit";
                t.emit();
            } else if (k == 10) {
                t.trace += " look";
                for (int n = 0; n < 3; n++)
                    t.look(n);
            } else {
                t.trace += " null";
                int threw = 0;
                try {
                    t.sub->registerListener("x", nullptr);
                } catch (const std::invalid_argument &) {
                    threw++;
                }
                try {
                    t.sub->registerListenerOnce(nullptr);
                } catch (const std::invalid_argument &) {
                    threw++;
                }
                try {
                    t.sub->registerSharedPtrListener("x", nullptr);
                } catch (const std::invalid_argument &) {
                    threw++;
                }
                try {
                    t.sub->registerSharedPtrListenerOnce(nullptr);
                } catch (const std::invalid_argument &) {
                    threw++;
                }
                mc::check(threw == 4, "a missing listener is refused");
            }
        }
        t.emit();
        t.sub.reset();
        t.order.clear();
        t.trace += " destroy";
        t.emit();
        mc::check(t.books.subs.empty(), "a subscriber that is gone leaves no statistics in the container", [&] { return t.trace; });
    }
    return o.next();
}
MC_SCENARIO(shared_emitter)
{
    auto em = EventEmitterFactory::createEventEmitter<Event>(SAFE);
    int a = 0, b = 0;
    EventEmitterSubscriber<long> sa(nullptr, em, "A");
    sa.registerListener("x", [&](const long &) { a++; });
    {
        EventEmitterSubscriber<long> sb(nullptr, em, "B");
        sb.registerListener("y", [&](const long &) { b++; });
        em->emitEvent("A", 0, std::make_shared<const long>(5));
        em->emitEvent("B", 0, std::make_shared<const long>(5));
        mc::check(a == 1 && b == 1, "subscribers of one emitter get their own topics");
    }
    em->emitEvent("B", 0, std::make_shared<const long>(5));
    mc::check(b == 1, "a subscriber that is gone gets nothing");
    em->emitEvent("A", 0, std::make_shared<const long>(5));
    mc::check(a == 2, "destroying a subscriber leaves the other subscribers of the emitter alone");
}
// listeners that come and go, far more of them than usual: ids name one listener each
MC_SCENARIO(ids, o.horizon = 4000000)
{
    auto em = EventEmitterFactory::createEventEmitter<Event>(mc::choose(2) ? UNSAFE_MULTI : SAFE);
    int first = 0, last = 0;
    unsigned id = em->on(nullptr, "first", "A", [&](const Event &) { first++; });
    for (int i = 0; i < 70000; i++) {
        unsigned next = em->on(nullptr, "next", "A", [&](const Event &) { last++; });
        mc::check(next != id, "an id names one listener");
        if (i % 5000 == 0) {
            first = last = 0;
            em->emitEvent("A", 0, std::make_shared<const long>(i));
            mc::check(first == 1 && last == 1, "each listener is called once");
        }
        em->removeListener(nullptr, next);
    }
    first = last = 0;
    em->emitEvent("A", 0, std::make_shared<const long>(1));
    mc::check(first == 1 && last == 0, "removing listeners leaves the others in place");
}
// the publisher on top
MC_SCENARIO(provider)
{
    int type = mc::choose(3, "emitter"), pool = mc::choose(2, "pool"), how = mc::choose(3, "how");
    Books books;
    std::vector<long> got;
    {
        EventEmitterMiddlewareProvider<long> p(mc::choose(2, "container") ? &books : nullptr, "A", pool, nullptr, nullptr, (EventEmitterType) type);
        p.getSubscriber()->registerListener("x", [&](const long &x) { got.push_back(x); });
        for (long v = 1; v <= 3; v++) {
            if (how == 0)
                p.getPublisher()->publish(v);
            else if (how == 1)
                p.getPublisher()->publish(std::make_shared<const long>(v));
            else
                p.getPublisher()->processAndPublish([v](long &x) { x = v; });
            mc::check((long) got.size() == v && got.back() == v, "a publication reaches the listener once with what was put in");
        }
        auto f = p.getProcessForwarder<int>([](const int &s, long &d) { d = s * 2; });
        f->forwarderListenerFunction(21);
        mc::check(got.size() == 4 && got.back() == 42, "a forwarder publishes what its function made");
        if (auto st = p.getSubscriber()->getSubscriptionStats("x"))
            mc::check(st->totalProcessed == 4 && st->totalEnqueuedTimeInNs == 0, "an event handed over directly has not waited");
        p.getSubscriber()->removeListener("x");
        p.getPublisher()->publish(9l);
        mc::check(got.size() == 4, "a listener that left gets nothing");
    }
    mc::check(books.subs.empty() && books.pubs.empty(), "a provider that is gone leaves nothing in the container");
}
struct Reg
{
    Reg()
    {
        for (int t = 0; t < 3; t++) {
            for (int c = 0; c < 2; c++) {
                mc::register_fn(std::string(kinds[t]) + (c ? "_container" : ""), [=] {
                    Odo o;
                    while (sequence(o, (EventEmitterType) t, c, mc::thorough() ? 6 : 5));
                }, mc::Options());
                mc::register_fn(std::string("subscriber_") + kinds[t] + (c ? "_container" : ""), [=] {
                    Odo o;
                    while (subscriber(o, (EventEmitterType) t, c, mc::thorough() ? 6 : 5));
                }, mc::Options());
            }
            if (t)
                mc::register_fn(std::string("many_") + kinds[t], [=] {
                    Odo o;
                    while (many(o, (EventEmitterType) t));
                }, mc::Options());
        }
        mc::register_fn("reentrant", [] {
            Odo o;
            while (reentrant(o));
        }, mc::Options());
    }
} reg;
} // namespace
#include "main.inc"

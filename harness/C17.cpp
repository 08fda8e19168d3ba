// C17 request/reply handler: each callback runs once, for its own reply, whoever sends and answers and however nested
#include "enumerate.h"
#include <condition_variable>
#include <deque>
#include <klepsydra/core/callback_handler.h>
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <memory>
#include <mutex>
#include <thread>
using namespace kpsr;
namespace {
struct Request
{
    int id = 0, token = 0;
};
struct Reply
{
    int id = 0, value = 0;
};
typedef CallbackHandler<Request, Reply> Single;
typedef MultiThreadCallbackHandler<Request, Reply> Multi;
bool same(const Request &q, const Reply &r) { return q.id == r.id; }
struct Bus
{
    EventEmitterMiddlewareProvider<Request> q;
    EventEmitterMiddlewareProvider<Reply> r;
    Bus() : q(nullptr, "request", 0, nullptr, nullptr), r(nullptr, "reply", 0, nullptr, nullptr) {}
    std::unique_ptr<Single> handler(bool multi, const char *name = "handler")
    {
        if (multi)
            return std::unique_ptr<Single>(new Multi(name, q.getPublisher(), r.getSubscriber(), same));
        return std::unique_ptr<Single>(new Single(name, q.getPublisher(), r.getSubscriber(), same));
    }
    void reply(int id, int value = 0)
    {
        Reply x;
        x.id = id;
        x.value = value;
        r.getPublisher()->publish(x);
    }
};
mc::Options opt(int a, int b)
{
    mc::Options o;
    o.preempt[0] = a;
    o.preempt[1] = b;
    o.leak = true;
    return o;
}
// what a callback does when it runs
enum Act { PLAIN, ASK_SAME, ASK_OTHER, ASK_TWO, REPLY_SAME, REPLY_OTHER, THROW, ACTS };
const char *const acts[] = {"", " then asks the same", " then asks another", " then asks twice", " then gets the same reply again", " then gets the other reply", " then throws"};
struct Thrown
{};
// the handler as documented: the oldest request the reply correlates with is answered, once
struct Model
{
    struct Q
    {
        int id, token, act;
    };
    std::deque<Q> pending;
    std::vector<int> log; // tokens answered, in order of the callbacks' beginnings
    std::vector<int> asked;
    bool immediate;
    int tokens = 0;
    void ask(int id, int act)
    {
        int t = ++tokens;
        pending.push_back({id, t, act});
        asked.push_back(t);
        if (immediate && id == 1)
            reply(id);
    }
    void reply(int id)
    {
        for (auto i = pending.begin(); i != pending.end(); ++i)
            if (i->id == id) {
                Q q = *i;
                pending.erase(i);
                log.push_back(q.token);
                switch (q.act) {
                case ASK_SAME: ask(id, PLAIN); break;
                case ASK_OTHER: ask(1 - id, PLAIN); break;
                case ASK_TWO:
                    ask(id, PLAIN);
                    ask(1 - id, PLAIN);
                    break;
                case REPLY_SAME: reply(id); break;
                case REPLY_OTHER: reply(1 - id); break;
                case THROW: throw Thrown();
                }
                return;
            }
    }
};
struct Real
{
    Bus bus;
    std::unique_ptr<Single> h;
    std::vector<int> log, asked;
    int tokens = 0;
    bool wrong = false;
    Real(bool multi, bool immediate) : h(bus.handler(multi))
    {
        bus.q.getSubscriber()->registerListener("server", [this, immediate](const Request &q) {
            asked.push_back(q.token);
            if (immediate && q.id == 1)
                bus.reply(q.id, q.id);
        });
    }
    void ask(int id, int act)
    {
        Request q;
        q.id = id;
        q.token = ++tokens;
        int token = q.token;
        // the captured string makes a callback destroyed while it runs show
        std::string mark(40, (char) ('a' + token));
        h->requestAndReply(q, [this, id, act, token, mark](const Reply &r) {
            wrong |= r.id != id;
            log.push_back(token);
            switch (act) {
            case ASK_SAME: ask(id, PLAIN); break;
            case ASK_OTHER: ask(1 - id, PLAIN); break;
            case ASK_TWO:
                ask(id, PLAIN);
                ask(1 - id, PLAIN);
                break;
            case REPLY_SAME: bus.reply(id); break;
            case REPLY_OTHER: bus.reply(1 - id); break;
            case THROW: throw Thrown();
            }
            wrong |= mark != std::string(40, (char) ('a' + token));
        });
    }
};
bool sequence(Odo &o, int depth, int multi, int immediate)
{
    mc::Case one;
    std::string trace = std::string(multi ? "multi" : "single") + (immediate ? ", replies at once" : "");
    {
        Model m;
        m.immediate = immediate;
        Real r(multi, immediate);
        for (int d = 0; d < depth; d++) {
            int op = o.pick(5);
            bool mt = false, rt = false;
            if (op < 2) {
                int act = o.pick(d + 1 < depth || op == 1 ? (int) ACTS : 1);
                trace += "; ask " + std::to_string(op) + acts[act];
                try {
                    m.ask(op, act);
                } catch (Thrown &) {
                    mt = true;
                }
                try {
                    r.ask(op, act);
                } catch (Thrown &) {
                    rt = true;
                }
            } else {
                int id = op - 2; // 2: unknown
                trace += "; reply " + std::to_string(id);
                try {
                    m.reply(id);
                } catch (Thrown &) {
                    mt = true;
                }
                try {
                    r.bus.reply(id, id);
                } catch (Thrown &) {
                    rt = true;
                }
            }
            mc::check(mt == rt, "an exception of a callback reaches whoever delivered the reply", [&] { return trace; });
            mc::check(r.log == m.log, "a reply runs the oldest callback of its request, once, and no other", [&] { return trace; });
            mc::check(r.asked == m.asked, "each request is published once", [&] { return trace; });
            mc::check(!r.wrong, "a callback runs whole and with its own reply", [&] { return trace; });
        }
        auto n = r.log;
        r.h.reset();
        r.bus.reply(0);
        r.bus.reply(1);
        mc::check(r.log == n, "a handler that is gone runs nothing", [&] { return trace; });
    }
    return o.next();
}
MC_SCENARIO(histories, o = opt(0, 0))
{
    Odo o;
    int multi = mc::choose(2, "multi"), immediate = mc::choose(2, "immediate");
    while (sequence(o, mc::thorough() ? 5 : 4, multi, immediate))
        ;
}
// two handlers on the same topics: each has its own requests
MC_SCENARIO(two_handlers, o = opt(0, 0))
{
    bool multi = mc::choose(2, "multi");
    std::vector<int> got;
    {
        Bus bus;
        auto a = bus.handler(multi, "a"), b = bus.handler(!multi, "b");
        Request q;
        q.id = 1;
        if (mc::choose(2, "a asks"))
            a->requestAndReply(q, [&](const Reply &) { got.push_back(0); });
        if (mc::choose(2, "b asks"))
            b->requestAndReply(q, [&](const Reply &) { got.push_back(1); });
        std::vector<int> pend = {0, 0};
        if (mc::choose(2, "a gone"))
            a.reset();
        bus.reply(1);
        auto once = got;
        bus.reply(1);
        mc::check(got == once, "a request is answered once");
        for (int x : got)
            pend[x]++;
        mc::check(pend[0] <= 1 && pend[1] <= 1 && (a || !pend[0]), "each handler answers its own requests");
        mc::observe(pend[0] * 2 + pend[1]);
    }
}
// a box of requests a server thread answers
struct Box
{
    std::mutex m;
    std::condition_variable cv;
    std::deque<int> q;
    void put(int x)
    {
        std::lock_guard<std::mutex> l(m);
        q.push_back(x);
        cv.notify_all();
    }
    int get()
    {
        std::unique_lock<std::mutex> l(m);
        while (q.empty())
            cv.wait(l);
        int x = q.front();
        q.pop_front();
        return x;
    }
};
void exactlyOnce(int n)
{
    auto v = mc::recs(0);
    std::sort(v.begin(), v.end());
    std::vector<long> w;
    for (int i = 1; i <= n; i++)
        w.push_back(i);
    mc::check(v == w, "each callback runs exactly once", [&] { return mc::str(v); });
}
// two asking threads, one or two answering ones (each reply possibly sent twice)
MC_SCENARIO(requesters_and_repliers, o = opt(2, 3))
{
    int twice = mc::choose(2, "reply twice"), repliers = 1 + mc::choose(2, "repliers");
    {
        Bus bus;
        auto h = bus.handler(true);
        Box box;
        bus.q.getSubscriber()->registerListener("server", [&](const Request &q) { box.put(q.id); });
        auto ask = [&](int id) {
            Request q;
            q.id = id;
            h->requestAndReply(q, [id](const Reply &r) {
                mc::check(r.id == id, "a callback runs with its own reply");
                mc::rec(0, id);
            });
        };
        auto serve = [&](int n) {
            for (int i = 0; i < n; i++) {
                int id = box.get();
                bus.reply(id);
                if (twice)
                    bus.reply(id);
            }
        };
        std::thread t([&] { ask(2); });
        std::thread s([&] { serve(repliers == 1 ? 2 : 1); });
        ask(1);
        if (repliers == 2)
            serve(1);
        t.join();
        s.join();
    }
    exactlyOnce(2);
}
// replies at once, on the asking thread, while another thread does the same; callbacks ask on
MC_SCENARIO(immediate_and_chained, o = opt(3, 4))
{
    int chain = mc::choose(3, "chain");
    {
        Bus bus;
        auto h = bus.handler(true);
        bus.q.getSubscriber()->registerListener("server", [&](const Request &q) { bus.reply(q.id); });
        std::function<void(int, int)> ask = [&](int id, int then) {
            Request q;
            q.id = id;
            h->requestAndReply(q, [id, then, &ask](const Reply &r) {
                mc::check(r.id == id, "a callback runs with its own reply");
                mc::rec(0, id);
                if (then)
                    ask(then, 0);
            });
        };
        std::thread t([&] { ask(2, chain > 1 ? 4 : 0); });
        ask(1, chain > 0 ? 3 : 0);
        t.join();
    }
    exactlyOnce(2 + chain);
}
// the same reply from two threads, two requests it could answer: each callback once
MC_SCENARIO(same_id, o = opt(3, 4))
{
    int asks = 1 + mc::choose(2, "asks");
    {
        Bus bus;
        auto h = bus.handler(true);
        int n = 0;
        auto ask = [&] {
            Request q;
            q.id = 1;
            int token = ++n;
            h->requestAndReply(q, [token](const Reply &) { mc::rec(0, token); });
        };
        for (int i = 0; i < asks; i++)
            ask();
        std::thread t([&] { bus.reply(1); });
        bus.reply(1);
        if (mc::choose(2, "third"))
            bus.reply(1);
        t.join();
    }
    exactlyOnce(asks);
}
// a chain served by another thread: a callback on that thread asks while others ask
MC_SCENARIO(chained_elsewhere, o = opt(2, 3))
{
    {
        Bus bus;
        auto h = bus.handler(true);
        Box box;
        bus.q.getSubscriber()->registerListener("server", [&](const Request &q) { box.put(q.id); });
        std::function<void(int, int)> ask = [&](int id, int then) {
            Request q;
            q.id = id;
            h->requestAndReply(q, [id, then, &ask](const Reply &r) {
                mc::check(r.id == id, "a callback runs with its own reply");
                mc::rec(0, id);
                if (then)
                    ask(then, 0);
            });
        };
        std::thread s([&] {
            for (int i = 0; i < 3; i++)
                bus.reply(box.get());
        });
        ask(1, 3);
        ask(2, 0);
        s.join();
    }
    exactlyOnce(3);
}
// ---- many requests waiting, answered in another order, by several threads
void pending(int askers, int each, int repliers, bool twice, int order)
{
    {
        Bus bus;
        auto h = bus.handler(true);
        Box box;
        bus.q.getSubscriber()->registerListener("server", [&](const Request &q) { box.put(q.id); });
        auto ask = [&](int t) {
            for (int i = 0; i < each; i++) {
                Request q;
                int id = q.id = t * each + i + 1;
                h->requestAndReply(q, [id](const Reply &r) {
                    mc::check(r.id == id, "a callback runs with its own reply");
                    mc::rec(0, id);
                });
            }
        };
        auto serve = [&](int n) {
            std::vector<int> ids;
            for (int i = 0; i < n; i++) {
                ids.push_back(box.get());
                if (order == 0 || i == n - 1 || (order == 2 && ids.size() == 4)) {
                    while (!ids.empty()) {
                        bus.reply(ids.back());
                        if (twice)
                            bus.reply(ids.back());
                        ids.pop_back();
                    }
                }
            }
        };
        int total = askers * each;
        std::vector<std::thread> ts;
        for (int t = 1; t < askers; t++)
            ts.emplace_back(ask, t);
        for (int s = 0; s < repliers; s++)
            ts.emplace_back(serve, s == 0 ? total - (repliers - 1) * (total / repliers) : total / repliers);
        ask(0);
        for (auto &t : ts)
            t.join();
    }
    exactlyOnce(askers * each);
}
mc::Options deep(int a, int b)
{
    mc::Options o = opt(a, b);
    o.delays = true;
    return o;
}
MC_SCENARIO(pending_some, o = deep(2, 3)) { pending(2, 4, 2, mc::choose(2), mc::choose(3)); }
MC_SCENARIO(pending_three, o = deep(2, 2)) { pending(3, 3, 1, mc::choose(2), mc::choose(3)); }
MC_SCENARIO(pending_many, o = deep(0, 1)) { pending(2, 70, 2, mc::choose(2), mc::choose(3)); }
// far more than usual
MC_SCENARIO(pending_crowd, o = deep(0, 0))
{
    const int N = 1500;
    int order = mc::choose(3), kind = mc::choose(2, "thread safe");
    std::vector<int> ran(N + 1, 0);
    {
        Bus bus;
        auto h = bus.handler(kind);
        for (int i = 1; i <= N; i++) {
            Request q;
            q.id = i;
            h->requestAndReply(q, [&ran, i](const Reply &r) {
                mc::check(r.id == i, "a callback runs with its own reply");
                ran[i]++;
            });
        }
        for (int i = 0; i < N; i++)
            bus.reply(order == 0 ? i + 1 : order == 1 ? N - i : (i * 7) % N + 1);
    }
    for (int i = 1; i <= N; i++)
        mc::check(ran[i] == 1, "each callback runs exactly once", [&] { return "request " + std::to_string(i) + " of " + std::to_string(N); });
}
// many requests alike: whatever else is answered in between, each reply goes to the oldest it correlates with
MC_SCENARIO(pending_alike, o = deep(0, 0))
{
    const int KINDS[] = {1, 2, 3, 7, 20};
    const int SIZES[] = {3, 9, 20, 40, 100, 300};
    int kinds = KINDS[mc::choose(5, "kinds")], n = SIZES[mc::choose(6, "requests")], kind = mc::choose(2, "thread safe"), step = mc::choose(3);
    std::vector<std::deque<int>> waiting(kinds);
    std::vector<int> log;
    int expected = 0;
    {
        Bus bus;
        auto h = bus.handler(kind);
        int token = 0;
        auto ask = [&](int id) {
            Request q;
            q.id = id;
            int t = ++token;
            waiting[id].push_back(t);
            h->requestAndReply(q, [&log, t](const Reply &) { log.push_back(t); });
        };
        auto reply = [&](int id) {
            bus.reply(id);
            if (waiting[id].empty())
                return;
            int t = waiting[id].front();
            waiting[id].pop_front();
            expected++;
            mc::check((int) log.size() == expected && log.back() == t, "a reply runs the oldest callback it correlates with", [&] {
                return std::to_string(n) + " requests of " + std::to_string(kinds) + " kinds, reply " + std::to_string(expected) + " ran request "
                       + (log.empty() ? std::string("none") : std::to_string(log.back())) + ", not " + std::to_string(t);
            });
        };
        for (int i = 0; i < n; i++)
            ask(i % kinds);
        for (int i = 0; i < n; i++) {
            int id = step == 0 ? i % kinds : step == 1 ? (i / 3) % kinds : kinds - 1 - i * kinds / n;
            reply(id);
            if (i % 4 == 3)
                ask((i / 4) % kinds);
        }
        for (int id = 0; id < kinds; id++)
            while (!waiting[id].empty())
                reply(id);
    }
    mc::check((int) log.size() == expected, "each callback runs exactly once");
}
} // namespace
#include "main.inc"

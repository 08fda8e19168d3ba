// C19 container registry: attaches and detaches exactly what it is asked to, starts and stops exactly what is attached
// @repo: core/modules/core/src/core_container.cpp
#include "enumerate.h"
#include <klepsydra/core/core_container.h>
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <klepsydra/sdk/service.h>
#include <memory>
#include <thread>
using namespace kpsr;
namespace {
struct Svc : public Service
{
    Svc(Container *c, const std::string &n) : Service(c, nullptr, n) {}
    void start() override {}
    void stop() override {}
    void execute() override {}
};
// two of each kind, alike but for their identity
struct Items
{
    std::unique_ptr<Svc> s[2];
    std::unique_ptr<FunctionStats> f[2];
    std::unique_ptr<PublicationStats> p[2];
    std::unique_ptr<SubscriptionStats> u[2];
    std::unique_ptr<ServiceStats> v[2];
    Items()
    {
        for (int i = 0; i < 2; i++) {
            s[i].reset(new Svc(nullptr, "n"));
            f[i].reset(new FunctionStats("n"));
            p[i].reset(new PublicationStats("n", "t"));
            u[i].reset(new SubscriptionStats("n", "l", "t"));
            v[i].reset(new ServiceStats("n"));
        }
    }
    FunctionStats &stats(int k)
    {
        switch (k / 2) {
        case 0: return s[k % 2]->serviceStats;
        case 1: return *f[k % 2];
        case 2: return *p[k % 2];
        case 3: return *u[k % 2];
        default: return *v[k % 2];
        }
    }
};
const int KINDS = 5, N = 2 * KINDS;
const char *const kinds[] = {"service", "function", "publication", "subscription", "service statistics"};
std::string label(int k) { return std::string(kinds[k / 2]) + std::to_string(k % 2); }
void attach(CoreContainer &c, Items &x, int k)
{
    switch (k / 2) {
    case 0: c.attach(x.s[k % 2].get()); break;
    case 1: c.attach(x.f[k % 2].get()); break;
    case 2: c.attach(x.p[k % 2].get()); break;
    case 3: c.attach(x.u[k % 2].get()); break;
    case 4: c.attach(x.v[k % 2].get()); break;
    }
}
void detach(CoreContainer &c, Items &x, int k)
{
    switch (k / 2) {
    case 0: c.detach(x.s[k % 2].get()); break;
    case 1: c.detach(x.f[k % 2].get()); break;
    case 2: c.detach(x.p[k % 2].get()); break;
    case 3: c.detach(x.u[k % 2].get()); break;
    }
}
bool sequence(Odo &o, int depth)
{
    mc::Case one;
    {
        CoreContainer c(nullptr, "app");
        Items x;
        bool in[N] = {}, running = false;
        long starts[N] = {}, stops[N] = {};
        std::string trace;
        auto start = [&] {
            c.start();
            running = true;
            for (int k = 0; k < N; k++)
                starts[k] += in[k];
        };
        auto stop = [&] {
            c.stop();
            running = false;
            for (int k = 0; k < N; k++)
                stops[k] += in[k];
        };
        auto same = [&] {
            for (int k = 0; k < N; k++)
                mc::check(x.stats(k).starts == starts[k] && x.stats(k).stops == stops[k], "exactly the attached statistics are started and stopped with the container", [&] {
                    return trace + ": " + label(k) + " started " + std::to_string((long) x.stats(k).starts) + " and stopped " + std::to_string((long) x.stats(k).stops) + " times instead of " + std::to_string(starts[k]) + " and " + std::to_string(stops[k]);
                });
        };
        for (int d = 0; d < depth; d++) {
            int k = o.pick(N + N - 2 + 2);
            if (k == 0) {
                trace += " start";
                start();
            } else if (k == 1) {
                trace += " stop";
                stop();
            } else if ((k -= 2) < N) {
                if (in[k])
                    break; // attached once
                trace += " attach " + label(k);
                attach(c, x, k);
                in[k] = true;
                if (running)
                    starts[k]++;
            } else {
                k -= N;
                trace += " detach " + label(k);
                detach(c, x, k);
                in[k] = false;
            }
            same();
        }
        trace += " start";
        start();
        same();
        trace += " stop";
        stop();
        same();
        mc::check(c.getName() == "app" && c.getEnvironment() == nullptr, "the container keeps its name and environment");
    }
    return o.next();
}
MC_SCENARIO(nothing)
{
    CoreContainer c(nullptr, "app");
    c.attach((Service *) nullptr);
    c.attach((FunctionStats *) nullptr);
    c.attach((ServiceStats *) nullptr);
    c.attach((PublicationStats *) nullptr);
    c.attach((SubscriptionStats *) nullptr);
    c.detach((Service *) nullptr);
    c.detach((FunctionStats *) nullptr);
    c.detach((PublicationStats *) nullptr);
    c.detach((SubscriptionStats *) nullptr);
    c.start();
    c.stop();
}
// members that come and go by themselves: what is gone is not touched any more
MC_SCENARIO(lifetimes)
{
    CoreContainer c(nullptr, "app");
    int order = mc::choose(2, "order"), kind = mc::choose(3, "kind"), started = mc::choose(2, "started");
    std::unique_ptr<Svc> s[2];
    std::unique_ptr<EventEmitterMiddlewareProvider<long>> p[2];
    if (started)
        c.start();
    for (int i = 0; i < 2; i++) {
        s[i].reset(new Svc(&c, "same"));
        p[i].reset(new EventEmitterMiddlewareProvider<long>(&c, "same", 0, nullptr, nullptr, (EventEmitterType) kind));
        p[i]->getSubscriber()->registerListener("same", [](const long &) {});
    }
    s[order].reset();
    p[order].reset();
    long a = s[!order]->serviceStats.starts, b = p[!order]->getPublisher()->publicationStats.starts, d = p[!order]->getSubscriber()->getSubscriptionStats("same")->starts;
    c.start();
    mc::check(s[!order]->serviceStats.starts == a + 1 && p[!order]->getPublisher()->publicationStats.starts == b + 1 && p[!order]->getSubscriber()->getSubscriptionStats("same")->starts == d + 1, "those of the same name that stay are still attached");
    c.stop();
}
// two listeners of one subscriber, one leaves
MC_SCENARIO(listeners_leave)
{
    CoreContainer c(nullptr, "app");
    int kind = 1 + mc::choose(2, "kind"), order = mc::choose(2, "order");
    EventEmitterMiddlewareProvider<long> p(&c, "topic", 0, nullptr, nullptr, (EventEmitterType) kind);
    const char *names[] = {"x", "y"};
    for (auto n : names)
        p.getSubscriber()->registerListener(n, [](const long &) {});
    p.getSubscriber()->removeListener(names[order]);
    c.start();
    mc::check(p.getSubscriber()->getSubscriptionStats(names[!order])->starts == 1, "the listener that stays is still attached");
    c.stop();
}
// many members of each kind, one or two of which leave, wherever they stand
MC_SCENARIO(many)
{
    const int n = mc::choose(2, "size") ? 40 : 7;
    int kind = mc::choose(4, "kind");
    for (int first = 0; first < n; first++)
        for (int second = -1; second < n; second += n > 10 ? 3 : 1) {
            mc::Case one;
            std::vector<std::unique_ptr<Items>> items;
            CoreContainer c(nullptr, "app");
            for (int i = 0; i < n; i++) {
                items.emplace_back(new Items);
                attach(c, *items[i], 2 * kind);
            }
            std::vector<bool> in(n, true);
            for (int leaves : {first, second})
                if (leaves >= 0) {
                    detach(c, *items[leaves], 2 * kind);
                    in[leaves] = false;
                }
            c.start();
            attach(c, *items[first], 2 * kind);
            in[first] = true;
            c.stop();
            for (int i = 0; i < n; i++)
                mc::check(items[i]->stats(2 * kind).starts == in[i] && items[i]->stats(2 * kind).stops == in[i], "of many members exactly those attached are started and stopped", [&] {
                    return std::string(kinds[kind]) + std::to_string(i) + " of " + std::to_string(n) + " after " + std::to_string(first) + " and " + std::to_string(second) + " left";
                });
        }
}
// several threads
enum { ATTACH, DETACH, START, STOP };
typedef std::vector<std::vector<std::pair<int, int>>> Program;
void threads(const Program &p, unsigned before)
{
    Items x;
    {
        CoreContainer c(nullptr, "app");
        for (int k = 0; k < N; k++)
            if (before >> k & 1)
                attach(c, x, k);
        bool in[N];
        for (int k = 0; k < N; k++)
            in[k] = before >> k & 1;
        int nstart = 0, nstop = 0, last = -1;
        bool mixed = false;
        for (auto &t : p) {
            bool here = false;
            for (auto &op : t) {
                if (op.first == ATTACH)
                    in[op.second] = true;
                if (op.first == DETACH)
                    in[op.second] = false;
                if (op.first == START || op.first == STOP) {
                    nstart += op.first == START;
                    nstop += op.first == STOP;
                    last = op.first;
                    here = true;
                }
            }
            mixed |= here && (nstart + nstop > (int) t.size());
        }
        auto run = [&](size_t t) {
            for (auto &op : p[t])
                switch (op.first) {
                case ATTACH: attach(c, x, op.second); break;
                case DETACH: detach(c, x, op.second); break;
                case START: c.start(); break;
                case STOP: c.stop(); break;
                }
        };
        std::vector<std::thread> ts;
        for (size_t t = 1; t < p.size(); t++)
            ts.emplace_back(run, t);
        run(0);
        for (auto &t : ts)
            t.join();
        // who is attached is settled; whether the container runs is known if one thread alone decides
        for (int k = 0; k < N; k++) {
            auto &s = x.stats(k);
            mc::check(s.starts <= nstart && s.stops <= nstop, "statistics are not started or stopped more often than the container", [&] { return label(k); });
            if (in[k] && !mixed && last >= 0)
                mc::check(last == START ? s.starts >= 1 && s.started : !s.started, "what is attached runs with the container", [&] { return label(k); });
            if (in[k] && !mixed && last == STOP && nstart == 0)
                mc::check(s.starts == 0, "nothing is started by a stop");
        }
        long starts[N];
        for (int k = 0; k < N; k++)
            starts[k] = x.stats(k).starts;
        c.start();
        for (int k = 0; k < N; k++)
            mc::check(x.stats(k).starts == starts[k] + in[k], "exactly what was attached and not detached is in the container", [&] { return label(k); });
        mc::observe(starts[0] * 16 + starts[1]);
    }
}
struct Reg
{
    Reg()
    {
        mc::register_fn("sequences", [] {
            Odo o;
            while (sequence(o, mc::thorough() ? 5 : 4));
        }, mc::Options());
        auto ps = new std::vector<std::pair<Program, unsigned>>;
        // item 0 of each kind comes or goes in one thread, item 1 in the other, with the container started or stopped meanwhile
        for (int k = 0; k < N; k += 2)
            for (int j = 0; j < N; j += 2)
                for (int how = 0; how < 4; how++) {
                    int a = how & 1, b = how >> 1; // attach or detach
                    if ((k == 8 && a == DETACH) || (j == 8 && b == DETACH))
                        continue;
                    unsigned before = (a == DETACH ? 1u << k : 0) | (b == DETACH ? 1u << (j + 1) : 0);
                    std::pair<int, int> oa(a, k), ob(b, j + 1);
                    ps->push_back({{{oa}, {ob}}, before});
                    if (k == j || (k == 0 && j == 8)) {
                        ps->push_back({{{oa}, {ob}, {{START, 0}}}, before});
                        ps->push_back({{{oa}, {ob}, {{START, 0}, {STOP, 0}}}, before});
                    }
                    ps->push_back({{{oa, ob}, {{START, 0}}}, before});
                    ps->push_back({{{oa, ob}, {{START, 0}, {STOP, 0}}}, before});
                    ps->push_back({{{oa}, {{START, 0}, {STOP, 0}, {START, 0}}}, before});
                }
        mc::Options o;
        o.preempt[0] = 2;
        o.preempt[1] = 3;
        mc::register_fn("threads", [=] {
            auto &p = (*ps)[chooseOf((int) ps->size(), "program")];
            threads(p.first, p.second);
        }, o);
    }
} reg;
} // namespace
#include "main.inc"

// C11 schedulers: a task runs as often as asked, not before its time, and never once it was stopped
// @repo: core/modules/mem_mdlw/src/basic_scheduler.cpp high_performance/modules/high_performance/src/event_loop_scheduler.cpp
#include "enumerate.h"
#include <condition_variable>
#include <functional>
#include <klepsydra/high_performance/event_loop_scheduler.h>
#include <klepsydra/mem_core/basic_scheduler.h>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
using namespace kpsr;
typedef kpsr::mem::BasicScheduler Basic;
typedef kpsr::high_performance::EventLoopScheduler Loop;
namespace {
const int PERIOD = 1000; // microseconds
mc::Options opt(int a, int b, int t0, int t1)
{
    mc::Options o;
    o.preempt[0] = a;
    o.preempt[1] = b;
    o.timers[0] = t0;
    o.timers[1] = t1;
    o.leak = true;
    return o;
}
// one incarnation of a task: what it was asked and what it did
struct Task
{
    std::mutex m;
    std::condition_variable cv;
    long long asked, last = -1;
    bool repeat;
    int delay, runs = 0, over = 0;
    long long length, lasted = 0;
    bool stopped = false, inside = false, strict = false, shrink = false;
    Task(bool repeat, int delay, long long length) : asked(mc::mc_now_ns()), repeat(repeat), delay(delay), length(length) {}
    void run()
    {
        {
            std::lock_guard<std::mutex> l(m);
            long long now = mc::mc_now_ns();
            mc::check(!stopped, "a task that was stopped does not start again");
            mc::check(!inside, "a task does not run twice at once");
            mc::check(repeat || runs == 0, "a one-shot task runs once");
            mc::check(now >= asked + delay * 1000ll, "a task does not run before its time");
            mc::check(now >= asked + (runs + 1) * (delay * 1000ll), "a repeating task keeps its period");
            // strictly only if no time passes between the scheduler's look at the clock and this one
            mc::check(!strict || last < 0 || now >= last + delay * 1000ll, "a repeating task keeps its period");
            // the virtual clock stands while anything can run, so a run starts when it is due
            mc::check(!strict || last < 0 || now <= last + std::max((long long) delay, lasted) * 1000ll + 50000, "a repeating task starts again after its period, or at once if its run took longer", [&] { return std::to_string((now - last) / 1000) + " us after a run of " + std::to_string(lasted); });
            inside = true;
            last = now;
            runs++;
        }
        long long l2 = shrink && runs > 1 ? length / 8 : length;
        lasted = l2;
        if (l2)
            std::this_thread::sleep_for(std::chrono::microseconds(l2));
        std::lock_guard<std::mutex> l(m);
        inside = false;
        over++;
        cv.notify_all();
    }
    void wait(int n)
    {
        std::unique_lock<std::mutex> l(m);
        while (over < n)
            cv.wait(l);
    }
    void ended()
    {
        std::lock_guard<std::mutex> l(m);
        mc::check(!inside, "stopping a task waits for the run that has begun");
        stopped = true;
    }
    int now()
    {
        std::lock_guard<std::mutex> l(m);
        return over;
    }
};
enum Op { ONE_A, REP_A, LONG_A, ONE_B, STOP_A, STOP_B, WAIT_A, PAUSE, OPS };
const char *const names[] = {"once a", "repeat a", "repeat long a", "once b", "stop a", "stop b", "wait a", "pause"};
void run(Scheduler *s, const std::vector<int> &p, std::function<void()> destroy)
{
    std::vector<std::shared_ptr<Task>> all;
    std::map<std::string, std::shared_ptr<Task>> active;
    auto start = [&](const char *name, bool repeat, int length) {
        auto t = std::make_shared<Task>(repeat, PERIOD, length);
        s->startScheduledTask(name, PERIOD, repeat, [t] { t->run(); });
        if (active[name]) // replaced
            active[name]->ended();
        active[name] = t;
        all.push_back(t);
    };
    auto stop = [&](const char *name) {
        s->stopScheduledTask(name);
        if (active[name])
            active[name]->ended();
        active.erase(name);
    };
    for (int op : p)
        switch (op) {
        case ONE_A: start("a", false, 0); break;
        case REP_A: start("a", true, 300); break;
        case LONG_A: start("a", true, 1500); break;
        case ONE_B: start("b", false, 0); break;
        case STOP_A: stop("a"); break;
        case STOP_B: stop("b"); break;
        case WAIT_A:
            if (active["a"])
                active["a"]->wait(active["a"]->repeat ? 2 : 1);
            break;
        case PAUSE: std::this_thread::sleep_for(std::chrono::microseconds(PERIOD * 5 / 2)); break;
        }
    destroy();
    for (auto &t : all) {
        t->ended();
        mc::observe(t->repeat ? !!t->runs : t->runs);
    }
    std::this_thread::sleep_for(std::chrono::microseconds(3 * PERIOD));
}
struct Programs
{
    Programs()
    {
        add("basic", 4, 5, opt(1, 1, 0, 1));
        add("basic_timers", 3, 4, opt(1, 2, 1, 2));
        add("basic_deep", 3, 3, opt(2, 3, 1, 2));
    }
    void add(const char *name, int quick, int thorough, mc::Options o)
    {
        auto *all = new std::vector<std::vector<int>>[2];
        for (int t = 0; t < 2; t++) {
            Odo e;
            int depth = t ? thorough : quick;
            do {
                std::vector<int> p;
                for (int i = 0; i < depth; i++)
                    p.push_back(e.pick(OPS));
                if (p[0] <= ONE_B)
                    all[t].push_back(p);
            } while (e.next());
        }
        mc::register_fn(name, [all] {
            auto &v = all[mc::thorough()];
            auto &p = v[chooseOf((int) v.size(), "program")];
            std::string t;
            for (int op : p)
                t += std::string(names[op]) + "; ";
            mc::note(t);
            std::unique_ptr<Basic> s(new Basic());
            run(s.get(), p, [&] { s.reset(); });
        }, o);
    }
} programs;
// tasks of varying length: they neither pile up nor catch up
MC_SCENARIO(periods, o = opt(1, 2, 0, 0))
{
    int length = mc::choose(4, "length"), delay = mc::choose(3, "delay");
    Task t(true, delay * 500, length * 400);
    t.strict = true;
    t.shrink = mc::choose(2, "shorter then");
    {
        Basic s;
        s.startScheduledTask("a", delay * 500, true, [&] { t.run(); });
        t.wait(4);
        s.stopScheduledTask("a");
        t.ended();
    }
}
// a repeating task goes on, however often it has run
MC_SCENARIO(many_runs, o = opt(0, 0, 0, 0), o.horizon = 40000000)
{
    int delay = mc::choose(2, "delay") * 100, runs = mc::choose(2) ? (mc::thorough() ? 140000 : 70000) : 600;
    Task t(true, delay, 0), u(true, 300, 100);
    t.strict = delay || runs > 1000; // two tasks: one that never waits lets time pass
    {
        Basic s;
        s.startScheduledTask("a", delay, true, [&] { t.run(); });
        if (runs < 1000)
            s.startScheduledTask("b", 300, true, [&] { u.run(); });
        t.wait(runs);
        if (runs < 1000)
            u.wait(300);
        s.stopScheduledTask("a");
        t.ended();
        int n = u.now();
        if (runs < 1000)
            u.wait(n + 3);
        s.stopScheduledTask("b");
        u.ended();
    }
}
// runs that take minutes, hours, days
MC_SCENARIO(very_long_runs, o = opt(0, 1, 0, 0))
{
    const long long lengths[] = {999999, 1000001, 60000000, 2147483000, 2147484000, 2147485000, 2400000000ll, 4294967000ll, 4294968000ll, 4294970000ll, 5000000000ll, 86400000000ll, 8640000000000ll};
    const int delays[] = {0, 1, 1000, 1000000, 2147483647};
    int delay = delays[mc::choose(5, "delay")];
    Task t(true, delay, lengths[mc::choose(13, "length")]);
    t.strict = true;
    t.shrink = mc::choose(2, "shorter then");
    {
        Basic s;
        s.startScheduledTask("a", delay, true, [&] { t.run(); });
        t.wait(4);
        s.stopScheduledTask("a");
        t.ended();
    }
}
// somebody sets the time of day, at any moment: no task notices
MC_SCENARIO(clock_set, o = opt(1, 2, 0, 0))
{
    const long long steps[] = {-3600000000ll, -1000000, -PERIOD, -PERIOD / 2, PERIOD / 2, PERIOD, 1000000, 3600000000ll};
    int length = mc::choose(3, "length"), when = mc::choose(6, "when"), repeat = mc::choose(2, "repeat");
    long long by = steps[mc::choose(8, "step")];
    Task t(repeat, PERIOD, length * PERIOD * 3 / 4);
    t.strict = true;
    {
        Basic s;
        std::thread admin([&] {
            std::this_thread::sleep_for(std::chrono::microseconds(when * 450));
            mc::mc_step_wall(by * 1000);
        });
        s.startScheduledTask("a", PERIOD, repeat, [&] { t.run(); });
        t.wait(repeat ? 4 : 1);
        s.stopScheduledTask("a");
        t.ended();
        admin.join();
    }
}
// delays up to the largest there is
MC_SCENARIO(long_delays, o = opt(0, 0, 0, 0))
{
    const int delays[] = {0, 1, 999, 1000, 1001, 32768, 65536, 1000000, 2147484, 5000000, 1000000000, 2147483647};
    int delay = delays[mc::choose(12, "delay")], repeat = mc::choose(2, "repeat"), stopped = mc::choose(2, "stopped before");
    Task t(repeat, delay, 0);
    t.strict = true;
    {
        Basic s;
        s.startScheduledTask("a", delay, repeat, [&] { t.run(); });
        if (stopped) {
            std::this_thread::sleep_for(std::chrono::microseconds(delay - delay / 4));
            mc::check(delay < 4 || t.now() == 0, "a task does not run before its time");
        } else {
            t.wait(1 + repeat);
            mc::check(mc::mc_now_ns() <= t.asked + (1 + repeat) * (delay * 1000ll + 100000), "a task runs once its time has come");
        }
        s.stopScheduledTask("a");
        t.ended();
    }
    mc::check(!stopped || delay < 4 || t.runs == 0, "a task stopped before its time does not run");
}
// stopping a name, or a service, that was not started stops nothing else, whatever the others are called
MC_SCENARIO(only_its_own, o = opt(0, 0, 0, 0))
{
    const std::string names[] = {"b", "", "a", "c", "ba", "B", "b ", std::string(80, 'b'), std::string(80, 'b') + "c"};
    int stop = mc::choose(9, "stop"), other = mc::choose(9, "other"), service = mc::choose(2, "service"), kind = mc::choose(2, "scheduler");
    if (stop == other)
        return;
    struct Pub : public Publisher<std::function<void()>>
    {
        Pub() : Publisher<std::function<void()>>(nullptr, "p", "p") {}
        void processAndPublish(std::function<void(std::function<void()> &)>) override {}
        void internalPublish(const std::function<void()> &f) override { f(); }
        void internalPublish(std::shared_ptr<const std::function<void()>> f) override { (*f)(); }
    } pub;
    struct Svc : public Service
    {
        Svc(const std::string &name) : Service(nullptr, nullptr, name) {}
        void start() override {}
        void stop() override {}
        void execute() override {}
    } svc(names[stop]);
    Task t(true, PERIOD, 0), m(false, 3 * PERIOD, 0), own(true, PERIOD, 0);
    {
        Basic basic;
        Loop loop(&pub);
        Scheduler &s = kind ? (Scheduler &) loop : basic;
        s.startScheduledTask(names[other], PERIOD, true, [&] { t.run(); });
        s.startScheduledTask("m", 3 * PERIOD, false, [&] { m.run(); });
        bool running = mc::choose(2, "running");
        if (running)
            s.startScheduledTask(names[stop], PERIOD, true, [&] { own.run(); });
        t.wait(1);
        if (service)
            s.stopScheduledService(&svc);
        else
            s.stopScheduledTask(names[stop]);
        own.ended();
        t.wait(3);
        m.wait(1);
        mc::check(running || own.runs == 0, "a task that was not started does not run");
    }
    t.ended();
    m.ended();
}
// stopped before its time a task does not run; stopped after it, it has run; destruction counts as a stop
MC_SCENARIO(stopped_in_time, o = opt(2, 3, 0, 0))
{
    int repeat = mc::choose(2, "repeat"), half = mc::choose(4, "halves"), how = mc::choose(3, "how"), length = mc::choose(2, "length");
    Task t(repeat, PERIOD, length * PERIOD / 4), other(false, PERIOD, 0);
    {
        Basic s;
        s.startScheduledTask("a", PERIOD, repeat, [&] { t.run(); });
        if (half)
            std::this_thread::sleep_for(std::chrono::microseconds(half * PERIOD / 2 + half / 2 * 100));
        long long at = mc::mc_now_ns() - t.asked;
        if (how == 0)
            s.stopScheduledTask("a");
        if (how == 1)
            s.startScheduledTask("a", PERIOD, false, [&] { other.run(); });
        if (how < 2) {
            t.ended();
            mc::check(at >= PERIOD * 1000 || t.runs == 0, "a task stopped before its time does not run");
            mc::check(at <= PERIOD * 1000 || t.runs >= 1, "a task runs once its time has come");
        }
    }
    t.ended();
    mc::check(half >= 2 || t.runs == 0, "a task stopped before its time does not run");
    mc::check(half < 2 || t.runs >= 1, "a task runs once its time has come");
    mc::check(other.runs == 0, "a task stopped before its time does not run");
}
// however long a task takes: stopping it and destroying the scheduler wait for it
MC_SCENARIO(ended_while_slow, o = opt(0, 1, 0, 0), o.naps = true, o.horizon = 4000000)
{
    const int ms[] = {30, 200, 2500};
    int nap = ms[mc::choose(3)], how = mc::choose(3, "stop, replace or destroy"), repeat = mc::choose(2);
    std::atomic<int> inside{0}, n{0};
    {
        Basic s;
        s.startScheduledTask("a", PERIOD, repeat, [&] {
            mc::check(inside.exchange(1) == 0, "a task does not overlap itself");
            std::this_thread::sleep_for(std::chrono::milliseconds(nap));
            inside = 0;
            n++;
        });
        while (!inside)
            std::this_thread::sleep_for(std::chrono::microseconds(50));
        if (how == 0)
            s.stopScheduledTask("a");
        if (how == 1)
            s.startScheduledTask("a", 1000000, false, [] {});
        if (how < 2) {
            mc::check(inside == 0 && n >= 1, "stopping a task waits until it has finished");
            int was = n;
            std::this_thread::sleep_for(std::chrono::milliseconds(nap));
            mc::check(n == was && inside == 0, "a stopped task does not run");
        }
    }
    mc::check(inside == 0 && n >= 1, "destruction waits until a task has finished");
    int was = n;
    std::this_thread::sleep_for(std::chrono::milliseconds(nap));
    mc::check(n == was && inside == 0, "a stopped task does not run");
}
// services run only while they are up, under their own names
struct Svc : public Service
{
    Task t;
    Svc(const char *name, bool repeat) : Service(nullptr, nullptr, name), t(repeat, PERIOD, 0) {}
    void start() override {}
    void stop() override {}
    void execute() override { t.run(); }
};
MC_SCENARIO(services, o = opt(2, 3, 1, 2))
{
    int repeat = mc::choose(2, "repeat"), up = mc::choose(2, "up"), kind = mc::choose(2, "scheduler"), end = mc::choose(3, "end");
    Svc a("a", repeat), b("b", false), idle("c", true);
    struct Pub : public Publisher<std::function<void()>>
    {
        Pub() : Publisher<std::function<void()>>(nullptr, "p", "p") {}
        void processAndPublish(std::function<void(std::function<void()> &)>) override {}
        void internalPublish(const std::function<void()> &f) override { f(); }
        void internalPublish(std::shared_ptr<const std::function<void()>> f) override { (*f)(); }
    } pub;
    a.startup();
    if (up)
        b.startup();
    {
        Basic basic;
        Loop loop(&pub);
        Scheduler &s = kind ? (Scheduler &) loop : basic;
        s.startScheduledService(PERIOD, repeat, &a);
        s.startScheduledService(PERIOD, false, &b);
        a.t.wait(1 + repeat);
        if (up && end == 0)
            b.t.wait(1);
        if (end != 1) {
            s.stopScheduledService(&a);
            a.t.ended();
            s.stopScheduledService(&idle); // never started
        }
        if (end == 2)
            s.stopScheduledTask("b"); // a service goes by its name
    }
    mc::check(up || b.t.runs == 0, "a service that is not up does not run");
    mc::check(idle.t.runs == 0, "a service that was not scheduled does not run");
    a.t.ended();
    b.t.ended();
    std::this_thread::sleep_for(std::chrono::microseconds(3 * PERIOD));
}
// on an event loop each expiry publishes the task once, and none after the stop
MC_SCENARIO(on_event_loop, o = opt(1, 2, 1, 2))
{
    int repeat = mc::choose(2, "repeat"), stop = mc::choose(3, "stop");
    int published = 0, after = -1;
    struct Pub : public Publisher<std::function<void()>>
    {
        std::mutex m;
        std::vector<std::function<void()>> q;
        Pub() : Publisher<std::function<void()>>(nullptr, "p", "p") {}
        void processAndPublish(std::function<void(std::function<void()> &)>) override {}
        void internalPublish(const std::function<void()> &f) override
        {
            std::lock_guard<std::mutex> l(m);
            q.push_back(f);
        }
        void internalPublish(std::shared_ptr<const std::function<void()>> f) override { internalPublish(*f); }
        int size()
        {
            std::lock_guard<std::mutex> l(m);
            return (int) q.size();
        }
    } pub;
    long long begin = mc::mc_now_ns();
    int runs[2] = {0, 0};
    {
        Loop s(&pub);
        s.startScheduledTask("a", PERIOD, repeat, [&] { runs[0]++; });
        s.startScheduledTask("b", 2 * PERIOD, false, [&] { runs[1]++; });
        if (stop == 0) {
            s.stopScheduledTask("a");
            after = pub.size();
        }
        while (pub.size() < (stop ? 2 + repeat : 1))
            std::this_thread::sleep_for(std::chrono::microseconds(PERIOD / 2));
        if (stop == 1) {
            s.stopScheduledTask("a");
            after = pub.size();
        }
        published = pub.size();
    }
    long long elapsed = (mc::mc_now_ns() - begin) / 1000;
    mc::check(pub.size() >= published, "published tasks stay published");
    for (auto &f : pub.q)
        f();
    mc::check(runs[1] <= 1 && (repeat || runs[0] <= 1), "a one-shot task runs once");
    mc::check(runs[0] <= elapsed / PERIOD, "a repeating task keeps its period");
    if (stop == 0)
        mc::check(runs[0] <= after, "a task that was stopped is not published again");
    if (!repeat && stop)
        mc::check(runs[0] == 1 && runs[1] == 1, "each task runs");
}
} // namespace
#include "main.inc"

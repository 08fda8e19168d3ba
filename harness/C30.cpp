// C30 listeners run exactly the actions registered for a state: every short history of registrations, removals and steps
// @repo: state_machine/modules/state_machine/src/state_machine_impl.cpp
// @repo: state_machine/modules/state_machine/src/state_impl.cpp
// @repo: state_machine/modules/state_machine/src/transition_impl.cpp
// @repo: state_machine/modules/state_machine/src/sm_factory_impl.cpp
// @repo: state_machine/modules/state_machine/src/state_machine_listener.cpp
// @flags: --no-sdk
#include "sm.h"
#include <algorithm>
using namespace kpsr::fsm;
namespace {
enum Kind { ACT, ONCE, PER };
const char *kn[] = {"action", "one-off", "periodic"};
struct RefListener
{
    std::string prefix;
    std::map<std::string, std::vector<int>> l[3];
    std::vector<std::string> out;
    explicit RefListener(const std::string &id) : prefix(id.empty() ? "" : id + ":") {}
    void add(int k, const std::string &s, int id) { l[k][prefix + s].push_back(id); }
    void remove(const std::string &s)
    {
        for (auto &m : l)
            m.erase(prefix + s);
    }
    void remove()
    {
        for (auto &m : l)
            m.clear();
    }
    void run(std::vector<int> v, const std::string &s)
    {
        for (int i : v)
            out.push_back(std::to_string(i) + "@" + s);
    }
    void notify(const std::string &s, bool changed)
    {
        if (changed) {
            run(l[ONCE][s], s);
            l[ONCE][s].clear();
            run(l[ACT][s], s);
        }
        run(l[PER][s], s);
    }
};
std::string join(const std::vector<std::string> &v)
{
    std::string s;
    for (auto &x : v)
        s += x + " ";
    return s;
}
const char *ST[] = {"on", "one"};
// names that contain each other, the machine's or a separator
const char *ODD_MACHINE[] = {"on", "o", "one", "one:on", ":", "on:", "", "m", " ", "m:"};
const char *ODD_STATE[][2] = {{"on", "one"}, {"", "on"}, {"on:on", "on"}, {":", "on"}, {"one:on", "on"}, {"m", "m:m"}, {"on", "On"}, {"on ", "on"}};
struct Bench
{
    StateMachineListener lis;
    RefListener ref;
    std::function<void(const std::string &, bool)> obs;
    std::vector<std::string> got;
    int n = 0;
    explicit Bench(const std::string &id) : lis(id), ref(id), obs(lis.getObserverFunc()) {}
    void add(int kind, const std::string &s)
    {
        int id = n++;
        auto f = [this, id](const std::string &st) { got.push_back(std::to_string(id) + "@" + st); };
        if (kind == ACT)
            lis.addAction(s, f);
        if (kind == ONCE)
            lis.addOneOffAction(s, f);
        if (kind == PER)
            lis.addPeriodicAction(s, f);
        ref.add(kind, s, id);
    }
    void apply(int op)
    {
        if (op < 6)
            add(op / 2, ST[op % 2]);
        else if (op < 10) {
            std::string s = ref.prefix + ST[op % 2];
            obs(s, op < 8);
            ref.notify(s, op < 8);
        } else if (op < 12) {
            lis.removeActions(ST[op % 2]);
            ref.remove(ST[op % 2]);
        } else {
            lis.removeActions();
            ref.remove();
        }
    }
    static std::string name(int op)
    {
        if (op < 6)
            return std::string("add ") + kn[op / 2] + " " + ST[op % 2];
        if (op < 10)
            return std::string(op < 8 ? "enter " : "stay ") + ST[op % 2];
        if (op < 12)
            return std::string("remove ") + ST[op % 2];
        return "remove all";
    }
};
const int NOPS = 13;
void one(const std::string &id, const std::vector<int> &ops)
{
    mc::Case one_sequence;
    Bench b(id);
    for (int o : ops)
        b.apply(o);
    for (int o : {6, 7, 8, 9, 6})
        b.apply(o); // make the final tables visible
    if (b.got != b.ref.out) {
        std::string s;
        for (int o : ops)
            s += Bench::name(o) + "; ";
        mc::fail("the actions run are exactly those registered | " + s + "ran " + join(b.got) + "expected " + join(b.ref.out));
    }
}
void histories(const std::string &id, int depth)
{
    int pre = depth > 4 ? depth - 3 : 1;
    std::vector<int> ops;
    for (int i = 0; i < pre; i++)
        ops.push_back(mc::choose(NOPS, "op"));
    std::vector<int> ix(depth - pre, 0);
    ops.resize(depth);
    for (;;) {
        for (int i = pre; i < depth; i++)
            ops[i] = ix[i - pre];
        one(id, ops);
        int i = depth - pre - 1;
        while (i >= 0 && ++ix[i] == NOPS)
            ix[i--] = 0;
        if (i < 0)
            break;
    }
}
void odd_names()
{
    const char *keep[] = {ST[0], ST[1]};
    int st = mc::choose(8, "states"), id = mc::choose(10, "machine");
    ST[0] = ODD_STATE[st][0];
    ST[1] = ODD_STATE[st][1];
    histories(ODD_MACHINE[id], mc::thorough() ? 4 : 3);
    ST[0] = keep[0];
    ST[1] = keep[1];
}
// the whole path: machine -> observer -> actions, several listeners, one of them for another machine
void with_machine()
{
    ConfigStateMachine c;
    c.id = "m";
    c.states = {{"on", {{"one", "x"}, {"on", "y"}}}, {"one", {{"on", "x"}}}};
    SMFactoryImpl f;
    auto m = f.createStateMachine(c);
    RefMachine rm(c);
    rm.observers = 1;
    Bench a("m"), b("m"), other("n");
    int without = mc::choose(3, "kind");
    for (Bench *x : {&a, &b, &other}) {
        m->registerObserver(x->lis.getObserverFunc());
        for (int k = 0; k < 3; k++)
            for (int s = 0; s < 2; s++)
                if (x != &b || k != without)
                    x->add(k, ST[s]);
    }
    m->start();
    rm.start();
    for (int i = 0; i < (mc::thorough() ? 7 : 5); i++)
        switch (mc::choose(4, "step")) {
        case 0: m->enqueueAndUpdate("x"); rm.enqueue("x"); rm.update(); break;
        case 1: m->enqueueAndUpdate("y"); rm.enqueue("y"); rm.update(); break;
        case 2: m->update(); rm.update(); break;
        case 3: m->reset(); m->start(); rm.reset(); rm.start(); break;
        }
    for (Bench *x : {&a, &b, &other}) {
        for (auto &n : rm.out)
            x->ref.notify(n.state, n.changed);
        mc::check(x->got == x->ref.out, "each listener runs its own actions for its own machine",
                  [&] { return x->ref.prefix + " ran " + join(x->got) + "expected " + join(x->ref.out); });
    }
    mc::observe(join(a.got));
}
// actions that change the registrations or drive the machine from inside a step.  An action added or removed while
// a step runs may or may not take part in that step; every other one runs exactly once, one-off ones never twice.
void reentrant(int kind)
{
    ConfigStateMachine c;
    c.id = "m";
    c.states = {{"on", {{"one", "x"}, {"on", "y"}}}, {"one", {{"on", "x"}, {"one", "y"}}}};
    SMFactoryImpl f;
    auto m = f.createStateMachine(c);
    StateMachineListener lis("m");
    m->registerObserver(lis.getObserverFunc());
    struct A
    {
        int kind;
        std::string state;
        int runs = 0;
        int must = 0, may = 0; // runs it owes / is allowed on top
        bool live = true;
        int born = 0;
    };
    std::vector<A> acts;
    int steps = 0, depth = 0;
    std::string trail;
    int before = mc::choose(3, "registered before"), after = mc::choose(3, "registered after");
    int react = mc::choose(9, "reaction");
    int reacts = 0, budget = 1 + mc::choose(2, "times");
    std::function<void(int, std::string)> add;
    std::string cur = "on";
    // account for one step into `s`
    auto owe = [&](const std::string &s, bool changed) {
        for (auto &a : acts)
            if (a.live && a.state == s && (changed || a.kind == PER)) {
                a.must++;
                if (a.kind == ONCE)
                    a.live = false;
            }
    };
    auto fuzzy = [&](A &a) { // added or removed inside a step
        a.may = 1 + depth;
    };
    auto step = [&](const char *ev) {
        bool changed = true;
        std::string s;
        if (std::string(ev) == "start")
            s = "on";
        else if (std::string(ev) == "x")
            s = cur == "on" ? "one" : "on";
        else if (std::string(ev) == "y")
            s = cur;
        else {
            s = cur;
            changed = false;
        }
        cur = s;
        owe(s, changed);
        depth++;
        steps++;
        if (std::string(ev) == "start")
            m->start();
        else if (*ev)
            m->enqueueAndUpdate(ev);
        else
            m->update();
        depth--;
    };
    add = [&](int k, std::string st) {
        int id = acts.size();
        acts.push_back({k, st});
        if (depth)
            fuzzy(acts.back());
        auto fn = [&, id](const std::string &) {
            acts[id].runs++;
            trail += std::to_string(id) + " ";
            if (id != before || reacts >= budget)
                return;
            reacts++;
            switch (react) {
            case 0: add(kind, acts[id].state); break;
            case 1:
                for (int i = 0; i < 3; i++)
                    add(i, acts[id].state);
                break;
            case 2:
                for (auto &a : acts)
                    if (a.state == acts[id].state && a.live) {
                        a.live = false;
                        fuzzy(a);
                    } else if (a.state == acts[id].state && a.kind == ONCE)
                        fuzzy(a);
                lis.removeActions(acts[id].state);
                break;
            case 3:
                for (auto &a : acts) {
                    a.live = false;
                    fuzzy(a);
                }
                lis.removeActions();
                break;
            case 4: step("x"); break;
            case 5: step("y"); break;
            case 6: step(""); break;
            case 7: m->enqueueEvent("x"); break;
            case 8: add(kind, acts[id].state == "on" ? "one" : "on"); break;
            }
        };
        if (k == ACT)
            lis.addAction(st, fn);
        if (k == ONCE)
            lis.addOneOffAction(st, fn);
        if (k == PER)
            lis.addPeriodicAction(st, fn);
    };
    for (int i = 0; i < before; i++)
        add(kind, "on");
    add(kind, "on"); // the one that reacts
    for (int i = 0; i < after; i++)
        add(kind, "on");
    add((kind + 1) % 3, "on");
    add(kind, "one");
    auto verify = [&](const char *when) {
        for (size_t i = 0; i < acts.size(); i++) {
            A &a = acts[i];
            bool ok = a.may ? a.runs <= a.must + a.may && a.runs + a.may >= a.must : a.runs == a.must;
            if (a.kind == ONCE)
                ok = ok && a.runs <= 1;
            mc::check(ok, "actions not touched by a step run exactly once for it",
                      [&] { return std::string(when) + ": " + kn[a.kind] + " " + std::to_string(i) + " of " + a.state + " ran " + std::to_string(a.runs) +
                                   " expected " + std::to_string(a.must) + "(+" + std::to_string(a.may) + ") trail " + trail; });
        }
    };
    step("start");
    verify("start");
    // from here on the reaction is over or happens again on a later step; afterwards everything is exact again
    const char *evs[] = {"x", "y", ""};
    for (int i = 0; i < 3; i++) {
        if (react == 7 && reacts && i == 0) {
            step("x"); // the queued event is applied first
            m->reset();
            return;
        }
        step(evs[mc::choose(3, "event")]);
        verify("step");
    }
    reacts = budget;
    for (auto &a : acts) { // what was added or removed in a step is in force for the next ones
        if (a.kind == ONCE && !a.live)
            a.must = a.runs;
        else
            a.must = a.runs;
        a.may = 0;
        if (a.kind == ONCE && a.runs)
            a.live = false;
    }
    step("y");
    verify("after");
    step("x");
    verify("after");
    step("x");
    verify("after");
    step("");
    verify("after");
}
// several listeners on one machine; an action of one of them moves the machine on from inside the step
void shared_machine()
{
    ConfigStateMachine c;
    c.id = "m";
    c.states = {{"a", {{"b", "x"}, {"a", "y"}}}, {"b", {{"c", "x"}, {"b", "y"}}}, {"c", {{"a", "x"}, {"c", "y"}}}};
    SMFactoryImpl f;
    auto m = f.createStateMachine(c);
    int listeners = 1 + mc::choose(3, "listeners"), actor = mc::choose(listeners, "actor"), kind = mc::choose(3, "kind"), react = mc::choose(4, "reaction"), where = mc::choose(3, "state"), budget = 1 + mc::choose(2, "times");
    const std::string names[] = {"a", "b", "c"};
    std::vector<std::unique_ptr<StateMachineListener>> lis;
    std::vector<std::vector<std::vector<int>>> ran(listeners, std::vector<std::vector<int>>(3, std::vector<int>(3))); // listener, kind, state
    int entered[3] = {}, stepped[3] = {}, cur = 0, reacts = 0;
    auto step = [&](const std::string &ev) {
        if (ev == "x")
            cur = (cur + 1) % 3;
        if (ev == "reset")
            cur = 0;
        stepped[cur]++;
        if (ev != "")
            entered[cur]++;
        if (ev == "start")
            m->start();
        else if (ev == "reset") {
            m->reset();
            m->start();
        } else if (ev == "")
            m->update();
        else
            m->enqueueAndUpdate(ev);
    };
    for (int l = 0; l < listeners; l++) {
        lis.emplace_back(new StateMachineListener("m"));
        for (int s = 0; s < 3; s++)
            for (int k = 0; k < 3; k++) {
                auto fn = [&, l, k, s](const std::string &st) {
                    mc::check(st == "m:" + names[s], "an action is told its state");
                    ran[l][k][s]++;
                    if (l == actor && k == kind && s == where && reacts < budget) {
                        reacts++;
                        const char *evs[] = {"x", "y", "", "reset"};
                        step(evs[react]);
                    }
                };
                if (k == ACT)
                    lis[l]->addAction(names[s], fn);
                if (k == ONCE)
                    lis[l]->addOneOffAction(names[s], fn);
                if (k == PER)
                    lis[l]->addPeriodicAction(names[s], fn);
            }
        m->registerObserver(lis[l]->getObserverFunc());
    }
    step("start");
    for (int i = 0; i < 4; i++) {
        const char *evs[] = {"x", "y", ""};
        step(evs[mc::choose(3, "event")]);
    }
    for (int l = 0; l < listeners; l++)
        for (int s = 0; s < 3; s++) {
            auto &r = ran[l];
            mc::check(r[ACT][s] == entered[s] && r[ONCE][s] == (entered[s] > 0) && r[PER][s] == stepped[s], "every listener runs its actions once for each entry and step, whichever of them moves the machine on",
                      [&] { return "listener " + std::to_string(l) + " state " + names[s] + " entered " + std::to_string(entered[s]) + " ran " + std::to_string(r[ACT][s]) + " one-off " + std::to_string(r[ONCE][s]) + " steps " + std::to_string(stepped[s]) + " ran " + std::to_string(r[PER][s]); });
        }
}
// many actions for one state, many states, many visits
void many()
{
    const int sizes[] = {1, 5, 17, 33, 70, 260};
    int n = sizes[mc::choose(6, "actions")], states = sizes[mc::choose(5, "states")], visits = sizes[mc::choose(5, "visits")];
    if ((long) n * states * visits > 100000)
        return;
    Bench b("m");
    for (int i = 0; i < n; i++)
        for (int s = 0; s < states; s++)
            for (int k = 0; k < 3; k++)
                b.add(k, "s" + std::to_string(s));
    auto verify = [&] {
        mc::check(b.got == b.ref.out, "the actions run are exactly those registered", [&] { return std::to_string(n) + " actions of each kind for each of " + std::to_string(states) + " states: " + std::to_string(b.got.size()) + " ran instead of " + std::to_string(b.ref.out.size()); });
        b.got.clear();
        b.ref.out.clear();
    };
    auto step = [&](int s, bool entered) {
        std::string st = "m:s" + std::to_string(s % states);
        b.obs(st, entered);
        b.ref.notify(st, entered);
        verify();
    };
    for (int i = 0; i < visits; i++) {
        step(i, true);
        step(i, false);
    }
    for (int s = 0; s < states; s += 2) {
        b.lis.removeActions("s" + std::to_string(s));
        b.ref.remove("s" + std::to_string(s));
    }
    for (int s = 0; s < states; s++)
        step(s, true);
}
struct Reg
{
    Reg()
    {
        auto add = [](const std::string &n, std::function<void()> f) {
            mc::Options o;
            o.seconds[0] = 100;
            o.seconds[1] = 600;
            mc::register_fn(n, f, o);
        };
        add("histories", [] { histories("", mc::thorough() ? 6 : 5); });
        add("histories_named", [] { histories("m", mc::thorough() ? 5 : 4); });
        add("odd_names", odd_names);
        add("with_machine", with_machine);
        add("shared_machine", shared_machine);
        add("many", many);
        for (int k = 0; k < 3; k++)
            add(std::string("reentrant_") + kn[k], [k] { reentrant(k); });
    }
} r;
} // namespace
#include "main.inc"

// C29 a state machine takes exactly the configured transitions: every small machine x every short history
// @repo: state_machine/modules/state_machine/src/state_machine_impl.cpp
// @repo: state_machine/modules/state_machine/src/state_impl.cpp
// @repo: state_machine/modules/state_machine/src/transition_impl.cpp
// @repo: state_machine/modules/state_machine/src/sm_factory_impl.cpp
// @repo: state_machine/modules/state_machine/src/state_machine_listener.cpp
// @flags: --no-sdk
#include "sm.h"
using namespace kpsr::fsm;
namespace {
enum { EUX, EUY, UP, EX, EY, RS, STOP, START, RESET, OBS, UNOBS, EU, ENONE };
const char *opn[] = {"go(x)", "go(y)", "update", "queue(x)", "queue(y)", "reset+start", "stop", "start", "reset", "observe", "unobserve", "go(unknown)", "queue()"};
struct Pair
{
    std::shared_ptr<StateMachine> m;
    RefMachine r;
    std::vector<Note> got;
    Pair(const ConfigStateMachine &c, bool byHand) : r(c)
    {
        if (byHand) {
            std::vector<std::shared_ptr<State>> st;
            for (auto &s : c.states) {
                std::vector<std::shared_ptr<Transition>> tr;
                for (auto &t : s.transitions)
                    tr.push_back(std::make_shared<TransitionImpl>(t.destinationId, t.event));
                st.push_back(std::make_shared<StateImpl>(s.id, tr));
            }
            m = std::make_shared<StateMachineImpl>(c.id, st, c.states[0].id);
        } else {
            SMFactoryImpl f;
            m = f.createStateMachine(c);
        }
    }
    void observe()
    {
        m->registerObserver([this](const std::string &s, bool c) { got.push_back({s, c}); });
        r.observers++;
    }
    void apply(int op)
    {
        switch (op) {
        case EUX: m->enqueueAndUpdate("x"); r.enqueue("x"); r.update(); break;
        case EUY: m->enqueueAndUpdate("xx"); r.enqueue("xx"); r.update(); break;
        case UP: m->update(); r.update(); break;
        case EX: m->enqueueEvent("x"); r.enqueue("x"); break;
        case EY: m->enqueueEvent("xx"); r.enqueue("xx"); break;
        case RS: m->reset(); m->start(); r.reset(); r.start(); break;
        case STOP: m->stop(); r.stop(); break;
        case START: m->start(); r.start(); break;
        case RESET: m->reset(); r.reset(); break;
        case OBS: observe(); break;
        case EU: m->enqueueAndUpdate("X"); r.enqueue("X"); r.update(); break;
        case ENONE: m->enqueueEvent(""); r.enqueue(""); break;
        case UNOBS: m->unregisterObservers(); r.observers = 0; break;
        }
    }
};
void check_case(const ConfigStateMachine &c, const std::vector<int> &ops, bool byHand, bool started)
{
    mc::Case one_sequence;
    Pair p(c, byHand);
    if (started) {
        p.observe();
        p.apply(START);
    }
    for (size_t i = 0; i < ops.size(); i++)
        p.apply(ops[i]);
    // drain, so that what is still queued shows
    p.apply(START);
    if (p.r.observers == 0)
        p.observe();
    for (size_t i = 0; i < ops.size() + 1; i++)
        p.apply(UP);
    if (!(p.got == p.r.out)) {
        std::string s;
        for (int o : ops)
            s += std::string(opn[o]) + " ";
        mc::fail("the machine follows the configured transitions | " + text(c) + " after " + s + ": observed " + strN(p.got) + " expected " + strN(p.r.out));
    }
}
// every sequence of `depth` operations out of the first `n`
void all_sequences(const ConfigStateMachine &c, const std::vector<int> &alphabet, int depth, bool byHand, bool started, std::vector<int> prefix = {})
{
    size_t k = prefix.size();
    std::vector<int> ops = prefix;
    ops.resize(k + depth);
    std::vector<size_t> ix(depth, 0);
    for (;;) {
        for (int i = 0; i < depth; i++)
            ops[k + i] = alphabet[ix[i]];
        check_case(c, ops, byHand, started);
        int i = depth - 1;
        while (i >= 0 && ++ix[i] == alphabet.size())
            ix[i--] = 0;
        if (i < 0)
            break;
    }
}
const char *ST[] = {"on", "one", "o", "D"}; // names that share prefixes
const char *EV[] = {"x", "xx"};
std::vector<ConfigTransition> list(int code, int states, int maxlen)
{
    // code counts lists of length 0, 1, ..., maxlen over (event, destination)
    int base = 2 * states, n = 1;
    for (int len = 0; len <= maxlen; len++, n *= base) {
        if (code < n) {
            std::vector<ConfigTransition> r;
            for (int i = 0; i < len; i++) {
                int k = code % base;
                code /= base;
                r.push_back({ST[k / 2], EV[k % 2]});
            }
            return r;
        }
        code -= n;
    }
    abort();
}
// every machine with 2 states and transition lists of length <= 2
void two_states(bool byHand)
{
    int L = 1 + 4 + 16;
    ConfigStateMachine c;
    c.id = "m";
    c.states = {{ST[0], list(mc::choose(L, "transitions of A"), 2, 2)}, {ST[1], list(mc::choose(L, "transitions of B"), 2, 2)}};
    all_sequences(c, {EUX, EUY, UP, EX, EY, RS}, mc::thorough() ? 5 : byHand ? 3 : 4, byHand, true);
}
// every machine with 3 states in which each state has at most one transition per event, in either order
void three_states()
{
    ConfigStateMachine c;
    c.id = "";
    int order = mc::choose(2, "order");
    for (int s = 0; s < 3; s++) {
        int k = mc::choose(16, "moves");
        ConfigState st{ST[s], {}};
        int d[2] = {k % 4, k / 4};
        for (int e = 0; e < 2; e++) {
            int ev = order ? 1 - e : e;
            if (d[ev] < 3)
                st.transitions.push_back({ST[d[ev]], EV[ev]});
        }
        c.states.push_back(st);
    }
    all_sequences(c, {EUX, EUY, EX}, mc::thorough() ? 5 : 3, false, true);
}
ConfigStateMachine sample(int i)
{
    ConfigStateMachine c;
    c.id = "sm";
    if (i == 0)
        c.states = {{"A", {{"B", "x"}, {"A", "xx"}}}, {"B", {{"C", "x"}, {"A", "xx"}}}, {"C", {{"A", "x"}}}};
    if (i == 1)
        c.states = {{"A", {{"B", "x"}, {"C", "x"}, {"A", "x"}}}, {"B", {{"C", "xx"}, {"A", "xx"}}}, {"C", {}}};
    if (i == 2)
        c.states = {{"B", {{"A", "xx"}}}, {"A", {{"B", "x"}, {"B", "xx"}}}};
    return c;
}
void lifecycle(int i)
{
    std::vector<int> all = {EUX, EUY, UP, EX, STOP, START, RESET, OBS, UNOBS};
    std::vector<int> pre = {all[mc::choose(9)], all[mc::choose(9)]};
    all_sequences(sample(i), all, mc::thorough() ? 4 : 3, i == 1, mc::choose(2, "started"), pre);
}
// longer histories of queued events: nothing is lost or applied twice
void long_queue(int i)
{
    std::vector<int> pre;
    for (int k = 0; k < 6; k++)
        pre.push_back(mc::choose(2) ? EX : EY);
    all_sequences(sample(i), {UP, EX, EY, EU, ENONE}, mc::thorough() ? 5 : 4, false, true, pre);
}
// an observer that drives the machine: events queued from a notification wait for the next step
void reentrant()
{
    ConfigStateMachine c = sample(mc::choose(3));
    int act = mc::choose(4, "reaction");
    int when = mc::choose(4, "when");
    Pair p(c, false);
    std::string here;
    int n = 0, fired = 0;
    p.m->registerObserver([&](const std::string &s, bool ch) {
        p.got.push_back({s, ch});
        if (n++ == when && !fired++) {
            if (act == 0)
                p.m->enqueueEvent("x");
            if (act == 1)
                p.m->stop();
            if (act == 2)
                p.m->reset();
            if (act == 3) {
                p.m->enqueueEvent("xx");
                p.m->enqueueEvent("x");
            }
        }
    });
    p.r.observers = 1;
    auto step = [&](int op) {
        size_t k = p.r.out.size();
        switch (op) {
        case 0: p.r.start(); p.m->start(); break;
        case 1: p.r.enqueue("x"); p.r.update(); p.m->enqueueAndUpdate("x"); break;
        case 2: p.r.enqueue("xx"); p.r.update(); p.m->enqueueAndUpdate("xx"); break;
        case 3: p.r.update(); p.m->update(); break;
        }
        if ((int) k <= when && when < (int) p.r.out.size()) {
            if (act == 0)
                p.r.enqueue("x");
            if (act == 1)
                p.r.stop();
            if (act == 2)
                p.r.reset();
            if (act == 3) {
                p.r.enqueue("xx");
                p.r.enqueue("x");
            }
        }
    };
    step(0);
    for (int i = 0; i < 5; i++)
        step(mc::choose(4, "op"));
    step(0);
    for (int i = 0; i < 4; i++)
        step(3);
    mc::check(p.got == p.r.out, "an observer may drive its machine", [&] { return text(c) + " observed " + strN(p.got) + " expected " + strN(p.r.out); });
    mc::observe(strN(p.got));
}
// several observers, one of which registers or removes observers, or drives the machine, when told
struct Crowd
{
    struct Machine
    {
        std::function<void(std::function<void(const std::string &, bool)>)> add;
        std::function<void()> clear, reset, stop, start, update;
        std::function<void(const std::string &)> queue;
    } m;
    std::vector<std::vector<Note>> got;
    int actor, when, act;
    void join()
    {
        int id = (int) got.size();
        got.emplace_back();
        m.add([this, id](const std::string &s, bool ch) {
            got[id].push_back({s, ch});
            if (id != actor || (int) got[id].size() != when + 1)
                return;
            switch (act) {
            case 0: join(); break;
            case 1:
                for (int i = 0; i < 20; i++)
                    join();
                break;
            case 2: m.clear(); break;
            case 3: m.clear(); join(); break;
            case 4: m.reset(); break;
            case 5: m.queue("x"); m.update(); break;
            case 6: m.queue("xx"); m.queue("x"); m.update(); m.update(); break;
            case 7: m.reset(); m.start(); break;
            case 8: m.update(); break;
            case 9: m.stop(); break;
            }
        });
    }
};
const char *const CROWD_ACT[] = {"registers one", "registers many", "removes all", "removes all and registers", "resets", "drives", "drives twice", "resets and starts", "updates", "stops"};
void observers_act()
{
    ConfigStateMachine c = sample(mc::choose(3));
    int observers = 1 + mc::choose(3, "observers"), actor = mc::choose(observers, "actor"), when = mc::choose(4, "when"), act = mc::choose(10, "act");
    mc::note(std::string(CROWD_ACT[act]));
    std::vector<int> ops;
    for (int i = 0; i < 3; i++)
        ops.push_back(mc::choose(4, "op"));
    for (int o : {1, 2, 3})
        ops.push_back(o);
    auto play = [&](Crowd &cr) {
        cr.actor = actor, cr.when = when, cr.act = act;
        for (int i = 0; i < observers; i++)
            cr.join();
        cr.m.start();
        for (int o : ops) {
            if (o == 0)
                cr.m.start();
            if (o == 1 || o == 2)
                cr.m.queue(o == 1 ? "x" : "xx");
            if (o)
                cr.m.update();
        }
    };
    Pair p(c, false);
    Crowd real;
    real.m = {[&](std::function<void(const std::string &, bool)> f) { p.m->registerObserver(f); }, [&] { p.m->unregisterObservers(); }, [&] { p.m->reset(); }, [&] { p.m->stop(); }, [&] { p.m->start(); }, [&] { p.m->update(); }, [&](const std::string &e) { p.m->enqueueEvent(e); }};
    play(real);
    // whether those registered or removed within a step still are told of it is left open
    bool same = false;
    for (int variant = 0; variant < 3 && !same; variant++) {
        RefMachine r(c);
        std::vector<std::function<void(const std::string &, bool)>> obs;
        int cleared = 0;
        Crowd ref;
        auto tell = [&](bool changed) {
            std::string s = c.id + ":" + r.cur;
            auto now = obs;
            int before = cleared;
            for (size_t i = 0; i < now.size() && (variant != 1 || cleared == before); i++) {
                now[i](s, changed);
                if (variant == 2) // grows with the list
                    if (cleared == before)
                        for (size_t k = now.size(); k < obs.size(); k++)
                            now.push_back(obs[k]);
            }
        };
        auto tellNew = [&](size_t before) {
            for (size_t k = before; k < r.out.size(); k++) {
                bool ch = r.out[k].changed;
                r.out.resize(before);
                tell(ch);
                break;
            }
        };
        r.observers = 1;
        ref.m = {[&](std::function<void(const std::string &, bool)> f) { obs.push_back(f); }, [&] { obs.clear(); cleared++; }, [&] { r.reset(); }, [&] { r.stop(); },
                 [&] { size_t k = r.out.size(); r.start(); tellNew(k); }, [&] { size_t k = r.out.size(); r.update(); tellNew(k); }, [&](const std::string &e) { r.enqueue(e); }};
        play(ref);
        same = ref.got == real.got;
    }
    mc::check(same, "every observer registered is told once per step of the state it led to, whatever the others do when told", [&] {
        std::string t = text(c);
        for (auto &g : real.got)
            t += " [" + strN(g) + "]";
        return t;
    });
}
// transitions to states that do not exist: the machine stays there until it is reset
void dangling()
{
    ConfigStateMachine c;
    c.id = "m";
    const char *to[] = {ST[0], ST[1], "nowhere"};
    for (int s = 0; s < 2; s++) {
        int k = mc::choose(16, "moves");
        ConfigState st{ST[s], {}};
        int d[2] = {k % 4, k / 4};
        for (int e = 0; e < 2; e++)
            if (d[e] < 3)
                st.transitions.push_back({to[d[e]], EV[e]});
        c.states.push_back(st);
    }
    all_sequences(c, {EUX, EUY, EX, EY, UP, RS}, mc::thorough() ? 5 : 4, false, true);
}
// many states, many events, many queued events, many observers
void many()
{
    const int sizes[] = {1, 2, 5, 9, 17, 33, 65, 129, 257};
    int n = sizes[mc::choose(9, "states")], queued = sizes[mc::choose(9, "queued")], stride = 1 + mc::choose(3, "stride"), observers = 1 + mc::choose(3);
    ConfigStateMachine c;
    c.id = "many";
    for (int s = 0; s < n; s++) {
        ConfigState st{"state " + std::to_string(s), {}};
        for (int e = 0; e < (n > 65 ? 9 : n); e++)
            st.transitions.push_back({"state " + std::to_string((s + e * stride + 1) % n), "event " + std::to_string(e)});
        c.states.push_back(st);
    }
    Pair p(c, mc::choose(2));
    for (int i = 0; i < observers; i++)
        p.observe();
    p.apply(START);
    auto queue = [&](int i) {
        std::string e = "event " + std::to_string(i * stride % (n > 65 ? 12 : n + 1));
        p.m->enqueueEvent(e);
        p.r.enqueue(e);
    };
    for (int i = 0; i < queued; i++)
        queue(i);
    for (int i = 0; i < queued / 2; i++)
        p.apply(UP);
    for (int i = 0; i < queued; i++)
        queue(queued - i);
    for (int i = 0; i < 2 * queued; i++)
        p.apply(UP);
    mc::check(p.got == p.r.out, "the machine follows the configured transitions", [&] { return std::to_string(n) + " states " + std::to_string(queued) + " queued"; });
}
// a long queue of events the state has no transition for is no obstacle for the one that it has
void ignored()
{
    const int sizes[] = {0, 1, 9, 33, 65, 129, 300, 1100, 70000};
    int n = sizes[mc::choose(9, "ignored")], kind = mc::choose(3, "kind"), times = 1 + mc::choose(2);
    ConfigStateMachine c;
    c.id = "patient";
    c.states = {{"a", {{"b", "x"}}}, {"b", {{"a", "y"}}}};
    Pair p(c, mc::choose(2));
    p.observe();
    p.apply(START);
    auto queue = [&](const std::string &e) {
        p.m->enqueueEvent(e);
        p.r.enqueue(e);
    };
    for (int t = 0; t < times; t++) {
        for (int i = 0; i < n; i++)
            queue(kind == 0 ? "none" : kind == 1 ? (t ? "x" : "y") : std::to_string(i));
        queue(t ? "y" : "x");
        p.apply(UP);
    }
    p.apply(UP);
    mc::check(p.got == p.r.out, "the machine follows the configured transitions", [&] { return std::to_string(n) + " events without a transition, then one with: observed " + strN(p.got) + " expected " + strN(p.r.out); });
}
// two machines never influence each other; one observer on both tells them apart by name
void two_machines()
{
    ConfigStateMachine a = sample(0), b = sample(1);
    b.id = "other";
    Pair p(a, false), q(b, true);
    p.observe();
    q.observe();
    p.apply(START);
    q.apply(START);
    for (int i = 0; i < 5; i++) {
        int o = mc::choose(8);
        (o < 4 ? p : q).apply(o % 4 == 3 ? EX : o % 4);
    }
    mc::check(p.got == p.r.out && q.got == q.r.out, "machines are independent", [&] { return strN(p.got) + "/" + strN(q.got); });
}
struct Reg
{
    Reg()
    {
        auto add = [](const char *n, std::function<void()> f) {
            mc::Options o;
            o.seconds[0] = 100;
            o.seconds[1] = 600;
            mc::register_fn(n, f, o);
        };
        add("two_states_factory", [] { two_states(false); });
        add("two_states_by_hand", [] { two_states(true); });
        add("three_states", three_states);
        for (int i = 0; i < 3; i++) {
            add(("lifecycle" + std::to_string(i)).c_str(), [i] { lifecycle(i); });
            add(("queue" + std::to_string(i)).c_str(), [i] { long_queue(i); });
        }
        add("observer_drives", reentrant);
        add("observers_act", observers_act);
        add("two_machines", two_machines);
        add("dangling", dangling);
        add("many", many);
        add("ignored", ignored);
    }
} r;
} // namespace
#include "main.inc"

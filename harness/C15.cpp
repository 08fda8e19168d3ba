// C15 thread-safe emitter: concurrent emissions, subscriptions and unsubscriptions
#include "enumerate.h"
#include <klepsydra/core/event_emitter_factory.h>
#include <memory>
#include <set>
#include <thread>
using namespace kpsr;
namespace {
typedef SafeEventEmitter<long> Emitter;
enum Kind { EMIT, ON, ONCE, DROP0, DROP1, DROPONCE, DROPALL, EMIT_B, DISCARD, STATS, NKIND };
const char *const names[] = {"emit", "on", "once", "remove0", "remove1", "removeOnce", "removeAll", "emitB", "discard", "stats"};
typedef std::vector<std::vector<int>> Program;
struct Op
{
    int kind;
    long start, end;
    long token; // listener added
    bool ok;
};
struct Life
{
    long onStart = -1, onEnd = -1;                 // subscription
    std::vector<std::pair<long, long>> off;         // removals that took it (or may have)
    bool once = false;
};
// listeners 0 and 1 and the once-only listener 2 of topic A, and listener 3 of topic B, are there from the start
// (start 0), only listener 0 (start 1), or none at all (start 2)
void run(const Program &p, int start = 0)
{
    Emitter em;
    unsigned id[4] = {1000, 1001, 1002, 1003};
    auto cb = [](int token) { return [token](const long &e) { mc::rec(token, e); }; };
    if (start < 2)
        id[0] = em.on(nullptr, "x", "A", cb(0));
    if (start < 1) {
        id[1] = em.on(nullptr, "y", "A", cb(1));
        id[2] = em.once("A", cb(2));
        id[3] = em.on(nullptr, "z", "B", cb(3));
    }
    Op ops[6];
    unsigned newId[6];
    int n = 0;
    std::vector<int> base;
    for (auto &t : p) {
        base.push_back(n);
        n += (int) t.size();
    }
    auto thread = [&](size_t t) {
        for (size_t i = 0; i < p[t].size(); i++) {
            int k = base[t] + (int) i;
            Op &o = ops[k];
            o.kind = p[t][i];
            o.token = 10 + k;
            o.ok = true;
            mc::mc_stamp_lazy(&o.start);
            switch (o.kind) {
            case EMIT: em.emitEvent("A", 0, (long) k); break;
            case EMIT_B: em.emitEvent("B", 0, (long) k); break;
            case ON: newId[k] = em.on(nullptr, "n", "A", cb((int) o.token)); break;
            case ONCE: newId[k] = em.once("A", cb((int) o.token)); break;
            case DROP0:
            case DROP1:
            case DROPONCE:
                try {
                    em.removeListener(nullptr, id[o.kind - DROP0]);
                } catch (const std::invalid_argument &) {
                    o.ok = false;
                }
                break;
            case DROPALL: em.removeAllListeners(nullptr); break;
            case DISCARD: em.discardEvent("A"); break;
            case STATS: {
                auto s = em.getListenerStats(id[0]);
                mc::check(!s || s->listenerName == "x", "the statistics found are the listener's own");
                break;
            }
            }
            o.end = mc::mc_stamp_end();
        }
    };
    std::vector<std::thread> ts;
    for (size_t t = 1; t < p.size(); t++)
        ts.emplace_back(thread, t);
    thread(0);
    for (auto &t : ts)
        t.join();
    auto what = [&] {
        std::string s;
        for (int i = 0; i < n; i++)
            s += std::string(names[ops[i].kind]) + "[" + std::to_string(ops[i].start) + "," + std::to_string(ops[i].end) + "] ";
        for (int l : {0, 1, 2, 3, 10, 11, 12, 13})
            s += std::to_string(l) + mc::str(mc::recs(l)) + " ";
        return s;
    };
    // a last emission on each topic, alone
    const long last = 50;
    long lastStart = mc::mc_stamp_end();
    em.emitEvent("A", 0, last);
    em.emitEvent("B", 0, last);
    std::set<unsigned> ids{id[0], id[1], id[2], id[3]};
    size_t all = 4;
    for (int i = 0; i < n; i++)
        if (ops[i].kind == ON || ops[i].kind == ONCE) {
            ids.insert(newId[i]);
            all++;
        }
    mc::check(ids.size() == all, "listeners have different numbers");
    struct L
    {
        int token, topic, add, drop;
        bool once;
    };
    std::vector<L> ls = {{0, EMIT, -1, DROP0, false}, {1, EMIT, -1, DROP1, false}, {2, EMIT, -1, DROPONCE, true}, {3, EMIT_B, -1, -1, false}};
    ls.resize(start == 0 ? 4 : 2 - start);
    for (int i = 0; i < n; i++)
        mc::check(!ops[i].ok || ops[i].kind < DROP0 || ops[i].kind > DROPONCE || ops[i].kind - DROP0 < (int) ls.size(), "a listener that is not there cannot be removed", what);
    for (int i = 0; i < n; i++)
        if (ops[i].kind == ON || ops[i].kind == ONCE)
            ls.push_back({(int) ops[i].token, EMIT, i, -1, ops[i].kind == ONCE});
    uint64_t sig = 0;
    for (auto &l : ls) {
        auto got = mc::recs(l.token);
        long from = l.add < 0 ? -1 : ops[l.add].start, fromEnd = l.add < 0 ? -1 : ops[l.add].end;
        // earliest moment it may be gone, and the moment by which it surely is
        long mayGo = 1L << 60, gone = 1L << 60;
        int taken = 0;
        bool all = false;
        for (int i = 0; i < n; i++) {
            bool mine = ops[i].kind == DROPALL || (l.drop >= 0 && ops[i].kind == l.drop && ops[i].ok);
            if (!mine)
                continue;
            if (ops[i].kind == l.drop)
                taken++;
            else
                all = true;
            if (ops[i].end < from)
                continue; // everything before it came
            mayGo = std::min(mayGo, ops[i].start);
            if (ops[i].start > fromEnd || l.drop == ops[i].kind)
                gone = std::min(gone, ops[i].end);
        }
        mc::check(taken <= 1, "one removal takes a listener", what);
        if (l.drop >= 0 && !l.once && !all && !taken)
            for (int i = 0; i < n; i++)
                mc::check(ops[i].kind != l.drop, "a present listener can be removed", what);
        int must = 0, may = 0;
        for (int i = 0; i <= n; i++) {
            bool fin = i == n;
            if (!fin && ops[i].kind != l.topic)
                continue;
            long s = fin ? lastStart : ops[i].start, e = fin ? 1L << 59 : ops[i].end;
            long calls = std::count(got.begin(), got.end(), fin ? last : (long) i);
            mc::check(calls <= 1, "an emission calls a listener at most once", what);
            bool possible = from < e && gone > s, certain = fromEnd < s && mayGo > e;
            may += possible;
            must += certain;
            if (!possible)
                mc::check(calls == 0, "an emission does not call a listener that has left or is still to come", what);
            if (certain && !l.once)
                mc::check(calls == 1, "an emission calls every listener subscribed throughout", what);
            sig = sig * 3 + calls;
        }
        if (l.once) {
            mc::check(got.size() <= 1, "a once-only listener is called at most once in all", what);
            if (must)
                mc::check(got.size() == 1, "a once-only listener is called by the first emission that finds it", what);
        }
        for (long e : got)
            mc::check(e == last || (e >= 0 && e < n && ops[e].kind == l.topic), "a listener gets the events emitted on its topic", what);
    }
    mc::observe(sig);
}
mc::Options opt(int a, int b)
{
    mc::Options o;
    o.preempt[0] = a;
    o.preempt[1] = b;
    o.leak = true;
    return o;
}
struct Reg
{
    void add(const std::string &name, std::vector<int> shape, std::vector<int> alphabet, mc::Options o, int split)
    {
        auto ps = new std::vector<Program>;
        int total = 0;
        for (int n : shape)
            total += n;
        std::vector<int> d(total, 0);
        for (;;) {
            Program p;
            int k = 0;
            for (int n : shape) {
                p.push_back({});
                for (int i = 0; i < n; i++)
                    p.back().push_back(alphabet[d[k++]]);
            }
            bool keep = true;
            for (size_t t = 0; t + 1 < p.size(); t++)
                if (p[t].size() == p[t + 1].size() && p[t] > p[t + 1])
                    keep = false;
            int emits = 0, quiet = 0;
            for (auto &t : p)
                for (int x : t) {
                    emits += x == EMIT;
                    quiet += x >= EMIT_B;
                }
            keep &= quiet <= 1 && (emits || total <= 2);
            if (keep)
                ps->push_back(p);
            int i = total - 1;
            while (i >= 0 && ++d[i] == (int) alphabet.size())
                d[i--] = 0;
            if (i < 0)
                break;
        }
        for (int s = 0; s < split; s++)
            mc::register_fn(name + "_" + std::to_string(s), [=] {
                int start = shape.size() == 2 && total <= 3 ? mc::choose(3, "present") : 0;
                int per = ((int) ps->size() + split - 1) / split, from = s * per, num = std::min(per, (int) ps->size() - from);
                run((*ps)[from + chooseOf(num, "program")], start);
            }, o);
    }
    Reg()
    {
        std::vector<int> all;
        for (int i = 0; i < NKIND; i++)
            all.push_back(i);
        std::vector<int> few = {EMIT, ON, ONCE, DROP0, DROPONCE, DROPALL};
        add("pair", {1, 1}, all, opt(4, 6), 1);
        add("two_one", {2, 1}, all, opt(4, 5), 4);
        add("two_two", {2, 2}, all, opt(3, 4), 8);
        add("three", {1, 1, 1}, all, opt(3, 4), 4);
        add("two_one_one", {2, 1, 1}, few, opt(2, 2), 4);
        add("two_two_once", {3, 2}, {EMIT, ONCE, DROPONCE}, opt(3, 4), 2);
    }
} reg;
// listeners that unsubscribe themselves or others, subscribe or emit while another thread emits
MC_SCENARIO(reentrant, o = opt(2, 3))
{
    int act = mc::choose(9, "act"), other = mc::choose(4, "other"), with = mc::choose(3, "another listener"), once = mc::choose(2, "once-only");
    Emitter em;
    unsigned id = 0, id1 = 0;
    std::mutex m;
    bool acted = false;
    if (with == 1)
        id1 = em.on(nullptr, "y", "A", [](const long &e) { mc::rec(1, e); });
    for (int i = 4; i < 7; i++)
        em.on(nullptr, "b", "B", [i](const long &e) { mc::rec(i, e); });
    em.emitEvent("B", 0, 0l);
    auto react = [&](const long &e) {
        mc::rec(0, e);
        {
            std::lock_guard<std::mutex> l(m);
            if (acted)
                return;
            acted = true;
        }
        try {
            switch (act) {
            case 0: em.removeListener(nullptr, id); break;
            case 1: em.removeListener(nullptr, id1); break;
            case 2: em.on(nullptr, "n", "A", [](const long &e) { mc::rec(2, e); }); break;
            case 3: em.emitEvent("A", 0, 9l); break;
            case 4: em.removeAllListeners(nullptr); break;
            case 5: em.once("A", [](const long &e) { mc::rec(2, e); }); break;
            case 6: em.emitEvent("B", 0, 9l); break;
            case 7: em.discardEvent("A"); em.getListenerStats(id); break;
            case 8: em.emitEvent("nobody's", 0, 9l); break;
            }
        } catch (const std::invalid_argument &) {
            mc::check((act == 0 && once) || (act == 1 && !with), "a present listener can be removed");
        }
    };
    id = once ? em.once("A", react) : em.on(nullptr, "x", "A", react);
    if (with == 2)
        id1 = em.on(nullptr, "y", "A", [](const long &e) { mc::rec(1, e); });
    std::thread t([&] {
        switch (other) {
        case 0: em.emitEvent("A", 0, 2l); break;
        case 1: em.on(nullptr, "m", "A", [](const long &e) { mc::rec(3, e); }); break;
        case 2: em.getListenerStats(id1); break;
        }
    });
    em.emitEvent("A", 0, 1l);
    t.join();
    em.emitEvent("A", 0, 3l);
    auto got = mc::recs(0);
    auto times = [](const std::vector<long> &v, long e) { return std::count(v.begin(), v.end(), e); };
    if (once)
        mc::check(got.size() == 1, "a once-only listener is called once");
    else {
        if ((act != 4 && act != 0) || other != 0)
            mc::check(times(got, 1) == 1, "the listener is called once for the emission");
        if (act == 0 || act == 4)
            mc::check(times(got, 3) == 0, "a listener that unsubscribed itself is not called again");
        else
            mc::check(times(got, 3) == 1, "a listener that stays is called again");
        if (act == 3)
            mc::check(times(got, 9) == 1, "a nested emission reaches every listener once");
    }
    if (with) {
        if (act == 1 || act == 4)
            mc::check(times(mc::recs(1), 3) == 0, "a listener unsubscribed by another is not called again");
        else
            mc::check(times(mc::recs(1), 3) == 1 && times(mc::recs(1), 1) == 1, "other listeners are called once for each emission");
        if (act == 3)
            mc::check(times(mc::recs(1), 9) == 1, "a nested emission reaches every listener once");
    }
    if (act == 2)
        mc::check(times(mc::recs(2), 3) == 1, "a listener subscribed by another is called from then on");
    if (act == 5)
        mc::check(mc::recs(2).size() == 1, "a once-only listener subscribed by another is called once");
    for (int i = 4; i < 7; i++)
        mc::check(mc::recs(i) == (act == 6 ? std::vector<long>{0, 9} : std::vector<long>{0}), "listeners of another topic are called for its emissions and for no other");
    if (other == 1 && act != 4)
        mc::check(times(mc::recs(3), 3) == 1, "a new listener is called from then on");
    mc::observe(got);
}
// ---- many listeners and many emissions while others come and go
void crowd(int stay, int emitters, int each, int churners, int rounds)
{
    Emitter em;
    std::vector<unsigned> ids;
    std::vector<std::vector<long>> got(stay);
    std::mutex m;
    for (int i = 0; i < stay; i++)
        ids.push_back(em.on(nullptr, "l" + std::to_string(i), "A", [&, i](const long &e) {
            mc::Quiet q;
            got[i].push_back(e);
        }));
    auto emit = [&](int t) {
        for (int i = 0; i < each; i++)
            em.emitEvent("A", 0, (long) t * 1000 + i);
    };
    std::vector<std::thread> ts;
    for (int t = 1; t < emitters; t++)
        ts.emplace_back(emit, t);
    for (int c = 0; c < churners; c++)
        ts.emplace_back([&, c] {
            for (int r = 0; r < rounds; r++) {
                unsigned id = em.on(nullptr, "c", r % 3 == 2 ? "B" : "A", [c](const long &e) { mc::rec(10 + c, e); });
                mc::check(std::find(ids.begin(), ids.end(), id) == ids.end(), "listeners have different numbers");
                if (r % 2)
                    em.once("B", [](const long &) {});
                em.removeListener(nullptr, id);
            }
        });
    emit(0);
    for (auto &t : ts)
        t.join();
    for (int i = 0; i < stay; i++) {
        mc::check((int) got[i].size() == emitters * each, "an emission calls every listener subscribed throughout", [&] { return "listener " + std::to_string(i) + mc::str(got[i]); });
        for (int t = 0; t < emitters; t++) {
            int n = 0;
            for (long e : got[i])
                if (e / 1000 == t)
                    mc::check(e % 1000 == n++, "a listener gets the emissions of a thread once each, in order");
            mc::check(n == each, "an emission calls every listener subscribed throughout");
        }
    }
    size_t before[2] = {mc::recs(10).size(), mc::recs(11).size()};
    em.emitEvent("A", 0, 9999l);
    mc::check(mc::recs(10).size() == before[0] && mc::recs(11).size() == before[1], "an emission does not call a listener that has left");
    for (int i = 0; i < stay; i += 2)
        em.removeListener(nullptr, ids[i]);
    em.emitEvent("A", 0, 9998l);
    for (int i = 0; i < stay; i++)
        mc::check((got[i].back() == 9998) == (i % 2 == 1) && got[i][got[i].size() - 1 - i % 2] == 9999, "a listener is called until it leaves");
}
// ---- once-only listeners among others, few or many, whichever way the table is used while they run
void once_crowd(int emitters, int each)
{
    const int SIZES[] = {1, 2, 7, 9, 17, 40, 130};
    int n = SIZES[mc::choose(7, "listeners")], pattern = mc::choose(4, "pattern");
    Emitter em;
    std::vector<int> ran(n, 0);
    std::mutex m;
    std::vector<bool> once(n);
    for (int i = 0; i < n; i++) {
        once[i] = pattern == 0 || (pattern == 1 && i % 2) || (pattern == 2 && i == n - 1) || (pattern == 3 && i == 0);
        auto f = [&, i](const long &) {
            std::lock_guard<std::mutex> l(m);
            ran[i]++;
        };
        if (once[i])
            em.once("A", f);
        else
            em.on(nullptr, "l" + std::to_string(i), "A", f);
    }
    auto emit = [&] {
        for (int i = 0; i < each; i++)
            em.emitEvent("A", 0, (long) i);
    };
    std::vector<std::thread> ts;
    for (int t = 1; t < emitters; t++)
        ts.emplace_back(emit);
    emit();
    for (auto &t : ts)
        t.join();
    for (int i = 0; i < n; i++)
        mc::check(ran[i] == (once[i] ? 1 : emitters * each), "a once-only listener is called once, the others for each emission",
                  [&] { return std::to_string(n) + " listeners, pattern " + std::to_string(pattern) + ": " + (once[i] ? "once-only " : "") + std::to_string(i) + " was called " + std::to_string(ran[i]) + " times"; });
}
mc::Options deep(int a, int b)
{
    mc::Options o = opt(a, b);
    o.delays = true;
    return o;
}
MC_SCENARIO(crowd_small, o = deep(3, 4)) { crowd(3, 2, 4, 1, 3); }
MC_SCENARIO(crowd_large, o = deep(1, 2)) { crowd(70, 2, 3, 1, 4); }
MC_SCENARIO(crowd_long, o = deep(1, 1)) { crowd(2, 2, 40, 2, 20); }
MC_SCENARIO(once_crowd_1, o = deep(0, 0)) { once_crowd(1, 3); }
MC_SCENARIO(once_crowd_2, o = deep(1, 2)) { once_crowd(2, 2); }
MC_SCENARIO(crowd_threads, o = deep(2, 3)) { crowd(2, 3, 5, 2, 4); }
} // namespace
#include "main.inc"

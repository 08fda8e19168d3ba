// Controlled-scheduler model checker: API used by the harnesses.
//
// A harness is a set of scenarios.  A scenario body is ordinary C++ that drives the real code of
// /repo (std::thread, std::mutex, ... all work).  The explorer (libmc.so) re-executes the body for
// every schedule / every answer to mc::choose() within the stated bounds.
#ifndef MC_H
#define MC_H
#include <cstdint>
#include <cstdio>
#include <functional>
#include <initializer_list>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

struct Options
{
    int preempt[2] = {2, 3};      // preemption bound  (quick, thorough); iterated from 0
    int timers[2] = {0, 1};       // early timer expiries (timed waits / sleeps firing while others could run)
    int spurious[2] = {0, 0};     // spurious condition variable wakeups
    int stale[2] = {0, 0};        // atomic loads allowed to return an older admissible value
    double seconds[2] = {40, 240}; // wall clock cap (a hit cap is reported, never silent)
    uint64_t horizon = 20000;     // visible operations per execution before "does not terminate"
    int stall = 3000;             // rounds in which only spinning threads run before "livelock"
    bool races = true;            // report data races
    bool unlock_points = false;   // scheduling point before each mutex unlock (try-lock users)
    bool leak = false;            // report memory still allocated when the scenario body returns
    bool delays = false;          // delay bounding: also the choice of the next thread when one waits costs, unless it is the
                                  // first in round-robin order, and of the waiter a signal wakes, unless it is the
                                  // longest waiting one (for scenarios too long for all of these choices)
    bool naps = false;            // a sleep or a timeout ends a spin: polling with them goes on round by round for as long as it is waited for
    bool thorough_only = false;
};

extern "C" {
int mc_choose(int n, const char *label);
[[noreturn]] void mc_fail(const char *msg);
void mc_prune();
void mc_state(uint64_t key);
bool mc_expired(); // the scenario's wall time is over: an enumeration within an execution stops (never in a replay)
void mc_case_begin();
void mc_case_end();
void mc_rec(int channel, long value);
int mc_rec_count(int channel);
long mc_rec_get(int channel, int i);
void mc_observe(uint64_t h);
void mc_note(const char *msg);
int mc_thread_id();
int mc_thorough();
long long mc_now_ns();
void mc_advance_ns(long long d);
void mc_step_wall(long long d);
size_t mc_live_bytes();
long mc_stamp();
void mc_stamp_lazy(long *p);
long mc_stamp_end();
int mc_quiet(int on);
void mc_point(const void *obj, int write);
int mc_active();
void mc_register(const char *name, void (*fn)(), Options o);
int mc_main(int argc, char **argv);
}

// data / environment choice: explored exhaustively, alternative 0 first
inline int choose(int n, const char *label = "choose") { return mc_choose(n, label); }
[[noreturn]] inline void fail(const std::string &m) { mc_fail(m.c_str()); }
inline void check(bool c, const char *m)
{
    if (!c)
        mc_fail(m);
}
template<class F>
inline void check(bool c, const char *m, F detail)
{
    if (!c) {
        std::string s = m;
        s += " | ";
        s += detail();
        mc_fail(s.c_str());
    }
}
// one complete operation sequence explored inside a body that enumerates sequences itself (counted in the evidence)
struct Case
{
    Case() { mc_case_begin(); }
    ~Case() { mc_case_end(); }
};
// recording channels (invisible to the race detector, order kept in the state signature)
inline void rec(int ch, long v) { mc_rec(ch, v); }
inline std::vector<long> recs(int ch)
{
    std::vector<long> r;
    int n = mc_rec_count(ch);
    r.reserve(n);
    for (int i = 0; i < n; i++)
        r.push_back(mc_rec_get(ch, i));
    return r;
}
inline void observe(uint64_t h) { mc_observe(h); }
inline void observe(const std::vector<long> &v)
{
    uint64_t h = 1469598103934665603ull;
    for (long x : v)
        h = (h ^ (uint64_t) x) * 1099511628211ull;
    mc_observe(h);
}
inline void observe(const std::string &v)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char x : v)
        h = (h ^ (uint64_t) x) * 1099511628211ull;
    mc_observe(h);
}
// explicit-state search for sequential scenarios: from here on the future depends only on `key` (which must
// contain every part of the state the harness and the code can still observe, and the remaining depth)
struct Key
{
    uint64_t h = 88172645463325252ull;
    Key &operator<<(long long v)
    {
        h ^= (uint64_t) v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        h ^= h >> 32;
        return *this;
    }
    Key &operator<<(const std::string &s)
    {
        *this << (long long) s.size();
        for (unsigned char c : s)
            *this << (long long) c;
        return *this;
    }
    template<class T>
    Key &operator<<(const std::vector<T> &v)
    {
        *this << (long long) v.size();
        for (const auto &x : v)
            *this << x;
        return *this;
    }
};
// the checker looks at shared state without being part of the execution
struct Quiet
{
    int u = mc_quiet(1);
    ~Quiet() { mc_quiet(!u); }
};
inline void state(const Key &k) { mc_state(k.h); }
inline void note(const std::string &s) { mc_note(s.c_str()); }
inline bool thorough() { return mc_thorough() != 0; }
inline std::string str(const std::vector<long> &v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++)
        s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}

// concurrent histories and linearizability -------------------------------------------------------
struct Op
{
    int tid, kind;
    long arg, res;
    long start, end; // real-time order
    bool done;
};
// fixed storage: the recording itself must not be visible to the race detector
struct History
{
    static const int MAX = 24;
    Op ops[MAX];
    int n = 0;
    __attribute__((no_sanitize_thread, noinline)) int begin(int kind, long arg)
    {
        int i = n++;
        ops[i] = Op{mc_thread_id(), kind, arg, 0, 0, 0, false};
        mc_stamp_lazy(&ops[i].start);
        return i;
    }
    __attribute__((no_sanitize_thread, noinline)) void end(int i, long res)
    {
        ops[i].res = res;
        ops[i].done = true;
        ops[i].end = mc_stamp_end();
    }
    std::string str(const char *const *names) const
    {
        std::string s;
        for (int i = 0; i < n; i++)
            s += std::string(i ? "; " : "") + "T" + std::to_string(ops[i].tid) + " " + names[ops[i].kind] + "(" +
                 std::to_string(ops[i].arg) + ")=" + (ops[i].done ? std::to_string(ops[i].res) : "?") + " [" +
                 std::to_string(ops[i].start) + "," + std::to_string(ops[i].end) + "]";
        return s;
    }
};
template<class S, class F>
bool lin_rec(const History &h, unsigned done, const S &s, F &step)
{
    bool all = true;
    for (int i = 0; i < h.n; i++)
        if (!(done >> i & 1) && h.ops[i].done)
            all = false;
    if (all)
        return true;
    for (int i = 0; i < h.n; i++) {
        if (done >> i & 1)
            continue;
        // i may go next only if no other unplaced op finished before i started
        bool ok = true;
        for (int j = 0; j < h.n && ok; j++)
            if (j != i && !(done >> j & 1) && h.ops[j].done && h.ops[j].end < h.ops[i].start)
                ok = false;
        if (!ok)
            continue;
        S t = s;
        if (!step(t, h.ops[i], h))
            continue;
        if (lin_rec(h, done | 1u << i, t, step))
            return true;
    }
    return false;
}
// step(State&, const Op&, const History&) -> bool: applies the operation, false if its result is impossible there.
// Operations that never returned (done == false) may take effect or not.
template<class S, class F>
bool linearizable(const History &h, const S &init, F step)
{
    int u = mc_quiet(1);
    bool r = lin_rec(h, 0u, init, step);
    mc_quiet(!u);
    return r;
}

void register_fn(const std::string &name, std::function<void()> fn, Options o);

struct Registrar
{
    Registrar(const char *n, void (*f)(), Options o) { mc_register(n, f, o); }
};
} // namespace mc

#define MC_SCENARIO(NAME, ...) \
    static void mc_body_##NAME(); \
    static mc::Options mc_opt_##NAME() \
    { \
        mc::Options o; \
        __VA_ARGS__; \
        return o; \
    } \
    static mc::Registrar mc_reg_##NAME(#NAME, mc_body_##NAME, mc_opt_##NAME()); \
    static void mc_body_##NAME()

#define MC_CHECK(c, m) \
    do { \
        if (!(c)) \
            mc::mc_fail(m); \
    } while (0)

#endif

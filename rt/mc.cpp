// libmc: in-process stateless model checker for C++ threads code compiled with -fsanitize=thread
// instrumentation (the instrumentation only; libtsan is not linked: this library provides the
// __tsan_* entry points) and for every libc entry point through which threads interact.
//
//  * virtual threads are fibers, each with its own TLS (FS base of a parked pthread);
//  * scheduling points: every atomic operation, mutex/condvar/once/join/sleep/yield call;
//  * depth first enumeration of all choices, with a preemption bound iterated from 0, separate
//    budgets for early timers, spurious wakeups and stale (weak memory) reads, and pruning of
//    prefixes whose happens-before graph was already explored with at least as much budget left;
//  * vector clock race detector honouring the declared memory orders; heap use-after-free,
//    double free and out-of-bounds detection; deadlock, livelock and non-termination detection.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <future>
#include <immintrin.h>
#include <link.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <set>
#include <algorithm>
#include <elf.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <fstream>
#include <stdexcept>
#include <typeinfo>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}

namespace {

const int MAXT = 8;
const size_t ARENA_SZ = 48ull << 20; // per thread
const u64 ARENA_BASE = 0x100000000000ull;
const u64 ARENA_END = ARENA_BASE + ARENA_SZ * MAXT;
const size_t STACK_SZ = 512 << 10;

inline u64 mix(u64 a, u64 b)
{
    u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0xD1B54A32D192ED03ull + (a << 7) + (a >> 3));
    x ^= x >> 29;
    x *= 0xBF58476D1CE4E5B9ull;
    x ^= x >> 32;
    return x;
}

struct VC
{
    u32 c[MAXT];
    void clear() { memset(c, 0, sizeof c); }
    void join(const VC &o)
    {
        for (int i = 0; i < MAXT; i++)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};

enum Op : u8 {
    OP_NONE,
    OP_START,
    OP_LOAD,
    OP_STORE,
    OP_RMW,
    OP_CASFAIL,
    OP_FENCE,
    OP_LOCK,
    OP_TRYLOCK,
    OP_TIMEDLOCK,
    OP_RDLOCK,
    OP_WRLOCK,
    OP_UNLOCK,
    OP_CVWAIT,
    OP_CVBLOCK,
    OP_SIGNAL,
    OP_BCAST,
    OP_JOIN,
    OP_CREATE,
    OP_YIELD,
    OP_SLEEP,
    OP_ONCE,
    OP_ONCEDONE,
    OP_TIME,
    OP_EXIT,
    OP_USER,
    OP_CHOOSE,
    OP_REC,
    OP_SEMWAIT,
    OP_SEMPOST
};
const char *opname[] = {"none",     "start",   "load",    "store",   "rmw",    "cas-fail", "fence",
                        "lock",     "trylock", "timedlock", "rdlock", "wrlock", "unlock",
                        "cv.wait",  "cv.block", "cv.signal", "cv.broadcast", "join", "create",
                        "yield",    "sleep",   "once",    "once-done", "time", "exit", "user",
                        "choose",   "rec", "sem.wait", "sem.post"};

enum Cost : u8 { C_FREE, C_PREEMPT, C_TIMER, C_SPUR, C_STALE, NCOST };

struct Pending
{
    Op op;
    const void *addr;
    long extra; // target thread / deadline
    void *pc;
};

struct SpinEnt
{
    void *pc;
    const void *addr;
    u64 version;
    u32 count;
};

struct Thread
{
    void *sp = nullptr;
    char *stack = nullptr;
    u64 fs = 0;
    bool used, finished, detached, joined, started;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    Pending pend;
    VC vc, acqF, relF, view, readView;
    bool hasRelF;
    u64 hash;
    bool yielded;
    u64 yield_version;
    long long deadline; // for timed waits and sleeps
    bool wallDeadline; // by the time of day
    bool signaled, timedout, spurious;
    u8 wake_variant;
    SpinEnt spin[64];
    int run_len;
    u64 writes; // plain memory writes so far
    long *pstamp; // start stamp to fill at the next visible operation
    char *bump, *bump_end;
};

struct StoreRec
{
    u64 val;
    VC rel;
    u32 clk;
    u8 tid;
    bool sc;
};

struct Obj
{
    const void *addr;
    u32 gen;
    u64 wh;
    // mutex / rwlock / once
    int owner;
    int count;
    int readers;
    u8 once;
    VC rel; // release clock of the object (last store / last unlock)
    VC rel2;
    u64 writes;   // of the owner when it took the mutex
    bool tryfail; // somebody found the mutex taken since its last unlock
    bool isAtomic;
    u64 lastval;
    int lasttid;
    u32 lastScIdx;
    // waiters
    int nw;
    u8 w[MAXT];
    // history (weak memory)
    int hist; // index in hist pool or -1
    u32 floorIdx[MAXT];
};

struct Hist
{
    u32 n; // total number of stores so far
    StoreRec s[8]; // last 8, slot = idx % 8
};

struct Cell
{
    u64 key;
    u32 gen;
    u32 pad;
    u32 w[MAXT], r[MAXT], aw[MAXT], ar[MAXT];
    u8 wm[MAXT], rm[MAXT], awm[MAXT], arm[MAXT];
};

struct Alt
{
    u8 tid;
    u8 variant; // 0 normal, 1 timeout, 2 spurious
    u8 cost;
};

struct Node
{
    u8 n;
    u8 cur;
    u8 kind; // 0 schedule, 1 choose, 2 stale
    u8 used[NCOST];
    u8 cost[20];
    u64 sig;
};

struct Scenario
{
    std::string name;
    std::function<void()> fn;
    mc::Options o;
};

enum Status { ST_RUN, ST_DONE, ST_PRUNED, ST_VIOLATION, ST_DIVERGED };

struct Violation
{
    std::string key, msg;
    std::vector<u8> choices;
    int bound;
};

template<class T>
struct PodVec
{
    T *d = nullptr;
    size_t n = 0, cap = 0;
    void push(const T &v)
    {
        if (n == cap) {
            cap = cap ? cap * 2 : 256;
            d = (T *) __libc_realloc(d, cap * sizeof(T));
        }
        d[n++] = v;
    }
    T &operator[](size_t i) { return d[i]; }
};

struct G
{
    bool user = false; // running user code inside an execution
    bool arena = false;
    Thread th[MAXT];
    int nth = 0;
    int cur = 0;
    u64 main_fs;
    void *explorer_sp;
    Status status;
    int tier = 0;
    // search
    PodVec<Node> stack;
    size_t depth; // next node index
    int used[NCOST];
    int budget[NCOST];
    bool cut; // an alternative was dropped because of the preemption budget
    bool cut_other;
    // visited
    u64 *vk = nullptr;
    u8 *vv = nullptr;
    size_t vcap = 0, vn = 0;
    bool visited_on = true;
    // statistics
    u64 execs = 0, steps_total = 0, pruned = 0, states = 0, maxdepth = 0, maxsteps = 0, transitions = 0;
    u64 plain_total = 0, cases = 0, steps_base = 0, mark = 0, live_marked = 0; // op sequences run inside bodies
    u64 steps, plain;
    u64 version;
    int stall;
    u64 sig;
    long long now;
    long long wall; // how far the wall clock was set from where it would be
    u64 outcome;
    bool trace = false;
    FILE *out = nullptr;
    std::string vmsg, vkey;
    Scenario *sc = nullptr;
    u64 clocktick = 0;
    u64 gen = 0;
    // tables
    Obj *objs = nullptr;
    u32 objcap = 1 << 16, objn = 0;
    Cell *cells = nullptr;
    u64 cellcap = 1 << 16, celln = 0;
    Cell *acells = nullptr; // arena cells: gen'd direct map per thread arena, allocated lazily (mmap)
    u8 *astate = nullptr;   // state byte per 8 byte granule
    Hist *hists = nullptr;
    u32 nhist = 0, hcap = 4096;
    VC scView;
    long live_bytes = 0;
    PodVec<long> rec[32];
    u64 rechash[32];
    bool cap_nodes = false;
    bool replaying = false;
    u64 trace_n = 0, trace_end = ~0ull; // steps of the traced execution so far, and in all
    double expiry = 0;    // wall time at which an enumeration within an execution stops (0: never)
    bool expired = false; // one did

    VC bottom;
} g;

std::vector<Scenario> *scenarios;
std::set<u64> *outcomes;
std::vector<Violation> *violations;

// ---------------------------------------------------------------- symbols
struct Sym
{
    u64 a, n;
    const char *name;
};
std::vector<Sym> *symtab; // of the executable itself (linked non-PIE): covers local functions too

void load_symtab()
{
    symtab = new std::vector<Sym>;
    int fd = open("/proc/self/exe", O_RDONLY);
    struct stat st;
    if (fd < 0 || fstat(fd, &st))
        return;
    char *b = (char *) mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
    close(fd);
    if (b == MAP_FAILED)
        return;
    Elf64_Ehdr *eh = (Elf64_Ehdr *) b;
    if (eh->e_type != ET_EXEC || !eh->e_shoff)
        return;
    Elf64_Shdr *sh = (Elf64_Shdr *) (b + eh->e_shoff);
    for (int i = 0; i < eh->e_shnum; i++)
        if (sh[i].sh_type == SHT_SYMTAB) {
            const char *str = b + sh[sh[i].sh_link].sh_offset;
            Elf64_Sym *sy = (Elf64_Sym *) (b + sh[i].sh_offset);
            for (u64 k = 0; k < sh[i].sh_size / sizeof *sy; k++)
                if (ELF64_ST_TYPE(sy[k].st_info) == STT_FUNC && sy[k].st_value)
                    symtab->push_back({sy[k].st_value, sy[k].st_size, str + sy[k].st_name});
        }
    std::sort(symtab->begin(), symtab->end(), [](const Sym &x, const Sym &y) { return x.a < y.a; });
}

std::string symbol(void *pc)
{
    Dl_info di;
    char b[64];
    u64 a = (u64) pc - 1;
    const char *nm = nullptr;
    if (symtab) {
        auto it = std::upper_bound(symtab->begin(), symtab->end(), a, [](u64 v, const Sym &s) { return v < s.a; });
        if (it != symtab->begin()) {
            --it;
            if (a < it->a + (it->n ? it->n : 1))
                nm = it->name;
        }
    }
    if (!nm && dladdr((void *) a, &di) && di.dli_sname)
        nm = di.dli_sname;
    if (nm) {
        std::string base = nm;
        size_t dot = base.find(".cold"); // gcc splits cold paths
        if (dot != std::string::npos)
            base.resize(dot);
        int st;
        char *d = abi::__cxa_demangle(base.c_str(), nullptr, nullptr, &st);
        std::string s = d ? d : base;
        __libc_free(d);
        return s;
    }
    snprintf(b, sizeof b, "%p", pc);
    return b;
}

bool arena_ptr(const void *p)
{
    return (u64) p >= ARENA_BASE && (u64) p < ARENA_END;
}

struct UserOff
{
    bool u;
    UserOff()
        : u(g.user)
    {
        g.user = false;
    }
    ~UserOff() { g.user = u; }
};

// ---------------------------------------------------------------- context switching
extern "C" void mc_switch(void **save, void *load);
asm(R"(
.text
.globl mc_switch
.hidden mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
)");

inline void setfs(u64 v)
{
    asm volatile("wrfsbase %0" ::"r"(v) : "memory");
}
inline u64 getfs()
{
    u64 v;
    asm volatile("rdfsbase %0" : "=r"(v));
    return v;
}

void *dummy_sp;

[[noreturn]] void leave(Status s)
{
    g.user = false;
    g.status = s;
    setfs(g.main_fs);
    mc_switch(&dummy_sp, g.explorer_sp);
    __builtin_unreachable();
}

std::string thread_state_text();

[[noreturn]] void violation(const std::string &kind, const std::string &msg)
{
    g.user = false;
    std::string key = kind;
    std::string m = msg;
    size_t bar = m.find(" | ");
    key += ": " + m.substr(0, bar);
    g.vkey = key;
    g.vmsg = kind + ": " + m;
    leave(ST_VIOLATION);
}

void tracef(const char *fmt, ...)
{
    if (!g.trace)
        return;
    va_list ap;
    va_start(ap, fmt);
    vfprintf(g.out ? g.out : stdout, fmt, ap);
    va_end(ap);
}

// ---------------------------------------------------------------- objects
Obj &obj(const void *a)
{
    u64 h = mix((u64) a, 77) & (g.objcap - 1);
    for (;;) {
        Obj &o = g.objs[h];
        if (o.gen != (u32) g.gen) {
            if (++g.objn * 2 > g.objcap) {
                fprintf(stderr, "libmc: object table full\n");
                _exit(4);
            }
            memset((void *) &o, 0, sizeof o);
            o.gen = (u32) g.gen;
            o.addr = a;
            o.owner = -1;
            o.hist = -1;
            o.lasttid = -1;
            return o;
        }
        if (o.addr == a)
            return o;
        h = (h + 1) & (g.objcap - 1);
    }
}

inline Thread &T() { return g.th[g.cur]; }

inline void sethash(int t, u64 nh)
{
    g.sig -= mix(g.th[t].hash, t + 1);
    g.th[t].hash = nh;
    g.sig += mix(nh, t + 1);
}

char stampobj;
void event(Op op, const void *addr, bool write, u64 extra = 0)
{
    if (__builtin_expect(T().pstamp != nullptr, 0)) {
        long *p = T().pstamp;
        T().pstamp = nullptr;
        event(OP_REC, &stampobj, true);
        g.version--;
        *p = (long) g.transitions;
    }
    Obj &o = obj(addr);
    u64 h = mix(mix(mix(T().hash, op), (u64) addr ^ (extra << 1)), o.wh);
    sethash(g.cur, h);
    if (write) {
        o.wh = h;
        g.version++;
        g.stall = 0;
    }
    g.transitions++;
}

// ---------------------------------------------------------------- race detector
Cell &cell(u64 granule)
{
    u64 h = mix(granule, 3) & (g.cellcap - 1);
    for (;;) {
        Cell &c = g.cells[h];
        if (c.gen != (u32) g.gen) {
            if (++g.celln * 2 > g.cellcap) {
                // grow
                u64 ncap = g.cellcap * 4;
                Cell *nc = (Cell *) mmap(nullptr, ncap * sizeof(Cell), PROT_READ | PROT_WRITE,
                                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                for (u64 i = 0; i < g.cellcap; i++)
                    if (g.cells[i].gen == (u32) g.gen) {
                        u64 k = mix(g.cells[i].key, 3) & (ncap - 1);
                        while (nc[k].gen == (u32) g.gen)
                            k = (k + 1) & (ncap - 1);
                        nc[k] = g.cells[i];
                    }
                munmap(g.cells, g.cellcap * sizeof(Cell));
                g.cells = nc;
                g.cellcap = ncap;
                g.celln--;
                return cell(granule);
            }
            memset((void *) &c, 0, sizeof c);
            c.gen = (u32) g.gen;
            c.key = granule;
            return c;
        }
        if (c.key == granule)
            return c;
        h = (h + 1) & (g.cellcap - 1);
    }
}

struct LastAcc
{
    void *pc;
    bool write, atomic;
};
std::map<std::pair<u64, int>, LastAcc> *acclog; // trace mode: (granule, tid) -> last access

enum AccKind { A_READ, A_WRITE, A_AREAD, A_AWRITE, A_FREE };

const char *acckind[] = {"read", "write", "atomic read", "atomic write", "free"};

[[noreturn]] void race(u64 granule, AccKind k, const char *prior, int other, void *pc)
{
    g.user = false;
    std::string s = symbol(pc);
    // cut template noise: keep the key stable but readable
    std::string msg = "data race: " + std::string(acckind[k]) + " in " + s +
                      " conflicts with an unordered " + prior + " by another thread";
    char b[200];
    snprintf(b, sizeof b, " | thread %d vs thread %d, address %lx", g.cur, other,
             (unsigned long) (granule << 3));
    msg += b;
    if (g.trace && acclog) {
        auto it = acclog->find({granule, other});
        if (it != acclog->end())
            msg += std::string(", other access (last) in ") + symbol(it->second.pc);
    }
    violation("race", msg);
}

inline void check_granule(u64 gr, u8 mask, AccKind k, void *pc)
{
    Cell &c = cell(gr);
    const int t = g.cur;
    const VC &vc = g.th[t].vc;
    if (g.sc->o.races) {
        bool isw = (k == A_WRITE || k == A_FREE);
        for (int u = 0; u < g.nth; u++) {
            if (u == t)
                continue;
            u32 known = vc.c[u];
            if (c.w[u] > known && (c.wm[u] & mask))
                race(gr, k, "write", u, pc);
            if (isw) {
                if (c.r[u] > known && (c.rm[u] & mask))
                    race(gr, k, "read", u, pc);
                if (c.ar[u] > known && (c.arm[u] & mask))
                    race(gr, k, "atomic read", u, pc);
            }
            if (isw || k == A_READ) {
                if (c.aw[u] > known && (c.awm[u] & mask))
                    race(gr, k, "atomic write", u, pc);
            } else if (k == A_AWRITE) {
                if (c.r[u] > known && (c.rm[u] & mask))
                    race(gr, k, "read", u, pc);
            }
        }
    }
    u32 now = vc.c[t];
    switch (k) {
    case A_FREE:
    case A_WRITE:
        if (c.w[t] != now)
            c.wm[t] = 0;
        c.w[t] = now;
        c.wm[t] |= mask;
        break;
    case A_READ:
        if (c.r[t] != now)
            c.rm[t] = 0;
        c.r[t] = now;
        c.rm[t] |= mask;
        break;
    case A_AREAD:
        if (c.ar[t] != now)
            c.arm[t] = 0;
        c.ar[t] = now;
        c.arm[t] |= mask;
        break;
    case A_AWRITE:
        if (c.aw[t] != now)
            c.awm[t] = 0;
        c.aw[t] = now;
        c.awm[t] |= mask;
        break;
    }
    if (g.trace && acclog) {
        bool u = g.user;
        g.user = false;
        (*acclog)[{gr, t}] = LastAcc{pc, k == A_WRITE || k == A_FREE, k == A_AREAD || k == A_AWRITE};
        g.user = u;
    }
}
// Note on masks: when a thread accesses the same granule at a later epoch with another mask the
// older mask is dropped; that can only lose reports, never invent them.

inline void heap_check(const void *p, size_t n, bool write, void *pc)
{
    if (!arena_ptr(p))
        return;
    u64 a = (u64) p - ARENA_BASE;
    u64 e = a + n - 1;
    for (u64 gr = a >> 3; gr <= (e >> 3); gr++) {
        u8 st = g.astate[gr];
        if (st >= 1 && st <= 8) {
            u64 last = gr == (e >> 3) ? (e & 7) + 1 : 8;
            if (last <= st)
                continue;
        }
        g.user = false;
        std::string m = st == 0xFD ? "heap use after free" : "heap out-of-bounds access";
        violation("memory", m + " (" + (write ? "write" : "read") + ") in " + symbol(pc));
    }
}

[[gnu::noinline]] void runaway()
{
    violation("hang", "execution does not terminate (unbounded computation without synchronisation)");
}

inline void access(const void *p, size_t n, AccKind k, void *pc)
{
    if (++g.plain > 30000000ull)
        runaway();
    heap_check(p, n, k == A_WRITE || k == A_AWRITE, pc);
    if (g.nth == 1)
        return; // no other thread exists yet: thread creation will order everything done so far
    if (k == A_WRITE)
        T().writes++;
    u64 a = (u64) p, e = a + n - 1;
    u64 g0 = a >> 3, g1 = e >> 3;
    if (g0 == g1) {
        u8 m = (u8) (((1u << n) - 1) << (a & 7));
        check_granule(g0, m, k, pc);
        return;
    }
    for (u64 gr = g0; gr <= g1; gr++) {
        u8 m = 0xFF;
        if (gr == g0)
            m = (u8) (0xFF << (a & 7));
        if (gr == g1)
            m &= (u8) (0xFF >> (7 - (e & 7)));
        check_granule(gr, m, k, pc);
    }
}

// ---------------------------------------------------------------- visited set
void visited_reset()
{
    if (!g.vk) {
        g.vcap = 1 << 16;
        g.vk = (u64 *) __libc_calloc(g.vcap, 8);
        g.vv = (u8 *) __libc_calloc(g.vcap, 1);
    } else {
        memset(g.vk, 0, g.vcap * 8);
    }
    g.vn = 0;
}
void visited_grow()
{
    size_t oc = g.vcap;
    u64 *ok = g.vk;
    u8 *ov = g.vv;
    g.vcap *= 2;
    g.vk = (u64 *) __libc_calloc(g.vcap, 8);
    g.vv = (u8 *) __libc_calloc(g.vcap, 1);
    for (size_t i = 0; i < oc; i++)
        if (ok[i]) {
            size_t h = ok[i] & (g.vcap - 1);
            while (g.vk[h])
                h = (h + 1) & (g.vcap - 1);
            g.vk[h] = ok[i];
            g.vv[h] = ov[i];
        }
    __libc_free(ok);
    __libc_free(ov);
}
// true: already explored with no more preemptions used
bool visited(u64 key, int used)
{
    if (!key)
        key = 1;
    size_t h = key & (g.vcap - 1);
    while (g.vk[h]) {
        if (g.vk[h] == key) {
            if (g.vv[h] <= used)
                return true;
            g.vv[h] = used;
            return false;
        }
        h = (h + 1) & (g.vcap - 1);
    }
    g.states++;
    if (g.vn > 60000000)
        return false; // memory cap: no more pruning
    g.vk[h] = key;
    g.vv[h] = used;
    if (++g.vn * 2 > g.vcap)
        visited_grow();
    return false;
}

// take a choice among n alternatives with the given costs; returns the index
int decide(int n, const u8 *cost, int kind, u64 key)
{
    if (n > 20) {
        fprintf(stderr, "libmc: too many alternatives (%d)\n", n);
        _exit(4);
    }
    int c;
    if (g.depth < g.stack.n) {
        Node &nd = g.stack[g.depth];
        if (nd.n != n || nd.kind != kind || nd.sig != key) {
            if (g.replaying) {
                // replay files do not carry signatures
                if (nd.n != 0 && nd.n != n)
                    leave(ST_DIVERGED);
                nd.n = n;
                nd.kind = kind;
                nd.sig = key;
                memcpy(nd.cost, cost, n);
                if (nd.cur >= n)
                    leave(ST_DIVERGED);
            } else {
                fprintf(stderr, "libmc: replay divergence in %s at node %zu: n %d/%d kind %d/%d sig %lx/%lx\n",
                        g.sc->name.c_str(), g.depth, nd.n, n, nd.kind, kind, (long) nd.sig, (long) key);
                leave(ST_DIVERGED);
            }
        }
        c = nd.cur;
    } else {
        if (g.visited_on && !g.replaying) {
            u64 k = mix(key, g.used[C_TIMER] * 64 + g.used[C_SPUR] * 8 + g.used[C_STALE] + 1000 * kind);
            if (visited(k, g.used[C_PREEMPT])) {
                g.pruned++;
                leave(ST_PRUNED);
            }
        }
        Node nd;
        memset(&nd, 0, sizeof nd);
        nd.n = n;
        nd.kind = kind;
        nd.sig = key;
        for (int i = 0; i < NCOST; i++)
            nd.used[i] = g.used[i];
        memcpy(nd.cost, cost, n);
        g.stack.push(nd);
        c = 0;
    }
    g.depth++;
    g.used[cost[c]]++;
    return c;
}

// ---------------------------------------------------------------- scheduler
bool is_timed(const Thread &t)
{
    return t.pend.op == OP_SLEEP ||
           ((t.pend.op == OP_CVBLOCK || t.pend.op == OP_TIMEDLOCK || t.pend.op == OP_SEMWAIT) && t.deadline >= 0);
}

bool enabled(int i)
{
    Thread &t = g.th[i];
    if (!t.used || t.finished)
        return false;
    switch (t.pend.op) {
    case OP_LOCK:
    case OP_TIMEDLOCK: {
        Obj &o = obj(t.pend.addr);
        return o.owner == -1 && o.readers == 0;
    }
    case OP_WRLOCK: {
        Obj &o = obj(t.pend.addr);
        return o.owner == -1 && o.readers == 0;
    }
    case OP_RDLOCK: {
        Obj &o = obj(t.pend.addr);
        return o.owner == -1;
    }
    case OP_CVBLOCK:
        return t.signaled;
    case OP_SEMWAIT:
        return obj(t.pend.addr).count > 0;
    case OP_JOIN:
        return g.th[t.pend.extra].finished;
    case OP_SLEEP:
        return t.deadline <= g.now;
    case OP_ONCE: {
        Obj &o = obj(t.pend.addr);
        return o.once != 1;
    }
    default:
        return true;
    }
}

std::string thread_state_text()
{
    std::string s;
    for (int i = 0; i < g.nth; i++) {
        Thread &t = g.th[i];
        if (t.finished)
            continue;
        char b[160];
        snprintf(b, sizeof b, "%sT%d:%s", s.empty() ? "" : " ", i, opname[t.pend.op]);
        s += b;
    }
    return s;
}

void switch_to(int n)
{
    int p = g.cur;
    if (n == p)
        return;
    g.cur = n;
    g.th[n].run_len = 0;
    setfs(g.th[n].fs);
    mc_switch(&g.th[p].sp, g.th[n].sp);
}

u64 sched_key()
{
    u64 y = 0;
    for (int i = 0; i < g.nth; i++) {
        const Thread &t = g.th[i];
        if (t.finished)
            continue;
        if (t.yielded)
            y |= 1ull << i;
        if (t.signaled)
            y |= 256ull << i;
    }
    return mix(mix(g.sig, g.cur), y * 31 + (u64) (g.now + g.wall * 3));
}

// pick the thread that performs the next visible operation; called on the current fiber with its
// pending operation set.
void schedule()
{
    if (++g.steps > g.steps_base + g.sc->o.horizon) {
        std::string s = thread_state_text();
        violation("livelock", "no termination within the horizon of visible operations | " + s);
    }
    Alt alts[20];
    int n;
    for (;;) {
        n = 0;
        bool yielded_enabled = false;
        bool cur_ok = enabled(g.cur);
        if (cur_ok && ++T().run_len > 400) {
            // fairness: a thread that never waits must not starve the others
            T().yielded = true;
            T().yield_version = g.version;
            T().run_len = 0;
        }
        for (int i = 0; i < g.nth; i++) {
            Thread &t = g.th[i];
            if (t.yielded && t.yield_version != g.version)
                t.yielded = false;
        }
        bool cur_free = cur_ok && !T().yielded;
        if (cur_free)
            alts[n++] = {(u8) g.cur, 0, C_FREE};
        for (int d = 1; d <= g.nth; d++) {
            int i = (g.cur + d) % g.nth;
            if (i == g.cur && cur_free)
                continue;
            if (!enabled(i))
                continue;
            if (g.th[i].yielded) {
                yielded_enabled = true;
                continue;
            }
            alts[n++] = {(u8) i, 0, (u8) (cur_free ? C_PREEMPT : C_FREE)};
        }
        int normal = n;
        // timers
        if (normal == 0) {
            long long best = -1;
            for (int i = 0; i < g.nth; i++) {
                Thread &t = g.th[i];
                if (!t.used || t.finished || enabled(i) || !is_timed(t))
                    continue;
                if (best < 0 || t.deadline < best)
                    best = t.deadline;
            }
            if (best >= 0) {
                for (int pass = 0; pass < 2; pass++)
                    for (int i = 0; i < g.nth; i++) {
                        Thread &t = g.th[i];
                        if (!t.used || t.finished || enabled(i) || !is_timed(t))
                            continue;
                        if ((t.deadline == best) == (pass == 0))
                            alts[n++] = {(u8) i, 1, (u8) (pass == 0 ? C_FREE : C_TIMER)};
                    }
            } else if (yielded_enabled) {
                // only spinning / yielding threads can run: round robin
                if (++g.stall > g.sc->o.stall) {
                    std::string s = thread_state_text();
                    violation("livelock", "all runnable threads spin and nothing can change | " + s);
                }
                if (g.stall % 16 == 0)
                    g.now += 50000;
                for (int d = 1; d <= g.nth; d++) {
                    int i = (g.cur + d) % g.nth;
                    if (enabled(i)) {
                        g.th[i].yielded = false;
                        alts[n++] = {(u8) i, 0, C_FREE};
                        break;
                    }
                }
            }
        } else {
            for (int i = 0; i < g.nth; i++) {
                Thread &t = g.th[i];
                if (!t.used || t.finished || enabled(i) || !is_timed(t))
                    continue;
                if (g.budget[C_TIMER] > 0 && n < 20)
                    alts[n++] = {(u8) i, 1, C_TIMER};
            }
        }
        if (g.budget[C_SPUR] > 0 && n > 0)
            for (int i = 0; i < g.nth; i++) {
                Thread &t = g.th[i];
                if (t.used && !t.finished && t.pend.op == OP_CVBLOCK && !t.signaled && n < 20)
                    alts[n++] = {(u8) i, 2, C_SPUR};
            }
        break;
    }
    if (n == 0) {
        std::string s = thread_state_text();
        violation("deadlock", "no thread can make progress | " + s);
    }
    int c = 0;
    if (n > 1) {
        u8 cost[20];
        for (int i = 0; i < n; i++)
            cost[i] = i && g.sc->o.delays && alts[i].cost == C_FREE ? (u8) C_PREEMPT : alts[i].cost;
        c = decide(n, cost, 0, sched_key());
    }
    Alt &a = alts[c];
    Thread &t = g.th[a.tid];
    t.wake_variant = a.variant;
    if (a.variant == 1 && t.deadline > g.now) {
        g.now = t.deadline;
    }
    switch_to(a.tid);
}

void point(Op op, const void *addr, void *pc, long extra = 0)
{
    Thread &t = T();
    t.pend.op = op;
    t.pend.addr = addr;
    t.pend.extra = extra;
    t.pend.pc = pc;
    schedule();
}

void done_trace(Op op, const void *addr, long v, void *pc)
{
    g.trace_n++;
    if (g.trace) {
        if (g.trace_n > 3000 && g.trace_n + 3000 < g.trace_end) { // a long one: its beginning and its end
            if (g.trace_n == 3001)
                tracef("  ... %lu steps ...\n", (unsigned long) (g.trace_end - 6000));
            return;
        }
        tracef("  T%d %-9s %p val=%ld t=%lldus", g.cur, opname[op], addr, v, g.now / 1000);
        if (pc)
            tracef(" %.160s", symbol(pc).c_str());
        tracef("\n");
    }
}

void inc_clk()
{
    Thread &t = T();
    t.vc.c[g.cur]++;
}

// a read-like operation that saw no change since the same thread did it before at the same place:
// the thread is spinning; let the others run first.
void note_read(void *pc, const void *addr)
{
    Thread &t = T();
    SpinEnt *b = &t.spin[(mix((u64) pc, (u64) addr) & 15) * 4]; // 4-way buckets
    for (int w = 0; w < 4; w++) {
        SpinEnt &e = b[w];
        if (e.pc != pc || e.addr != addr)
            continue;
        if (e.version == g.version) {
            if (++e.count >= 3) {
                t.yielded = true;
                t.yield_version = g.version;
            }
        } else {
            e.version = g.version;
            e.count = 1;
        }
        return;
    }
    int v = 0;
    for (int w = 1; w < 4; w++)
        if (b[w].version < b[v].version)
            v = w;
    b[v].pc = pc;
    b[v].addr = addr;
    b[v].version = g.version;
    b[v].count = 1;
}

// ---------------------------------------------------------------- fibers
void fiber_main() noexcept;
extern "C" void mc_fiber_entry()
{
    fiber_main();
    __builtin_trap();
}

void finish_thread()
{
    g.user = false;
    Thread &t = T();
    t.finished = true;
    inc_clk();
    obj(&t).rel = t.vc;
    event(OP_EXIT, &t, true);
    done_trace(OP_EXIT, &t, 0, nullptr);
    t.pend.op = OP_EXIT;
    schedule();
    __builtin_trap();
}

void fiber_main() noexcept
{
    Thread &t = T();
    t.started = true;
    event(OP_START, &t, false);
    if (g.cur == 0) {
        g.user = true;
        g.sc->fn();
        g.user = false;
        leave(ST_DONE);
    } else {
        g.user = true;
        t.ret = t.fn(t.arg);
        g.user = false;
        finish_thread();
    }
}

void thread_reset(int i)
{
    Thread &t = g.th[i];
    t.used = t.finished = t.detached = t.joined = t.started = false;
    t.fn = nullptr;
    t.arg = t.ret = nullptr;
    t.vc.clear();
    t.acqF.clear();
    t.relF.clear();
    t.view.clear();
    t.readView.clear();
    t.hasRelF = false;
    t.hash = i + 1;
    t.yielded = t.signaled = t.timedout = t.spurious = false;
    t.deadline = -1;
    t.wake_variant = 0;
    t.run_len = 0;
    t.pstamp = nullptr;
    memset(t.spin, 0, sizeof t.spin);
    t.writes = 0;
    t.pend = Pending{OP_START, nullptr, 0, nullptr};
}

void prepare_fiber(int i)
{
    Thread &t = g.th[i];
    u64 *sp = (u64 *) (t.stack + STACK_SZ - 64);
    *--sp = 0;
    *--sp = (u64) &mc_fiber_entry; // at entry rsp % 16 == 8
    if (((u64) (sp + 1)) % 16 != 8) {
        sp = (u64 *) (t.stack + STACK_SZ - 72);
        *--sp = 0;
        *--sp = (u64) &mc_fiber_entry;
    }
    for (int k = 0; k < 6; k++)
        *--sp = 0;
    t.sp = sp;
    t.used = true;
    t.vc.c[i] = 1;
}

// ---------------------------------------------------------------- snapshots of exe data and TLS
struct Range
{
    char *p;
    size_t n;
    char *copy;
    int slot; // whose thread-local storage, or -1
};
std::vector<Range> *ranges;

int phdr_cb(struct dl_phdr_info *info, size_t, void *data)
{
    int *idx = (int *) data;
    if ((*idx)++ != 0)
        return 0; // only the executable's data
    u64 ro0 = 0, ro1 = 0;
    for (int i = 0; i < info->dlpi_phnum; i++)
        if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO) {
            ro0 = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
            ro1 = (ro0 + info->dlpi_phdr[i].p_memsz + 4095) & ~4095ull;
            ro0 &= ~4095ull;
        }
    for (int i = 0; i < info->dlpi_phnum; i++) {
        auto &ph = info->dlpi_phdr[i];
        if (ph.p_type != PT_LOAD || !(ph.p_flags & PF_W))
            continue;
        u64 a = info->dlpi_addr + ph.p_vaddr, e = a + ph.p_memsz;
        if (ro1 > a && ro0 <= a)
            a = ro1;
        if (a < e)
            ranges->push_back(Range{(char *) a, e - a, (char *) __libc_malloc(e - a), -1});
    }
    return 0;
}

struct TlsArg
{
    int slot;
};
int tls_cb(struct dl_phdr_info *info, size_t, void *data)
{
    int slot = ((TlsArg *) data)->slot;
    const char *nm = info->dlpi_name ? info->dlpi_name : "";
    if (strstr(nm, "/libc.so") || strstr(nm, "ld-linux"))
        return 0;
    if (info->dlpi_tls_data)
        for (int i = 0; i < info->dlpi_phnum; i++)
            if (info->dlpi_phdr[i].p_type == PT_TLS) {
                size_t n = info->dlpi_phdr[i].p_memsz;
                ranges->push_back(Range{(char *) info->dlpi_tls_data, n, (char *) __libc_malloc(n), slot});
            }
    return 0;
}

std::atomic<int> parked{0};
void *park_thread(void *arg)
{
    long slot = (long) arg;
    (void) __cxxabiv1::__cxa_get_globals();
    g.th[slot].fs = getfs();
    TlsArg ta{(int) slot};
    dl_iterate_phdr(tls_cb, &ta);
    parked.fetch_add(1);
    for (;;)
        pause();
}

typedef int (*pcreate_t)(pthread_t *, const pthread_attr_t *, void *(*) (void *), void *);

void setup_runtime()
{
    static bool done = false;
    if (done)
        return;
    done = true;
    ranges = new std::vector<Range>;
    outcomes = new std::set<u64>;
    violations = new std::vector<Violation>;
    acclog = new std::map<std::pair<u64, int>, LastAcc>;
    int idx = 0;
    dl_iterate_phdr(phdr_cb, &idx);
    g.main_fs = getfs();
    auto pc = (pcreate_t) dlsym(RTLD_NEXT, "pthread_create");
    for (long i = 0; i < MAXT; i++) {
        pthread_t p;
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 256 << 10);
        int before = parked.load();
        if (pc(&p, &at, park_thread, (void *) i) != 0) {
            fprintf(stderr, "libmc: cannot create slot thread\n");
            _exit(4);
        }
        while (parked.load() == before)
            sched_yield();
        char *m = (char *) mmap(nullptr, STACK_SZ + 8192, PROT_READ | PROT_WRITE,
                                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(m, 8192, PROT_NONE);
        g.th[i].stack = m + 8192;
    }
    g.objs = (Obj *) __libc_calloc(g.objcap, sizeof(Obj));
    g.cells = (Cell *) mmap(nullptr, g.cellcap * sizeof(Cell), PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g.hists = (Hist *) __libc_malloc(g.hcap * sizeof(Hist));
    void *a = mmap((void *) ARENA_BASE, ARENA_SZ * MAXT, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a != (void *) ARENA_BASE) {
        fprintf(stderr, "libmc: cannot map arena\n");
        _exit(4);
    }
    g.astate = (u8 *) mmap(nullptr, ARENA_SZ * MAXT / 8, PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 0; i < MAXT; i++)
        g.th[i].bump = (char *) ARENA_BASE + i * ARENA_SZ;
}

void snapshot()
{
    for (auto &r : *ranges)
        memcpy(r.copy, r.p, r.n);
}
void restore()
{
    for (auto &r : *ranges)
        memcpy(r.p, r.copy, r.n);
}

// ---------------------------------------------------------------- arena
// block layout: [8 byte size][payload][>=8 byte redzone]; the header granule has state 0 (invalid)
void *arena_alloc(size_t n, size_t align = 16)
{
    Thread &t = T();
    if (n == 0)
        n = 1;
    if (align < 16)
        align = 16;
    u64 p = (u64) t.bump + 16;
    p = (p + align - 1) & ~(align - 1);
    u64 end = p + ((n + 7) & ~7ull) + 8;
    u64 lim = ARENA_BASE + (g.cur + 1) * ARENA_SZ;
    if (n > ARENA_SZ || end + 64 > lim) {
        if (n > ARENA_SZ)
            return nullptr; // behaves like an allocation failure
        violation("memory", "execution allocates more than the arena holds");
    }
    *(u64 *) (p - 8) = n;
    u64 gr = (p - ARENA_BASE) >> 3;
    u64 full = n >> 3;
    memset(g.astate + gr, 8, full);
    if (n & 7)
        g.astate[gr + full] = n & 7;
    t.bump = (char *) end;
    g.live_bytes += n;
    if (g.mark)
        g.live_marked += n;
    size_t f = n < 4096 ? n : 4096;
    memset((void *) p, 0xCB, f);
    // what lies behind a block is the same in every execution: a read beyond its end replays
    memset((void *) (p + n), 0xCB, end - 1 - (p + n));
    *(char *) (end - 1) = 0;
    return (void *) p;
}

void arena_free(void *ptr, void *pc)
{
    u64 p = (u64) ptr;
    u64 gr = (p - ARENA_BASE) >> 3;
    u8 st = g.astate[gr];
    if (st == 0xFD)
        violation("memory", "double free in " + symbol(pc));
    if (st == 0)
        violation("memory", "free of an invalid pointer in " + symbol(pc));
    u64 n = *(u64 *) (p - 8);
    if (g.sc->o.races && n <= 65536) {
        for (u64 k = p >> 3; k <= (p + n - 1) >> 3; k++) {
            // only granules that were touched matter
            u64 h = mix(k, 3) & (g.cellcap - 1);
            bool present = false;
            for (;;) {
                Cell &c = g.cells[h];
                if (c.gen != (u32) g.gen)
                    break;
                if (c.key == k) {
                    present = true;
                    break;
                }
                h = (h + 1) & (g.cellcap - 1);
            }
            if (present)
                check_granule(k, 0xFF, A_FREE, pc);
        }
    }
    memset(g.astate + gr, 0xFD, (n + 7) >> 3);
    g.live_bytes -= n;
    if (g.mark && p >= g.mark)
        g.live_marked -= n;
}

void arena_reset()
{
    for (int i = 0; i < MAXT; i++) {
        char *b = (char *) ARENA_BASE + i * ARENA_SZ;
        size_t used = g.th[i].bump - b;
        if (used) {
            memset(g.astate + (((u64) b - ARENA_BASE) >> 3), 0, (used + 7) / 8 + 8);
            if (used > (1 << 20))
                madvise(b, used, MADV_DONTNEED);
        }
        g.th[i].bump = b;
    }
    g.live_bytes = 0;
}

// ---------------------------------------------------------------- one execution
volatile u64 hang_execs, hang_steps, hang_cases;
volatile int hang_ticks;

void on_tick(int)
{
    if (hang_execs == g.execs && hang_steps == g.steps && hang_cases == g.cases && g.status == ST_RUN) {
        if (++hang_ticks >= 20 && g.user) {
            g.user = false;
            violation("hang", "execution does not terminate (loop without any synchronisation)");
        }
    } else {
        hang_execs = g.execs;
        hang_steps = g.steps;
        hang_cases = g.cases;
        hang_ticks = 0;
    }
}

void on_crash(int sig, siginfo_t *si, void *uc)
{
    if (g.status == ST_RUN && getfs() != 0) {
        ucontext_t *u = (ucontext_t *) uc;
        void *pc = (void *) u->uc_mcontext.gregs[REG_RIP];
        bool was_user = g.user;
        g.user = false;
        const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : "SIGILL";
        if (sig == SIGABRT)
            violation("crash", "the C library aborted the process (corrupted heap, or memory freed that is not on the heap)");
        if (was_user || true)
            violation("crash", std::string(n) + " in " + symbol((char *) pc + 1));
    }
    signal(sig, SIG_DFL);
    raise(sig);
}

void on_terminate()
{
    if (g.status == ST_RUN) {
        g.user = false;
        std::string m = "std::terminate called";
        if (std::type_info *ti = abi::__cxa_current_exception_type()) {
            int st;
            char *d = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st);
            m = std::string("uncaught exception ") + (d ? d : ti->name());
            if (auto ep = std::current_exception()) {
                try {
                    std::rethrow_exception(ep);
                } catch (std::exception &e) {
                    m += std::string(" | ") + e.what();
                } catch (...) {
                }
            }
        }
        violation("terminate", m);
    }
    _exit(4);
}

void run_once()
{
    g.gen++;
    if ((u32) g.gen == 0)
        g.gen++;
    g.objn = 0;
    g.celln = 0;
    g.nhist = 0;
    g.scView.clear();
    for (int i = 0; i < MAXT; i++)
        thread_reset(i);
    restore();
    arena_reset();
    for (int i = 0; i < 32; i++) {
        g.rec[i].n = 0;
        g.rechash[i] = 0;
    }
    g.nth = 1;
    g.cur = 0;
    g.depth = 0;
    for (int i = 0; i < NCOST; i++)
        g.used[i] = 0;
    g.steps = g.plain = g.steps_base = g.mark = g.live_marked = 0;
    g.version = 1;
    g.stall = 0;
    g.sig = 0;
    for (int i = 0; i < MAXT; i++)
        g.sig += mix(g.th[i].hash, i + 1);
    g.now = 0;
    g.wall = 0;
    g.outcome = 0;
    prepare_fiber(0);
    if (g.trace)
        acclog->clear();
    g.status = ST_RUN;
    g.execs++;
    setfs(g.th[0].fs);
    mc_switch(&g.explorer_sp, g.th[0].sp);
    g.steps_total += g.steps;
    g.plain_total += g.plain;
    if (g.steps > g.maxsteps)
        g.maxsteps = g.steps;
    if (g.depth > g.maxdepth)
        g.maxdepth = g.depth;
}

double wall()
{
    struct timespec ts; // the real clock, within an execution too
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

std::string jesc(const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += c;
    }
    return r;
}

struct Result
{
    bool exhaustive = false; // the whole space of the other budgets, no preemption cut
    bool capped = false;
    int completed = -1;
    bool diverged = false;
};

void install_handlers()
{
    static char alt[65536];
    stack_t ss;
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_crash;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
    sigaction(SIGFPE, &sa, nullptr);
    sigaction(SIGILL, &sa, nullptr);
    sigaction(SIGABRT, &sa, nullptr);
    struct sigaction st;
    memset(&st, 0, sizeof st);
    st.sa_handler = on_tick;
    st.sa_flags = SA_NODEFER | SA_ONSTACK | SA_RESTART;
    sigaction(SIGALRM, &st, nullptr);
    struct itimerval it = {{1, 0}, {1, 0}};
    setitimer(ITIMER_REAL, &it, nullptr);
    std::set_terminate(on_terminate);
}

bool backtrack()
{
    while (g.stack.n) {
        Node &nd = g.stack[g.stack.n - 1];
        bool found = false;
        while (nd.cur + 1 < nd.n) {
            nd.cur++;
            int c = nd.cost[nd.cur];
            if (c == C_FREE || nd.used[c] + 1 <= g.budget[c]) {
                found = true;
                break;
            }
            if (c == C_PREEMPT)
                g.cut = true;
            else
                g.cut_other = true;
        }
        if (found)
            return true;
        g.stack.n--;
    }
    return false;
}

std::vector<u8> choices_of()
{
    std::vector<u8> r;
    for (size_t i = 0; i < g.depth && i < g.stack.n; i++)
        r.push_back(g.stack[i].cur);
    return r;
}

// populate lazily created library state (locales, iostreams, unwinder) outside the arena
void warmup()
{
    static bool done = false;
    if (done)
        return;
    done = true;
    {
        std::ostringstream os;
        os << 1 << ' ' << 1.5 << ' ' << 2.5f << ' ' << true << ' ' << 3l << ' ' << 4ull << ' ' << std::hex << 5
           << std::string("x") << (void *) &os;
        std::istringstream is("1 2.5 abc 1 0x10");
        int i;
        double d;
        std::string w;
        bool bo;
        is >> i >> d >> w >> bo >> std::hex >> i;
        std::getline(is, w);
        std::ifstream f("/dev/null");
        std::getline(f, w);
        std::ofstream o("/dev/null");
        o << "x";
        try {
            throw std::runtime_error("x");
        } catch (std::exception &e) {
            w = e.what();
        }
        try {
            (void) std::stoi("zz");
        } catch (std::exception &e) {
            w = e.what();
        }
        (void) strerror(4);
    }
}

Result explore(Scenario &sc, int maxbound, double seconds, u64 maxexec)
{
    Result r;
    g.sc = &sc;
    g.budget[C_FREE] = 1 << 30;
    g.budget[C_TIMER] = sc.o.timers[g.tier];
    g.budget[C_SPUR] = sc.o.spurious[g.tier];
    g.budget[C_STALE] = sc.o.stale[g.tier];
    double t0 = wall();
    g.expired = false;
    g.expiry = t0 + 2 * seconds + 60;
    warmup();
    snapshot();
    g.execs = 0;
    g.cases = g.steps_total = g.plain_total = g.pruned = g.transitions = g.states = 0;
    g.arena = true;
    std::set<std::string> keys;
    for (int b = 0; b <= maxbound; b++) {
        visited_reset();
        g.budget[C_PREEMPT] = b;
        g.stack.n = 0;
        g.cut = g.cut_other = false;
        g.states = 0;
        for (;;) {
            run_once();
            if (g.status == ST_DIVERGED) {
                r.diverged = true;
                return r;
            }
            if (g.status == ST_DONE)
                outcomes->insert(g.outcome);
            if (g.status == ST_VIOLATION) {
                if (keys.insert(g.vkey).second && violations->size() < 40) {
                    Violation v;
                    v.key = g.vkey;
                    v.msg = g.vmsg;
                    v.choices = choices_of();
                    v.bound = b;
                    violations->push_back(v);
                }
            }
            // an execution that ended early leaves unexplored nodes only up to depth
            if (g.stack.n > g.depth)
                g.stack.n = g.depth;
            r.capped |= g.expired;
            if (!backtrack())
                break;
            if ((g.execs & 63) == 0 || g.expired) {
                if (g.expired || wall() - t0 > seconds || (maxexec && g.execs >= maxexec)) {
                    r.capped = true;
                    return r;
                }
            }
        }
        r.completed = b;
        if (!g.cut) {
            r.exhaustive = !g.expired;
            break;
        }
        if (wall() - t0 > seconds) {
            r.capped = b < maxbound;
            return r;
        }
    }
    return r;
}

} // namespace

// ================================================================ harness API
extern "C" {

int mc_choose(int n, const char *label)
{
    if (!g.user)
        return 0;
    UserOff _;
    if (n <= 0)
        violation("harness", "choose(0)");
    int c = 0;
    if (n > 1) {
        if (n > 20) {
            // split in two levels
            int hi = (n + 15) / 16;
            u8 cost[20] = {0};
            int a = decide(hi, cost, 1, mix(sched_key(), 7));
            sethash(g.cur, mix(T().hash, 1000 + a));
            int rest = n - a * 16 < 16 ? n - a * 16 : 16;
            int b = rest > 1 ? decide(rest, cost, 1, mix(sched_key(), 9)) : 0;
            c = a * 16 + b;
        } else {
            u8 cost[20] = {0};
            c = decide(n, cost, 1, mix(sched_key(), 7));
        }
        sethash(g.cur, mix(T().hash, 5000 + c));
        g.transitions++;
    }
    if (g.trace)
        tracef("  T%d choose    %s = %d/%d\n", g.cur, label, c, n);
    return c;
}

void mc_fail(const char *msg)
{
    g.user = false;
    violation("property", msg);
}

void mc_prune()
{
    leave(ST_PRUNED);
}

void mc_state(uint64_t key)
{
    sethash(g.cur, mix(key, 77));
}

bool mc_expired()
{
    if (!g.expiry || g.replaying)
        return false;
    if (!g.expired && wall() > g.expiry)
        g.expired = true;
    return g.expired;
}
void mc_case_begin()
{
    g.cases++;
    g.plain = 0;
    g.steps_base = g.steps;
    if (g.nth == 1 && g.arena) {
        g.mark = (u64) T().bump;
        g.live_marked = 0;
    }
}
void mc_case_end()
{
    // nothing allocated since the sequence began is still alive: its memory can be used again
    if (g.nth == 1 && g.arena && g.mark && g.live_marked == 0) {
        Thread &t = T();
        u64 used = (u64) t.bump - g.mark;
        memset(g.astate + ((g.mark - ARENA_BASE) >> 3), 0, (used + 7) / 8 + 8);
        t.bump = (char *) g.mark;
    }
    g.mark = 0;
}

void mc_rec(int ch, long v)
{
    bool u = g.user;
    g.user = false;
    g.rec[ch].push(v);
    if (u) {
        u64 h = mix(mix(mix(T().hash, 900 + ch), v), g.rechash[ch]);
        sethash(g.cur, h);
        g.rechash[ch] = h;
    }
    if (g.trace)
        tracef("  T%d rec       ch%d <- %ld\n", g.cur, ch, v);
    g.user = u;
}
int mc_rec_count(int ch)
{
    return g.rec[ch].n;
}
long mc_rec_get(int ch, int i)
{
    return g.rec[ch][i];
}
void mc_observe(uint64_t h)
{
    g.outcome = mix(g.outcome, h);
}
void mc_note(const char *m)
{
    if (g.trace)
        tracef("  T%d note      %s\n", g.cur, m);
}
int mc_thread_id()
{
    return g.cur;
}
int mc_active()
{
    return g.user;
}
int mc_thorough()
{
    return g.tier;
}
long long mc_now_ns()
{
    return g.now;
}
void mc_advance_ns(long long d)
{
    g.now += d;
}
// somebody sets the clock: only what is bound to the time of day notices
void mc_step_wall(long long d)
{
    UserOff _;
    event(OP_REC, &g.wall, true);
    g.wall += d;
    for (int i = 0; i < MAXT; i++) {
        Thread &t = g.th[i];
        if (t.used && !t.finished && t.deadline >= 0 && t.wallDeadline && t.pend.op != OP_SLEEP)
            t.deadline = std::max(0ll, t.deadline - d);
    }
}
size_t mc_live_bytes()
{
    return g.live_bytes;
}
// a position in the global order of visible steps (for real-time order in histories)
long mc_stamp()
{
    UserOff _;
    event(OP_REC, &stampobj, true);
    g.version--; // not progress
    return (long) g.transitions;
}
// like mc_stamp, but taken when the calling thread performs its next visible operation
void mc_stamp_lazy(long *p)
{
    UserOff _;
    T().pstamp = p;
    *p = -1;
}
long mc_stamp_end()
{
    UserOff _;
    if (T().pstamp) {
        long *p = T().pstamp;
        T().pstamp = nullptr;
        *p = mc_stamp();
    }
    return mc_stamp();
}
int mc_quiet(int on)
{
    int u = g.user;
    g.user = !on;
    return u;
}
void mc_point(const void *o, int write)
{
    if (!g.user)
        return;
    UserOff _;
    point(OP_USER, o, __builtin_return_address(0));
    if (write) {
        // behaves like an acquire-release RMW
        Obj &ob = obj(o);
        T().vc.join(ob.rel);
        ob.rel = T().vc;
        inc_clk();
    } else {
        T().vc.join(obj(o).rel);
        note_read(__builtin_return_address(0), o);
    }
    event(OP_USER, o, write);
    done_trace(OP_USER, o, write, __builtin_return_address(0));
}
void mc_register(const char *name, void (*fn)(), mc::Options o)
{
    if (!scenarios)
        scenarios = new std::vector<Scenario>;
    scenarios->push_back(Scenario{name, fn, o});
}
}
namespace mc {
void register_fn(const std::string &name, std::function<void()> fn, Options o)
{
    if (!scenarios)
        scenarios = new std::vector<Scenario>;
    scenarios->push_back(Scenario{name, fn, o});
}
} // namespace mc

// ================================================================ atomics
#define PC __builtin_return_address(0)

namespace {

inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

template<class V>
u64 to64(V v)
{
    u64 r = 0;
    memcpy(&r, &v, sizeof v < 8 ? sizeof v : 8);
    return r;
}

// only one thread has existed so far: its accesses cannot interleave with anything, and the creation of the next
// thread orders them before whatever that thread does
inline bool solo() { return g.nth == 1; }

bool weak_on() { return g.budget[C_STALE] > 0; }

Hist *hist_of(Obj &o, u64 curval)
{
    if (o.hist >= 0 && o.lastval == curval)
        return &g.hists[o.hist];
    if (o.hist < 0) {
        if (g.nhist == g.hcap) {
            g.hcap *= 2;
            g.hists = (Hist *) __libc_realloc(g.hists, g.hcap * sizeof(Hist));
        }
        o.hist = g.nhist++;
    }
    // first use, or the memory was (re)initialised by plain code
    Hist *h = &g.hists[o.hist];
    h->n = 1;
    memset((void *) &h->s[0], 0, sizeof(StoreRec));
    h->s[0].val = curval;
    h->s[0].tid = g.cur;
    h->s[0].clk = 0;
    o.lastval = curval;
    o.lastScIdx = 0;
    memset(o.floorIdx, 0, sizeof o.floorIdx);
    return h;
}

// record a store in object o (value already in memory)
void rec_store(Obj &o, int mo, bool rmw, u64 val, Hist *h)
{
    Thread &t = T();
    VC nr;
    if (is_rel(mo)) {
        nr = t.vc;
        if (rmw)
            nr.join(o.rel);
    } else {
        nr.clear();
        if (t.hasRelF)
            nr.join(t.relF);
        if (rmw || o.lasttid == g.cur)
            nr.join(o.rel);
    }
    o.rel = nr;
    o.lasttid = g.cur;
    o.lastval = val;
    o.isAtomic = true;
    if (h) {
        StoreRec &s = h->s[h->n % 8];
        s.val = val;
        s.rel = nr;
        s.clk = t.vc.c[g.cur];
        s.tid = g.cur;
        s.sc = mo == __ATOMIC_SEQ_CST;
        o.floorIdx[g.cur] = h->n;
        if (s.sc)
            o.lastScIdx = h->n;
        h->n++;
    }
    inc_clk();
}

void acquire_from(const VC &rel, int mo)
{
    Thread &t = T();
    if (is_acq(mo))
        t.vc.join(rel);
    else
        t.acqF.join(rel);
}

// does thread t necessarily know about store s (coherence / happens-before / seq_cst fences)?
bool knows(const Thread &t, const StoreRec &s)
{
    return s.clk == 0 || s.clk <= t.vc.c[s.tid] || s.clk <= t.view.c[s.tid];
}

template<class V>
V a_load(const volatile V *a, int mo, void *pc)
{
    V v;
    if (!g.user) {
        v = *a;
        return v;
    }
    UserOff _;
    if (solo()) {
        access((const void *) a, sizeof(V), A_AREAD, pc);
        return *a;
    }
    point(OP_LOAD, (void *) a, pc);
    access((const void *) a, sizeof(V), A_AREAD, pc);
    v = *a;
    Obj &o = obj((const void *) a);
    u64 back = 0;
    if (weak_on() && sizeof(V) <= 8) {
        Hist *h = hist_of(o, to64(v));
        Thread &t = T();
        u32 lo = h->n > 8 ? h->n - 8 : 0;
        u32 floor = o.floorIdx[g.cur];
        for (int u = 0; u < g.nth; u++)
            if (u != g.cur && o.floorIdx[u] > floor) {
                // reads by other threads that happen before us: approximated through their stores only
            }
        if (mo == __ATOMIC_SEQ_CST && o.lastScIdx > floor)
            floor = o.lastScIdx;
        u32 top = h->n - 1;
        for (u32 i = top; i > floor && i > lo; i--)
            if (knows(t, h->s[i % 8])) {
                floor = i;
                break;
            }
        if (floor < lo)
            floor = lo;
        int n = top - floor + 1;
        u32 pick = top;
        if (n > 1) {
            u8 cost[20];
            for (int i = 0; i < n; i++)
                cost[i] = i ? C_STALE : C_FREE;
            int c = decide(n, cost, 2, mix(sched_key(), (u64) a));
            pick = top - c;
            back = c;
        }
        StoreRec &s = h->s[pick % 8];
        u64 val = s.val;
        memcpy(&v, &val, sizeof v);
        if (pick > o.floorIdx[g.cur])
            o.floorIdx[g.cur] = pick;
        if (s.clk > t.readView.c[s.tid])
            t.readView.c[s.tid] = s.clk;
        acquire_from(s.rel, mo);
    } else {
        acquire_from(o.rel, mo);
    }
    event(OP_LOAD, (void *) a, false, back);
    note_read(pc, (const void *) a);
    if (back) {
        // a stale value is transient: do not treat re-reading as spinning
    }
    done_trace(OP_LOAD, (void *) a, (long) to64(v), pc);
    return v;
}

template<class V>
void a_store(volatile V *a, V v, int mo, void *pc)
{
    if (!g.user) {
        *a = v;
        return;
    }
    UserOff _;
    if (solo()) {
        access((const void *) a, sizeof(V), A_AWRITE, pc);
        *a = v;
        return;
    }
    point(OP_STORE, (void *) a, pc);
    access((const void *) a, sizeof(V), A_AWRITE, pc);
    Obj &o = obj((void *) a);
    V was = *a;
    Hist *h = weak_on() && sizeof(V) <= 8 ? hist_of(o, to64(was)) : nullptr;
    *a = v;
    rec_store(o, mo, false, to64(v), h);
    int stall = g.stall;
    event(OP_STORE, (void *) a, true);
    if (memcmp(&was, &v, sizeof v) == 0) {
        g.version--; // the value did not change: not progress for anybody who polls it
        g.stall = stall;
    }
    done_trace(OP_STORE, (void *) a, (long) to64(v), pc);
}

template<class V, class F>
V a_rmw(volatile V *a, int mo, void *pc, F f)
{
    if (!g.user) {
        V old = *a;
        *a = f(old);
        return old;
    }
    UserOff _;
    if (solo()) {
        access((const void *) a, sizeof(V), A_AWRITE, pc);
        V old = *a;
        *a = f(old);
        return old;
    }
    point(OP_RMW, (void *) a, pc);
    access((const void *) a, sizeof(V), A_AWRITE, pc);
    Obj &o = obj((void *) a);
    V old = *a;
    Hist *h = weak_on() && sizeof(V) <= 8 ? hist_of(o, to64(old)) : nullptr;
    acquire_from(o.rel, mo);
    V nv = f(old);
    *a = nv;
    rec_store(o, mo, true, to64(nv), h);
    int stall = g.stall;
    event(OP_RMW, (void *) a, true);
    if (memcmp(&old, &nv, sizeof nv) == 0) {
        g.version--;
        g.stall = stall;
    }
    done_trace(OP_RMW, (void *) a, (long) to64(nv), pc);
    return old;
}

template<class V>
int a_cas(volatile V *a, V *exp, V des, int mo, int fmo, void *pc)
{
    if (!g.user) {
        V old = *a;
        if (memcmp(&old, exp, sizeof(V)) == 0) {
            *a = des;
            return 1;
        }
        *exp = old;
        return 0;
    }
    UserOff _;
    if (solo()) {
        access((const void *) a, sizeof(V), A_AWRITE, pc);
        V old = *a;
        if (memcmp(&old, exp, sizeof(V)) == 0) {
            *a = des;
            return 1;
        }
        *exp = old;
        return 0;
    }
    point(OP_RMW, (void *) a, pc);
    V old = *a;
    Obj &o = obj((void *) a);
    if (memcmp(&old, exp, sizeof(V)) == 0) {
        access((const void *) a, sizeof(V), A_AWRITE, pc);
        Hist *h = weak_on() && sizeof(V) <= 8 ? hist_of(o, to64(old)) : nullptr;
        acquire_from(o.rel, mo);
        *a = des;
        rec_store(o, mo, true, to64(des), h);
        event(OP_RMW, (void *) a, true);
        done_trace(OP_RMW, (void *) a, (long) to64(des), pc);
        return 1;
    }
    access((const void *) a, sizeof(V), A_AREAD, pc);
    acquire_from(o.rel, fmo);
    *exp = old;
    event(OP_CASFAIL, (void *) a, false);
    note_read(pc, (const void *) a);
    done_trace(OP_CASFAIL, (void *) a, (long) to64(old), pc);
    return 0;
}

void fence(int mo)
{
    if (!g.user)
        return;
    UserOff _;
    Thread &t = T();
    if (is_acq(mo))
        t.vc.join(t.acqF);
    if (mo == __ATOMIC_SEQ_CST) {
        // scheduling point is not needed: the fence only orders this thread's own accesses,
        // but its position in the total fence order matters for stale reads
        static char fenceobj;
        if (weak_on()) {
            point(OP_FENCE, &fenceobj, nullptr);
            t.view.join(g.scView);
            VC mine = t.vc;
            mine.join(t.readView);
            mine.join(t.view);
            g.scView.join(mine);
            event(OP_FENCE, &fenceobj, true);
            g.version--;
        }
    }
    if (is_rel(mo)) {
        t.relF = t.vc;
        t.hasRelF = true;
        inc_clk();
    }
}

} // namespace

typedef u8 a8;
typedef uint16_t a16;
typedef u32 a32;
typedef u64 a64;
typedef unsigned __int128 a128;

extern "C" {
#define ATOMICS(N) \
    a##N __tsan_atomic##N##_load(const volatile a##N *a, int mo) { return a_load<a##N>(a, mo, PC); } \
    void __tsan_atomic##N##_store(volatile a##N *a, a##N v, int mo) { a_store<a##N>(a, v, mo, PC); } \
    a##N __tsan_atomic##N##_exchange(volatile a##N *a, a##N v, int mo) \
    { \
        return a_rmw<a##N>(a, mo, PC, [v](a##N) { return v; }); \
    } \
    a##N __tsan_atomic##N##_fetch_add(volatile a##N *a, a##N v, int mo) \
    { \
        return a_rmw<a##N>(a, mo, PC, [v](a##N o) { return (a##N) (o + v); }); \
    } \
    a##N __tsan_atomic##N##_fetch_sub(volatile a##N *a, a##N v, int mo) \
    { \
        return a_rmw<a##N>(a, mo, PC, [v](a##N o) { return (a##N) (o - v); }); \
    } \
    a##N __tsan_atomic##N##_fetch_and(volatile a##N *a, a##N v, int mo) \
    { \
        return a_rmw<a##N>(a, mo, PC, [v](a##N o) { return (a##N) (o & v); }); \
    } \
    a##N __tsan_atomic##N##_fetch_or(volatile a##N *a, a##N v, int mo) \
    { \
        return a_rmw<a##N>(a, mo, PC, [v](a##N o) { return (a##N) (o | v); }); \
    } \
    a##N __tsan_atomic##N##_fetch_xor(volatile a##N *a, a##N v, int mo) \
    { \
        return a_rmw<a##N>(a, mo, PC, [v](a##N o) { return (a##N) (o ^ v); }); \
    } \
    a##N __tsan_atomic##N##_fetch_nand(volatile a##N *a, a##N v, int mo) \
    { \
        return a_rmw<a##N>(a, mo, PC, [v](a##N o) { return (a##N) ~(o & v); }); \
    } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile a##N *a, a##N *c, a##N v, int mo, int f) \
    { \
        return a_cas<a##N>(a, c, v, mo, f, PC); \
    } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile a##N *a, a##N *c, a##N v, int mo, int f) \
    { \
        return a_cas<a##N>(a, c, v, mo, f, PC); \
    } \
    a##N __tsan_atomic##N##_compare_exchange_val(volatile a##N *a, a##N c, a##N v, int mo, int f) \
    { \
        a_cas<a##N>(a, &c, v, mo, f, PC); \
        return c; \
    }
ATOMICS(8)
ATOMICS(16)
ATOMICS(32)
ATOMICS(64)
ATOMICS(128)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}

void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void *p) \
    { \
        if (g.user) { g.user = false; access(p, N, A_READ, PC); g.user = true; } \
    } \
    void __tsan_write##N(void *p) \
    { \
        if (g.user) { g.user = false; access(p, N, A_WRITE, PC); g.user = true; } \
    } \
    void __tsan_unaligned_read##N(void *p) \
    { \
        if (g.user) { g.user = false; access(p, N, A_READ, PC); g.user = true; } \
    } \
    void __tsan_unaligned_write##N(void *p) \
    { \
        if (g.user) { g.user = false; access(p, N, A_WRITE, PC); g.user = true; } \
    } \
    void __tsan_volatile_read##N(void *p) \
    { \
        if (g.user) { g.user = false; access(p, N, A_READ, PC); g.user = true; } \
    } \
    void __tsan_volatile_write##N(void *p) \
    { \
        if (g.user) { g.user = false; access(p, N, A_WRITE, PC); g.user = true; } \
    }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void *p, unsigned long n)
{
    if (g.user && n) {
        g.user = false;
        access(p, n, A_READ, PC);
        g.user = true;
    }
}
void __tsan_write_range(void *p, unsigned long n)
{
    if (g.user && n) {
        g.user = false;
        access(p, n, A_WRITE, PC);
        g.user = true;
    }
}
void __tsan_vptr_update(void **p, void *nv)
{
    if (g.user && *p != nv) {
        g.user = false;
        access(p, 8, A_WRITE, PC);
        g.user = true;
    }
}
void __tsan_vptr_read(void **p)
{
    if (g.user) {
        g.user = false;
        access(p, 8, A_READ, PC);
        g.user = true;
    }
}

// ================================================================ memory functions
void *memcpy(void *d, const void *s, size_t n)
{
    if (g.user && n) {
        g.user = false;
        access(s, n, A_READ, PC);
        access(d, n, A_WRITE, PC);
        g.user = true;
    }
    void *r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
    return r;
}
void *memmove(void *d, const void *s, size_t n)
{
    if (g.user && n) {
        g.user = false;
        access(s, n, A_READ, PC);
        access(d, n, A_WRITE, PC);
        g.user = true;
    }
    void *r = d;
    if ((char *) d <= (char *) s || (char *) d >= (char *) s + n) {
        asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
    } else {
        char *dd = (char *) d + n - 1;
        const char *ss = (const char *) s + n - 1;
        asm volatile("std\n\trep movsb\n\tcld" : "+D"(dd), "+S"(ss), "+c"(n)::"memory");
    }
    return r;
}
void *memset(void *d, int c, size_t n)
{
    if (g.user && n) {
        g.user = false;
        access(d, n, A_WRITE, PC);
        g.user = true;
    }
    void *r = d;
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}

void *malloc(size_t n)
{
    if (!g.user || !g.arena)
        return __libc_malloc(n);
    UserOff _;
    return arena_alloc(n);
}
void *calloc(size_t a, size_t b)
{
    if (!g.user || !g.arena)
        return __libc_calloc(a, b);
    UserOff _;
    size_t n;
    if (__builtin_mul_overflow(a, b, &n))
        return nullptr;
    void *p = arena_alloc(n);
    if (p)
        memset(p, 0, n);
    return p;
}
void free(void *p)
{
    if (!p)
        return;
    if (arena_ptr(p)) {
        if (g.status != ST_RUN)
            return;
        UserOff _;
        arena_free(p, PC);
        return;
    }
    if (g.user && g.status == ST_RUN)
        for (int i = 0; i < g.nth; i++)
            if ((char *) p >= g.th[i].stack && (char *) p < g.th[i].stack + STACK_SZ) {
                g.user = false;
                violation("memory", "free of memory that is not on the heap in " + symbol(PC));
            }
    __libc_free(p);
}
void *realloc(void *p, size_t n)
{
    if (p ? !arena_ptr(p) : (!g.user || !g.arena))
        return __libc_realloc(p, n);
    UserOff _;
    void *q = arena_alloc(n);
    if (p && q) {
        size_t o = *(u64 *) ((char *) p - 8);
        memcpy(q, p, o < n ? o : n);
        arena_free(p, PC);
    }
    return q;
}
void *memalign(size_t al, size_t n)
{
    if (!g.user || !g.arena)
        return __libc_memalign(al, n);
    UserOff _;
    return arena_alloc(n, al);
}
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **out, size_t al, size_t n)
{
    *out = memalign(al, n);
    return *out ? 0 : ENOMEM;
}
// destructors of function-local statics: the static is constructed anew in every execution and the process ends
// without exit handlers
int __cxa_atexit(void (*f)(void *), void *arg, void *dso)
{
    static int (*real)(void (*)(void *), void *, void *);
    if (g.user)
        return 0;
    if (!real)
        real = (int (*)(void (*)(void *), void *, void *)) dlsym(RTLD_NEXT, "__cxa_atexit");
    return real ? real(f, arg, dso) : 0;
}

size_t malloc_usable_size(void *p)
{
    static size_t (*real)(void *);
    if (arena_ptr(p))
        return *(u64 *) ((char *) p - 8);
    if (!real)
        real = (size_t(*)(void *)) dlsym(RTLD_NEXT, "malloc_usable_size");
    return real(p);
}

// ================================================================ threads
static int slot_of(pthread_t p)
{
    for (int i = 0; i < g.nth; i++)
        if ((u64) p == g.th[i].fs)
            return i;
    return -1;
}

int pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
    static pcreate_t real;
    if (!g.user) {
        if (!real)
            real = (pcreate_t) dlsym(RTLD_NEXT, "pthread_create");
        return real(out, at, fn, arg);
    }
    UserOff _;
    point(OP_CREATE, &g.th[g.nth], PC);
    int i = -1;
    if (g.nth < MAXT)
        i = g.nth++;
    else // the place of a thread that was joined before
        for (int k = 1; k < MAXT && i < 0; k++)
            if (g.th[k].finished && g.th[k].joined && T().vc.c[k] >= g.th[k].vc.c[k])
                i = k;
    if (i < 0)
        violation("harness", "too many threads in one execution");
    Thread &t = g.th[i];
    u32 clk = 1;
    if (t.finished) { // continues it
        u64 h = t.hash;
        clk = t.vc.c[i] + 1;
        thread_reset(i);
        t.hash = h;
        for (auto &r : *ranges)
            if (r.slot == i)
                memcpy(r.p, r.copy, r.n);
    }
    prepare_fiber(i);
    t.fn = fn;
    t.arg = arg;
    t.vc.join(T().vc);
    t.vc.c[i] = clk;
    t.view = T().view;
    inc_clk();
    event(OP_CREATE, &t, true);
    *out = (pthread_t) t.fs;
    done_trace(OP_CREATE, &t, i, PC);
    return 0;
}

int pthread_join(pthread_t p, void **ret)
{
    if (!g.user) {
        static int (*real)(pthread_t, void **);
        if (!real)
            real = (int (*)(pthread_t, void **)) dlsym(RTLD_NEXT, "pthread_join");
        return real(p, ret);
    }
    UserOff _;
    int i = slot_of(p);
    if (i < 0 || g.th[i].joined || g.th[i].detached)
        violation("threads", "join of a thread that is not joinable");
    if (i == g.cur)
        return EDEADLK;
    point(OP_JOIN, &g.th[i], PC, i);
    g.th[i].joined = true;
    T().vc.join(g.th[i].vc);
    if (ret)
        *ret = g.th[i].ret;
    event(OP_JOIN, &g.th[i], true);
    done_trace(OP_JOIN, &g.th[i], i, PC);
    return 0;
}
int pthread_detach(pthread_t p)
{
    if (!g.user) {
        static int (*real)(pthread_t);
        if (!real)
            real = (int (*)(pthread_t)) dlsym(RTLD_NEXT, "pthread_detach");
        return real(p);
    }
    UserOff _;
    int i = slot_of(p);
    if (i >= 0)
        g.th[i].detached = true;
    return 0;
}
pthread_t pthread_self(void)
{
    return (pthread_t) getfs();
}
int pthread_setname_np(pthread_t, const char *) { return 0; }
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *) { return 0; }
int pthread_setschedparam(pthread_t, int, const struct sched_param *) { return 0; }

void pthread_exit(void *r)
{
    if (!g.user) {
        static void (*real)(void *);
        if (!real)
            real = (void (*)(void *)) dlsym(RTLD_NEXT, "pthread_exit");
        real(r);
        __builtin_trap();
    }
    T().ret = r;
    finish_thread();
    __builtin_trap();
}

#define REAL(name, sig) \
    static int(*real) sig; \
    if (!real) \
        real = (int(*) sig) dlsym(RTLD_NEXT, name);

static void sync_mem(const void *a, void *pc)
{
    heap_check(a, 8, true, pc);
}

static void lock_acquired(Obj &o)
{
    o.owner = g.cur;
    o.count = 1;
    o.writes = T().writes;
    T().vc.join(o.rel);
}

static int do_lock(pthread_mutex_t *m, void *pc, Op op, long long deadline)
{
    sync_mem(m, pc);
    Obj &o0 = obj(m);
    int kind = m->__data.__kind & 3;
    if (o0.owner == g.cur) {
        if (kind == PTHREAD_MUTEX_RECURSIVE) {
            o0.count++;
            return 0;
        }
        if (kind == PTHREAD_MUTEX_ERRORCHECK)
            return EDEADLK;
        if (op == OP_LOCK)
            violation("deadlock", "a thread locks a mutex it already holds, in " + symbol(pc));
    }
    T().deadline = deadline;
    point(op, m, pc);
    T().deadline = -1;
    Obj &o = obj(m);
    if (op == OP_TIMEDLOCK && T().wake_variant == 1) {
        event(OP_TIMEDLOCK, m, false, 1);
        return ETIMEDOUT;
    }
    sync_mem(m, pc);
    lock_acquired(o);
    int stall = g.stall;
    event(op, m, true);
    if (g.nth > 1 && op == OP_LOCK) { // not progress in itself
        g.version--;
        g.stall = stall;
    }
    done_trace(op, m, 0, pc);
    return 0;
}

static void do_unlock(pthread_mutex_t *m, void *pc)
{
    sync_mem(m, pc);
    Obj &o = obj(m);
    if (o.owner != g.cur)
        violation("mutex", "unlock of a mutex the thread does not hold, in " + symbol(pc));
    if (--o.count > 0)
        return;
    o.owner = -1;
    o.rel.join(T().vc);
    inc_clk();
    int stall = g.stall;
    event(OP_UNLOCK, m, true);
    // looking at something under a mutex and leaving it as it was is not progress for those who poll it
    if (g.nth > 1 && T().writes == o.writes && !o.tryfail) {
        g.version--;
        g.stall = stall;
    }
    o.tryfail = false;
    done_trace(OP_UNLOCK, m, 0, pc);
}

int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!g.user) {
        REAL("pthread_mutex_lock", (pthread_mutex_t *));
        return real(m);
    }
    UserOff _;
    return do_lock(m, PC, OP_LOCK, -1);
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!g.user) {
        REAL("pthread_mutex_trylock", (pthread_mutex_t *));
        return real(m);
    }
    UserOff _;
    sync_mem(m, PC);
    point(OP_TRYLOCK, m, PC);
    Obj &o = obj(m);
    if (o.owner == -1 && o.readers == 0) {
        lock_acquired(o);
        event(OP_TRYLOCK, m, true);
        return 0;
    }
    if (o.owner == g.cur && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
        o.count++;
        return 0;
    }
    event(OP_TRYLOCK, m, false, 1);
    o.tryfail = true;
    note_read(PC, m);
    return EBUSY;
}
static bool is_wall(clockid_t id);
static long long dl(const struct timespec *ts, bool wall = true);
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
{
    if (!g.user) {
        REAL("pthread_mutex_timedlock", (pthread_mutex_t *, const struct timespec *));
        return real(m, ts);
    }
    UserOff _;
    return do_lock(m, PC, OP_TIMEDLOCK, dl(ts));
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t id, const struct timespec *ts)
{
    UserOff _;
    return do_lock(m, PC, OP_TIMEDLOCK, dl(ts, is_wall(id)));
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!g.user) {
        REAL("pthread_mutex_unlock", (pthread_mutex_t *));
        return real(m);
    }
    UserOff _;
    // a point before releasing: matters to try-lock users and to unsynchronised readers
    if (g.sc->o.unlock_points)
        point(OP_UNLOCK, m, PC);
    do_unlock(m, PC);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m)
{
    if (!g.user) {
        REAL("pthread_mutex_destroy", (pthread_mutex_t *));
        return real(m);
    }
    UserOff _;
    if (obj(m).owner != -1)
        violation("mutex", "destruction of a locked mutex in " + symbol(PC));
    return 0;
}

// ---- rwlock
static int do_rw(pthread_rwlock_t *m, bool wr, void *pc)
{
    sync_mem(m, pc);
    Obj &o0 = obj(m);
    if (o0.owner == g.cur)
        violation("deadlock", "a thread locks a rwlock it already holds, in " + symbol(pc));
    point(wr ? OP_WRLOCK : OP_RDLOCK, m, pc);
    Obj &o = obj(m);
    T().vc.join(o.rel);
    if (wr) {
        o.owner = g.cur;
        o.count = 1;
        T().vc.join(o.rel2);
    } else {
        o.readers++;
    }
    event(wr ? OP_WRLOCK : OP_RDLOCK, m, true);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    if (!g.user) {
        REAL("pthread_rwlock_rdlock", (pthread_rwlock_t *));
        return real(m);
    }
    UserOff _;
    return do_rw(m, false, PC);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    if (!g.user) {
        REAL("pthread_rwlock_wrlock", (pthread_rwlock_t *));
        return real(m);
    }
    UserOff _;
    return do_rw(m, true, PC);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m)
{
    if (!g.user) {
        REAL("pthread_rwlock_tryrdlock", (pthread_rwlock_t *));
        return real(m);
    }
    UserOff _;
    point(OP_TRYLOCK, m, PC);
    Obj &o = obj(m);
    if (o.owner != -1) {
        event(OP_TRYLOCK, m, false);
        return EBUSY;
    }
    o.readers++;
    T().vc.join(o.rel);
    event(OP_TRYLOCK, m, true);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *m)
{
    if (!g.user) {
        REAL("pthread_rwlock_trywrlock", (pthread_rwlock_t *));
        return real(m);
    }
    UserOff _;
    point(OP_TRYLOCK, m, PC);
    Obj &o = obj(m);
    if (o.owner != -1 || o.readers) {
        event(OP_TRYLOCK, m, false);
        return EBUSY;
    }
    o.owner = g.cur;
    T().vc.join(o.rel);
    T().vc.join(o.rel2);
    event(OP_TRYLOCK, m, true);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    if (!g.user) {
        REAL("pthread_rwlock_unlock", (pthread_rwlock_t *));
        return real(m);
    }
    UserOff _;
    sync_mem(m, PC);
    Obj &o = obj(m);
    if (o.owner == g.cur) {
        o.owner = -1;
        o.rel.join(T().vc);
    } else if (o.readers > 0) {
        o.readers--;
        o.rel2.join(T().vc);
    } else
        violation("mutex", "unlock of a rwlock that is not held");
    inc_clk();
    event(OP_UNLOCK, m, true);
    return 0;
}

// ---- condition variables
static int cv_block(pthread_cond_t *c, pthread_mutex_t *m, long long deadline, void *pc)
{
    sync_mem(c, pc);
    Thread &t = T();
    point(OP_CVWAIT, c, pc);
    Obj &mo = obj(m);
    if (mo.owner != g.cur)
        violation("mutex", "condition wait without holding the mutex");
    int saved = mo.count;
    {
        Obj &o = obj(c);
        o.w[o.nw++] = g.cur;
    }
    event(OP_CVWAIT, c, true);
    g.version--; // waiting is not progress
    mo.count = 1;
    do_unlock(m, pc);
    t.signaled = t.timedout = t.spurious = false;
    t.deadline = deadline;
    done_trace(OP_CVWAIT, c, 0, pc);
    point(OP_CVBLOCK, c, pc);
    int rc = 0;
    int variant = t.wake_variant;
    if (variant != 0 || !t.signaled) {
        Obj &o = obj(c);
        for (int i = 0; i < o.nw; i++)
            if (o.w[i] == g.cur) {
                for (int k = i + 1; k < o.nw; k++)
                    o.w[k - 1] = o.w[k];
                o.nw--;
                break;
            }
        if (variant == 1) {
            rc = ETIMEDOUT;
            if (g.sc->o.naps) {
                memset(t.spin, 0, sizeof t.spin);
                t.run_len = 0;
            }
        }
    }
    t.signaled = false;
    t.deadline = -1;
    event(OP_CVBLOCK, c, variant != 0, variant);
    done_trace(OP_CVBLOCK, c, variant, pc);
    // re-acquire
    do_lock(m, pc, OP_LOCK, -1);
    obj(m).count = saved;
    return rc;
}

static const long long BASE_NS = 1000000000000000ll;
static bool is_wall(clockid_t id)
{
    return id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI;
}
static long long dl(const struct timespec *ts, bool wall)
{
    long long v = (long long) ts->tv_sec * 1000000000ll + ts->tv_nsec;
    T().wallDeadline = wall;
    if (ts->tv_sec > 9000000000ll)
        return (1ll << 62);
    v -= BASE_NS + (wall ? g.wall : 0);
    return v < 0 ? 0 : v;
}

int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!g.user) {
        REAL("pthread_cond_wait", (pthread_cond_t *, pthread_mutex_t *));
        return real(c, m);
    }
    UserOff _;
    return cv_block(c, m, -1, PC);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    if (!g.user) {
        REAL("pthread_cond_timedwait", (pthread_cond_t *, pthread_mutex_t *, const struct timespec *));
        return real(c, m, ts);
    }
    UserOff _;
    return cv_block(c, m, dl(ts), PC);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *ts)
{
    if (!g.user) {
        REAL("pthread_cond_clockwait", (pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *));
        return real(c, m, id, ts);
    }
    UserOff _;
    return cv_block(c, m, dl(ts, is_wall(id)), PC);
}
static void cv_wake(pthread_cond_t *c, bool all, void *pc)
{
    sync_mem(c, pc);
    point(all ? OP_BCAST : OP_SIGNAL, c, pc);
    Obj &o = obj(c);
    if (all) {
        for (int i = 0; i < o.nw; i++)
            g.th[o.w[i]].signaled = true;
        o.nw = 0;
    } else if (o.nw > 0) {
        int k = 0;
        if (o.nw > 1) {
            u8 cost[20] = {0};
            if (g.sc->o.delays)
                for (int i = 1; i < o.nw; i++)
                    cost[i] = C_PREEMPT;
            k = decide(o.nw, cost, 1, mix(sched_key(), 13));
            sethash(g.cur, mix(T().hash, 7000 + k));
        }
        g.th[o.w[k]].signaled = true;
        for (int i = k + 1; i < o.nw; i++)
            o.w[i - 1] = o.w[i];
        o.nw--;
    }
    event(all ? OP_BCAST : OP_SIGNAL, c, true);
    done_trace(all ? OP_BCAST : OP_SIGNAL, c, 0, pc);
}
int pthread_cond_signal(pthread_cond_t *c)
{
    if (!g.user) {
        REAL("pthread_cond_signal", (pthread_cond_t *));
        return real(c);
    }
    UserOff _;
    cv_wake(c, false, PC);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
    if (!g.user) {
        REAL("pthread_cond_broadcast", (pthread_cond_t *));
        return real(c);
    }
    UserOff _;
    cv_wake(c, true, PC);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t *c)
{
    if (!g.user) {
        REAL("pthread_cond_destroy", (pthread_cond_t *));
        return real(c);
    }
    UserOff _;
    if (obj(c).nw > 0)
        violation("condvar", "destruction of a condition variable with waiters");
    return 0;
}

// ---- semaphores
int sem_init(sem_t *s, int, unsigned v)
{
    UserOff _;
    memset((void *) s, 0, sizeof *s);
    obj(s).count = v;
    return 0;
}
int sem_destroy(sem_t *) { return 0; }
int sem_post(sem_t *s)
{
    UserOff _;
    point(OP_SEMPOST, s, PC);
    Obj &o = obj(s);
    o.count++;
    o.rel.join(T().vc);
    inc_clk();
    event(OP_SEMPOST, s, true);
    return 0;
}
static int sem_w(sem_t *s, long long deadline, void *pc)
{
    T().deadline = deadline;
    point(OP_SEMWAIT, s, pc);
    T().deadline = -1;
    Obj &o = obj(s);
    if (T().wake_variant == 1 && o.count == 0) {
        event(OP_SEMWAIT, s, false, 1);
        errno = ETIMEDOUT;
        return -1;
    }
    o.count--;
    T().vc.join(o.rel);
    event(OP_SEMWAIT, s, true);
    return 0;
}
int sem_wait(sem_t *s)
{
    UserOff _;
    return sem_w(s, -1, PC);
}
int sem_timedwait(sem_t *s, const struct timespec *ts)
{
    UserOff _;
    return sem_w(s, dl(ts), PC);
}
int sem_trywait(sem_t *s)
{
    UserOff _;
    point(OP_TRYLOCK, s, PC);
    Obj &o = obj(s);
    if (o.count > 0) {
        o.count--;
        T().vc.join(o.rel);
        event(OP_SEMWAIT, s, true);
        return 0;
    }
    event(OP_SEMWAIT, s, false, 1);
    note_read(PC, s);
    errno = EAGAIN;
    return -1;
}

// ---- the futex of std::future: a mutex and a condition variable per address
} // extern "C"
static struct Fx
{
    pthread_mutex_t m;
    pthread_cond_t c;
} fxs[64];
static bool fx_wait(unsigned *addr, unsigned val, long long deadline, void *pc)
{
    UserOff _;
    Fx &f = fxs[((unsigned long) addr >> 2) % 64];
    do_lock(&f.m, pc, OP_LOCK, -1);
    bool ok = true;
    for (;;) {
        unsigned v = __atomic_load_n(addr, __ATOMIC_SEQ_CST);
        note_read(pc, addr);
        sethash(g.cur, mix(T().hash, v == val));
        if (v != val)
            break;
        if (cv_block(&f.c, &f.m, deadline, pc) == ETIMEDOUT) {
            ok = false;
            break;
        }
    }
    do_unlock(&f.m, pc);
    return ok;
}
static long long fx_dl(bool has, std::chrono::seconds s, std::chrono::nanoseconds ns, bool wall)
{
    struct timespec ts = {(time_t) s.count(), (long) ns.count()};
    return has ? dl(&ts, wall) : -1;
}
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *a, unsigned v, bool has, std::chrono::seconds s, std::chrono::nanoseconds ns)
{
    return fx_wait(a, v, fx_dl(has, s, ns, true), PC);
}
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned *a, unsigned v, bool has, std::chrono::seconds s, std::chrono::nanoseconds ns)
{
    return fx_wait(a, v, fx_dl(has, s, ns, false), PC);
}
void std::__atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *a)
{
    if (!g.user)
        return;
    UserOff _;
    Fx &f = fxs[((unsigned long) a >> 2) % 64];
    do_lock(&f.m, PC, OP_LOCK, -1);
    cv_wake(&f.c, true, PC);
    do_unlock(&f.m, PC);
}
extern "C" {

// ---- once, guards
int pthread_once(pthread_once_t *ctl, void (*fn)(void))
{
    if (!g.user) {
        REAL("pthread_once", (pthread_once_t *, void (*)(void)));
        return real(ctl, fn);
    }
    {
        UserOff _;
        if (*(int *) ctl & 2) {
            T().vc.join(obj(ctl).rel);
            return 0;
        }
        point(OP_ONCE, ctl, PC);
        Obj &o = obj(ctl);
        T().vc.join(o.rel);
        if (*(int *) ctl & 2) {
            event(OP_ONCE, ctl, false);
            return 0;
        }
        o.once = 1;
        event(OP_ONCE, ctl, true);
    }
    struct Fin
    {
        pthread_once_t *ctl;
        bool ok = false;
        ~Fin()
        {
            UserOff _;
            Obj &o = obj(ctl);
            o.once = ok ? 2 : 0;
            if (ok)
                *(int *) ctl |= 2;
            o.rel.join(T().vc);
            inc_clk();
            event(OP_ONCEDONE, ctl, true);
        }
    } fin{ctl};
    fn();
    fin.ok = true;
    return 0;
}

int __cxa_guard_acquire(u64 *gp)
{
    u8 *b = (u8 *) gp;
    if (b[0]) {
        if (g.user)
            T().vc.join(obj(gp).rel);
        return 0;
    }
    if (!g.user)
        return 1;
    UserOff _;
    point(OP_ONCE, gp, PC);
    Obj &o = obj(gp);
    T().vc.join(o.rel);
    if (b[0]) {
        event(OP_ONCE, gp, false);
        return 0;
    }
    o.once = 1;
    event(OP_ONCE, gp, true);
    return 1;
}
void __cxa_guard_release(u64 *gp)
{
    *(u8 *) gp = 1;
    if (!g.user)
        return;
    UserOff _;
    Obj &o = obj(gp);
    o.once = 2;
    o.rel.join(T().vc);
    inc_clk();
    event(OP_ONCEDONE, gp, true);
}
void __cxa_guard_abort(u64 *gp)
{
    if (!g.user)
        return;
    UserOff _;
    obj(gp).once = 0;
    event(OP_ONCEDONE, gp, true);
}

// ================================================================ time
int sched_yield(void)
{
    if (!g.user) {
        REAL("sched_yield", (void) );
        return real();
    }
    UserOff _;
    T().yielded = true;
    T().yield_version = g.version;
    point(OP_YIELD, nullptr, PC);
    sethash(g.cur, mix(T().hash, 321));
    g.transitions++;
    done_trace(OP_YIELD, nullptr, 0, PC);
    return 0;
}

static int do_sleep(long long ns, void *pc)
{
    Thread &t = T();
    t.deadline = g.now + (ns > 0 ? ns : 0);
    if (ns <= 0) {
        t.yielded = true;
        t.yield_version = g.version;
        point(OP_YIELD, nullptr, pc);
        t.deadline = -1;
        sethash(g.cur, mix(T().hash, 321));
        return 0;
    }
    point(OP_SLEEP, nullptr, pc);
    if (g.now < t.deadline)
        g.now = t.deadline;
    t.deadline = -1;
    if (g.sc->o.naps) {
        memset(t.spin, 0, sizeof t.spin);
        t.run_len = 0;
    }
    sethash(g.cur, mix(mix(T().hash, 322), 0));
    g.transitions++;
    done_trace(OP_SLEEP, nullptr, ns, pc);
    return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b)
{
    if (!g.user) {
        REAL("nanosleep", (const struct timespec *, struct timespec *) );
        return real(a, b);
    }
    UserOff _;
    return do_sleep((long long) a->tv_sec * 1000000000ll + a->tv_nsec, PC);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *a, struct timespec *b)
{
    if (!g.user) {
        REAL("clock_nanosleep", (clockid_t, int, const struct timespec *, struct timespec *) );
        return real(c, flags, a, b);
    }
    UserOff _;
    long long v = (long long) a->tv_sec * 1000000000ll + a->tv_nsec;
    if (flags & TIMER_ABSTIME)
        v = v - BASE_NS - (is_wall(c) ? g.wall : 0) - g.now;
    return do_sleep(v, PC);
}
int usleep(useconds_t us)
{
    if (!g.user) {
        REAL("usleep", (useconds_t));
        return real(us);
    }
    UserOff _;
    return do_sleep((long long) us * 1000, PC);
}
unsigned sleep(unsigned s)
{
    if (!g.user) {
        static unsigned (*real)(unsigned);
        if (!real)
            real = (unsigned (*)(unsigned)) dlsym(RTLD_NEXT, "sleep");
        return real(s);
    }
    UserOff _;
    do_sleep((long long) s * 1000000000ll, PC);
    return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (!g.user) {
        REAL("clock_gettime", (clockid_t, struct timespec *) );
        return real(id, ts);
    }
    UserOff _;
    long long v = BASE_NS + g.now + (is_wall(id) ? g.wall : 0);
    ts->tv_sec = v / 1000000000ll;
    ts->tv_nsec = v % 1000000000ll;
    // the value read becomes part of this thread's history
    sethash(g.cur, mix(T().hash, 77777 + g.now + (is_wall(id) ? g.wall : 0)));
    note_read(PC, &g.now);
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz)
{
    if (!g.user) {
        REAL("gettimeofday", (struct timeval *, void *) );
        return real(tv, tz);
    }
    long long v = BASE_NS + g.now + g.wall;
    tv->tv_sec = v / 1000000000ll;
    tv->tv_usec = (v % 1000000000ll) / 1000;
    return 0;
}
time_t time(time_t *o)
{
    time_t r;
    if (g.user)
        r = (BASE_NS + g.now + g.wall) / 1000000000ll;
    else {
        struct timeval tv;
        gettimeofday(&tv, nullptr);
        r = tv.tv_sec;
    }
    if (o)
        *o = r;
    return r;
}
unsigned hardware_concurrency_stub() { return 4; }

void abort(void)
{
    if (g.status == ST_RUN && g.sc) {
        g.user = false;
        violation("crash", "abort() called in " + symbol(PC));
    }
    signal(SIGABRT, SIG_DFL);
    raise(SIGABRT);
    _exit(134);
}
void __assert_fail(const char *e, const char *f, unsigned l, const char *)
{
    if (g.status == ST_RUN && g.sc) {
        g.user = false;
        violation("crash", std::string("assertion failed: ") + e);
    }
    fprintf(stderr, "assert %s %s:%u\n", e, f, l);
    _exit(134);
}
void __stack_chk_fail(void)
{
    if (g.status == ST_RUN && g.sc) {
        g.user = false;
        violation("memory", "stack buffer overflow");
    }
    _exit(134);
}

// ================================================================ driver
int mc_main(int argc, char **argv)
{
    std::string scn, json, replay;
    int bound = -1;
    double secs = -1;
    u64 maxexec = 0;
    bool list = false;
    int stale = -1, timers = -1, spur = -1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--scenario")
            scn = next();
        else if (a == "--bound")
            bound = atoi(next().c_str());
        else if (a == "--seconds")
            secs = atof(next().c_str());
        else if (a == "--max-exec")
            maxexec = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--json")
            json = next();
        else if (a == "--replay")
            replay = next();
        else if (a == "--thorough")
            g.tier = 1;
        else if (a == "--timers")
            timers = atoi(next().c_str());
        else if (a == "--spurious")
            spur = atoi(next().c_str());
        else if (a == "--stale")
            stale = atoi(next().c_str());
        else if (a == "--list")
            list = true;
    }
    if (!scenarios) {
        fprintf(stderr, "no scenarios\n");
        return 4;
    }
    if (list) {
        for (auto &s : *scenarios)
            if (!s.o.thorough_only || g.tier)
                printf("%s %g\n", s.name.c_str(), s.o.seconds[g.tier]);
        return 0;
    }
    load_symtab();
    setup_runtime();
    install_handlers();
    if (!replay.empty()) {
        FILE *f = fopen(replay.c_str(), "r");
        if (!f) {
            fprintf(stderr, "cannot open %s\n", replay.c_str());
            return 4;
        }
        char buf[1 << 16];
        std::vector<u8> ch;
        int b[5] = {0, 0, 0, 0, 0};
        std::string want;
        while (fgets(buf, sizeof buf, f)) {
            if (!strncmp(buf, "scenario ", 9)) {
                scn = buf + 9;
                while (!scn.empty() && (scn.back() == '\n' || scn.back() == ' '))
                    scn.pop_back();
            } else if (!strncmp(buf, "budgets ", 8))
                sscanf(buf + 8, "%d %d %d %d %d", &b[0], &b[1], &b[2], &b[3], &b[4]);
            else if (!strncmp(buf, "key ", 4)) {
                want = buf + 4;
                while (!want.empty() && want.back() == '\n')
                    want.pop_back();
            } else if (!strncmp(buf, "choices", 7)) {
                char *p = buf + 7;
                char *e;
                for (;;) {
                    long v = strtol(p, &e, 10);
                    if (e == p)
                        break;
                    ch.push_back(v);
                    p = e;
                }
            } else if (!strncmp(buf, "more", 4)) {
                char *p = buf + 4;
                char *e;
                for (;;) {
                    long v = strtol(p, &e, 10);
                    if (e == p)
                        break;
                    ch.push_back(v);
                    p = e;
                }
            }
        }
        fclose(f);
        g.tier = b[4];
        for (auto &s : *scenarios)
            if (s.name == scn) {
                g.sc = &s;
                g.budget[C_FREE] = 1 << 30;
                g.budget[C_PREEMPT] = b[0];
                g.budget[C_TIMER] = b[1];
                g.budget[C_SPUR] = b[2];
                g.budget[C_STALE] = b[3];
                warmup();
                snapshot();
                g.arena = true;
                g.budget[C_PREEMPT] = b[0];
                std::string keys[2];
                for (int rep = 0; rep < 2; rep++) {
                    g.stack.n = 0;
                    for (u8 c : ch) {
                        Node nd;
                        memset(&nd, 0, sizeof nd);
                        nd.cur = c;
                        g.stack.push(nd);
                    }
                    g.replaying = true;
                    g.trace = rep == 1;
                    g.trace_end = g.trace_n;
                    g.trace_n = 0;
                    if (rep == 1)
                        printf("--- schedule of %s\n", scn.c_str());
                    run_once();
                    keys[rep] = g.status == ST_VIOLATION ? g.vkey : g.status == ST_DIVERGED ? "DIVERGED" : "";
                }
                printf("--- result: %s\n", g.status == ST_VIOLATION ? g.vmsg.c_str() : g.status == ST_DONE ? "completed without violation" : "diverged");
                if (keys[0] != keys[1]) {
                    printf("NONDETERMINISTIC replay: '%s' vs '%s'\n", keys[0].c_str(), keys[1].c_str());
                    fflush(stdout);
                    _exit(3);
                }
                // the execution was abandoned in the middle: no exit handlers
                fflush(stdout);
                if (!keys[1].empty() && keys[1] != "DIVERGED" && (want.empty() || want == keys[1]))
                    _exit(1);
                _exit(keys[1].empty() ? 0 : 3);
            }
        fprintf(stderr, "unknown scenario %s\n", scn.c_str());
        return 4;
    }
    int rc = 0;
    std::string js = "[";
    bool first = true;
    for (auto &s : *scenarios) {
        if (!scn.empty() ? s.name != scn : (s.o.thorough_only && !g.tier))
            continue;
        if (timers >= 0)
            s.o.timers[g.tier] = timers;
        if (spur >= 0)
            s.o.spurious[g.tier] = spur;
        if (stale >= 0)
            s.o.stale[g.tier] = stale;
        outcomes->clear();
        violations->clear();
        g.maxdepth = g.maxsteps = 0;
        double t0 = wall();
        int mb = bound >= 0 ? bound : s.o.preempt[g.tier];
        Result r = explore(s, mb, secs > 0 ? secs : s.o.seconds[g.tier], maxexec);
        double dt = wall() - t0;
        if (r.diverged)
            rc = rc == 0 ? 3 : rc;
        if (!violations->empty())
            rc = 1;
        printf("%-40s execs=%lu states=%lu transitions=%lu pruned=%lu bound=%d/%d%s%s outcomes=%zu maxsteps=%lu plain=%lu cases=%lu %.2fs%s\n",
               s.name.c_str(), g.execs, g.states, g.transitions, g.pruned, r.completed, mb,
               r.exhaustive ? " EXHAUSTIVE" : "", r.capped ? " CAPPED" : "", outcomes->size(), g.maxsteps,
               g.plain_total / (g.execs ? g.execs : 1), g.cases, dt, r.diverged ? " DIVERGED" : "");
        for (auto &v : *violations)
            printf("   VIOL (bound %d) %s\n", v.bound, v.msg.c_str());
        fflush(stdout);
        char b[1024];
        if (!first)
            js += ",\n";
        first = false;
        js += "{\"scenario\":\"" + jesc(s.name) + "\",";
        snprintf(b, sizeof b,
                 "\"executions\":%lu,\"cases\":%lu,\"states\":%lu,\"transitions\":%lu,\"pruned\":%lu,\"bound\":%d,\"completed_bound\":%d,\"exhaustive\":%s,\"capped\":%s,\"diverged\":%s,\"outcomes\":%zu,\"max_steps\":%lu,\"max_choices\":%lu,\"delays\":%s,\"wall_s\":%.3f,\"budgets\":[%d,%d,%d,%d,%d],\"violations\":[",
                 g.execs, g.cases, g.states, g.transitions, g.pruned, mb, r.completed, r.exhaustive ? "true" : "false",
                 r.capped ? "true" : "false", r.diverged ? "true" : "false", outcomes->size(), g.maxsteps, g.maxdepth,
                 s.o.delays ? "true" : "false", dt,
                 mb, g.budget[C_TIMER], g.budget[C_SPUR], g.budget[C_STALE], g.tier);
        js += b;
        bool f2 = true;
        for (auto &v : *violations) {
            if (!f2)
                js += ",";
            f2 = false;
            js += "{\"key\":\"" + jesc(v.key) + "\",\"msg\":\"" + jesc(v.msg) + "\",\"bound\":" + std::to_string(v.bound) + ",\"choices\":[";
            for (size_t i = 0; i < v.choices.size(); i++)
                js += (i ? "," : "") + std::to_string(v.choices[i]);
            js += "]}";
        }
        js += "]}";
    }
    js += "]\n";
    if (!json.empty()) {
        FILE *f = fopen(json.c_str(), "w");
        if (f) {
            fputs(js.c_str(), f);
            fclose(f);
        }
    }
    fflush(stdout);
    _exit(rc);
}
}

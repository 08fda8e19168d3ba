// C32 mappers: every sequence of messages through one reused mapper comes back equal, nothing leaks between messages
// @flags: --no-sdk
#include <klepsydra/serialization/identity_mapper.h>
#include <klepsydra/serialization/void_caster_mapper.h>
#include <klepsydra/serialization/binary_cereal_mapper.h>
#include <klepsydra/serialization/json_cereal_mapper.h>
#include <cereal/types/map.hpp>
#include <cereal/types/vector.hpp>
#include <climits>
#include <cmath>
#include <limits>
#include <sys/mman.h>
#include <unistd.h>
#include "mc.h"
namespace {
struct Inner
{
    int8_t c = 0;
    std::string s;
    bool operator==(const Inner &o) const { return c == o.c && s == o.s; }
    template<class A>
    void serialize(A &ar)
    {
        ar(CEREAL_NVP(c), CEREAL_NVP(s));
    }
};
struct Rec
{
    int32_t i = 0;
    uint64_t u = 0;
    int64_t l = 0;
    double d = 0;
    float f = 0;
    bool b = false;
    std::string s;
    std::vector<int> v;
    std::vector<Inner> n;
    std::map<std::string, std::vector<std::string>> m;
    template<class A>
    void serialize(A &ar)
    {
        ar(CEREAL_NVP(i), CEREAL_NVP(u), CEREAL_NVP(l), CEREAL_NVP(d), CEREAL_NVP(f), CEREAL_NVP(b), CEREAL_NVP(s), CEREAL_NVP(v), CEREAL_NVP(n), CEREAL_NVP(m));
    }
    bool operator==(const Rec &o) const
    {
        return i == o.i && u == o.u && l == o.l && !memcmp(&d, &o.d, 8) && !memcmp(&f, &o.f, 4) && b == o.b && s == o.s && v == o.v && n == o.n && m == o.m;
    }
};
std::string longs(size_t n, char c)
{
    std::string s;
    for (size_t i = 0; i < n; i++)
        s += (char) (c + i % 7);
    return s;
}
const int NREC = 12; // the text mapper's (third party) reader ends a string at an embedded NUL: only the binary one gets those
const int NBIN = 13;
Rec recv(int k)
{
    Rec r;
    switch (k) {
    case 0: break;
    case 1: r.i = INT_MAX; r.u = UINT64_MAX; r.l = INT64_MAX; r.d = 1.5; r.f = -2.25f; r.b = true; r.s = "a"; break;
    case 2: r.i = INT_MIN; r.l = INT64_MIN; r.d = -0.1; r.f = 0.1f; r.s = longs(300, 'b'); r.v = {1, -2, 3, INT_MIN}; break;
    case 3: r.s = std::string("in the \"middle\" \\ \n\t\r\b\f/ {}[]:,\x01\x1f"); break;
    case 4: r.s = "\xc3\xa9t\xc3\xa9 \xe2\x82\xac \xf0\x9f\x98\x80"; r.n.resize(2); r.n[0].s = "x"; r.n[1].c = -128; break;
    case 5: r.m["k"] = {"a", "", "b"}; r.m[""] = {}; r.m["\"q\""] = {longs(40, 'k')}; break;
    case 6: r.d = 123456789.123456789; r.f = 3.14159274f; r.v.assign(100, 7); break;
    case 7: r.n.resize(5); r.n[4].s = longs(17, 'n'); r.n[2].c = 127; r.b = true; break;
    case 8: r.d = -0.0; r.f = 16777216.f; r.u = 1ull << 53 | 1; r.l = -(1ll << 53) - 1; break;
    case 9: r.s = longs(15, 'p'); r.m["z"] = {"1"}; break;
    case 10: r.s = longs(16, 'q'); r.v = {0}; r.d = 9007199254740993.0; break;
    case 12: r.s = std::string("a\0b\xff\0", 5); r.d = NAN; r.f = INFINITY; r.m[std::string(2, 0)] = {std::string(1, 0)}; break;
    case 11: r.d = 1e15; r.f = 1e10f; r.s = "null"; r.v = {9, 8, 7}; break;
    }
    return r;
}
Rec dirty(int k) { return k ? recv(k) : Rec(); }
// ---- text mapper
void json_sequences()
{
    kpsr::Mapper<Rec, std::string> m, other;
    std::string msg;
    Rec ev = dirty(mc::choose(3, "reused event") * 3 + 1);
    int a = mc::choose(NREC, "first");
    for (int b = 0; b < NREC; b++)
        for (int c = 0; c < (mc::thorough() ? NREC : 5); c++) {
            mc::Case one;
            std::string first;
            for (int k : {a, b, c}) {
                Rec want = recv(k);
                m.toMiddleware(want, msg);
                m.fromMiddleware(msg, ev);
                mc::check(ev == want, "an event survives the text mapper", [&] { return std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + " at " + std::to_string(k) + ": " + msg; });
                if (k == a && first.empty())
                    first = msg;
                Rec e2;
                other.fromMiddleware(msg, e2);
                mc::check(e2 == want, "any mapper reads the message");
            }
            m.fromMiddleware(first, ev);
            mc::check(ev == recv(a), "an earlier message still reads the same");
        }
}
void json_truncated()
{
    kpsr::Mapper<Rec, std::string> m;
    std::string msg;
    int k = mc::choose(NREC);
    m.toMiddleware(recv(k), msg);
    int part = mc::choose(8);
    for (size_t i = part; i < msg.size(); i += 8) {
        mc::Case one;
        Rec ev;
        bool threw = false;
        try {
            m.fromMiddleware(msg.substr(0, i), ev);
        } catch (std::exception &) {
            threw = true;
        }
        mc::check(threw, "a truncated message is refused", [&] { return msg.substr(0, i); });
        m.fromMiddleware(msg, ev);
        mc::check(ev == recv(k), "a failed message does not disturb the next");
    }
}
// ---- binary mapper over one stream: any interleaving of writes and reads, first in first out
void binary_sequences()
{
    kpsr::Mapper<Rec, Base> m, other;
    int sep = mc::choose(2, "separate reader");
    Rec ev = dirty(mc::choose(2, "reused event") * 7);
    std::vector<int> seq = {mc::choose(NBIN), 0, 0};
    for (seq[1] = 0; seq[1] < NBIN; seq[1]++)
        for (seq[2] = 0; seq[2] < (mc::thorough() ? NBIN : 4); seq[2]++)
            for (int inter = 0; inter < 5; inter++) { // the 5 ballot orders of 3 writes and 3 reads
                static const char *ord[] = {"wrwrwr", "wwrrwr", "wwrwrr", "wrwwrr", "wwwrrr"};
                mc::Case one;
                std::stringbuf buf;
                Base base = &buf;
                int w = 0, r = 0;
                for (const char *o = ord[inter]; *o; o++)
                    if (*o == 'w')
                        m.toMiddleware(recv(seq[w++]), base);
                    else {
                        (sep ? other : m).fromMiddleware(base, ev);
                        mc::check(ev == recv(seq[r]), "an event survives the binary mapper",
                                  [&] { return std::string(ord[inter]) + " " + std::to_string(seq[0]) + "," + std::to_string(seq[1]) + "," + std::to_string(seq[2]) + " at " + std::to_string(r); });
                        r++;
                    }
                mc::check(buf.in_avail() <= 0, "a message holds nothing but its event");
            }
}
void binary_truncated()
{
    kpsr::Mapper<Rec, Base> m;
    int k = mc::choose(NBIN);
    std::stringbuf buf;
    Base base = &buf;
    m.toMiddleware(recv(k), base);
    std::string msg = buf.str();
    int part = mc::choose(8);
    for (size_t i = part; i < msg.size(); i += 8) {
        mc::Case one;
        Rec ev;
        bool threw = false;
        std::stringbuf t(msg.substr(0, i));
        Base tb = &t;
        try {
            m.fromMiddleware(tb, ev);
        } catch (std::exception &) {
            threw = true;
        }
        mc::check(threw, "a truncated message is refused");
        std::stringbuf full(msg);
        tb = &full;
        m.fromMiddleware(tb, ev);
        mc::check(ev == recv(k), "a failed message does not disturb the next");
    }
}
// ---- raw caster
struct Pod
{
    int id;
    float f;
    double d;
    unsigned char raw[5];
};
Pod podv(int k)
{
    Pod p;
    memset(&p, k % 3 == 0 ? 0 : k % 3 == 1 ? 0xFF : 0x5A, sizeof p);
    p.id = k * 7919 - 3;
    p.f = k / 3.f;
    p.d = -k / 7.0;
    for (int i = 0; i < 5; i++)
        p.raw[i] = k * 31 + i;
    return p;
}
template<class T, class F>
void raw(F value, int n)
{
    typedef std::vector<unsigned char> V;
    kpsr::Mapper<T, V> m, other;
    V msg(mc::choose(3, "reused message") * 20, 0xEE);
    int a = mc::choose(n);
    for (int b = 0; b < n; b++)
        for (int c = 0; c < n; c++) {
            mc::Case one;
            T ev;
            memset((void *) &ev, 0xCC, sizeof ev);
            for (int k : {a, b, c}) {
                T want = value(k);
                m.toMiddleware(want, msg);
                mc::check(msg.size() == sizeof(T), "a message holds nothing but its event");
                V copy = msg;
                memset((void *) &want, 0x11, sizeof want); // the message does not alias the event
                want = value(k);
                other.fromMiddleware(copy, ev);
                mc::check(!memcmp(&ev, &want, sizeof ev), "an event survives the raw mapper");
                mc::check(copy == msg, "reading leaves the message alone");
            }
        }
    for (size_t len = sizeof(T) + 1; len < sizeof(T) + 9; len++) { // long messages
        mc::Case one;
        V s = msg;
        s.resize(len, 0xDD);
        struct G
        {
            T ev;
            unsigned char guard[16];
        };
        G *g = new G;
        memset((void *) g, 0xCC, sizeof *g);
        try {
            m.fromMiddleware(s, g->ev);
        } catch (std::exception &) {
        }
        for (unsigned char x : g->guard)
            mc::check(x == 0xCC, "nothing beyond the event is written");
        delete g;
    }
    for (size_t len = 0; len < sizeof(T); len++) { // short messages
        mc::Case one;
        V s(msg.begin(), msg.begin() + len);
        struct
        {
            T ev;
            unsigned char guard[16];
        } g;
        memset((void *) &g, 0xCC, sizeof g);
        bool threw = false;
        try {
            m.fromMiddleware(s, g.ev);
        } catch (std::exception &) {
            threw = true;
        }
        mc::check(threw, "a truncated message is refused", [&] { return std::to_string(len) + " of " + std::to_string(sizeof(T)) + " bytes"; });
        for (unsigned char x : g.guard)
            mc::check(x == 0xCC, "nothing beyond the event is written");
    }
}
struct Large
{
    unsigned char at[70001];
};
struct Larger
{
    uint64_t at[30000];
};
template<class T>
void raw_large()
{
    static T in, out;
    kpsr::Mapper<T, std::vector<unsigned char>> m;
    std::vector<unsigned char> msg(mc::choose(2) * 100000);
    auto *a = (unsigned char *) &in;
    for (size_t i = 0; i < sizeof in; i++)
        a[i] = (unsigned char) (i * 31 + i / 251);
    memset((void *) &out, 0, sizeof out);
    m.toMiddleware(in, msg);
    mc::check(msg.size() == sizeof(T), "a message holds nothing but its event");
    m.fromMiddleware(msg, out);
    mc::check(!memcmp((void *) &in, (void *) &out, sizeof in), "an event survives the raw mapper");
}
// ---- identity
template<class T>
void identity(const std::vector<T> &vals)
{
    kpsr::Mapper<T, T> m;
    int n = vals.size();
    T ev = vals[mc::choose(n)], msg = vals[mc::choose(n)];
    for (int i = 0; i < 3; i++) {
        T want = vals[mc::choose(n)];
        m.toMiddleware(want, msg);
        mc::check(msg == want, "an event survives the identity mapper");
        T back = vals[mc::choose(n)];
        m.fromMiddleware(msg, back);
        mc::check(back == want && msg == want, "an event survives the identity mapper");
        ev = back;
    }
    mc::check(ev == msg, "an event survives the identity mapper");
}
// numbers: every power of ten and two boundary
void json_numbers()
{
    kpsr::Mapper<Rec, std::string> m;
    std::string msg;
    int part = mc::choose(8);
    for (int e = part; e < 64; e += 8)
        for (int dlt = -1; dlt <= 1; dlt++)
            for (int sg = 0; sg < 2; sg++) {
                mc::Case one;
                Rec r, ev;
                r.u = (1ull << e) + dlt;
                r.l = (int64_t) r.u * (sg ? -1 : 1);
                r.i = (int32_t) (uint32_t) r.l;
                r.f = std::ldexp(1.f + dlt / 1024.f, e / 3 - 4) * (sg ? -1 : 1);
                r.d = (e % 2 ? (double) r.l : std::ldexp(1.0 + dlt / 1048576.0, e / 2 - 12));
                m.toMiddleware(r, msg);
                m.fromMiddleware(msg, ev);
                mc::check(ev == r, "numbers survive the text mapper", [&] { return msg; });
            }
}
struct Reg
{
    Reg()
    {
        auto add = [](const std::string &n, std::function<void()> f) {
            mc::Options o;
            o.seconds[0] = 100;
            o.seconds[1] = 600;
            mc::register_fn(n, f, o);
        };
        add("json_sequences", json_sequences);
        add("json_truncated", json_truncated);
        add("json_numbers", json_numbers);
        add("binary_sequences", binary_sequences);
        add("binary_truncated", binary_truncated);
        add("raw_struct", [] { raw<Pod>(podv, 6); });
        add("raw_large", raw_large<Large>);
        add("raw_larger", raw_large<Larger>);
        add("raw_int", [] { raw<int>([](int k) { return (int[]){0, 1, -1, INT_MAX, INT_MIN, 0x01020304}[k]; }, 6); });
        add("raw_char", [] { raw<char>([](int k) { return (char) (k * 51); }, 6); });
        add("identity_int", [] { identity<int>({0, -1, INT_MAX}); });
        add("identity_record", [] { identity<Rec>({recv(0), recv(1), recv(5)}); });
        add("identity_vector", [] { identity<std::vector<std::string>>({{}, {"a"}, {"b", longs(50, 'v'), ""}}); });
    }
} r;
} // namespace
#include "main.inc"

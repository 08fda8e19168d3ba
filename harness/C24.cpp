// C24 environments: every sequence of sets, exports, updates and loads reads back what was stored
// @repo: core/modules/core/src/configuration_environment.cpp core/modules/mem_mdlw/src/mem_env.cpp
#include "mc.h"
#include <cfloat>
#include <climits>
#include <cstring>
#include <cereal/archives/json.hpp>
#include <klepsydra/core/configuration_environment.h>
#include <klepsydra/mem_core/mem_env.h>
#include <map>
#include <memory>
#include <sys/mman.h>
#include <unistd.h>
using namespace kpsr;
namespace {
// a file that exists in memory only
struct TempFile
{
    int fd;
    explicit TempFile(const std::string &text)
        : fd(memfd_create("c24", 0))
    {
        mc::check(fd >= 0 && write(fd, text.data(), text.size()) == (ssize_t) text.size(), "harness: scratch file");
    }
    ~TempFile() { close(fd); }
    std::string path() const { return "/proc/self/fd/" + std::to_string(fd); }
};
const std::string KEYS[] = {"k", "l", "r/k"};
const std::string ROOTS[] = {"", "r"};
std::string full(const std::string &key, const std::string &root) { return root.empty() ? key : root + "/" + key; }
// the oracle
struct Model
{
    std::map<std::string, std::string> s;
    std::map<std::string, int> i;
    std::map<std::string, float> f;
    std::map<std::string, bool> b;
};
bool same(float a, float b) { return !memcmp(&a, &b, sizeof a); }
template<class T>
bool eq(const T &a, const T &b)
{
    return a == b;
}
bool eq(const float &a, const float &b) { return same(a, b); }
template<class T, class Get>
void one(const std::map<std::string, T> &m, const std::string &key, const std::string &root, const T &def, T garbage, Get get, const char *type)
{
    auto it = m.find(full(key, root));
    T v = garbage;
    bool found = get(key, v, def, root);
    auto where = [&] { return std::string(type) + " " + key + " under '" + root + "'"; };
    mc::check(found == (it != m.end()), "a get tells whether the property was stored", where);
    mc::check(eq(v, it != m.end() ? it->second : def), "a get returns the value stored last, or the default", where);
}
void compare(Environment &e, const Model &m, const std::string &key, const std::string &root, bool defs = false)
{
    one<std::string>(m.s, key, root, defs ? "def" : "", "junk", [&](auto &k, auto &v, auto &d, auto &r) { return e.getPropertyString(k, v, d, r); }, "string");
    one<int>(m.i, key, root, defs ? -9 : 0, 77, [&](auto &k, auto &v, auto d, auto &r) { return e.getPropertyInt(k, v, d, r); }, "int");
    one<float>(m.f, key, root, defs ? 9.5f : 0.f, 77.f, [&](auto &k, auto &v, auto d, auto &r) { return e.getPropertyFloat(k, v, d, r); }, "float");
    one<bool>(m.b, key, root, defs, !defs, [&](auto &k, auto &v, auto d, auto &r) { return e.getPropertyBool(k, v, d, r); }, "bool");
}
// arguments left out: the default is empty, zero or false, the root node none
template<class E>
void brief(E &e, const Model &m, const std::string &key)
{
    one<std::string>(m.s, key, "", "", "junk", [&](auto &k, auto &v, auto &, auto &) { return e.getPropertyString(k, v); }, "brief string");
    one<int>(m.i, key, "", 0, 77, [&](auto &k, auto &v, auto, auto &) { return e.getPropertyInt(k, v); }, "brief int");
    one<float>(m.f, key, "", 0.f, 77.f, [&](auto &k, auto &v, auto, auto &) { return e.getPropertyFloat(k, v); }, "brief float");
    one<bool>(m.b, key, "", false, true, [&](auto &k, auto &v, auto, auto &) { return e.getPropertyBool(k, v); }, "brief bool");
}
void compareAll(Environment &e, const Model &m, bool defs)
{
    for (auto &k : KEYS)
        for (auto &r : ROOTS)
            compare(e, m, k, r, defs);
}
enum Type { STRING, INT, FLOAT, BOOL };
void store(Environment &e, Model &m, int type, const std::string &key, const std::string &root, int v)
{
    auto k = full(key, root);
    switch (type) {
    case STRING: {
        std::string t = "v" + std::to_string(v);
        e.setPropertyString(key, t, root);
        m.s[k] = t;
        break;
    }
    case INT: e.setPropertyInt(key, v, root); m.i[k] = v; break;
    case FLOAT: e.setPropertyFloat(key, v + 0.3f, root); m.f[k] = v + 0.3f; break;
    case BOOL: e.setPropertyBool(key, v % 2, root); m.b[k] = v % 2; break;
    }
}
// ---- one environment of either kind: every sequence of stores
template<class Env>
void stores()
{
    struct Step
    {
        int t, k, r;
    };
    std::vector<Step> all;
    for (int t = 0; t < 4; t++)
        for (int k = 0; k < 3; k++)
            for (int r = 0; r < 2; r++)
                all.push_back({t, k, r});
    int depth = mc::thorough() ? 4 : 3;
    int first = mc::choose(12, "first") + 12 * mc::choose(2, "half");
    std::vector<int> at(depth, 0);
    at[0] = first;
    for (;;) {
        mc::Case c;
        Env e;
        Model m;
        for (int d = 0; d < depth; d++) {
            auto &s = all[at[d]];
            store(e, m, s.t, KEYS[s.k], ROOTS[s.r], d * 3 + 1);
            compare(e, m, KEYS[s.k], ROOTS[s.r], d & 1);
        }
        compareAll(e, m, true);
        for (auto &k : KEYS)
            brief(e, m, k);
        int d = depth - 1;
        while (d > 0 && ++at[d] == (int) all.size())
            at[d--] = 0;
        if (d == 0)
            break;
    }
}
MC_SCENARIO(stores_configuration, ) { stores<ConfigurationEnvironment>(); }
MC_SCENARIO(stores_memory, ) { stores<mem::MemEnv>(); }

// ---- two environments that exchange exports, files and content
template<class T>
bool merge(std::map<std::string, T> &into, const std::map<std::string, T> &from, const std::string &node)
{
    bool all = true;
    for (auto &kv : from)
        all = into.insert({full(kv.first, node), kv.second}).second && all;
    return all;
}
bool load(Model &into, const Model &from, const std::string &node)
{
    bool s = merge(into.s, from.s, node), i = merge(into.i, from.i, node), f = merge(into.f, from.f, node), b = merge(into.b, from.b, node);
    return s && i && f && b;
}
void update(Model &m, const Model &from, int sections = 15)
{
    // the types of values that an update contains are replaced, the others stay
    if (sections & 1)
        m.s = from.s;
    if (sections & 2)
        m.f = from.f;
    if (sections & 4)
        m.i = from.i;
    if (sections & 8)
        m.b = from.b;
}
void exchange()
{
    // stores: type x key x side; then the exchanges in both directions
    const int STORES = 4 * 2 * 2, OPS = STORES + 8;
    int depth = mc::thorough() ? 5 : 4;
    std::vector<int> at(depth, 0);
    at[0] = mc::choose(STORES, "first store");
    at[depth - 1] = STORES; // the last step exchanges
    for (;;) {
        mc::Case c;
        std::unique_ptr<ConfigurationEnvironment> e[2] = {std::make_unique<ConfigurationEnvironment>(), std::make_unique<ConfigurationEnvironment>()};
        Model m[2];
        for (int d = 0; d < depth; d++) {
            int op = at[d];
            if (op < STORES) {
                int side = op & 1;
                store(*e[side], m[side], op / 4, KEYS[(op & 2) ? 2 : 0], "", d * 3 + 1);
                continue;
            }
            op -= STORES;
            int to = op & 1, from = 1 - to;
            if (op < 2) {
                mc::check(e[to]->updateConfiguration(e[from]->exportEnvironment()), "an export is accepted as an update");
                update(m[to], m[from]);
            } else if (op < 4) {
                TempFile f(e[from]->exportEnvironment());
                bool done = e[to]->loadFile(f.path(), "");
                mc::check(done == load(m[to], m[from], ""), "a load reports whether a property was there already");
            } else if (op < 6) {
                TempFile f(e[from]->exportEnvironment());
                bool done = e[to]->loadFile(f.path(), "r");
                mc::check(done == load(m[to], m[from], "r"), "a load reports whether a property was there already");
            } else if (op == 6) {
                TempFile f(e[0]->exportEnvironment());
                e[1] = std::make_unique<ConfigurationEnvironment>(f.path(), "r");
                m[1] = Model();
                load(m[1], m[0], "r");
            } else {
                mc::check(!e[0]->updateConfiguration("not json") && !e[1]->loadFile("/proc/self/fd/none", "") && !e[1]->updateConfiguration("{\"a\":"), "content that cannot be read is reported");
            }
        }
        for (int s = 0; s < 2; s++)
            for (auto k : {"k", "r/k", "r/r/k"})
                compare(*e[s], m[s], k, "", s);
        int d = depth - 1;
        while (d > 0 && ++at[d] == OPS)
            at[d] = d == depth - 1 ? STORES : 0, d--;
        if (d == 0)
            break;
    }
}
MC_SCENARIO(exchanges, ) { exchange(); }

// ---- as above with many properties
MC_SCENARIO(many, )
{
    int way = mc::choose(4, "way");
    for (int n : {1, 40, 700}) {
        mc::Case c;
        ConfigurationEnvironment a;
        std::unique_ptr<ConfigurationEnvironment> b(new ConfigurationEnvironment());
        Model ma, mb;
        for (int i = 0; i < n; i++)
            for (int side = 0; side < 2; side++)
                if (i % 3 != side)
                    for (int type = 0; type < 4; type++)
                        store(side ? *b : a, side ? mb : ma, type, "key " + std::to_string(i * 4 + (way > 1 ? type + 4 * n * side : 0)), "", i * 2 + side);
        std::string node = way == 3 ? "n" : "";
        if (way == 0) {
            mc::check(b->updateConfiguration(a.exportEnvironment()), "an export is accepted as an update");
            update(mb, ma);
        } else if (way == 1) {
            b.reset(new ConfigurationEnvironment(a));
            mb = ma;
        } else {
            TempFile f(a.exportEnvironment());
            mc::check(b->loadFile(f.path(), node) == load(mb, ma, node), "a load reports whether a property was there already");
        }
        for (int i = 0; i < 8 * n; i++)
            compare(*b, mb, "key " + std::to_string(i), "", 0), compare(*b, mb, "n/key " + std::to_string(i), "", 1);
    }
}
// ---- every kind of value and of key, through every way out and in
const std::string NAMES[] = {"k", "", std::string(70000, 'n'), "a b", "a/b", "\"q\"\\", "\xc3\xa9\n\t", "StringProperties", "IntProperties", "value", "value0", "{}[]:,", "a.b.c"};
const std::string TEXTS[] = {"", "v", "two words ", "\"q\" \\ \n\r\t\b\f/", "\xe2\x82\xac\xf0\x9f\x98\x80", "12", "null", "{\"a\":[1]}", std::string(5000, 'x'), "\x01\x1f\x7f"};
const int INTS[] = {0, 1, -1, INT_MAX, INT_MIN, 16777217, -999999999};
const float FLOATS[] = {0.f, -0.f, 1.f, 3.145353f, 0.1f, -0.1f, 16777216.f, 1e10f, 1e-10f, FLT_MAX, FLT_MIN, FLT_TRUE_MIN, 123456.789f, 1.17549421e-38f, 0.3333333433f};
MC_SCENARIO(values, )
{
    const std::string &key = NAMES[mc::choose(13, "key")];
    int way = mc::choose(4, "way");
    for (auto &other : NAMES)
        for (int n = 0; n < 15; n++) {
            mc::Case c;
            ConfigurationEnvironment a;
            Model m;
            for (auto *k : {&key, &other}) {
                a.setPropertyString(*k, TEXTS[n % 10]), m.s[*k] = TEXTS[n % 10];
                a.setPropertyInt(*k, INTS[n % 7]), m.i[*k] = INTS[n % 7];
                a.setPropertyFloat(*k, FLOATS[n]), m.f[*k] = FLOATS[n];
                a.setPropertyBool(*k, n & 1), m.b[*k] = n & 1;
            }
            std::unique_ptr<ConfigurationEnvironment> b(new ConfigurationEnvironment());
            std::string node;
            if (way == 0)
                b.reset(new ConfigurationEnvironment(a));
            else if (way == 1)
                mc::check(b->updateConfiguration(a.exportEnvironment()), "an export is accepted as an update");
            else {
                TempFile f(a.exportEnvironment());
                node = way == 3 ? "n/o" : "";
                mc::check(b->loadFile(f.path(), node), "an export is accepted as a file");
            }
            for (auto *k : {&key, &other}) {
                compare(a, m, *k, "");
                Model moved;
                load(moved, m, node);
                compare(*b, moved, *k, node);
            }
        }
}
// ---- files written by hand: sections in any order, missing, or with a value of the wrong type
const char *SECTION[] = {"String", "Float", "Int", "Bool"};
std::string padding(int, const char *value, int n)
{
    std::string s;
    for (int i = 0; i < n; i++)
        s += ",\"more " + std::to_string(i) + "\":" + value;
    return s;
}
std::string section(int type, bool bad, int more = 0)
{
    const char *good[] = {"\"text\"", "2.5", "7", "true"}, *wrong[] = {"5", "\"x\"", "\"y\"", "3"};
    return std::string("\"") + SECTION[type] + "Properties\":{\"a\":" + (bad ? wrong : good)[type] + padding(type, good[type], more) + ",\"b\":" + good[type] + "}";
}
MC_SCENARIO(files, )
{
    int order = mc::choose(4, "rotation"), way = mc::choose(3, "way"), more = mc::choose(2, "large") ? 300 : 0;
    for (int present = 0; present < 16; present++)
        for (int bad = 0; bad < 5; bad++) {
            if (bad < 4 && !(present >> bad & 1))
                continue;
            mc::Case c;
            std::string text = "{";
            Model file;
            for (int i = 0; i < 4; i++) {
                int t = (i + order) % 4;
                if (!(present >> t & 1))
                    continue;
                if (text.size() > 1)
                    text += ", ";
                text += section(t, t == bad, more);
                for (auto k : {"a", "b"})
                    switch (t) {
                    case 0: file.s[k] = "text"; break;
                    case 1: file.f[k] = 2.5f; break;
                    case 2: file.i[k] = 7; break;
                    case 3: file.b[k] = true; break;
                    }
            }
            text += "}";
            mc::note(text);
            Model m;
            std::unique_ptr<ConfigurationEnvironment> e(new ConfigurationEnvironment());
            for (int t = 0; t < 4; t++)
                store(*e, m, t, "old", "", 3);
            Model before = m;
            bool done;
            if (way == 0) {
                TempFile f(text);
                done = e->loadFile(f.path(), "");
                load(m, file, "");
            } else if (way == 1) {
                done = e->updateConfiguration(text);
            } else {
                TempFile f(text);
                done = true;
                m = before = file;
                try {
                    e.reset(new ConfigurationEnvironment(f.path(), ""));
                } catch (const std::exception &) {
                    done = false;
                }
                if (!done)
                    continue;
            }
            mc::check(done || bad < 4, "a file without mistakes is accepted", [&] { return text; });
            if (done && way == 1)
                update(m, file, present);
            mc::check(!done || bad == 4, "a value of the wrong type is reported", [&] { return text; });
            if (done)
                for (auto k : {"a", "b", "old"})
                    compare(*e, m, k, "", true);
            else
                for (auto k : {"a", "b", "old"})
                    compare(*e, before, k, "", true);
        }
}
// ---- typed properties whose type is fixed by the first store
template<class T>
T make(int v);
template<> std::string make(int v) { return "v" + std::to_string(v); }
template<> int make(int v) { return v; }
template<> float make(int v) { return v + 0.3f; }
template<> bool make(int v) { return v % 2; }
struct DModel
{
    std::map<std::string, std::pair<int, int>> m; // type and value
};
template<class T>
void dget(const DynamicConfigurationProperties &p, const DModel &m, int type, const std::string &key)
{
    auto it = m.m.find(key);
    T v = make<T>(88), was = v;
    bool there = it != m.m.end() && it->second.first == type;
    mc::check(p.getProperty(key, v) == there, "a get tells whether a property of the type was stored");
    mc::check(eq(v, there ? make<T>(it->second.second) : was), "a get returns the value stored last, or leaves the argument alone");
}
template<class T>
void dset(DynamicConfigurationProperties &p, DModel &m, int type, const std::string &key, int v)
{
    auto it = m.m.find(key);
    bool ok = it == m.m.end() || it->second.first == type;
    mc::check(p.setProperty(key, make<T>(v)) == ok, "a property is stored unless it exists with another type");
    if (ok)
        m.m[key] = {type, v};
}
void dcompare(const DynamicConfigurationProperties &p, const DModel &m)
{
    for (auto &k : KEYS) {
        dget<std::string>(p, m, 0, k);
        dget<int>(p, m, 1, k);
        dget<float>(p, m, 2, k);
        dget<bool>(p, m, 3, k);
    }
}
// the name counts as a whole, however long
MC_SCENARIO(typed_names, )
{
    const size_t lens[] = {7, 8, 15, 16, 31, 63, 64, 127, 128, 255, 256, 1000, 65536};
    size_t n = lens[mc::choose(13)];
    std::string a(n, 'k'), b = a + "l", c = a + "/m";
    DynamicConfigurationProperties p, q;
    mc::check(p.setProperty(a, 1) && p.setProperty(b, 2.5f) && p.setProperty(c, std::string("t")), "properties of different names are different properties");
    for (int way = 0; way < 2; way++) {
        auto &x = way ? q : p;
        int i = 0;
        float f = 0;
        std::string s;
        mc::check(x.getProperty(way ? "r/" + a : a, i) && i == 1 && x.getProperty(way ? "r/" + b : b, f) && f == 2.5f && x.getProperty(way ? "r/" + c : c, s) && s == "t", "a property is found under the whole name it was stored with");
        mc::check(!x.getProperty(way ? "r/" + b : b, i) && !x.getProperty(way ? "r/" + a : a, s), "a get tells whether a property of the type was stored");
        q.copyFrom(p, "r");
    }
}
MC_SCENARIO(typed, )
{
    const int SETS = 16, OPS = SETS + 4;
    int depth = mc::thorough() ? 5 : 4;
    std::vector<int> at(depth, 0);
    at[0] = mc::choose(SETS, "first");
    for (;;) {
        mc::Case c;
        DynamicConfigurationProperties p[2];
        DModel m[2];
        for (int d = 0; d < depth; d++) {
            int op = at[d];
            if (op < SETS) {
                int side = op & 1;
                auto &key = KEYS[op & 2];
                switch (op >> 2) {
                case 0: dset<std::string>(p[side], m[side], 0, key, d * 3 + 1); break;
                case 1: dset<int>(p[side], m[side], 1, key, d * 3 + 1); break;
                case 2: dset<float>(p[side], m[side], 2, key, d * 3 + 1); break;
                case 3: dset<bool>(p[side], m[side], 3, key, d * 3 + 1); break;
                }
            } else {
                op -= SETS;
                int to = op & 1;
                std::string node = (op & 2) ? "r" : "";
                p[to].copyFrom(p[1 - to], node);
                for (auto &kv : m[1 - to].m)
                    m[to].m.insert({full(kv.first, node), kv.second});
            }
        }
        dcompare(p[0], m[0]);
        dcompare(p[1], m[1]);
        int d = depth - 1;
        while (d > 0 && ++at[d] == OPS)
            at[d--] = 0;
        if (d == 0)
            break;
    }
}
// saved as JSON and loaded, over whatever the destination had: the same properties with the same types
MC_SCENARIO(typed_saved, )
{
    int first = mc::choose(16, "first"), count = mc::choose(3, "stores");
    std::vector<int> at(3, 0);
    at[0] = first;
    for (;;) {
        mc::Case c;
        DynamicConfigurationProperties from, into;
        DModel m;
        for (int d = 0; d <= count; d++) {
            auto &key = KEYS[at[d] & 3 ? (at[d] & 3) - 1 : 0];
            int v = d * 3 + (at[d] & 3);
            switch (at[d] >> 2) {
            case 0: dset<std::string>(from, m, 0, key, v); break;
            case 1: dset<int>(from, m, 1, key, v); break;
            case 2: dset<float>(from, m, 2, key, v); break;
            case 3: dset<bool>(from, m, 3, key, v); break;
            }
        }
        into.setProperty<int>(KEYS[0], 5);
        into.setProperty<std::string>("old", "old");
        std::stringstream ss;
        {
            cereal::JSONOutputArchive ar(ss);
            ar(from);
        }
        {
            cereal::JSONInputArchive ar(ss);
            ar(into);
        }
        dcompare(into, m);
        std::string old;
        mc::check(!into.getProperty("old", old), "loaded properties replace those there were");
        int d = count;
        while (d > 0 && ++at[d] == 16)
            at[d--] = 0;
        if (d <= 0)
            break;
    }
}
// the properties of one type
template<class T>
void properties()
{
    const int OPS = 12;
    int depth = mc::thorough() ? 5 : 4;
    std::vector<int> at(depth, 0);
    at[0] = mc::choose(OPS, "first");
    for (;;) {
        mc::Case c;
        ConfigurationProperties<T> p[2];
        std::map<std::string, T> m[2];
        for (int d = 0; d < depth; d++) {
            int op = at[d], side = op & 1;
            if (op < 6) {
                mc::check(p[side].setProperty(KEYS[op / 2], make<T>(d * 3 + 1)), "a store succeeds");
                m[side][KEYS[op / 2]] = make<T>(d * 3 + 1);
            } else if (op < 10) {
                std::string node = (op & 2) ? "r" : "";
                bool done = node.empty() ? p[side].copyFrom(p[1 - side]) : p[side].copyFrom(p[1 - side], node);
                mc::check(done == merge(m[side], m[1 - side], node), "a copy reports whether a property was there already");
            } else {
                std::stringstream ss;
                {
                    cereal::JSONOutputArchive ar(ss);
                    ar(p[1 - side]);
                }
                {
                    cereal::JSONInputArchive ar(ss);
                    ar(p[side]);
                }
                m[side] = m[1 - side];
            }
        }
        for (int s = 0; s < 2; s++)
            for (auto k : {"k", "l", "r/k", "r/l", "r/r/k"}) {
                T v = make<T>(88);
                auto it = m[s].find(k);
                mc::check(p[s].getProperty(k, v) == (it != m[s].end()), "a get tells whether the property was stored");
                mc::check(eq(v, it != m[s].end() ? it->second : make<T>(88)), "a get returns the value stored last, or leaves the argument alone");
            }
        int d = depth - 1;
        while (d > 0 && ++at[d] == OPS)
            at[d--] = 0;
        if (d == 0)
            break;
    }
}
MC_SCENARIO(properties_string, ) { properties<std::string>(); }
MC_SCENARIO(properties_int, ) { properties<int>(); }
MC_SCENARIO(properties_float, ) { properties<float>(); }
MC_SCENARIO(properties_bool, ) { properties<bool>(); }
// ---- the memory environment is shared by threads
MC_SCENARIO(memory_shared, o.preempt[0] = 2; o.preempt[1] = 3; o.leak = true)
{
    mem::MemEnv e;
    std::thread t([&] {
        e.setPropertyInt("k", 1);
        e.setPropertyString("s", std::string(40, 'a'));
    });
    e.setPropertyInt("l", 2);
    std::string s;
    bool got = e.getPropertyString("s", s, std::string(40, 'b'));
    mc::check(s == std::string(40, got ? 'a' : 'b'), "a get returns the value stored last, or the default");
    int k;
    got = e.getPropertyInt("k", k, 9);
    mc::check(k == (got ? 1 : 9), "a get returns the value stored last, or the default");
    t.join();
    mc::check(e.getPropertyInt("k", k) && k == 1 && e.getPropertyInt("l", k) && k == 2, "no store is lost");
    mc::observe(got);
}
// ... whatever the types they use
template<class E>
void put(E &e, int way, const char *key, int v)
{
    if (way == 0)
        e.setPropertyInt(key, v);
    else if (way == 1)
        e.setPropertyString(key, std::string(40, 'a' + v));
    else if (way == 2)
        e.setPropertyFloat(key, v + .5f);
    else
        e.setPropertyBool(key, true);
}
template<class E>
bool has(E &e, int way, const char *key, int v)
{
    int i = -1;
    std::string s = "-";
    float f = -1;
    bool b = false, got = way == 0 ? e.getPropertyInt(key, i, -1) : way == 1 ? e.getPropertyString(key, s, "-") : way == 2 ? e.getPropertyFloat(key, f, -1) : e.getPropertyBool(key, b, false);
    mc::check(way == 0 ? i == (got ? v : -1) : way == 1 ? s == (got ? std::string(40, 'a' + v) : "-") : way == 2 ? f == (got ? v + .5f : -1) : b == got, "a get returns the value stored last, or the default");
    return got;
}
MC_SCENARIO(memory_types, o.preempt[0] = 1; o.preempt[1] = 3; o.leak = true)
{
    mem::MemEnv e;
    int one = mc::choose(4, "one"), two = mc::choose(4, "two");
    std::thread t([&] {
        put(e, one, "k", 1);
        has(e, two, "l", 2);
    });
    put(e, two, "l", 2);
    mc::observe(has(e, one, "k", 1));
    t.join();
    mc::check(has(e, one, "k", 1) && has(e, two, "l", 2), "no store is lost");
}
// ... and environments that are not shared do not disturb each other
MC_SCENARIO(own_environments, o.preempt[0] = 1; o.preempt[1] = 2; o.leak = true; o.horizon = 4000000)
{
    int way = mc::choose(4, "type");
    auto work = [way](int v) {
        ConfigurationEnvironment a, b;
        put(a, way, "k", v);
        mc::check(b.updateConfiguration(a.exportEnvironment()), "what one environment exports another accepts");
        mc::check(has(b, way, "k", v), "what one environment exports another reads back equal");
    };
    std::thread t(work, 1);
    work(2);
    t.join();
}
// any map with text keys goes through a text archive and comes back equal, replacing what was there
MC_SCENARIO(maps, )
{
    typedef std::map<std::string, std::vector<std::vector<float>>> Map;
    static const char *const NAMES[] = {"k", "", "a/b", "value0", "\"", "k l"};
    static const std::vector<std::vector<float>> VALUES[] = {{}, {{}}, {{1.5f, -2.f}, {}}, {{0.1f}, {3e38f}, {1e-38f}}};
    Map m, back;
    int n = mc::choose(3, "entries");
    for (int i = 0; i < n; i++)
        m[NAMES[mc::choose(6, "name")]] = VALUES[mc::choose(4, "value")];
    back["old"] = VALUES[1];
    std::stringstream s;
    {
        cereal::JSONOutputArchive out(s);
        out(cereal::make_nvp("map", m));
    }
    {
        cereal::JSONInputArchive in(s);
        in(cereal::make_nvp("map", back));
    }
    mc::check(back == m, "a map written to a text archive is read back equal", [&] { return s.str(); });
}
} // namespace
#include "main.inc"

// C25 property files: every small file over an alphabet of line fragments parses to what it says
// @repo: core/modules/core/src/prop_file_environment.cpp
#include "mc.h"
#include <climits>
#include <klepsydra/core/prop_file_environment.h>
#include <map>
#include <memory>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>
using namespace kpsr;
namespace {
struct TempFile
{
    int fd;
    explicit TempFile(const std::string &text)
        : fd(memfd_create("c25", 0))
    {
        mc::check(fd >= 0 && write(fd, text.data(), text.size()) == (ssize_t) text.size(), "harness: scratch file");
    }
    ~TempFile() { close(fd); }
    std::string path() const { return "/proc/self/fd/" + std::to_string(fd); }
};
typedef std::map<std::string, std::string> Map;
const char *KEYS[] = {"k", "a.b", "l", "kk", "0"};
std::string show(const std::string &text)
{
    std::string s;
    for (char c : text)
        s += c == '\t' ? "\\t" : c == '\n' ? "\\n" : std::string(1, c);
    return s;
}
// how the file is read: the parser or the environment, from a stream or from a file
void expect(const std::string &text, bool valid, const Map &map, int way)
{
    auto shown = [&] { return show(text); };
    std::istringstream in(text);
    TempFile f(text);
    if (way < 2) {
        std::unique_ptr<ConfigFile> c;
        try {
            c.reset(way ? new ConfigFile(f.path()) : new ConfigFile(in));
        } catch (const std::invalid_argument &) {
            mc::check(!valid, "a correct file is accepted", shown);
            return;
        }
        mc::check(valid, "a file with a malformed line or a repeated key is rejected", shown);
        for (auto k : KEYS) {
            auto it = map.find(k);
            mc::check(c->keyExists(k) == (it != map.end()), "a key exists if and only if the file has it", shown);
            mc::check(c->getValueOfKey<std::string>(k, "def") == (it != map.end() ? it->second : "def"), "a text is read exactly as written", shown);
        }
    } else {
        std::unique_ptr<PropertyFileEnvironment> e;
        try {
            e.reset(way == 3 ? new PropertyFileEnvironment(f.path()) : new PropertyFileEnvironment(in));
        } catch (const std::invalid_argument &) {
            mc::check(!valid, "a correct file is accepted", shown);
            return;
        }
        mc::check(valid, "a file with a malformed line or a repeated key is rejected", shown);
        for (auto k : KEYS) {
            auto it = map.find(k);
            std::string v = "junk";
            mc::check(e->getPropertyString(k, v, "def") == (it != map.end()), "a get tells whether the file has the key", shown);
            mc::check(v == (it != map.end() ? it->second : "def"), "a text is read exactly as written", shown);
        }
    }
}
const char *INDENT[] = {"", " ", "\t", " \t "};
const char *BLANK[] = {"", " ", "\t", "  \t"};
const char *VALUES[] = {"v", "two words", "a=b", "=", "0x1F", "x 0x", "\"q\"", "tab\tin it", "-1.5", "v:/#!\\n'"};
const char *TRAIL[] = {"", " ", "\t", ";c", " ; k = v ;", "\t;"};
const char *EMPTY[] = {"", " ", "\t", " \t ", ";", "; k=v", "  ;x", "\t; l = w"};
const char *BAD[] = {"text", "=v", " = v", "k=", "k= ", "k=\t", "\tk = \t ", "k=;v", "k = ;v", "k;=v", "\t=", "="};
// ---- one pair in every spelling
MC_SCENARIO(spellings, )
{
    auto value = VALUES[mc::choose(10, "value")];
    int way = mc::choose(4, "read through");
    for (auto k : KEYS)
        for (auto i : INDENT)
            for (auto b : BLANK)
                for (auto a : BLANK)
                    for (auto t : TRAIL)
                        for (auto end : {"", "\n", "\n\n"}) {
                            mc::Case c;
                            expect(std::string(i) + k + b + "=" + a + value + t + end, true, {{k, value}}, way);
                        }
}
// ---- every file of a few lines
struct Line
{
    std::string text, key, value;
    bool bad;
};
const std::vector<Line> &lines()
{
    static auto *l = [] {
        auto *l = new std::vector<Line>;
        for (auto e : EMPTY)
            l->push_back({e, "", "", false});
        for (auto b : BAD)
            l->push_back({b, "", "", true});
        l->push_back({"k=1", "k", "1", false});
        l->push_back({" k = 2 ; two", "k", "2", false});
        l->push_back({"\tl\t=\tx y\t", "l", "x y", false});
        l->push_back({"a.b=l=3", "a.b", "l=3", false});
        l->push_back({"kk=k", "kk", "k", false});
        l->push_back({"0== ", "0", "=", false});
        return l;
    }();
    return *l;
}
void few(int n)
{
    auto &all = lines();
    size_t total = 1;
    for (int i = 0; i < n - 1; i++)
        total *= all.size();
    int first = mc::choose(13, "first line") * 2 + mc::choose(2, "half"), way = mc::choose(4, "read through");
    if (first >= (int) all.size())
        return;
    for (size_t code = 0; code < total; code++) {
        mc::Case c;
        std::string text;
        Map map;
        bool valid = true;
        size_t rest = code;
        for (int i = 0; i < n; i++) {
            auto &l = i ? all[rest % all.size()] : all[first];
            if (i)
                rest /= all.size();
            text += l.text + "\n";
            if (l.bad)
                valid = false;
            else if (!l.key.empty())
                valid = map.insert({l.key, l.value}).second && valid;
        }
        if (code & 1)
            text.pop_back();
        expect(text, valid, map, way);
    }
}
MC_SCENARIO(files_1, ) { few(1); }
MC_SCENARIO(files_2, ) { few(2); }
MC_SCENARIO(files_3, ) { few(3); }
MC_SCENARIO(files_4, o.thorough_only = true) { few(4); }
// ---- typed reads
template<class T>
struct Read
{
    std::string text;
    bool ok;
    T value;
};
template<class T, class Get>
void reads(const std::vector<Read<T>> &all, T def, Get get)
{
    for (auto &r : all)
        for (auto b : BLANK)
            for (auto t : TRAIL) {
                mc::Case c;
                std::string text = std::string("k =") + b + r.text + t + "\n";
                auto shown = [&] { return show(text); };
                std::istringstream in(text), in2(text);
                ConfigFile f(in);
                PropertyFileEnvironment e(in2);
                for (int way = 0; way < 2; way++) {
                    T v = def;
                    bool threw = false;
                    try {
                        if (way)
                            mc::check(get(e, "k", v, def), "a get tells whether the file has the key", shown);
                        else
                            v = f.getValueOfKey<T>("k", def);
                    } catch (const std::invalid_argument &) {
                        threw = true;
                    }
                    mc::check(threw == !r.ok, "a value that is no number is reported, and one that is is read", shown);
                    if (r.ok)
                        mc::check(v == r.value, "a number is read as written", shown);
                    v = r.value;
                    if (way)
                        mc::check(!get(e, "l", v, def) && v == def, "a get tells whether the file has the key, and returns the default if not", shown);
                    else
                        mc::check(f.getValueOfKey<T>("l", def) == def, "a missing key reads as the default", shown);
                }
            }
}
template<class T>
bool direct(PropertyFileEnvironment &, const char *, T &, T)
{
    return true;
}
MC_SCENARIO(ints, )
{
    reads<int>({{"0", true, 0}, {"1", true, 1}, {"-1", true, -1}, {"+7", true, 7}, {"2147483647", true, INT_MAX}, {"-2147483648", true, INT_MIN}, {"2147483648", false, 0}, {"-2147483649", false, 0}, {"007", true, 7}, {"010", true, 10}, {"0x10", true, 16}, {"-0x10", true, -16}, {"0x2120", true, 0x2120}, {"0xAbC", true, 0xabc}, {"0x7fffffff", true, INT_MAX}, {"0xfffffffff", false, 0}, {"0x", false, 0}, {"0xzz", false, 0}, {"abc", false, 0}, {"x 0x1", false, 0}, {"10 0x5", true, 10}, {"21 of 0x20", true, 21}, {"-", false, 0}, {"\"1\"", false, 0}, {".5", false, 0}, {"true", false, 0}},
               4, [](auto &e, auto k, auto &v, auto d) { return e.getPropertyInt(k, v, d); });
}
MC_SCENARIO(floats, )
{
    reads<float>({{"0", true, 0}, {"1", true, 1}, {"-1.5", true, -1.5f}, {"3.14", true, 3.14f}, {"+.5", true, .5f}, {"2.", true, 2}, {"1e10", true, 1e10f}, {"1E-10", true, 1e-10f}, {"3.40282e+38", true, 3.40282e+38f}, {"1e99", false, 0}, {"abc", false, 0}, {"x 0x1", false, 0}, {"2.5 or 0x5", true, 2.5f}, {"-", false, 0}, {"\"1\"", false, 0}, {"e5", false, 0}},
                 4, [](auto &e, auto k, auto &v, auto d) { return e.getPropertyFloat(k, v, d); });
}
MC_SCENARIO(bools, )
{
    for (bool def : {false, true})
        reads<bool>({{"0", true, false}, {"1", true, true}, {"0x1", true, true}, {"0x0", true, false}, {"2", false, false}, {"-1", false, false}, {"x", false, false}, {"0x", false, false}}, def, [](auto &e, auto k, auto &v, auto d) { return e.getPropertyBool(k, v, d); });
}
MC_SCENARIO(wide, )
{
    auto env = [](auto &e, auto k, auto &v, auto d) {
        // the environment has no such type: go through its text
        std::string s;
        bool found = e.getPropertyString(k, s);
        v = found ? PropertyFileConvert::string_to_T<std::decay_t<decltype(v)>>(s) : d;
        return found;
    };
    reads<long>({{"9223372036854775807", true, LONG_MAX}, {"-9223372036854775808", true, LONG_MIN}, {"0x7fffffffffffffff", true, LONG_MAX}, {"9223372036854775808", false, 0}, {"x", false, 0}}, 4, env);
    reads<unsigned>({{"4294967295", true, UINT_MAX}, {"0xffffffff", true, UINT_MAX}, {"4294967296", false, 0}, {"x", false, 0}}, 4, env);
    reads<double>({{"0.1", true, 0.1}, {"-1e300", true, -1e300}, {"1e999", false, 0}}, 4, env);
}
// more lines, longer lines and longer values than any file of the tests
MC_SCENARIO(large, )
{
    int lines = mc::choose(2) ? 12000 : 300;
    size_t width = mc::choose(2) ? 0 : 200000;
    std::string text;
    for (int i = 0; i < lines; i++) {
        text += "key" + std::to_string(i) + " = value " + std::to_string(i * 7) + "\n";
        if (i % 3 == 0)
            text += "; a comment\n\n";
    }
    std::string deep(width, ' '), wide(width, 'w');
    text += deep + "k" + wide + deep + "=" + deep + "v" + wide + deep + ";" + wide + "\nlast = 1";
    std::istringstream in(text);
    TempFile f(text);
    std::unique_ptr<PropertyFileEnvironment> e(mc::choose(2) ? new PropertyFileEnvironment(f.path()) : new PropertyFileEnvironment(in));
    std::string v;
    for (int i = 0; i < lines; i++)
        mc::check(e->getPropertyString("key" + std::to_string(i), v, "") && v == "value " + std::to_string(i * 7), "every line of a large file counts", [&] { return std::to_string(i); });
    mc::check(e->getPropertyString("k" + wide, v, "") && v == "v" + wide, "a long key and a long value are read whole");
    int last = 0;
    mc::check(e->getPropertyInt("last", last, 0) && last == 1, "a last line without its end counts");
}
// default and root node left out: the default is empty, zero or false
MC_SCENARIO(omitted_arguments, )
{
    std::istringstream in("s = text\ni = 7\nf = 1.5\nb = 1\n");
    PropertyFileEnvironment e(in);
    bool there = mc::choose(2, "there"), prior = mc::choose(2, "prior");
    std::string s = "junk";
    int i = 77;
    float f = 77.f;
    bool b = prior;
    mc::check(e.getPropertyString(there ? "s" : "-", s) == there && s == (there ? "text" : ""), "a get without a default gives the text or none");
    mc::check(e.getPropertyInt(there ? "i" : "-", i) == there && i == (there ? 7 : 0), "a get without a default gives the number or 0");
    mc::check(e.getPropertyFloat(there ? "f" : "-", f) == there && f == (there ? 1.5f : 0.f), "a get without a default gives the number or 0");
    mc::check(e.getPropertyBool(there ? "b" : "-", b) == there && b == there, "a get without a default gives the value or false");
}
MC_SCENARIO(missing_file, )
{
    bool threw = false;
    try {
        PropertyFileEnvironment e("/proc/self/fd/none");
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    mc::check(threw, "a file that cannot be read is reported");
    // numbers written by the library's own formatting come back
    for (int v : {0, -5, INT_MAX, INT_MIN})
        mc::check(PropertyFileConvert::string_to_T<int>(PropertyFileConvert::T_to_string(v)) == v, "a formatted number reads back");
}
} // namespace
#include "main.inc"

// C31 a machine loaded from its text is the machine the text describes; anything else is rejected
// @repo: state_machine/modules/state_machine/src/state_machine_impl.cpp
// @repo: state_machine/modules/state_machine/src/state_impl.cpp
// @repo: state_machine/modules/state_machine/src/transition_impl.cpp
// @repo: state_machine/modules/state_machine/src/sm_factory_impl.cpp
// @repo: state_machine/modules/state_machine/src/state_machine_listener.cpp
// @repo: state_machine/modules/json_conf/src/json_config_loader.cpp
// @repo: state_machine/modules/json_conf/src/kpsr_state_machine.cpp
// @flags: --no-sdk
#include "sm.h"
#include <fcntl.h>
#include <klepsydra/state_machine/json_config_loader.h>
#include <klepsydra/state_machine/kpsr_state_machine.h>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <unistd.h>
using namespace kpsr::fsm;
namespace {
// ---- independent reading of the text: a strict JSON parser and the schema
struct J
{
    enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;
};
struct Bad
{};
struct Parser
{
    const std::string &x;
    size_t i = 0;
    bool odd = false; // legal but with no fixed meaning (duplicate keys, control characters, bad encoding)
    explicit Parser(const std::string &x) : x(x) {}
    int peek() { return i < x.size() ? (unsigned char) x[i] : -1; }
    void ws()
    {
        while (i < x.size() && (x[i] == ' ' || x[i] == '\n' || x[i] == '\t' || x[i] == '\r'))
            i++;
    }
    void want(char c)
    {
        if (peek() != c)
            throw Bad();
        i++;
    }
    std::string str()
    {
        want('"');
        std::string r;
        for (;;) {
            int c = peek();
            if (c < 0)
                throw Bad();
            i++;
            if (c == '"')
                return r;
            if (c < 32) {
                throw Bad();
            }
            if (c == '\\') {
                c = peek();
                i++;
                switch (c) {
                case 'n': r += '\n'; break;
                case 't': r += '\t'; break;
                case 'r': r += '\r'; break;
                case 'b': r += '\b'; break;
                case 'f': r += '\f'; break;
                case '"': case '\\': case '/': r += (char) c; break;
                case 'u': {
                    unsigned v = 0;
                    for (int k = 0; k < 4; k++, i++) {
                        int d = peek();
                        if (!isxdigit(d))
                            throw Bad();
                        v = v * 16 + (d <= '9' ? d - '0' : (d | 32) - 'a' + 10);
                    }
                    if (v < 0x80)
                        r += (char) v;
                    else if (v < 0x800) {
                        r += (char) (0xC0 | v >> 6);
                        r += (char) (0x80 | (v & 63));
                    } else {
                        if (v >= 0xD800 && v < 0xE000)
                            odd = true;
                        r += (char) (0xE0 | v >> 12);
                        r += (char) (0x80 | (v >> 6 & 63));
                        r += (char) (0x80 | (v & 63));
                    }
                    break;
                }
                default: throw Bad();
                }
            } else
                r += (char) c;
        }
    }
    J val(int depth)
    {
        if (depth > 50)
            throw Bad();
        ws();
        J j;
        int c = peek();
        if (c == '"') {
            j.t = J::STR;
            j.s = str();
        } else if (c == '{') {
            j.t = J::OBJ;
            i++;
            ws();
            if (peek() == '}') {
                i++;
                return j;
            }
            for (;;) {
                ws();
                std::string k = str();
                ws();
                want(':');
                for (auto &p : j.o)
                    if (p.first == k)
                        odd = true;
                j.o.push_back({k, val(depth + 1)});
                ws();
                if (peek() == ',') {
                    i++;
                    continue;
                }
                want('}');
                break;
            }
        } else if (c == '[') {
            j.t = J::ARR;
            i++;
            ws();
            if (peek() == ']') {
                i++;
                return j;
            }
            for (;;) {
                j.a.push_back(val(depth + 1));
                ws();
                if (peek() == ',') {
                    i++;
                    continue;
                }
                want(']');
                break;
            }
        } else if (x.compare(i, 4, "true") == 0) {
            j.t = J::BOOL;
            i += 4;
        } else if (x.compare(i, 5, "false") == 0) {
            j.t = J::BOOL;
            i += 5;
        } else if (x.compare(i, 4, "null") == 0) {
            i += 4;
        } else if (c == '-' || (c >= '0' && c <= '9')) {
            j.t = J::NUM;
            if (c == '-')
                i++;
            if (!isdigit(peek()))
                throw Bad();
            bool zero = peek() == '0';
            while (isdigit(peek()))
                i++;
            (void) zero;
            if (peek() == '.' || peek() == 'e' || peek() == 'E')
                odd = true;
        } else
            throw Bad();
        return j;
    }
};
enum Verdict { ACCEPT, REJECT, ANY };
const J &field(const J &o, const char *k, J::T t)
{
    if (o.t != J::OBJ)
        throw Bad();
    for (auto &p : o.o)
        if (p.first == k) {
            if (p.second.t != t)
                throw Bad();
            return p.second;
        }
    throw Bad();
}
Verdict read(const std::string &text, ConfigStateMachine &c)
{
    Parser p(text);
    try {
        J j = p.val(0);
        p.ws();
        if (p.i != text.size())
            throw Bad();
        c.id = field(j, "id", J::STR).s;
        for (auto &s : field(j, "states", J::ARR).a) {
            ConfigState st;
            st.id = field(s, "id", J::STR).s;
            for (auto &t : field(s, "transitions", J::ARR).a)
                st.transitions.push_back({field(t, "destination", J::STR).s, field(t, "event", J::STR).s});
            c.states.push_back(st);
        }
    } catch (Bad &) {
        return p.odd ? ANY : REJECT;
    }
    return p.odd ? ANY : ACCEPT;
}
// ---- files: an anonymous in-memory file, nothing touches the disk
struct File
{
    int fd = memfd_create("cfg", 0);
    std::string path = "/proc/self/fd/" + std::to_string(fd);
    void set(const std::string &t)
    {
        ftruncate(fd, 0);
        pwrite(fd, t.data(), t.size(), 0);
    }
};
File &file()
{
    mc::Quiet q;
    static File *f = new File;
    return *f;
}
void put(const std::string &t)
{
    File &f = file();
    mc::Quiet q;
    f.set(t);
}
bool same(const ConfigStateMachine &a, const ConfigStateMachine &b)
{
    if (a.id != b.id || a.states.size() != b.states.size())
        return false;
    for (size_t i = 0; i < a.states.size(); i++) {
        if (a.states[i].id != b.states[i].id || a.states[i].transitions.size() != b.states[i].transitions.size())
            return false;
        for (size_t k = 0; k < a.states[i].transitions.size(); k++)
            if (a.states[i].transitions[k].destinationId != b.states[i].transitions[k].destinationId ||
                a.states[i].transitions[k].event != b.states[i].transitions[k].event)
                return false;
    }
    return true;
}
void judge(const std::string &t)
{
    mc::Case one_sequence;
    ConfigStateMachine want, got;
    Verdict v = read(t, want);
    put(t);
    bool threw = false;
    try {
        JsonConfigLoader l;
        got = l.loadConfig(file().path);
    } catch (std::exception &) {
        threw = true;
    }
    if (v == REJECT && !threw)
        mc::fail("a malformed or incomplete configuration is rejected | accepted as " + text(got) + ": " + t);
    if (v == ACCEPT) {
        if (threw)
            mc::fail("a well-formed configuration is accepted | " + t);
        if (!same(want, got))
            mc::fail("the loaded configuration is the one described | loaded " + text(got) + " from " + t);
    }
}
// ---- texts
std::string q(const std::string &s)
{
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c == '\n')
            r += "\\n";
        else if ((unsigned char) c < 32) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += c;
    }
    return r + "\"";
}
std::string json(const ConfigStateMachine &c, int style)
{
    std::string nl = style & 1 ? "\n  " : "", col = style & 1 ? " : " : ":";
    bool rev = style & 2, extra = style & 4;
    auto obj = [&](std::vector<std::string> f) {
        if (rev)
            f = std::vector<std::string>(f.rbegin(), f.rend());
        if (extra)
            f.insert(f.begin() + 1, "\"comment\"" + col + "[1, {\"id\" : \"no\"}]");
        std::string r = "{" + nl;
        for (size_t i = 0; i < f.size(); i++)
            r += (i ? "," + nl : "") + f[i];
        return r + nl + "}";
    };
    auto arr = [&](const std::vector<std::string> &f) {
        std::string r = "[";
        for (size_t i = 0; i < f.size(); i++)
            r += (i ? "," + nl : "") + f[i];
        return r + nl + "]";
    };
    std::vector<std::string> st;
    for (auto &s : c.states) {
        std::vector<std::string> tr;
        for (auto &t : s.transitions)
            tr.push_back(obj({"\"destination\"" + col + q(t.destinationId), "\"event\"" + col + q(t.event)}));
        st.push_back(obj({"\"id\"" + col + q(s.id), "\"transitions\"" + col + arr(tr)}));
    }
    return obj({"\"id\"" + col + q(c.id), "\"states\"" + col + arr(st)});
}
const char *N[] = {"on", "one"};
const char *E[] = {"x", "xx"};
std::vector<ConfigTransition> list(int code)
{
    std::vector<ConfigTransition> r;
    if (code >= 1 && code < 5)
        code -= 1, r = {{N[code / 2], E[code % 2]}};
    else if (code >= 5) {
        code -= 5;
        r = {{N[code & 1], E[code >> 1 & 1]}, {N[code >> 2 & 1], E[code >> 3 & 1]}};
    }
    return r;
}
// every small machine in every style: loaded text == description, and it behaves so
void roundtrip()
{
    ConfigStateMachine c;
    c.id = mc::choose(2, "name") ? "m" : "";
    c.states = {{N[0], list(mc::choose(21))}};
    int k = mc::choose(22);
    if (k < 21)
        c.states.push_back({N[1], list(k)});
    for (int style = 0; style < 8; style++) {
        std::string t = json(c, style);
        judge(t);
        auto m = FromJson::createStateMachine(file().path);
        auto lis = FromJson::createStateMachineListener(file().path);
        RefMachine r(c);
        std::vector<Note> got;
        std::vector<std::string> acts;
        for (auto &s : c.states)
            lis->addPeriodicAction(s.id, [&](const std::string &s) { acts.push_back(s); });
        m->registerObserver([&](const std::string &s, bool ch) { got.push_back({s, ch}); });
        m->registerObserver(lis->getObserverFunc());
        r.observers = 1;
        m->start();
        r.start();
        for (const char *e : {"x", "xx", "x", "x", "xx", "xx", "y", "x"}) {
            if (c.states.size() == 1 && r.cur != N[0])
                break; // a destination the text does not define
            m->enqueueAndUpdate(e);
            r.enqueue(e);
            r.update();
        }
        mc::check(got == r.out, "the loaded machine behaves as described", [&] { return t + " " + strN(got) + " expected " + strN(r.out); });
        size_t n = 0;
        if (c.id.empty())
            continue; // a listener without a name takes complete names
        for (auto &o : r.out)
            if (c.states.size() == 2 || o.state == (c.id + ":" + N[0]))
                mc::check(n < acts.size() && acts[n++] == o.state, "the loaded listener is for that machine");
    }
}
// names that need quoting
void names()
{
    const char *odd[] = {"", " ", "a b", "a\"b", "back\\slash", "new\nline", "tab\t", "\xc3\xa9t\xc3\xa9", "id", "states", "/", "\x01", "{", "]", "null", "0", "a:b", "x\xe2\x82\xac"};
    const int n = sizeof odd / sizeof *odd;
    int i = mc::choose(n);
    for (int j = 0; j < n; j++)
        for (int k = 0; k < n; k++) {
            ConfigStateMachine c;
            c.id = odd[k];
            c.states = {{odd[i], {{odd[j], odd[k]}, {odd[i], odd[j]}}}, {odd[j], {}}};
            judge(json(c, (i + j + k) % 8));
        }
}
ConfigStateMachine base()
{
    ConfigStateMachine c;
    c.id = "m";
    c.states = {{"A", {{"B", "x"}, {"A", "y"}}}, {"B", {}}};
    return c;
}
// every single-byte edit of a text
void edits(int style)
{
    std::string t = json(base(), style);
    judge(t);
    size_t per = (t.size() + 15) / 16, from = per * mc::choose(16, "part");
    const char alphabet[] = "{}[]\":,\\ \n1-xtn\x01";
    for (size_t i = from; i < from + per && i < t.size(); i++) {
        judge(t.substr(0, i));                   // truncation
        judge(t.substr(i));                      // lost head
        judge(t.substr(0, i) + t.substr(i + 1)); // deletion
        judge(t.substr(0, i) + (i + 2 <= t.size() ? t.substr(i + 2) : ""));
        for (const char *a = alphabet; *a; a++) {
            std::string u = t;
            u[i] = *a;
            judge(u);                                   // replacement
            judge(t.substr(0, i) + *a + t.substr(i));   // insertion
        }
    }
}
// every part of the text missing, of another type, or repeated
void structure()
{
    const char *other[] = {"1", "null", "true", "\"s\"", "[]", "{}", "[[]]", "[1]", "[\"a\"]", "[{}]", "{\"id\":\"A\"}", "[null]"};
    auto tr = [](const std::string &d, const std::string &e) {
        std::string r = "{";
        if (d != "-")
            r += "\"destination\":" + d;
        if (e != "-")
            r += (d != "-" ? "," : "") + std::string("\"event\":") + e;
        return r + "}";
    };
    auto st = [](const std::string &i, const std::string &t) {
        std::string r = "{";
        if (i != "-")
            r += "\"id\":" + i;
        if (t != "-")
            r += (i != "-" ? "," : "") + std::string("\"transitions\":") + t;
        return r + "}";
    };
    auto sm = [](const std::string &i, const std::string &s) {
        std::string r = "{";
        if (i != "-")
            r += "\"id\":" + i;
        if (s != "-")
            r += (i != "-" ? "," : "") + std::string("\"states\":") + s;
        return r + "}";
    };
    std::vector<std::string> o(other, other + sizeof other / sizeof *other);
    o.push_back("-");
    std::string d = "\"A\"", e = "\"x\"", id = "\"m\"";
    for (auto &v : o) {
        judge(v == "-" ? "" : v);
        judge(sm(v, "[" + st(d, "[]") + "]"));
        judge(sm(id, v));
        judge(sm(id, "[" + st(v, "[]") + "]"));
        judge(sm(id, "[" + st(d, v) + "]"));
        judge(sm(id, "[" + st(d, "[" + tr(v, e) + "]") + "]"));
        judge(sm(id, "[" + st(d, "[" + tr(d, v) + "]") + "]"));
        judge(sm(id, "[" + st(d, "[]") + "," + st(v, "[]") + "]"));
        judge(sm(id, "[" + st(d, "[]") + "," + st(d, v) + "]"));
        judge(sm(id, "[" + st(d, "[" + tr(d, e) + "," + tr(v, e) + "]") + "]"));
        judge(sm(id, "[" + st(d, "[" + tr(d, e) + "," + tr(d, v) + "]") + "]"));
        judge(sm(id, "[]") + v);
        judge(v + sm(id, "[]"));
        judge("\xef\xbb\xbf" + v);
    }
}
void no_file()
{
    const char *p[] = {"/nonexistent/kpsr.json", "", "/", "/proc/self/nothing"};
    JsonConfigLoader l;
    bool threw = false;
    try {
        l.loadConfig(p[mc::choose(4)]);
    } catch (std::exception &) {
        threw = true;
    }
    mc::check(threw, "a configuration that cannot be read is rejected");
    // a loader keeps nothing from one text to the next
    put(json(base(), mc::choose(8)));
    auto a = l.loadConfig(file().path);
    mc::check(same(a, base()), "the loaded configuration is the one described");
    put("{\"id\":\"z\",\"states\":[]}");
    auto b = l.loadConfig(file().path);
    mc::check(b.id == "z" && b.states.empty(), "the loaded configuration is the one described");
}
struct Reg
{
    Reg()
    {
        auto add = [](const std::string &n, std::function<void()> f) {
            mc::Options o;
            o.seconds[0] = 100;
            o.seconds[1] = 600;
            mc::register_fn(n, f, o);
        };
        add("roundtrip", roundtrip);
        add("names", names);
        for (int s : {0, 1, 2, 4, 7})
            add("edits" + std::to_string(s), [s] { edits(s); });
        add("structure", structure);
        add("no_file", no_file);
    }
} r;
} // namespace
#include "main.inc"

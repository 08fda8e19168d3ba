// C27 every socket descriptor is closed exactly once: all short histories of socket objects with failing system calls
// @repo: core/modules/socket_mdlw/src/base_socket.cpp
// @repo: core/modules/socket_mdlw/src/data_socket.cpp
// @repo: core/modules/socket_mdlw/src/connect_socket.cpp
// @repo: core/modules/socket_mdlw/src/server_socket.cpp
// @repo: core/modules/socket_mdlw/src/protocol.cpp
// @repo: core/modules/socket_mdlw/src/protocol_simple.cpp
// @flags: --no-sdk
#include "kern.h"
#include <klepsydra/socket_core/connect_socket.h>
#include <klepsydra/socket_core/data_socket.h>
#include <klepsydra/socket_core/protocol_simple.h>
#include <klepsydra/socket_core/server_socket.h>
#include <memory>
using namespace kpsr::socket_mdlw;
void kernel_wait() {}
#include "kern_calls.inc"
namespace {
struct Slot
{
    std::unique_ptr<DataSocket> d;
    std::unique_ptr<ServerSocket> s;
    int fd = -1; // what it should own
    bool any() const { return d || s; }
    BaseSocket &base() { return d ? static_cast<BaseSocket &>(*d) : static_cast<BaseSocket &>(*s); }
};
enum Op { ADOPT, BADFD, CONN_IP, CONN_PATH, SERVER, SERVER_PATH, CLOSE, DESTROY, MOVECON, MOVEASG, SELFASG, SWAP, SWAPBASE, PUT, GET, HALF, ACCEPT, FOREIGN, NOPS };
const char *opname[] = {"adopt", "adopt(-1)", "connect(ip)", "connect(path)", "server(port)", "server(path)", "close", "destroy", "move-construct", "move-assign", "self-move", "swap", "swap-as-base", "put", "get", "end", "accept", "someone else opens"};
struct World
{
    KernelHere kh;
    Kernel &k = kh.k;
    Slot a[2];
    std::vector<int> foreign;
    Stream sink, source;
    std::string trace;
    std::string where() { return trace + " |" + k.log; }
    // descriptors opened by calls in a constructor that then failed must be gone; each slot owns its own
    void check()
    {
        std::vector<long> want;
        for (int f : foreign)
            want.push_back(f);
        for (auto &s : a)
            if (s.fd != -1)
                want.push_back(s.fd);
        std::sort(want.begin(), want.end());
        auto have = k.openSet();
        mc::check(have == want, "exactly the descriptors owned by a live socket object are open", [&] { return "open " + mc::str(have) + " owned " + mc::str(want) + " after " + where(); });
    }
    template<class F>
    bool call(F f)
    {
        try {
            f();
            return true;
        } catch (const std::exception &) {
            return false;
        }
    }
    int adopted()
    {
        int fd = k.alloc();
        k.get(fd)->out = &sink;
        k.get(fd)->in = &source;
        return fd;
    }
    // opening calls made through the class: the new descriptor is the one that appeared
    template<class F>
    void open(int i, F make)
    {
        auto before = k.openSet();
        size_t faults = k.faults.size();
        bool ok = call([&] { make(a[i]); });
        auto after = k.openSet();
        mc::check(ok == (k.faults.size() == faults), "opening fails exactly if a system call failed", [&] { return where(); });
        if (ok) {
            mc::check(a[i].any() && after.size() == before.size() + 1, "opening opens one descriptor", [&] { return where(); });
            for (long f : after)
                if (std::find(before.begin(), before.end(), f) == before.end())
                    a[i].fd = (int) f;
        } else
            mc::check(after == before, "a failed construction leaves nothing open", [&] { return where(); });
    }
    // returns false if the operation does not apply here
    bool apply(int op, int i)
    {
        Slot &x = a[i], &y = a[1 - i];
        trace += std::string(trace.empty() ? "" : ", ") + opname[op] + " " + std::to_string(i);
        switch (op) {
        case ADOPT: {
            if (x.any())
                return false;
            int fd = adopted();
            x.d.reset(new DataSocket(fd));
            x.fd = fd;
            return true;
        }
        case BADFD: {
            if (x.any() || i)
                return false;
            mc::check(!call([&] { DataSocket s(-1); }), "a bad descriptor is refused");
            return true;
        }
        case CONN_IP:
            if (x.any())
                return false;
            open(i, [&](Slot &s) { s.d.reset(new ConnectSocket("127.0.0.1", 80)); });
            return true;
        case CONN_PATH:
            if (x.any())
                return false;
            open(i, [&](Slot &s) { s.d.reset(new ConnectSocket("/tmp/x")); });
            return true;
        case SERVER:
            if (x.any())
                return false;
            open(i, [&](Slot &s) { s.s.reset(new ServerSocket(80)); });
            return true;
        case SERVER_PATH:
            if (x.any())
                return false;
            open(i, [&](Slot &s) { s.s.reset(new ServerSocket("/tmp/x")); });
            return true;
        case CLOSE: {
            if (!x.any())
                return false;
            int cf = k.closeFailures;
            bool ok = call([&] { x.base().close(); });
            if (x.fd == -1)
                mc::check(!ok, "closing a closed or moved-from socket is refused", [&] { return where(); });
            else
                mc::check(ok || k.closeFailures > cf, "a close that worked is not reported as failed", [&] { return where(); });
            x.fd = -1;
            return true;
        }
        case DESTROY:
            if (!x.any())
                return false;
            x.d.reset();
            x.s.reset();
            x.fd = -1;
            return true;
        case MOVECON:
            if (!x.any() || y.any())
                return false;
            if (x.d)
                y.d.reset(new DataSocket(std::move(*x.d)));
            else
                y.s.reset(new ServerSocket(std::move(*x.s)));
            y.fd = x.fd;
            x.fd = -1;
            return true;
        case MOVEASG: {
            if (!x.any() || !y.any() || !x.d != !y.d)
                return false;
            if (x.d)
                *x.d = std::move(*y.d);
            else
                *x.s = std::move(*y.s);
            // what the target owned is closed, or handed to the source
            int old = x.fd;
            x.fd = y.fd;
            y.fd = old != -1 && k.get(old) ? old : -1;
            return true;
        }
        case SELFASG: {
            if (!x.d)
                return false;
            DataSocket &self = *x.d;
            *x.d = std::move(self);
            return true;
        }
        case SWAP:
        case SWAPBASE:
            if (!x.any() || !y.any() || i)
                return false;
            if (op == SWAP) {
                if (!x.d || !y.d)
                    return false;
                x.d->swap(*y.d);
            } else {
                if (!x.d == !y.d)
                    return false;
                x.base().swap(y.base());
            }
            std::swap(x.fd, y.fd);
            return true;
        case PUT: {
            if (!x.d)
                return false;
            std::string was = sink.data;
            File *f = x.fd == -1 ? nullptr : k.get(x.fd);
            bool can = f && f->out && !f->shut;
            size_t calls = k.touched.size();
            bool ok = call([&] { x.d->putMessageData("ab", 2); });
            mc::check(ok == can, "writing works on an open connection only", [&] { return where(); });
            mc::check(sink.data == was + (can ? "ab" : ""), "writing goes to the socket's own descriptor", [&] { return where(); });
            own(x, calls);
            return true;
        }
        case GET: {
            if (!x.d)
                return false;
            source.data = "cd";
            char b[2] = {0, 0};
            size_t calls = k.touched.size();
            File *f = x.fd == -1 ? nullptr : k.get(x.fd);
            bool can = f && f->in;
            bool ok = call([&] { x.d->getMessageData(b, 2, [](std::size_t) { return false; }); });
            if (can)
                mc::check(ok && b[0] == 'c' && b[1] == 'd', "reading works on an open connection", [&] { return where(); });
            else if (x.fd == -1)
                mc::check(!ok, "reading from a closed or moved-from socket is refused", [&] { return where(); });
            own(x, calls);
            return true;
        }
        case HALF: {
            if (!x.d)
                return false;
            size_t calls = k.touched.size();
            bool ok = call([&] { x.d->putMessageClose(); });
            mc::check(ok == (x.fd != -1), "ending the message works on an open socket only", [&] { return where(); });
            own(x, calls);
            return true;
        }
        case ACCEPT: {
            if (!x.s)
                return false;
            File *f = x.fd == -1 ? nullptr : k.get(x.fd);
            if (f && f->listening)
                f->pending.push_back(7);
            auto before = k.openSet();
            size_t faults = k.faults.size();
            size_t calls = k.touched.size();
            std::shared_ptr<DataSocket> c;
            bool ok = call([&] { c = x.s->accept(0); });
            own(x, calls);
            if (ok) {
                mc::check(f && f->listening && k.openSet().size() == before.size() + 1, "accepting opens one descriptor", [&] { return where(); });
                std::shared_ptr<DataSocket> copy = c;
                c.reset();
                mc::check(k.openSet().size() == before.size() + 1, "the connection stays open while anyone holds it", [&] { return where(); });
                copy.reset();
            } else {
                mc::check(!f || k.faults.size() > faults || !f->listening || k.interrupted, "accepting a waiting client works", [&] { return where(); });
                k.interrupted = false;
            }
            mc::check(k.openSet() == before, "an accepted connection is closed by its last holder", [&] { return where(); });
            if (x.fd != -1 && (f = k.get(x.fd)))
                f->pending.clear();
            return true;
        }
        case FOREIGN: {
            if (foreign.size() >= 2 || i)
                return false;
            int fd = k.alloc();
            k.get(fd)->foreign = true;
            foreign.push_back(fd);
            return true;
        }
        }
        return false;
    }
    void own(Slot &x, size_t calls)
    {
        for (size_t j = calls; j < k.touched.size(); j++)
            mc::check(k.touched[j] == x.fd || !k.get(k.touched[j]), "a socket uses no descriptor but its own", [&] { return where(); });
    }
};
bool history(Odo &o, int depth, int budget, int lowest, int err, int op0, int i0)
{
    mc::Case one;
    {
        World w;
        Kernel &k = w.k;
        k.o = &o;
        k.lowest = lowest;
        k.budget = budget;
        k.faultOpen = k.faultClose = k.faultAccept = true;
        InKernel in;
        errno = err;
        bool ok = w.apply(op0, i0);
        for (int d = 1; ok && d < depth; d++) {
            int x = o.pick(NOPS * 2);
            errno = err;
            if (!w.apply(x / 2, x & 1))
                break;
            w.check();
        }
        if (ok) {
            w.check();
            // the end of the objects, in either order
            errno = err;
            for (auto &s : w.a) {
                s.d.reset();
                s.s.reset();
                s.fd = -1;
                w.check();
            }
        }
    }
    return o.next();
}
struct Reg
{
    Reg()
    {
        int firsts[] = {ADOPT, CONN_IP, CONN_PATH, SERVER, SERVER_PATH, FOREIGN, BADFD};
        for (int f : firsts)
            mc::register_fn(std::string("history_") + std::to_string(f) + "_from_3", [f] {
                int t = mc::thorough();
                Odo o;
                while (history(o, 4 + t, 1, 3, 0, f, 0));
            }, mc::Options());
        for (int f : firsts)
            mc::register_fn(std::string("history_") + std::to_string(f) + "_faults", [f] {
                int t = mc::thorough();
                for (int e : {EINTR, EIO, ENOENT}) {
                    Odo o;
                    while (history(o, 3 + t, 2, e == EIO ? 0 : 3, e, f, 0));
                }
            }, mc::Options());
    }
} reg;
} // namespace
#include "main.inc"

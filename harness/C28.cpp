// C28 a server accepts each client once and reports failures: every outcome of the underlying calls
// @repo: core/modules/socket_mdlw/src/base_socket.cpp
// @repo: core/modules/socket_mdlw/src/data_socket.cpp
// @repo: core/modules/socket_mdlw/src/connect_socket.cpp
// @repo: core/modules/socket_mdlw/src/server_socket.cpp
// @flags: --no-sdk -D_FORTIFY_SOURCE=2
#include "kern.h"
#include <klepsydra/socket_core/connect_socket.h>
#include <klepsydra/socket_core/data_socket.h>
#include <klepsydra/socket_core/server_socket.h>
#include <climits>
#include <memory>
using namespace kpsr::socket_mdlw;
void kernel_wait() {}
#include "kern_calls.inc"
namespace {
std::string longPath(int n)
{
    std::string s = "/tmp/";
    while ((int) s.size() < n)
        s += (char) ('a' + s.size() % 26);
    return s.substr(0, n);
}
// ---- opening a server or a connection
bool openCase(Odo &o, int kind, const std::string &path, int port, const char *host, const char *want, int budget, int lowest, int err)
{
    mc::Case one;
    KernelHere kh;
    Kernel &k = kh.k;
    k.o = &o;
    k.budget = budget;
    k.lowest = lowest;
    k.faultOpen = k.faultClose = true;
    {
        InKernel in;
        std::unique_ptr<BaseSocket> s;
        std::string what;
        errno = err;
        bool ok = true;
        try {
            switch (kind) {
            case 0: s.reset(new ServerSocket(port)); break;
            case 1: s.reset(new ServerSocket(path)); break;
            case 2: s.reset(new ConnectSocket(host, port)); break;
            case 3: s.reset(new ConnectSocket(path)); break;
            }
        } catch (const std::exception &e) {
            ok = false;
            what = e.what();
        }
        if (ok) {
            mc::check(k.faults.empty(), "a failed socket, bind, listen or connect is reported", [&] { return k.log; });
            auto open = k.openSet();
            mc::check(open.size() == 1, "one descriptor is open");
            File *f = k.get((int) open[0]);
            mc::check(want && f->addr == want, "the address used is the address asked for", [&] { return f->addr + " instead of " + (want ? want : path.c_str()); });
            mc::check(kind < 2 ? f->listening : f->connected, "the socket listens, or is connected");
            mc::check(kind < 2 || !f->nonblock, "a connection is not switched to non-blocking");
        } else {
            mc::check(!k.faults.empty() || !want, "opening fails only if the system says so", [&] { return what + k.log; });
            mc::check(k.openSet().empty(), "a failed construction leaves nothing open", [&] { return k.log; });
            mc::check(!what.empty(), "a failure says something");
        }
        s.reset();
        mc::check(k.openSet().empty(), "nothing stays open");
    }
    return o.next();
}
// ---- accepting: clients arriving at any of these times, several accepts
const int at[] = {-1, 0, 400, 999, 1000, 1001, 2500};
bool acceptCase(Odo &o, int kind, int clients, int accepts, int budget, int lowest, int err)
{
    mc::Case one;
    KernelHere kh;
    Kernel &k = kh.k;
    k.o = &o;
    k.lowest = lowest;
    int t = 0;
    for (int c = 0; c < clients; c++) {
        static const int gap[] = {0, 400, 1000, 1500};
        t += gap[o.pick(4)];
        k.arrivals.push_back({t, c});
    }
    Stream out[4];
    std::vector<std::shared_ptr<DataSocket>> held;
    {
        InKernel in;
        std::unique_ptr<ServerSocket> s;
        if (kind)
            s.reset(new ServerSocket(4000));
        else
            s.reset(new ServerSocket("/tmp/s"));
        int sfd = lowest;
        k.budget = budget;
        k.faultAccept = true;
        int expect = 0; // the client to be served next
        std::vector<int> served;
        bool keep = o.pick(2);
        for (int n = 0; n < accepts; n++) {
            int limit = o.pick(3);
            long before = k.now;
            size_t faults = k.faults.size();
            auto open = k.openSet();
            auto queue = k.get(sfd)->pending; // accepted in arrival order
            auto future = k.arrivals;
            k.interrupted = false;
            k.log.clear();
            std::shared_ptr<DataSocket> c;
            std::string what;
            errno = err;
            try {
                c = limit == 1 ? s->accept() : s->accept(limit);
            } catch (const std::exception &e) {
                what = e.what();
            }
            auto where = [&] { return std::to_string(limit) + " s at most:" + k.log + " -> " + what; };
            mc::check(k.now - before <= limit * 1000L, "accept ends within its time limit", where);
            // who had arrived in time, in order
            std::vector<int> came(queue.begin(), queue.end());
            for (auto &f : future)
                if (f.first <= before + limit * 1000L)
                    came.push_back(f.second);
            if (c) {
                auto now = k.openSet();
                mc::check(now.size() == open.size() + 1, "accepting opens one descriptor", where);
                int fd = -1;
                for (long f : now)
                    if (std::find(open.begin(), open.end(), f) == open.end())
                        fd = (int) f;
                int id = k.get(fd)->client;
                mc::check(std::find(served.begin(), served.end(), id) == served.end(), "no client is accepted twice", where);
                mc::check(served.empty() || id > served.back(), "clients are accepted in the order they came", where);
                // a client may be missed only if it gave up
                mc::check(k.log.find("gone") != std::string::npos || id == came[0], "the client accepted is the one that waited longest", where);
                served.push_back(id);
                k.get(fd)->out = &out[id];
                std::string msg(1, (char) ('A' + id));
                c->putMessageData(msg.data(), 1);
                mc::check(std::string(out[id].data).find(msg) != std::string::npos, "the connection returned is that client's", where);
                mc::check(!k.get(fd)->nonblock, "an accepted connection is not non-blocking");
                if (keep)
                    held.push_back(c);
            } else {
                mc::check(!what.empty(), "accept yields a connection or an error", where);
                mc::check(k.openSet() == open, "an accept that fails leaves nothing open", where);
                bool excuse = k.faults.size() > faults || k.interrupted || k.log.find("gone") != std::string::npos;
                mc::check(excuse || came.empty(), "a client that came in time is accepted", where);
                if (!excuse)
                    mc::check(k.now - before == limit * 1000L, "accept waits as long as it was told to", where);
            }
        }
        s.reset();
        mc::check(k.openSet().size() == held.size(), "the end of the server closes the server's descriptor only");
        for (size_t i = 0; i < held.size(); i++) {
            out[0].data.clear();
            held[i]->putMessageData("x", 1);
        }
        held.clear();
        mc::check(k.openSet().empty(), "nothing stays open");
    }
    return o.next();
}
// ---- limits of any length
void limitCase(int limit, long arrives, int lowest, int kind)
{
    mc::Case one;
    KernelHere kh;
    Kernel &k = kh.k;
    Odo o;
    k.o = &o;
    k.budget = 0;
    k.lowest = lowest;
    if (arrives >= 0)
        k.arrivals.push_back({arrives, 0});
    {
        InKernel in;
        std::unique_ptr<ServerSocket> s;
        if (kind)
            s.reset(new ServerSocket(4000));
        else
            s.reset(new ServerSocket("/tmp/s"));
        std::shared_ptr<DataSocket> c;
        try {
            c = s->accept(limit);
        } catch (const std::exception &e) {
            mc::check(e.what()[0], "a failure says something");
        }
        auto where = [&] { return std::to_string(limit) + " s at most, client after " + std::to_string(arrives) + " ms: " + k.log; };
        long end = limit < 0 ? 0 : limit * 1000L;
        mc::check(k.now <= end, "accept ends within its time limit", where);
        // a limit of weeks may be cut short to what the system can wait
        mc::check(c || arrives < 0 || arrives > std::min(end, 2000000000L), "a client that came in time is accepted", where);
        c.reset();
    }
    mc::check(k.openSet().empty(), "nothing stays open");
}
struct Reg
{
    Reg()
    {
        mc::register_fn("limits", [] {
            for (int limit : {INT_MIN, -2147484, -1000, -1, 0, 1, 59, 60, 86400, 2147483, 2147484, 4294967, 4294968, 100000000, INT_MAX})
                for (long arrives : {-1L, 0L, 500L, 1001L, 59000L, 86400000L, 1999999999L})
                    for (int lowest : {3, 1500})
                        for (int kind : {0, 1})
                            limitCase(limit, arrives, lowest, kind);
        }, mc::Options());
        mc::register_fn("open_server_port", [] {
            for (int port : {0, 1, 80, 0x1234, 65535})
                for (int lowest : {0, 3, 1024})
                    for (int e : {0, (int) EINTR, (int) EBADF}) {
                        std::string want = "inet 00000000 " + std::to_string(port);
                        Odo o;
                        while (openCase(o, 0, "", port, "", want.c_str(), 3, lowest, e));
                    }
        }, mc::Options());
        for (int kind : {1, 3})
            mc::register_fn(kind == 1 ? "open_server_path" : "connect_path", [kind] {
                for (int n : {1, 5, 20, 105, 106, 107, 108, 109, 200})
                    for (int lowest : {0, 3, 1024})
                        for (int e : {0, (int) EINTR, (int) EBADF}) {
                            std::string path = longPath(n), want = "unix " + path;
                            Odo o;
                            while (openCase(o, kind, path, 0, "", n <= 107 ? want.c_str() : n == 108 ? nullptr : nullptr, 3, lowest, e));
                        }
            }, mc::Options());
        mc::register_fn("connect_ip", [] {
            struct
            {
                const char *host, *want;
            } h[] = {{"127.0.0.1", "inet 7f000001 "}, {"10.1.2.3", "inet 0a010203 "}, {"192.168.255.254", "inet c0a8fffe "}, {"0.0.0.0", "inet 00000000 "}, {"not a host", nullptr}, {"", nullptr}, {"1.2.3.4.5", nullptr}, {"256.1.1.1", nullptr}};
            for (auto &x : h)
                for (int port : {1, 80, 0x1234, 65535})
                    for (int e : {0, (int) EINTR, (int) EBADF}) {
                        std::string want = x.want ? x.want + std::to_string(port) : "";
                        Odo o;
                        while (openCase(o, 2, "", port, x.host, x.want ? want.c_str() : nullptr, 3, 3, e));
                    }
        }, mc::Options());
        for (int clients = 0; clients <= 3; clients++)
            for (int kind = 0; kind < 2; kind++)
                mc::register_fn("accept_" + std::to_string(clients) + (kind ? "_port" : "_path"), [clients, kind] {
                    int t = mc::thorough();
                    for (int lowest : {3, 0, 1500, 1022}) {
                        Odo o;
                        while (acceptCase(o, kind, clients, lowest == 3 ? 3 : 2, lowest == 3 && (t || kind) ? 2 + t : 1 + t, lowest, lowest == 0 ? EINTR : 0));
                    }
                }, mc::Options());
    }
} reg;
} // namespace
#include "main.inc"
extern "C" long __fdelt_chk(long fd)
{
    if (fd < 0 || fd >= FD_SETSIZE)
        mc::fail("a descriptor beyond FD_SETSIZE is put into a descriptor set (writes past its end)");
    return fd / (8 * (long) sizeof(long));
}

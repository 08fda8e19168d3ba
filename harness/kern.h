// An in-process model of the kernel's socket calls: every call's outcome is an enumerated choice.
#ifndef KERN_H
#define KERN_H
#include "enumerate.h"
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <algorithm>
#include <deque>
#include <fcntl.h>
#include <mutex>
#include <netinet/in.h>
#include <poll.h>
#include <stdexcept>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>

class Bytes
{
public:
    Bytes &operator=(const std::string &text)
    {
        s = text;
        at = 0;
        return *this;
    }
    size_t size() const { return s.size() - at; }
    const char *data() const { return s.data() + at; }
    operator std::string() const { return std::string(data(), size()); }
    bool operator==(const std::string &o) const { return std::string(*this) == o; }
    void append(const char *b, size_t n) { s.append(b, n); }
    void clear() { drop(size()); }
    void drop(size_t k) // the front
    {
        at += k;
        if (2 * at >= s.size()) {
            s.erase(0, at);
            at = 0;
        }
    }

private:
    std::string s;
    size_t at = 0;
};
struct Stream
{
    Bytes data; // what was written and not yet read
    bool eof = false; // the writer shut down or closed
};
struct File
{
    bool open = false, nonblock = false, bound = false, listening = false, connected = false, foreign = false;
    int family = 0;
    std::string addr;          // what it was bound or connected to
    std::deque<int> pending;   // ids of clients waiting to be accepted
    int client = -1;           // id of the client this accepted connection serves
    Stream *in = nullptr, *out = nullptr;
    int shut = 0;
};
// deviations from the plain behaviour
enum Dev { D_SHORT, D_INTR, D_AGAIN, D_FATAL, D_RESET, D_EOF, D_GONE };
struct Kernel
{
    bool on = false;
    std::mutex m; // threaded scenarios only
    bool blockingStreams = false; // threads: a call with nothing to do lets others run
    size_t pipeSize = (size_t) 1 << 40;
    std::vector<File> f;
    int lowest = 3; // descriptor numbers start here
    Odo *o = nullptr;
    int budget = 0;
    int points = 1 << 30; // calls that may go differently
    std::vector<int> fatalRead, fatalWrite;
    std::string log;
    std::vector<int> touched; // descriptors used by data and connection calls
    std::vector<std::string> faults; // errors that must be reported
    bool interrupted = false, unlinked = false;
    long now = 0; // seconds * 1000
    std::deque<std::pair<long, int>> arrivals; // future clients: time, id
    int closeFailures = 0;
    bool faultOpen = false, faultClose = false, faultData = false, faultAccept = false;

    Kernel() { f.reserve(16); }
    File *get(int fd)
    {
        int i = fd - lowest;
        return i >= 0 && i < (int) f.size() && f[i].open ? &f[i] : nullptr;
    }
    int alloc()
    {
        for (size_t i = 0; i < f.size(); i++)
            if (!f[i].open) {
                f[i] = File();
                f[i].open = true;
                return lowest + (int) i;
            }
        f.push_back(File());
        f.back().open = true;
        return lowest + (int) f.size() - 1;
    }
    std::vector<long> openSet()
    {
        std::vector<long> r;
        for (size_t i = 0; i < f.size(); i++)
            if (f[i].open)
                r.push_back(lowest + (long) i);
        return r;
    }
    int dev(int n)
    {
        if (!o || budget == 0 || points == 0)
            return 0;
        points--;
        int r = o->pick(n + 1);
        if (r)
            budget--;
        return r;
    }
    int err(int e, const char *what, bool mustReport = true)
    {
        log += std::string(" ") + what + "=" + strerrorname_np(e);
        if (mustReport)
            faults.push_back(std::string(what) + " " + strerrorname_np(e));
        errno = e;
        return -1;
    }
    int addrError(const struct sockaddr *) { return 0; }
    static std::string text(const struct sockaddr *a, socklen_t n)
    {
        if (a->sa_family == AF_INET) {
            auto *i = (const struct sockaddr_in *) a;
            char b[64];
            snprintf(b, sizeof b, "inet %08x %d", ntohl(i->sin_addr.s_addr), ntohs(i->sin_port));
            return b;
        }
        auto *u = (const struct sockaddr_un *) a;
        size_t max = n - offsetof(struct sockaddr_un, sun_path);
        return "unix " + std::string(u->sun_path, strnlen(u->sun_path, max));
    }
    int sys_socket(int family)
    {
        if (faultOpen && dev(1))
            return err(EMFILE, "socket");
        int fd = alloc();
        get(fd)->family = family;
        log += " socket=" + std::to_string(fd);
        return fd;
    }
    int sys_close(int fd)
    {
        File *p = get(fd);
        if (!p) {
            log += " close(" + std::to_string(fd) + ")!";
            mc::fail("a descriptor is closed that is not open (closed twice, or never owned) | close(" + std::to_string(fd) + ") after" + log);
        }
        if (p->foreign)
            mc::fail("a descriptor of someone else is closed | close(" + std::to_string(fd) + ") after" + log);
        // as on Linux the descriptor is released whatever close answers
        if (p->out)
            p->out->eof = true;
        *p = File();
        log += " close(" + std::to_string(fd) + ")";
        if (faultClose)
            switch (dev(3)) {
            case 1: closeFailures++; return err(EINTR, "close", false);
            case 2: closeFailures++; return err(EIO, "close", false);
            case 3: closeFailures++; return err(ENOSPC, "close", false);
            }
        return 0;
    }
    int sys_bind(int fd, const struct sockaddr *a, socklen_t n)
    {
        touched.push_back(fd);
        File *p = get(fd);
        if (!p)
            return err(EBADF, "bind");
        if (faultOpen && dev(1)) {
            if (!unlinked)
                return err(EADDRINUSE, "bind");
            faults.push_back("another server's path was removed and taken over");
            log += " takeover";
        }
        p->bound = true;
        p->addr = text(a, n);
        return 0;
    }
    int sys_listen(int fd)
    {
        touched.push_back(fd);
        File *p = get(fd);
        if (!p)
            return err(EBADF, "listen");
        if (!p->bound)
            return err(EINVAL, "listen");
        if (faultOpen && dev(1))
            return err(EADDRINUSE, "listen");
        p->listening = true;
        return 0;
    }
    int sys_connect(int fd, const struct sockaddr *a, socklen_t n)
    {
        touched.push_back(fd);
        File *p = get(fd);
        if (!p)
            return err(EBADF, "connect");
        p->addr = text(a, n);
        if (p->addr.compare(0, 13, "inet ffffffff") == 0)
            return err(ENETUNREACH, "connect");
        if (faultOpen)
            switch (dev(3)) {
            case 1: return err(ECONNREFUSED, "connect");
            case 2: return err(EINTR, "connect");
            case 3: return err(ETIMEDOUT, "connect");
            }
        p->connected = true;
        return 0;
    }
    void arrive(File *p)
    {
        while (!arrivals.empty() && arrivals.front().first <= now) {
            p->pending.push_back(arrivals.front().second);
            arrivals.pop_front();
        }
    }
    // waits until fd can be accepted from: 1 ready, 0 timeout, -1 interrupted
    int waitReady(int fd, long ms)
    {
        touched.push_back(fd);
        File *p = get(fd);
        if (!p)
            return err(EBADF, "select");
        arrive(p);
        if (faultAccept && dev(1)) {
            interrupted = true;
            log += " wait=EINTR";
            errno = EINTR;
            return -1;
        }
        if (p->pending.empty()) {
            if (!arrivals.empty() && (ms < 0 || arrivals.front().first <= now + ms)) {
                now = arrivals.front().first;
                arrive(p);
            } else {
                if (ms < 0)
                    mc::fail("accept waits without a time limit |" + log);
                now += ms;
                log += " wait=timeout";
                return 0;
            }
        }
        log += " wait=ready";
        return 1;
    }
    int sys_accept(int fd, struct sockaddr *a, socklen_t *n)
    {
        touched.push_back(fd);
        File *p = get(fd);
        if (!p || !p->listening)
            return err(p ? EINVAL : EBADF, "accept");
        arrive(p);
        if (faultAccept)
            switch (dev(4)) {
            case 1: return err(EMFILE, "accept");
            case 2:
                if (!p->pending.empty())
                    p->pending.pop_front(); // the client gave up
                log += " gone";
                break;
            case 3:
                if (!p->pending.empty())
                    p->pending.pop_front();
                return err(ECONNABORTED, "accept");
            case 4: return err(EINTR, "accept");
            }
        if (p->pending.empty()) {
            if (!p->nonblock)
                mc::fail("accept blocks without a time limit |" + log);
            return err(EAGAIN, "accept");
        }
        int id = p->pending.front();
        p->pending.pop_front();
        int c = alloc();
        p = get(fd);
        get(c)->client = id;
        get(c)->connected = true;
        if (a && n) {
            memset(a, 0, *n < 16 ? *n : 16);
            *n = 16;
        }
        log += " accept=" + std::to_string(c);
        return c;
    }
    long sys_read(int fd, void *b, size_t n)
    {
        touched.push_back(fd);
        File *p = get(fd);
        if (!p)
            return err(EBADF, "read");
        if (!p->in)
            return err(ENOTCONN, "read");
        if (faultData) {
            switch (dev(6)) {
            case 1: // one byte
                if (n > 1)
                    n = 1;
                break;
            case 2: // all but one
                if (n > 1)
                    n = std::min(n, std::max<size_t>(p->in->data.size(), 1)) - 1 + (p->in->data.size() <= 1);
                break;
            case 3: return err(EINTR, "read", false);
            case 4: return err(EAGAIN, "read", false);
            case 5: return err(fatalRead[o->pick((int) fatalRead.size())], "read");
            case 6: // the peer resets the connection: what had not been read is gone
                p->in->data.clear();
                p->in->eof = true;
                faults.push_back("reset");
                log += " reset";
                errno = ECONNRESET;
                return -1;
            }
        }
        size_t k = std::min(n, p->in->data.size());
        if (k == 0 && n) {
            if (!p->in->eof) {
                if (!blockingStreams)
                    mc::fail("a read waits for data that will not come |" + log);
                return -2;
            }
            log += " read=0";
            return 0;
        }
        memcpy(b, p->in->data.data(), k);
        p->in->data.drop(k);
        log += " read=" + std::to_string(k);
        return (long) k;
    }
    long sys_write(int fd, const void *b, size_t n)
    {
        touched.push_back(fd);
        File *p = get(fd);
        if (!p)
            return err(EBADF, "write");
        if (!p->out || p->shut)
            return err(p->shut ? EPIPE : ENOTCONN, "write");
        if (faultData)
            switch (dev(5)) {
            case 1:
                if (n > 1)
                    n = 1;
                break;
            case 2:
                if (n > 1)
                    n--;
                break;
            case 3: return err(EINTR, "write", false);
            case 4: return err(EAGAIN, "write", false);
            case 5: return err(fatalWrite[o->pick((int) fatalWrite.size())], "write");
            }
        size_t room = pipeSize - p->out->data.size();
        if (room == 0 && n)
            return -2;
        n = std::min(n, room);
        p->out->data.append((const char *) b, n);
        log += " write=" + std::to_string(n);
        return (long) n;
    }
    int sys_shutdown(int fd, int how)
    {
        touched.push_back(fd);
        File *p = get(fd);
        if (!p)
            return err(EBADF, "shutdown");
        if (faultData && dev(1))
            return err(ENOTCONN, "shutdown");
        log += " shutdown";
        if (how != SHUT_RD) {
            p->shut++;
            if (p->out)
                p->out->eof = true;
        }
        return 0;
    }
};
inline Kernel *&kernel_ptr()
{
    static Kernel *k;
    return k;
}
inline Kernel &kernel() { return *kernel_ptr(); }
// the kernel of one sequence
struct KernelHere
{
    Kernel k;
    KernelHere() { kernel_ptr() = &k; }
    ~KernelHere() { kernel_ptr() = nullptr; }
};
struct InKernel
{
    InKernel() { kernel().on = true; }
    ~InKernel() { kernel().on = false; }
};
void kernel_wait(); // threads: called when a call would block
#endif

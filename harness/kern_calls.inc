// the C library's entry points, answered by the kernel model while it is on
#include <csignal>
#include <mutex>
// what writing to a connection the peer has closed does besides EPIPE, unless the caller has ruled it out
static void sigpipe(long r, int flags)
{
    if (r != -1 || errno != EPIPE || (flags & MSG_NOSIGNAL))
        return;
    struct sigaction a;
    sigset_t blocked;
    sigaction(SIGPIPE, nullptr, &a);
    pthread_sigmask(SIG_SETMASK, nullptr, &blocked);
    if (a.sa_handler == SIG_DFL && !sigismember(&blocked, SIGPIPE))
        mc::fail("a peer that closed its end ends the process (SIGPIPE) | " + kernel().log);
    errno = EPIPE;
}
struct KLock // only in the threaded scenarios
{
    KLock()
    {
        if (kernel().blockingStreams)
            kernel().m.lock();
    }
    ~KLock()
    {
        if (kernel().blockingStreams)
            kernel().m.unlock();
    }
};
extern "C" {
#define ON (mc::mc_active() && kernel_ptr() && kernel().on)
int socket(int f, int t, int p) { return ON ? kernel().sys_socket(f) : (int) syscall(SYS_socket, f, t, p); }
int close(int fd)
{
    if (!ON)
        return (int) syscall(SYS_close, fd);
    KLock l;
    return kernel().sys_close(fd);
}
int bind(int fd, const struct sockaddr *a, socklen_t n) { return ON ? kernel().sys_bind(fd, a, n) : (int) syscall(SYS_bind, fd, a, n); }
int listen(int fd, int n) { return ON ? kernel().sys_listen(fd) : (int) syscall(SYS_listen, fd, n); }
int connect(int fd, const struct sockaddr *a, socklen_t n) { return ON ? kernel().sys_connect(fd, a, n) : (int) syscall(SYS_connect, fd, a, n); }
int accept(int fd, struct sockaddr *a, socklen_t *n) { return ON ? kernel().sys_accept(fd, a, n) : (int) syscall(SYS_accept, fd, a, n); }
int accept4(int fd, struct sockaddr *a, socklen_t *n, int) { return accept(fd, a, n); }
int shutdown(int fd, int how)
{
    if (!ON)
        return (int) syscall(SYS_shutdown, fd, how);
    KLock l;
    return kernel().sys_shutdown(fd, how);
}
ssize_t read(int fd, void *b, size_t n)
{
    if (!ON)
        return syscall(SYS_read, fd, b, n);
    for (;;) {
        {
            KLock l;
            long r = kernel().sys_read(fd, b, n);
            if (r != -2)
                return r;
        }
        kernel_wait();
    }
}
static ssize_t put(int fd, const void *b, size_t n, int flags)
{
    for (;;) {
        {
            KLock l;
            long r = kernel().sys_write(fd, b, n);
            if (r != -2) {
                sigpipe(r, flags);
                return r;
            }
        }
        kernel_wait();
    }
}
ssize_t write(int fd, const void *b, size_t n) { return ON ? put(fd, b, n, 0) : syscall(SYS_write, fd, b, n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
ssize_t recv(int fd, void *b, size_t n, int) { return read(fd, b, n); }
ssize_t __recv_chk(int fd, void *b, size_t n, size_t, int) { return read(fd, b, n); }
ssize_t send(int fd, const void *b, size_t n, int flags) { return ON ? put(fd, b, n, flags) : syscall(SYS_sendto, fd, b, n, flags, nullptr, 0); }
ssize_t sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *, socklen_t) { return send(fd, b, n, flags); }
int setsockopt(int fd, int, int, const void *, socklen_t) { return !ON || kernel().get(fd) ? 0 : kernel().err(EBADF, "setsockopt"); }
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    if (!ON)
        return (int) syscall(SYS_fcntl, fd, cmd, arg);
    File *p = kernel().get(fd);
    if (!p)
        return kernel().err(EBADF, "fcntl");
    if (cmd == F_SETFL)
        p->nonblock = (arg & O_NONBLOCK) != 0;
    if (cmd == F_GETFL)
        return O_RDWR | (p->nonblock ? O_NONBLOCK : 0);
    return 0;
}
int fcntl64(int fd, int cmd, ...) __attribute__((alias("fcntl")));
int select(int n, fd_set *r, fd_set *, fd_set *, struct timeval *tv)
{
    long ms = tv ? tv->tv_sec * 1000L + tv->tv_usec / 1000 : -1;
    for (int fd = 0; fd < n && fd < FD_SETSIZE; fd++)
        if (FD_ISSET(fd, r)) {
            int k = kernel().waitReady(fd, ms);
            if (k == 0)
                FD_ZERO(r);
            return k;
        }
    mc::fail("select watches no descriptor");
}
int poll(struct pollfd *p, nfds_t n, int ms)
{
    if (!ON)
        return (int) syscall(SYS_poll, p, n, ms);
    int k = kernel().waitReady(p[0].fd, ms);
    p[0].revents = k == 1 ? p[0].events : 0;
    return k;
}
int __poll_chk(struct pollfd *p, nfds_t n, int ms, size_t) { return poll(p, n, ms); }
int unlink(const char *p)
{
    if (!ON)
        return (int) syscall(SYS_unlink, p);
    kernel().unlinked = true;
    return 0;
}
int remove(const char *p) { return unlink(p); }
}

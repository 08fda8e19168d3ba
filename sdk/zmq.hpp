// Stand-in for cppzmq: publish/subscribe sockets of one process, connected by the addresses they bind and connect to.
// As with the real library a message arrives whole or not at all, in order, at every subscriber connected by then whose
// subscription is a prefix of its first part; and a socket must not be used by two threads without synchronisation.
#ifndef ZMQ_STANDIN_HPP
#define ZMQ_STANDIN_HPP
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <map>
#include <mutex>
#include <string>
#include <vector>
#define ZMQ_PUB 1
#define ZMQ_SUB 2
#define ZMQ_SUBSCRIBE 6
#define ZMQ_UNSUBSCRIBE 7
#define ZMQ_RCVMORE 13
#define ZMQ_POLLIN 1
#define ZMQ_SNDMORE 2
namespace zmq {
class error_t : public std::exception
{
public:
    int num() const { return 0; }
    const char *what() const noexcept override { return "zmq"; }
};
enum class send_flags : int { none = 0, dontwait = 1, sndmore = 2 };
enum class recv_flags : int { none = 0, dontwait = 1 };
struct const_buffer
{
    const_buffer(const void *d, size_t n)
        : d(static_cast<const char *>(d))
        , n(n)
    {}
    const void *data() const { return d; }
    size_t size() const { return n; }
    const char *d;
    size_t n;
};
inline const_buffer buffer(const void *d, size_t n) { return const_buffer(d, n); }
inline const_buffer buffer(const std::string &s) { return const_buffer(s.data(), s.size()); }
class message_t
{
public:
    message_t() {}
    explicit message_t(size_t n)
        : part(n, 0)
    {}
    message_t(const void *d, size_t n)
        : part(static_cast<const char *>(d), static_cast<const char *>(d) + n)
    {}
    void *data() { return part.data(); }
    const void *data() const { return part.data(); }
    size_t size() const { return part.size(); }
    bool empty() const { return part.empty(); }
    bool more() const { return _more; }
    std::string to_string() const { return std::string(part.begin(), part.end()); }
    std::vector<char> part;
    bool _more = false;
};
class socket_t;
class context_t
{
public:
    explicit context_t(int = 1) {}
    std::mutex m;
    std::map<std::string, std::vector<socket_t *>> subs; // by address
};
class socket_t
{
public:
    socket_t(context_t &c, int type)
        : _c(c)
        , _type(type)
    {}
    socket_t(const socket_t &) = delete;
    ~socket_t()
    {
        std::lock_guard<std::mutex> l(_c.m);
        for (auto &s : _c.subs)
            for (size_t i = s.second.size(); i-- > 0;)
                if (s.second[i] == this)
                    s.second.erase(s.second.begin() + i);
    }
    void bind(const std::string &a)
    {
        use();
        std::lock_guard<std::mutex> l(_c.m);
        _addresses.push_back(a);
        if (_type == ZMQ_SUB)
            _c.subs[a].push_back(this);
    }
    void connect(const std::string &a) { bind(a); }
    void setsockopt(int o, const void *v, size_t n)
    {
        use();
        std::lock_guard<std::mutex> l(_m);
        std::string t(static_cast<const char *>(v), n);
        if (o == ZMQ_SUBSCRIBE)
            _prefixes.push_back(t);
    }
    // ---- sending
    size_t send(const_buffer b, send_flags f = send_flags::none)
    {
        use();
        _out.emplace_back(b.d, b.d + b.n);
        if (f == send_flags::sndmore)
            return b.n;
        std::vector<std::vector<char>> whole;
        whole.swap(_out);
        std::lock_guard<std::mutex> l(_c.m);
        for (auto &a : _addresses)
            for (socket_t *s : _c.subs[a])
                s->arrive(whole);
        return b.n;
    }
    bool send(message_t &m, int flags = 0) { return send(const_buffer(m.data(), m.size()), flags & ZMQ_SNDMORE ? send_flags::sndmore : send_flags::none) == m.size(); }
    size_t send(message_t &m, send_flags f) { return send(const_buffer(m.data(), m.size()), f); }
    size_t send(message_t &&m, send_flags f) { return send(const_buffer(m.data(), m.size()), f); }
    // ---- receiving
    bool recv(message_t *m) { return recv(*m); }
    bool recv(message_t &m, recv_flags = recv_flags::none) { return recv(m, false); }
    bool recv(message_t &m, bool dontwait)
    {
        use();
        std::unique_lock<std::mutex> l(_m);
        if (dontwait && _in.empty())
            return false;
        while (_in.empty())
            _arrived.wait(l);
        m.part = _in.front().front();
        _in.front().pop_front();
        m._more = !_in.front().empty();
        if (!m._more)
            _in.pop_front();
        return true;
    }
    bool wait(long ms)
    {
        use();
        std::unique_lock<std::mutex> l(_m);
        if (ms < 0)
            while (_in.empty())
                _arrived.wait(l);
        else if (ms > 0)
            _arrived.wait_for(l, std::chrono::milliseconds(ms), [this] { return !_in.empty(); });
        return !_in.empty();
    }
    operator void *() { return this; }

private:
    void arrive(const std::vector<std::vector<char>> &whole)
    {
        std::lock_guard<std::mutex> l(_m);
        for (auto &p : _prefixes)
            if (whole[0].size() >= p.size() && !memcmp(whole[0].data(), p.data(), p.size())) {
                _in.emplace_back(whole.begin(), whole.end());
                _arrived.notify_all();
                return;
            }
    }
    void use() { _used++; } // two threads at once are a race
    context_t &_c;
    int _type;
    int _used = 0;
    std::vector<std::string> _addresses, _prefixes;
    std::vector<std::vector<char>> _out;
    std::mutex _m;
    std::condition_variable _arrived;
    std::deque<std::deque<std::vector<char>>> _in;
};
struct pollitem_t
{
    void *socket;
    int fd;
    short events, revents;
};
inline int poll(pollitem_t *items, size_t n, long ms = -1)
{
    int ready = 0;
    for (size_t i = 0; i < n; i++) {
        items[i].revents = 0;
        if ((items[i].events & ZMQ_POLLIN) && static_cast<socket_t *>(items[i].socket)->wait(ms)) {
            items[i].revents = ZMQ_POLLIN;
            ready++;
        }
    }
    return ready;
}
} // namespace zmq
#endif

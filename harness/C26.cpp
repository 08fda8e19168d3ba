// C26 socket messages arrive whole whatever the network does to them
// @repo: core/modules/socket_mdlw/src/base_socket.cpp
// @repo: core/modules/socket_mdlw/src/data_socket.cpp
// @repo: core/modules/socket_mdlw/src/protocol.cpp
// @repo: core/modules/socket_mdlw/src/protocol_simple.cpp
// @repo: core/modules/socket_mdlw/src/connect_socket.cpp
// @repo: core/modules/socket_mdlw/src/server_socket.cpp
// @flags: --no-sdk
#include "kern.h"
#include <condition_variable>
#include <klepsydra/socket_core/data_socket.h>
#include <klepsydra/socket_core/protocol_simple.h>
#include <klepsydra/socket_core/server_socket.h>
#include <klepsydra/socket_core/connect_socket.h>
#include <memory>
#include <mutex>
#include <thread>
using namespace kpsr::socket_mdlw;
namespace {
std::string payload(int len)
{
    std::string s;
    for (int i = 0; i < len; i++)
        s += (char) (i * 7 + i / 16); // contains NUL and bytes above 127
    return s;
}
// lengths around the places where the receiver's string grows
const int lens[] = {0, 1, 2, 13, 14, 15, 16, 28, 29, 30, 31, 32, 33, 56, 57, 58, 59, 96, 97, 98};
const int lensBig[] = {160, 254, 255, 256, 393, 394, 600, 1024, 4096, 5000};
int makeSocket(Kernel &k, Stream *in, Stream *out)
{
    int fd = k.alloc();
    k.get(fd)->in = in;
    k.get(fd)->out = out;
    k.get(fd)->connected = true;
    return fd;
}
void faultSets(Kernel &k, bool all)
{
    k.fatalWrite = {EPIPE, EIO};
    k.fatalRead = {EIO, ENOBUFS};
    if (all) {
        k.fatalWrite = {EPIPE, EIO, EINVAL, EBADF, ECONNRESET, ENXIO, EDQUOT, EFBIG, ENETDOWN, ENETUNREACH, ENOSPC, ENOBUFS, EFAULT};
        k.fatalRead = {EIO, ENOBUFS, EBADF, EFAULT, EINVAL, ENXIO, ENOMEM, EISDIR, EACCES};
    }
}
bool isPrefix(const std::string &p, const std::string &s) { return s.compare(0, p.size(), p) == 0; }

// ---- sending: every outcome of each write
bool sendCase(Odo &o, int len, int budget, bool all, int points = 1 << 30)
{
    mc::Case one;
    KernelHere kh;
    Kernel &k = kh.k;
    Stream wire;
    k.o = &o;
    k.budget = budget;
    k.points = points;
    k.faultData = true;
    faultSets(k, all);
    const std::string m = payload(len);
    bool ok = false, threw = false;
    {
        InKernel in;
        auto s = std::make_shared<DataSocket>(makeSocket(k, nullptr, &wire));
        ProtocolSimple p(s);
        try {
            p.sendMessage(m);
            ok = true;
        } catch (const std::exception &) {
            threw = true;
        }
        File *f = k.get(k.lowest);
        mc::check(f != nullptr, "sending keeps the descriptor open");
        if (ok) {
            mc::check(k.faults.empty(), "a failed write is reported", [&] { return k.log; });
            mc::check(wire.data == m, "a message sent is exactly what was put on the wire", [&] { return std::to_string(len) + " bytes:" + k.log; });
            mc::check(f->shut == 1 && wire.eof, "a complete message is ended", [&] { return k.log; });
        } else {
            mc::check(!k.faults.empty(), "sending fails only if the system says so", [&] { return k.log; });
            mc::check(isPrefix(wire.data, m), "a failed message's bytes on the wire are its beginning", [&] { return k.log; });
            mc::check(!wire.eof || wire.data == m, "a message cut short is not ended as if it were complete", [&] { return k.log; });
        }
    }
    return o.next();
}
// ---- receiving: every outcome of each read
bool recvCase(Odo &o, int len, int budget, bool all, int before, int points = 1 << 30)
{
    mc::Case one;
    KernelHere kh;
    Kernel &k = kh.k;
    Stream wire;
    k.o = &o;
    k.budget = budget;
    k.points = points;
    k.faultData = true;
    faultSets(k, all);
    const std::string m = payload(len);
    wire.data = m;
    wire.eof = true;
    std::string got;
    if (before == 1)
        got = "left over from before, longer than the local buffer";
    if (before == 2)
        got.reserve(40);
    bool ok = false;
    {
        InKernel in;
        auto s = std::make_shared<DataSocket>(makeSocket(k, &wire, nullptr));
        ProtocolSimple p(s);
        try {
            p.recvMessage(got);
            ok = true;
        } catch (const std::exception &) {
        }
        bool reset = false, other = false;
        for (auto &f : k.faults)
            (f == "reset" ? reset : other) = true;
        if (ok) {
            mc::check(!other, "a failed read is reported", [&] { return k.log; });
            if (!reset)
                mc::check(got == m, "the message received is the message sent", [&] { return std::to_string(len) + " bytes sent, " + std::to_string(got.size()) + " received:" + k.log; });
            else // documented: a reset ends the stream
                mc::check(isPrefix(got, m), "what was received before a reset is the beginning of the message", [&] { return k.log; });
        } else {
            mc::check(reset || other, "receiving fails only if the system says so", [&] { return k.log; });
            mc::check(isPrefix(got, m), "what a failed receive leaves is the beginning of the message", [&] { return k.log; });
        }
        mc::check(k.get(k.lowest) != nullptr, "receiving keeps the descriptor open");
    }
    return o.next();
}
// ---- the data socket's own read with a stop condition
bool dataCase(Odo &o, int len, int size, int stopAt, int budget)
{
    mc::Case one;
    KernelHere kh;
    Kernel &k = kh.k;
    Stream wire;
    k.o = &o;
    k.budget = budget;
    k.faultData = true;
    faultSets(k, false);
    const std::string m = payload(len);
    wire.data = m;
    wire.eof = true;
    std::unique_ptr<char[]> buf(new char[size ? size : 1]);
    memset(buf.get(), 'z', size ? size : 1);
    std::vector<size_t> scans;
    long got = -1;
    {
        InKernel in;
        DataSocket s(makeSocket(k, &wire, nullptr));
        try {
            got = (long) s.getMessageData(buf.get(), size, [&](size_t n) {
                scans.push_back(n);
                return stopAt && n >= (size_t) stopAt;
            });
        } catch (const std::exception &) {
        }
        bool reset = false, other = false;
        for (auto &f : k.faults)
            (f == "reset" ? reset : other) = true;
        if (got >= 0) {
            mc::check(!other, "a failed read is reported", [&] { return k.log; });
            mc::check(got <= size && got <= len && memcmp(buf.get(), m.data(), got) == 0, "the bytes read are the stream's, from its beginning", [&] { return k.log; });
            mc::check(wire.data.size() + got == (size_t) len || reset, "no byte is taken from the stream and lost", [&] { return k.log; });
            bool stopped = stopAt && !scans.empty() && scans.back() >= (size_t) stopAt;
            mc::check(got == size || got == len || stopped || reset, "a read ends only when it is full, at the end of the stream or when told to", [&] { return std::to_string(got) + ":" + k.log; });
            for (size_t i = 0; i + 1 < scans.size(); i++)
                mc::check(!stopAt || scans[i] < (size_t) stopAt, "a read stops when told to", [&] { return k.log; });
            mc::check(scans.empty() ? got == 0 : (long) scans.back() == got, "the stop condition is asked about all that was read", [&] { return k.log; });
            for (int i = (int) got; i < size; i++)
                mc::check(buf[i] == 'z', "a read leaves the rest of the buffer alone", [&] { return k.log; });
        } else
            mc::check(reset || other, "reading fails only if the system says so", [&] { return k.log; });
    }
    return o.next();
}
// ---- both ends, request and answer on one connection
bool talkCase(Odo &o, int a, int b, int budget, int lowest)
{
    mc::Case one;
    KernelHere kh;
    Kernel &k = kh.k;
    Stream there, back;
    k.lowest = lowest;
    k.o = &o;
    k.budget = budget;
    k.faultData = true;
    faultSets(k, false);
    const std::string ma = payload(a), mb = payload(b);
    std::string got = "stale", answer = "stale, and rather longer than what follows it";
    {
        InKernel in;
        auto cs = std::make_shared<DataSocket>(makeSocket(k, &back, &there));
        auto ss = std::make_shared<DataSocket>(makeSocket(k, &there, &back));
        ProtocolSimple client(cs), server(ss);
        bool threw = false, sent = false;
        try {
            client.sendMessage(ma);
            sent = true;
            server.recvMessage(got);
            mc::check(got == ma || !k.faults.empty(), "the request received is the request sent", [&] { return k.log; });
            server.sendMessage(mb);
            client.recvMessage(answer);
            mc::check(answer == mb || !k.faults.empty(), "the answer received is the answer sent", [&] { return k.log; });
        } catch (const std::exception &e) {
            threw = true;
        }
        mc::check(!threw || !k.faults.empty(), "a conversation fails only if the system says so", [&] { return k.log; });
    }
    mc::check(k.openSet().empty(), "the end of both sockets closes both descriptors");
    return o.next();
}
mc::Options opt()
{
    mc::Options o;
    return o;
}
const int nlens = sizeof lens / sizeof *lens, nbig = sizeof lensBig / sizeof *lensBig;
} // namespace
#include "kern_calls.inc"
namespace {
struct Reg
{
    Reg()
    {
        for (int g = 0; g < 4; g++)
            mc::register_fn("send_" + std::to_string(g), [g] {
                int t = mc::thorough();
                for (int i = g; i < nlens; i += 4) {
                    { Odo o; while (sendCase(o, lens[i], 3 + t, false)); }
                    { Odo o; while (sendCase(o, lens[i], 2, true)); }
                }
                for (int i = g; i < nbig; i += 4) {
                    Odo o;
                    while (sendCase(o, lensBig[i], 2 + t, false));
                }
            }, opt());
        mc::register_fn("huge", [] { // more than any single call of the kernel takes
            for (int len : {70000, (1 << 20) + 7}) {
                { Odo o; while (sendCase(o, len, 1, false, 60)); }
                { Odo o; while (recvCase(o, len, 1, false, 0, 60)); }
            }
        }, opt());
        for (int g = 0; g < 4; g++)
            for (int before = 0; before < 3; before++)
                mc::register_fn("recv_" + std::to_string(g) + "_" + std::to_string(before), [g, before] {
                    int t = mc::thorough();
                    for (int i = g; i < nlens; i += 4) {
                        { Odo o; while (recvCase(o, lens[i], 3 + t, false, before)); }
                        { Odo o; while (recvCase(o, lens[i], 2, true, before)); }
                    }
                    for (int i = g; i < nbig; i += 4) {
                        Odo o;
                        while (recvCase(o, lensBig[i], 2 + t, false, before));
                    }
                }, opt());
        mc::register_fn("read_until", [] {
            int t = mc::thorough();
            for (int len : {0, 1, 3, 5})
                for (int size : {0, 1, 3, 4, 8})
                    for (int stop : {0, 1, 2, 3, 5}) {
                        Odo o;
                        while (dataCase(o, len, size, stop, 3 + t));
                    }
        }, opt());
        mc::register_fn("conversation", [] {
            int t = mc::thorough();
            for (int lowest : {3, 0, 1500})
                for (int a : {0, 1, 14, 15, 33})
                    for (int b : {0, 2, 14, 58}) {
                        Odo o;
                        while (talkCase(o, a, b, 2 + t, lowest));
                    }
        }, opt());
    }
} reg;
} // namespace
// ---- two threads and a small pipe: a call with nothing to do waits for the other side
void kernel_wait() { std::this_thread::yield(); }
namespace {
void threads(int a, int b, size_t pipe)
{
    KernelHere kh;
    Kernel &k = kh.k;
    Stream there, back;
    k.blockingStreams = true;
    k.pipeSize = pipe;
    const std::string ma = payload(a), mb = payload(b);
    std::string got, answer;
    k.on = true;
    {
        auto cs = std::make_shared<DataSocket>(makeSocket(k, &back, &there));
        auto ss = std::make_shared<DataSocket>(makeSocket(k, &there, &back));
        std::thread t([&] {
            ProtocolSimple server(ss);
            server.recvMessage(got);
            server.sendMessage(mb);
        });
        ProtocolSimple client(cs);
        client.sendMessage(ma);
        client.recvMessage(answer);
        t.join();
    }
    k.on = false;
    mc::check(got == ma, "the request received is the request sent");
    mc::check(answer == mb, "the answer received is the answer sent");
}
mc::Options topt()
{
    mc::Options o;
    o.preempt[0] = 1;
    o.preempt[1] = 2;
    o.races = false; // the model kernel's calls are atomic
    o.seconds[0] = 20;
    return o;
}
MC_SCENARIO(threads_small, topt()) { threads(3, 2, 1); }
MC_SCENARIO(threads_growth, topt()) { threads(17, 15, 8); }
MC_SCENARIO(threads_empty, topt()) { threads(0, 16, 4); }
} // namespace
#include "main.inc"

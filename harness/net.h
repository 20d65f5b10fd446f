// Raw TCP peers (they bypass the interposed functions) and fault injection on the library's
// own socket calls. The harness executable defines recv/recvmsg/send/sendmsg/accept/getaddrinfo;
// asio, compiled into the same executable, calls these. include once per executable.
#ifndef VH_NET_H
#define VH_NET_H

#include "vh.h"

#include <arpa/inet.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/syscall.h>

namespace net
{

// ---- fault injection knobs (read by the interposers, any thread) ----
struct Faults
{
    std::atomic<uint32_t> recv_max{0};       // 0: off; else each recv returns 1..recv_max bytes
    std::atomic<uint32_t> send_max{0};       // 0: off; else each send takes 1..send_max bytes
    std::atomic<int> accept_errors{0};       // how many of the next accepts fail
    std::atomic<int> accept_errno{EMFILE};
    std::atomic<int> resolve_errors{0};      // how many of the next getaddrinfo calls fail
    std::atomic<int> dead_before{0}, dead_after{0}; // how many refusing addresses getaddrinfo adds around the real ones
    std::atomic<int> sndbuf{0};              // SO_SNDBUF put on every accepted/connected socket
    std::atomic<int> connect_errors{0};
    std::atomic<int> connect_errno{ENETUNREACH};
    std::atomic<int> bind_errors{0};
    std::atomic<int> recv_errors{0};
    std::atomic<int> recv_errno{ECONNRESET};
    std::atomic<int> send_errors{0};
    std::atomic<int> send_errno{EPIPE};
    std::atomic<uint32_t> io_delay{0};       // 0: off; else some socket reads and writes start up to so many microseconds late
    std::atomic<uint32_t> send_again{0};     // in 256: how often a write is put off, so that the I/O threads do it (outside of any strand)
    std::atomic<uint32_t> handler_delay{0};  // 0: off; else some posted actions and timers start up to so many microseconds late
    std::atomic<uint32_t> resolve_delay{0};  // every getaddrinfo takes up to so many microseconds
    std::atomic<uint64_t> rng{88172645463325252ull};
    // what was injected
    std::atomic<uint64_t> n_short_recv{0}, n_short_send{0}, n_accept_fail{0}, n_resolve_fail{0}, n_resolve{0}, n_connect_fail{0},
        n_bind_fail{0}, n_recv_fail{0}, n_send_fail{0}, n_delays{0}, n_send_again{0}, n_dead{0};
};
inline Faults& faults()
{
    static Faults* f = new Faults;
    return *f;
}
inline uint64_t fault_rng()
{
    uint64_t x = faults().rng.fetch_add(0x9E3779B97F4A7C15ull, std::memory_order_relaxed);
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline bool take_one(std::atomic<int>& budget)
{
    int v = budget.load();
    while(v > 0)
        if(budget.compare_exchange_weak(v, v - 1)) return true;
    return false;
}

// ---- addresses: every process has its own loopback address, so fixed ports never collide ----
inline std::string own_host()
{
    static const std::string host = [] {
        unsigned p = (unsigned)getpid();
        char b[32];
        snprintf(b, sizeof b, "127.%u.%u.%u", 1 + ((p >> 16) % 250), (p >> 8) & 0xff, 2 + (p & 0x7f) + ((p & 0x80) ? 0 : 0));
        return std::string(b);
    }();
    return host;
}
inline uint16_t next_port()
{
    // pids that share an address get disjoint port ranges
    static std::atomic<uint32_t> n{0};
    uint32_t base = ((unsigned)getpid() & 0x80) ? 10000 : 21000;
    return (uint16_t)(base + (n++ % 10000));
}

inline sockaddr_in addr(const std::string& host, uint16_t port)
{
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    inet_pton(AF_INET, host.c_str(), &a.sin_addr);
    return a;
}

// ---- raw peer ----
class Sock
{
public:
    Sock() = default;
    explicit Sock(int f) : fd(f) {}
    Sock(Sock&& o) noexcept : fd(o.fd), in(std::move(o.in)), eof(o.eof), err(o.err) { o.fd = -1; }
    Sock& operator=(Sock&& o) noexcept
    {
        close();
        fd = o.fd; in = std::move(o.in); eof = o.eof; err = o.err;
        o.fd = -1;
        return *this;
    }
    ~Sock() { close(); }
    void close()
    {
        if(fd >= 0) ::close(fd);
        fd = -1;
    }
    void reset_close() // RST instead of FIN
    {
        if(fd < 0) return;
        linger l{1, 0};
        setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
        close();
    }
    bool ok() const { return fd >= 0; }
    bool write(const uint8_t* p, size_t n)
    {
        while(n)
        {
            ssize_t r = syscall(SYS_sendto, fd, p, n, MSG_NOSIGNAL, nullptr, 0);
            if(r < 0)
            {
                if(errno == EINTR) continue;
                return false;
            }
            p += r;
            n -= (size_t)r;
        }
        return true;
    }
    bool write(const std::vector<uint8_t>& v) { return write(v.data(), v.size()); }
    void half_close() { ::shutdown(fd, SHUT_WR); }
    // Waits up to seconds for more input; false on timeout or when the stream ended.
    bool fill(double seconds)
    {
        if(eof || err || fd < 0) return false;
        pollfd p{fd, POLLIN, 0};
        int r;
        do r = ::poll(&p, 1, (int)(seconds * 1000));
        while(r < 0 && errno == EINTR);
        if(r <= 0) return false;
        uint8_t buf[65536];
        ssize_t n = syscall(SYS_recvfrom, fd, buf, sizeof buf, 0, nullptr, nullptr);
        if(n == 0) { eof = true; return false; }
        if(n < 0) { err = true; return false; }
        in.insert(in.end(), buf, buf + n);
        return true;
    }
    // One ADU by its own framing. False when none arrived in time.
    bool adu(std::vector<uint8_t>& out, double seconds = vh::WATCHDOG_S)
    {
        auto end = vh::Clock::now() + std::chrono::microseconds((int64_t)(seconds * 1e6));
        while(true)
        {
            if(in.size() >= 6)
            {
                size_t len = ((size_t)in[4] << 8) | in[5];
                if(in.size() >= 6 + len)
                {
                    out.assign(in.begin(), in.begin() + 6 + len);
                    in.erase(in.begin(), in.begin() + 6 + len);
                    return true;
                }
            }
            double left = std::chrono::duration<double>(end - vh::Clock::now()).count();
            if(left <= 0 || eof || err) return false;
            fill(left < 0.001 ? 0.001 : left);
        }
    }
    bool bytes(std::vector<uint8_t>& out, size_t n, double seconds = vh::WATCHDOG_S)
    {
        auto end = vh::Clock::now() + std::chrono::microseconds((int64_t)(seconds * 1e6));
        while(in.size() < n)
        {
            double left = std::chrono::duration<double>(end - vh::Clock::now()).count();
            if(left <= 0 || eof || err) return false;
            fill(left < 0.001 ? 0.001 : left);
        }
        out.assign(in.begin(), in.begin() + n);
        in.erase(in.begin(), in.begin() + n);
        return true;
    }
    // Does the stream end (FIN or RST) within the time?
    bool wait_end(double seconds = vh::WATCHDOG_S)
    {
        auto end = vh::Clock::now() + std::chrono::microseconds((int64_t)(seconds * 1e6));
        while(!eof && !err)
        {
            double left = std::chrono::duration<double>(end - vh::Clock::now()).count();
            if(left <= 0) return false;
            fill(left < 0.001 ? 0.001 : left);
        }
        return true;
    }
    // The same where the listener may just have been closed: the kernel can then drop a connection which is
    // still in its backlog without telling its peer, who learns it when it sends something.
    bool wait_gone(double seconds = vh::WATCHDOG_S)
    {
        if(wait_end(3)) return true;
        auto end = vh::Clock::now() + std::chrono::microseconds((int64_t)(seconds * 1e6));
        while(vh::Clock::now() < end)
        {
            if(!write(std::vector<uint8_t>{0}) || wait_end(0.5)) return true;
        }
        return false;
    }
    bool ended() const { return eof || err; }
    // Anything readable right now?
    bool quiet(double seconds = 0) { return in.empty() && !fill(seconds); }

    int fd = -1;
    std::vector<uint8_t> in;
    bool eof = false, err = false;
};

inline Sock connect_to(const std::string& host, uint16_t port, int rcvbuf = 0, int attempts = 1)
{
    while(true)
    {
        int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        if(fd < 0) vh::harness_error("socket: " + std::string(strerror(errno)));
        if(rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
        int one = 1;
        setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        auto a = addr(host, port);
        if(syscall(SYS_connect, fd, &a, sizeof a) == 0) return Sock(fd);
        ::close(fd);
        if(--attempts <= 0) return Sock();
        std::this_thread::sleep_for(std::chrono::milliseconds(5));
    }
}

class Listener
{
public:
    Listener() = default;
    Listener(const std::string& host, uint16_t port, int rcvbuf = 0) { open(host, port, rcvbuf); }
    ~Listener() { close(); }
    bool open(const std::string& host, uint16_t port, int rcvbuf = 0)
    {
        fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        int one = 1;
        setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        if(rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
        auto a = addr(host, port);
        if(syscall(SYS_bind, fd, &a, sizeof a) != 0 || ::listen(fd, 64) != 0)
            vh::harness_error("listen " + host + ":" + std::to_string(port) + ": " + strerror(errno));
        return true;
    }
    void close()
    {
        if(fd >= 0) ::close(fd);
        fd = -1;
    }
    Sock accept(double seconds = vh::WATCHDOG_S, sockaddr_in* from = nullptr)
    {
        pollfd p{fd, POLLIN, 0};
        int r;
        do r = ::poll(&p, 1, (int)(seconds * 1000));
        while(r < 0 && errno == EINTR);
        if(r <= 0) return Sock();
        sockaddr_in a{};
        socklen_t l = sizeof a;
        int c = (int)syscall(SYS_accept4, fd, &a, &l, SOCK_CLOEXEC);
        if(c < 0) return Sock();
        int one = 1;
        setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        if(from) *from = a;
        return Sock(c);
    }
    bool pending()
    {
        pollfd p{fd, POLLIN, 0};
        return ::poll(&p, 1, 0) > 0;
    }
    int fd = -1;
};

inline size_t open_fds()
{
    size_t n = 0;
    DIR* d = opendir("/proc/self/fd");
    if(!d) return 0;
    while(readdir(d)) ++n;
    closedir(d);
    return n;
}

} // namespace net

// ---- interposed functions ----
#ifdef VH_INTERPOSE
extern "C" {

// The next definition: the sanitizer's interceptor where there is one, else libc's.
#define VH_WEAK(name) __attribute__((weak)) decltype(::name) __interceptor_##name
VH_WEAK(epoll_ctl);
VH_WEAK(recv);
VH_WEAK(recvmsg);
VH_WEAK(send);
VH_WEAK(sendmsg);
VH_WEAK(accept);
VH_WEAK(connect);
VH_WEAK(bind);
VH_WEAK(getaddrinfo);
#define VH_NEXT(name) (__interceptor_##name ? &__interceptor_##name : reinterpret_cast<decltype(&::name)>(dlsym(RTLD_NEXT, #name)))
#define VH_REAL(name) static decltype(&::name) real = VH_NEXT(name)

// A short read or write normally tells asio that the socket is drained or full, after which it waits
// for the next edge from epoll. When the shortness is injected that edge has to be made up for.
static std::mutex vh_ep_mutex;
static std::map<int, std::pair<int, epoll_event>> vh_ep;

__attribute__((visibility("default"))) int epoll_ctl(int ep, int op, int fd, epoll_event* ev) noexcept
{
    VH_REAL(epoll_ctl);
    {
        std::lock_guard<std::mutex> l(vh_ep_mutex);
        if(op == EPOLL_CTL_DEL) vh_ep.erase(fd);
        else if(ev) vh_ep[fd] = {ep, *ev};
    }
    return real(ep, op, fd, ev);
}

static void vh_delay()
{
    uint32_t m = net::faults().io_delay.load(std::memory_order_relaxed);
    if(!m) return;
    uint64_t x = net::fault_rng();
    if(x % 8) return;
    ++net::faults().n_delays;
    std::this_thread::sleep_for(std::chrono::microseconds((x >> 8) % m));
}

static void vh_rearm(int fd);
static bool vh_again(int fd)
{
    uint32_t m = net::faults().send_again.load(std::memory_order_relaxed);
    if(!m || net::fault_rng() % 256 >= m) return false;
    {
        std::lock_guard<std::mutex> l(vh_ep_mutex);
        if(!vh_ep.count(fd)) return false;
    }
    ++net::faults().n_send_again;
    vh_rearm(fd);
    errno = EAGAIN;
    return true;
}

static void vh_rearm(int fd)
{
    int keep = errno;
    std::lock_guard<std::mutex> l(vh_ep_mutex);
    auto it = vh_ep.find(fd);
    if(it != vh_ep.end())
    {
        VH_REAL(epoll_ctl);
        real(it->second.first, EPOLL_CTL_MOD, fd, &it->second.second);
    }
    errno = keep;
}

__attribute__((visibility("default"))) ssize_t recv(int fd, void* buf, size_t len, int flags)
{
    VH_REAL(recv);
    vh_delay();
    if(net::take_one(net::faults().recv_errors))
    {
        ++net::faults().n_recv_fail;
        errno = net::faults().recv_errno;
        return -1;
    }
    uint32_t m = net::faults().recv_max.load(std::memory_order_relaxed);
    if(m && len > 1)
    {
        size_t want = 1 + net::fault_rng() % m;
        if(want < len)
        {
            ++net::faults().n_short_recv;
            auto n = real(fd, buf, want, flags);
            vh_rearm(fd);
            return n;
        }
    }
    return real(fd, buf, len, flags);
}

static ssize_t vh_cap_msg(msghdr* copy, iovec* iov, const msghdr* msg, uint32_t max)
{
    *copy = *msg;
    size_t left = 1 + net::fault_rng() % max, i = 0;
    for(; i < msg->msg_iovlen && i < 64 && left; ++i)
    {
        iov[i] = msg->msg_iov[i];
        if(iov[i].iov_len > left) iov[i].iov_len = left;
        left -= iov[i].iov_len;
    }
    copy->msg_iov = iov;
    copy->msg_iovlen = i;
    return 0;
}

__attribute__((visibility("default"))) ssize_t recvmsg(int fd, msghdr* msg, int flags)
{
    VH_REAL(recvmsg);
    vh_delay();
    if(net::take_one(net::faults().recv_errors))
    {
        ++net::faults().n_recv_fail;
        errno = net::faults().recv_errno;
        return -1;
    }
    uint32_t m = net::faults().recv_max.load(std::memory_order_relaxed);
    if(m)
    {
        msghdr copy;
        iovec iov[64];
        vh_cap_msg(&copy, iov, msg, m);
        ++net::faults().n_short_recv;
        auto n = real(fd, &copy, flags);
        vh_rearm(fd);
        return n;
    }
    return real(fd, msg, flags);
}

__attribute__((visibility("default"))) ssize_t send(int fd, const void* buf, size_t len, int flags)
{
    VH_REAL(send);
    if(vh_again(fd)) return -1;
    vh_delay();
    if(net::take_one(net::faults().send_errors))
    {
        ++net::faults().n_send_fail;
        errno = net::faults().send_errno;
        return -1;
    }
    uint32_t m = net::faults().send_max.load(std::memory_order_relaxed);
    if(m && len > 1)
    {
        size_t want = 1 + net::fault_rng() % m;
        if(want < len)
        {
            ++net::faults().n_short_send;
            auto n = real(fd, buf, want, flags);
            vh_rearm(fd);
            return n;
        }
    }
    return real(fd, buf, len, flags);
}

__attribute__((visibility("default"))) ssize_t sendmsg(int fd, const msghdr* msg, int flags)
{
    VH_REAL(sendmsg);
    if(vh_again(fd)) return -1;
    vh_delay();
    if(net::take_one(net::faults().send_errors))
    {
        ++net::faults().n_send_fail;
        errno = net::faults().send_errno;
        return -1;
    }
    uint32_t m = net::faults().send_max.load(std::memory_order_relaxed);
    if(m)
    {
        msghdr copy;
        iovec iov[64];
        vh_cap_msg(&copy, iov, msg, m);
        ++net::faults().n_short_send;
        auto n = real(fd, &copy, flags);
        vh_rearm(fd);
        return n;
    }
    return real(fd, msg, flags);
}

// Injected short writes would otherwise wait for delayed acknowledgements (Nagle's algorithm).
static void vh_no_delay(int fd)
{
    int one = 1, keep = errno;
    if(fd >= 0) setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    errno = keep;
}

__attribute__((visibility("default"))) int accept(int fd, sockaddr* a, socklen_t* l)
{
    VH_REAL(accept);
    if(net::faults().accept_errors.load() > 0)
    {
        pollfd p{fd, POLLIN, 0};
        // only a connection that is really there can fail to be accepted
        if(::poll(&p, 1, 0) > 0 && net::take_one(net::faults().accept_errors))
        {
            ++net::faults().n_accept_fail;
            int err = net::faults().accept_errno;
            if(err == ECONNABORTED || err == EPROTO)
            {
                // the connection is gone from the queue, and asio waits for another one
                int gone = real(fd, a, l);
                if(gone >= 0) syscall(SYS_close, gone);
                vh_rearm(fd);
            }
            errno = err;
            return -1;
        }
    }
    int c = real(fd, a, l);
    int sb = net::faults().sndbuf.load();
    if(c >= 0 && sb) setsockopt(c, SOL_SOCKET, SO_SNDBUF, &sb, sizeof sb);
    vh_no_delay(c);
    return c;
}

__attribute__((visibility("default"))) int connect(int fd, const sockaddr* a, socklen_t l)
{
    VH_REAL(connect);
    int sb = net::faults().sndbuf.load();
    if(sb) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &sb, sizeof sb);
    vh_no_delay(fd);
    if(net::take_one(net::faults().connect_errors))
    {
        ++net::faults().n_connect_fail;
        errno = net::faults().connect_errno;
        return -1;
    }
    return real(fd, a, l);
}

__attribute__((visibility("default"))) int bind(int fd, const sockaddr* a, socklen_t l) noexcept
{
    VH_REAL(bind);
    if(net::take_one(net::faults().bind_errors))
    {
        ++net::faults().n_bind_fail;
        errno = EADDRNOTAVAIL;
        return -1;
    }
    return real(fd, a, l);
}

// An address of this host which refuses connections: a port taken by a socket which does not listen.
// Laid out as glibc does, whose freeaddrinfo frees it.
static addrinfo* vh_dead_address(const addrinfo& like)
{
    static const sockaddr_in dead = [] {
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        int fd = ::socket(AF_INET, SOCK_STREAM, 0);
        socklen_t n = sizeof a;
        if(syscall(SYS_bind, fd, &a, n) || ::getsockname(fd, (sockaddr*)&a, &n)) abort();
        return a;
    }();
    ++net::faults().n_dead;
    auto p = (addrinfo*)calloc(1, sizeof(addrinfo) + sizeof dead);
    p->ai_family = AF_INET;
    p->ai_socktype = like.ai_socktype;
    p->ai_protocol = like.ai_protocol;
    p->ai_addrlen = sizeof dead;
    p->ai_addr = (sockaddr*)(p + 1);
    memcpy(p->ai_addr, &dead, sizeof dead);
    return p;
}

__attribute__((visibility("default"))) int getaddrinfo(const char* node, const char* service, const addrinfo* hints, addrinfo** res)
{
    VH_REAL(getaddrinfo);
    ++net::faults().n_resolve;
    if(uint32_t m = net::faults().resolve_delay) std::this_thread::sleep_for(std::chrono::microseconds(net::fault_rng() % m));
    if(net::take_one(net::faults().resolve_errors))
    {
        ++net::faults().n_resolve_fail;
        return EAI_NONAME;
    }
    // The sandbox may have no interface but the loopback one, which does not count as configured.
    addrinfo h{};
    if(hints) h = *hints;
    h.ai_flags &= ~AI_ADDRCONFIG;
    int e = real(node, service, hints ? &h : nullptr, res);
    if(e || !res || !*res) return e;
    for(int i = net::faults().dead_before; i > 0; --i)
    {
        auto a = vh_dead_address(**res);
        a->ai_next = *res;
        *res = a;
    }
    for(int i = net::faults().dead_after; i > 0; --i)
    {
        auto last = *res;
        while(last->ai_next) last = last->ai_next;
        last->ai_next = vh_dead_address(*last);
    }
    return 0;
}
}

// Called by the stand-in executor before each posted action and timer.
namespace exe4cpp
{
void perturb();
void perturb()
{
    uint32_t m = net::faults().handler_delay.load(std::memory_order_relaxed);
    if(!m) return;
    uint64_t x = net::fault_rng();
    if(x % 8 > 1) return;
    if(x % 8 == 1) { std::this_thread::yield(); return; }
    ++net::faults().n_delays;
    std::this_thread::sleep_for(std::chrono::microseconds((x >> 8) % m));
}
}
#endif

#endif

// Contract model of the operating system (sockets, resolver, epoll, signals) and of mbedtls.
// Interpreted by the analyser together with the library; never executed.
#include "world.h"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <cstdlib>
#include <csignal>
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <unistd.h>
#include <mbedtls/ssl.h>
#include <mbedtls/net_sockets.h>
#include <mbedtls/entropy.h>
#include <mbedtls/ctr_drbg.h>
#include <mbedtls/x509_crt.h>
#include <mbedtls/pk.h>
#undef errno
WFd w_fd[NFD];
int w_next = 3;
int w_events = 0;
const std::string *w_node = nullptr, *w_service = nullptr;
bool w_passive = false, w_reached = false, w_named = false;
int w_family = -1, w_ai_n = 0, w_tried = 0;
long w_wait_s = -1, w_wait_ms = -2;
int w_ai_live = 0;
int w_ai_max = 2;
bool w_sigpipe_ignored = false;
int w_accepts = 0, w_conns = 0;
const char *w_expect = nullptr;
long w_expect_len = 0, w_out_pos = 0;
int w_io_fd = -1;
bool w_plain_forbidden = false;
bool w_verify = true;
const void *w_ca = nullptr, *w_rng = nullptr;
const std::string *w_host = nullptr;
bool w_own_cert_checked = false;
bool w_tls_server = false;
const void *w_cert_parsed = nullptr, *w_key_parsed = nullptr;
const std::string *w_ca_text = nullptr, *w_ca_file = nullptr;
bool w_ca_pem = false;
int w_parsed = 0, w_parses = 0;
const std::string *w_cert_file = nullptr, *w_key_file = nullptr;
const void *w_tls_cert = nullptr, *w_tls_key = nullptr;
int w_handshakes = 0;
bool w_verify_dirty = false;
long w_tls_in = 0;
bool w_tls_fail = true;
bool w_io_errors = true;
int w_eagain = 0;
int w_last = 0;
bool w_last_wait_failed = false;
static int w_errno = 0;
static addrinfo *w_ai_head = nullptr;

extern "C" int *__errno_location() noexcept { return &w_errno; }
static int fail(int e) { w_errno = e; return -1; }
static int fail_other()
{
    long e = vf_int(1, 133);
    vf_assume(e != EAGAIN);
    vf_assume(e != EINTR);
    vf_assume(e != EINPROGRESS);
    w_errno = (int)e;
    return -1;
}
// fails with any error but the ones given
static int fail_not(int a, int b)
{
    long e = vf_int(1, 133);
    vf_assume(e != a);
    vf_assume(e != b);
    w_errno = (int)e;
    return -1;
}
static int fail_any() { return fail_not(0, 0); }
int w_open_count()
{
    return (w_fd[0].open ? 1 : 0) + (w_fd[3].open ? 1 : 0) + (w_fd[4].open ? 1 : 0) + (w_fd[5].open ? 1 : 0) + (w_fd[6].open ? 1 : 0) + (w_fd[7].open ? 1 : 0) + (w_fd[8].open ? 1 : 0)
        + (w_fd[9].open ? 1 : 0) + (w_fd[10].open ? 1 : 0) + (w_fd[11].open ? 1 : 0) + (w_fd[12].open ? 1 : 0);
}
void w_check_released(const char *rule)
{
    vf_assert(!w_fd[0].open && !w_fd[3].open && !w_fd[4].open && !w_fd[5].open && !w_fd[6].open && !w_fd[7].open && !w_fd[8].open && !w_fd[9].open && !w_fd[10].open && !w_fd[11].open && !w_fd[12].open,
              rule, "a descriptor the library opened or took over is never closed");
    vf_assert(w_ai_live == 0, rule, "a resolver list is never freed");
}
static bool valid(int fd) { return fd >= 0 && fd < NFD && w_fd[fd].open; }
static void same_text(const char *p, const std::string *want, const char *rule, const char *msg)
{
    std::string t(p);
    vf_same_str(&t, want, rule, msg);
}
static bool decided = true;   // the connection attempt in progress has an outcome
static int new_fd(int kind)
{
    int fd = w_next;
    if(fd >= 13 && (fd < 1024 || fd >= NFD)) vf_stop();
    w_next = fd == 0 ? 3 : fd + 1;
    WFd *f = &w_fd[fd];
    f->open = true; f->kind = kind; f->nonblock = false; f->conn = false; f->pending = false; f->bound = false; f->listening = false;
    f->out_broken = false; f->nodelay = false; f->rtv = -1; f->wtv = -1; f->in_pos = 0; f->reg = false; f->regdata = nullptr; f->shut = false;
    return fd;
}
static bool use(int fd, const char *what)
{
    // using a number that is not an open descriptor of ours: EBADF, or somebody else's file
    vf_assert(fd < 0 || valid(fd), "C07", what);
    return fd >= 0;
}
extern "C" {
int socket(int family, int type, int) noexcept
{
    if(w_ai_head)
    {
        addrinfo *a = w_ai_head;
        for(int i = 0; i < w_tried && a; ++i) a = a->ai_next;
        vf_assert(a != nullptr && family == a->ai_family && (type & 15) == SOCK_STREAM, "C51", "the socket is not of the kind of the address it is opened for");
        ++w_tried;
    }
    if(!vf_bool()) { vf_note("socket() fails"); return fail_any(); }
    return new_fd(1);
}
int close(int fd)
{
    if(fd < 0) return fail(EBADF);
    vf_assert(valid(fd), "C07", "close() of a descriptor that is already closed or was never owned");
    w_fd[fd].open = false; w_fd[fd].conn = false; w_fd[fd].reg = false; w_fd[fd].listening = false; w_fd[fd].bound = false;
    return 0;
}
int shutdown(int fd, int) noexcept
{
    if(!use(fd, "shutdown() of a closed descriptor")) return fail(EBADF);
    w_fd[fd].shut = true;
    return 0;
}
static void check_addr(const sockaddr *addr, socklen_t n)
{
    if(!w_ai_head) return;
    addrinfo *a = w_ai_head;
    for(int i = 1; i < w_tried && a; ++i) a = a->ai_next;
    vf_assert(a != nullptr && addr == a->ai_addr && n == a->ai_addrlen, "C51", "another address is used than the one the socket was opened for");
}
int connect(int fd, const sockaddr *addr, socklen_t alen)
{
    if(!use(fd, "connect() on a closed descriptor")) return fail(EBADF);
    check_addr(addr, alen);
    int o = vf_choice(w_fd[fd].nonblock ? 3 : 2);
    if(o == 0) { vf_note("connect() succeeds at once"); w_fd[fd].conn = true; w_reached = true; return 0; }
    if(o == 1) { vf_note("connect() fails"); return fail_other(); }
    vf_note("connect() is in progress");
    decided = false;
    w_fd[fd].pending = true;
    return fail(EINPROGRESS);
}
// ms < 0: forever
static void check_wait(long ms)
{
    if(w_wait_s < 0) return;
    long want = w_wait_s * 1000;
    vf_assert(w_wait_s == 0 ? ms > 0 : ms == want || (want > 0x7fffffffL && (ms < 0 || ms >= 0x7ffffc18L)), "C50", "a connection attempt does not wait as long as the timeout says");
}
int select(int, fd_set *, fd_set *, fd_set *, timeval *tv)
{
    check_wait(tv ? tv->tv_sec * 1000 + tv->tv_usec / 1000 : -1);
    int o = vf_choice(3);
    if(o == 0) { vf_note("select() times out"); return 0; }
    if(o == 1) { vf_note("select() fails"); return fail_any(); }
    decided = true;
    return 1;
}
int poll(pollfd *p, nfds_t n, int ms)
{
    check_wait(ms);
    int o = vf_choice(3);
    if(o == 0) { vf_note("poll() times out"); return 0; }
    if(o == 1) { vf_note("poll() fails"); return fail_any(); }
    for(nfds_t i = 0; i < n; ++i) p[i].revents = (short)vf_int(0, 63);
    decided = true;
    return 1;
}
int getsockopt(int fd, int level, int name, void *val, socklen_t *) noexcept
{
    if(!use(fd, "getsockopt() on a closed descriptor")) return fail(EBADF);
    if(!vf_bool()) { vf_note("getsockopt() fails"); return fail_other(); }
    if(level == SOL_SOCKET && name == SO_ERROR)
    {
        if(w_fd[fd].pending && !decided) { vf_note("SO_ERROR: still in progress"); *(int *)val = 0; return 0; }
        if(vf_bool()) { vf_note("SO_ERROR: connected"); *(int *)val = 0; if(w_fd[fd].pending) { w_fd[fd].conn = true; w_fd[fd].pending = false; w_reached = true; } }
        else { vf_note("SO_ERROR: connection failed"); long e = vf_int(1, 133); *(int *)val = (int)e; w_fd[fd].pending = false; }
    }
    else *(int *)val = (int)vf_int(-0x80000000L, 0x7fffffffL);
    return 0;
}
int setsockopt(int fd, int level, int name, const void *val, socklen_t) noexcept
{
    if(!use(fd, "setsockopt() on a closed descriptor")) return fail(EBADF);
    WFd *f = &w_fd[fd];
    if(level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO))
    {
        const timeval *tv = (const timeval *)val;
        long ms = tv->tv_sec * 1000 + tv->tv_usec / 1000;
        if(name == SO_RCVTIMEO) f->rtv = ms; else f->wtv = ms;
        return (int)vf_int(-1, 0);
    }
    if(level == SOL_TCP && name == TCP_NODELAY) { f->nodelay = *(const int *)val != 0; return (int)vf_int(-1, 0); }
    if(level == SOL_SOCKET)
    {
        if(!vf_bool()) { vf_note("setsockopt() fails"); return fail_other(); }
        return 0;
    }
    return (int)vf_int(-1, 0);
}
int fcntl(int fd, int cmd, ...)
{
    long arg = vf_vararg(0);
    if(!use(fd, "fcntl() on a closed descriptor")) return fail(EBADF);
    if(cmd == F_GETFL)
    {
        if(!vf_bool()) { vf_note("fcntl(F_GETFL) fails"); return fail_other(); }
        return w_fd[fd].nonblock ? (O_RDWR | O_NONBLOCK) : O_RDWR;
    }
    if(cmd == F_SETFL)
    {
        if(!vf_bool()) { vf_note("fcntl(F_SETFL) fails"); return fail_other(); }
        w_fd[fd].nonblock = (arg & O_NONBLOCK) != 0;
        return 0;
    }
    return (int)vf_int(-1, 0);
}
int ioctl(int fd, unsigned long req, ...) noexcept
{
    int *arg = (int *)vf_vararg(0);
    if(!use(fd, "ioctl() on a closed descriptor")) return fail(EBADF);
    if(req == FIONBIO)
    {
        if(!vf_bool()) { vf_note("ioctl(FIONBIO) fails"); return fail_other(); }
        w_fd[fd].nonblock = *arg != 0;
        return 0;
    }
    return (int)vf_int(-1, 0);
}
int getaddrinfo(const char *node, const char *service, const addrinfo *hints, addrinfo **out)
{
    w_ai_n = 0; w_tried = 0; w_reached = false;
    if(w_node)
    {
        vf_assert(node != nullptr, "C51", "the resolver is not asked for the host");
        same_text(node, w_node, "C51", "the resolver is asked for another host");
    }
    if(w_passive) vf_assert(node == nullptr && hints && (hints->ai_flags & AI_PASSIVE), "C51", "the listener does not ask for the wildcard address");
    if(w_service)
    {
        vf_assert(service != nullptr, "C51", "the resolver is not asked for the port");
        same_text(service, w_service, "C51", "the resolver is asked for another port");
    }
    if(w_family != -1) vf_assert(hints ? hints->ai_family == w_family : w_family == AF_UNSPEC, "C51", "the resolver is asked for another address family than the one chosen");
    if(w_service) vf_assert(hints && hints->ai_socktype == SOCK_STREAM, "C51", "the resolver is not asked for stream sockets");
    if(w_node) vf_assert(!(hints && (hints->ai_flags & AI_NUMERICHOST)), "C51", "the resolver is told not to look up the host");
    if(w_service) vf_assert(!(hints && (hints->ai_flags & AI_NUMERICSERV)), "C51", "the resolver is told not to look up the port");
    int n = vf_choice(w_ai_max + 1);
    if(n == 0) { vf_note("getaddrinfo() fails"); return (int)vf_int(-12, -1); }
    vf_notev("getaddrinfo() entries", n);
    w_ai_n = n;
    addrinfo *head = nullptr;
    for(int i = 0; i < n; ++i)
    {
        addrinfo *a = (addrinfo *)malloc(sizeof(addrinfo));
        a->ai_flags = 0;
        a->ai_family = i == 0 ? AF_INET : AF_INET6;
        a->ai_socktype = SOCK_STREAM;
        a->ai_protocol = 6;
        a->ai_addrlen = i == 0 ? sizeof(sockaddr_in) : sizeof(sockaddr_in6);
        a->ai_addr = (sockaddr *)&a->ai_flags;
        a->ai_canonname = nullptr;
        a->ai_next = head;
        head = a;
    }
    ++w_ai_live;
    w_ai_head = head;
    *out = head;
    return 0;
}
void freeaddrinfo(addrinfo *a) noexcept
{
    vf_assert(w_ai_live > 0 && a == w_ai_head, "C07", "freeaddrinfo() of something that is not the list to be freed");
    --w_ai_live;
    w_ai_head = nullptr;
    while(a) { addrinfo *n = a->ai_next; free(a); a = n; }
}
int bind(int fd, const sockaddr *addr, socklen_t alen) noexcept
{
    if(!use(fd, "bind() on a closed descriptor")) return fail(EBADF);
    check_addr(addr, alen);
    if(!vf_bool()) { vf_note("bind() fails"); return fail_any(); }
    w_fd[fd].bound = true;
    w_reached = true;
    return 0;
}
int listen(int fd, int) noexcept
{
    if(!use(fd, "listen() on a closed descriptor")) return fail(EBADF);
    if(!vf_bool()) { vf_note("listen() fails"); return fail_any(); }
    if(w_fd[fd].bound) w_fd[fd].listening = true;
    return 0;
}
static int peer_len = 0;   // length of the peer address handed out last
static bool peer_cut = false;   // the library had no room for all of it
static void put_addr(sockaddr *a, socklen_t *len)
{
    peer_len = 0;
    if(!a) return;
    bool v4 = vf_bool();
    int n = v4 ? (int)sizeof(sockaddr_in) : (int)sizeof(sockaddr_in6);
    int room = (int)*len;
    vf_fill(a, room < n ? room : n);
    if(room >= 2) a->sa_family = v4 ? AF_INET : AF_INET6;
    *len = n;
    peer_len = n;
    peer_cut = room < n;
}
int accept(int fd, sockaddr *a, socklen_t *len)
{
    if(!use(fd, "accept() on a closed descriptor")) return fail(EBADF);
    int o = vf_choice(4);
    if(o == 1) { vf_note("accept(): EAGAIN"); return fail(EAGAIN); }
    if(o == 2) { vf_note("accept(): EINTR"); return fail(EINTR); }
    if(o == 3) { vf_note("accept() fails"); return fail_other(); }
    int n = new_fd(1);
    w_fd[n].conn = true;
    ++w_accepts;
    put_addr(a, len);
    return n;
}
int accept4(int fd, sockaddr *a, socklen_t *len, int flags)
{
    int n = accept(fd, a, len);
    if(n >= 0 && (flags & SOCK_NONBLOCK)) w_fd[n].nonblock = true;
    return n;
}
static void put_name(char *host, socklen_t n)
{
    if(n > 40) { host[39] = 0; vf_fill(host, 39); } // 39 characters: the longest IPv6 address
    else host[n - 1] = 0;
    if(n > 9) memcpy(host, "192.0.2.1", 10);
    else host[0] = 0;
}
int getnameinfo(const sockaddr *a, socklen_t alen, char *host, socklen_t n, char *, socklen_t, int flags)
{
    w_named = false;
    if(a && peer_len > 0)
    {
        vf_assert((int)alen >= peer_len && !peer_cut && ((const char *)a)[1] == ((const char *)a)[1], "C51", "the system is asked for the name of a part of the peer's address");
        if((int)alen < peer_len) return -6;
    }
    if(!vf_bool()) { vf_note("getnameinfo() fails"); return (int)vf_int(-12, -1); }
    w_named = true;
    if(host && n)
    {
        put_name(host, n);
        if(!(flags & NI_NUMERICHOST) && n > 12) memcpy(host, "a.host.name", 12);
    }
    return 0;
}
const char *inet_ntop(int, const void *, char *dst, socklen_t n) noexcept
{
    if(!vf_bool()) { fail_other(); return nullptr; }
    put_name(dst, n);
    return dst;
}
int getpeername(int fd, sockaddr *a, socklen_t *len) noexcept
{
    if(!use(fd, "getpeername() on a closed descriptor")) return fail(EBADF);
    if(!vf_bool()) { vf_note("getpeername() fails"); return fail_other(); }
    put_addr(a, len);
    return 0;
}
int getsockname(int fd, sockaddr *a, socklen_t *len) noexcept { return getpeername(fd, a, len); }
unsigned sleep(unsigned) { return 0; }

// ---------------------------------------------------------------- plain I/O
ssize_t recv(int fd, void *buf, size_t n, int flags)
{
    vf_assert(!w_plain_forbidden, "C10", "application data is read from the descriptor without TLS");
    if(!use(fd, "recv() on a closed descriptor")) { w_last = 3; return fail(EBADF); }
    if(n == 0) { w_last = 1; return 0; }
    int o = vf_choice(5);
    if(o == 1) { vf_note("recv(): end of stream"); w_last = 1; return 0; }
    if(o == 2) { vf_note("recv(): EAGAIN"); w_last = 2; return fail(EAGAIN); }
    if(o == 3) { vf_note("recv(): EINTR"); w_last = 4; return fail(EINTR); }
    if(o == 4) { vf_note("recv(): error"); w_last = 3; return fail_other(); }
    long k = vf_int(1, 1L << 40);
    vf_assume(k <= (long)n);
    vf_copy_stream(buf, 10 + fd, w_fd[fd].in_pos, k);
    if(!(flags & MSG_PEEK)) w_fd[fd].in_pos += k;
    w_last = 0;
    return k;
}
ssize_t read(int fd, void *buf, size_t n) { return recv(fd, buf, n, 0); }
static void deliver(const void *buf, long n, long k)
{
    if(w_expect)
    {
        vf_assert(w_out_pos + n <= w_expect_len, "C05", "more bytes are offered to the transport than the message has left");
        vf_same_bytes(buf, w_expect + w_out_pos, n, "C05", "the bytes offered to the transport are not the next bytes of the message");
    }
    w_out_pos += k;
}
static void sigpipe(bool nosignal)
{
    vf_assert(nosignal || w_sigpipe_ignored, "C19", "writing to a connection closed by the peer raises SIGPIPE, which nobody handles");
}
ssize_t send(int fd, const void *buf, size_t n, int flags)
{
    vf_assert(!w_plain_forbidden, "C10", "application data is written to the descriptor without TLS");
    if(!use(fd, "send() on a closed descriptor")) { w_last = 3; return fail(EBADF); }
    sigpipe((flags & MSG_NOSIGNAL) != 0);
    if(n == 0) { w_last = 0; return 0; }
    int o = vf_choice(4);
    if(o == 1) { vf_note("send(): EAGAIN"); deliver(buf, (long)n, 0); w_last = 2; return fail(EAGAIN); }
    if(o == 2) { vf_note("send(): EINTR"); deliver(buf, (long)n, 0); w_last = 4; return fail(EINTR); }
    if(o == 3) { vf_note("send(): error"); deliver(buf, (long)n, 0); w_last = 3; return fail_other(); }
    long k = vf_int(1, 1L << 40);
    vf_assume(k <= (long)n);
    deliver(buf, (long)n, k);
    w_last = 0;
    return k;
}
ssize_t write(int fd, const void *buf, size_t n) { return send(fd, buf, n, 0); }

// ---------------------------------------------------------------- signals
sighandler_t signal(int sig, sighandler_t h) noexcept
{
    if(sig == SIGPIPE) w_sigpipe_ignored = h != SIG_DFL;
    return SIG_DFL;
}
int sigaction(int sig, const struct sigaction *a, struct sigaction *) noexcept
{
    if(sig == SIGPIPE && a) w_sigpipe_ignored = a->sa_handler != SIG_DFL;
    return 0;
}

// ---------------------------------------------------------------- epoll
int epoll_create1(int) noexcept
{
    if(!vf_bool()) { vf_note("epoll_create fails"); return fail_any(); }
    return new_fd(2);
}
int epoll_create(int) noexcept { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, epoll_event *ev) noexcept
{
    use(ep, "epoll_ctl() on a closed epoll descriptor");
    if(op == EPOLL_CTL_ADD)
    {
        if(!valid(fd)) return fail(EBADF);
        if(w_fd[fd].reg) return fail(EEXIST);
        if(!vf_bool()) { vf_note("epoll_ctl(ADD) fails"); return fail_not(EEXIST, EBADF); }
        w_fd[fd].reg = true;
        w_fd[fd].regdata = ev->data.ptr;
        return 0;
    }
    if(op == EPOLL_CTL_MOD)
    {
        if(!valid(fd)) return fail(EBADF);
        if(!w_fd[fd].reg) return fail(ENOENT);
        w_fd[fd].regdata = ev->data.ptr;
        return 0;
    }
    if(op == EPOLL_CTL_DEL)
    {
        if(!valid(fd)) return fail(EBADF);
        if(!w_fd[fd].reg) return fail(ENOENT);
        w_fd[fd].reg = false;
        return 0;
    }
    return fail(EINVAL);
}
static void ev_one(int fd, epoll_event *ev, int &n, int max)
{
    if(w_fd[fd].open && w_fd[fd].reg && n < max && vf_bool())
    {
        ev[n].events = (uint32_t)vf_int(1, 0xffff);
        ev[n].data.ptr = w_fd[fd].regdata;
        ++n;
    }
}
int epoll_wait(int ep, epoll_event *ev, int max, int ms)
{
    if(w_wait_ms != -2) vf_assert(w_wait_ms < 0 ? ms < 0 : ms == w_wait_ms || (w_wait_ms > 0x7fffffffL && (ms < 0 || ms >= 0x7ffffc18L)), "C50", "waiting does not last as long as the timeout says");
    use(ep, "epoll_wait() on a closed epoll descriptor");
    int o = vf_choice(4);
    w_last_wait_failed = false;
    w_events = 0;
    if(o == 0) { vf_note("epoll_wait times out"); return 0; }
    if(o == 1) { vf_note("epoll_wait: EINTR"); return fail(EINTR); }
    if(o == 2) { vf_note("epoll_wait fails"); w_last_wait_failed = true; return fail_other(); }
    vf_assert(max >= 1, "C22", "epoll_wait with no room for events");
    int n = 0;
    // straight line: the analysis follows every combination
    ev_one(3, ev, n, max); ev_one(4, ev, n, max); ev_one(5, ev, n, max); ev_one(6, ev, n, max); ev_one(7, ev, n, max);
    ev[max - 1].events = 0;   // the caller said there is room for max events
    w_events = n;
    return n;
}
int epoll_pwait(int ep, epoll_event *ev, int max, int t, const sigset_t *) { return epoll_wait(ep, ev, max, t); }

// ---------------------------------------------------------------- mbedtls
// any error code but the ones that ask for a retry or announce the end of the stream
static int tls_err()
{
    long e = vf_int(-0x7f80, -1);
    vf_assume(e != MBEDTLS_ERR_SSL_WANT_READ);
    vf_assume(e != MBEDTLS_ERR_SSL_WANT_WRITE);
    vf_assume(e != MBEDTLS_ERR_SSL_PEER_CLOSE_NOTIFY);
    vf_assume(e != MBEDTLS_ERR_SSL_ASYNC_IN_PROGRESS);
    vf_assume(e != MBEDTLS_ERR_SSL_CRYPTO_IN_PROGRESS);
    vf_assume(e != MBEDTLS_ERR_SSL_CLIENT_RECONNECT);
    vf_assume(e != MBEDTLS_ERR_SSL_TIMEOUT);
    return (int)e;
}
static bool tls_ok(const char *what)
{
    if(!w_tls_fail) return true;
    if(vf_bool()) return true;
    vf_note(what);
    return false;
}
void mbedtls_net_init(mbedtls_net_context *c) { c->fd = -1; }
void mbedtls_net_close(mbedtls_net_context *c) { if(c->fd == -1) return; close(c->fd); c->fd = -1; }
void mbedtls_net_free(mbedtls_net_context *c)
{
    if(c->fd == -1) return;
    vf_assert(c->fd < 0 || valid(c->fd), "C07", "mbedtls_net_free() of a descriptor that is already closed");
    close(c->fd);
    c->fd = -1;
}
int mbedtls_net_set_block(mbedtls_net_context *c)
{
    if(!use(c->fd, "mbedtls_net_set_block() on a closed descriptor")) return -1;
    if(!vf_bool()) { vf_note("mbedtls_net_set_block() fails"); return fail_other(); }
    w_fd[c->fd].nonblock = false;
    return 0;
}
int mbedtls_net_set_nonblock(mbedtls_net_context *c)
{
    if(!use(c->fd, "mbedtls_net_set_nonblock() on a closed descriptor")) return -1;
    if(!vf_bool()) { vf_note("mbedtls_net_set_nonblock() fails"); return fail_other(); }
    w_fd[c->fd].nonblock = true;
    return 0;
}
int mbedtls_net_accept(mbedtls_net_context *b, mbedtls_net_context *c, void *ip, size_t ipn, size_t *iplen)
{
    if(!use(b->fd, "mbedtls_net_accept() on a closed descriptor")) return -0x004A;
    int o = vf_choice(3);
    if(o == 1) { vf_note("mbedtls_net_accept(): WANT_READ"); return MBEDTLS_ERR_SSL_WANT_READ; }
    if(o == 2) { vf_note("mbedtls_net_accept() fails"); return -0x004A; }
    c->fd = new_fd(1);
    w_fd[c->fd].conn = true;
    ++w_accepts;
    if(ip)
    {
        if(ipn < 4) return MBEDTLS_ERR_NET_BUFFER_TOO_SMALL;
        long k = vf_bool() ? 4 : 16;
        if(ipn < (size_t)k) return MBEDTLS_ERR_NET_BUFFER_TOO_SMALL;
        vf_fill(ip, k);
        *iplen = k;
    }
    return 0;
}
int mbedtls_net_connect(mbedtls_net_context *c, const char *, const char *, int)
{
    w_sigpipe_ignored = true;
    if(!vf_bool()) return -0x0044;
    c->fd = new_fd(1);
    w_fd[c->fd].conn = true;
    return 0;
}
int mbedtls_net_bind(mbedtls_net_context *c, const char *, const char *, int)
{
    w_sigpipe_ignored = true;
    if(!vf_bool()) return -0x0046;
    c->fd = new_fd(1);
    w_fd[c->fd].bound = true;
    w_fd[c->fd].listening = true;
    return 0;
}
int mbedtls_net_send(void *, const unsigned char *, size_t) { vf_assert(false, "C10", "mbedtls_net_send() is called directly, bypassing the session"); return -1; }
int mbedtls_net_recv(void *, unsigned char *, size_t) { vf_assert(false, "C10", "mbedtls_net_recv() is called directly, bypassing the session"); return -1; }
int mbedtls_net_recv_timeout(void *, unsigned char *, size_t, uint32_t) { vf_assert(false, "C10", "mbedtls_net_recv_timeout() is called directly, bypassing the session"); return -1; }

void mbedtls_ssl_init(mbedtls_ssl_context *s) { memset(s, 0, sizeof *s); }
void mbedtls_ssl_free(mbedtls_ssl_context *s)
{
    if(!s) return;
    if(s->in_buf) free(s->in_buf);
    if(s->hostname) free(s->hostname);
    memset(s, 0, sizeof *s);
}
void mbedtls_ssl_config_init(mbedtls_ssl_config *c) { memset(c, 0, sizeof *c); }
void mbedtls_ssl_config_free(mbedtls_ssl_config *c)
{
    if(c->key_cert) free(c->key_cert);
    memset(c, 0, sizeof *c);
}
int mbedtls_ssl_config_defaults(mbedtls_ssl_config *c, int endpoint, int, int)
{
    c->endpoint = (unsigned)endpoint;
    if(endpoint == MBEDTLS_SSL_IS_CLIENT) c->authmode = MBEDTLS_SSL_VERIFY_REQUIRED;
    if(!tls_ok("mbedtls_ssl_config_defaults() fails")) return tls_err();
    return 0;
}
void mbedtls_ssl_conf_authmode(mbedtls_ssl_config *c, int m) { c->authmode = (unsigned)m; }
void mbedtls_ssl_conf_ca_chain(mbedtls_ssl_config *c, mbedtls_x509_crt *ca, mbedtls_x509_crl *) { c->ca_chain = ca; }
void mbedtls_ssl_conf_rng(mbedtls_ssl_config *c, int (*f)(void *, unsigned char *, size_t), void *p) { c->f_rng = f; c->p_rng = p; }
void mbedtls_ssl_conf_read_timeout(mbedtls_ssl_config *, uint32_t) {}
int mbedtls_ssl_conf_own_cert(mbedtls_ssl_config *c, mbedtls_x509_crt *crt, mbedtls_pk_context *key)
{
    if(!tls_ok("mbedtls_ssl_conf_own_cert() fails")) return tls_err();
    struct pair { const void *a, *b; };
    pair *k = (pair *)malloc(sizeof(pair));
    k->a = crt; k->b = key;
    if(c->key_cert) free(c->key_cert);
    c->key_cert = (mbedtls_ssl_key_cert *)k;
    w_tls_cert = crt; w_tls_key = key;
    return 0;
}
int mbedtls_ssl_setup(mbedtls_ssl_context *s, const mbedtls_ssl_config *c)
{
    s->conf = c;
    if(!tls_ok("mbedtls_ssl_setup() fails")) { s->conf = nullptr; return tls_err(); }
    s->in_buf = (unsigned char *)malloc(64);
    s->state = MBEDTLS_SSL_HELLO_REQUEST;
    return 0;
}
int mbedtls_ssl_set_hostname(mbedtls_ssl_context *s, const char *name)
{
    if(!tls_ok("mbedtls_ssl_set_hostname() fails")) return tls_err();
    if(s->hostname) free(s->hostname);
    s->hostname = nullptr;
    if(!name) return 0;
    size_t n = strlen(name);
    s->hostname = (char *)malloc(n + 1);
    memcpy(s->hostname, name, n);
    s->hostname[n] = 0;
    if(w_host)
    {
        vf_assert(n == w_host->size(), "C09", "the host name set for verification is not the requested one");
        vf_same_bytes(s->hostname, w_host->data(), (long)n, "C09", "the host name set for verification is not the requested one");
    }
    return 0;
}
void mbedtls_ssl_set_bio(mbedtls_ssl_context *s, void *p, mbedtls_ssl_send_t *snd, mbedtls_ssl_recv_t *rcv, mbedtls_ssl_recv_timeout_t *rt)
{
    s->p_bio = p; s->f_send = snd; s->f_recv = rcv; s->f_recv_timeout = rt;
}
static void check_bio(mbedtls_ssl_context *s)
{
    vf_assert(s->p_bio != nullptr && s->f_send == mbedtls_net_send && (s->f_recv == mbedtls_net_recv || s->f_recv_timeout == mbedtls_net_recv_timeout), "C10", "the session is not connected to the network");
    mbedtls_net_context *n = (mbedtls_net_context *)s->p_bio;
    vf_assert(valid(n->fd), "C10", "the session's descriptor is not open");
    vf_assert(w_io_fd == -1 || n->fd == w_io_fd, "C10", "the session is bound to another descriptor than the socket's");
}
int mbedtls_ssl_handshake(mbedtls_ssl_context *s)
{
    vf_assert(s->conf != nullptr && s->in_buf != nullptr, "C10", "handshake on a session that was not set up");
    check_bio(s);
    if(s->conf->endpoint == MBEDTLS_SSL_IS_CLIENT && w_verify)
    {
        vf_assert(s->conf->authmode == MBEDTLS_SSL_VERIFY_REQUIRED, "C09", "handshake without requiring verification of the peer");
        vf_assert(w_ca == nullptr || s->conf->ca_chain == w_ca, "C09", "handshake without the context's CA chain");
        vf_assert(s->hostname != nullptr, "C09", "handshake without the host name to verify");
    }
    if(s->conf->endpoint == MBEDTLS_SSL_IS_CLIENT && !w_verify)
        vf_assert(s->conf->authmode == MBEDTLS_SSL_VERIFY_NONE || s->conf->authmode == MBEDTLS_SSL_VERIFY_OPTIONAL, "C09", "verification is required although the user turned it off");
    vf_assert(s->conf->f_rng == mbedtls_ctr_drbg_random && (w_rng == nullptr || s->conf->p_rng == w_rng), "C09", "handshake without the context's random source");
    if(s->conf->endpoint == MBEDTLS_SSL_IS_SERVER)
    {
        vf_assert(s->conf->key_cert != nullptr, "C09", "server handshake without a certificate and key");
        vf_assert(w_tls_cert == w_cert_parsed && w_tls_key == w_key_parsed, "C09", "server handshake with another certificate or key than those loaded");
        vf_assert(s->conf->authmode == MBEDTLS_SSL_VERIFY_NONE || s->conf->authmode == MBEDTLS_SSL_VERIFY_OPTIONAL || s->conf->ca_chain, "C09", "server handshake demanding a client certificate without any authority to check it");
    }
    int o = vf_choice(4);
    if(o == 1) { vf_note("mbedtls_ssl_handshake(): WANT_READ"); return MBEDTLS_ERR_SSL_WANT_READ; }
    if(o == 2) { vf_note("mbedtls_ssl_handshake(): WANT_WRITE"); return MBEDTLS_ERR_SSL_WANT_WRITE; }
    if(o == 3) { vf_note("mbedtls_ssl_handshake() fails"); return tls_err(); }
    s->state = MBEDTLS_SSL_HANDSHAKE_OVER;
    ++w_handshakes;
    if(s->conf->endpoint == MBEDTLS_SSL_IS_CLIENT)
    {
        w_verify_dirty = vf_bool();
        if(w_verify_dirty) vf_note("the peer's certificate does not verify");
    }
    return 0;
}
uint32_t mbedtls_ssl_get_verify_result(const mbedtls_ssl_context *s)
{
    vf_assert(s->state == MBEDTLS_SSL_HANDSHAKE_OVER, "C09", "the verification result is read before the handshake completed");
    if(!w_verify_dirty) return 0;
    return (uint32_t)vf_int(1, 0xffffffffL);
}
static bool session(mbedtls_ssl_context *s)
{
    if(!s) return false;   // the library refuses this itself
    vf_assert(s->state == MBEDTLS_SSL_HANDSHAKE_OVER, "C10", "application data before the handshake completed");
    check_bio(s);
    return true;
}
int mbedtls_ssl_read(mbedtls_ssl_context *s, unsigned char *buf, size_t n)
{
    if(!session(s)) { w_last = 3; return MBEDTLS_ERR_SSL_BAD_INPUT_DATA; }
    int o = vf_choice(6);
    if(o == 1) { vf_note("ssl_read: end of stream"); w_last = 1; return 0; }
    if(o == 2) { vf_note("ssl_read: WANT_READ"); w_last = 2; return MBEDTLS_ERR_SSL_WANT_READ; }
    if(o == 3) { vf_note("ssl_read: WANT_WRITE"); w_last = 2; return MBEDTLS_ERR_SSL_WANT_WRITE; }
    if(o == 4) { vf_note("ssl_read: close notify"); w_last = 1; return MBEDTLS_ERR_SSL_PEER_CLOSE_NOTIFY; }
    if(o == 5) { vf_note("ssl_read: error"); w_last = 3; return tls_err(); }
    long k = vf_int(1, 1L << 30);
    vf_assume(k <= (long)n);
    vf_copy_stream(buf, 5, w_tls_in, k);
    w_tls_in += k;
    w_last = 0;
    return (int)k;
}
int mbedtls_ssl_write(mbedtls_ssl_context *s, const unsigned char *buf, size_t n)
{
    if(!session(s)) { w_last = 3; return MBEDTLS_ERR_SSL_BAD_INPUT_DATA; }
    sigpipe(false);
    int o = vf_choice(4);
    if(o == 1) { vf_note("ssl_write: WANT_WRITE"); deliver(buf, (long)n, 0); w_last = 2; return MBEDTLS_ERR_SSL_WANT_WRITE; }
    if(o == 2) { vf_note("ssl_write: WANT_READ"); deliver(buf, (long)n, 0); w_last = 2; return MBEDTLS_ERR_SSL_WANT_READ; }
    if(o == 3) { vf_note("ssl_write: error"); deliver(buf, (long)n, 0); w_last = 3; return tls_err(); }
    long k = vf_int(1, 1L << 30);
    vf_assume(k <= (long)n);
    deliver(buf, (long)n, k);
    w_last = 0;
    return (int)k;
}
int mbedtls_ssl_close_notify(mbedtls_ssl_context *) { return 0; }
size_t mbedtls_ssl_get_bytes_avail(const mbedtls_ssl_context *) { return (size_t)vf_int(0, 16384); }
void mbedtls_strerror(int, char *buf, size_t n) { buf[n - 1] = 0; buf[0] = 0; }
void mbedtls_x509_crt_init(mbedtls_x509_crt *c) { memset(c, 0, sizeof *c); }
void mbedtls_x509_crt_free(mbedtls_x509_crt *c) { if(c->raw.p) free(c->raw.p); memset(c, 0, sizeof *c); }
static void crt_data(mbedtls_x509_crt *c) { if(!c->raw.p) c->raw.p = (unsigned char *)malloc(16); }
int mbedtls_x509_crt_parse_file(mbedtls_x509_crt *c, const char *path)
{
    ++w_parses;
    if(w_cert_file) same_text(path, w_cert_file, "C49", "the certificate is loaded from another file than the one given");
    if(w_ca_file)
    {
        vf_assert(c == w_ca, "C49", "certificates of an authority are not added to the chain of the context");
        same_text(path, w_ca_file, "C49", "the certificates are loaded from another file than the one given");
    }
    if(!tls_ok("mbedtls_x509_crt_parse_file() fails")) return w_parsed = vf_bool() ? 1 : tls_err();
    crt_data(c);
    w_cert_parsed = c;
    return w_parsed = 0;
}
int mbedtls_x509_crt_parse(mbedtls_x509_crt *c, const unsigned char *buf, size_t n)
{
    ++w_parses;
    if(w_ca_text)
    {
        vf_assert(c == w_ca, "C49", "certificates of an authority are not added to the chain of the context");
        vf_assert(n == w_ca_text->size() + 1 || (!w_ca_pem && n == w_ca_text->size()), "C49", "the parser is not told the size of the certificates (text: including the terminator)");
        vf_same_bytes(buf, w_ca_text->data(), (long)n, "C49", "the parser does not get the certificates that were given");
    }
    if(!tls_ok("mbedtls_x509_crt_parse() fails")) return w_parsed = vf_bool() ? 1 : tls_err();
    crt_data(c);
    return w_parsed = 0;
}
void mbedtls_pk_init(mbedtls_pk_context *c) { c->pk_info = nullptr; c->pk_ctx = nullptr; }
void mbedtls_pk_free(mbedtls_pk_context *c) { if(c->pk_ctx) free(c->pk_ctx); c->pk_ctx = nullptr; }
int mbedtls_pk_parse_keyfile(mbedtls_pk_context *c, const char *path, const char *)
{
    if(path && w_key_file) same_text(path, w_key_file, "C49", "the private key is loaded from another file than the one given");
    if(!tls_ok("mbedtls_pk_parse_keyfile() fails")) return tls_err();
    if(!c->pk_ctx) c->pk_ctx = malloc(16);
    w_key_parsed = c;
    return 0;
}
int mbedtls_pk_can_do(const mbedtls_pk_context *, mbedtls_pk_type_t) { return (int)vf_int(0, 1); }
mbedtls_pk_type_t mbedtls_pk_get_type(const mbedtls_pk_context *) { return (mbedtls_pk_type_t)vf_int(0, 7); }
int mbedtls_pk_parse_key(mbedtls_pk_context *c, const unsigned char *, size_t, const unsigned char *, size_t) { return mbedtls_pk_parse_keyfile(c, nullptr, nullptr); }
void mbedtls_ctr_drbg_init(mbedtls_ctr_drbg_context *) {}
void mbedtls_ctr_drbg_free(mbedtls_ctr_drbg_context *) {}
int mbedtls_ctr_drbg_seed(mbedtls_ctr_drbg_context *, int (*)(void *, unsigned char *, size_t), void *, const unsigned char *, size_t)
{
    if(!tls_ok("mbedtls_ctr_drbg_seed() fails")) return tls_err();
    return 0;
}
int mbedtls_ctr_drbg_random(void *, unsigned char *out, size_t n) { vf_fill(out, (long)n); return 0; }
void mbedtls_entropy_init(mbedtls_entropy_context *) {}
void mbedtls_entropy_free(mbedtls_entropy_context *) {}
int mbedtls_entropy_func(void *, unsigned char *out, size_t n) { vf_fill(out, (long)n); return 0; }
}

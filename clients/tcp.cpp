#include "world.h"
#include <frnetlib/TcpSocket.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/Packet.h>
using namespace fr;
typedef Socket::Status St;
typedef std::chrono::seconds sec;
// everything that must hold for a socket between two calls of its interface
static void consistent(TcpSocket &s)
{
    int fd = s.get_socket_descriptor();
    vf_assert(s.connected() == (fd > -1), "C08", "connected() contradicts the descriptor");
    if(fd > -1)
    {
        vf_assert(w_fd[fd].open, "C08", "the socket refers to a descriptor that is not open");
        vf_assert(s.get_blocking() == !w_fd[fd].nonblock, "C24", "get_blocking() is not the mode of the descriptor");
    }
}
static void options(TcpSocket &s)
{
    int fd = s.get_socket_descriptor();
    vf_assert(w_fd[fd].nodelay, "C24", "Nagle's algorithm is not disabled");
    vf_assert(w_fd[fd].rtv == (long)s.get_receive_timeout(), "C24", "the receive timeout is not applied");
    vf_assert(w_fd[fd].wtv == (long)s.get_send_timeout(), "C24", "the send timeout is not applied");
}
static void after_connect(TcpSocket &s, St st)
{
    if(st == St::Success)
    {
        vf_assert(s.connected(), "C08", "connect reports success but the socket is not connected");
        int fd = s.get_socket_descriptor();
        vf_assert(w_fd[fd].open && w_fd[fd].conn, "C08", "connect reports success on a descriptor that is not connected");
        vf_assert(!w_fd[fd].nonblock, "C24", "a new connection is not blocking");
        options(s);
        vf_assert(w_open_count() == 1, "C07", "a descriptor is leaked by connect");
    }
    else
    {
        vf_assert(!s.connected() && s.get_socket_descriptor() < 0, "C08", "connect failed but the socket still refers to a descriptor");
        vf_assert(w_open_count() == 0, "C08", "a descriptor is left open by a failed connect");
        vf_assert(w_open_count() == 0, "C07", "a descriptor is left open by a failed connect");
    }
    vf_assert(w_ai_live == 0, "C07", "the resolver list is not freed");
    consistent(s);
}
static int fresh_fd()
{
    // a connected blocking descriptor obtained elsewhere (fork, inetd, another library)
    int fd = w_next++;
    w_fd[fd].open = true; w_fd[fd].kind = 1; w_fd[fd].nonblock = false; w_fd[fd].conn = true; w_fd[fd].out_broken = false;
    w_fd[fd].nodelay = false; w_fd[fd].rtv = -1; w_fd[fd].wtv = -1; w_fd[fd].in_pos = 0; w_fd[fd].reg = false;
    w_fd[fd].pending = false; w_fd[fd].bound = false; w_fd[fd].listening = false; w_fd[fd].shut = false;
    return fd;
}
static void adopt(TcpSocket &s) { int fd = fresh_fd(); s.set_descriptor(&fd); }
static St do_connect(TcpSocket &s)
{
    std::string a, p;
    vf_string_no(&a, "", -1);
    vf_string_no(&p, "", -1);
    long t = vf_int(0, 0x7fffffffL);
    w_node = &a; w_service = &p; w_wait_s = t;
    St st = s.connect(a, p, sec(t));
    w_node = w_service = nullptr; w_wait_s = -1;
    if(st == St::Success)
    {
        std::string r = a + ":" + p;
        vf_assert(w_reached, "C51", "connect reports success although none of the addresses was reached");
        vf_same_str(&s.get_remote_address(), &r, "C51", "the remote address is not the host and port connected to");
    }
    else
    {
        vf_assert((st == St::AddressLookupFailure) == (w_ai_n == 0), "C51", "AddressLookupFailure does not tell whether the lookup failed");
        vf_assert(w_reached || w_tried == w_ai_n, "C51", "connect gives up although there are more addresses to try");
    }
    return st;
}
static void timeouts(TcpSocket &s)
{
    s.set_receive_timeout((uint32_t)vf_int(0, 0x7fffffffL));
    s.set_send_timeout((uint32_t)vf_int(0, 0x7fffffffL));
}
extern "C" void drv_connect()
{
    {
        TcpSocket s;
        timeouts(s);
        vf_leak_begin();
        after_connect(s, do_connect(s));
    }
    w_check_released("C07");
}
template<typename S> static void family(S &s)
{
    int o = vf_choice(4);
    w_family = AF_UNSPEC;
    if(o == 1) { s.set_inet_version(Socket::IP::v4); w_family = AF_INET; }
    if(o == 2) { s.set_inet_version(Socket::IP::v6); w_family = AF_INET6; }
    if(o == 3) { s.set_inet_version(Socket::IP::v6); s.set_inet_version(Socket::IP::any); }
}
extern "C" void drv_connect_family()
{
    w_ai_max = 1;
    { TcpSocket s; family(s); after_connect(s, do_connect(s)); }
    w_check_released("C07");
}
// descriptor numbers are as high as the limits of the process allow
extern "C" void drv_connect_high()
{
    w_ai_max = 1;
    w_next = 1024;
    TcpSocket s;
    std::string a, p;
    St st = s.connect(a, p, sec(vf_int(0, 1000)));
    if(st == St::Success) vf_assert(s.get_socket_descriptor() >= 1024, "C48", "the socket does not refer to the descriptor it was given");
}
// a process that has closed its standard input gets descriptor 0
extern "C" void drv_connect_zero()
{
    w_ai_max = 1;
    w_next = 0;
    {
        TcpSocket s;
        after_connect(s, do_connect(s));
        if(s.connected() && vf_bool()) { s.disconnect(); vf_assert(!s.connected() && w_open_count() == 0, "C07", "disconnect leaves the descriptor open"); }
    }
    w_check_released("C07");
}
// every address list has one entry, but the socket has been used before
extern "C" void drv_reconnect()
{
    w_ai_max = 1;
    {
        TcpSocket s;
        int o = vf_choice(4);
        if(o == 0) { St st = do_connect(s); after_connect(s, st); }
        else adopt(s);
        if(o == 2) s.set_blocking(false);
        if(o == 3) s.disconnect();
        consistent(s);
        after_connect(s, do_connect(s));
    }
    w_check_released("C07");
}
extern "C" void drv_adopt()
{
    {
        TcpSocket s;
        timeouts(s);
        int o = vf_choice(4);
        int fd = 0;
        if(o >= 1) { adopt(s); options(s); consistent(s); }
        if(o == 2) s.set_blocking(false);
        if(o == 3) { s.disconnect(); vf_assert(!s.connected() && w_open_count() == 0, "C07", "disconnect() leaves the descriptor open"); }
        consistent(s);
        fd = fresh_fd();
        s.set_descriptor(&fd);
        vf_assert(s.connected() && s.get_socket_descriptor() == fd, "C08", "the adopted descriptor is not the socket's");
        vf_assert(w_open_count() == 1, "C07", "adopting a descriptor leaks the one it replaces");
        options(s);
        consistent(s);
        timeouts(s);
        options(s);
    }
    w_check_released("C07");
}
static void set_mode(TcpSocket &s, bool b)
{
    int fd = s.get_socket_descriptor();
    bool before = w_fd[fd].nonblock;
    St st = s.set_blocking(b);
    if(st == St::Success) vf_assert(w_fd[fd].nonblock == !b, "C24", "set_blocking reports success but the descriptor is in the other mode");
    else vf_assert(w_fd[fd].nonblock == before, "C24", "set_blocking failed but changed the mode");
    consistent(s);
}
extern "C" void drv_blocking()
{
    {
        TcpSocket s;
        adopt(s);
        consistent(s);
        set_mode(s, vf_bool());
        set_mode(s, vf_bool());
        set_mode(s, vf_bool());
        if(vf_bool()) { adopt(s); consistent(s); set_mode(s, vf_bool()); }
    }
    w_check_released("C07");
}
// whatever is done with a socket, the next calls find it consistent and its destruction releases everything
static void step(TcpSocket &s)
{
    int o = vf_choice(5);
    if(o == 0) { vf_note("-> connect"); do_connect(s); }
    if(o == 1) { vf_note("-> set_descriptor"); adopt(s); }
    if(o == 2) { vf_note("-> disconnect"); s.disconnect(); }
    if(o == 3) { vf_note("-> set_blocking"); if(s.connected()) s.set_blocking(vf_bool()); }
    if(o == 4) { vf_note("-> close from outside"); if(s.connected()) s.shutdown(); }
    consistent(s);
    vf_assert(w_open_count() == (s.connected() ? 1 : 0), "C07", "more descriptors are open than the socket owns");
}
extern "C" void drv_life()
{
    w_ai_max = 1;
    {
        TcpSocket s;
        step(s);
        step(s);
        step(s);
    }
    w_check_released("C07");
}
// ------------------------------------------------------------------ data
static St expect_send(TcpSocket &s)
{
    if(w_last == 2) return s.get_blocking() ? St::Timeout : St::WouldBlock;
    return St::SendError;
}
extern "C" void drv_send()
{
    TcpSocket s;
    timeouts(s);
    s.set_max_receive_size((uint32_t)vf_int(0, 0x7fffffffL));
    adopt(s);
    if(vf_bool()) s.set_blocking(false);
    int fd = s.get_socket_descriptor();
    w_io_fd = fd;
    long n = vf_int(0, 0x7fffffffL);
    long before = vf_int(0, 0x7fffffffL);
    vf_assume(before <= n);
    char *data = (char *)vf_alloc(n);
    size_t sent = (size_t)before;
    w_expect = data; w_expect_len = n; w_out_pos = before;
    w_last = -1;
    vf_assert(w_sigpipe_ignored, "C19", "SIGPIPE is not ignored after a socket was created");
    St st = s.send_raw(data, (size_t)n, sent);
    vf_assert((long)sent == w_out_pos, "C05", "`sent` is not the number of bytes handed to the transport");
    vf_assert((st == St::Success) == (w_out_pos == n), "C05", "success is reported although not every byte was handed over, or failure although all were");
    if(st != St::Success)
    {
        vf_assert(w_last == 2 || w_last == 3, "C06", "the send stopped although nothing stood in its way");
        vf_assert(st == expect_send(s), "C06", "send_raw reports the wrong status");
    }
    consistent(s);
}
extern "C" void drv_send_again()
{
    // the same message continued until it is through
    TcpSocket s;
    timeouts(s);
    adopt(s);
    if(vf_bool()) s.set_blocking(false);
    long n = vf_int(1, 0x7fffffffL);
    char *data = (char *)vf_alloc(n);
    size_t sent = 0;
    w_expect = data; w_expect_len = n; w_out_pos = 0;
    St st = St::WouldBlock;
    for(int i = 0; i < 3 && (st == St::WouldBlock || st == St::Timeout); ++i)
        st = s.send_raw(data, (size_t)n, sent);
    vf_assert((long)sent == w_out_pos, "C05", "`sent` is not the number of bytes handed to the transport");
    vf_assert((st == St::Success) == (w_out_pos == n), "C05", "success is reported although not every byte was handed over, or failure although all were");
}
extern "C" void drv_receive()
{
    TcpSocket s;
    timeouts(s);
    s.set_max_receive_size((uint32_t)vf_int(0, 0x7fffffffL));
    adopt(s);
    if(vf_bool()) s.set_blocking(false);
    int fd = s.get_socket_descriptor();
    long n = vf_int(1, 0x7fffffffL);
    char *data = (char *)vf_alloc(n);
    size_t got = (size_t)vf_int(0, 0x7fffffffL);
    w_last = -1;
    St st = s.receive_raw(data, (size_t)n, got);
    if(st == St::Success)
    {
        vf_assert(w_last == 0, "C06", "success is reported although nothing was received");
        vf_assert((long)got == w_fd[fd].in_pos && got > 0 && (long)got <= n, "C06", "`received` is not the number of bytes taken from the stream");
        vf_stream_is(data, 10 + fd, 0, (long)got, "C06", "the buffer does not hold the bytes received");
    }
    else
    {
        vf_assert(got == 0, "C06", "`received` is not 0 although nothing was received");
        vf_assert(w_fd[fd].in_pos == 0, "C06", "bytes were taken from the stream but are not reported");
        vf_assert(w_last != 4, "C06", "an interrupted receive is not retried");
        if(w_last == 1) vf_assert(st == St::Disconnected, "C06", "end of stream is not reported as Disconnected");
        if(w_last == 2) vf_assert(st == (s.get_blocking() ? St::Timeout : St::WouldBlock), "C06", "nothing available is not reported as WouldBlock/Timeout");
        if(w_last == 3) vf_assert(st == St::ReceiveError, "C06", "an error is not reported as ReceiveError");
    }
    consistent(s);
}
extern "C" void drv_send_message()
{
    // never connected, or no longer: a message is refused
    TcpSocket s;
    int o = vf_choice(2);
    if(o == 1) { adopt(s); s.disconnect(); }
    Packet p;
    St st = s.send(p);
    vf_assert(st == St::Disconnected, "C06", "sending on a socket that is not connected is not reported as Disconnected");
}
// ------------------------------------------------------------------ listener
static void lconsistent(TcpListener &l)
{
    int fd = l.get_socket_descriptor();
    vf_assert(l.connected() == (fd > -1), "C08", "listener: connected() contradicts the descriptor");
    if(fd > -1) vf_assert(w_fd[fd].open, "C08", "the listener refers to a descriptor that is not open");
}
static void do_listen(TcpListener &l, int others)
{
    std::string p;
    vf_string_no(&p, "", -1);
    w_service = &p; w_passive = true;
    St st = l.listen(p);
    w_service = nullptr; w_passive = false;
    if(st == St::Success) vf_assert(w_reached, "C51", "listen reports success although no address was bound");
    else
    {
        vf_assert((st == St::AddressLookupFailure) == (w_ai_n == 0), "C51", "AddressLookupFailure does not tell whether the lookup failed");
        vf_assert(w_reached || w_tried == w_ai_n, "C51", "listen gives up although there are more addresses to try");
    }
    if(st == St::Success)
    {
        vf_assert(l.connected() && w_fd[l.get_socket_descriptor()].listening, "C08", "listen reports success but nothing listens");
        vf_assert(w_open_count() == others + 1, "C07", "a descriptor is leaked by listen");
    }
    else
    {
        vf_assert(!l.connected() && l.get_socket_descriptor() < 0, "C08", "listen failed but the listener still refers to a descriptor");
        vf_assert(w_open_count() == others, "C08", "a descriptor is left open by a failed listen");
        vf_assert(w_open_count() == others, "C07", "a descriptor is left open by a failed listen");
    }
    vf_assert(w_ai_live == 0, "C07", "the resolver list is not freed");
    lconsistent(l);
}
extern "C" void drv_listen()
{
    {
        TcpListener l;
        do_listen(l, 0);
    }
    w_check_released("C07");
}
extern "C" void drv_listen_family()
{
    w_ai_max = 1;
    { TcpListener l; family(l); do_listen(l, 0); }
    w_check_released("C07");
}
extern "C" void drv_listen_again()
{
    w_ai_max = 1;
    {
        TcpListener l;
        do_listen(l, 0);
        if(vf_bool()) { l.close_socket(); lconsistent(l); vf_assert(w_open_count() == 0, "C07", "close_socket leaves the descriptor open"); }
        do_listen(l, 0);
        if(vf_bool())
        {
            TcpListener m(std::move(l));
            lconsistent(m); lconsistent(l);
            vf_assert(w_open_count() == (m.connected() ? 1 : 0), "C07", "moving a listener loses its descriptor");
        }
        lconsistent(l);
    }
    w_check_released("C07");
}
static int listening(TcpListener &l)
{
    int fd = fresh_fd();
    w_fd[fd].conn = false; w_fd[fd].bound = true; w_fd[fd].listening = true;
    l.set_socket_descriptor(fd);
    return fd;
}
extern "C" void drv_accept()
{
    {
        TcpListener l;
        int lfd = listening(l);
        TcpSocket c;
        timeouts(c);
        int o = vf_choice(3);
        if(o >= 1) adopt(c);
        if(o == 2) c.set_blocking(false);
        int was = c.get_socket_descriptor();
        bool was_blocking = c.get_blocking();
        w_named = false;
        St st = l.accept(c);
        if(st == St::Success)
        {
            vf_assert(c.connected() && c.get_socket_descriptor() != was, "C08", "accept reports success but the client is not the new connection");
            vf_assert(w_accepts == 1, "C08", "accept reports success without a new connection");
            std::string name = w_named ? "192.0.2.1" : "unknown";
            vf_same_str(&c.get_remote_address(), &name, "C51", "the remote address of an accepted connection is not its peer's");
            options(c);
            vf_assert(w_open_count() == 2, "C07", "accept leaks the client's earlier descriptor");
            vf_assert(!w_fd[c.get_socket_descriptor()].nonblock, "C24", "a new connection is not blocking");
        }
        else
        {
            vf_assert(w_open_count() == (was > -1 ? 2 : 1), "C08", "a failed accept leaves a descriptor behind");
            vf_assert(c.get_socket_descriptor() == was && c.get_blocking() == was_blocking, "C08", "a failed accept changes the client");
        }
        vf_assert(l.get_socket_descriptor() == lfd && w_fd[lfd].open, "C08", "accept changes the listener");
        consistent(c);
        l.shutdown();
        lconsistent(l);
    }
    w_check_released("C07");
}
extern "C" void drv_accept_zero()
{
    {
        TcpListener l;
        listening(l);
        w_next = 0;
        TcpSocket c;
        St st = l.accept(c);
        consistent(c);
        if(st == St::Success) vf_assert(c.connected() && c.get_socket_descriptor() == 0, "C08", "accept reports success but the client is not the new connection");
    }
    w_check_released("C07");
}
extern "C" void drv_listen_zero()
{
    w_next = 0;
    {
        TcpListener l;
        do_listen(l, 0);
    }
    w_check_released("C07");
}
extern "C" void drv_accept_two()
{
    {
        TcpListener l;
        listening(l);
        TcpSocket a, b;
        St sa = l.accept(a);
        St sb = l.accept(b);
        consistent(a); consistent(b);
        if(sa == St::Success && sb == St::Success) vf_assert(a.get_socket_descriptor() != b.get_socket_descriptor(), "C07", "two clients share a descriptor");
        if(vf_bool()) { l.accept(a); consistent(a); }
    }
    w_check_released("C07");
}
extern "C" void drv_listener_signal()
{
    TcpListener l;
    vf_assert(w_sigpipe_ignored, "C19", "SIGPIPE is not ignored after a listener was created");
}

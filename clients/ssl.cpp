#include "world.h"
#include <frnetlib/SSLSocket.h>
#include <frnetlib/SSLListener.h>
#include <frnetlib/SSLContext.h>
#include <memory>
using namespace fr;
typedef Socket::Status St;
typedef std::chrono::seconds sec;
typedef std::shared_ptr<SSLContext> Ctx;
static Ctx context()
{
    w_tls_fail = false;
    Ctx c = std::make_shared<SSLContext>();
    w_tls_fail = true;
    w_plain_forbidden = true;
    w_ca = &c->cacert; w_rng = &c->ctr_drbg;
    return c;
}
static void consistent(SSLSocket &s)
{
    int fd = s.get_socket_descriptor();
    vf_assert(s.connected() == (fd > -1), "C08", "connected() contradicts the descriptor");
    if(fd > -1)
    {
        vf_assert(w_fd[fd].open, "C08", "the socket refers to a descriptor that is not open");
        vf_assert(s.get_blocking() == !w_fd[fd].nonblock, "C24", "get_blocking() is not the mode of the descriptor");
    }
}
static St do_connect(SSLSocket &s)
{
    std::string a, p;
    vf_string_no(&a, "", -1);
    vf_string_no(&p, "", -1);
    w_host = &a;
    w_verify_dirty = false;
    int before = w_handshakes;
    long t = vf_int(0, 0x7fffffffL);
    w_node = &a; w_service = &p; w_wait_s = t;
    St st = s.connect(a, p, sec(t));
    w_node = w_service = nullptr; w_wait_s = -1;
    w_host = nullptr;
    if(st == St::Success)
    {
        std::string r = a + ":" + p;
        vf_assert(w_reached, "C51", "connect reports success although none of the addresses was reached");
        vf_same_str(&s.get_remote_address(), &r, "C51", "the remote address is not the host and port connected to");
    }
    else
    {
        vf_assert((st == St::AddressLookupFailure) == (w_ai_n == 0), "C51", "AddressLookupFailure does not tell whether the lookup failed");
        vf_assert(w_reached || w_tried == w_ai_n, "C51", "connect gives up although there are more addresses to try");
    }
    if(st == St::Success)
    {
        vf_assert(s.connected(), "C08", "connect reports success but the socket is not connected");
        vf_assert(w_handshakes == before + 1, "C10", "connect reports success without a completed handshake");
        vf_assert(w_handshakes == before + 1, "C09", "connect reports success without a completed handshake");
        if(w_verify) vf_assert(!w_verify_dirty, "C09", "connect reports success although verifying the peer's certificate failed");
        int fd = s.get_socket_descriptor();
        vf_assert(w_fd[fd].conn, "C08", "connect reports success on a descriptor that is not connected");
        vf_assert(!w_fd[fd].nonblock, "C24", "a new connection is not blocking");
        vf_assert(w_fd[fd].nodelay, "C24", "Nagle's algorithm is not disabled");
        vf_assert(w_open_count() == 1, "C07", "a descriptor is leaked by connect");
    }
    else
    {
        vf_assert(!s.connected() && s.get_socket_descriptor() < 0, "C08", "connect failed but the socket still refers to a descriptor");
        vf_assert(!s.connected(), "C09", "a connection whose handshake or verification failed stays usable");
        vf_assert(w_open_count() == 0, "C08", "a descriptor is left open by a failed connect");
        vf_assert(w_open_count() == 0, "C07", "a descriptor is left open by a failed connect");
    }
    vf_assert(w_ai_live == 0, "C07", "the resolver list is not freed");
    consistent(s);
    return st;
}
static void verification(SSLSocket &s)
{
    int o = vf_choice(3);
    w_verify = o != 1;                              // on unless turned off
    if(o == 1) s.verify_certificates(false);
    if(o == 2) { s.verify_certificates(false); s.verify_certificates(true); }
}
static void verify_result(SSLSocket &s, St st)
{
    // data after a failed connect must not go anywhere
    if(st == St::Success) return;
    char b[8] = {0};
    size_t n = 0;
    St r = s.send_raw(b, 8, n);
    vf_assert(r != St::Success && n == 0, "C09", "data can be sent on a connection that was refused");
    r = s.receive_raw(b, 8, n);
    vf_assert(r != St::Success && n == 0, "C09", "data can be received on a connection that was refused");
}
template<typename S> static void family(S &s)
{
    int o = vf_choice(4);
    w_family = AF_UNSPEC;
    if(o == 1) { s.set_inet_version(Socket::IP::v4); w_family = AF_INET; }
    if(o == 2) { s.set_inet_version(Socket::IP::v6); w_family = AF_INET6; }
    if(o == 3) { s.set_inet_version(Socket::IP::v6); s.set_inet_version(Socket::IP::any); }
}
extern "C" void drv_ssl_connect_family()
{
    w_ai_max = 1;
    {
        Ctx c = context();
        w_tls_fail = false;
        SSLSocket s(c);
        family(s);
        do_connect(s);
    }
    w_check_released("C07");
}
extern "C" void drv_ssl_connect()
{
    w_ai_max = 1;
    {
        Ctx c = context();
        vf_leak_begin();
        {
            SSLSocket s(c);
            verification(s);
            St st = do_connect(s);
            verify_result(s, st);
        }
        vf_leak_end("C07", "memory of the TLS session is never freed");
    }
    w_check_released("C07");
}
extern "C" void drv_ssl_reconnect()
{
    w_ai_max = 1;
    {
        Ctx c = context();
        vf_leak_begin();
        {
            SSLSocket s(c);
            bool v = vf_bool();
            w_verify = v;
            s.verify_certificates(v);
            do_connect(s);
            int o = vf_choice(3);
            if(o == 1 && s.connected()) s.set_blocking(false);
            if(o == 2) { s.disconnect(); vf_assert(!s.connected() && w_open_count() == 0, "C07", "disconnect() leaves the descriptor open"); }
            bool w = vf_bool();
            w_verify = w;
            s.verify_certificates(w);
            do_connect(s);
        }
        vf_leak_end("C07", "memory of the TLS session is never freed");
    }
    w_check_released("C07");
}
// a socket with a completed handshake
static void established(SSLSocket &s)
{
    w_tls_fail = false; w_ai_max = 1;
    St st = do_connect(s);
    vf_assume(st == St::Success);
    w_tls_fail = true;
    w_io_fd = s.get_socket_descriptor();
}
static void timeouts(SSLSocket &s)
{
    s.set_receive_timeout((uint32_t)vf_int(0, 0x7fffffffL));
    s.set_send_timeout((uint32_t)vf_int(0, 0x7fffffffL));
    s.set_max_receive_size((uint32_t)vf_int(0, 0x7fffffffL));
}
static void set_mode(SSLSocket &s, bool b)
{
    int fd = s.get_socket_descriptor();
    bool before = w_fd[fd].nonblock;
    St st = s.set_blocking(b);
    if(st == St::Success) vf_assert(w_fd[fd].nonblock == !b, "C24", "set_blocking reports success but the descriptor is in the other mode");
    else vf_assert(w_fd[fd].nonblock == before, "C24", "set_blocking failed but changed the mode");
    consistent(s);
}
extern "C" void drv_ssl_blocking()
{
    Ctx c = context();
    SSLSocket s(c);
    if(vf_bool())
    {
        St st = s.set_blocking(vf_bool());
        vf_assert(st != St::Success || !s.connected(), "C24", "set_blocking on a socket that is not connected");
    }
    established(s);
    set_mode(s, vf_bool());
    set_mode(s, vf_bool());
}
extern "C" void drv_ssl_send()
{
    Ctx c = context();
    SSLSocket s(c);
    established(s);
    timeouts(s);
    if(vf_bool()) s.set_blocking(false);
    long n = vf_int(0, 0x7fffffffL);
    long before = vf_int(0, 0x7fffffffL);
    vf_assume(before <= n);
    char *data = (char *)vf_alloc(n);
    size_t sent = (size_t)before;
    w_expect = data; w_expect_len = n; w_out_pos = before;
    w_last = -1;
    St st = s.send_raw(data, (size_t)n, sent);
    vf_assert((long)sent == w_out_pos, "C05", "`sent` is not the number of bytes handed to the transport");
    vf_assert((st == St::Success) == (w_out_pos == n), "C05", "success is reported although not every byte was handed over, or failure although all were");
    if(st != St::Success)
    {
        vf_assert(w_last == 2 || w_last == 3, "C06", "the send stopped although nothing stood in its way");
        if(w_last == 2) vf_assert(st == (s.get_blocking() ? St::Timeout : St::WouldBlock), "C06", "nothing can be written is not reported as WouldBlock/Timeout");
        else vf_assert(st == St::SSLError || st == St::SendError || st == St::Disconnected, "C06", "a failed TLS write is not reported as an error");
    }
}
extern "C" void drv_ssl_send_again()
{
    Ctx c = context();
    SSLSocket s(c);
    established(s);
    timeouts(s);
    if(vf_bool()) s.set_blocking(false);
    long n = vf_int(1, 0x7fffffffL);
    char *data = (char *)vf_alloc(n);
    size_t sent = 0;
    w_expect = data; w_expect_len = n; w_out_pos = 0;
    St st = s.send_raw(data, (size_t)n, sent);
    if(st == St::WouldBlock || st == St::Timeout) st = s.send_raw(data, (size_t)n, sent);
    vf_assert((long)sent == w_out_pos, "C05", "`sent` is not the number of bytes handed to the transport");
    vf_assert((st == St::Success) == (w_out_pos == n), "C05", "success is reported although not every byte was handed over, or failure although all were");
}
extern "C" void drv_ssl_receive()
{
    Ctx c = context();
    SSLSocket s(c);
    established(s);
    timeouts(s);
    if(vf_bool()) s.set_blocking(false);
    long n = vf_int(1, 0x7fffffffL);
    char *data = (char *)vf_alloc(n);
    size_t got = (size_t)vf_int(0, 0x7fffffffL);
    w_last = -1;
    St st = s.receive_raw(data, (size_t)n, got);
    if(st == St::Success)
    {
        vf_assert(w_last == 0, "C06", "success is reported although nothing was received");
        vf_assert((long)got == w_tls_in && got > 0 && (long)got <= n, "C06", "`received` is not the number of bytes taken from the stream");
        vf_stream_is(data, 5, 0, (long)got, "C06", "the buffer does not hold the bytes received");
        vf_stream_is(data, 5, 0, (long)got, "C10", "the buffer does not hold bytes that came through TLS");
    }
    else
    {
        vf_assert(got == 0, "C06", "`received` is not 0 although nothing was received");
        vf_assert(w_tls_in == 0, "C06", "bytes were taken from the stream but are not reported");
        if(w_last == 1) vf_assert(st == St::Disconnected, "C06", "end of stream is not reported as Disconnected");
        if(w_last == 2) vf_assert(st == (s.get_blocking() ? St::Timeout : St::WouldBlock), "C06", "nothing available is not reported as WouldBlock/Timeout");
        if(w_last == 3) vf_assert(st == St::SSLError || st == St::ReceiveError, "C06", "an error is not reported as an error");
    }
}
// ------------------------------------------------------------------ listener and context
extern "C" void drv_ssl_context()
{
    vf_leak_begin();
    try { SSLContext c; std::string m; vf_string(&m); if(vf_bool()) c.load_ca_certs_from_memory(m); else c.load_ca_certs_from_file(m); } catch(const std::exception &) {}
    vf_leak_end("C07", "memory of the TLS context is never freed");
}
// authorities: whole, into the chain of the context, success exactly if the parser understood all of it
static void load_memory(SSLContext &c)
{
    std::string m;
    w_ca_pem = vf_bool();
    if(w_ca_pem) { vf_string_no(&m, "", -1); m = "-----BEGIN CERTIFICATE-----" + m; }
    else { vf_string(&m); m = std::string("\x30\x82", 2) + m; }
    w_ca_text = &m; w_ca_file = nullptr;
    int n = w_parses;
    bool ok = c.load_ca_certs_from_memory(m);
    vf_assert(w_parses > n, "C49", "the certificates are not parsed");
    vf_assert(ok == (w_parsed == 0), "C49", "loading certificates does not tell whether all of them were understood");
    w_ca_text = nullptr;
}
static void load_file(SSLContext &c)
{
    std::string m;
    vf_string_no(&m, "", -1);
    w_ca_file = &m; w_ca_text = nullptr;
    int n = w_parses;
    bool ok = c.load_ca_certs_from_file(m);
    vf_assert(w_parses > n, "C49", "the certificates are not parsed");
    vf_assert(ok == (w_parsed == 0), "C49", "loading certificates does not tell whether all of them were understood");
    w_ca_file = nullptr;
}
extern "C" void drv_ssl_authorities()
{
    Ctx c = context();
    if(vf_bool()) load_memory(*c); else load_file(*c);
    if(vf_bool()) load_memory(*c); else load_file(*c);
}
extern "C" void drv_ssl_listener_new()
{
    Ctx c = context();
    vf_leak_begin();
    try
    {
        std::string a, b;
        vf_string_no(&a, "", -1); vf_string_no(&b, "", -1);
        w_cert_file = &a; w_key_file = &b;
        w_tls_cert = w_tls_key = nullptr;
        SSLListener l(c, a, b);
        vf_assert(w_tls_cert && w_tls_key && w_tls_cert == w_cert_parsed && w_tls_key == w_key_parsed, "C09", "a listener can be created without its certificate and key in place");
        vf_assert(w_tls_cert && w_tls_key && w_tls_cert == w_cert_parsed && w_tls_key == w_key_parsed && w_parsed == 0, "C49", "a listener can be created although its certificate or key was not loaded");
        vf_assert(!l.connected(), "C08", "a new listener claims to be connected");
        vf_assert(w_sigpipe_ignored, "C19", "SIGPIPE is not ignored after a listener was created");
    }
    catch(const std::exception &) {}
    vf_leak_end("C07", "memory of the TLS listener is never freed");
    w_check_released("C07");
}
static void do_listen(SSLListener &l)
{
    std::string p;
    vf_string_no(&p, "", -1);
    w_service = &p; w_passive = true;
    St st = l.listen(p);
    w_service = nullptr; w_passive = false;
    if(st == St::Success) vf_assert(w_reached, "C51", "listen reports success although no address was bound");
    else vf_assert(w_reached || w_tried == w_ai_n, "C51", "listen gives up although there are more addresses to try");
    if(st == St::Success)
    {
        vf_assert(l.connected() && w_fd[l.get_socket_descriptor()].listening, "C08", "listen reports success but nothing listens");
        vf_assert(w_open_count() == 1, "C07", "a descriptor is leaked by listen");
    }
    else
    {
        vf_assert(!l.connected(), "C08", "listen failed but the listener still refers to a descriptor");
        vf_assert(w_open_count() == 0, "C08", "a descriptor is left open by a failed listen");
        vf_assert(w_open_count() == 0, "C07", "a descriptor is left open by a failed listen");
    }
    vf_assert(w_ai_live == 0, "C07", "the resolver list is not freed");
}
extern "C" void drv_ssl_listen_family()
{
    w_ai_max = 1;
    {
        Ctx c = context();
        w_tls_fail = false;
        std::string a;
        SSLListener l(c, a, a);
        family(l);
        do_listen(l);
    }
    w_check_released("C07");
}
extern "C" void drv_ssl_listen()
{
    w_ai_max = 1;
    {
        Ctx c = context();
        w_tls_fail = false;
        std::string a;
        SSLListener l(c, a, a);
        do_listen(l);
        if(vf_bool()) { l.close_socket(); vf_assert(!l.connected() && w_open_count() == 0, "C07", "close_socket leaves the descriptor open"); }
        do_listen(l);
    }
    w_check_released("C07");
}
// a process that has closed its standard input gets descriptor 0
extern "C" void drv_ssl_connect_zero()
{
    w_ai_max = 1;
    w_next = 0;
    {
        Ctx c = context();
        vf_leak_begin();
        {
            SSLSocket s(c);
            verification(s);
            St st = do_connect(s);
            verify_result(s, st);
        }
        vf_leak_end("C07", "memory of the TLS session is never freed");
    }
    w_check_released("C07");
}
extern "C" void drv_ssl_listen_zero()
{
    w_ai_max = 1;
    w_next = 0;
    {
        Ctx c = context();
        w_tls_fail = false;
        std::string a;
        SSLListener l(c, a, a);
        do_listen(l);
    }
    w_check_released("C07");
}
extern "C" void drv_ssl_accept()
{
    {
        Ctx c = context();
        w_tls_fail = false;
        std::string a;
        SSLListener l(c, a, a);
        w_tls_fail = true;
        int lfd = w_next++;
        w_fd[lfd].open = true; w_fd[lfd].kind = 1; w_fd[lfd].listening = true; w_fd[lfd].bound = true;
        l.set_socket_descriptor(lfd);
        SSLSocket s(c);
        vf_leak_begin();
        bool first = vf_bool();
        if(first) { l.accept(s); if(s.connected()) s.set_blocking(false); }
        int was = s.get_socket_descriptor();
        int hs = w_handshakes, ac = w_accepts;
        w_named = false;
        St st = l.accept(s);
        if(st == St::Success)
        {
            int fd = s.get_socket_descriptor();
            vf_assert(s.connected() && fd != was && w_accepts == ac + 1, "C08", "accept reports success but the client is not the new connection");
            vf_assert(w_handshakes == hs + 1, "C10", "accept reports success without a completed handshake");
            std::string name = w_named ? "192.0.2.1" : "unknown";
            vf_same_str(&s.get_remote_address(), &name, "C51", "the remote address of an accepted connection is not its peer's");
            vf_assert(w_open_count() == 2, "C07", "accept leaks a descriptor");
            vf_assert(!w_fd[fd].nonblock, "C24", "a new connection is not blocking");
            vf_assert(w_fd[fd].nodelay, "C24", "Nagle's algorithm is not disabled");
            w_io_fd = fd;
            char b[8];
            size_t n = 0;
            s.receive_raw(b, 8, n);
        }
        else
        {
            vf_assert(s.get_socket_descriptor() == was, "C08", "a failed accept changes the client");
            vf_assert(w_open_count() == (was > -1 ? 2 : 1), "C08", "a failed accept leaves a descriptor behind");
        }
        consistent(s);
        vf_assert(l.get_socket_descriptor() == lfd && w_fd[lfd].open, "C08", "accept changes the listener");
        s.disconnect();
        vf_leak_end("C07", "memory of an accepted session is never freed");
    }
    w_check_released("C07");
}

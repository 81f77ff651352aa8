#include "nd.h"
#include <frnetlib/WebFrame.h>
using namespace fr;
typedef WebFrame::Opcode Op;
// the roles as the library's own WebSocket uses them
template<typename F> static void any_kind(F &f, long &op, bool &fin)
{
    op = vf_int(0, 15);
    f.set_opcode((Op)op);
    fin = vf_bool();
    f.set_final(fin);
}
static long be16(const unsigned char *p) { return ((long)p[0] << 8) | (long)p[1]; }
static void check_header(const std::string &out, long n, long op, bool fin, bool masked)
{
    const unsigned char *h = (const unsigned char *)out.data();
    long hl = (n <= 125 ? 2 : n <= 65535 ? 4 : 10) + (masked ? 4 : 0);
    vf_assert((long)out.size() == hl + n, "C20", "a frame is not its header in the shortest form, the key of a masked frame and the payload");
    if((long)out.size() != hl + n) return;
    vf_assert((long)h[0] == (fin ? 128 : 0) + op, "C20", "the first byte of a frame is not the final flag and the opcode");
    long m = masked ? 128 : 0;
    if(n <= 125) vf_assert((long)h[1] == m + n, "C20", "the second byte of a short frame is not the mask flag and the payload length");
    else if(n <= 65535)
    {
        vf_assert((long)h[1] == m + 126, "C20", "the second byte of a frame is not the mask flag and 126");
        vf_be(h + 2, 2, n, "C20", "the 16 bit length of a frame is not the payload length");
    }
    else
    {
        vf_assert((long)h[1] == m + 127, "C20", "the second byte of a frame is not the mask flag and 127");
        vf_be(h + 2, 8, n, "C20", "the 64 bit length of a frame is not the payload length");
    }
}
template<typename F> static void unchanged(F &f, const std::string &s, long op, bool fin)
{
    WebFrame &w = f;
    std::string t = w.get_payload();
    vf_same_str(&t, &s, "C16", "sending a frame changes its payload");
    vf_assert((long)w.get_opcode() == op && w.is_final() == fin, "C16", "sending a frame changes its opcode or final flag");
}
static void outcome(NdSocket &sock, St st)
{
    vf_assert(st != St::WouldBlock, "C05", "a frame is given up half way because the socket would block");
    if(st == St::Success) vf_assert(!sock.seg_open, "C05", "a frame is reported as sent although part of it was not");
    else vf_assert(sock.seg_open, "C05", "a frame that was sent completely is reported as failed");
}
static void server(std::string &s)
{
    NdSocket sock;
    ServerWebFrame f;
    long op; bool fin;
    any_kind(f, op, fin);
    f.set_payload(s);
    St st = sock.send(f);
    outcome(sock, st);
    if(st == St::Success)
    {
        long n = (long)s.size();
        check_header(sock.out, n, op, fin, false);
        long hl = n <= 125 ? 2 : n <= 65535 ? 4 : 10;
        vf_same_bytes(sock.out.data() + hl, s.data(), n, "C20", "the payload of a frame from the server is not sent as it is");
    }
    unchanged(f, s, op, fin);
}
extern "C" void drv_wf_send_server() { std::string s; vf_string(&s); server(s); }
extern "C" void drv_wf_send_again()
{
    std::string s; vf_string(&s);
    ServerWebFrame f;
    f.set_payload(s);
    { NdSocket sock; sock.send(f); }
    NdSocket sock;
    if(sock.send(f) == St::Success)
    {
        long n = (long)s.size();
        check_header(sock.out, n, 1, true, false);
        vf_same_bytes(sock.out.data() + (n <= 125 ? 2 : n <= 65535 ? 4 : 10), s.data(), n, "C16", "a frame sent again carries another payload");
    }
}
#define MB(i) if(n > i) vf_assert((o[6 + i] ^ o[2 + (i % 4)]) == p[i], "C20", "a masked payload byte does not decode to the payload with the key the frame carries")
static void masked(const std::string &out, const std::string &s, long n)
{
    const unsigned char *o = (const unsigned char *)out.data(), *p = (const unsigned char *)s.data();
    MB(0); MB(1); MB(2); MB(3); MB(4); MB(5); MB(6);
}
static void client(long n)
{
    NdSocket sock;
    ClientWebFrame f;
    long op; bool fin;
    any_kind(f, op, fin);
    std::string s;
    vf_string_n(&s, n);
    f.set_payload(s);
    St st = sock.send(f);
    outcome(sock, st);
    if(st == St::Success)
    {
        check_header(sock.out, n, op, fin, true);
        masked(sock.out, s, n);
    }
    unchanged(f, s, op, fin);
}
extern "C" void drv_wf_send_client0() { client(0); }
extern "C" void drv_wf_send_client1() { client(1); }
extern "C" void drv_wf_send_client5() { client(5); }
extern "C" void drv_wf_send_client6() { client(6); }
extern "C" void drv_wf_send_client_again()
{
    // the same frame twice: both decode to the payload
    ClientWebFrame f;
    std::string s;
    vf_string_n(&s, 3);
    f.set_payload(s);
    { NdSocket sock; sock.send(f); }
    NdSocket sock;
    if(sock.send(f) == St::Success)
    {
        check_header(sock.out, 3, 1, true, true);
        masked(sock.out, s, 3);
    }
    unchanged(f, s, 1, true);
}
extern "C" void drv_wf_send_client_long()
{
    NdSocket sock;
    ClientWebFrame f;
    long op; bool fin;
    any_kind(f, op, fin);
    std::string s;
    vf_string(&s);
    f.set_payload(s);
    St st = sock.send(f);
    outcome(sock, st);
    if(st == St::Success) check_header(sock.out, (long)s.size(), op, fin, true);
    unchanged(f, s, op, fin);
}
extern "C" void drv_wf_send_nowhere()
{
    ClientWebFrame c; ServerWebFrame s;
    WebFrame &a = c, &b = s;
    vf_assert(a.send(nullptr) != St::Success && b.send(nullptr) != St::Success, "C20", "sending without a socket succeeds");
    vf_assert(a.receive(nullptr) != St::Success && b.receive(nullptr) != St::Success, "C20", "receiving without a socket succeeds");
    NdSocket sock;
    sock.is_conn = false;
    vf_assert(sock.send(c) == St::Disconnected && sock.segs == 0, "C06", "sending through a closed socket does not report Disconnected");
}
// ---------------------------------------------------------------- receiving
static long word16(long off) { uint16_t v; vf_copy_stream(&v, 1, off, 2); return (long)__builtin_bswap16(v); }
static uint64_t word64(long off) { uint64_t v; vf_copy_stream(&v, 1, off, 8); return __builtin_bswap64(v); }
template<typename F> static St receive(NdSocket &sock, F &f)
{
    try { return sock.receive(f); }
    catch(...) { vf_assert(false, "C12", "an exception escapes from receiving a frame"); return St::Error; }
}
static void check_received(NdSocket &sock, WebFrame &w, St st, long start, bool client, long lim)
{
    long took = sock.in_pos - start;
    if(st == St::WouldBlock || st == St::Timeout) vf_assert(took == 0, "C04", "WouldBlock or Timeout is reported although bytes were taken from the stream");
    if(st == St::Success)
    {
        vf_assert(took >= 2, "C04", "a frame is received without its header");
        if(took < 2) return;
        long b = word16(start);
        vf_assert(((b >> 7) & 1) == !client, "C20", "a frame whose mask bit does not fit the role is accepted");
        vf_assert((long)w.get_opcode() == ((b >> 8) & 15), "C20", "the opcode of a received frame is not the one that was sent");
        vf_assert((long)w.is_final() == ((b >> 15) & 1), "C20", "the final flag of a received frame is not the one that was sent");
        std::string p = w.get_payload();
        long l7 = b & 127;
        long ext = l7 == 126 ? 2 : l7 == 127 ? 8 : 0, hl = 2 + ext + (client ? 0 : 4);
        if(l7 < 126) vf_assert((long)p.size() == l7, "C20", "the payload of a received frame is not as long as the frame says");
        if(l7 == 126) vf_assert((long)p.size() == word16(start + 2), "C20", "the payload of a received frame is not as long as its 16 bit length says");
        if(l7 == 127) vf_assert((uint64_t)p.size() == word64(start + 2), "C20", "the payload of a received frame is not as long as its 64 bit length says");
        vf_assert(took == hl + (long)p.size(), "C04", "receiving a frame takes more or less than the frame from the stream");
        if(client) vf_stream_is(p.data(), 1, start + hl, (long)p.size(), "C20", "the payload of a received frame is not what the peer sent");
        if(lim) vf_assert((long)p.size() <= lim, "C23", "a frame larger than the limit is received");
    }
    if(st == St::MaxPacketSizeExceeded)
    {
        vf_assert(took >= 2, "C23", "a frame is refused for its size before its length is known");
        if(took < 2) return;
        long l7 = word16(start) & 127;
        vf_assert(took <= 2 + (l7 == 126 ? 2 : l7 == 127 ? 8 : 0) + 4, "C23", "the body of a frame that is too large is read");
        if(lim && l7 < 126) vf_assert(l7 > lim, "C23", "a short frame within the limit is refused");
        if(lim && l7 == 126) vf_assert(word16(start + 2) > lim, "C23", "a frame within the limit is refused");
        if(lim && l7 == 127) vf_assert(word64(start + 2) > (uint64_t)lim, "C23", "a frame within the limit is refused");
    }
}
extern "C" void drv_wf_receive_client()
{
    NdSocket sock;
    ClientWebFrame f;
    St st = receive(sock, f);
    check_received(sock, f, st, 0, true, 0);
}
extern "C" void drv_wf_receive_server()
{
    NdSocket sock;
    ServerWebFrame f;
    St st = receive(sock, f);
    check_received(sock, f, st, 0, false, 0);
}
extern "C" void drv_wf_receive_client_limit()
{
    NdSocket sock;
    long lim = vf_int(1, 0x7fffffffL);
    sock.set_max_receive_size((uint32_t)lim);
    ClientWebFrame f;
    vf_limit(lim, "C23", "memory is reserved for more than the limit");
    St st = receive(sock, f);
    vf_limit(-1, "", "");
    check_received(sock, f, st, 0, true, lim);
}
extern "C" void drv_wf_receive_server_limit()
{
    NdSocket sock;
    long lim = vf_int(1, 0x7fffffffL);
    sock.set_max_receive_size((uint32_t)lim);
    ServerWebFrame f;
    vf_limit(lim, "C23", "memory is reserved for more than the limit");
    St st = receive(sock, f);
    vf_limit(-1, "", "");
    check_received(sock, f, st, 0, false, lim);
}
extern "C" void drv_wf_receive_two()
{
    NdSocket sock;
    ClientWebFrame f;
    St st = receive(sock, f);
    if(st != St::Success) return;
    long start = sock.in_pos;
    check_received(sock, f, receive(sock, f), start, true, 0);
}
extern "C" void drv_wf_receive_used()
{
    // a frame that has been used for sending before
    NdSocket sock;
    ClientWebFrame f;
    std::string s; vf_string(&s);
    f.set_payload(s);
    if(vf_bool()) f.set_final(false);
    check_received(sock, f, receive(sock, f), 0, true, 0);
}
static void unmask(long n)
{
    NdSocket sock;
    sock.whole = true;
    ServerWebFrame f;
    St st = receive(sock, f);
    if(st != St::Success) return;
    WebFrame &w = f;
    std::string s = w.get_payload();
    if((long)s.size() != n) return;
    unsigned char o[16];
    vf_copy_stream(o, 1, 0, 6 + n);
    if((o[1] & 127) >= 126) return;     // a longer form than needed
    const unsigned char *p = (const unsigned char *)s.data();
#define UB(i) if(n > i) vf_assert((o[6 + i] ^ o[2 + (i % 4)]) == p[i], "C20", "a received payload byte is not decoded with the key of its frame")
    UB(0); UB(1); UB(2); UB(3); UB(4); UB(5);
}
extern "C" void drv_wf_unmask1() { unmask(1); }
extern "C" void drv_wf_unmask5() { unmask(5); }
// frames of one known length whose bytes are unknown: every round of a loop over the payload is followed
struct GivenSocket : NdSocket
{
    std::string in;
    long at = 0;
    St receive_raw(void *data, size_t n, size_t &received) override
    {
        received = 0;
        if((long)n > (long)in.size() - at) return St::Disconnected;
        memcpy(data, in.data() + at, n);
        at += (long)n;
        received = n;
        return St::Success;
    }
};
static void unmask_long(const char *head, long hn, long n)
{
    GivenSocket sock;
    std::string key, body;
    vf_string_n(&key, 4);
    vf_string_n(&body, n);
    sock.in.assign(head, hn);
    sock.in += key;
    sock.in += body;
    ServerWebFrame f;
    St st = receive(sock, f);
    vf_assert(st == St::Success, "C20", "a whole masked frame is not received");
    if(st != St::Success) return;
    WebFrame &w = f;
    std::string s = w.get_payload();
    vf_assert((long)s.size() == n, "C20", "a received frame has another length than the one sent");
    const char *p = s.data(), *b = body.data(), *k = key.data();
#define UL(i) if((i) >= 0 && (i) < n) vf_assert((char)(b[i] ^ k[(i) % 4]) == p[i], "C20", "a byte of a long received payload is not decoded with the key of its frame")
    UL(0); UL(1); UL(2); UL(3); UL(4); UL(5); UL(125); UL(126); UL(127); UL(128); UL(129); UL(131); UL(254); UL(255); UL(256); UL(257); UL(259); UL(n - 4); UL(n - 3); UL(n - 2); UL(n - 1);
}
extern "C" void drv_wf_unmask125() { unmask_long("\x82\xfd", 2, 125); }
extern "C" void drv_wf_unmask126() { unmask_long("\x82\xfe\x00\x7e", 4, 126); }
extern "C" void drv_wf_unmask300() { unmask_long("\x82\xfe\x01\x2c", 4, 300); }
extern "C" void drv_wf_unmask66000() { unmask_long("\x82\xff\0\0\0\0\0\x01\x01\xd0", 10, 66000); }
static void mask_long(long n)
{
    NdSocket sock;
    ClientWebFrame f;
    std::string s;
    vf_string_n(&s, n);
    f.set_opcode(Op::Binary);
    f.set_payload(s);
    if(sock.send(f) != St::Success) return;
    check_header(sock.out, n, 2, true, true);
    long h = n <= 125 ? 2 : n <= 65535 ? 4 : 10;
    const char *o = sock.out.data(), *b = s.data();
#define ML(i) if((i) >= 0 && (i) < n) vf_assert((char)(o[h + 4 + (i)] ^ o[h + (i) % 4]) == b[i], "C20", "a byte of a long masked payload does not decode to the payload with the key the frame carries")
    ML(0); ML(1); ML(2); ML(3); ML(4); ML(5); ML(125); ML(126); ML(127); ML(128); ML(129); ML(131); ML(254); ML(255); ML(256); ML(257); ML(259); ML(n - 4); ML(n - 3); ML(n - 2); ML(n - 1);
}
extern "C" void drv_wf_mask125() { mask_long(125); }
extern "C" void drv_wf_mask126() { mask_long(126); }
extern "C" void drv_wf_mask300() { mask_long(300); }
extern "C" void drv_wf_mask66000() { mask_long(66000); }

// Construction and sending of HTTP messages.
#include "nd.h"
#include <algorithm>
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
using namespace fr;
static std::string lower(std::string s) { std::transform(s.begin(), s.end(), s.begin(), ::tolower); return s; }
#define NAMECH "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_."
static void text(std::string &s, const char *of, long n) { vf_string_of(&s, of, n); }
// one header of that name, and only one
static void once(const std::string &head, const char *name, const char *rule, const char *msg0, const char *msg2)
{
    size_t a = head.find(name);
    vf_assert(a != std::string::npos, rule, msg0);
    if(a == std::string::npos) return;
    vf_assert(head.find(name, a + 1) == std::string::npos, rule, msg2);
}
// the framing of a message: start line, header, blank line, rest
static void framing(const std::string &s, const std::string &start, const std::string &start2, const std::string &rest, const std::string &rest2, int own_length)
{
    size_t e = s.find("\r\n");
    vf_assert(e != std::string::npos, "C25", "a constructed message has no start line");
    if(e == std::string::npos) return;
    std::string line = s.substr(0, e);
    vf_assert(line == start || line == start2, "C25", "the start line of a constructed message is not well-formed");
    size_t h = s.find("\r\n\r\n");
    vf_assert(h != std::string::npos, "C25", "the header of a constructed message is not ended by a blank line");
    if(h == std::string::npos) return;
    std::string tail = s.substr(h + 4);
    vf_assert(tail == rest || tail == rest2, "C25", "what follows the blank line of a constructed message is not its body");
    std::string head = lower(s.substr(e, h + 2 - e));
    if(own_length)
    {
        once(head, "\r\ncontent-length:", "C25", "the content length the user set is not sent", "the content length the user set is sent twice");
        return;
    }
    size_t a = head.find("\r\ncontent-length:");
    if(a == std::string::npos)
    {
        vf_assert(s.size() == h + 4, "C25", "a body is sent without a Content-Length header");
        return;
    }
    vf_assert(head.find("\r\ncontent-length:", a + 1) == std::string::npos, "C25", "more than one Content-Length header is sent");
    size_t v = a + 17, z = head.find("\r\n", v);
    vf_assert(std::stoull(head.substr(v, z - v)) == s.size() - (h + 4), "C25", "the Content-Length sent is not the number of bytes that follow the header");
}
static void method(HttpRequest &r, std::string &start)
{
    switch(vf_choice(6))
    {
        case 0: start = "GET"; break;
        case 1: r.set_type(Http::RequestType::Get); start = "GET"; break;
        case 2: r.set_type(Http::RequestType::Post); start = "POST"; break;
        case 3: r.set_type(Http::RequestType::Put); start = "PUT"; break;
        case 4: r.set_type(Http::RequestType::Delete); start = "DELETE"; break;
        default: r.set_type(Http::RequestType::Patch); start = "PATCH"; break;
    }
}
static void request(int nget, int npost, int own, bool body)
{
    HttpRequest r;
    std::string start, start2, uri, host, rest, rest2, b, ver;
    method(r, start);
    text(host, NAMECH ":", -1);
    text(uri, NAMECH "/", -1);
    r.set_uri("/" + uri);
    start += " /"; start += uri;
    if(vf_bool()) { r.set_version(Http::RequestVersion::V1); ver = " HTTP/1.0"; }
    else ver = " HTTP/1.1";
    std::string g1, g2, p1, p2;
    text(g1, NAMECH "+%", -1); text(g2, NAMECH "+%", -1); text(p1, NAMECH "+%", -1); text(p2, NAMECH "+%", -1);
    start2 = start;
    if(nget == 1) { r.get("Ab") = g1; start += "?ab="; start += g1; start2 = start; }
    if(nget == 2)
    {
        r.get("Ab") = g1; r.get("cd") = g2;
        start += "?ab="; start += g1; start += "&cd="; start += g2;
        start2 += "?cd="; start2 += g2; start2 += "&ab="; start2 += g1;
    }
    start += ver; start2 += ver;
    if(npost == 1) { r.post("P") = p1; rest += "p="; rest += p1; rest2 = rest; }
    if(npost == 2)
    {
        r.post("P") = p1; r.post("q") = p2;
        rest += "p="; rest += p1; rest += "&q="; rest += p2;
        rest2 += "q="; rest2 += p2; rest2 += "&p="; rest2 += p1;
    }
    if(npost > 0) { rest += "\r\n"; rest2 += "\r\n"; }
    std::string v; text(v, NAMECH " ", -1);
    if(own == 1) r.header("conTent-Length") = "7";
    if(own == 2) { r.header("HOST") = v; r.header("x-Y") = v; }
    if(own == 3) r.header("Connection") = v;
    if(body) { vf_string(&b); r.set_body(b); rest += b; rest2 += b; }
    std::string s = r.construct(host);
    framing(s, start, start2, rest, rest2, own == 1);
    size_t h = s.find("\r\n\r\n");
    if(h == std::string::npos) return;
    std::string head = lower(s.substr(0, h + 2));
    once(head, "\r\nhost:", "C25", "a request is sent without a Host header", "a header is sent twice");
    once(head, "\r\nconnection:", "C25", "a request is sent without a Connection header", "a header is sent twice");
}
extern "C" void drv_con_req() { request(0, 0, 0, false); }
extern "C" void drv_con_req_body() { request(0, 0, 0, true); }
extern "C" void drv_con_req_get1() { request(1, 0, 0, true); }
extern "C" void drv_con_req_get2() { request(2, 0, 0, false); }
extern "C" void drv_con_req_post1() { request(0, 1, 0, true); }
extern "C" void drv_con_req_post2() { request(0, 2, 0, false); }
extern "C" void drv_con_req_both() { request(1, 1, 0, true); }
extern "C" void drv_con_req_own1() { request(0, vf_bool(), 1, true); }
extern "C" void drv_con_req_own2() { request(0, 0, 2, true); }
extern "C" void drv_con_req_own3() { request(0, 1, 3, false); }
static void response(int own, bool body)
{
    HttpResponse r;
    std::string start, b, v, host;
    text(host, NAMECH ":", -1);
    if(vf_bool()) { r.set_version(Http::RequestVersion::V1); start = "HTTP/1.0 "; }
    else start = "HTTP/1.1 ";
    switch(vf_choice(4))
    {
        case 0: start += "200"; break;
        case 1: r.set_status(Http::RequestStatus::NoContent); start += "204"; break;
        case 2: r.set_status(Http::RequestStatus::Continue); start += "100"; break;
        default: r.set_status(Http::RequestStatus::NetworkConnectTimeoutError); start += "599"; break;
    }
    text(v, NAMECH " ", -1);
    if(own == 1) r.header("CONTENT-length") = "3";
    if(own == 2) { r.header("Content-type") = v; r.header("x-Y") = v; }
    if(own == 3) { r.header("connection") = v; r.header("Content-TYPE") = v; }
    if(body) { vf_string(&b); r.set_body(b); }
    std::string s = r.construct(host);
    size_t e = s.find("\r\n");
    std::string line = e == std::string::npos ? std::string() : s.substr(0, e);
    start += " ";
    vf_assert(line.compare(0, start.size(), start) == 0, "C25", "the start line of a constructed response is not version, status and reason");
    framing(s, line, line, b, b, own == 1);
    size_t h = s.find("\r\n\r\n");
    if(h == std::string::npos) return;
    std::string head = lower(s.substr(0, h + 2));
    once(head, "\r\nconnection:", "C25", "a response is sent without a Connection header", "a header is sent twice");
    once(head, "\r\ncontent-type:", "C25", "a response is sent without a Content-Type header", "a header is sent twice");
}
extern "C" void drv_con_resp() { response(0, false); }
extern "C" void drv_con_resp_body() { response(0, true); }
extern "C" void drv_con_resp_own1() { response(1, true); }
extern "C" void drv_con_resp_own2() { response(2, true); }
extern "C" void drv_con_resp_own3() { response(3, vf_bool()); }
extern "C" void drv_con_resp_any()
{
    HttpResponse r;
    int c = vf_int(100, 999);
    r.set_status((Http::RequestStatus)c);
    std::string s = r.construct(""), start = "HTTP/1.1 ";
    start += std::to_string(c); start += " ";
    vf_assert(s.compare(0, start.size(), start) == 0, "C25", "the start line of a constructed response is not version, status and reason");
}
// ---------------------------------------------------------------- sending (C05, C16)
template<typename M> static void sending(M &m)
{
    NdSocket sock;
    sock.set_remote_address("peer");
    std::string before = m.construct("peer");
    const Sendable &o = m;
    St st = sock.send(o);
    if(st == St::Success)
    {
        vf_assert(!sock.seg_open, "C05", "a send succeeded although part of the message was not handed to the transport");
        vf_same_str(&sock.out, &before, "C05", "what reached the transport is not the message");
    }
    vf_assert(st != St::WouldBlock || !sock.seg_open || sock.seg_done == 0, "C05", "a send of a whole message ends with WouldBlock in the middle of it");
    std::string after = m.construct("peer");
    vf_same_str(&after, &before, "C16", "sending changed the message");
}
extern "C" void drv_con_send_req()
{
    HttpRequest r;
    std::string u, v, b;
    text(u, NAMECH "/", -1); text(v, NAMECH " ", -1);
    vf_string(&b);
    r.set_uri(u);
    r.header("X-Y") = v;
    if(vf_bool()) r.get("k") = v;
    if(vf_bool()) r.post("k") = v;
    r.set_body(b);
    sending(r);
}
extern "C" void drv_con_send_resp()
{
    HttpResponse r;
    std::string v, b;
    text(v, NAMECH " ", -1);
    vf_string(&b);
    r.header("X-Y") = v;
    if(vf_bool()) r.set_status(Http::RequestStatus::NotFound);
    r.set_body(b);
    sending(r);
}
template<typename M> static void twice(M &m)
{
    NdSocket sock;
    sock.set_remote_address("peer");
    std::string b;
    vf_string(&b);
    m.set_body(b);
    const Sendable &o = m;
    std::string one = m.construct("peer");
    if(sock.send(o) != St::Success || sock.send(o) != St::Success) return;
    one += m.construct("peer");
    vf_same_str(&sock.out, &one, "C16", "sending a message again sends something else");
}
extern "C" void drv_con_send_req_twice() { HttpRequest r; twice(r); }
extern "C" void drv_con_send_resp_twice() { HttpResponse r; twice(r); }
extern "C" void drv_con_send_nowhere()
{
    NdSocket sock;
    HttpRequest r;
    sock.is_conn = false;
    vf_assert(sock.send(r) != St::Success && sock.segs == 0, "C05", "a message is sent over a socket that is not connected");
}
// ---------------------------------------------------------------- receiving (C04)
struct NdMessage : public Http
{
    long got;             // bytes parsed
    int last;             // 0: nothing parsed yet, 1: complete, 2: incomplete, 3: refused
    NdMessage() : got(0), last(0) {}
    St parse(const char *data, size_t n) override
    {
        vf_assert(last == 0 || last == 2, "C04", "more is parsed after the message was complete or refused");
        vf_stream_is(data, 1, got, (long)n, "C04", "what is parsed is not what the peer sent");
        got += (long)n;
        last = 1 + vf_choice(3);
        return last == 1 ? St::Success : last == 2 ? St::NotEnoughData : St::ParseError;
    }
    std::string construct(const std::string &) const override { return std::string(); }
};
extern "C" void drv_con_receive()
{
    NdSocket sock;
    NdMessage m;
    St st = sock.receive(m);
    if(st == St::Success) vf_assert(m.last == 1, "C04", "a message is received before it is complete");
    if(st == St::WouldBlock || st == St::Timeout || st == St::NotEnoughData) vf_assert(sock.in_pos == 0, "C04", "WouldBlock or Timeout is reported although bytes were taken from the stream");
    if(m.last == 1) vf_assert(st == St::Success, "C04", "a complete message is not reported as such");
    vf_assert(m.got == sock.in_pos, "C04", "bytes taken from the stream were not parsed");
}

#include "nd.h"
#include <algorithm>
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
using namespace fr;
static const long MAXH = MAX_HTTP_HEADER_SIZE, MAXB = MAX_HTTP_BODY_SIZE;
template<typename M> static St parse(M &m, const std::string &s)
{
    try { return m.parse(s.data(), s.size()); }
    catch(...) { vf_assert(false, "C12", "an exception escapes from parsing a message"); return St::Error; }
}
static bool refused(St st) { return st != St::Success && st != St::NotEnoughData && st != St::WouldBlock && st != St::Timeout; }
static std::string upper(std::string s) { std::transform(s.begin(), s.end(), s.begin(), ::toupper); return s; }
static std::string lower(std::string s) { std::transform(s.begin(), s.end(), s.begin(), ::tolower); return s; }
#define LETTERS "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
#define WORDS LETTERS "0123456789-_."
// ---------------------------------------------------------------- limits (C11)
template<typename M> static void header_limit(const char *start)
{
    // a header that does not end, in one piece or two
    M r;
    std::string s = start, t;
    long n = (long)s.size();
    vf_string_no(&t, "\n\r?", -1);
    s += t;
    n += (long)t.size();
    St st = parse(r, s);
    if(n > MAXH) { vf_assert(st == St::HttpHeaderTooBig, "C11", "an unfinished header above the limit is not refused as such"); return; }
    vf_assert(st == St::NotEnoughData, "C11", "an unfinished header within the limit is not continued");
    if(st != St::NotEnoughData) return;
    std::string u;
    vf_string_no(&u, "\n\r?", -1);
    st = parse(r, u);
    n += (long)u.size();
    if(n > MAXH) vf_assert(st == St::HttpHeaderTooBig, "C11", "an unfinished header is accepted above the limit when it comes in several pieces");
    else vf_assert(st == St::NotEnoughData, "C11", "an unfinished header within the limit is not continued");
}
extern "C" void drv_http_req_header_limit() { header_limit<HttpRequest>("GET /"); }
extern "C" void drv_http_resp_header_limit() { header_limit<HttpResponse>("HTTP/1.1 200 OK"); }
template<typename M> static void header_ended(const char *start)
{
    // a finished header: what counts is its own length, not what follows
    M r;
    std::string s = start, t, b;
    vf_string_no(&t, "\n\r?", -1);
    s += t;
    long n = (long)s.size();
    s += "\r\n\r\n";
    vf_string(&b);
    s += b;
    if(n <= MAXH) return;
    St st = parse(r, s);
    vf_assert(st == St::HttpHeaderTooBig, "C11", "a finished header above the limit is not refused as such");
}
extern "C" void drv_http_req_header_ended() { header_ended<HttpRequest>("GET /"); }
extern "C" void drv_http_resp_header_ended() { header_ended<HttpResponse>("HTTP/1.1 200 OK"); }
// the same with a simple text, every run of which is followed
template<typename M> static void header_ended_text(const char *a, const char *b)
{
    M r;
    std::string s = a, t;
    vf_string_of(&t, "abcdefghijklmnopqrstuvwxyz", -1);
    s += t;
    s += b;
    if((long)s.size() <= MAXH) return;
    s += "\r\n\r\n";
    St st = parse(r, s);
    vf_always(st == St::HttpHeaderTooBig, "C11", "a finished header above the limit is not refused as such");
}
extern "C" void drv_http_req_header_ended_text() { header_ended_text<HttpRequest>("GET /", " HTTP/1.1"); }
extern "C" void drv_http_resp_header_ended_text() { header_ended_text<HttpResponse>("HTTP/1.1 200 ", ""); }
template<typename M> static void body_limit(const char *head, bool ends)
{
    M r;
    std::string s = head, t;
    vf_string(&t);
    s += t;
    long n = (long)t.size();
    St st = parse(r, s);
    if(n > MAXB) { vf_assert(st == St::HttpBodyTooBig, "C11", "a body above the limit is not refused as such"); return; }
    vf_assert(!refused(st), "C11", "a body within the limit is refused");
    if(st != St::NotEnoughData) return;
    std::string u;
    vf_string(&u);
    st = parse(r, u);
    n += (long)u.size();
    if(n > MAXB) vf_assert(st == St::HttpBodyTooBig, "C11", "a body is accepted above the limit when it comes in several pieces");
    else vf_assert(!refused(st), "C11", "a body within the limit is refused");
}
extern "C" void drv_http_req_body_limit() { body_limit<HttpRequest>("GET / HTTP/1.1\r\nContent-Length: 20000000\r\n\r\n", false); }
extern "C" void drv_http_req_body_limit_short() { body_limit<HttpRequest>("PUT / HTTP/1.1\r\nContent-Length: 5\r\n\r\n", true); }
extern "C" void drv_http_resp_body_limit() { body_limit<HttpResponse>("HTTP/1.1 200 OK\r\nContent-Length: 20000000\r\n\r\n", false); }
extern "C" void drv_http_resp_body_limit_none() { body_limit<HttpResponse>("HTTP/1.1 200 OK\r\nServer: x\r\n\r\n", true); }
extern "C" void drv_http_resp_chunk_limit()
{
    HttpResponse r;
    std::string s = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n", t;
    vf_string_no(&t, "\r\n", -1);
    s += t;
    long n = (long)t.size();
    St st = parse(r, s);
    if(n > MAXB) { vf_assert(refused(st), "C11", "a chunked body above the limit is accepted"); return; }
    if(st != St::NotEnoughData) return;
    std::string u;
    vf_string_no(&u, "\r\n", -1);
    st = parse(r, u);
    if((long)u.size() > MAXB) vf_assert(refused(st), "C11", "a chunked body is accepted above the limit when it comes in several pieces");
}
// ---------------------------------------------------------------- malformed input (C12)
#define VISIBLE " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
extern "C" void drv_http_req_any()
{
    HttpRequest r;
    std::string s;
    vf_string_n(&s, vf_choice(5));
    parse(r, s);
}
static void req_line(const char *a, const char *of, int n, const char *b)
{
    HttpRequest r;
    std::string s = a, t;
    vf_string_of(&t, of, n);
    s += t;
    s += b;
    parse(r, s);
}
extern "C" void drv_http_req_line1() { req_line("GET /", "/?=& HT%", 1, " HTTP/1.1\r\n\r\n"); }
extern "C" void drv_http_req_line2() { req_line("GET /?", "=&+%a ", 2, " HTTP/1.1\r\n\r\n"); }
extern "C" void drv_http_req_line3() { req_line("POST ", "/ HTP", 2, "\n\n"); }
extern "C" void drv_http_req_line4() { req_line("DELETE", "/ HTP", 1, "HTTP/1.1\r\n\r\n"); }
extern "C" void drv_http_req_line5() { req_line("", "GE /", 3, "\n\n"); }
extern "C" void drv_http_req_line6() { req_line("GET /?a=", "%0fg&=", 3, " HTTP/1.1\r\n\r\n"); }
extern "C" void drv_http_req_line7() { req_line("GET /a HTTP", "/.1 0", 3, "\r\n\r\n"); }
static void req_head(const char *a)
{
    HttpRequest r;
    std::string s = "PUT / HTTP/1.1\r\n", t, u;
    s += a;
    vf_string_no(&t, "\n\r ", 2);
    s += t;
    s += "\r\n\r\n";
    vf_string_n(&u, 2);
    s += u;
    parse(r, s);
}
extern "C" void drv_http_req_head1() { req_head(""); }
extern "C" void drv_http_req_head2() { req_head("content-length:"); }
extern "C" void drv_http_req_head3() { req_head("Transfer-Encoding: "); }
extern "C" void drv_http_req_head4() { req_head("X:"); }
extern "C" void drv_http_req_length()
{
    HttpRequest r;
    std::string s = "POST / HTTP/1.1\r\nContent-Length: ", t, u;
    vf_string_of(&t, "0123456789abcdefghijklmnopqrstuvwxyz-+.", 3);
    s += t;
    s += "\r\n\r\n";
    vf_string_of(&u, LETTERS, -1);
    s += u;
    parse(r, s);
}
extern "C" void drv_http_req_post()
{
    HttpRequest r;
    std::string s = "POST / HTTP/1.1\r\n\r\n", t;
    vf_string_of(&t, "=&+%a", 2);
    s += t;
    parse(r, s);
}
extern "C" void drv_http_req_post_lines()
{
    HttpRequest r;
    std::string s = "POST / HTTP/1.1\r\n\r\n", t;
    vf_string_of(&t, "\r\na=", 2);
    s += t;
    parse(r, s);
}
extern "C" void drv_http_req_post_end()
{
    HttpRequest r;
    std::string s = "POST / HTTP/1.1\r\nContent-Length: 1\r\n\r\n", t, u;
    vf_string_of(&t, "\r\n=", 2);
    vf_string_of(&u, "\r\n", 2);
    s += t; s += "a"; s += u;
    parse(r, s);
}
template<typename M> static void length_long(const char *a)
{
    // more digits than any integer has
    M r;
    std::string s = a, t;
    vf_string_of(&t, "0123456789", 21);
    s += "\r\ncontent-length: "; s += t; s += "\r\n\r\n";
    parse(r, s);
}
extern "C" void drv_http_req_length_long() { length_long<HttpRequest>("PUT / HTTP/1.1"); }
extern "C" void drv_http_resp_length_long() { length_long<HttpResponse>("HTTP/1.1 200 OK"); }
extern "C" void drv_http_resp_status_long()
{
    HttpResponse r;
    std::string s = "HTTP/1.1 ", t;
    vf_string_of(&t, "0123456789", vf_choice(2) ? 12 : 21);
    s += t; s += " OK\r\n\r\n";
    parse(r, s);
}
extern "C" void drv_http_resp_any()
{
    HttpResponse r;
    std::string s;
    vf_string_n(&s, vf_choice(6));
    parse(r, s);
}
static void resp_line(const char *a, const char *b)
{
    HttpResponse r;
    std::string s = a, t, u;
    vf_string_no(&t, "\n\r", vf_choice(4));
    s += t;
    s += b;
    vf_string(&u);
    s += u;
    parse(r, s);
}
extern "C" void drv_http_resp_line1() { resp_line("HTTP", "\r\n\r\n"); }
extern "C" void drv_http_resp_line2() { resp_line("HTTP/1.1 ", "\n\n"); }
extern "C" void drv_http_resp_line3() { resp_line("HTTP/1.1 2", "\r\n\r\n"); }
extern "C" void drv_http_resp_line4() { resp_line("HTTP/1.0 200", "\r\n\r\n"); }
static void resp_head(const char *a)
{
    HttpResponse r;
    std::string s = "HTTP/1.1 200 OK\r\n", t, u;
    s += a;
    vf_string_no(&t, "\n\r ", 2);
    s += t;
    s += "\r\n\r\n";
    vf_string_n(&u, 2);
    s += u;
    parse(r, s);
}
extern "C" void drv_http_resp_head1() { resp_head(""); }
extern "C" void drv_http_resp_head2() { resp_head("content-length:"); }
extern "C" void drv_http_resp_head3() { resp_head("Transfer-Encoding: chunked"); }
extern "C" void drv_http_resp_head4() { resp_head("X:"); }
#define CHUNKED "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n"
extern "C" void drv_http_resp_chunk_any()
{
    HttpResponse r;
    std::string s = CHUNKED, t, u;
    vf_string_n(&t, vf_choice(4));
    s += t;
    if(parse(r, s) != St::NotEnoughData) return;
    vf_string_n(&u, 2);
    parse(r, u);
}
static void chunk_size(long n)
{
    // any size a peer can write down
    HttpResponse r;
    std::string s = CHUNKED, t, u;
    vf_string_of(&t, "0123456789abcdefABCDEF", n);
    vf_string_n(&u, 4);
    s += t; s += "\r\n"; s += u;
    parse(r, s);
}
extern "C" void drv_http_resp_chunk_size2() { chunk_size(2); }
extern "C" void drv_http_resp_chunk_size8() { chunk_size(8); }
extern "C" void drv_http_resp_chunk_size16() { chunk_size(16); }
extern "C" void drv_http_resp_chunk_size17() { chunk_size(17); }
extern "C" void drv_http_resp_chunk_second()
{
    HttpResponse r;
    std::string s = CHUNKED "2\r\n", t, u;
    vf_string_no(&t, "\r\n", 2);
    s += t; s += "\r\n";
    vf_string_n(&u, vf_choice(4));
    s += u;
    parse(r, s);
}
extern "C" void drv_http_resp_length()
{
    HttpResponse r;
    std::string s = "HTTP/1.1 200 OK\r\nContent-Length: ", t, u;
    vf_string_of(&t, "0123456789abcdefghijklmnopqrstuvwxyz-+.", 3);
    s += t;
    s += "\r\n\r\n";
    vf_string(&u);
    s += u;
    if(parse(r, s) != St::NotEnoughData) return;
    vf_string(&u);
    parse(r, u);
}

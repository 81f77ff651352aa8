// Codecs, URL, name tables, header accessors, message construction.
#include "vf.h"
#include <algorithm>
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
#include <frnetlib/Base64.h>
#include <frnetlib/Sha1.h>
#include <frnetlib/URL.h>
using namespace fr;
typedef Socket::Status St;
#define URLCH "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.+%"
struct Open : public HttpRequest
{
    static std::vector<std::string> split(const std::string &s, char t, bool st) { return Http::split_string(s, t, st); }
    static std::vector<std::pair<std::string, std::string>> args(const std::string &s) { return Http::parse_argument_list(s); }
    void line(const std::string &s) { Http::parse_header_line(s); }
};
// ---------------------------------------------------------------- memory safety (C13)
extern "C" void drv_tx_decode()
{
    std::string s;
    vf_string_n(&s, vf_choice(5));
    Http::url_decode(s);
}
extern "C" void drv_tx_decode_any() { std::string s; vf_string(&s); Http::url_decode(s); }
extern "C" void drv_tx_encode()
{
    std::string s;
    vf_string_n(&s, vf_choice(3));
    Http::url_encode(s);
}
extern "C" void drv_tx_encode_any() { std::string s; vf_string(&s); Http::url_encode(s); }
extern "C" void drv_tx_split()
{
    std::string s;
    vf_string_n(&s, vf_choice(5));
    Open::split(s, '\n', vf_bool());
}
extern "C" void drv_tx_args()
{
    std::string s;
    vf_string_n(&s, vf_choice(5));
    Open::args(s);
}
extern "C" void drv_tx_args_eq()
{
    std::string s, t;
    vf_string_n(&s, vf_choice(3));
    vf_string_n(&t, vf_choice(4));
    Open::args(s + "=" + t);
}
extern "C" void drv_tx_line()
{
    std::string s;
    vf_string_n(&s, vf_choice(5));
    Open o;
    o.line(s);
}
extern "C" void drv_tx_line_te()
{
    std::string s, t = "transfer-encoding:";
    vf_string_n(&s, vf_choice(4));
    t += s;
    Open o;
    o.line(t);
}
extern "C" void drv_tx_mime()
{
    std::string s;
    vf_string_n(&s, vf_choice(3));
    Http::get_mimetype(s);
}
extern "C" void drv_tx_base64()
{
    std::string s;
    vf_string_n(&s, vf_choice(8));
    Base64::encode(s);
}
extern "C" void drv_tx_base64_any() { std::string s; vf_string(&s); Base64::encode(s); }
extern "C" void drv_tx_sha1()
{
    std::string s;
    vf_string_n(&s, vf_choice(3));
    Sha1::sha1_digest(s);
}
extern "C" void drv_tx_sha1_block()
{
    std::string s;
    vf_string_n(&s, 54 + vf_choice(12));
    Sha1::sha1_digest(s);
}
extern "C" void drv_tx_sha1_any() { std::string s; vf_string(&s); Sha1::sha1_digest(s); }
extern "C" void drv_tx_url()
{
    std::string s;
    vf_string_n(&s, vf_choice(4));
    URL u(s);
}
extern "C" void drv_tx_url_any() { std::string s; vf_string(&s); URL u(s); }
// ---------------------------------------------------------------- names (C17)
extern "C" void drv_tx_scheme()
{
    int e = vf_choice(7), f = vf_choice(7);
    const std::string &n = URL::scheme_to_string((URL::Scheme)e);
    vf_assert((int)URL::string_to_scheme(n) == e, "C17", "a scheme converted to its name and back is another scheme");
    const std::string &m = URL::scheme_to_string((URL::Scheme)f);
    if(e != f) vf_assert(n != m, "C17", "two schemes share a name");
}
extern "C" void drv_tx_method()
{
    int e = vf_choice(5), f = vf_choice(5);
    std::string n = Http::request_type_to_string((Http::RequestType)e), m = Http::request_type_to_string((Http::RequestType)f);
    vf_assert((int)Http::string_to_request_type(n) == e, "C17", "a method converted to its name and back is another method");
    if(e != f) vf_assert(n != m, "C17", "two methods share a name");
    vf_assert(n != "UNKNOWN", "C17", "a method has no name");
    std::string u = Http::request_type_to_string(vf_bool() ? Http::RequestType::Unknown : Http::RequestType::Partial);
    vf_assert(u != n && u == "UNKNOWN", "C17", "the name of an unknown method is that of a known one");
}
extern "C" void drv_tx_method_unknown()
{
    static const char *odd[] = {"HEAD", "OPTIONS", "get /", "FOO", "HTTP/1.1 200 OK", "TRACE / HTTP/1.1", "XGET", "POSX"};
    Http::RequestType t = Http::string_to_request_type(odd[vf_choice(8)]);
    vf_assert(t == Http::RequestType::Unknown || t == Http::RequestType::Partial, "C17", "an unknown method is taken for a known one");
}
extern "C" void drv_tx_coding()
{
    static const char *low[] = {"none", "chunked", "compress", "deflate", "gzip", "identity"};
    static const char *up[] = {"None", "CHUNKED", "Compress", "DEFLATE", "GZip", "Identity"};
    int e = vf_choice(6);
    vf_assert((int)Http::string_to_transfer_encoding(low[e]) == e, "C17", "the name of a transfer coding yields another coding");
    vf_assert((int)Http::string_to_transfer_encoding(up[e]) == e, "C17", "the name of a transfer coding in another letter case yields another coding");
    std::string u;
    vf_string_of(&u, "QWXYqwxy0123456789", -1);
    vf_assert(Http::string_to_transfer_encoding(u) == Http::TransferEncoding::None, "C17", "an unknown transfer coding is not reported as none");
}
extern "C" void drv_tx_scheme_unknown()
{
    std::string u;
    vf_string_of(&u, "QWXYqwxy0123456789", -1);
    vf_assert(URL::string_to_scheme(u) == URL::Unknown, "C17", "an unknown scheme is not reported as such");
    static const char *known[] = {"HTTP", "Https", "FTP", "MailTo", "IRC", "SFTP", "http", "https", "ftp", "mailto", "irc", "sftp"};
    int e = vf_choice(12);
    vf_assert((int)URL::string_to_scheme(known[e]) == e % 6, "C17", "the name of a scheme yields another scheme");
}
extern "C" void drv_tx_status()
{
    int e = vf_choice(22), f = vf_choice(22);
    vf_assume(e < f);
    try
    {
        std::string a = Socket::status_to_string((St)e), b = Socket::status_to_string((St)f);
        vf_assert(a != b, "C17", "two statuses share a name");
        vf_assert(!a.empty() && a != "Internal Error", "C17", "a status has no name");
    }
    catch(...) { vf_assert(false, "C17", "a status has no name"); }
}
extern "C" void drv_tx_mime_names()
{
    std::string bin = "application/octet-stream", u;
    vf_string_of(&u, "QWXYZ_", vf_choice(4));
    vf_assert(Http::get_mimetype(u) == bin, "C17", "a file without a known extension does not get the fallback MIME type");
    vf_assert(Http::get_mimetype("x.Q" + u) == bin, "C17", "an unknown extension does not get the fallback MIME type");
    static const char *f[] = {"a.png", "index.html", ".css", "x.y.js", "json", "archive.tar", "a.txt"};
    static const char *m[] = {"image/png", "text/html", "text/css", "application/javascript", "application/json", "application/x-tar", "text/plain"};
    int e = vf_choice(7);
    vf_assert(Http::get_mimetype(f[e]) == m[e], "C17", "a known extension gets another MIME type");
}
// ---------------------------------------------------------------- letter case (C14)
static std::string upper(std::string s) { std::transform(s.begin(), s.end(), s.begin(), ::toupper); return s; }
static std::string lower(std::string s) { std::transform(s.begin(), s.end(), s.begin(), ::tolower); return s; }
template<typename M> static void access()
{
    M m;
    std::string k;
    vf_string(&k);
    int how = vf_choice(6);
    std::string set = how == 0 ? k : how == 1 ? upper(k) : how == 2 ? lower(k) : how == 3 ? k : how == 4 ? upper(k) : lower(k);
    std::string use = how == 0 ? upper(k) : how == 1 ? lower(k) : how == 2 ? k : how == 3 ? lower(k) : how == 4 ? k : upper(k);
    int which = vf_choice(3);
    vf_assert(!(which == 0 ? m.header_exists(use) : which == 1 ? m.get_exists(use) : m.post_exists(use)), "C14", "a name that was never set exists");
    std::string &v = which == 0 ? m.header(set) : which == 1 ? m.get(set) : m.post(set);
    v = "value";
    vf_assert(which == 0 ? m.header_exists(use) : which == 1 ? m.get_exists(use) : m.post_exists(use), "C14", "a name that was set in another letter case does not exist");
    std::string &w = which == 0 ? m.header(use) : which == 1 ? m.get(use) : m.post(use);
    vf_assert(&v == &w, "C14", "a name in another letter case refers to another entry");
    vf_assert(w == "value", "C14", "a name in another letter case yields another value");
}
extern "C" void drv_tx_access_req() { access<HttpRequest>(); }
extern "C" void drv_tx_access_resp() { access<HttpResponse>(); }
#define LETTERS "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
extern "C" void drv_tx_case_get()
{
    std::string k, s = "GET /x?";
    vf_string_of(&k, LETTERS, 1 + vf_choice(2));
    s += k; s += "=v HTTP/1.1\r\n\r\n";
    HttpRequest r;
    if(r.parse(s.data(), s.size()) != St::Success) { vf_assert(false, "C14", "a request with a GET parameter is not parsed"); return; }
    std::string u = vf_bool() ? upper(k) : lower(k);
    vf_assert(r.get_exists(u), "C14", "a received GET parameter does not exist in another letter case");
    vf_assert(r.get(u) == "v", "C14", "a received GET parameter has another value in another letter case");
}
extern "C" void drv_tx_case_post()
{
    std::string k, s = "POST / HTTP/1.1\r\n\r\n";
    vf_string_of(&k, LETTERS, 1 + vf_choice(2));
    s += k; s += "=v";
    HttpRequest r;
    if(r.parse(s.data(), s.size()) != St::Success) { vf_assert(false, "C14", "a request with a POST parameter is not parsed"); return; }
    std::string u = vf_bool() ? upper(k) : lower(k);
    vf_assert(r.post_exists(u), "C14", "a received POST parameter does not exist in another letter case");
    vf_assert(r.post(u) == "v", "C14", "a received POST parameter has another value in another letter case");
}
template<typename M> static void case_header(const char *start)
{
    std::string k, s = start;
    vf_string_of(&k, LETTERS, 1 + vf_choice(2));
    s += "\r\n"; s += k; s += ": v\r\n\r\n";
    M r;
    if(r.parse(s.data(), s.size()) != St::Success) { vf_assert(false, "C14", "a message with a header is not parsed"); return; }
    std::string u = vf_bool() ? upper(k) : lower(k);
    vf_assert(r.header_exists(u), "C14", "a received header does not exist in another letter case");
    vf_assert(r.header(u) == "v", "C14", "a received header has another value in another letter case");
}
extern "C" void drv_tx_case_req_header() { case_header<HttpRequest>("GET / HTTP/1.1"); }
extern "C" void drv_tx_case_resp_header() { case_header<HttpResponse>("HTTP/1.1 200 OK"); }
template<typename M> static void case_length(const char *start)
{
    static const char *n[] = {"content-length", "Content-Length", "CONTENT-LENGTH", "cONTENT-lENGTH"};
    std::string s = start, t;
    s += "\r\n"; s += n[vf_choice(4)]; s += ": 5\r\n\r\nabc";
    M r;
    St st = r.parse(s.data(), s.size());
    vf_assert(st == St::NotEnoughData, "C14", "a length given in some letter case is not heeded");
    if(st != St::NotEnoughData) return;
    vf_assert(r.parse("de", 2) == St::Success, "C14", "a length given in some letter case is not heeded");
}
extern "C" void drv_tx_case_req_length() { case_length<HttpRequest>("PUT / HTTP/1.1"); }
extern "C" void drv_tx_case_resp_length() { case_length<HttpResponse>("HTTP/1.1 200 OK"); }
extern "C" void drv_tx_case_chunked()
{
    static const char *n[] = {"transfer-encoding", "Transfer-Encoding", "TRANSFER-ENCODING", "tRANSFER-eNCODING"};
    static const char *v[] = {"chunked", "Chunked", "CHUNKED"};
    std::string s = "HTTP/1.1 200 OK\r\n";
    s += n[vf_choice(4)]; s += ": "; s += v[vf_choice(3)]; s += "\r\n\r\n3\r\nabc\r\n0\r\n\r\n";
    HttpResponse r;
    vf_assert(r.parse(s.data(), s.size()) == St::Success, "C14", "a transfer coding given in some letter case is not heeded");
    vf_assert(r.get_body() == "abc", "C14", "a transfer coding given in some letter case is not heeded");
}
// ---------------------------------------------------------------- URL (C18)
static void same_url(const URL &a, const URL &b)
{
    vf_assert(a.get_scheme() == b.get_scheme(), "C18", "the scheme depends on more than the URL parsed");
    vf_same_str(&a.get_host(), &b.get_host(), "C18", "the host depends on more than the URL parsed");
    vf_same_str(&a.get_port(), &b.get_port(), "C18", "the port depends on more than the URL parsed");
    vf_same_str(&a.get_path(), &b.get_path(), "C18", "the path depends on more than the URL parsed");
    vf_same_str(&a.get_query(), &b.get_query(), "C18", "the query depends on more than the URL parsed");
    vf_same_str(&a.get_fragment(), &b.get_fragment(), "C18", "the fragment depends on more than the URL parsed");
}
static void used(URL &a)
{
    switch(vf_choice(2))
    {
        case 0: a.set_scheme(URL::IRC); a.set_host("oldhost"); a.set_port("77"); a.set_path("/oldpath"); a.set_query("oldquery"); a.set_fragment("oldfragment"); break;
        default: a.parse("https://oldhost:99/oldpath?oldquery#oldfragment"); break;
    }
}
extern "C" void drv_tx_url_again()
{
    std::string s;
    vf_string(&s);
    URL a, b;
    used(a);
    a.parse(s);
    b.parse(s);
    same_url(a, b);
}
static void url_known(const char *p, const char *q)
{
    std::string s = p, t;
    vf_string_no(&t, ":/?#", -1);
    s += t; s += q;
    URL a, b;
    used(a);
    a.parse(s);
    b.parse(s);
    same_url(a, b);
}
extern "C" void drv_tx_url_again1() { url_known("", ""); }
extern "C" void drv_tx_url_again2() { url_known("http://", ""); }
extern "C" void drv_tx_url_again3() { url_known("", "/path"); }
extern "C" void drv_tx_url_again4() { url_known("x://", "?query"); }
extern "C" void drv_tx_url_again5() { url_known("", "#fragment"); }
extern "C" void drv_tx_url_again6() { url_known("ftp://h:1/p?", ""); }
extern "C" void drv_tx_url_self()
{
    // the URL parsed may be a component of the object itself
    URL a, b;
    std::string s;
    vf_string_no(&s, ":/?#", -1);
    a.set_host(s); a.set_path("/p"); a.set_query(s); a.set_fragment(s);
    int k = vf_choice(3);
    a.parse(k == 0 ? a.get_host() : k == 1 ? a.get_query() : a.get_fragment());
    b.parse(s);
    same_url(a, b);
}
extern "C" void drv_tx_url_fresh()
{
    // no component is left indeterminate
    std::string s;
    vf_string(&s);
    URL *u = new URL(s);
    vf_assert(u->get_scheme() >= URL::HTTP && u->get_scheme() <= URL::Unknown, "C18", "the scheme is indeterminate");
    delete u;
    URL d;
    vf_assert(d.get_scheme() >= URL::HTTP && d.get_scheme() <= URL::Unknown, "C18", "the scheme is indeterminate");
}
// ---------------------------------------------------------------- components (C43)
static void url_split(bool scheme, bool port, bool path, bool query, bool frag)
{
    // every component holds any text that may stand there (RFC 3986, host names without brackets)
    static const char *sn[] = {"http", "HTTPS", "ftp", "mailto", "irc", "sftp", "gopher"};
    static const char *dp[] = {"80", "443", "21", "", "6697", "25", ""};
    std::string s, h, po, pa, q, f;
    int k = scheme ? vf_choice(7) : 6;
    if(scheme) { s += sn[k]; s += "://"; }
    vf_string_no(&h, ":/?#", -1);
    vf_assume(h.size() > 0);
    s += h;
    if(port) { vf_string_of(&po, "0123456789", -1); vf_assume(po.size() > 0); s += ":"; s += po; }
    if(path) { vf_string_no(&pa, "?#", -1); s += "/"; s += pa; }
    if(query) { vf_string_no(&q, "#", -1); vf_assume(q.size() > 0); s += "?"; s += q; }
    if(frag) { vf_string_no(&f, "", -1); s += "#"; s += f; }
    URL u(s);
    vf_assert((int)u.get_scheme() == (scheme ? k : 6), "C43", "the scheme is not the one of the URL");
    vf_same_str(&u.get_host(), &h, "C43", "the host is not the one of the URL");
    std::string ep = port ? po : std::string(dp[k]), ppath = path ? "/" + pa : std::string();
    vf_same_str(&u.get_port(), &ep, "C43", "the port is not the one of the URL or the default one of its scheme");
    vf_same_str(&u.get_path(), &ppath, "C43", "the path is not the one of the URL");
    vf_same_str(&u.get_query(), &q, "C43", "the query is not the one of the URL");
    vf_same_str(&u.get_fragment(), &f, "C43", "the fragment is not the one of the URL");
}
extern "C" void drv_tx_url_split1() { url_split(true, vf_bool(), false, false, false); }
extern "C" void drv_tx_url_split2() { url_split(true, vf_bool(), true, false, false); }
extern "C" void drv_tx_url_split3() { url_split(true, vf_bool(), false, true, false); }
extern "C" void drv_tx_url_split4() { url_split(true, vf_bool(), false, false, true); }
extern "C" void drv_tx_url_split5() { url_split(true, vf_bool(), true, true, false); }
extern "C" void drv_tx_url_split6() { url_split(true, vf_bool(), true, true, true); }
extern "C" void drv_tx_url_split7() { url_split(true, vf_bool(), true, false, true); }
extern "C" void drv_tx_url_split8() { url_split(false, vf_bool(), true, vf_bool(), vf_bool()); }
extern "C" void drv_tx_url_split9() { url_split(false, vf_bool(), false, true, vf_bool()); }
static void url_uri(bool path, bool query, bool frag)
{
    // what follows the host is reproduced by get_uri(), the whole by get_url()
    std::string s = "http://", h, pa, q, f, rest;
    vf_string_no(&h, ":/?#", -1);
    vf_assume(h.size() > 0);
    s += h;
    s += ":8080";
    if(path) { vf_string_no(&pa, "?#", -1); rest += "/"; rest += pa; }
    if(query) { vf_string_no(&q, "#", -1); vf_assume(q.size() > 0); rest += "?"; rest += q; }
    if(frag) { vf_string_no(&f, "", -1); vf_assume(f.size() > 0); rest += "#"; rest += f; }
    s += rest;
    URL u(s);
    std::string uri = u.get_uri(), url = u.get_url();
    vf_same_str(&uri, &rest, "C43", "the URI is not what follows host and port");
    vf_same_str(&url, &s, "C43", "get_url() does not reproduce the URL that was parsed");
}
extern "C" void drv_tx_url_uri() { url_uri(vf_bool(), vf_bool(), vf_bool()); }

// Opening handshake of a WebSocket (C21), over a transport that may do anything a transport is allowed to.
#include "vf.h"
#include <algorithm>
#include <memory>
#include <frnetlib/WebSocket.h>
using namespace fr;
typedef Socket::Status St;
#define GUID "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
#define TOKEN "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/="
static std::string lower(std::string s) { std::transform(s.begin(), s.end(), s.begin(), ::tolower); return s; }
static std::string derived(const std::string &key) { return Base64::encode(Sha1::sha1_digest(key + GUID)); }
static St any_failure() { return (St)vf_int(2, 21); }    // every status but Unknown and Success
static long w_seconds;
class Peer : public fr::Socket
{
public:
    bool is_conn, closed_after;
    int desc;
    int sent_requests, sent_responses, received_requests, received_responses, frames, after;
    St sent_status;                 // of the handshake message
    St recv_status;                 // of the last message received
    std::string key, accept, uri, up;   // what went over the wire
    int resp_code;                  // status of the response of the peer
    bool get_ok, accept_set, head_ok;
    int out_code;
    Peer() : is_conn(false), closed_after(false), desc(-1), sent_requests(0), sent_responses(0), received_requests(0), received_responses(0), frames(0), after(0),
             sent_status(St::Error), recv_status(St::Error), resp_code(0), get_ok(false), accept_set(false), head_ok(false), out_code(0) {}
    St connect(const std::string &a, const std::string &p, std::chrono::seconds t) override
    {
        vf_assert(a == "h" && p == "80", "C51", "a WebSocket connects to another host or port than the one given");
        vf_assert(t.count() == w_seconds, "C50", "a WebSocket connects with another timeout than the one given");
        if(vf_bool()) return any_failure();
        is_conn = true;
        desc = 7;
        return St::Success;
    }
    // a message handed to the connection
    St send(const Sendable &o)
    {
        if(!is_conn) return St::Disconnected;
        if(const HttpRequest *q = dynamic_cast<const HttpRequest *>(&o))
        {
            HttpRequest c = *q;
            ++sent_requests;
            key = c.header("sec-websocket-key");
            uri = c.get_uri();
            Http::RequestType t = c.get_type();
            get_ok = t == Http::RequestType::Get || t == Http::RequestType::Unknown;
            head_ok = lower(c.header("upgrade")) == "websocket" && lower(c.header("connection")) == "upgrade" && c.header("sec-websocket-version") == "13" && c.get_version() == Http::RequestVersion::V1_1;
            sent_status = vf_bool() ? St::Success : any_failure();
            return sent_status;
        }
        if(const HttpResponse *q = dynamic_cast<const HttpResponse *>(&o))
        {
            HttpResponse c = *q;
            ++sent_responses;
            accept = c.header("sec-websocket-accept");
            out_code = (int)c.get_status();
            head_ok = lower(c.header("upgrade")) == "websocket" && lower(c.header("connection")) == "upgrade" && c.get_body().empty();
            sent_status = vf_bool() ? St::Success : any_failure();
            return sent_status;
        }
        ++frames;
        return vf_bool() ? St::Success : any_failure();
    }
    // a message of the peer
    St receive(Sendable &o)
    {
        if(!is_conn) return St::Disconnected;
        // what a failing receive leaves in the message is its own affair
        recv_status = vf_bool() ? St::Success : any_failure();
        if(recv_status != St::Success && vf_bool()) return recv_status;
        if(HttpResponse *r = dynamic_cast<HttpResponse *>(&o))
        {
            vf_assert(sent_requests > 0, "C21", "the answer to an upgrade request is awaited before the request was sent");
            ++received_responses;
            switch(vf_choice(4))
            {
                case 0: resp_code = 101; break;
                case 1: resp_code = 200; break;
                case 2: resp_code = 404; break;
                default: resp_code = 100; break;
            }
            r->set_status((Http::RequestStatus)resp_code);
            if(vf_bool()) { vf_string_of(&accept, TOKEN, -1); accept_set = true; r->header("Sec-WebSocket-Accept") = accept; }
            if(vf_bool()) r->header("Upgrade") = "websocket";
            return recv_status;
        }
        if(HttpRequest *r = dynamic_cast<HttpRequest *>(&o))
        {
            ++received_requests;
            switch(vf_choice(4))
            {
                case 0: r->set_type(Http::RequestType::Get); get_ok = true; break;
                case 1: r->set_type(Http::RequestType::Post); break;
                case 2: r->set_type(Http::RequestType::Patch); break;
                default: r->set_type(Http::RequestType::Put); break;
            }
            switch(vf_choice(3))
            {
                case 0: break;
                case 1: up = "websocket"; r->header("Upgrade") = up; break;
                default: vf_string_of(&up, TOKEN, -1); r->header("Upgrade") = up; break;
            }
            if(vf_bool()) { vf_string_of(&key, TOKEN, -1); r->header("Sec-WebSocket-Key") = key; }
            return recv_status;
        }
        return St::ParseError;
    }
    St send_raw(const char *, size_t n, size_t &sent) override { if(vf_bool()) return any_failure(); sent = n; return St::Success; }
    St receive_raw(void *, size_t, size_t &received) override { received = 0; return any_failure(); }
    St set_blocking(bool) override { return St::Success; }
    bool get_blocking() const override { return true; }
    void set_descriptor(void *d) override { desc = d ? *(int *)d : -1; is_conn = desc != -1; }
    int32_t get_socket_descriptor() const noexcept override { return desc; }
    bool connected() const noexcept override { return is_conn; }
protected:
    void close_socket() override { is_conn = false; desc = -1; }
    void reconfigure_socket() override {}
};
typedef WebSocket<Peer> Ws;
static void client_result(Ws &w, St st)
{
    if(st == St::Success)
    {
        vf_assert(w.is_conn, "C21", "a WebSocket connect succeeded without a connection");
        vf_assert(w.sent_requests == 1 && w.sent_status == St::Success, "C21", "a WebSocket connect succeeded although the upgrade request was not sent");
        vf_assert(w.recv_status == St::Success, "C21", "a WebSocket connect succeeded although the answer was not received");
        vf_assert(w.received_responses == 1 && w.resp_code == 101, "C21", "a WebSocket connect succeeded without a 101 response");
        vf_assert(w.get_ok && w.head_ok, "C21", "the upgrade request is not the one of the protocol");
        vf_assert(!w.key.empty(), "C21", "the upgrade request carries no key");
        std::string d = derived(w.key);
        vf_assert(w.accept_set && w.accept == d, "C21", "a WebSocket connect succeeded although the accept key is not the one of the key that was sent");
    }
    else
    {
        vf_assert(!w.is_conn, "C21", "a WebSocket whose handshake failed is still connected");
        vf_assert(w.desc == -1, "C21", "a WebSocket whose handshake failed still has a descriptor");
    }
}
extern "C" void drv_ws_connect()
{
    Ws w;
    Socket &s = w;
    client_result(w, s.connect("h", "80", std::chrono::seconds(w_seconds = vf_int(0, 0x7fffffffL))));
}
extern "C" void drv_ws_connect_path()
{
    Ws w;
    std::string p, a;
    vf_string_of(&p, TOKEN, -1);
    vf_string_of(&a, TOKEN, -1);
    std::vector<std::string> protos;
    if(vf_bool()) protos.push_back(a);
    St st = w.connect("h", "80", "/" + p, protos, std::chrono::seconds(w_seconds = vf_int(0, 0x7fffffffL)));
    client_result(w, st);
    if(st == St::Success) vf_assert(w.uri == "/" + p, "C21", "another resource than the one asked for is requested");
}
extern "C" void drv_ws_reconnect()
{
    Ws w;
    Socket &s = w;
    if(s.connect("h", "80", std::chrono::seconds(w_seconds = vf_int(0, 0x7fffffffL))) != St::Success) return;
    w.disconnect();
    vf_assert(!w.is_conn, "C21", "a disconnected WebSocket is still connected");
    w.sent_requests = w.received_responses = 0;
    w.accept_set = false;
    client_result(w, s.connect("h", "80", std::chrono::seconds(w_seconds = vf_int(0, 0x7fffffffL))));
}
extern "C" void drv_ws_adopt()
{
    Ws w;
    Socket &s = w;
    int d = 5;
    bool ok = true;
    try { s.set_descriptor(&d); }
    catch(...) { ok = false; }
    if(!ok) return;
    vf_assert(w.received_requests == 1, "C21", "a connection is taken over without its opening handshake");
    vf_assert(w.recv_status == St::Success, "C21", "a connection is taken over although the request was not received");
    vf_assert(w.get_ok, "C21", "a connection is taken over for a request that is no GET");
    vf_assert(lower(w.up) == "websocket", "C21", "a connection is taken over for a request that does not ask for the websocket upgrade");
    vf_assert(w.sent_responses == 1 && w.sent_status == St::Success, "C21", "a connection is taken over although the handshake was not answered");
    vf_assert(w.out_code == 101 && w.head_ok, "C21", "the answer to a handshake is not the one of the protocol");
    std::string e = derived(w.key);
    vf_same_str(&w.accept, &e, "C21", "the key of the answer is not derived from the request");
}
extern "C" void drv_ws_adopt_none()
{
    Ws w;
    Socket &s = w;
    int d = -1;
    bool ok = true;
    try { s.set_descriptor(vf_bool() ? (void *)&d : nullptr); }
    catch(...) { ok = false; }
    vf_assert(!ok || w.received_requests == 0, "C21", "a handshake is read from no connection");
    vf_assert(ok, "C21", "giving up a descriptor raises an error");
}

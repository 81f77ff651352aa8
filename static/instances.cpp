#include <frnetlib/Packet.h>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/SSLSocket.h>
#include <frnetlib/SSLListener.h>
#include <frnetlib/WebSocket.h>
#include <frnetlib/SocketSelector.h>
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
#include <frnetlib/URL.h>
#include <frnetlib/Base64.h>
#include <frnetlib/Sha1.h>
#include <frnetlib/NetworkEncoding.h>
// Instantiates what the library has as templates and inline functions.
struct P : fr::Packetable
{
    int v = 0;
    void pack(fr::Packet &o) const override { o << v; }
    void unpack(fr::Packet &o) override { o >> v; }
};
enum class E8 : uint8_t { A, B };
template<class T> static void both(fr::Packet &p) { T t{}; p << t; p >> t; }
template class fr::WebSocket<fr::TcpSocket>;

void all()
{
    fr::init_wsa();
    fr::Packet p;
    both<bool>(p); both<uint8_t>(p); both<int16_t>(p); both<uint16_t>(p); both<int32_t>(p); both<uint32_t>(p); both<int64_t>(p); both<uint64_t>(p); both<float>(p); both<double>(p);
    both<std::string>(p); both<std::vector<std::string>>(p); both<std::map<std::string, int>>(p); both<std::unordered_map<std::string, int>>(p); both<std::pair<int, std::string>>(p); both<E8>(p); both<P>(p);
    fr::Http::string_to_transfer_encoding("x"); fr::Http::string_to_request_type("GET");
    fr::URL u; u.get_host();
    fr::Sha1::sha1_digest("x");
    auto c = std::make_shared<fr::SSLContext>();
    fr::SSLSocket s(c);
    fr::SSLListener l(c, "a", "b");
    fr::TcpListener tl; fr::TcpSocket ts;

}

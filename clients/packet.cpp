// Packets: extraction, format, framing. A packet in any state earlier use can leave it in, any payload, any operation.
#include "nd.h"
#include <map>
#include <unordered_map>
using fr::Packet;
#define MAXP (1L << 30)
static void inv(const Packet &p)
{
    size_t c = p.get_cursor(), s = p.size();
    vf_assert((long)c >= 0 && c <= s, "C01", "the cursor is outside the packet");
    vf_assert(p.get_bytes_remaining() == s - c, "C01", "get_bytes_remaining() is not size() - cursor");
}
static void any_payload(Packet &p, std::string &s)
{
    vf_string(&s);
    vf_assume((long)s.size() <= MAXP);
    p.add_raw(s.data(), s.size());
}
static void any_packet(Packet &p)
{
    std::string s;
    any_payload(p, s);
    if(vf_bool())
    {
        long c = vf_int(0, MAXP);
        vf_assume(c <= (long)s.size());
        p.set_cursor((size_t)c);
    }
}
// ---------------------------------------------------------------- extraction of fixed width values
template<typename T> static void extract_fixed(size_t width)
{
    Packet p;
    any_packet(p);
    size_t before = p.get_cursor(), left = p.get_bytes_remaining(), n = p.size();
    T v;
    try
    {
        p >> v;
        vf_assert(left >= width, "C01", "an extraction returns bytes the packet does not have");
        vf_assert(p.get_cursor() == before + width, "C01", "an extraction does not advance the cursor by what it returned");
    }
    catch(const std::out_of_range &)
    {
        vf_assert(left < width, "C01", "an extraction fails although the packet holds enough bytes");
    }
    catch(...) { vf_assert(false, "C01", "an extraction throws something else than std::out_of_range"); }
    vf_assert(p.size() == n, "C01", "an extraction changes the size of the packet");
    inv(p);
}
enum E32 : uint32_t { E32a };
enum class E8 : int8_t { a };
extern "C" void drv_pk_ex_u8() { extract_fixed<uint8_t>(1); }
extern "C" void drv_pk_ex_u16() { extract_fixed<uint16_t>(2); extract_fixed<int16_t>(2); }
extern "C" void drv_pk_ex_u32() { extract_fixed<uint32_t>(4); extract_fixed<int32_t>(4); }
extern "C" void drv_pk_ex_u64() { extract_fixed<uint64_t>(8); extract_fixed<int64_t>(8); }
extern "C" void drv_pk_ex_flt() { extract_fixed<float>(4); extract_fixed<double>(8); }
extern "C" void drv_pk_ex_enum() { extract_fixed<E32>(4); extract_fixed<E8>(4); }
extern "C" void drv_pk_ex_pair() { extract_fixed<std::pair<uint16_t, uint8_t>>(3); }
extern "C" void drv_pk_ex_bool()
{
    extract_fixed<bool>(1);
    Packet p;
    char c = (char)vf_int(-128, 127);
    p.add_raw(&c, 1);
    bool b;
    p >> b;
    unsigned char r;
    memcpy(&r, &b, 1);
    vf_assert(r <= 1, "C02", "extracting a bool yields something that is neither true nor false");
}
extern "C" void drv_pk_ex_raw()
{
    Packet p;
    any_packet(p);
    size_t before = p.get_cursor(), left = p.get_bytes_remaining();
    size_t n;
    int o = vf_choice(3);
    if(o == 0) n = (size_t)vf_int(0, MAXP);
    else if(o == 1) n = (size_t)-vf_int(1, 1 << 20);         // close to the largest size_t
    else n = (size_t)vf_int(MAXP + 1, 1L << 50);
    char *dst = (char *)vf_alloc((long)(o == 0 ? n : 1));
    try
    {
        p.extract_raw(dst, n);
        vf_assert(left >= n, "C01", "an extraction returns bytes the packet does not have");
        vf_assert(p.get_cursor() == before + n, "C01", "an extraction does not advance the cursor by what it returned");
    }
    catch(const std::out_of_range &)
    {
        vf_assert(left < n, "C01", "an extraction fails although the packet holds enough bytes");
        vf_assert(p.get_cursor() == before, "C01", "a failed extraction moves the cursor");
    }
    vf_free(dst);
    inv(p);
}
extern "C" void drv_pk_ex_string()
{
    Packet p;
    any_packet(p);
    size_t before = p.get_cursor(), left = p.get_bytes_remaining();
    std::string s;
    if(vf_bool()) vf_string(&s);
    try
    {
        p >> s;
        vf_assert(left >= 4 + s.size(), "C01", "an extraction returns bytes the packet does not have");
        vf_assert(p.get_cursor() == before + 4 + s.size(), "C01", "an extraction does not advance the cursor by what it returned");
    }
    catch(const std::out_of_range &) {}
    catch(...) { vf_assert(false, "C01", "an extraction throws something else than std::out_of_range"); }
    inv(p);
}
extern "C" void drv_pk_ex_vector()
{
    Packet p;
    any_packet(p);
    size_t left = p.get_bytes_remaining();
    std::vector<uint32_t> v;
    vf_limit((long)left + 64, "C01", "memory is reserved for more elements than the packet can hold");
    try
    {
        p >> v;
        vf_assert(left >= 4 + 4 * v.size(), "C01", "an extraction returns elements the packet does not have");
    }
    catch(const std::out_of_range &) {}
    catch(...) { vf_assert(false, "C01", "an extraction throws something else than std::out_of_range"); }
    vf_limit(-1, "", "");
    inv(p);
}
// ---------------------------------------------------------------- cursor
extern "C" void drv_pk_cursor()
{
    Packet p;
    any_packet(p);
    long n = (long)p.size(), c = (long)p.get_cursor();
    int o = vf_choice(5);
    if(o == 0)
    {
        long t = vf_int(0, 1L << 50);
        p.set_cursor((size_t)t);
        if(t <= n) vf_assert((long)p.get_cursor() == t, "C01", "set_cursor to a position inside the packet does not go there");
        else vf_assert((long)p.get_cursor() == n, "C01", "set_cursor beyond the end does not go to the end");
    }
    else if(o == 1)
    {
        p.set_cursor((size_t)-vf_int(1, 1 << 20));
        vf_assert((long)p.get_cursor() == n, "C01", "set_cursor far beyond the end does not go to the end");
    }
    else if(o == 2)
    {
        long t = vf_int(-(1L << 50), 1L << 50);
        p.seek_cursor(t);
        if(c + t < 0) vf_assert(p.get_cursor() == 0, "C01", "a seek before the start does not go to the start");
        else if(c + t > n) vf_assert((long)p.get_cursor() == n, "C01", "a seek beyond the end does not go to the end");
        else vf_assert((long)p.get_cursor() == c + t, "C01", "a relative seek does not go where it should");
    }
    else if(o == 3)
    {
        p.seek_cursor(0x7fffffffffffffffL - vf_int(0, 2));
        vf_assert((long)p.get_cursor() == n, "C01", "a seek far beyond the end does not go to the end");
    }
    else
    {
        p.seek_cursor((ssize_t)(-0x7fffffffffffffffL - 1) + vf_int(0, 2));
        vf_assert(p.get_cursor() == 0, "C01", "a seek far before the start does not go to the start");
    }
    vf_assert((long)p.size() == n, "C01", "moving the cursor changes the size of the packet");
    inv(p);
}
extern "C" void drv_pk_clear()
{
    Packet p;
    any_packet(p);
    p.clear();
    vf_assert(p.size() == 0, "C01", "a cleared packet is not empty");
    inv(p);
    p << (uint16_t)7;
    uint16_t v = 0;
    p >> v;
    vf_assert(v == 7, "C02", "a cleared packet does not work like a new one");
    inv(p);
}
extern "C" void drv_pk_set_buffer()
{
    Packet p;
    any_packet(p);
    std::string s;
    vf_string(&s);
    vf_assume((long)s.size() <= MAXP);
    p.set_buffer(std::move(s));
    inv(p);
    if(vf_bool())
    {
        uint32_t v = 0;
        size_t left = p.get_bytes_remaining();
        try { p >> v; vf_assert(left >= 4, "C01", "an extraction returns bytes the packet does not have"); }
        catch(const std::out_of_range &) { vf_assert(left < 4, "C01", "an extraction fails although the packet holds enough bytes"); }
        inv(p);
    }
    else
    {
        NdSocket sock;
        sock.send(p);
        inv(p);
    }
}
// ---------------------------------------------------------------- format
// what is in front must not matter; what is behind must not be touched
template<typename T> static void round_trip(T v, long be, int width)
{
    Packet p;
    std::string pre;
    any_payload(p, pre);
    size_t at = p.size();
    p << v;
    vf_assert(p.size() == at + width, "C02", "an insertion does not add the bytes of its width");
    inv(p);
    p << (uint8_t)0x5a;
    p.set_cursor(at);
    if(be != -(1L << 62))
    {
        char raw[8];
        p.extract_raw(raw, width);
        vf_be(raw, width, be, "C02", "a value is not laid out most significant byte first");
        p.set_cursor(at);
    }
    T w;
    p >> w;
    vf_assert(w == v, "C02", "extracting does not yield the value that was inserted");
    vf_assert(p.get_cursor() == at + width, "C02", "extracting does not consume what the insertion produced");
    uint8_t tail = 0;
    p >> tail;
    vf_assert(tail == 0x5a, "C02", "extracting leaves the following value somewhere else");
}
#define NOBE (-(1L << 62))
extern "C" void drv_pk_rt_u8() { long v = vf_int(0, 255); round_trip<uint8_t>((uint8_t)v, v, 1); }
extern "C" void drv_pk_rt_bool() { bool v = vf_bool(); round_trip<bool>(v, v ? 1 : 0, 1); }
extern "C" void drv_pk_rt_u16() { long v = vf_int(0, 0xffff); round_trip<uint16_t>((uint16_t)v, v, 2); }
extern "C" void drv_pk_rt_i16() { long v = vf_int(-0x8000, 0x7fff); round_trip<int16_t>((int16_t)v, v < 0 ? v + 0x10000 : v, 2); }
extern "C" void drv_pk_rt_u32() { long v = vf_int(0, 0xffffffffL); round_trip<uint32_t>((uint32_t)v, v, 4); }
extern "C" void drv_pk_rt_i32() { long v = vf_int(-0x80000000L, 0x7fffffffL); round_trip<int32_t>((int32_t)v, v < 0 ? v + 0x100000000L : v, 4); }
extern "C" void drv_pk_rt_u64() { long v = vf_int(0, 0x7fffffffffffffffL); round_trip<uint64_t>((uint64_t)v, v, 8); }
extern "C" void drv_pk_rt_i64() { long v = vf_int(-0x7fffffffffffffffL - 1, 0x7fffffffffffffffL); round_trip<int64_t>(v, v, 8); }
extern "C" void drv_pk_rt_enum()
{
    long v = vf_int(0, 0xffffffffL);
    round_trip<E32>((E32)v, v, 4);
    long w = vf_int(-128, 127);
    round_trip<E8>((E8)w, w < 0 ? w + 0x100000000L : w, 4);
}
// floating point values: the bit patterns must come back
extern "C" void drv_pk_rt_float()
{
    Packet p;
    uint32_t bits = (uint32_t)vf_int(0, 0xffffffffL);
    float f, g;
    memcpy(&f, &bits, 4);
    p << f;
    vf_assert(p.size() == 4, "C02", "a float is not four bytes");
    char raw[4];
    p.extract_raw(raw, 4);
    vf_be(raw, 4, (long)bits, "C02", "a float is not laid out most significant byte first");
    p.set_cursor(0);
    p >> g;
    uint32_t back;
    memcpy(&back, &g, 4);
    vf_assert(back == bits, "C02", "extracting does not yield the float that was inserted");
    vf_assert(p.get_cursor() == 4, "C02", "extracting a float does not consume what the insertion produced");
}
extern "C" void drv_pk_rt_double()
{
    Packet p;
    uint64_t bits = (uint64_t)vf_int(0, 0x7fffffffffffffffL);
    double f, g;
    memcpy(&f, &bits, 8);
    p << f;
    vf_assert(p.size() == 8, "C02", "a double is not eight bytes");
    char raw[8];
    p.extract_raw(raw, 8);
    vf_be(raw, 8, (long)bits, "C02", "a double is not laid out most significant byte first");
    p.set_cursor(0);
    p >> g;
    uint64_t back;
    memcpy(&back, &g, 8);
    vf_assert(back == bits, "C02", "extracting does not yield the double that was inserted");
    vf_assert(p.get_cursor() == 8, "C02", "extracting a double does not consume what the insertion produced");
}
static void check_string(Packet &p, size_t at, const std::string &s)
{
    vf_assert(p.size() == at + 4 + s.size(), "C02", "a string does not add its length and its bytes");
    inv(p);
    p.set_cursor(at);
    char raw[4];
    p.extract_raw(raw, 4);
    vf_be(raw, 4, (long)s.size(), "C02", "a string is not preceded by its length");
    p.set_cursor(at);
    std::string t;
    if(vf_bool()) t = "old";
    p >> t;
    vf_same_str(&t, &s, "C02", "extracting does not yield the string that was inserted");
    vf_assert(p.get_cursor() == p.size(), "C02", "extracting a string does not consume what the insertion produced");
}
extern "C" void drv_pk_rt_string()
{
    Packet p;
    std::string pre, s;
    any_payload(p, pre);
    size_t at = p.size();
    if(vf_bool()) s.assign("a\0b", 3);
    else vf_string(&s);
    vf_assume((long)s.size() <= MAXP);
    p << s;
    check_string(p, at, s);
}
extern "C" void drv_pk_rt_cstring()
{
    Packet p;
    std::string s;
    vf_string_no(&s, "", 1);   // no NUL
    vf_assume((long)s.size() <= MAXP);
    p << s.c_str();
    check_string(p, 0, s);
}
extern "C" void drv_pk_rt_raw()
{
    Packet p;
    std::string pre, s;
    any_payload(p, pre);
    size_t at = p.size();
    vf_string(&s);
    vf_assume((long)s.size() <= MAXP);
    p.add_raw(s.data(), s.size());
    vf_assert(p.size() == at + s.size(), "C02", "add_raw does not add the bytes it is given");
    if(s.size() > 0)
    {
        std::string t;
        t.resize(s.size());
        p.set_cursor(at);
        p.extract_raw(&t[0], t.size());
        vf_same_str(&t, &s, "C02", "extract_raw does not yield the bytes that were added");
    }
}
extern "C" void drv_pk_rt_pair()
{
    Packet p;
    long a = vf_int(0, 0xffff), b = vf_int(0, 0xffffffffL);
    std::pair<uint16_t, uint32_t> v((uint16_t)a, (uint32_t)b), w;
    p << v;
    vf_assert(p.size() == 6, "C02", "a pair does not add its two values");
    p >> w;
    vf_assert(w.first == v.first && w.second == v.second, "C02", "extracting does not yield the pair that was inserted");
    vf_assert(p.get_cursor() == 6, "C02", "extracting a pair does not consume what the insertion produced");
}
extern "C" void drv_pk_rt_vector()
{
    Packet p;
    std::vector<uint16_t> v, w;
    int n = vf_choice(3);
    if(n > 0) v.push_back((uint16_t)vf_int(0, 0xffff));
    if(n > 1) v.push_back((uint16_t)vf_int(0, 0xffff));
    if(vf_bool()) w.push_back(1);
    if(vf_bool()) { w.push_back(2); w.push_back(3); w.push_back(4); }
    p << v;
    vf_assert((long)p.size() == 4 + 2 * n, "C02", "a vector does not add its count and its elements");
    char raw[4];
    p.extract_raw(raw, 4);
    vf_be(raw, 4, n, "C02", "a vector is not preceded by the number of its elements");
    p.set_cursor(0);
    p >> w;
    vf_assert((long)w.size() == n, "C02", "extracting a vector yields another number of elements");
    if(n > 0) vf_assert(w[0] == v[0], "C02", "extracting a vector yields another first element");
    if(n > 1) vf_assert(w[1] == v[1], "C02", "extracting a vector yields another second element");
    vf_assert(p.get_cursor() == p.size(), "C02", "extracting a vector does not consume what the insertion produced");
}
extern "C" void drv_pk_rt_vbool()
{
    Packet p;
    std::vector<bool> v, w;
    int n = vf_choice(3);
    if(n > 0) v.push_back(vf_bool());
    if(n > 1) v.push_back(vf_bool());
    p << v;
    vf_assert((long)p.size() == 4 + n, "C02", "a vector of bool does not add its count and its elements");
    p >> w;
    vf_assert((long)w.size() == n, "C02", "extracting a vector of bool yields another number of elements");
    if(n > 0) vf_assert(w[0] == v[0], "C02", "extracting a vector of bool yields another first element");
    if(n > 1) vf_assert(w[1] == v[1], "C02", "extracting a vector of bool yields another second element");
}
extern "C" void drv_pk_rt_range()
{
    Packet p;
    uint32_t a[2] = {(uint32_t)vf_int(0, 0xffffffffL), (uint32_t)vf_int(0, 0xffffffffL)};
    int n = vf_choice(3);
    p.add_range(a, a + n);
    vf_assert((long)p.size() == 4 + 4 * n, "C02", "a range does not add its count and its elements");
    std::vector<uint32_t> w;
    p >> w;
    vf_assert((long)w.size() == n, "C02", "extracting a range yields another number of elements");
    if(n > 0) vf_assert(w[0] == a[0], "C02", "extracting a range yields another first element");
    if(n > 1) vf_assert(w[1] == a[1], "C02", "extracting a range yields another second element");
}
template<typename M> static void map_trip()
{
    Packet p;
    M m, r;
    long k1 = vf_int(0, 99), k2 = vf_int(100, 0x7fff), v1 = vf_int(0, 0xffffffffL), v2 = vf_int(0, 0xffffffffL);
    int n = vf_choice(3);
    if(n > 0) m.emplace((uint16_t)k1, (uint32_t)v1);
    if(n > 1) m.emplace((uint16_t)k2, (uint32_t)v2);
    p << m;
    vf_assert((long)p.size() == 4 + 6 * n, "C02", "a map does not add its count and its elements");
    char raw[4];
    p.extract_raw(raw, 4);
    vf_be(raw, 4, n, "C02", "a map is not preceded by the number of its elements");
    p.set_cursor(0);
    if(vf_bool()) r.emplace((uint16_t)0x8000, (uint32_t)1);
    p >> r;
    vf_assert((long)r.size() == n, "C02", "extracting a map yields another number of elements");
    if(n > 0) { auto i = r.find((uint16_t)k1); vf_assert(i != r.end() && i->second == (uint32_t)v1, "C02", "extracting a map loses or changes an element"); }
    if(n > 1) { auto i = r.find((uint16_t)k2); vf_assert(i != r.end() && i->second == (uint32_t)v2, "C02", "extracting a map loses or changes an element"); }
    vf_assert(p.get_cursor() == p.size(), "C02", "extracting a map does not consume what the insertion produced");
}
extern "C" void drv_pk_rt_map() { map_trip<std::map<uint16_t, uint32_t>>(); }
extern "C" void drv_pk_rt_umap() { map_trip<std::unordered_map<uint16_t, uint32_t>>(); }
struct Obj : public fr::Packetable
{
    uint32_t a; std::string b;
    void pack(fr::Packet &o) const override { o << a << b; }
    void unpack(fr::Packet &i) override { i >> a >> b; }
};
extern "C" void drv_pk_rt_object()
{
    Packet p;
    Obj x, y;
    x.a = (uint32_t)vf_int(0, 0xffffffffL);
    vf_string(&x.b);
    vf_assume((long)x.b.size() <= MAXP);
    p << x;
    p >> y;
    vf_assert(y.a == x.a, "C02", "unpacking an object yields another value");
    vf_same_str(&y.b, &x.b, "C02", "unpacking an object yields another string");
    vf_assert(p.get_cursor() == p.size(), "C02", "unpacking an object does not consume what packing produced");
}
extern "C" void drv_pk_rt_many()
{
    std::string s;
    vf_string(&s);
    vf_assume((long)s.size() <= MAXP);
    long a = vf_int(0, 0xffffffffL), b = vf_int(0, 0xffff), d = vf_int(0, 0x7fffffffffffffffL);
    Packet p((uint32_t)a, (uint16_t)b, s, (uint64_t)d);
    vf_assert(p.size() == 18 + s.size(), "C02", "constructing from several values does not add all of them");
    uint32_t a2; uint16_t b2; std::string s2; uint64_t d2;
    p >> a2 >> b2 >> s2 >> d2;
    vf_assert(a2 == (uint32_t)a, "C02", "the first of several values comes back changed");
    vf_assert(b2 == (uint16_t)b, "C02", "the second of several values comes back changed");
    vf_assert(d2 == (uint64_t)d, "C02", "the last of several values comes back changed");
    vf_same_str(&s2, &s, "C02", "a string among other values comes back changed");
}
// ---------------------------------------------------------------- framing
static void check_frame(NdSocket &sock, const std::string &s)
{
    vf_assert(!sock.seg_open, "C05", "a packet is reported as sent although part of it was not");
    vf_assert(sock.out.size() == s.size() + 4, "C03", "a packet is not sent as four bytes of length and its payload");
    vf_be(sock.out.data(), 4, (long)s.size(), "C03", "the length in front of a packet is not the size of its payload");
    vf_same_bytes(sock.out.data() + 4, s.data(), (long)s.size(), "C03", "what is sent is not the payload");
}
extern "C" void drv_pk_send()
{
    NdSocket sock;
    std::string s;
    Packet p;
    any_payload(p, s);
    if(vf_bool()) { long c = vf_int(0, MAXP); vf_assume(c <= (long)s.size()); p.set_cursor((size_t)c); }
    size_t cur = p.get_cursor();
    if(vf_bool()) sock.is_conn = false;
    St st = sock.send(p);
    if(!sock.is_conn) { vf_assert(st == St::Disconnected && sock.segs == 0, "C06", "sending through a closed socket does not report Disconnected"); }
    else
    {
        vf_assert(st != St::WouldBlock, "C05", "a packet is given up half way because the socket would block");
        if(st == St::Success) check_frame(sock, s);
        else vf_assert(sock.seg_open, "C05", "a packet that was sent completely is reported as failed");
    }
    vf_assert(p.size() == s.size() && p.get_cursor() == cur, "C16", "sending changes the size or the cursor of the packet");
    if(s.size() > 0)
    {
        std::string t;
        t.resize(s.size());
        p.set_cursor(0);
        p.extract_raw(&t[0], t.size());
        vf_same_str(&t, &s, "C16", "sending changes the payload of the packet");
    }
    inv(p);
}
extern "C" void drv_pk_send_twice()
{
    std::string s;
    Packet p;
    any_payload(p, s);
    {
        NdSocket sock;
        sock.send(p);
    }
    if(vf_bool()) { p << (uint16_t)0x4142; s.append("AB"); }
    NdSocket sock;
    if(sock.send(p) == St::Success) check_frame(sock, s);
}
static long declared(long start)
{
    uint32_t d;
    vf_copy_stream(&d, 1, start, 4);
    return (long)__builtin_bswap32(d);
}
static void check_received(NdSocket &sock, Packet &p, St st, long start, long lim)
{
    if(st == St::Success)
    {
        size_t n = p.size();
        vf_assert((long)n == sock.in_pos - start - 4, "C03", "the size of a received packet is not what was read of its frame");
        vf_assert(p.get_cursor() == 0, "C03", "the cursor of a received packet is not at the start");
        vf_assert((long)n == declared(start), "C03", "the size of a received packet is not the declared length");
        if(lim) vf_assert((long)n <= lim, "C23", "a packet larger than the limit is received");
        if(n > 0)
        {
            p.set_cursor(0);
            std::string r;
            r.resize(n);
            p.extract_raw(&r[0], n);
            vf_stream_is(r.data(), 1, start + 4, (long)n, "C03", "the payload of a received packet is not what the peer sent");
        }
    }
    if(st == St::WouldBlock || st == St::Timeout) vf_assert(sock.in_pos == start, "C04", "WouldBlock or Timeout is reported although bytes were taken from the stream");
    if(st == St::MaxPacketSizeExceeded)
    {
        vf_assert(lim != 0, "C23", "a packet is refused for its size although there is no limit");
        vf_assert(sock.in_pos == start + 4, "C23", "the body of a packet that is too large is read");
    }
    inv(p);
}
extern "C" void drv_pk_receive()
{
    NdSocket sock;
    Packet p;
    any_packet(p);
    St st = sock.receive(p);
    check_received(sock, p, st, 0, 0);
}
extern "C" void drv_pk_receive_limit()
{
    NdSocket sock;
    long lim = vf_int(1, 0x7fffffffL);
    sock.set_max_receive_size((uint32_t)lim);
    vf_assert((long)sock.get_max_receive_size() == lim, "C23", "the limit is not the one that was set");
    Packet p;
    vf_limit(lim + 4, "C23", "memory is reserved for more than the limit");
    St st = sock.receive(p);
    vf_limit(-1, "", "");
    check_received(sock, p, st, 0, lim);
    if(st == St::MaxPacketSizeExceeded)
    {
        vf_assert(declared(0) > lim, "C23", "a packet within the limit is refused");
    }
}
extern "C" void drv_pk_receive_two()
{
    NdSocket sock;
    Packet p;
    St st = sock.receive(p);
    if(st != St::Success) return;
    if(vf_bool()) { uint8_t c; try { p >> c; } catch(const std::out_of_range &) {} }
    long start = sock.in_pos;
    St st2 = sock.receive(p);
    check_received(sock, p, st2, start, 0);
}
extern "C" void drv_pk_receive_all()
{
    NdSocket sock;
    long n = vf_int(0, MAXP);
    char *b = (char *)vf_alloc(n);
    St st = sock.receive_all(b, (size_t)n);
    if(st == St::Success)
    {
        vf_assert(sock.in_pos == n, "C04", "receive_all succeeds without having read everything");
        vf_stream_is(b, 1, 0, n, "C04", "receive_all delivers something else than the stream");
    }
    else vf_assert(sock.in_pos < n, "C04", "receive_all fails although it has read everything");
    if(st == St::WouldBlock || st == St::Timeout) vf_assert(sock.in_pos == 0, "C04", "WouldBlock or Timeout is reported although bytes were taken from the stream");
    vf_free(b);
}

// What packets offer to users who compile with C++17: std::string_view
#include "nd.h"
using fr::Packet;
#define MAXP (1L << 30)
static_assert(__cplusplus >= 201703L, "compiled as C++17");
static void any_payload(Packet &p, std::string &s)
{
    vf_string(&s);
    vf_assume((long)s.size() <= MAXP);
    p.add_raw(s.data(), s.size());
}
extern "C" void drv_pk_ex_view()
{
    Packet p;
    std::string s;
    any_payload(p, s);
    if(vf_bool())
    {
        long c = vf_int(0, MAXP);
        vf_assume(c <= (long)s.size());
        p.set_cursor((size_t)c);
    }
    size_t before = p.get_cursor(), left = p.get_bytes_remaining(), n = p.size();
    std::string_view v;
    try
    {
        p >> v;
        vf_assert(left >= 4 && left - 4 >= v.size(), "C01", "an extraction returns bytes the packet does not have");
        vf_assert(p.get_cursor() == before + 4 + v.size(), "C01", "an extraction does not advance the cursor by what it returned");
        vf_same_bytes(v.data(), s.data() + before + 4, (long)v.size(), "C01", "a view does not show the bytes at the cursor");
    }
    catch(const std::out_of_range &)
    {
        vf_assert(p.get_cursor() == before || p.get_cursor() == before + 4, "C01", "a failed extraction moves the cursor");
    }
    catch(...) { vf_assert(false, "C01", "an extraction throws something else than std::out_of_range"); }
    vf_assert(p.size() == n, "C01", "an extraction changes the size of the packet");
    vf_assert(p.get_cursor() <= p.size() && p.get_bytes_remaining() == p.size() - p.get_cursor(), "C01", "the cursor is outside the packet");
}
static size_t put_view(Packet &p, std::string &s)
{
    std::string pre;
    any_payload(p, pre);
    size_t at = p.size();
    if(vf_bool()) s.assign("a\0b", 3);
    else vf_string(&s);
    vf_assume((long)s.size() <= MAXP);
    std::string_view v(s.data(), s.size());
    p << v;
    vf_assert(p.size() == at + 4 + s.size(), "C02", "a view does not add its length and its bytes");
    p.set_cursor(at);
    char raw[4];
    p.extract_raw(raw, 4);
    vf_be(raw, 4, (long)s.size(), "C02", "a view is not preceded by its length");
    p.set_cursor(at);
    return at;
}
static void get_view(Packet &p, const std::string &s)
{
    std::string_view w;
    p >> w;
    vf_assert(w.size() == s.size(), "C02", "extracting yields a view of another length");
    vf_same_bytes(w.data(), s.data(), (long)s.size(), "C02", "extracting does not yield a view of the characters that were inserted");
    vf_assert(p.get_cursor() == p.size(), "C02", "extracting a view does not consume what the insertion produced");
}
extern "C" void drv_pk_rt_view()
{
    Packet p; std::string s;
    put_view(p, s);
    get_view(p, s);
}
extern "C" void drv_pk_rt_view_string()
{
    Packet p; std::string s, t;
    put_view(p, s);
    p >> t;
    vf_same_str(&t, &s, "C02", "extracting does not yield the string that was inserted");
    vf_assert(p.get_cursor() == p.size(), "C02", "extracting a string does not consume what the insertion produced");
}
extern "C" void drv_pk_rt_string_view()
{
    Packet p; std::string s;
    vf_string(&s);
    vf_assume((long)s.size() <= MAXP);
    p << s;
    get_view(p, s);
}

#include "world.h"
#include <frnetlib/SocketSelector.h>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/TcpListener.h>
#include <memory>
#include <vector>
using namespace fr;
typedef std::shared_ptr<TcpSocket> Sock;
static int fresh_fd()
{
    int fd = w_next++;
    w_fd[fd].open = true; w_fd[fd].kind = 1; w_fd[fd].nonblock = false; w_fd[fd].conn = true; w_fd[fd].reg = false; w_fd[fd].regdata = nullptr;
    w_fd[fd].pending = false; w_fd[fd].bound = false; w_fd[fd].listening = false; w_fd[fd].shut = false; w_fd[fd].in_pos = 0; w_fd[fd].out_broken = false;
    return fd;
}
static void adopt(TcpSocket &s) { int fd = fresh_fd(); s.set_descriptor(&fd); }
static char A, B, C;      // what the user attaches
static bool add(SocketSelector &sel, const std::shared_ptr<SocketDescriptor> &s, void *opaque)
{
    try { sel.add(s, opaque); return true; }
    catch(const std::exception &) { return false; }
}
// removing tells whether and with what the selector knows the socket
static void *rem(SocketSelector &sel, const std::shared_ptr<SocketDescriptor> &s)
{
    try { return sel.remove(s); }
    catch(const std::exception &) { vf_assert(false, "C22", "remove throws although the kernel knows the descriptor no longer or released it"); return nullptr; }
}
extern "C" void drv_sel_one()
{
    {
        SocketSelector *p = nullptr;
        try { p = new SocketSelector; } catch(const std::exception &) { return; }
        {
            SocketSelector &sel = *p;
            Sock s = std::make_shared<TcpSocket>();
            vf_assert(rem(sel, s) == nullptr, "C22", "remove of a socket that is not a member returns something");
            if(vf_bool())
            {
                bool r = add(sel, s, &A);
                vf_assert(!r, "C22", "a socket that is not connected can be added");
                vf_assert(rem(sel, s) == nullptr, "C22", "a failed add leaves the socket in the selector");
            }
            adopt(*s);
            int fd = s->get_socket_descriptor();
            bool ok = add(sel, s, &A);
            vf_assert(ok == w_fd[fd].reg, "C22", "add does not tell whether the socket is registered with the kernel");
            if(ok)
            {
                if(vf_bool())
                {
                    bool again = add(sel, s, &B);
                    vf_assert(!again, "C22", "a socket can be added twice");
                    vf_assert(w_fd[fd].reg, "C22", "a refused second add unregisters the socket");
                }
                int o = vf_choice(3);
                if(o == 1) s->disconnect();
                if(o == 2) { s->disconnect(); adopt(*s); }
                vf_assert(rem(sel, s) == &A, "C22", "remove does not return the value given to add");
                vf_assert(!w_fd[fd].reg, "C22", "remove leaves the socket registered with the kernel");
                vf_assert(rem(sel, s) == nullptr, "C22", "a removed socket is still known");
                if(s->connected())
                {
                    bool r = add(sel, s, &C);
                    vf_assert(r == w_fd[s->get_socket_descriptor()].reg, "C22", "add after remove does not register the socket");
                    if(r) vf_assert(rem(sel, s) == &C, "C22", "remove does not return the value given to the last add");
                }
            }
            else
            {
                vf_assert(rem(sel, s) == nullptr, "C22", "a failed add leaves the socket in the selector");
                bool r = add(sel, s, &B);
                vf_assert(r == w_fd[fd].reg, "C22", "add after a failed add does not tell whether the socket is registered");
                if(r) vf_assert(rem(sel, s) == &B, "C22", "remove does not return the value given to add");
            }
        }
        delete p;
    }
    w_check_released("C07");
}
static void check_events(const std::vector<std::pair<std::shared_ptr<SocketDescriptor>, void *>> &v, size_t i, const Sock &a, bool ia, const Sock &b, bool ib)
{
    const std::shared_ptr<SocketDescriptor> &s = v[i].first;
    bool is_a = s.get() == a.get(), is_b = s.get() == b.get();
    vf_assert((is_a && ia) || (is_b && ib), "C22", "wait returns a socket that is not a member");
    vf_assert(v[i].second == (is_a ? (void *)&A : (void *)&B), "C22", "wait returns another socket's opaque value");
}
static std::vector<std::pair<std::shared_ptr<SocketDescriptor>, void *>> wait(SocketSelector &sel)
{
    if(vf_bool()) { w_wait_ms = -1; return sel.wait(); }
    w_wait_ms = vf_int(-1, 1L << 50);
    return sel.wait(std::chrono::milliseconds(w_wait_ms));
}
extern "C" void drv_sel_timeout()
{
    SocketSelector *p = nullptr;
    try { p = new SocketSelector; } catch(const std::exception &) { return; }
    try { wait(*p); } catch(const std::exception &) { vf_assert(w_last_wait_failed, "C22", "wait throws although waiting did not fail"); }
    delete p;
}
extern "C" void drv_sel_wait()
{
    SocketSelector *p = nullptr;
    try { p = new SocketSelector; } catch(const std::exception &) { return; }
    {
        SocketSelector &sel = *p;
        Sock a = std::make_shared<TcpSocket>(), b = std::make_shared<TcpSocket>();
        adopt(*a); adopt(*b);
        bool ia = add(sel, a, &A), ib = add(sel, b, &B);
        if(vf_bool()) { if(ia) rem(sel, a); ia = false; }
        if(vf_bool()) { b->disconnect(); }
        try
        {
            std::vector<std::pair<std::shared_ptr<SocketDescriptor>, void *>> v = sel.wait(std::chrono::milliseconds(vf_int(-1, 100000)));
            vf_assert(v.size() <= 2, "C22", "wait returns more sockets than there are members");
            vf_assert((long)v.size() == w_events, "C22", "wait does not return every socket the kernel reports");
            if(v.size() >= 1) check_events(v, 0, a, ia, b, ib && b->connected());
            if(v.size() == 2)
            {
                check_events(v, 1, a, ia, b, ib && b->connected());
                vf_assert(v[0].first.get() != v[1].first.get(), "C22", "wait returns a socket twice");
            }
        }
        catch(const std::exception &) { vf_assert(w_last_wait_failed, "C22", "wait throws although waiting did not fail"); }
        if(ib) vf_assert(rem(sel, b) == &B, "C22", "remove does not return the value given to add");
    }
    delete p;
    w_check_released("C07");
}
// the number of a closed member is reused by another member
extern "C" void drv_sel_reuse()
{
    SocketSelector *p = nullptr;
    try { p = new SocketSelector; } catch(const std::exception &) { return; }
    {
        SocketSelector &sel = *p;
        Sock a = std::make_shared<TcpSocket>(), b = std::make_shared<TcpSocket>();
        adopt(*a);
        int fd = a->get_socket_descriptor();
        bool ia = add(sel, a, &A);
        a->disconnect();
        w_fd[fd].open = true; w_fd[fd].conn = true; w_fd[fd].reg = false;
        b->set_descriptor(&fd);
        bool ib = add(sel, b, &B);
        if(ia) vf_assert(rem(sel, a) == &A, "C22", "remove does not return the value given to add");
        vf_assert(w_fd[fd].reg == ib, "C22", "removing a closed socket unregisters another one");
        if(ib) vf_assert(rem(sel, b) == &B, "C22", "remove does not return the value given to add");
        vf_assert(!w_fd[fd].reg, "C22", "remove leaves the socket registered with the kernel");
    }
    delete p;
    w_check_released("C07");
}
// a member gives its descriptor away without closing it; another socket adopts it
extern "C" void drv_sel_release()
{
    SocketSelector *p = nullptr;
    try { p = new SocketSelector; } catch(const std::exception &) { return; }
    {
        SocketSelector &sel = *p;
        Sock a = std::make_shared<TcpSocket>(), b = std::make_shared<TcpSocket>();
        adopt(*a);
        int fd = a->get_socket_descriptor();
        bool ia = add(sel, a, &A), ib = false;
        a->set_descriptor(nullptr);
        b->set_descriptor(&fd);
        bool first = vf_bool();
        if(first) { if(ia) vf_assert(rem(sel, a) == &A, "C22", "remove does not return the value given to add"); }
        if(first) vf_assert(!w_fd[fd].reg, "C22", "remove leaves a descriptor registered that its member gave away");
        ib = add(sel, b, &B);
        if(!first && ia) vf_assert(!ib, "C22", "a descriptor that is registered already can be added again");
        if(!ib && !(ia && !first)) vf_assert(!w_fd[fd].reg, "C22", "a failed add leaves the socket registered with the kernel");
        if(!ib) vf_assert(rem(sel, b) == nullptr, "C22", "a failed add leaves the socket in the selector");
        if(!ib && !first && ia) vf_assert(w_fd[fd].reg, "C22", "removing a socket that is not a member unregisters a member");
        if(!first && ia) vf_assert(rem(sel, a) == &A, "C22", "remove does not return the value given to add");
        if(!ib) vf_assert(!w_fd[fd].reg, "C22", "remove leaves a descriptor registered that its member gave away");
        else
        {
            vf_assert(w_fd[fd].reg, "C22", "a member is not registered with the kernel");
            vf_assert(rem(sel, b) == &B, "C22", "remove does not return the value given to add");
        }
        try
        {
            std::vector<std::pair<std::shared_ptr<SocketDescriptor>, void *>> v = sel.wait(std::chrono::milliseconds(10));
            vf_assert(v.empty(), "C22", "wait returns a socket that is not a member");
        }
        catch(const std::exception &) { vf_assert(w_last_wait_failed, "C22", "wait throws although waiting did not fail"); }
    }
    delete p;
    w_check_released("C07");
}
// the selector keeps its members alive, and lets go of them
extern "C" void drv_sel_life()
{
    vf_leak_begin();
    SocketSelector *p = nullptr;
    try { p = new SocketSelector; } catch(const std::exception &) { return; }
    {
        Sock a = std::make_shared<TcpSocket>();
        adopt(*a);
        int fd = a->get_socket_descriptor();
        bool ia = add(*p, a, &A);
        if(vf_bool()) { if(ia) rem(*p, a); ia = false; }
        a.reset();
        vf_assert(w_fd[fd].open == ia, "C22", "the selector does not keep exactly its members alive");
        if(ia && vf_bool())
        {
            try { p->wait(); } catch(const std::exception &) {}
        }
    }
    delete p;
    vf_leak_end("C07", "a member of a selector is never freed");
    w_check_released("C07");
}

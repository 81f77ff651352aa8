// Contract of a transport, as every Sendable sees it (fr::Socket): proven for TcpSocket and SSLSocket by their own
// clients, assumed here.
#ifndef ND_H
#define ND_H
#include "vf.h"
#include <frnetlib/Socket.h>
#include <frnetlib/Packet.h>
typedef fr::Socket::Status St;

class NdSocket : public fr::Socket
{
public:
    long in_pos;         // bytes consumed from the incoming stream (stream 1)
    long in_mark;        // in_pos at the beginning of the message
    bool seg_open;       // a send_raw has been started and is not finished
    long seg_done;       // bytes of the segment already handed over
    std::string seg;     // what the segment offered
    std::string out;     // completed segments
    int segs;
    bool is_conn;
    const char *rule5;
    long lim;
    bool whole;          // every receive delivers all that is asked for
    NdSocket() : in_pos(0), in_mark(0), seg_open(false), seg_done(0), segs(0), is_conn(true), rule5("C05"), lim(-1), whole(false) {}
    void begin_receive() { in_mark = in_pos; }

    St send_raw(const char *data, size_t size, size_t &sent) override
    {
        vf_assert(sent <= size, "C05", "send_raw is called with more bytes marked as sent than there are");
        if(seg_open)
        {
            vf_assert((long)(size - sent) == (long)seg.size() - seg_done, "C05", "a continued send does not continue where the last one stopped");
            vf_same_bytes(data + sent, seg.data() + seg_done, (long)(size - sent), "C05", "a continued send offers other bytes than the ones left");
        }
        else
        {
            seg.assign(data + sent, size - sent);
            seg_done = 0;
            seg_open = true;
            ++segs;
        }
        int o = vf_choice(4);
        if(o == 0)
        {
            sent = size;
            out.append(seg);
            seg_open = false;
            return St::Success;
        }
        long k = vf_int(0, 1L << 40);
        vf_assume(k < (long)(size - sent));
        sent += k;
        seg_done += k;
        if(o == 1) return St::WouldBlock;
        if(o == 2) return St::Timeout;
        return St::SendError;
    }
    St receive_raw(void *data, size_t n, size_t &received) override
    {
        received = 0;
        if(whole && (long)n > 0)
        {
            vf_copy_stream(data, 1, in_pos, (long)n);
            in_pos += (long)n;
            received = n;
            return St::Success;
        }
        int o = vf_choice(5);
        if(o == 1) return St::WouldBlock;
        if(o == 2) return St::Timeout;
        if(o == 3) return St::ReceiveError;
        if(o == 4) return St::Disconnected;
        vf_assert((long)n > 0, "C06", "receive_raw is asked for no bytes at all (a transport reports that as a disconnection)");
        long k = vf_int(1, 1L << 40);
        vf_assume(k <= (long)n);
        vf_copy_stream(data, 1, in_pos, k);
        in_pos += k;
        received = (size_t)k;
        return St::Success;
    }
    St connect(const std::string &, const std::string &, std::chrono::seconds) override { return St::Error; }
    St set_blocking(bool) override { return St::Success; }
    bool get_blocking() const override { return true; }
    void set_descriptor(void *) override {}
    int32_t get_socket_descriptor() const noexcept override { return 7; }
    bool connected() const noexcept override { return is_conn; }
protected:
    void close_socket() override { is_conn = false; }
    void reconfigure_socket() override {}
};
#endif

// Contract model of the operating system and of mbedtls: ghost state that the clients may look at.
#ifndef WORLD_H
#define WORLD_H
#include "vf.h"
#define NFD 1040
struct WFd
{
    bool open;
    int kind;            // 1 stream socket, 2 epoll
    bool nonblock;
    bool conn;           // connection established
    bool pending;        // connect in progress
    bool bound, listening;
    bool out_broken;
    bool nodelay;
    long rtv, wtv;       // timeouts in milliseconds as requested last
    long in_pos;         // bytes taken from its incoming stream (stream 10 + fd)
    bool reg;            // registered with the epoll descriptor
    void *regdata;
    bool shut;
};
extern WFd w_fd[NFD];
extern int w_next;       // number the next descriptor gets
extern const std::string *w_node, *w_service; // host and port the resolver must be asked for (null: not checked)
extern bool w_passive;   // for listening
extern int w_family;     // address family the user chose (-1: not checked)
extern int w_ai_n;       // addresses the last lookup returned (0: it failed)
extern int w_tried;      // sockets opened since
extern bool w_reached;   // one of the addresses was connected to or bound
extern long w_wait_s;    // seconds a connection attempt may take (-1: not checked)
extern long w_wait_ms;   // milliseconds epoll_wait has to be told (-1: forever, -2: not checked)
extern bool w_named;     // the last getnameinfo succeeded
extern int w_ai_live;    // resolver lists not freed yet
extern int w_ai_max;     // longest resolver list
extern bool w_sigpipe_ignored;
extern int w_accepts, w_conns;
extern const char *w_expect;   // data the next sends must deliver in order (null: not checked)
extern long w_expect_len, w_out_pos;
extern int w_io_fd;      // only descriptor application data may use (-1: any)
extern bool w_plain_forbidden; // plain recv/send is a violation (TLS sockets)
// TLS ghosts
extern bool w_verify;    // the user wants verification
extern const void *w_ca, *w_rng;
extern const std::string *w_host;
extern bool w_own_cert_checked;
extern bool w_tls_server;
extern const void *w_cert_parsed, *w_key_parsed; // what the last file was parsed into
extern const std::string *w_ca_text, *w_ca_file; // certificates to expect in memory, in a file (null: not checked)
extern bool w_ca_pem;    // they are text
extern int w_parsed;     // outcome of the last certificate parser (0: all of it understood)
extern int w_parses;     // calls of a certificate parser
extern const std::string *w_cert_file, *w_key_file; // file names to expect (null: not checked)
extern const void *w_tls_cert, *w_tls_key;
extern int w_handshakes; // completed handshakes
extern bool w_verify_dirty; // verification result was not clean
extern long w_tls_in;    // bytes read through TLS (stream 5)
extern bool w_tls_fail;  // let initialisation functions of mbedtls fail
extern bool w_io_errors;
extern int w_eagain;     // number of times the last operation said "try again"
extern int w_last;       // outcome class of the last recv/ssl_read/send/ssl_write: 0 data, 1 eof, 2 again, 3 error
extern int w_events;     // what the last epoll_wait reported
extern bool w_last_wait_failed; // epoll_wait failed with something else than EINTR
int w_open_count();      // open descriptors
void w_check_released(const char *rule);  // nothing the library acquired is still held
void w_plain_stream(int fd);
#endif

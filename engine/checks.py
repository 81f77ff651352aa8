"""What is decided how: per property, the clients (most general users of the library) and the rules that apply."""
import static_rules
MEM = ('null-dereference', 'use-after-free', 'use-after-scope', 'bounds-read', 'bounds-write', 'write-to-constant', 'uninitialised', 'division-by-zero')
AI = ('Abstract interpretation of the LLVM IR of the current sources together with a contract model of the operating system / TLS library and a most general client: '
      'every path of the client through the library is followed with symbolic (interval, linear-relational, content) values, loops are unrolled %s times and then over-approximated by a join; '
      'each obligation is an assertion of the model or the client evaluated on every abstract state that reaches it. ')
def ai(extra, peel='twice'): return AI % 'twice' + extra

def D(client, *drvs): return [(client, 'drv_' + d) for d in drvs]
ASSUME = ['the operating system, resolver, epoll and mbedtls behave as their contracts in model/world.cpp say (any documented outcome at any call)',
          'C++ standard library containers, strings and streams behave as specified (modelled, not analysed)',
          'violations are reported only for abstract states that are exact and have a concrete member; states behind an over-approximated loop are reported as undecided',
          'Linux, 64 bit, little endian, the compile definitions of /repo/CMakeLists.txt with USE_SSL']
PK_EX = D('packet', *['pk_ex_' + x for x in ('u8', 'u16', 'u32', 'u64', 'flt', 'enum', 'pair', 'bool', 'raw', 'string', 'vector')], 'pk_cursor', 'pk_clear', 'pk_set_buffer')
PK_RT = D('packet', *['pk_rt_' + x for x in ('u8', 'bool', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'enum', 'float', 'double', 'string', 'cstring', 'raw', 'pair', 'vector', 'range', 'map', 'umap', 'object', 'many')], 'pk_clear', 'pk_ex_bool')
PK_EX17 = D('packet17', 'pk_ex_view')
PK_RT17 = D('packet17', 'pk_rt_view', 'pk_rt_view_string', 'pk_rt_string_view')
PK_SEND = D('packet', 'pk_send', 'pk_send_twice')
PK_RECV = D('packet', 'pk_receive', 'pk_receive_two', 'pk_receive_limit')
def P8(client, *drvs): return [(client, 'drv_' + d, {}, 8) for d in drvs]
WF_SEND = D('webframe', 'wf_send_server', 'wf_send_again', 'wf_send_nowhere') + P8('webframe', 'wf_send_client0', 'wf_send_client1', 'wf_send_client5', 'wf_send_client6', 'wf_send_client_again')
WF_RECV = D('webframe', 'wf_receive_client', 'wf_receive_server', 'wf_receive_client_limit', 'wf_receive_server_limit', 'wf_receive_used')
WF_MORE = [(c, d, {}, 2) for c, d in D('webframe', 'wf_receive_two')]
WF_LONG = [(c, d, {'straight_cap': 100000}, 2) for c, d in D('webframe', 'wf_mask66000', 'wf_unmask66000')]
WF_MASK = P8('webframe', 'wf_unmask1', 'wf_unmask5') + D('webframe', 'wf_mask125', 'wf_mask126', 'wf_mask300', 'wf_unmask125', 'wf_unmask126', 'wf_unmask300')
def PD(client, names, opts=None, peel=8): return [(client, 'drv_' + d, dict(opts if opts is not None else {'drop': 1}), peel) for d in names.split()]
HTTP_LIMIT = PD('http', 'http_req_header_limit http_resp_header_limit http_req_header_ended http_resp_header_ended http_req_body_limit http_req_body_limit_short http_resp_body_limit http_resp_body_limit_none http_resp_chunk_limit')
HTTP_LIMIT += PD('http', 'http_req_header_ended_text http_resp_header_ended_text', {'fine': 99}, 2)
HTTP_BAD = PD('http', 'http_req_any http_req_line1 http_req_line2 http_req_line3 http_req_line4 http_req_line5 http_req_line6 http_req_line7 http_req_head1 http_req_head2 http_req_head3 http_req_head4 http_req_length http_req_length_long http_req_post http_req_post_lines http_req_post_end '
    'http_resp_any http_resp_line1 http_resp_line2 http_resp_line3 http_resp_line4 http_resp_head1 http_resp_head2 http_resp_head3 http_resp_head4 http_resp_chunk_any http_resp_chunk_size2 http_resp_chunk_size8 http_resp_chunk_size16 http_resp_chunk_size17 http_resp_chunk_second http_resp_length http_resp_length_long http_resp_status_long')
TEXT_MEM = PD('text', 'tx_decode tx_encode tx_split tx_args tx_args_eq tx_line tx_line_te tx_mime tx_base64 tx_base64_any tx_url') + PD('text', 'tx_decode_any tx_encode_any tx_url_any', {}, 2) + PD('text', 'tx_sha1 tx_sha1_block', {'drop': 1, 'words': 1}) + PD('text', 'tx_sha1_any', {'words': 1}, 2)
CONSTRUCT = PD('construct', 'con_req con_req_body con_req_get1 con_req_get2 con_req_post1 con_req_post2 con_req_both con_req_own1 con_req_own2 con_req_own3 con_resp con_resp_body con_resp_own1 con_resp_own2 con_resp_own3 con_resp_any', {})
CON_SEND = D('construct', 'con_send_req', 'con_send_resp', 'con_send_req_twice', 'con_send_resp_twice', 'con_send_nowhere')
WS = PD('websocket', 'ws_connect ws_connect_path ws_reconnect ws_adopt ws_adopt_none', {'uninterp': ('Base64', 'Sha1')})
CHECKS = {
 'C21': dict(drivers=WS, explain=ai('Rule: WebSocket::connect / set_descriptor over a transport that fails anywhere and a peer that answers anything: success only on the path with request sent, 101 received and accept key equal to the one derived from the key sent (Base64 and SHA-1 as uninterpreted functions); every other path ends disconnected or in an exception.')),
 'C25': dict(drivers=CONSTRUCT, explain=ai('Rule: the constructed text, cut at its first line end and its first blank line, is the expected start line, a header and the body; the header holds one Content-Length whose number is the length of the rest, or the user\'s own, and each user header once. URI, parameters, header values and body are symbolic and of any length.')),
 'C11': dict(drivers=HTTP_LIMIT, explain=ai('Rule: more than the configured limit of header or body bytes, in one or two pieces of any length, always yields HttpHeaderTooBig / HttpBodyTooBig (another refusal for a chunked body), and a message within the limits is not refused. Piece lengths are symbolic; loops over single bytes of symbolic pieces are bounded at 8 rounds.')),
 'C12': dict(drivers=HTTP_BAD + PK_RECV + WF_RECV, thorough=WF_MORE, rules=('uncaught-exception',), explain=ai('Rule: no path of parse() or receive() over partly unknown peer bytes ends in an exception leaving it. Message shapes: fixed text with unknown pieces at each place of the grammar (start line, header name, header value, lengths, chunk sizes, chunk data).')),
 'C13': dict(drivers=TEXT_MEM + HTTP_BAD + WF_RECV, rules=MEM, explain=ai('Rule: every load, store and string or container access lies inside its object. Bounded: loops over the characters of text with unknown content are followed for 8 rounds (strings of unknown length: 2 rounds, then joined).')),
 'C14': dict(drivers=PD('text', 'tx_access_req tx_access_resp tx_case_get tx_case_post tx_case_req_header tx_case_resp_header tx_case_req_length tx_case_resp_length tx_case_chunked'), explain=ai('Rule: an entry set or received under one spelling is found, read and overwritten under any other letter case of that name, and the lengths and codings the parser looks up itself are found whatever their case.')),
 'C17': dict(drivers=PD('text', 'tx_scheme tx_scheme_unknown tx_method tx_method_unknown tx_coding tx_mime_names') + PD('text', 'tx_status', {'ret_merge': 400, 'maxmerge': 400}), explain=ai('Rule: for each pair of enumerators the names differ and converting back gives the same enumerator; names outside the table give the fallback.')),
 'C18': dict(drivers=PD('text', 'tx_url_again1 tx_url_again2 tx_url_again3 tx_url_again4 tx_url_again5 tx_url_again6 tx_url_self tx_url_fresh'), rules=('uninitialised',), explain=ai('Rule: after parsing the same text, an object used before and a fresh one have equal components, each of them initialised.')),
 'C43': dict(drivers=PD('text', 'tx_url_split1 tx_url_split2 tx_url_split3 tx_url_split4 tx_url_split5 tx_url_split6 tx_url_split7 tx_url_split8 tx_url_split9 tx_url_uri'), explain=ai('Rule: a URL assembled from symbolic components (any length; only the delimiters RFC 3986 excludes from a component are absent from it) is split into those components again.')),
 'C01': dict(drivers=PK_EX + PK_EX17 + PK_SEND + PK_RECV, rules=MEM, explain=ai('Rule: an extraction advances the cursor by what it returns or throws std::out_of_range; cursor, size and remaining bytes agree; no access outside the payload.')),
 'C02': dict(drivers=PK_RT + PK_RT17, explain=ai('Rule: the bytes of an inserted value are its big-endian layout and extracting yields a value equal to the inserted one.')),
 'C03': dict(drivers=PK_SEND + PK_RECV, explain=ai('Rule: what reaches the transport is length prefix and payload; what a receive stores is one frame of the stream.')),
 'C04': dict(drivers=PK_RECV + D('packet', 'pk_receive_all') + WF_RECV + D('construct', 'con_receive'), thorough=WF_MORE, explain=ai('Rule: WouldBlock and Timeout only at stream position of the call; Success only with the whole unit.')),
 'C15': dict(static=(static_rules.shared_state,), technique='interprocedural taint analysis of LLVM IR: pointers to objects with static storage (and to the shared TLS context) followed to stores, mutating calls and system calls',
             note='static analysis: whole-library inventory of mutable state with static storage plus a pointer taint analysis of all uses; races on one object used from two threads are outside the property',
             explain='Every variable with static storage that the library defines is classified (constant, thread_local, mutable) from its debug information. A flow-insensitive, interprocedural taint analysis (SSA values, local variables, parameters, return values, virtual calls by vtable slot and type) follows every pointer to a mutable one, and to the TLS context that sockets share through shared_ptr, through all functions of the library. Stores, atomic-free copies, non-const member functions and external functions that write through such a pointer are violations unless they belong to the guarded initialisation of the object, go through std::atomic or run with a shared mutex held; so are calls of C library functions that return static storage.'),
 'C16': dict(drivers=PK_SEND + WF_SEND + CON_SEND, explain=ai('Rule: size, cursor and payload of the message after sending are those before.')),
 'C23': dict(drivers=PK_RECV + WF_RECV, thorough=WF_MORE, explain=ai('Rule: allocations while receiving never exceed the limit; refusal iff the declared length is larger.')),
 'C05': dict(drivers=D('tcp', 'send', 'send_again') + D('ssl', 'ssl_send', 'ssl_send_again') + PK_SEND + WF_SEND + CON_SEND, explain=ai('Rule: bytes offered to the transport are the next bytes of the message; Success iff all were handed over.')),
 'C06': dict(drivers=D('tcp', 'send', 'receive', 'send_message') + D('ssl', 'ssl_send', 'ssl_receive'), explain=ai('Rule: outcome class of the system call determines the status.')),
 'C07': dict(drivers=D('tcp', 'connect', 'connect_zero', 'accept_zero', 'listen_zero', 'reconnect', 'adopt', 'life', 'listen', 'listen_again', 'accept', 'accept_two', 'blocking') + D('ssl', 'ssl_connect', 'ssl_connect_zero', 'ssl_listen_zero', 'ssl_reconnect', 'ssl_context', 'ssl_listener_new', 'ssl_listen', 'ssl_accept') + D('selector', 'sel_one', 'sel_life', 'sel_wait', 'sel_reuse', 'sel_release'), static=(static_rules.copies,), explain=ai('Rule: ghost ownership: every descriptor, epoll descriptor, resolver list and TLS object acquired from the environment is released exactly once, on every path, and not used afterwards; and, as a type-level witness, static_asserts that no class which owns such a resource can be copied.')),
 'C08': dict(drivers=D('tcp', 'connect', 'connect_zero', 'accept_zero', 'listen_zero', 'reconnect', 'adopt', 'listen', 'listen_again', 'accept', 'life') + D('ssl', 'ssl_connect', 'ssl_connect_zero', 'ssl_listen_zero', 'ssl_reconnect', 'ssl_listen', 'ssl_accept'), explain=ai('Rule: a failed operation leaves no descriptor and a consistent object.')),
 'C09': dict(drivers=D('ssl', 'ssl_connect', 'ssl_reconnect', 'ssl_context', 'ssl_listener_new', 'ssl_accept'), explain=ai('Rule: a connection counts as connected only after a completed handshake with verification required, the configured trust anchors and the requested host name.')),
 'C10': dict(drivers=D('ssl', 'ssl_connect', 'ssl_reconnect', 'ssl_send', 'ssl_send_again', 'ssl_receive', 'ssl_accept'), explain=ai('Rule: no application byte passes the plain descriptor of a TLS connection; all go through the session of the socket.')),
 'C19': dict(drivers=D('tcp', 'send', 'listener_signal') + D('ssl', 'ssl_send'), explain=ai('Rule: SIGPIPE is ignored or MSG_NOSIGNAL is passed at every write.')),
 'C20': dict(limit=400, drivers=WF_LONG + WF_SEND + WF_RECV + WF_MASK, thorough=WF_MORE, explain=ai('Rule: the bytes a frame puts on the transport are final flag, opcode, mask flag, the shortest length form, the key of a client frame and the payload (masked with that key); what a receive stores is what the stream holds, and a frame whose mask bit does not fit the role is refused.')),
 'C22': dict(drivers=D('selector', 'sel_one', 'sel_life', 'sel_wait', 'sel_reuse', 'sel_release'), rules=('use-after-free', 'use-after-scope'), explain=ai('Rule: membership of the selector, registration with the kernel and what remove and wait return agree.')),
 'C24': dict(drivers=D('tcp', 'connect', 'reconnect', 'adopt', 'blocking', 'accept', 'life') + D('ssl', 'ssl_connect', 'ssl_reconnect', 'ssl_blocking', 'ssl_accept'), explain=ai('Rule: ghost mode and options of the descriptor against the object.')),
 'C48': dict(drivers=D('tcp', 'connect', 'connect_high', 'reconnect', 'adopt', 'life', 'listen', 'listen_again', 'accept', 'accept_two', 'blocking', 'send', 'receive') + D('ssl', 'ssl_connect', 'ssl_reconnect', 'ssl_context', 'ssl_authorities', 'ssl_listener_new', 'ssl_listen', 'ssl_accept', 'ssl_send', 'ssl_receive') + D('selector', 'sel_one', 'sel_life', 'sel_wait', 'sel_reuse', 'sel_release', 'sel_timeout'), rules=MEM + ('double-free', 'bad-free'), explain=ai('Rule: every load and store lies inside a live object, and memory is released once, on every path of the clients of sockets, listeners and selectors; descriptor numbers are low ones and, for connecting, those from 1024 on.')),
 'C49': dict(drivers=D('ssl', 'ssl_authorities', 'ssl_listener_new'), explain=ai('Rule: the parser gets the whole content (text with its terminator) or the named file and the chain of that context; the result tells whether it returned 0; a constructed listener has the parsed certificate and key installed.')),
 'C50': dict(drivers=D('tcp', 'connect', 'reconnect') + D('ssl', 'ssl_connect', 'ssl_reconnect') + D('selector', 'sel_timeout') + [(c, d, o, p) for c, d, o, p in WS if d in ('drv_ws_connect', 'drv_ws_connect_path', 'drv_ws_reconnect')], explain=ai('Rule: the duration that reaches select/poll/epoll_wait is the one asked for, symbolic in all of its range.')),
 'C51': dict(drivers=D('tcp', 'connect', 'connect_family', 'reconnect', 'listen', 'listen_family', 'listen_again', 'accept') + D('ssl', 'ssl_connect', 'ssl_connect_family', 'ssl_listen', 'ssl_listen_family', 'ssl_accept') + [(c, d, o, p) for c, d, o, p in WS if d in ('drv_ws_connect', 'drv_ws_connect_path', 'drv_ws_reconnect')], explain=ai('Rule: what the resolver is asked for is the host, port and family given; every address is tried with its own socket in order until one is reached; statuses and the reported remote address agree with that.')),
}
for _c in CHECKS.values(): _c.setdefault('assume', ASSUME); _c.setdefault('rules', ())

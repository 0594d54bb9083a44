#!/usr/bin/env python3
"""Source of truth for properties.jsonl (run by hand; not part of any check)."""
import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs or ["system-call boundary (sockets, clock, files)"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

PIPE="lib/proto/proto_pipe.c"; CONN="lib/proto/proto_conn.c"; HS="lib/proto/proto_handshake.c"; CR="lib/proto/proto_crypt.c"
DISP="spiped/dispatch.c"; NB="libcperciva/netbuf/netbuf_read.c"; NW="libcperciva/network/network_write.c"; NR="libcperciva/network/network_read.c"
p("C01","A proxied byte stream is delivered exactly, in order, in both directions",
 "For every connection, the bytes the far endpoint writes to its plaintext side are at every moment an exact in-order prefix of the bytes the near endpoint accepted on its plaintext side, independently in each direction. While both sides stay open and keep accepting data, every accepted byte is eventually delivered: the proxy never sits idle holding data it could forward.",
 ["inputs","schedules","histories"],
 "All data lengths and contents, all splittings of the data over reads and writes on all four sockets, all interleavings of the two directions and of several connections, short reads and writes, EINTR and EAGAIN at any call.",
 "The tests send one small file one way, once; packet boundaries, short I/O, full buffers, simultaneous directions and long streams are never sampled.",
 [PIPE,CR,NB,NR,NW],[("read up to a buffer, encrypt/decrypt whole packets, write all, then read again","proto_pipe.c callback_pipe_read / callback_pipe_write"),("buffer compaction and consumption","netbuf_read.c")],
 [("read buffer","unconsumed input bytes","netbuf_read.c struct netbuf_read"),("outbuf/wlen","bytes being written","proto_pipe.c struct pipe_cookie"),("packet number","next packet in each direction","proto_crypt.c struct proto_keys")])
p("C02","Altered, replayed, reordered or foreign traffic never reaches the plaintext side",
 "Whatever an attacker controlling the encrypted link does (flip, cut, insert, drop, replay, reorder, reflect, or splice packets from another connection, direction or key), the bytes delivered on the plaintext side are a prefix of the bytes the authentic peer sent on that connection in that direction. At the first packet that is not the authentic next one, the connection is torn down in both directions and nothing after that point is delivered.",
 ["inputs","histories"],
 "All attacker actions at every byte position and packet index, before, between and after genuine packets, in either direction and role, in any segmentation.",
 "No test ever sends a bad packet.",
 [CR,PIPE,CONN,"libcperciva/crypto/crypto_verify_bytes.c"],[("HMAC over packet number and ciphertext, verified before decryption","proto_crypt.c proto_crypt_dec"),("failure drops the connection","proto_pipe.c callback_pipe_read, proto_conn.c callback_pipestatus")],
 [("packet number","expected next packet","proto_crypt.c struct proto_keys")])
p("C03","End-of-stream follows all data, and closing one direction keeps the other alive",
 "When one side finishes sending, the other end of the pair sees end-of-stream only after all data sent before it, and the opposite direction keeps working until it finishes too. A connection ends, with both its sockets closed, exactly when both directions have finished or when an error occurs on it, and not before.",
 ["schedules","histories","fault_sequences"],
 "All orders of EOF, reset and data on the two sockets of a connection, with data still buffered, including simultaneous close, and failures of the shutdown, read and write calls.",
 "The tests close each connection in one order with no data in flight; half-open connections are never exercised.",
 [PIPE,CONN],[("EOF triggers half-close of the output and a status","proto_pipe.c callback_pipe_read eof label"),("both directions finished, or any error: drop","proto_conn.c callback_pipestatus")],
 [("stat_f/stat_r","per-direction status: running, finished, failed","proto_conn.c struct conn_state")])
p("C04","No plaintext moves until the peer has proved knowledge of the shared key",
 "Until the handshake has completed with a peer that holds the same key file and took the opposite role in this very connection, no plaintext byte is delivered and none is sent encrypted. A peer with another key, in the same role, or whose handshake messages were altered, truncated, reflected or replayed from another connection is disconnected, and the program never completes such a handshake.",
 ["inputs","histories","schedules"],
 "All alterations of any handshake byte, wrong keys, reflections, replays of earlier handshakes, out-of-range public values, truncations at every length, in both roles and in any segmentation.",
 "The tests only run matching endpoints; no handshake ever fails in them except by silence.",
 [HS,CR,CONN,"libcperciva/crypto/crypto_dh.c"],[("MAC over the Diffie-Hellman value keyed by both nonces and the role","proto_crypt.c proto_crypt_dhmac / proto_crypt_dh_validate"),("pipes launched only after handshake and connect","proto_conn.c launchpipes")],
 [("nonces and MAC keys","handshake session","proto_handshake.c struct handshake_cookie")])
p("C05","Forward-secrecy options -f, -g and the default behave and interoperate properly",
 "Without -f an endpoint uses a fresh ephemeral secret for every connection, and with -f it sends the fixed public value 1; the connection uses forward secrecy unless one side used -f, and it works for every combination of peers except that an endpoint run with -g refuses a peer that used -f. An endpoint that did not use -f never ends up with session keys that depend only on the shared key and nonces unless its peer sent the value 1.",
 ["configurations","histories"],
 "Both roles, all combinations of -f, -g and neither at the two ends, over repeated connections of one process.",
 "The tests use the default on both ends only.",
 [CR,HS,DISP],[("y = 1 if no PFS; reject y = 1 if PFS required","proto_crypt.c proto_crypt_dh_generate / is_not_one / proto_crypt_dh_validate"),("shared value 1 when either side sent 1","proto_crypt.c proto_crypt_mkkeys")])
p("C06","Every byte on the encrypted link is what the published protocol prescribes",
 "With any peer implementing the documented protocol, in either role, an endpoint emits exactly the documented handshake messages and then only whole fixed-size packets which decrypt, under the documented direction keys and consecutive packet numbers, to between 1 and 1024 bytes of payload; and it accepts every legal packet such a peer may send (any payload length from 1 to 1024). No nonce, ephemeral value, or (key, packet number) pair is ever used twice.",
 ["inputs","histories","configurations"],
 "All keys, nonces, ephemeral values, payload lengths and packet counts, both roles, both hardware-accelerated and portable cryptographic code paths.",
 "The tests only talk to the same build, so a symmetric change of protocol, key reuse or weak padding passes them.",
 [CR,HS,"libcperciva/crypto/crypto_dh.c","libcperciva/crypto/crypto_aesctr.c","libcperciva/crypto/crypto_aesctr_aesni.c","libcperciva/alg/sha256.c","DESIGN.md"],[("packet format","proto_crypt.c proto_crypt_enc / proto_crypt_dec"),("key derivation","proto_crypt.c proto_crypt_mkkeys, proto_crypt_dhmac"),("Diffie-Hellman group 14","crypto_dh.c")])
p("C07","Connections too slow to connect or handshake are dropped, and no others",
 "If connecting to the target or completing the handshake has not finished within the configured time of having been started, the connection is dropped then, and never earlier because of the time limit. Once both have finished no time limit applies, however long the connection stays idle.",
 ["schedules","configurations","inputs"],
 "All -o values, all orders and timings of connect completion, handshake messages and timer expiry, in both roles, with several connections at once.",
 "One test lets one connection time out with -o 1; the two timers' interplay, roles and cancellation are not covered.",
 [CONN,"libcperciva/events/events_timer.c","spiped/main.c","spipe/main.c"],[("connect timer and handshake timer, each cancelled on completion","proto_conn.c proto_conn_create, starthandshake, callback_connect_done, callback_handshake_done")],
 [("timeout cookies","pending limits","proto_conn.c struct conn_state")])
p("C08","Connection limit: never more than -n connections, and accepting always resumes",
 "The daemon never has more than the configured maximum of connections at once (default 100, 0 for no limit), leaving further ones waiting in the listen queue. Whenever it is below the limit and not shutting down it is ready to accept, so a waiting client is always served once a connection ends.",
 ["histories","schedules","configurations"],
 "All sequences of connection arrivals and of all kinds of endings (close, reset, timeouts, failed handshakes, failed connects), for all limits, and all recoverable accept errors.",
 "No test reaches the limit or ends connections in different ways.",
 [DISP,"libcperciva/network/network_accept.c","spiped/main.c"],[("count of connections; re-arm accept on death","dispatch.c doaccept / callback_conndied / callback_gotconn")],
 [("nconn","current connections","dispatch.c struct accept_state")])
p("C09","SIGTERM stops accepting, lets existing connections finish, then exits 0",
 "After SIGTERM the daemon stops accepting new connections (within about a second) and does not cut any existing connection short; as soon as no connection remains it exits with status 0. A second SIGTERM after it was noticed terminates it at once.",
 ["schedules","histories"],
 "A SIGTERM at any moment: idle, at the connection limit, during connects and handshakes, with data in flight, with connections arriving and ending around the signal.",
 "The tests kill the daemons with SIGTERM but never look at connections that are open at the time.",
 ["lib/util/graceful_shutdown.c",DISP,"spiped/main.c"],[("flag set by handler, polled by a timer","graceful_shutdown.c"),("cancel accept; done when no connection is left","dispatch.c dispatch_request_shutdown / callback_conndied")],
 [("shutdown_requested, conndone","shutdown progress","dispatch.c")])
p("C10","A failing connection is cleaned up exactly once and harms nothing else",
 "Whatever happens on one connection (any error or protocol failure at any point, from accept to the last close), its descriptors are each closed exactly once, nothing of it is used afterwards, and no memory or descriptor stays behind once it is gone. Other connections and the accepting of new ones continue unaffected, and the daemon does not exit or crash because of it.",
 ["fault_sequences","histories","schedules"],
 "Every system call made for a connection failing with every plausible error, resets and EOFs at every stage, timeouts racing with completion, descriptor numbers reused at once by other connections.",
 "The tests only have orderly connections, at most two at once; the valgrind runs check the same few orderly runs.",
 [CONN,DISP,HS,PIPE,"libcperciva/network/network_connect.c"],[("single teardown function that cancels everything pending","proto_conn.c proto_conn_drop"),("death callback updates the connection list","dispatch.c callback_conndied")])
p("C11","Targets are tried in order; failed re-resolution keeps the last good addresses",
 "A new connection tries the target's addresses one at a time in the order the resolver returned them, moving on when one fails, using the first that connects, and gives up only after all have failed. The target is re-resolved at the configured interval without ever blocking traffic; a failed resolution leaves the last successfully resolved addresses in use, and a successful one applies to connections accepted afterwards.",
 ["fault_sequences","histories","schedules"],
 "All address lists, all patterns of immediate and delayed connect failures, all sequences of successful and failed resolutions of any duration, interleaved with connections.",
 "The tests use one literal address and stop before the first re-resolution.",
 [DISP,"libcperciva/network/network_connect.c","libcperciva/util/sock.c"],[("advance to the next address on failure","network_connect.c tryconnect / callback_connect"),("replace addresses on success only","dispatch.c callback_resolve")],
 [("sas","current target addresses","dispatch.c struct accept_state")])
EV="libcperciva/events/"
p("C12","Event loop delivers each event when due, exactly once, never after cancel",
 "Each registered immediate, network or timer event is delivered exactly once, only when its condition holds, and never after being cancelled or deregistered; a registered event whose condition holds is eventually delivered. Immediate events run in priority order and first-in first-out within a priority before any other event, and a handler's non-zero status stops the loop and is returned.",
 ["histories","schedules"],
 "All sequences of register, cancel and re-register calls, including from inside handlers and for recycled descriptors, and all readiness patterns including hang-up and error conditions.",
 "No test exercises the event loop's interface beyond what one orderly connection needs.",
 [EV+"events.c",EV+"events_immediate.c",EV+"events_network.c",EV+"events_timer.c"],[("immediate queues per priority","events_immediate.c"),("poll array with compaction and in-order scan","events_network.c"),("loop order","events.c events_run_internal")],
 obs=["public event-loop interface and the poll call"])
p("C13","Timers fire in deadline order, never early, and always fire",
 "A timer never fires before its full interval has elapsed since it was registered or last reset; when several have expired they are delivered in order of deadline; the loop never sleeps past the earliest pending deadline; and a cancelled or reset timer does not fire at its old deadline. This holds for any number of pending timers added and removed in any order, and for any non-negative interval including very large ones.",
 ["histories","inputs"],
 "All sequences of register, reset, cancel and expiry over many concurrent timers, equal deadlines, sub-millisecond and huge intervals.",
 "Tests have at most a few timers pending and only one ever fires.",
 [EV+"events_timer.c","libcperciva/datastruct/timerqueue.c","libcperciva/datastruct/ptrheap.c","libcperciva/datastruct/elasticarray.c"],[("heap ordered by absolute deadline","timerqueue.c, ptrheap.c"),("time-out rounding for poll","events_network.c events_network_select")],
 obs=["public timer interface, clock and poll time-out"])
p("C14","Buffered reads never lose, duplicate or reorder bytes",
 "A buffered reader presents the incoming bytes in order, without loss or repetition, for any sequence of waits and consumes; a wait completes successfully exactly when at least the requested number of bytes is buffered, reports end-of-stream or error only when the source does so first, and completes exactly once unless cancelled. Cancelling a wait loses no data.",
 ["inputs","histories","schedules"],
 "All sequences of wait lengths (including larger than the buffer), consumes, cancels, and all segmentations and endings of the input.",
 "The reader is only exercised with one tiny transfer.",
 [NB,NR],[("compact, grow, then read at least the missing bytes","netbuf_read.c netbuf_read_wait")],[("bufpos/datalen/buflen","window of unconsumed bytes","netbuf_read.c struct netbuf_read")],
 obs=["public buffered-reader interface and the recv call"])
p("C15","Network operations transfer what they promise and report exactly once",
 "An asynchronous read or write reports a count between its minimum and the buffer length, end-of-stream only if the stream ended first, or an error; it transfers exactly the reported bytes, transparently retrying interruptions and would-block conditions, and a write on a broken connection yields an error rather than killing the process. Accept and connect report exactly one descriptor or one failure; a cancelled operation reports nothing and transfers nothing more.",
 ["fault_sequences","schedules","inputs"],
 "All patterns of short transfers, EINTR, EAGAIN, EOF, errors and cancels, all minimum and buffer lengths.",
 "Loopback transfers of a few bytes never produce short writes or interruptions.",
 [NR,NW,"libcperciva/network/network_accept.c","libcperciva/network/network_connect.c"],[("loop until minimum reached","network_read.c / network_write.c callback_buf")],
 obs=["public network interface and the socket calls"])
p("C16","Background name resolution answers each request once under any thread timing",
 "Each accepted resolution request leads to exactly one callback, in the event loop's thread, carrying the answer to that very request; requests made while one is pending are refused as documented. Shutting the resolver down at any moment neither blocks forever, crashes, leaks, nor delivers a callback afterwards; shutting down an idle resolver returns only once its thread is gone.",
 ["schedules","histories"],
 "All interleavings of the resolver thread with the event loop and with requests and shutdown, all resolution outcomes.",
 "The unit test performs sequential lookups with whatever schedule happens to occur.",
 ["lib/dnsthread/dnsthread.c","lib/util/pthread_create_blocking_np.c"],[("state under a mutex with a condition variable; result passed by a wakeup byte","dnsthread.c workthread / callback_resolveone")],
 [("state SLEEPING/HASWORK/SUICIDE","hand-off between threads","dnsthread.c struct dnsthread_internal")],obs=["public resolver interface under a controlled thread schedule"])
p("C17","spipe copies standard input and output faithfully and reports success correctly",
 "spipe delivers exactly the bytes read from standard input to the far end and writes exactly the bytes received from the far end to standard output; end of input is passed on while output continues until the far end finishes. It exits 0 only if the connection was established and closed in the orderly way, and otherwise, unless it was told to stop with SIGTERM, with a non-zero status.",
 ["schedules","inputs","fault_sequences"],
 "All data sizes, short reads and writes on the standard streams, all orders of the two ends closing, all thread interleavings, and connect, handshake and protocol failures at any point.",
 "Two tests pipe one small file through; failure exits and half-close are not sampled.",
 ["spipe/main.c","spipe/pushbits.c",CONN],[("two copying threads and a socketpair","spipe/pushbits.c"),("death reason decides exit status","spipe/main.c callback_conndied")])
p("C18","Daemonizing returns once the service is ready, and reports failure otherwise",
 "When started as a daemon the command returns 0 only after the daemon is detached and its pid file holds the daemon's pid, and (unless waiting for DNS was requested) only after the listening socket accepts connections; if the daemon fails or dies before that, the command returns non-zero. The daemon is in its own session, and the pid file contains exactly the pid in decimal; in the foreground (-F) nothing is forked and no pid file written.",
 ["crash_points","fault_sequences","configurations"],
 "The child failing or being killed at any point before readiness, any system call in the sequence failing, with and without -D, -p and -F.",
 "The tests only start daemons that start up successfully.",
 ["libcperciva/util/daemonize.c","libcperciva/util/ipc_sync.c","spiped/main.c"],[("parent waits for a byte or EOF from the child","ipc_sync.c"),("resolve, bind and listen before daemonizing","spiped/main.c")],obs=["process exit status, pid file, session, listening socket"])
p("C19","Command lines are accepted or rejected exactly as documented",
 "Every combination of documented options in their documented forms is accepted with the documented meaning and default; an invalid, contradictory, repeated, missing or malformed option or value leads to a message and exit status 1 before any socket is opened. Numeric values are parsed completely and range-checked.",
 ["inputs","configurations"],
 "All argument vectors over the documented options, in separate, joined and grouped forms, with valid, boundary, malformed and out-of-range values.",
 "The tests use a handful of valid command lines.",
 ["spiped/main.c","spipe/main.c","libcperciva/util/getopt.c","libcperciva/util/parsenum.h"],[("option loop and sanity checks","spiped/main.c main, spipe/main.c main"),("option scanner","getopt.c")],obs=["exit status, messages and subsequent behaviour"])
p("C20","Privileges are fully dropped before accepting connections, or the daemon exits",
 "With -u the daemon gives up its supplementary groups, changes group and then user as requested, after binding its socket and writing its pid file but before accepting any connection. If any needed step fails, or the user or group is unknown, it exits non-zero without serving anything.",
 ["fault_sequences","inputs","configurations"],
 "All forms of the user/group argument (names and numbers, user only, group only, both), and a failure of each individual step.",
 "No test uses -u.",
 ["libcperciva/util/setuidgid.c","libcperciva/util/setgroups_none.c","spiped/main.c"],[("setgroups, setgid, setuid in order","setuidgid.c")],obs=["set*id call sequence, accept call, exit status"])
p("C21","Secret randomness comes from a properly seeded, reseeded generator, or none",
 "All nonces and ephemeral secrets come from a generator that is seeded from the operating system before first use, mixes in fresh entropy at least every 256 requests, never produces the same output twice and follows the documented HMAC_DRBG construction. If the operating system's randomness cannot be read in full, no handshake message is sent.",
 ["histories","fault_sequences","inputs"],
 "All sequences of request sizes across reseed boundaries, and failures or short reads of the randomness source at any call.",
 "The tests cannot tell good randomness from bad.",
 ["libcperciva/crypto/crypto_entropy.c","libcperciva/util/entropy.c","libcperciva/crypto/crypto_entropy_rdrand.c"],[("HMAC_DRBG state and reseed counter","crypto_entropy.c"),("loop until all bytes are read","entropy.c")],obs=["random output for given seeds; reads of the randomness device"])
p("C22","Addresses mean what the documentation says",
 "Each documented address form (path of a Unix socket, host name with port, bracketed IPv4 or IPv6 address with port, and for binding also without port) resolves to exactly the socket address it denotes, and malformed addresses are refused. The daemon listens on exactly the source address and, with a bind address, every outgoing connection is made from it, a port left out being chosen by the operating system.",
 ["inputs","configurations"],
 "All strings over the documented forms and near misses, all address families, port numbers 0 to 65536 and beyond, over-long paths.",
 "The tests use literal IPv4 addresses with valid ports only.",
 ["libcperciva/util/sock.c","libcperciva/util/sock_util.c"],[("syntax-directed resolution","sock.c sock_resolve"),("port completion","sock_util.c sock_addr_ensure_port")],obs=["bind/connect/listen calls and resolver interface"])
p("C23","The shared key is the SHA-256 of the whole key file, or nothing starts",
 "The key is derived from all bytes of the key file, whatever its size, or of standard input when given as \"-\", so that two endpoints agree exactly when their key files are identical. A key file that cannot be opened or completely read is an error and the program exits non-zero without opening a connection.",
 ["inputs","fault_sequences"],
 "All file sizes and contents, short reads, read errors at any offset, files and pipes.",
 "The tests use one 32-byte key file.",
 [CR,"libcperciva/alg/sha256.c"],[("read until end of file and hash","proto_crypt.c proto_crypt_secret")],obs=["handshake with an independent peer holding the reference hash"])
p("C24","Sockets get the documented per-connection options",
 "Both sockets of every established connection have low-latency sending enabled and transport keep-alives switched on, or off if -j was given, before any plaintext is relayed; sockets whose type does not support an option still work. The listening socket is non-blocking and outgoing connects never block the daemon.",
 ["configurations","histories","fault_sequences"],
 "Both roles, with and without -j, first and later connections, TCP and Unix sockets, failing option calls.",
 "Socket options are invisible to the tests.",
 [CONN,"libcperciva/util/sock.c"],[("setsockopt on both sockets","proto_conn.c launchpipes"),("O_NONBLOCK","sock.c sock_listener / sock_connect_bind_nb")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import re
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=len(re.findall(r"[.!?](?:\s|$)",x["statement"])); assert n<=3,(x["id"],n)

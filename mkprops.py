#!/usr/bin/env python3
"""Writes properties.jsonl. Kept as a script so the file stays valid JSON and easy to edit."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

S, I, H, F, C = "schedules", "inputs", "histories", "fault_sequences", "configurations"

p("C01", "Only a correctly authenticated client is ever served",
  "A client obtains service (a datagram relayed, a TCP connection opened, an external address occupied) only if, on that same connection, it sent a callsign of at most 10 characters, a newline and the 16-byte MD5 of the upper-cased password followed by the 8 hex digits of the challenge that connection received. A client whose answer is wrong in any byte gets the ten-byte 'bad password' message and is disconnected, and a client whose answer is right and whose callsign is permitted is served while a slot is free.",
  [I, S, H, F], "every callsign, password, answer, segmentation of the answer into TCP segments, and number of concurrent handshakes",
  "test_e2e performs a single correct handshake with one client; no test sends a wrong, truncated, dribbled, replayed or concurrent answer.",
  ["src/proxy.c", "src/digest.c", "src/md5.c", "src/conn.c"],
  [("challenge/response check", "src/proxy.c proxy_worker_authorize"), ("expected answer", "src/proxy.c get_password_response")],
  ["bytes the client receives", "datagrams and TCP connections leaving the proxy's external addresses"],
  [("callsign", "callsign presented by the client being authorised", "src/proxy.c struct proxy_worker")])

p("C02", "Callsign policy: deny wins, allow-list required, failures refuse",
  "With a denied-callsign pattern configured, no client whose callsign matches it is served; with an allowed-callsign pattern configured, only clients whose callsign matches it are served; a refused client gets the ten-byte 'not authorised' message and is disconnected, and every other correctly authenticated client is admitted. If a match cannot be evaluated (out of memory, matcher error) the client is refused, never admitted.",
  [I, C, F, S], "every callsign, pair of patterns, and failure of the matcher at any evaluation",
  "test_regex checks four matches of the matcher alone and test_proxy one allow/deny list; matcher failure, the combination of both lists and the effect on a live connection are never exercised.",
  ["src/proxy.c", "src/regex.c"], [("policy evaluation", "src/proxy.c proxy_authorize_callsign"), ("fail-closed matcher", "src/regex.c regex_is_match")],
  ["bytes the client receives", "result of the public callsign authorisation call", "service observed at remote hosts"])

p("C03", "Challenges are never reused, so a recorded answer cannot be replayed",
  "Over the life of a running proxy every connection that is challenged gets its own challenge, a fresh draw from the random source (two are equal only where the source itself repeats a value by chance), independent of what other clients do concurrently, sent as exactly eight lower-case hexadecimal digits before the client has to send anything. An answer recorded on one connection is refused on any other.",
  [H, S, I], "every sequence and overlap of connections",
  "The tests make one connection per process and never compare challenges.",
  ["src/proxy.c", "src/rand.c", "src/digest.c"], [("nonce generation", "src/rand.c rand_get"), ("nonce transmission", "src/proxy.c proxy_worker_authorize")],
  ["first 8 bytes the client receives", "fate of a client that replays an earlier answer"])

p("C04", "Client datagrams reach the network exactly once, in order, unmodified",
  "Each UDP data (control) message a served client sends is emitted from its external address, from port 5198 (5199), to port 5198 (5199) of the address in the message, with exactly the bytes of the message, once, and in the client's order; a message longer than 4096 bytes is emitted as consecutive datagrams of at most 4096 bytes that concatenate to it. Nothing else is emitted, and a datagram the operating system refuses to send affects neither later ones nor the session.",
  [I, S, F, H], "every message size, address, mix of channels, TCP segmentation, and failure of individual sends",
  "No test relays client-to-network traffic with more than one small message; segmentation, send errors and interleaving with the other directions are not sampled.",
  ["src/proxy_conn.c", "src/conn.c"], [("UDP data relay", "src/proxy_conn.c process_data_message"), ("UDP control relay", "src/proxy_conn.c process_control_data_message")],
  ["datagrams handed to the operating system on the external sockets"])

p("C05", "Network datagrams reach the right client once, in order, unmodified",
  "Each datagram arriving on port 5198 (5199) of the external address of a served client is delivered to that client as one UDP data (control) message carrying the sender's address and the datagram's bytes, in arrival order, at most once, and without loss while the client stays connected. No datagram content, including an empty one, and no other traffic stops this forwarding while the session lasts.",
  [I, S, F, H], "every datagram size up to the receive limit, sender, arrival interleaving on both ports, and short or blocked write to the client",
  "test_e2e sends single datagrams in lock step; floods, empty datagrams, concurrency between the three forwarders, short writes and slow clients are not sampled.",
  ["src/proxy_conn.c", "src/conn.c"], [("UDP data forwarder", "src/proxy_conn.c forwarder_data"), ("UDP control forwarder", "src/proxy_conn.c forwarder_control"), ("datagram receive", "src/conn.c conn_recv_any")],
  ["messages parsed from the client's TCP stream versus datagrams queued on the external sockets"])

p("C06", "Client TCP requests open, feed and close exactly one remote connection",
  "For each open request the proxy makes one TCP connection attempt from the client's external address to port 5200 of the requested address and answers with one status message, zero exactly when the connection was established; bytes the client then sends reach that remote host in order, unmodified and only there, until the client asks to close or opens another, upon which the earlier connection is closed. Data sent with no connection open is answered with a close message, and no failure of a remote host ends the client's session.",
  [I, S, F, H], "every sequence of open, data and close requests, any remote behaviour (refuse, unreachable, slow, reset, stalled) and any short write",
  "test_e2e opens one connection to a cooperative loopback listener.",
  ["src/proxy_conn.c", "src/conn.c"], [("open", "src/proxy_conn.c process_tcp_open_message"), ("data", "src/proxy_conn.c process_tcp_data_message"), ("close", "src/proxy_conn.c process_tcp_close_message")],
  ["connections and bytes seen by remote hosts", "status and close messages seen by the client"])

p("C07", "Remote TCP bytes reach the client in order, then exactly a close",
  "Bytes a remote host sends on a connection the client opened arrive at that client as TCP data messages that concatenate to exactly what was sent, in order, only after the status message for that connection and before the close message that ends it; when the remote host closes, all its bytes and then a close message are delivered. Neither bytes nor a close message of an earlier connection are ever delivered after the status message of a later one.",
  [I, S, F, H], "every byte stream, segmentation, close or reset moment, and overlap of closing one connection with opening the next",
  "test_e2e receives one small message; reopen races, resets and large transfers are not sampled.",
  ["src/proxy_conn.c", "src/conn.c", "src/worker.c"], [("TCP forwarder", "src/proxy_conn.c forwarder_tcp"), ("close notification", "src/proxy_conn.c send_tcp_close")],
  ["messages parsed from the client's TCP stream versus bytes sent by remote hosts"])

p("C08", "The stream to a client is always a sequence of whole messages",
  "After the challenge, everything a served client receives parses as a sequence of complete messages - a nine-byte header (type, address, little-endian length) followed by exactly that many bytes, no message exceeding 4096 bytes in all - whatever mix of UDP data, UDP control and TCP traffic is flowing. Short writes, a slow or stalled reader and concurrent senders never truncate, repeat, interleave or corrupt a message while the connection lasts.",
  [S, F, I], "every interleaving of the concurrent senders and every pattern of partial writes",
  "No test produces a partial write or two concurrent senders to one client.",
  ["src/conn.c", "src/proxy_conn.c"], [("complete write loop", "src/conn.c conn_send"), ("send serialisation", "src/proxy_conn.c mutex_client_send users")],
  ["the byte stream received by each client"])

p("C09", "Sessions never share an external address or each other's traffic",
  "At any moment each external address serves at most one client and each client uses exactly one external address for all its traffic; when every address is taken further clients are disconnected without being served. Traffic is never delivered across sessions: not to another client, nor to a later session that reuses the same address.",
  [S, H, F, C], "every overlap of connects, reconnects with the same callsign, disconnects and faults, for any number of configured addresses",
  "The tests never have two clients at once, so slot allocation is never contended.",
  ["src/proxy.c", "src/proxy_conn.c"], [("slot and worker idle lists", "src/proxy.c proxy_worker_func"), ("attach", "src/proxy_conn.c proxy_conn_accept")],
  ["external sockets bound at each instant", "source address of relayed traffic per client", "messages per client"],
  [("idle slot list", "slots available to new clients", "src/proxy.c struct proxy_priv"), ("callsign hash", "last slot of a callsign", "src/proxy.c struct proxy_priv")])

p("C10", "Every slot comes back after its session ends, however it ends",
  "After any history of successful, rejected, aborted, reset or failed sessions, and of transient failures to open ports or start helpers, once those sessions are over as many simultaneous clients as there are external addresses can again connect and be served. No such history needs a restart to regain capacity.",
  [H, S, F], "every history of sessions and endings, including failures injected at any step of attaching or detaching a client",
  "The tests end sessions one way, once, and never count capacity afterwards.",
  ["src/proxy.c", "src/proxy_conn.c", "src/worker.c"], [("return of slot and worker", "src/proxy.c proxy_worker_func"), ("detach", "src/proxy_conn.c proxy_conn_finish")],
  ["number of simultaneous clients served after faults stop"])

p("C11", "A returning callsign gets its last address; others the longest idle one",
  "When a client connects and an external address it used last is idle, it gets that address; otherwise it gets the address that has been idle the longest (initially in configuration order). This holds for any callsigns, including ones whose internal hashes collide.",
  [H, I, C], "every history of connects and disconnects by any set of callsigns over any number of addresses",
  "No test configures more than one address.",
  ["src/proxy.c", "src/proxy_conn.c", "src/pearson.c"], [("callsign lookup and idle queue", "src/proxy.c proxy_worker_func")],
  ["source address of relayed traffic per session"])

p("C12", "Closing the proxy always completes, ends every session, leaks nothing",
  "From any state - clients authenticating, idle, stalled or transferring, remote hosts slow or silent, at any instant - closing or freeing the proxy returns within bounded time with every client disconnected and no thread, socket, file or memory of the proxy left behind. It can then be opened and started again and serves clients as before.",
  [S, H, F], "every instant at which close is requested relative to all other activity, and any peer behaviour",
  "The tests close an idle proxy after at most one well-behaved client.",
  ["src/proxy.c", "src/proxy_conn.c", "src/worker.c", "src/conn.c", "src/thread_posix.c", "src/registration.c"],
  [("teardown order", "src/proxy.c proxy_close"), ("unblocking of blocked threads", "src/conn.c conn_shutdown, conn_drop"), ("joining", "src/worker.c worker_join")],
  ["return of the close call in simulated time", "live threads, descriptors and heap objects afterwards"])

p("C13", "Shutdown refuses newcomers and spares sessions; drop ends them all",
  "After a shutdown request no new client is served and the dispatch call returns an error instead of blocking, while every session already being served continues undisturbed until it ends on its own. A drop request disconnects every client served at that moment, promptly and whatever it or its remote hosts are doing, and does not itself prevent later clients from being served.",
  [S, H], "every instant of shutdown and drop relative to connects, handshakes, attaches and traffic",
  "The tests call shutdown only with no client connected and never call drop with one.",
  ["src/proxy.c", "src/proxy_conn.c", "src/conn.c"], [("admission gate", "src/proxy.c proxy_process"), ("shutdown", "src/proxy.c proxy_shutdown"), ("drop", "src/proxy.c proxy_drop")],
  ["fate and service of each session around the request"])

p("C14", "Every registration report is complete, consistent and correctly signed",
  "When a registration name is configured, everything sent to the registrar is a sequence of well-formed HTTP POSTs whose Content-Length matches the body and whose body carries, in the fixed order, the configured name and comment (with [used/total] appended when more than one slot is usable), public flag (Y exactly when the password is PUBLIC), status, public address, port, version and the MD5 of name, public address and salt. Any configured name, comment and address are reported without truncation, corruption or memory error, whatever the network does to the connection, and nothing is sent when no name is configured.",
  [C, F, I, S], "every configured name, comment, address, port, password and slot count, and any short write or failure while reporting",
  "No test starts the registration service with a registrar.",
  ["src/registration.c", "src/conn.c", "src/digest.c"], [("report body", "src/registration.c send_report"), ("signature", "src/registration.c registration_service_start")],
  ["bytes received by the registrar"])

p("C15", "The registrar's view converges to the true state, and ends with Off",
  "While the proxy runs and the registrar is reachable, a report is made at least every 10 minutes, and once activity ceases the last report states the true number of clients in use and Ready or Busy accordingly, within that time or, if reports have been succeeding, within two minutes, whatever the order of concurrent connects and disconnects and however the wall clock is adjusted. A close or a failed stop-start sequence never leaves a stale status: the last report after closing is Off, and after reopening reports resume.",
  [S, H, F], "every interleaving of connects, rejections, disconnects, shutdown and clock jumps",
  "The registrar is never contacted in tests and no test spans 10 minutes.",
  ["src/registration.c", "src/proxy.c", "src/worker.c", "src/mutex_posix.c"], [("status updates", "src/proxy.c proxy_update_registration"), ("periodic wake", "src/worker.c worker_func"), ("final report", "src/registration.c registration_service_stop")],
  ["sequence and times of reports received by the registrar versus client activity"])

p("C16", "A failing or silent registrar never affects clients or blocks closing",
  "Whatever the registrar or name service does - refuse, fail to resolve, time out, reset, answer garbage, or accept and never answer - clients connect, are served and are released as if registration were working, and closing the proxy completes in bounded time. Once the registrar works again, reports resume within two reporting intervals.",
  [F, S], "every failure of name lookup, connect, send or response, at any time including during close",
  "No test runs with a registrar, working or failing.",
  ["src/registration.c", "src/worker.c", "src/proxy.c"], [("separate worker", "src/registration.c registration_func"), ("error handling", "src/registration.c send_report")],
  ["client service and close duration while the registrar misbehaves", "reports after it recovers"])

p("C17", "A successful wake-up always runs the work; stop and wait always return",
  "Every wake request that a background worker accepts is followed by at least one run of its work function that starts after the request, runs of one worker never overlap, and a run is started at least every periodic interval if one is set. Joining returns only after any accepted work has run and no run is in progress, waiting for idle succeeds only when no accepted work is pending or running, and both return under every timing of concurrent requests; a joined worker can be started again.",
  [S, H, F], "every interleaving of start, wake, wait, join and the worker's own steps, including spurious wake-ups and failed thread creation",
  "No test covers workers directly; the e2e tests sample one schedule.",
  ["src/worker.c", "src/thread_posix.c", "src/mutex_posix.c"], [("state machine", "src/worker.c worker_func"), ("wake/join/wait", "src/worker.c")],
  ["invocations of the work function versus returns of wake, join and wait"])

p("C18", "The reader/writer lock excludes, and condition waits lose no wake-up",
  "A lock held exclusively is held by nobody else, shared or exclusive; shared holders coexist; every waiting thread eventually obtains a lock that keeps being released; and a thread returning from a condition wait holds its lock exclusively. A notification after a thread began waiting wakes it, a timed wait that is not notified returns a timeout no earlier than asked and without waiting longer because the wall clock was changed, and neither busy-waits.",
  [S, F], "every interleaving of exclusive, shared and conditional locking by any number of threads, spurious wake-ups and clock jumps",
  "No test creates two threads contending for a lock.",
  ["src/mutex_posix.c"], [("reader count", "src/mutex_posix.c"), ("condition variables", "src/mutex_posix.c condvar_*")],
  ["critical-section occupancy recorded by the locking threads", "wake-up and timeout times"])

p("C19", "Connections transfer exactly, unblock on close, never touch foreign sockets",
  "A successful receive of n bytes yields exactly the next n bytes of the stream and a successful send transmits exactly the given bytes, under any segmentation and partial transfer, and otherwise an error is reported. Closing or shutting down a connection, or dropping an accepted one, from another thread makes every blocked accept, receive or send on it return within bounded time; no descriptor is used after being closed or closed twice or while in use, so that an unrelated later socket is never affected, none is left open, a dropped listener still accepts, and the peer of an accepted connection is named with its true address and port (IPv4 or IPv6).",
  [S, F, I], "every interleaving of blocking operations with close, drop and shutdown, and every pattern of partial transfers and errors",
  "test_conn closes from one thread at a chosen moment over loopback and never sees a partial transfer.",
  ["src/conn.c", "src/mutex_posix.c"], [("shared/exclusive descriptor lock", "src/conn.c"), ("transfer loops", "src/conn.c conn_recv, conn_send")],
  ["bytes and errors at both ends", "descriptor table of the process"])

p("C20", "Any resource failure is reported cleanly and can be retried",
  "If any memory allocation, thread, socket, port or lock creation fails while the proxy, a client handle or a connection is being initialised, configured, opened or started, the call reports an error (never success), does not crash, hang or corrupt memory, leaves the object safe to free or retry, and leaks nothing; a retry once the resource is available succeeds fully. While running, such a failure costs at most the client or report it hits.",
  [F, S], "every single failure point, and random combinations of them, in every life-cycle call and while serving",
  "No test makes an allocation or system call fail.",
  ["src/proxy.c", "src/proxy_conn.c", "src/worker.c", "src/conn.c", "src/registration.c", "src/log.c", "src/regex.c", "src/mutex_posix.c", "src/thread_posix.c", "src/proxy_client.c"],
  [("error unwinding", "src/proxy.c proxy_init, proxy_open, proxy_start"), ("error unwinding", "src/proxy_conn.c proxy_conn_init")],
  ["return values", "heap, descriptor and thread accounting after free", "service after retry"])

p("C21", "A configuration is loaded exactly as written or reported as failed",
  "Loading a configuration file yields exactly the last value given for each known key (surrounding blanks removed, comments, blank and unknown lines ignored, an empty value meaning unset), whatever line lengths, read sizes and line endings occur. If the file cannot be opened or read to its end, memory runs out, or a value is invalid, loading reports an error and what was loaded can still be freed; a partly read configuration is never accepted.",
  [I, F], "every file content and every read error, short read or allocation failure at any point",
  "test_proxy loads nothing or one fixed file; read errors and allocation failures are never injected.",
  ["src/conf.c", "src/proxy.c"], [("line reader", "src/conf.c conf_readline"), ("pair parser", "src/conf.c conf_parse_pair")],
  ["resulting configuration and return value"])

p("C22", "The daemon survives transient faults and obeys its signals",
  "Once ready, the daemon keeps accepting and serving clients through transient accept, memory and descriptor failures; from then on SIGTERM or SIGINT at any instant ends it in bounded time with exit status 0 and all resources released, and SIGUSR1 makes it refuse new clients while current sessions continue until they end or it is told to end. Its log and diagnostic output goes where -L, -S, -F, -q and -d say, never into a client or remote connection; detached, it holds neither the terminal nor a directory; a failed start or invalid usage ends with a non-zero status, a successful one with 0 in the process that was started.",
  [S, F, H], "every instant of each signal relative to all threads, every transient failure, each logging mode, foreground and daemonised",
  "The tests run the executable only for --help, --version and a bad option.",
  ["src/proxyd.c", "src/proxy.c", "src/log.c"], [("signal handling", "src/proxyd.c graceful_shutdown"), ("dispatch loop", "src/proxyd.c main")],
  ["exit status and time", "service before and after faults", "bytes on every socket and log"])

p("C23", "No client, remote host or registrar input corrupts or disturbs the proxy",
  "Whatever bytes a client sends before or after authenticating, in whatever segments, and whatever remote hosts and the registrar send, the proxy never reads or writes outside its objects, crashes or hangs; at worst the offending session ends. A message of unknown type ends that session only, and other clients' sessions are unaffected throughout.",
  [I, S, F], "every byte sequence from every peer under every segmentation and timing",
  "The tests send only well-formed input.",
  ["src/proxy.c", "src/proxy_conn.c", "src/conn.c", "src/registration.c"], [("handshake buffer", "src/proxy.c proxy_worker_authorize"), ("message buffer", "src/proxy_conn.c process_message")],
  ["memory accesses of the proxy", "other sessions' traffic", "service afterwards"])

p("C24", "Log output is whole lines, complete, at the chosen level and medium",
  "Each log call whose level passes the configured level appears exactly once on the selected medium (file with one timestamp per line, console, or syslog with the matching priority), as one unbroken line even when many threads log at once, and calls below it do not appear. Selecting another medium, while no other thread is logging, releases the previous one and directs every later message to the new one, a failed selection leaves the old one working, and files are appended to, never truncated.",
  [S, F, H], "every interleaving of logging threads and any sequence of medium and level changes, with write and open failures",
  "No test logs from two threads or switches media.",
  ["src/log.c", "src/proxy.c"], [("formatting and output", "src/log.c log_vprintf"), ("medium switch", "src/log.c log_select_medium")],
  ["bytes written to log file, console and syslog", "open files"])

p("C25", "The client side of the handshake is exact or reports an error",
  "Connecting as a client sends exactly the callsign, a newline and the 16-byte response to the challenge received (its hexadecimal digits in either case; password PUBLIC when none is set, case of the password ignored), under any segmentation or partial write, and reports success only after all of it was sent. A server that can be reached over IPv4 is connected to, whatever other addresses its name has. Any failure to resolve, connect, receive or send is reported as an error with no descriptor left open, and the handle can be used to connect again.",
  [I, F, S], "every callsign, password and challenge and every failure or segmentation point",
  "test_e2e connects once over loopback with no faults.",
  ["src/proxy_client.c", "src/digest.c", "src/conn.c", "src/proxy.c"], [("handshake", "src/proxy_client.c proxy_client_connect")],
  ["bytes received by the server", "return value", "descriptor table"])

p("C26", "A client that vanishes silently is detected and its slot freed",
  "When a connected client's host disappears without closing (crash, cable pulled), the proxy ends that session and frees its external address within about 13 minutes if the session is idle and within the operating system's retransmission limit if data is pending, even before authentication finished. Live but idle clients are never disconnected for being idle.",
  [F, H], "every moment of disappearance, idle or mid-transfer, before or after authentication",
  "No test lets a peer vanish or waits minutes.",
  ["src/conn.c", "src/proxy.c"], [("keep-alive options", "src/conn.c conn_accept")],
  ["external sockets and capacity over simulated time"])

p("C27", "Message digests and their text forms equal the published algorithm",
  "The MD5 digest of any byte string equals RFC 1321's, and the hexadecimal conversions are exact inverses of each other.",
  [I], "every byte string", "test_md5 and test_digest sample a few vectors.",
  ["src/md5.c", "src/digest.c"], [("MD5", "src/md5.c"), ("hex conversion", "src/digest.c")], ["function results"])

p("C28", "The configuration loaded before opening, and nothing older, is in force",
  "From a successful opening until it is closed, the proxy listens at exactly the configured bind address and port and nowhere else, uses exactly the configured external addresses, serves as many clients as there are, and applies the configured password, callsign patterns and registration texts. After the proxy was closed, loaded with another configuration and opened again nothing of the earlier one remains in force, not even if opening failed in between; with no password or an invalid pattern opening fails and nothing listens.",
  [I, H], "every pair of configurations, and every history of use before the change",
  "The tests open proxies with one fixed configuration and never reconfigure one.",
  ["src/proxy.c", "src/conf.c", "src/registration.c", "src/conn.c"], [("applying the configuration", "src/proxy.c proxy_open"), ("closing", "src/proxy.c proxy_close"), ("registration texts", "src/registration.c registration_service_start")],
  ["listening sockets", "external sockets", "who is served and refused", "registration reports"])

p("C29", "No client waits for another: one client's trouble delays nobody else",
  "Whatever other clients, their remote hosts and the registrar do - stop reading, flood, log in slowly or never, open connections which hang, vanish - a client which behaves is challenged, relayed in both directions, connected to its remote hosts and fed their bytes within a few seconds, each time, as if it were alone.",
  [S, I, H], "every misbehaviour of the others, at every moment of the measured client's session",
  "No test has two clients at once, and none measures a delay.",
  ["src/proxy.c", "src/proxy_conn.c", "src/registration.c", "src/worker.c"], [("one worker and lock per client", "src/proxy.c proxy_worker_func"), ("forwarding", "src/proxy_conn.c"), ("accepting", "src/proxy.c proxy_process")],
  ["time from request to effect in both directions"])

p("C30", "Nothing accumulates: any amount of use leaves an idle proxy as it was",
  "However often clients connect, are refused, use every kind of message, fail and leave, the memory, threads and descriptors held by the proxy while nobody is connected do not grow.",
  [H, F, S], "every repeated history of use, including transient failures",
  "The tests serve a handful of clients and end.",
  ["src/proxy.c", "src/proxy_conn.c", "src/conn.c", "src/worker.c", "src/registration.c"], [("releasing a session", "src/proxy.c proxy_worker_func"), ("releasing a slot", "src/proxy_conn.c proxy_conn_finish")],
  ["live allocations", "threads", "descriptor table"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))

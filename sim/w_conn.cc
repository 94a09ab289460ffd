// World for connections (C19): one handle of each kind used by a reader, a writer and a closing thread.
#include "w_util.h"
extern "C" {
#include "conn.h"
}
#include <arpa/inet.h>
#include <errno.h>

namespace cn {
enum { O_ACCEPT, O_CONNECT, O_UDP, O_BLOCKACCEPT, O_DROPLISTENER, O_RELISTEN, O_REINIT };
enum { C_NONE, C_CLOSE, C_SHUTDOWN, C_DROP };
static const char* const cname[] = {"nothing", "conn_close", "conn_shutdown", "conn_drop"};
static const Plan* P;
static conn_handle L, A, K, U;
static bool listening;
static const IP ME = mkip(10, 0, 0, 1);
static const uint16_t PORT = 8100;
static int n_sess, n_udp, n_unblocked;
static uint64_t bytes_in, bytes_out;
static bool done_all;

static char bytegen(uint64_t seed, uint64_t i) { return (char)(hash64(seed, i / 8) >> (8 * (i & 7))); }
static std::string gendata(uint64_t seed, uint64_t off, size_t n) {
  std::string s(n, 0);
  for (size_t i = 0; i < n; i++) s[i] = bytegen(seed, off + i);
  return s;
}
static bool faultless(Sock* s) { return !s || !s->faulted; }
static int retry_init(conn_handle* h, int type) {
  for (int k = 0; k < 60; k++) {
    memset(h, 0, sizeof *h);
    h->type = (CONN_TYPE)type;
    uint64_t f0 = resource_faults();
    int r = conn_init(h);
    if (r >= 0) return 0;
    stats->probes[33]++;
    if (resource_faults() == f0) { violate("C19:init", "conn_init failed (%d) although no resource failed", r); return r; }
    if (k > 20) faults_on = false;
  }
  return -1;
}
static Sock* last_bound;
static bool v6;
static bool relisten() {
  for (int k = 0; k < 60; k++) {
    v6 = P->p("v6") != 0;
    static std::string a6;
    a6 = P->p("v6") == 2 ? v6str(ME) : "::";
    L.source_addr = v6 ? a6.c_str() : nullptr;
    L.source_port = "8100";
    uint64_t f0 = resource_faults();
    int fd0 = open_fds();
    int r = conn_listen(&L);
    if (r >= 0) { listening = true; if (!tcp_port_listening(ME, PORT)) violate("C19:listen", "conn_listen succeeded but nothing listens"); return true; }
    stats->probes[33]++;
    if (!P->p("churn") && open_fds() != fd0) violate("C19:leak", "a failed conn_listen left a descriptor open: %s", fd_dump().c_str());
    if (resource_faults() == f0) { violate("C19:listen", "conn_listen failed (%d) although no resource failed", r); return false; }
    if (k > 20) faults_on = false;
  }
  return false;
}

// ---- one TCP session ------------------------------------------------------------------------------------------
struct Sess {
  conn_handle* h;
  Sock* a = nullptr;        // the other end
  Sock* mine = nullptr;
  Rng r;
  uint64_t seed_in, seed_out;
  int64_t nin, nout;
  int closer;
  Time close_after;
  bool reader_done = false, writer_done = false, closer_done = false;
  Time t_closing = 0, t_closed = 0;
  bool closing = false;
  bool a_ended = false, a_rst = false;   // the other end has sent its end / a reset
  bool a_paused = false;
  int a_end;
  std::string got;          // at the other end
  int end_kind = -1;        // what the other end saw
  uint64_t ok_out = 0, tried_out = 0, read_in = 0;
  int64_t timeout_ms = 0;
  int napping = 0;
  Time t_nap = 0;
  bool live() { return !reader_done || !writer_done || !closer_done; }
};
static Sess* S;
// Buffers end where the memory passed to the code under test ends, so that any overrun is noticed.
static const size_t BUF = 9100;
static uint8_t *rbuf, *wbuf, *urbuf, *uwbuf;
static uint8_t* tail(uint8_t*& b, size_t n) {
  if (!b) b = (uint8_t*)heap_alloc(BUF, false);
  return b + BUF - n;
}
static void feed(Sess* s, int64_t sent) {
  if (s->a && s->a->st == T_SYN_SENT) { post(1 * MS, [s, sent] { if (S == s) feed(s, sent); }); return; }
  if (!s->a || s->a->st != T_EST || s->a_ended) return;
  if (sent >= s->nin) {
    if (s->a_end == 0) { s->a_ended = true; actor_fin(s->a); }
    else if (s->a_end == 1) { s->a_ended = s->a_rst = true; actor_rst(s->a); }
    return;
  }
  int64_t n = s->r.chance(0.3) ? 1 : s->r.logu(1, 6000);
  if (n > s->nin - sent) n = s->nin - sent;
  actor_send(s->a, gendata(s->seed_in, (uint64_t)sent, (size_t)n));
  Time d = s->r.chance(0.5) ? 0 : s->r.chance(0.8) ? s->r.range(0, 2 * MS) : s->r.range(0, 300 * MS);
  post(d, [s, sent, n] { if (S == s) feed(s, sent + n); });
}
static void attach(Sess* s, Sock* a) {
  s->a = a;
  a->on_data = [s](Sock* k, const char* d, size_t n) {
    if (S != s || s->a != k) return;
    for (size_t i = 0; i < n; i++)
      if (d[i] != bytegen(s->seed_out, s->got.size() + i)) { violate("C19:sent", "byte %zu received by the other end is not what was passed to conn_send", s->got.size() + i); break; }
    s->got.append(d, n);
    if (s->got.size() > s->tried_out) violate("C19:sent", "the other end received %zu bytes although only %llu were passed to conn_send", s->got.size(), (unsigned long long)s->tried_out);
  };
  a->on_end = [s](Sock* k, int kind) { if (s->a == k && s->end_kind < 0) s->end_kind = kind; };
}
static void reader(Sess* s) {
  Rng r;
  r.seed(s->seed_in ^ 5);
  bool any = r.chance(0.3), fixed = r.chance(0.3);
  int64_t ch = r.logu(1, 5000);
  for (int i = 0; i < 4000; i++) {
    int64_t n = fixed ? ch : r.chance(0.3) ? r.range(1, 16) : r.logu(1, 5000);
    uint8_t* b = tail(rbuf, (size_t)n);
    Time t0 = now();
    bool timed_out_possible = s->timeout_ms > 0;
    int ret = any ? conn_recv_any(s->h, b, (size_t)n, nullptr, nullptr) : conn_recv(s->h, b, (size_t)n);
    bytes_in += ret > 0 ? (uint64_t)ret : 0;
    if (ret < 0) {
      tlog("recv(%lld) = %d", (long long)n, ret);
      bool excuse = s->closing || !faultless(s->mine) || s->a_rst || s->end_kind == 1;
      if (s->a_ended && s->a_end == 0) {
        // a graceful end: everything sent before it had to be delivered first
        if (!excuse && !timed_out_possible && (int64_t)s->read_in + (any ? 1 : n) <= s->nin)
          violate("C19:recv", "receiving failed (%d) although %lld bytes had not been read and the connection ended gracefully", ret, (long long)(s->nin - (int64_t)s->read_in));
        excuse = true;
      }
      if (!excuse && timed_out_possible && now() - t0 >= s->timeout_ms * MS) { excuse = true; stats->probes[36]++; }
      if (!excuse) violate("C19:recv", "receiving failed (%d) on a working connection", ret);
      break;
    }
    size_t got = any ? (size_t)ret : (size_t)n;
    if (any && (ret == 0 || ret > n)) violate("C19:recv", "conn_recv_any with room for %lld bytes returned %d", (long long)n, ret);
    for (size_t k = 0; k < got; k++)
      if ((char)b[k] != bytegen(s->seed_in, s->read_in + k)) { violate("C19:recv", "byte %llu received is not the next byte of the stream", (unsigned long long)(s->read_in + k)); break; }
    s->read_in += got;
    if ((int64_t)s->read_in > s->nin) violate("C19:recv", "more bytes were received than sent");
    stats->probes[31]++;
    if (r.chance(0.1)) { s->napping++; sleep_until(now() + r.logu(1, 50 * MS), "reading slowly"); s->napping--; s->t_nap = now(); }
  }
  s->reader_done = true;
}
static void writer(Sess* s) {
  Rng r;
  r.seed(s->seed_out ^ 9);
  int64_t left = s->nout;
  while (left > 0) {
    int64_t n = r.chance(0.2) ? r.range(1, 9) : r.logu(1, 9000);
    if (n > left) n = left;
    std::string d = gendata(s->seed_out, s->tried_out, (size_t)n);
    uint8_t* b = tail(wbuf, (size_t)n);
    memcpy(b, d.data(), (size_t)n);
    s->tried_out += (uint64_t)n;
    int ret = conn_send(s->h, b, (size_t)n);
    if (memcmp(b, d.data(), (size_t)n)) violate("C19:sent", "conn_send changed the caller's data");
    if (ret < 0) {
      tlog("send(%lld) = %d", (long long)n, ret);
      if (!s->closing && faultless(s->mine) && !s->a_rst && s->end_kind != 1 && !(s->a && s->a->st != T_EST)) violate("C19:send", "sending failed (%d) on a working connection", ret);
      break;
    }
    s->ok_out += (uint64_t)n;
    bytes_out += (uint64_t)n;
    left -= n;
    stats->probes[32]++;
    if (r.chance(0.2)) { s->napping++; sleep_until(now() + r.logu(1, 30 * MS), "writing slowly"); s->napping--; s->t_nap = now(); }
  }
  s->writer_done = true;
}
static void do_close(conn_handle* h, int how) {
  Time t0 = now();
  if (how == C_CLOSE) conn_close(h);
  else if (how == C_SHUTDOWN) conn_shutdown(h);
  else conn_drop(h);
  if (now() - t0 > g_slack()) violate("C19:unblock", "%s took %lld ms", cname[how], (long long)((now() - t0) / MS));
}
static void closer(Sess* s) {
  if (s->closer != C_NONE) {
    sleep_until(now() + s->close_after, "before closing");
    s->closing = true;
    s->t_closing = now();
    tlog("%s", cname[s->closer]);
    do_close(s->h, s->closer);
    s->t_closed = now();
  }
  s->closer_done = true;
}
static void start_sess(Sess* s, const Op& o) {
  s->r.seed((uint64_t)o.a);
  s->seed_in = s->r.next();
  s->seed_out = s->r.next();
  s->nin = o.b;
  s->nout = o.c;
  s->closer = (int)o.d;
  s->close_after = o.gap;
  s->a_end = s->closer == C_NONE ? (int)s->r.below(2) : (int)s->r.below(3);
  S = s;
}
static void run_sess(Sess* s) {
  n_sess++;
  tlog("session: %lld in, %lld out, %s after %lld us", (long long)s->nin, (long long)s->nout, cname[s->closer], (long long)s->close_after);
  if (!conn_in_use(s->h)) violate("C19:inuse", "a new connection is not in use");
  if (s->h != &A && s->r.chance(0.25)) {
    s->timeout_ms = s->r.chance(0.7) ? s->r.range(1, 400) : 30000;
    uint64_t f0 = resource_faults();
    int r = conn_set_timeout(s->h, (uint32_t)s->timeout_ms);
    if (r < 0 && resource_faults() == f0) violate("C19:timeout", "conn_set_timeout failed (%d)", r);
    if (r < 0) s->timeout_ms = 0;
  }
  if (s->r.chance(0.4)) {
    Time until = s->r.chance(0.3) && s->closer != C_NONE ? NEVER : s->r.logu(1000, 3 * SEC);
    actor_pause(s->a, true);
    if (until != NEVER) post(until, [s] { if (S == s && s->a->st != T_DEAD) actor_pause(s->a, false); });
  }
  spawn("reader", [s] { reader(s); }, false);
  spawn("writer", [s] { writer(s); }, false);
  spawn("closer", [s] { closer(s); }, false);
  feed(s, 0);
  Time lim = now() + 900 * SEC + s->close_after + 300 * g_slack();
  while (s->live()) {
    sleep_until(now() + 2 * MS + (now() - s->t_closing) / 8, "waiting for the session");
    if (s->closer_done && s->closing && (!s->reader_done || !s->writer_done) && !s->napping && now() > std::max(s->t_closed, s->t_nap) + g_slack() + 10 * MS)
      { violate("C19:unblock", "a blocked %s did not return within %lld ms of %s", s->reader_done ? "send" : "receive", (long long)((now() - s->t_closed) / MS), cname[s->closer]); break; }
    // a reader which has got everything is released by closing
    if (s->closer == C_NONE && s->writer_done && !s->reader_done && !s->closing && s->a_ended && s->mine && s->mine->faulted) { s->closing = true; s->t_closed = now(); do_close(s->h, C_SHUTDOWN); }
    if (now() > lim) { violate("C19:hang", "the session does not end\n%s", fiber_dump().c_str()); break; }
  }
  if (s->closing) n_unblocked++, stats->probes[34]++;
  if (s->closing && (s->closer == C_CLOSE || s->closer == C_DROP)) {
    if (conn_in_use(s->h)) violate("C19:inuse", "a closed connection is still in use");
  } else if (s->closer == C_NONE && s->end_kind != 1 && !s->a_rst && !s->closing && faultless(s->mine)) {
    // nothing disturbed the connection: all that was sent must arrive
    for (int k = 0; k < 400 && s->got.size() < s->ok_out; k++) sleep_until(now() + 100 * MS, "waiting for the data");
    if (s->a_rst || s->end_kind == 1 || !faultless(s->mine)) {}   // ended meanwhile
    else if (s->got.size() < s->ok_out && !s->a->paused) violate("C19:sent", "only %zu of %llu bytes sent successfully arrived", s->got.size(), (unsigned long long)s->ok_out);
    else stats->probes[35]++;
  }
  if (s->h == &A) conn_drop(&A); else conn_close(s->h);
  if (conn_in_use(s->h)) violate("C19:inuse", "a closed connection is still in use");
  if (s->mine && !s->mine->closed) violate("C19:leak", "the socket is still open after %s", s->h == &A ? "dropping" : "closing");
  uint8_t x[4] = {0};
  if (conn_send(s->h, x, 4) >= 0) violate("C19:send", "sending on a closed connection succeeded");
  if (conn_recv(s->h, x, 4) >= 0) violate("C19:recv", "receiving on a closed connection succeeded");
  S = nullptr;   // kept: callbacks may still hold it
}
static Sock* last_accepted;
static void o_accept(const Op& o) {
  if (!listening && !relisten()) return;
  Sess* s = new Sess;
  s->h = &A;
  start_sess(s, o);
  bool failed = false;
  Sock* c = nullptr;
  std::function<void()> dial = [&c, s, &failed] {
    failed = false;
    c = actor_connect(mkip(40, 1, 2, (int)s->r.range(1, 250)), ME, PORT, nullptr, [&failed](int) { failed = true; });
    attach(s, c);
  };
  dial();
  int r = -1;
  for (int k = 0; k < 60; k++) {
    uint64_t f0 = resource_faults();
    int fd0 = open_fds();
    r = conn_accept(&L, &A);
    if (r >= 0) break;
    stats->probes[33]++;
    if (!P->p("churn") && open_fds() != fd0) { violate("C19:leak", "a failed conn_accept (%d) left a descriptor open: %s", r, fd_dump().c_str()); }
    if (conn_in_use(&A)) violate("C19:inuse", "a connection is in use after a failed accept");
    if (resource_faults() == f0) { violate("C19:accept", "conn_accept failed (%d) although no resource failed", r); return; }
    if (k > 20) faults_on = false;
    sleep_until(now() + 200 * MS + 4 * cfg.net_max, "after a failed accept");
    if (s->end_kind >= 0 || (c->st != T_EST && c->st != T_SYN_SENT)) { s->end_kind = -1; dial(); }
  }
  if (r < 0) return;
  s->mine = last_accepted;
  if (!s->mine || s->mine->peer != c) { violate("C19:accept", "the accepted connection is not the one which was made"); return; }
  char got[54];
  conn_get_remote_addr(&A, got);
  std::string want = ipstr(c->lip) + ":" + std::to_string(c->lport);
  if (v6) want = "[" + v6str(c->lip) + "]:" + std::to_string(c->lport);
  if (want != got) violate("C19:addr", "the remote address is given as %s instead of %s", got, want.c_str());
  run_sess(s);
}
static int route_mode;
static Time route_delay;
static Sock* connecting;
static void o_connect(const Op& o) {
  Sess* s = new Sess;
  s->h = &K;
  start_sess(s, o);
  Rng r;
  r.seed((uint64_t)o.a ^ 77);
  route_mode = r.chance(0.75) ? 0 : (int)r.range(1, 3);
  route_delay = r.chance(0.7) ? 0 : r.logu(1000, 20 * SEC);
  bool name = r.chance(0.3), nosuch = name && r.chance(0.2);
  K.source_addr = r.chance(0.3) ? "10.0.0.1" : nullptr;
  bool cancel = r.chance(0.25);
  bool cancelled = false, finished = false;
  if (cancel) {
    Time d = r.chance(0.5) ? r.logu(1, 3000) : r.logu(1, 2 * SEC);
    bool late = r.chance(0.4);   // as soon as the attempt has failed
    connecting = nullptr;
    spawn("canceller", [&cancelled, &finished, d, late] {
      if (late) for (int k = 0; k < 20000 && (!connecting || connecting->st == T_SYN_SENT); k++) sleep_until(now() + (k < 2000 ? 20 : 2000), "before cancelling");
      else sleep_until(now() + d, "before cancelling");
      cancelled = true;
      do_close(&K, C_SHUTDOWN);
      finished = true;
    }, false);
  }
  uint64_t f0 = resource_faults();
  int fd0 = open_fds();
  connecting = nullptr;
  Time t0 = now();
  int ret = conn_connect(&K, name ? (nosuch ? "no.such.host" : hash64((uint64_t)t0, cfg.seed) % 3 ? "some.host" : "dual.host") : "40.1.1.1", "5200");
  tlog("connect = %d", ret);
  if (cancelled && !finished && now() - t0 > 140 * SEC + g_slack()) violate("C19:unblock", "conn_connect was not released");
  Time t1 = now();
  while (cancel && !finished) sleep_until(now() + 1 * MS, "waiting for the canceller");
  (void)t1;
  if (ret < 0) {
    if (!P->p("churn") && open_fds() != fd0) violate("C19:leak", "a failed conn_connect (%d) left a descriptor open: %s", ret, fd_dump().c_str());
    if (conn_in_use(&K)) violate("C19:inuse", "a connection is in use after a failed connect");
    if (route_mode == 0 && !nosuch && !cancelled && resource_faults() == f0) violate("C19:connect", "conn_connect failed (%d) although the host answers", ret);
    S = nullptr;
    return;
  }
  if (route_mode || nosuch) violate("C19:connect", "conn_connect succeeded although there is no such host");
  if (!s->a) { violate("C19:connect", "conn_connect succeeded without a connection"); return; }
  s->mine = s->a->peer;
  if (cancelled) {   // it may have come before there was anything to shut down
    s->closing = true;
    if (s->closer == C_NONE) s->closer = C_SHUTDOWN;
  }
  run_sess(s);
}

// ---- UDP ----------------------------------------------------------------------------------------------------
struct UdpS {
  Sock* k = nullptr;
  std::deque<std::pair<Dgram, int>> q;
  bool reader_done = false, writer_done = false, closer_done = false, closing = false;
  Time t_closed = 0;
  std::string want;   // datagram being sent
  IP wip = 0;
  uint16_t wport = 0;
  bool sending = false;
  int seen = 0;
};
static UdpS* UD;
static uint64_t udp_tag;
static void o_udp(const Op& o) {
  Rng r;
  r.seed((uint64_t)o.a);
  UdpS* u = new UdpS;
  static const char* const ports[] = {"5198", "5199", nullptr};
  U.source_addr = r.chance(0.5) ? "10.0.0.1" : nullptr;
  U.source_port = ports[r.below(3)];
  int ret = -1;
  for (int k = 0; k < 60; k++) {
    uint64_t f0 = resource_faults();
    int fd0 = open_fds();
    last_bound = nullptr;
    ret = conn_listen(&U);
    if (ret >= 0) break;
    stats->probes[33]++;
    if (!P->p("churn") && open_fds() != fd0) violate("C19:leak", "a failed conn_listen left a descriptor open: %s", fd_dump().c_str());
    if (resource_faults() == f0) { violate("C19:listen", "conn_listen failed (%d) although no resource failed", ret); return; }
    if (k > 20) faults_on = false;
  }
  if (ret < 0) return;
  for (auto k : sut_udp) if (!k->closed && k->name != "churn") u->k = k;
  if (!u->k) { violate("C19:listen", "conn_listen bound nothing"); return; }
  UD = u;
  n_udp++;
  int64_t nin = o.b % 30, nout = o.c % 30;
  uint64_t seed = r.next();
  spawn("udp reader", [u, seed] {
    Rng q;
    q.seed(seed);
    for (;;) {
      size_t n = 4096;
      uint8_t* b = tail(urbuf, n);
      uint32_t addr = 0;
      uint16_t port = 0;
      bool na = q.chance(0.2), np = q.chance(0.5);
      uint64_t f0 = resource_faults();
      int ret = conn_recv_any(&U, b, n, na ? nullptr : &addr, np ? nullptr : &port);
      if (ret < 0) {
        if (!u->closing && resource_faults() == f0) violate("C19:udp", "receiving a datagram failed (%d)", ret);
        if (u->closing) break;
        continue;
      }
      while (!u->q.empty() && u->q.front().first.data.empty()) u->q.pop_front();
      if (u->q.empty()) violate("C19:udp", "a datagram was received which was never delivered");
      else {
        Dgram d = u->q.front().first;
        u->q.pop_front();
        if (ret != (int)d.data.size() || memcmp(b, d.data.data(), d.data.size())) violate("C19:udp", "a datagram of %zu bytes was received as %d other bytes", d.data.size(), ret);
        if (!na && ntohl(addr) != d.src) violate("C19:udp", "a datagram of %s is attributed to %s", ipstr(d.src).c_str(), ipstr(ntohl(addr)).c_str());
        if (!np && port != d.sport) violate("C19:udp", "the source port %d is given as %d", d.sport, port);
        stats->probes[37]++;
      }
    }
    u->reader_done = true;
  }, false);
  spawn("udp writer", [u, nout, seed] {
    Rng q;
    q.seed(seed + 1);
    for (int64_t i = 0; i < nout; i++) {
      size_t n = (size_t)(q.chance(0.4) ? q.range(1, 20) : q.logu(1, 9000));
      u->want = gendata(seed, (uint64_t)i * 100, n);
      u->wip = mkip(50, 1, 1, (int)q.range(1, 200));
      u->wport = (uint16_t)q.range(1, 65535);
      u->seen = 0;
      u->sending = true;
      uint8_t* b = tail(uwbuf, n);
      memcpy(b, u->want.data(), n);
      uint64_t f0 = resource_faults();
      int ret = conn_send_to(&U, b, n, htonl(u->wip), u->wport);
      u->sending = false;
      if (ret >= 0 && u->seen != 1) violate("C19:udp", "a successful send of one datagram transmitted %d", u->seen);
      if (ret < 0 && u->seen) violate("C19:udp", "a failed send (%d) transmitted a datagram", ret);
      if (ret < 0 && !u->closing && resource_faults() == f0) violate("C19:udp", "sending a datagram failed (%d)", ret);
      if (ret < 0 && u->closing) break;
      stats->probes[38]++;
      if (q.chance(0.3)) sleep_until(now() + q.logu(1, 20 * MS), "between datagrams");
    }
    u->writer_done = true;
  }, false);
  int how = o.d == C_SHUTDOWN ? C_SHUTDOWN : C_CLOSE;
  Time after = o.gap;
  spawn("udp closer", [u, how, after] {
    sleep_until(now() + after, "before closing");
    u->closing = true;
    do_close(&U, how);
    u->t_closed = now();
    u->closer_done = true;
  }, false);
  for (int64_t i = 0; i < nin; i++)
    post(r.logu(1, 60 * MS), [u, seed, i] {
      if (UD != u || u->k->closed) return;
      Rng q;
      q.seed(seed + 100 + (uint64_t)i);
      size_t n = (size_t)(q.chance(0.1) ? 0 : q.chance(0.5) ? q.range(1, 40) : q.logu(1, 4096));
      udp_inject(ME, u->k->lport, mkip(60, 1, 2, (int)q.range(1, 250)), (uint16_t)q.range(1, 65535), gendata(seed ^ (uint64_t)i, 0, n), ++udp_tag);
    });
  Time lim = now() + 60 * SEC + after + 100 * g_slack();
  while (!u->reader_done || !u->writer_done || !u->closer_done) {
    sleep_until(now() + 1 * MS, "waiting for the session");
    if (u->closer_done && now() > u->t_closed + g_slack() + 60 * MS) { violate("C19:unblock", "a blocked UDP operation did not return within %lld ms of %s", (long long)((now() - u->t_closed) / MS), cname[how]); break; }
    if (now() > lim) { violate("C19:hang", "the session does not end\n%s", fiber_dump().c_str()); break; }
  }
  conn_close(&U);
  if (!u->k->closed) violate("C19:leak", "the UDP socket is still open after closing");
  UD = nullptr;
}
// ---- listener ------------------------------------------------------------------------------------------------
static void o_blockaccept(const Op& o) {
  if (!listening && !relisten()) return;
  bool done = false;
  int ret = 1;
  Time tret = 0;
  spawn("acceptor", [&] {
    for (int k = 0;; k++) {
      uint64_t f0 = resource_faults();
      ret = conn_accept(&L, &A);
      if (ret >= 0 || !listening || resource_faults() == f0 || k > 60) break;
    }
    tret = now();
    done = true;
  }, false);
  sleep_until(now() + o.gap, "before closing");
  listening = false;
  int how = o.d == C_SHUTDOWN ? C_SHUTDOWN : C_CLOSE;
  bool was_done = done;
  if (was_done && ret < 0 && faults_on == false) violate("C19:accept", "conn_accept failed (%d) on a working listener", ret);
  do_close(&L, how);
  Time t1 = now();
  while (!done) {
    sleep_until(now() + 1 * MS, "waiting for the acceptor");
    if (now() > t1 + g_slack() + 10 * MS) { fatal_violation("C19:unblock", "a blocked accept did not return within %lld ms of %s\n%s", (long long)((now() - t1) / MS), cname[how], fiber_dump().c_str()); }
  }
  if (ret >= 0) violate("C19:accept", "conn_accept succeeded although nobody connected");
  stats->probes[34]++;
  conn_close(&L);
  if (tcp_port_listening(ME, PORT)) violate("C19:leak", "a closed listener still listens");
}
// ---- unrelated sockets -------------------------------------------------------------------------------------------
static Sock* churn_sock;
static bool churn_binding;
static void churn() {
  Rng r;
  r.seed((uint64_t)P->p("churnseed"));
  for (int k = 0; !done_all && k < 1500; k++) {
    conn_handle h;
    memset(&h, 0, sizeof h);
    h.type = CONN_TYPE_UDP;
    if (conn_init(&h) < 0) { sleep_until(now() + 1 * MS, "churn"); continue; }
    h.source_port = nullptr;
    churn_binding = true;
    int ret = conn_listen(&h);
    churn_binding = false;
    if (ret >= 0) {
      Sock* k = churn_sock;
      if (r.chance(0.7)) sleep_until(now() + r.logu(1, 3000), "churn"); else sleep_until(now() + r.logu(1, 200 * MS), "churn");
      if (k->closed) violate("C19:foreign", "an unrelated socket was closed");
      else if (k->rshut || k->wshut) violate("C19:foreign", "an unrelated socket was shut down");
    }
    conn_free(&h);
    sleep_until(now() + r.logu(1, 2000), "churn");
  }
}
static void control() {
  memset(&L, 0, sizeof L);
  if (retry_init(&L, CONN_TYPE_TCP) || retry_init(&A, CONN_TYPE_TCP) || retry_init(&K, CONN_TYPE_TCP) || retry_init(&U, CONN_TYPE_UDP)) return;
  if (P->p("churn")) spawn("churn", churn, false);
  for (auto& o : P->ops) {
    stats->ops++;
    switch (o.kind) {
      case O_ACCEPT: o_accept(o); break;
      case O_CONNECT: o_connect(o); break;
      case O_UDP: o_udp(o); break;
      case O_BLOCKACCEPT: o_blockaccept(o); break;
      case O_DROPLISTENER:
        if (listening) { do_close(&L, C_DROP); if (!tcp_port_listening(ME, PORT)) violate("C19:droplisten", "a dropped listener does not listen any more"); }
        break;
      case O_RELISTEN: if (listening) { conn_close(&L); listening = false; if (tcp_port_listening(ME, PORT)) violate("C19:leak", "a closed listener still listens"); } break;
      case O_REINIT: conn_free(&K); if (retry_init(&K, CONN_TYPE_TCP)) return; break;
    }
    S = nullptr;
  }
  done_all = true;
  sleep_until(now() + 300 * MS + g_slack(), "settling");
  conn_free(&L);
  conn_free(&A);
  conn_free(&K);
  conn_free(&U);
  for (int k = 0; k < 100 && P->p("churn") && open_fds(); k++) sleep_until(now() + 100 * MS, "settling");
  for (auto b : {rbuf, wbuf, urbuf, uwbuf}) if (b) heap_free(b, "end");
  if (open_fds()) violate("C19:leak", "descriptors are still open after freeing every connection: %s", fd_dump().c_str());
  leaks("C19:leak", "after freeing every connection");
}
static void gen(Plan& p, Rng& r) {
  gen_sched(p, r);
  Config& c = p.cfg;
  if (c.mem_gap == 0 && r.chance(0.4)) c.mem_gap = (uint64_t)r.logu(5, 500);
  p.par["churn"] = r.chance(0.4);
  if (r.chance(0.25)) p.par["v6"] = r.range(1, 2);
  p.par["churnseed"] = (int64_t)(r.next() >> 20);
  p.par["sndbuf"] = r.chance(0.5) ? 16384 : r.logu(64, 16384);
  p.par["rcvbuf"] = r.chance(0.5) ? 32768 : r.logu(64, 32768);
  if (r.chance(0.1)) { c.rate[K_STALL] = 0.01; c.max_stall = r.logu(1000, 1 * SEC); }
  if (r.chance(0.35)) c.rate[K_SHORTSEND] = r.chance(0.5) ? 0.5 : 0.05;
  if (r.chance(0.35)) c.rate[K_SHORTRECV] = r.chance(0.5) ? 0.5 : 0.05;
  if (r.chance(0.1)) c.rate[K_SENDERR] = 0.03;
  if (r.chance(0.1)) c.rate[K_RECVERR] = 0.03;
  if (r.chance(0.1)) c.rate[K_UDPRECVERR] = 0.05;
  if (r.chance(0.1)) c.rate[K_SENDTO] = 0.1;
  if (r.chance(0.3))
    for (int k : {K_SOCKET, K_BIND, K_LISTEN, K_SOCKOPT, K_ACCEPT, K_CONNECT, K_GAI, K_ALLOC, K_SYNCINIT})
      if (r.chance(0.3)) c.rate[k] = r.chance(0.5) ? 0.3 : 0.05;
  int n = 1 + (int)r.below(5);
  for (int i = 0; i < n; i++) {
    int x = (int)r.below(20);
    int64_t seed = (int64_t)(r.next() >> 20);
    int64_t nin = r.chance(0.2) ? 0 : r.chance(0.7) ? r.logu(1, 9000) : r.logu(1, 120000);
    int64_t nout = r.chance(0.2) ? 0 : r.chance(0.7) ? r.logu(1, 9000) : r.logu(1, 120000);
    int cl = (int)r.below(4);
    Time at = r.chance(0.5) ? r.logu(1, 5 * MS) : r.logu(1, 1 * SEC);
    if (x < 8) add(p, 0, O_ACCEPT, at, seed, nin, nout, cl);
    else if (x < 13) add(p, 0, O_CONNECT, at, seed, nin, nout, cl == C_DROP ? C_CLOSE : cl);
    else if (x < 16) add(p, 0, O_UDP, at, seed, nin, nout, cl);
    else if (x < 17) add(p, 0, O_BLOCKACCEPT, at, seed, 0, 0, cl);
    else if (x < 18) { add(p, 0, O_DROPLISTENER, 0); add(p, 0, O_ACCEPT, at, seed, nin, nout, cl); }
    else add(p, 0, x < 19 ? O_RELISTEN : O_REINIT, 0);
  }
}
static void exec(const Plan& p) {
  P = &p;
  net.sut_sndbuf = (size_t)p.p("sndbuf");
  net.sut_rcvbuf = (size_t)p.p("rcvbuf");
  net.is_local = [](IP a) { return a == ME || a == mkip(127, 0, 0, 1); };
  net.dns = [](const std::string& h, IP* ip, Time* d) {
    *d = 20 * MS;
    if (h != "some.host" && h != "dual.host") return -2;
    *ip = mkip(40, 1, 1, 1);
    return 0;
  };
  net.dual = [](const std::string& h) { return h == "dual.host"; };
  net.route = [](Sock* k, IP ip, uint16_t port) {
    Route r;
    Sess* s = S;
    if (ip != mkip(40, 1, 1, 1) || port != 5200) violate("C19:connect", "a connection is made to %s:%d instead of 40.1.1.1:5200", ipstr(ip).c_str(), port);
    connecting = k;
    r.mode = route_mode;
    r.delay = route_delay;
    r.up = [s](Sock* a) { if (s) attach(s, a); };
    return r;
  };
  net.accepted = [](Sock* k) { last_accepted = k; };
  net.bound = [](Sock* k) { if (!k->tcp) { if (cur && cur->name == "churn") { churn_sock = k; k->name = "churn"; } else last_bound = k; } };
  net.udp_in = [](Sock* k, const Dgram& d, bool dropped) { if (UD && k == UD->k && !dropped) UD->q.push_back({d, 0}); };
  net.udp_out = [](Sock* k, IP ip, uint16_t port, const std::string& d) {
    if (!UD || k != UD->k || !UD->sending) { violate("C19:udp", "an unexpected datagram was sent"); return; }
    UD->seen++;
    if (ip != UD->wip || port != UD->wport || d != UD->want) violate("C19:udp", "a datagram of %zu bytes to %s:%d was sent as %zu bytes to %s:%d", UD->want.size(), ipstr(UD->wip).c_str(), UD->wport, d.size(), ipstr(ip).c_str(), port);
  };
  main_fiber = spawn("main", [] { control(); stop(); }, false);
  on_quiesce = [] {
    fatal_violation("C19:hang", "nothing can run any more\n%s", fiber_dump().c_str());
    return false;
  };
  run();
  result->nontrivial = n_sess + n_udp > 0;
  snprintf(result->sample, sizeof result->sample, "%s/%s index %lld: %zu operations, %d TCP sessions, %d UDP sessions, %llu bytes in, %llu out, %d closed by another thread, strategy %d, preempt every %llu accesses, simulated %lld ms",
           p.world.c_str(), p.profile.c_str(), (long long)p.p("index"), p.ops.size(), n_sess, n_udp, (unsigned long long)bytes_in, (unsigned long long)bytes_out, n_unblocked, cfg.strategy, (unsigned long long)cfg.mem_gap, (long long)(now() / MS));
  finish_ok();
}
static WorldReg reg({"conn", gen, exec, {"accept", "connect", "udp", "blockaccept", "droplistener", "relisten", "reinit"}});
}  // namespace cn

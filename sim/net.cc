#include <array>
#include <map>
#include "net.h"
#include "env.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include <map>

namespace sim {
Net net;
std::vector<Sock*> sut_udp;
std::string console[3];
bool sig_restart = false;
static std::vector<Sock*> listeners;
static std::vector<Sock*> accepted_socks;     // accepted by the SUT, still open
struct TimeWait { IP ip; uint16_t port; bool reuse; Time until; };
static std::vector<TimeWait> timewait;
static uint64_t sock_ids = 0;
static uint16_t ephemeral = 32768;
static size_t live_socks = 0;

std::string ipstr(IP a) {
  char b[32];
  snprintf(b, sizeof b, "%u.%u.%u.%u", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255);
  return b;
}
// ---- descriptors --------------------------------------------------------------------------------------------
struct Fd { Obj* o = nullptr; int inflight = 0; Fiber* user = nullptr; };
static std::vector<Fd> fds;
static std::vector<char> ever;   // descriptor numbers that were open at some time
static void obj_release(Obj* o);
void fd_console(int fd, int which) {
  if ((int)fds.size() <= fd) { fds.resize(fd + 1); ever.resize(fd + 1); }
  Console* c = new Console;
  c->which = which;
  c->refs = 1;
  fds[fd].o = c;
  ever[fd] = 1;
}
bool fd_is_console(int fd) { return fd < (int)fds.size() && fds[fd].o && fds[fd].o->kind == 3; }
void net_init() {
  for (int i = 0; i < 3; i++) fd_console(i, i);
}
int fd_install(Obj* o) {
  size_t i = 0;
  while (i < fds.size() && fds[i].o) i++;
  if ((int)i >= net.fd_limit) { stats->fault[K_EMFILE]++; tlog("FAULT descriptor_limit"); errno = EMFILE; return -1; }
  if (i == fds.size()) { fds.resize(i + 1); ever.resize(i + 1); }
  fds[i].o = o;
  fds[i].inflight = 0;
  ever[i] = 1;
  o->refs++;
  return (int)i;
}
static bool fd_full() {
  size_t i = 0;
  while (i < fds.size() && fds[i].o) i++;
  if ((int)i < net.fd_limit) return false;
  stats->fault[K_EMFILE]++;
  tlog("FAULT descriptor_limit");
  errno = EMFILE;
  return true;
}
Obj* fd_get(int fd, const char* what) {
  if (fd < 0 || fd >= (int)fds.size() || !fds[fd].o) {
    if (fd >= 0 && fd < (int)ever.size() && ever[fd] && net.watch_fd) violate("C19:fd", "%s on descriptor %d, which is closed", what, fd);
    errno = EBADF;
    return nullptr;
  }
  return fds[fd].o;
}
static Sock* sk(int fd, const char* what) {
  Obj* o = fd_get(fd, what);
  if (!o) return nullptr;
  if (o->kind != 1) { errno = ENOTSOCK; return nullptr; }
  return (Sock*)o;
}
struct InUse {
  int fd; Obj* o;
  InUse(int f, Obj* ob) : fd(f), o(ob) { o->refs++; fds[fd].inflight++; fds[fd].user = cur; }
  ~InUse() {
    if (fd < (int)fds.size() && fds[fd].o == o) fds[fd].inflight--;
    if (--o->refs == 0) obj_release(o);
  }
};
int open_socks() {
  int n = 0;
  for (size_t i = 0; i < fds.size(); i++) if (fds[i].o && fds[i].o->kind == 1) n++;
  return n;
}
int open_fds() {
  int n = 0;
  for (size_t i = 0; i < fds.size(); i++) if (fds[i].o && fds[i].o->kind != 3 && (i > 2 || fds[i].o->kind == 1)) n++;
  return n;
}
std::string fd_dump() {
  std::string s;
  for (size_t i = 0; i < fds.size(); i++)
    if (fds[i].o && fds[i].o->kind != 3) {
      char b[100];
      if (fds[i].o->kind == 1) {
        Sock* k = (Sock*)fds[i].o;
        snprintf(b, sizeof b, " fd%zu:%s %s:%d", i, k->tcp ? "tcp" : "udp", ipstr(k->lip).c_str(), k->lport);
      } else snprintf(b, sizeof b, " fd%zu:file", i);
      s += b;
    }
  return s;
}
size_t live_sockets() { return live_socks; }

// ---- TCP engine ----------------------------------------------------------------------------------------------
static void pump(Sock* a);
static void deliver_fin(Sock* a);
static Sock* new_sock(bool tcp, bool actor) {
  Sock* s = new Sock;
  s->kind = 1;
  s->id = ++sock_ids;
  s->tcp = tcp;
  s->actor = actor;
  if (actor) { s->sndbuf = 1u << 30; s->rcvbuf = 65536; }
  else { s->sndbuf = net.sut_sndbuf; s->rcvbuf = net.sut_rcvbuf; live_socks++; }
  s->last_rx = now();
  return s;
}
static void wakeup(Sock* s) { wake_all(s->rq); wake_all(s->wq); }
// the first segment from the other side completes the handshake
static void establish(Sock* c) {
  if (c->st != T_SYN_SENT || !c->peer || c->closed) return;
  c->st = T_EST;
  c->last_rx = now();
  wakeup(c);
  if (c->on_up) c->on_up(c);
  pump(c);
}
static void conn_error(Sock* s, int e) {  // connection is finished with an error
  if (s->st == T_DEAD) return;
  s->err = (e == ECONNRESET && s->fin_in) ? EPIPE : e;
  if (s->st == T_SYN_SENT && e == ECONNRESET) s->err = ECONNREFUSED;
  s->st = T_DEAD;
  s->snd.clear();
  wakeup(s);
}
static void send_rst(Sock* s) {  // s aborts: peer learns after a delay
  Sock* p = s->peer;
  s->st = T_DEAD;
  s->snd.clear();
  wakeup(s);
  if (!p || s->link_dead) return;
  post(net_delay(), [p] {
    if (p->st == T_DEAD) return;
    establish(p);
    if (p->actor) {
      p->st = T_DEAD;
      if (p->on_end) p->on_end(p, 1);
    } else {
      conn_error(p, ECONNRESET);
    }
  });
}
static void timeouts(Sock* s);
static void actor_consume(Sock* s) {
  if (!s->actor || s->paused) return;
  if (!s->rcv.empty()) {
    std::string d;
    d.swap(s->rcv);
    if (s->on_data) s->on_data(s, d.data(), d.size());
    if (s->peer) pump(s->peer);
  }
  if (s->fin_in && s->rcv.empty() && !s->conn_done) {
    s->conn_done = true;
    if (s->on_end) s->on_end(s, 0);
  }
}
static void pump(Sock* a) {
  Sock* b = a->peer;
  if (a->xfer || !b || a->link_dead) return;
  if (a->st != T_EST) return;
  if (a->snd.empty()) {
    if (a->wshut && !a->fin_sent) {
      a->fin_sent = true;
      a->xfer = true;
      post(net_delay(), [a] { a->xfer = false; deliver_fin(a); });
    }
    return;
  }
  if (b->st == T_EST && b->rcv.size() >= b->rcvbuf && !b->rshut && !b->closed) return;  // zero window
  a->xfer = true;
  post(net_delay(), [a, b] {
    a->xfer = false;
    if (a->link_dead || a->st != T_EST) return;
    if (b->st == T_DEAD) return;
    if (b->rshut || (b->closed)) {  // data for a closed receiver
      send_rst(b);
      return;
    }
    size_t room = b->rcvbuf > b->rcv.size() ? b->rcvbuf - b->rcv.size() : 0;
    size_t n = std::min(a->snd.size(), room);
    if (n > 1) {
      uint64_t v = dec_raw(K_SEG, [n](Rng& r) -> uint64_t { int c = (int)r.below(8); return c == 0 ? 1 : c <= 2 ? 1 + r.below(n) : c == 3 ? 1 + r.below(std::min<size_t>(n, 20)) : 0; });
      if (v && v < n) n = v;
    }
    establish(b);
    if (n) {
      b->rcv.append(a->snd.data(), n);
      a->snd.drop(n);
      b->rx_total += n;
      b->last_rx = now();
      a->last_rx = now();
      wake_all(b->rq);
      wake_all(a->wq);
    }
    if (b->actor) actor_consume(b);
    pump(a);
  });
}
static void deliver_fin(Sock* a) {
  Sock* b = a->peer;
  if (!b || a->link_dead || b->st == T_DEAD) return;
  if (a->st == T_DEAD) return;
  establish(b);
  b->fin_in = true;
  b->last_rx = now();
  wake_all(b->rq);
  if (b->actor) actor_consume(b);
}
static void tcp_shutdown_w(Sock* s) {
  if (s->wshut) return;
  s->wshut = true;
  s->active = !s->fin_in;
  wake_all(s->wq);
  pump(s);
}
static void tcp_destroy(Sock* s) {  // last reference to a SUT TCP socket gone
  s->closed = true;
  if (s->st == T_LISTEN) {
    listeners.erase(std::remove(listeners.begin(), listeners.end(), s), listeners.end());
    for (auto c : s->aq) { c->closed = true; send_rst(c); live_socks--; }
    s->aq.clear();
    s->st = T_DEAD;
  } else if (s->st == T_EST) {
    if (!s->rcv.empty()) send_rst(s);
    else { s->rshut = true; tcp_shutdown_w(s); }
  } else if (s->st == T_SYN_SENT) s->st = T_DEAD;
  auto i = std::find(accepted_socks.begin(), accepted_socks.end(), s);
  if (i != accepted_socks.end()) {
    accepted_socks.erase(i);
    if (s->st == T_EST && s->active) timewait.push_back({s->lip, s->lport, s->reuse, now() + 60 * SEC});
  }
}
static void obj_release(Obj* o) {
  if (o->kind == 1) {
    Sock* s = (Sock*)o;
    if (s->tcp) tcp_destroy(s);
    else {
      s->closed = true;
      sut_udp.erase(std::remove(sut_udp.begin(), sut_udp.end(), s), sut_udp.end());
    }
    live_socks--;
    if (net.closed) net.closed(s);
  }
}
int fd_close(int fd) {
  Obj* o = fd_get(fd, "close");
  if (!o) return -1;
  if (fds[fd].inflight > 0 && net.watch_fd) violate("C19:fd", "descriptor %d closed while %s is using it", fd, fds[fd].user ? fds[fd].user->name.c_str() : "?");
  fds[fd].o = nullptr;
  fds[fd].inflight = 0;
  if (o->kind == 1) ((Sock*)o)->fd = -1;
  if (--o->refs == 0) obj_release(o);
  return 0;
}
std::vector<Listening> sut_listening() {
  std::vector<Listening> v;
  for (auto l : listeners) v.push_back({l->lip, l->lport, l->v6});
  return v;
}
bool tcp_port_listening(IP a, uint16_t port) {
  for (auto l : listeners)
    if (l->lport == port && (l->lip == 0 || l->lip == a)) return true;
  return false;
}
// path loss: s's peer (or the path) vanished
static void dead_timer(Sock* s) {
  if (!s->link_dead || s->st != T_EST || s->actor) return;
  if (!s->snd.empty() || (s->wshut && !s->fin_sent)) {
    if (!s->rto_at) {
      s->rto_at = now() + 924 * SEC;
      post_at(s->rto_at, [s] { if (s->st == T_EST && s->link_dead && s->rto_at) conn_error(s, ETIMEDOUT); });
    }
  } else if (s->keepalive) {
    Time at = std::max(s->last_rx + (Time)s->kidle * SEC, now()) + (Time)s->kcnt * s->kintvl * SEC;
    post_at(at, [s] { if (s->st == T_EST && s->link_dead && s->snd.empty() && s->keepalive) conn_error(s, ETIMEDOUT); });
  }
}
// SYN towards a SUT listener
static void syn_arrive(Sock* c, IP to, uint16_t port, int attempt, std::function<void(Sock*)> up, std::function<void(int)> fail) {
  if (c->st != T_SYN_SENT) return;
  Sock* l = nullptr;
  for (auto x : listeners)
    if (x->lport == port && (x->lip == 0 || x->lip == to)) { l = x; break; }
  if (!l) {
    post(net_delay(), [c, fail] {
      if (c->st != T_SYN_SENT) return;
      if (!c->actor) conn_error(c, ECONNRESET);
      else c->st = T_DEAD;
      if (fail) fail(ECONNREFUSED);
    });
    return;
  }
  if ((int)l->aq.size() > l->backlog) {
    if (attempt >= 6) {
      if (!c->actor) conn_error(c, ETIMEDOUT);
      else c->st = T_DEAD;
      if (fail) fail(ETIMEDOUT);
      return;
    }
    post((Time)(1 << attempt) * SEC, [=] { syn_arrive(c, to, port, attempt + 1, up, fail); });
    return;
  }
  Sock* s = new_sock(true, false);
  s->st = T_EST;
  s->lip = to; s->lport = port;
  s->rip = c->lip; s->rport = c->lport;
  s->peer = c;
  c->peer = s;
  c->on_up = up;
  s->rcvbuf = l->rcvbuf; s->sndbuf = l->sndbuf;
  s->user = c->user;
  l->aq.push_back(s);
  wake_all(l->rq);
  post(net_delay(), [c] { establish(c); });
}
Sock* actor_connect(IP from, IP to, uint16_t port, std::function<void(Sock*)> up, std::function<void(int)> fail) {
  Sock* c = new_sock(true, true);
  c->lip = from;
  c->lport = ephemeral++;
  if (ephemeral < 32768) ephemeral = 32768;
  c->rip = to; c->rport = port;
  c->st = T_SYN_SENT;
  post(net_delay(), [=] { syn_arrive(c, to, port, 0, up, fail); });
  return c;
}
void actor_send(Sock* s, const std::string& d) {
  if (s->st != T_EST || s->wshut) return;
  s->snd.append(d.data(), d.size());
  s->tx_total += d.size();
  pump(s);
}
void actor_fin(Sock* s) {
  if (s->st == T_SYN_SENT) { s->st = T_DEAD; return; }
  if (s->st != T_EST) return;
  tcp_shutdown_w(s);
}
void actor_rst(Sock* s) {
  if (s->st == T_SYN_SENT) { s->st = T_DEAD; return; }
  if (s->st != T_EST) return;
  send_rst(s);
}
void actor_vanish(Sock* s) {
  s->link_dead = true;
  Sock* p = s->peer;
  s->st = T_DEAD;
  if (p && p->st == T_EST) {
    p->link_dead = true;
    dead_timer(p);
  }
}
void actor_pause(Sock* s, bool p) {
  s->paused = p;
  if (!p) { actor_consume(s); if (s->peer) pump(s->peer); }
}
bool udp_inject(IP dst, uint16_t port, IP src, uint16_t sport, const std::string& data, uint64_t tag) {
  Sock* t = nullptr;
  for (size_t i = sut_udp.size(); i-- > 0;) {
    Sock* u = sut_udp[i];
    if (u->lport != port) continue;
    if (u->lip == dst) { t = u; break; }
    if (u->lip == 0 && !t) t = u;
  }
  if (!t) return false;
  Dgram d{src, sport, data, tag};
  if (t->dq_bytes + data.size() + 300 > net.udp_rcvbuf) {
    if (net.udp_in) net.udp_in(t, d, true);
    return true;
  }
  t->dq_bytes += data.size() + 300;
  t->dq.push_back(d);
  if (net.udp_in) net.udp_in(t, d, false);
  wake_all(t->rq);
  return true;
}
static bool aintr(int w) {
  if (w != W_INTR) return false;
  if (sig_restart) return false;
  errno = EINTR;
  return true;
}
static Time dl(Time to) { return to > 0 ? now() + to : NEVER; }
static bool rd_ready(Sock* s) {
  if (!s->tcp) return !s->dq.empty() || s->rshut || s->err;
  if (s->st == T_LISTEN) return !s->aq.empty();
  if (s->st == T_SYN_SENT) return false;
  return !s->rcv.empty() || s->fin_in || s->rshut || s->err || s->st == T_DEAD || s->st == T_CLOSED;
}
static bool wr_ready(Sock* s) {
  if (!s->tcp) return true;
  if (s->st == T_SYN_SENT) return false;
  if (s->st == T_LISTEN) return false;
  return s->st != T_EST || s->wshut || s->err || s->snd.size() < s->sndbuf;
}
// the simulation only knows 32-bit addresses; an IPv6 socket shows each of them as an address ending in them
void v6_of(IP ip, struct in6_addr* o) {
  memset(o, 0, sizeof *o);
  unsigned char* b = o->s6_addr;
  if (ip == 0) return;
  if (ip == mkip(127, 0, 0, 1)) { b[15] = 1; return; }
  uint64_t h = hash64(ip, 6);
  if (h % 3 == 0) b[10] = b[11] = 0xff;
  else {
    b[0] = 0x20; b[1] = 0x01; b[2] = 0x0d; b[3] = 0xb8;
    if (h % 3 == 1) for (int i = 4; i < 12; i++) b[i] = (unsigned char)(hash64(h, i) | 0x10);
  }
  b[12] = (unsigned char)(ip >> 24); b[13] = (unsigned char)(ip >> 16); b[14] = (unsigned char)(ip >> 8); b[15] = (unsigned char)ip;
}
std::string v6str(IP ip) {
  struct in6_addr a;
  v6_of(ip, &a);
  char b[64];
  inet_ntop(AF_INET6, &a, b, sizeof b);
  return b;
}
static IP v6_to(const struct in6_addr* a) {
  const unsigned char* b = a->s6_addr;
  IP ip = (IP)b[12] << 24 | (IP)b[13] << 16 | (IP)b[14] << 8 | b[15];
  return ip == 1 ? mkip(127, 0, 0, 1) : ip;
}
static void fill_addr(struct sockaddr* a, socklen_t* l, IP ip, uint16_t port, bool v6 = false) {
  if (!a || !l) return;
  if (v6) {
    struct sockaddr_in6 in;
    memset(&in, 0, sizeof in);
    in.sin6_family = AF_INET6;
    in.sin6_port = htons(port);
    v6_of(ip, &in.sin6_addr);
    check_range(l, sizeof *l, true, "socklen");
    size_t n = std::min<size_t>(*l, sizeof in);
    check_range(a, n, true, "sockaddr");
    memcpy(a, &in, n);
    *l = sizeof in;
    return;
  }
  struct sockaddr_in in;
  memset(&in, 0, sizeof in);
  in.sin_family = AF_INET;
  in.sin_port = htons(port);
  in.sin_addr.s_addr = htonl(ip);
  check_range(l, sizeof *l, true, "socklen");
  size_t n = std::min<size_t>(*l, sizeof in);
  check_range(a, n, true, "sockaddr");
  memcpy(a, &in, n);
  *l = sizeof in;
}
// an established connection fails with an error
static void lose(Sock* s, int e) {
  Sock* p = s->peer;
  s->faulted = true;
  conn_error(s, e);
  s->rcv.clear();
  if (p && p->st != T_DEAD) {
    if (p->actor) { p->st = T_DEAD; if (p->on_end) post(0, [p] { p->on_end(p, 1); }); }
    else conn_error(p, ECONNRESET);
  }
}
static ssize_t do_recv(int fd, Sock* s, char* buf, size_t len, int flags, struct sockaddr* addr, socklen_t* alen, const char* what) {
  if (flags & MSG_OOB) { errno = s->tcp ? EINVAL : EOPNOTSUPP; return -1; }
  bool nb = s->nonblock || (flags & MSG_DONTWAIT);
  Time deadline = dl(s->rcvtimeo);
  if (!s->tcp) {
    if (fault(K_UDPRECVERR)) { s->faulted = true; errno = ENOMEM; return -1; }
    while (s->dq.empty()) {
      if (s->err) { errno = s->err; s->err = 0; return -1; }
      if (s->rshut) { if (alen) *alen = 0; return 0; }
      if (nb) { errno = EAGAIN; return -1; }
      InUse u(fd, s);
      int w = wait_on(s->rq, deadline, "recv (udp)", true);
      if (w == W_TIMEOUT) { errno = EAGAIN; return -1; }
      if (aintr(w)) return -1;
    }
    Dgram d = s->dq.front();
    s->dq.pop_front();
    s->dq_bytes -= d.data.size() + 300;
    size_t n = std::min(len, d.data.size());
    check_range(buf, n, true, what);
    memcpy(buf, d.data.data(), n);
    fill_addr(addr, alen, d.src, d.sport);
    return (ssize_t)((flags & MSG_TRUNC) ? d.data.size() : n);
  }
  if (s->st == T_CLOSED || s->st == T_LISTEN) { errno = ENOTCONN; return -1; }
  if (len == 0) return 0;
  if (s->st == T_EST && fault(K_RECVERR)) {
    static const int es[] = {ECONNRESET, ETIMEDOUT, EHOSTUNREACH};
    int e = es[pick(K_RANDV, 3)];
    lose(s, e);
  }
  size_t got = 0;
  for (;;) {
    if (!s->rcv.empty()) {
      size_t n = std::min(len - got, s->rcv.size());
      if (n > 1 && !(flags & MSG_WAITALL)) {
        uint64_t f = fault_val(K_SHORTRECV, n - 1);
        if (f) n = f;
      }
      check_range(buf + got, n, true, what);
      memcpy(buf + got, s->rcv.data(), n);
      if (!(flags & MSG_PEEK)) s->rcv.erase(0, n);
      got += n;
      if (s->peer && !(flags & MSG_PEEK)) pump(s->peer);
      if (!(flags & MSG_WAITALL) || got == len || (flags & MSG_PEEK)) { if (alen && addr) *alen = 0; return (ssize_t)got; }
      continue;
    }
    if (got && (s->err || s->fin_in || s->rshut || s->st == T_DEAD)) return (ssize_t)got;
    if (s->err) { errno = s->err; s->err = 0; return -1; }
    if (s->fin_in || s->rshut || s->st == T_DEAD) { if (alen && addr) *alen = 0; return 0; }
    if (nb) { if (got) return (ssize_t)got; errno = EAGAIN; return -1; }
    InUse u(fd, s);
    int w = wait_on(s->rq, deadline, "recv (tcp)", true);
    if (w == W_TIMEOUT) { if (got) return (ssize_t)got; errno = EAGAIN; return -1; }
    if (w == W_INTR && got) return (ssize_t)got;
    if (aintr(w)) return -1;
  }
}
static ssize_t tcp_send(int fd, Sock* s, const char* buf, size_t len, int flags, const char* what) {
  bool nb = s->nonblock || (flags & MSG_DONTWAIT);
  Time deadline = dl(s->sndtimeo);
  check_range(buf, len, false, what);
  size_t done = 0, want = len;
  if (s->st == T_EST && !s->wshut && len > 0) {
    if (fault(K_SENDERR)) {
      s->faulted = true;
      static const int es[] = {ENOBUFS, ENOMEM, ETIMEDOUT, EHOSTUNREACH, ECONNRESET, EPIPE};
      int e = es[pick(K_RANDV, 6)];
      if (e == ENOBUFS || e == ENOMEM) { errno = e; return -1; }
      lose(s, e);                              // the connection has failed
    }
    if (len > 1) { uint64_t f = fault_val(K_SHORTSEND, len - 1); if (f) want = f; }
  }
  for (;;) {
    if (s->err) { if (done) return (ssize_t)done; errno = s->err; s->err = 0; return -1; }
    if (s->st == T_CLOSED || s->st == T_LISTEN || s->st == T_SYN_SENT) { errno = s->st == T_SYN_SENT ? EAGAIN : EPIPE; return -1; }
    if (s->st == T_DEAD || s->wshut) { if (done) return (ssize_t)done; errno = EPIPE; return -1; }
    if (len == 0) return 0;
    size_t room = s->sndbuf > s->snd.size() ? s->sndbuf - s->snd.size() : 0;
    if (room) {
      size_t n = std::min(room, want - done);
      s->snd.append(buf + done, n);
      s->tx_total += n;
      if (net.tcp_write) net.tcp_write(s, buf + done, n);
      done += n;
      if (s->link_dead) dead_timer(s);
      else pump(s);
      if (done == want) return (ssize_t)done;
      continue;
    }
    if (nb) { if (done) return (ssize_t)done; errno = EAGAIN; return -1; }
    InUse u(fd, s);
    int w = wait_on(s->wq, deadline, "send (tcp)", true);
    if (w == W_TIMEOUT) { if (done) return (ssize_t)done; errno = EAGAIN; return -1; }
    if (w == W_INTR && done) return (ssize_t)done;
    if (aintr(w)) return -1;
    check_range(buf, len, false, what);
  }
}
static ssize_t udp_send(Sock* s, const char* buf, size_t len, const struct sockaddr* a, socklen_t al, const char* what) {
  check_range(buf, len, false, what);
  if (!a) {
    if (!s->rport) { errno = EDESTADDRREQ; return -1; }
  } else check_range(a, sizeof(struct sockaddr_in), false, what);
  IP dst = a ? ntohl(((const sockaddr_in*)a)->sin_addr.s_addr) : s->rip;
  uint16_t port = a ? ntohs(((const sockaddr_in*)a)->sin_port) : s->rport;
  if (a && (al < sizeof(struct sockaddr_in) || a->sa_family != AF_INET)) { errno = EINVAL; return -1; }
  if (s->wshut) { errno = EPIPE; return -1; }
  if (len > 65507) { errno = EMSGSIZE; return -1; }
  if (port == 0) { errno = EINVAL; return -1; }
  uint64_t f = fault_val(K_SENDTO, 5);
  if (f) { static const int es[] = {EPERM, ENOBUFS, EHOSTUNREACH, ENETUNREACH, ECONNREFUSED}; if (net.udp_out_fail) net.udp_out_fail(s, dst, port, std::string(buf, len)); errno = es[f - 1]; return -1; }
  if (!s->bound) { s->bound = true; s->lport = ephemeral++; }
  if (net.udp_out) net.udp_out(s, dst, port, std::string(buf, len));
  return (ssize_t)len;
}
static int do_shutdown(Sock* s, int how) {
  bool r = how == SHUT_RD || how == SHUT_RDWR, w = how == SHUT_WR || how == SHUT_RDWR;
  if (how < 0 || how > 2) { errno = EINVAL; return -1; }
  if (!s->tcp) {
    if (r) s->rshut = true;
    if (w) s->wshut = true;
    wakeup(s);
    if (!s->rport) { errno = ENOTCONN; return -1; }
    return 0;
  }
  switch (s->st) {
    case T_LISTEN:
      if (!r) return 0;
      listeners.erase(std::remove(listeners.begin(), listeners.end(), s), listeners.end());
      for (auto c : s->aq) { c->closed = true; send_rst(c); live_socks--; }
      s->aq.clear();
      s->st = T_CLOSED;
      wakeup(s);
      return 0;
    case T_SYN_SENT:
      if (!r) return 0;
      s->st = T_CLOSED;
      s->err = ECONNRESET;
      wakeup(s);
      return 0;
    case T_EST:
      if (r) s->rshut = true;
      if (w) tcp_shutdown_w(s);
      wakeup(s);
      return 0;
    default:
      errno = ENOTCONN;
      return -1;
  }
}
}  // namespace sim
using namespace sim;

extern "C" {
int sim_socket(int dom, int type, int) {
  point("socket");
  if (dom != AF_INET && !(dom == AF_INET6 && (type & 0xf) == SOCK_STREAM)) { errno = EAFNOSUPPORT; return -1; }
  uint64_t f = fault_val(K_SOCKET, 4);
  if (f) { static const int es[] = {EMFILE, ENFILE, ENOBUFS, ENOMEM}; errno = es[f - 1]; return -1; }
  int t = type & 0xf;
  Sock* s = new_sock(t == SOCK_STREAM, false);
  s->nonblock = (type & SOCK_NONBLOCK) != 0;
  s->v6 = dom == AF_INET6;
  int fd = fd_install(s);
  if (fd < 0) { live_socks--; return -1; }
  s->fd = fd;
  stats->sockets++;
  return fd;
}
int sim_bind(int fd, const struct sockaddr* a, socklen_t al) {
  point("bind");
  Sock* s = sk(fd, "bind");
  if (!s) return -1;
  socklen_t need = s->v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in);
  check_range(a, al < need ? al : need, false, "bind");
  if (al < need || a->sa_family != (s->v6 ? AF_INET6 : AF_INET)) { errno = EINVAL; return -1; }
  IP ip = s->v6 ? v6_to(&((const sockaddr_in6*)a)->sin6_addr) : ntohl(((const sockaddr_in*)a)->sin_addr.s_addr);
  uint16_t port = ntohs(((const sockaddr_in*)a)->sin_port);
  if (s->bound) { errno = EINVAL; return -1; }
  if (fault(K_BIND)) { errno = EADDRINUSE; return -1; }
  if (ip != 0 && !(net.is_local && net.is_local(ip))) { errno = EADDRNOTAVAIL; return -1; }
  if (port && s->tcp) {
    for (auto l : listeners)
      if (l->lport == port && (l->lip == ip || !l->lip || !ip)) { errno = EADDRINUSE; return -1; }
    for (auto c : accepted_socks)
      if (c->lport == port && (c->lip == ip || !ip) && !(c->reuse && s->reuse)) { errno = EADDRINUSE; return -1; }
    for (auto& t : timewait)
      if (t.until > now() && t.port == port && (t.ip == ip || !ip) && !(t.reuse && s->reuse)) { errno = EADDRINUSE; return -1; }
  }
  if (port && !s->tcp) {
    for (auto u : sut_udp)
      if (u->lport == port && (u->lip == ip || !u->lip || !ip) && !(u->reuse && s->reuse)) { errno = EADDRINUSE; return -1; }
  }
  s->lip = ip;
  if (!port) { port = ephemeral++; if (ephemeral < 32768) ephemeral = 32768; }
  s->lport = port;
  s->bound = true;
  if (!s->tcp) sut_udp.push_back(s);
  if (net.bound) net.bound(s);
  return 0;
}
int sim_listen(int fd, int backlog) {
  point("listen");
  Sock* s = sk(fd, "listen");
  if (!s) return -1;
  if (!s->tcp) { errno = EOPNOTSUPP; return -1; }
  if (fault(K_LISTEN)) { errno = EADDRINUSE; return -1; }
  if (s->st != T_CLOSED && s->st != T_LISTEN) { errno = EINVAL; return -1; }
  s->backlog = backlog;
  if (s->st == T_CLOSED) {
    if (!s->lport) { s->lport = ephemeral++; s->bound = true; }
    for (auto l : listeners)
      if (l->lport == s->lport && (l->lip == s->lip || !l->lip || !s->lip)) { errno = EADDRINUSE; return -1; }
    s->st = T_LISTEN;
    listeners.push_back(s);
  }
  return 0;
}
int sim_accept4(int fd, struct sockaddr* a, socklen_t* al, int flags) {
  point("accept");
  Sock* s = sk(fd, "accept");
  if (!s) return -1;
  if (!s->tcp) { errno = EOPNOTSUPP; return -1; }
  if (s->st == T_LISTEN) {
    uint64_t f = fault_val(K_ACCEPT, 6);
    if (f) {
      static const int es[] = {ECONNABORTED, EMFILE, ENFILE, ENOBUFS, ENOMEM, EPROTO};
      errno = es[f - 1];
      return -1;
    }
  }
  Time deadline = dl(s->rcvtimeo);
  if (s->st == T_LISTEN && fd_full()) return -1;   // Linux reserves the descriptor first
  for (;;) {
    if (s->st != T_LISTEN) { errno = EINVAL; return -1; }
    if (!s->aq.empty()) { if (fd_full()) return -1; break; }
    if (s->nonblock) { errno = EAGAIN; return -1; }
    InUse u(fd, s);
    int w = wait_on(s->rq, deadline, "accept", true);
    if (w == W_TIMEOUT) { errno = EAGAIN; return -1; }
    if (aintr(w)) return -1;
  }
  Sock* c = s->aq.front();
  s->aq.pop_front();
  int nfd = fd_install(c);
  if (nfd < 0) { c->closed = true; send_rst(c); live_socks--; return -1; }
  c->fd = nfd;
  c->nonblock = (flags & SOCK_NONBLOCK) != 0;
  stats->sockets++;
  c->reuse = s->reuse;
  c->v6 = s->v6;
  accepted_socks.push_back(c);
  fill_addr(a, al, c->rip, c->rport, s->v6);
  if (net.accepted) net.accepted(c);
  point("accepted");
  if (net.accept_ret && c->fd == nfd) net.accept_ret(c);
  return nfd;
}
int sim_accept(int fd, struct sockaddr* a, socklen_t* al) { return sim_accept4(fd, a, al, 0); }
int sim_connect(int fd, const struct sockaddr* a, socklen_t al) {
  point("connect");
  Sock* s = sk(fd, "connect");
  if (!s) return -1;
  check_range(a, al < sizeof(sockaddr_in) ? al : sizeof(sockaddr_in), false, "connect");
  if (a->sa_family != AF_INET) { errno = EAFNOSUPPORT; return -1; }
  IP ip = ntohl(((const sockaddr_in*)a)->sin_addr.s_addr);
  uint16_t port = ntohs(((const sockaddr_in*)a)->sin_port);
  if (!s->tcp) { s->rip = ip; s->rport = port; return 0; }
  if (s->st == T_EST) { errno = EISCONN; return -1; }
  if (s->st == T_SYN_SENT) { errno = EALREADY; return -1; }
  if (s->st != T_CLOSED) { errno = EINVAL; return -1; }
  if (!s->lport) { s->lport = ephemeral++; s->bound = true; }
  if (!s->lip) s->lip = net.default_ip;
  if (net.connecting) net.connecting(s, ip, port);
  uint64_t f = fault_val(K_CONNECT, 4);
  if (f) { static const int es[] = {ENETUNREACH, EADDRNOTAVAIL, EHOSTUNREACH, ENOMEM}; errno = es[f - 1]; return -1; }
  s->rip = ip; s->rport = port;
  s->st = T_SYN_SENT;
  s->err = 0;
  if (net.is_local && net.is_local(ip)) {
    post(net_delay(), [s, ip, port] { syn_arrive(s, ip, port, 0, nullptr, nullptr); });
  } else {
    Route r = net.route ? net.route(s, ip, port) : Route{1, 0, nullptr};
    switch (r.mode) {
      case 0:
        post(net_delay() + r.delay, [s, r] {
          if (s->st != T_SYN_SENT || s->closed) return;
          Sock* c = new_sock(true, true);
          c->lip = s->rip; c->lport = s->rport;
          c->rip = s->lip; c->rport = s->lport;
          c->peer = s;
          s->peer = c;
          c->st = T_EST;
          // the remote is established; our side a moment later
          Time d = net_delay();
          if (r.up) r.up(c);
          post(d, [s, c] {
            if (s->st == T_EST) return;
            if (s->st != T_SYN_SENT) { if (c->st == T_EST) { c->st = T_DEAD; if (c->on_end) c->on_end(c, 1); } return; }
            establish(s);
            pump(c);
          });
        });
        break;
      case 1: post(net_delay() + r.delay, [s] { if (s->st == T_SYN_SENT) conn_error(s, ECONNRESET); }); break;
      case 2: post(127 * SEC, [s] { if (s->st == T_SYN_SENT) conn_error(s, ETIMEDOUT); }); break;
      default: post(3 * SEC, [s] { if (s->st == T_SYN_SENT) conn_error(s, EHOSTUNREACH); }); break;
    }
  }
  if (s->nonblock) { errno = EINPROGRESS; return -1; }
  Time deadline = dl(s->sndtimeo);
  while (s->st == T_SYN_SENT) {
    InUse u(fd, s);
    int w = wait_on(s->wq, deadline, "connect", true);
    if (w == W_TIMEOUT) { errno = EINPROGRESS; return -1; }
    if (aintr(w)) return -1;
  }
  if (s->st != T_EST) {
    errno = s->err ? s->err : ECONNABORTED;
    s->err = 0;
    if (s->st == T_DEAD) s->st = T_CLOSED;
    return -1;
  }
  if (net.connected) net.connected(s);
  point("connected");
  return 0;
}
ssize_t sim_recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* al) {
  point("recv");
  Sock* s = sk(fd, "recv");
  if (!s) return -1;
  ssize_t r = do_recv(fd, s, (char*)b, n, fl, a, al, "recv");
  if (r >= 0) point("received");
  return r;
}
ssize_t sim_recv(int fd, void* b, size_t n, int fl) { return sim_recvfrom(fd, b, n, fl, nullptr, nullptr); }
ssize_t sim_sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t al) {
  point("send");
  Sock* s = sk(fd, "send");
  if (!s) return -1;
  if (!s->tcp) return udp_send(s, (const char*)b, n, a, al, "sendto");
  ssize_t r = tcp_send(fd, s, (const char*)b, n, fl, "send");
  if (r < 0 && errno == EPIPE && !(fl & MSG_NOSIGNAL) && !sig_ignored(SIGPIPE)) violate("*:sigpipe", "a send without MSG_NOSIGNAL raised SIGPIPE");
  if (r > 0) point("sent");
  return r;
}
ssize_t sim_send(int fd, const void* b, size_t n, int fl) { return sim_sendto(fd, b, n, fl, nullptr, 0); }
ssize_t sim_sendmsg(int fd, const struct msghdr* m, int fl) {
  std::string d;
  for (size_t i = 0; i < m->msg_iovlen; i++) {
    check_range(m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, false, "sendmsg");
    d.append((char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
  }
  std::string* keep = new std::string(d);
  char* tmp = (char*)heap_alloc(d.size() + 1, false);
  memcpy(tmp, d.data(), d.size());
  ssize_t r = sim_sendto(fd, tmp, d.size(), fl, (const sockaddr*)m->msg_name, m->msg_namelen);
  int e = errno;
  heap_free(tmp, "sendmsg");
  errno = e;
  delete keep;
  return r;
}
ssize_t sim_recvmsg(int fd, struct msghdr* m, int fl) {
  size_t tot = 0;
  for (size_t i = 0; i < m->msg_iovlen; i++) tot += m->msg_iov[i].iov_len;
  char* tmp = (char*)heap_alloc(tot + 1, false);
  socklen_t al = m->msg_namelen;
  ssize_t r = sim_recvfrom(fd, tmp, tot, fl, (sockaddr*)m->msg_name, m->msg_name ? &al : nullptr);
  int e = errno;
  m->msg_namelen = al;
  if (r > 0) {
    size_t off = 0;
    for (size_t i = 0; i < m->msg_iovlen && off < (size_t)r; i++) {
      size_t n = std::min(m->msg_iov[i].iov_len, (size_t)r - off);
      check_range(m->msg_iov[i].iov_base, n, true, "recvmsg");
      memcpy(m->msg_iov[i].iov_base, tmp + off, n);
      off += n;
    }
  }
  heap_free(tmp, "recvmsg");
  errno = e;
  return r;
}
int sim_shutdown(int fd, int how) {
  point("shutdown");
  Sock* s = sk(fd, "shutdown");
  if (!s) return -1;
  int r = do_shutdown(s, how);
  point("shut");
  return r;
}
int sim_close(int fd) {
  point("close");
  int r = fd_close(fd);
  point("closed");
  return r;
}
int sim_setsockopt(int fd, int lvl, int opt, const void* v, socklen_t l) {
  point("setsockopt");
  Sock* s = sk(fd, "setsockopt");
  if (!s) return -1;
  check_range(v, l, false, "setsockopt");
  if (fault(K_SOCKOPT)) { errno = ENOMEM; return -1; }
  int iv = l >= 4 ? *(const int*)v : 0;
  if (lvl == SOL_SOCKET) {
    switch (opt) {
      case SO_REUSEADDR: s->reuse = iv != 0; return 0;
      case SO_KEEPALIVE: s->keepalive = iv != 0; if (s->link_dead) dead_timer(s); return 0;
      case SO_RCVTIMEO:
      case SO_SNDTIMEO: {
        if (l < sizeof(struct timeval)) { errno = EINVAL; return -1; }
        const struct timeval* tv = (const struct timeval*)v;
        Time t = (Time)tv->tv_sec * SEC + tv->tv_usec;
        if (opt == SO_RCVTIMEO) s->rcvtimeo = t; else s->sndtimeo = t;
        return 0;
      }
      case SO_SNDBUF: s->sndbuf = iv > 2048 ? iv : 2048; return 0;
      case SO_RCVBUF: s->rcvbuf = iv > 2048 ? iv : 2048; return 0;
      default: return 0;
    }
  }
  if (lvl == IPPROTO_TCP && s->tcp) {
    switch (opt) {
      case TCP_KEEPIDLE: if (iv < 1 || iv > 32767) { errno = EINVAL; return -1; } s->kidle = iv; break;
      case TCP_KEEPINTVL: if (iv < 1 || iv > 32767) { errno = EINVAL; return -1; } s->kintvl = iv; break;
      case TCP_KEEPCNT: if (iv < 1 || iv > 127) { errno = EINVAL; return -1; } s->kcnt = iv; break;
      default: break;
    }
    if (s->link_dead) dead_timer(s);
    return 0;
  }
  return 0;
}
int sim_getsockopt(int fd, int lvl, int opt, void* v, socklen_t* l) {
  Sock* s = sk(fd, "getsockopt");
  if (!s) return -1;
  if (lvl == SOL_SOCKET && opt == SO_ERROR) { *(int*)v = s->err; s->err = 0; *l = 4; return 0; }
  if (lvl == SOL_SOCKET && opt == SO_TYPE) { *(int*)v = s->tcp ? SOCK_STREAM : SOCK_DGRAM; *l = 4; return 0; }
  memset(v, 0, *l);
  return 0;
}
int sim_getsockname(int fd, struct sockaddr* a, socklen_t* l) { Sock* s = sk(fd, "getsockname"); if (!s) return -1; fill_addr(a, l, s->lip, s->lport, s->v6); return 0; }
int sim_getpeername(int fd, struct sockaddr* a, socklen_t* l) {
  Sock* s = sk(fd, "getpeername");
  if (!s) return -1;
  if (s->st != T_EST && s->tcp) { errno = ENOTCONN; return -1; }
  fill_addr(a, l, s->rip, s->rport, s->v6);
  return 0;
}
extern ssize_t sim_fd_write(int fd, Obj* o, const void* b, size_t n);
ssize_t sim_write(int fd, const void* b, size_t n) {
  point("write");
  Obj* o = fd_get(fd, "write");
  if (!o) return -1;
  check_range(b, n, false, "write");
  return sim_fd_write(fd, o, b, n);
}
ssize_t sim_read(int fd, void* b, size_t n) {
  Obj* o = fd_get(fd, "read");
  if (!o) return -1;
  if (o->kind == 1) return sim_recvfrom(fd, b, n, 0, nullptr, nullptr);
  return 0;
}
ssize_t sim_writev(int fd, const struct iovec* v, int n) {
  struct msghdr m;
  memset(&m, 0, sizeof m);
  m.msg_iov = (struct iovec*)v;
  m.msg_iovlen = (size_t)n;
  Obj* o = fd_get(fd, "writev");
  if (!o) return -1;
  if (o->kind == 1) return sim_sendmsg(fd, &m, 0);
  ssize_t t = 0;
  for (int i = 0; i < n; i++) { ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; }
  return t;
}
ssize_t sim_readv(int fd, const struct iovec* v, int n) {
  struct msghdr m;
  memset(&m, 0, sizeof m);
  m.msg_iov = (struct iovec*)v;
  m.msg_iovlen = (size_t)n;
  return sim_recvmsg(fd, &m, 0);
}
int sim_fcntl(int fd, int cmd, long arg) {
  Obj* o = fd_get(fd, "fcntl");
  if (!o) return -1;
  if (cmd == F_GETFL) return (o->kind == 1 && ((Sock*)o)->nonblock ? O_NONBLOCK : 0) | O_RDWR;
  if (cmd == F_SETFL) { if (o->kind == 1) ((Sock*)o)->nonblock = (arg & O_NONBLOCK) != 0; return 0; }
  if (cmd == F_GETFD || cmd == F_SETFD) return 0;
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return fd_install(o);
  errno = EINVAL;
  return -1;
}
int sim_ioctl(int fd, unsigned long req, void* arg) {
  Obj* o = fd_get(fd, "ioctl");
  if (!o) return -1;
  if (req == FIONBIO && o->kind == 1) { ((Sock*)o)->nonblock = *(int*)arg != 0; return 0; }
  if (req == FIONREAD && o->kind == 1) { Sock* s = (Sock*)o; *(int*)arg = (int)(s->tcp ? s->rcv.size() : s->dq.empty() ? 0 : s->dq.front().data.size()); return 0; }
  errno = EINVAL;
  return -1;
}
int sim_dup(int fd) { Obj* o = fd_get(fd, "dup"); return o ? fd_install(o) : -1; }
int sim_dup2(int a, int b) {
  point("dup2");
  Obj* o = fd_get(a, "dup2");
  if (!o) return -1;
  if (b < 0 || b >= net.fd_limit) { errno = EBADF; return -1; }
  if (a == b) return b;
  if ((int)fds.size() <= b) { fds.resize(b + 1); ever.resize(b + 1); }
  if (fds[b].o) fd_close(b);
  fds[b].o = o;
  fds[b].inflight = 0;
  ever[b] = 1;
  o->refs++;
  return b;
}
int sim_poll(struct pollfd* p, nfds_t n, int timeout) {
  point("poll");
  check_range(p, n * sizeof *p, true, "poll");
  if (fault(K_SYS)) { errno = ENOMEM; return -1; }
  Time deadline = timeout < 0 ? NEVER : now() + (Time)timeout * MS;
  for (;;) {
    int r = 0;
    for (nfds_t i = 0; i < n; i++) {
      p[i].revents = 0;
      if (p[i].fd < 0) continue;
      Obj* o = p[i].fd < (int)fds.size() ? fds[p[i].fd].o : nullptr;
      if (!o) p[i].revents = POLLNVAL;
      else if (o->kind == 1) {
        Sock* s = (Sock*)o;
        if ((p[i].events & POLLIN) && rd_ready(s)) p[i].revents |= POLLIN;
        if ((p[i].events & POLLOUT) && wr_ready(s)) p[i].revents |= POLLOUT;
        if (s->err) p[i].revents |= POLLERR;
        if (s->tcp && (s->st == T_DEAD || (s->fin_in && s->wshut))) p[i].revents |= POLLHUP;
        if (s->tcp && s->st == T_CLOSED) p[i].revents |= POLLHUP;
        if (s->rshut && s->wshut) p[i].revents |= POLLHUP;
      } else p[i].revents = p[i].events & (POLLIN | POLLOUT);
      if (p[i].revents) r++;
    }
    if (r) return r;
    if (timeout == 0 || now() >= deadline) return 0;
    // poll re-evaluates at most every millisecond of simulated time
    sleep_until(std::min(deadline, now() + 1 * MS), "poll", true);
    if (cur->wreason == W_INTR && !sig_restart) { errno = EINTR; return -1; }
  }
}
int sim_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
  std::vector<struct pollfd> v;
  struct pollfd* p = (struct pollfd*)heap_alloc(sizeof(struct pollfd) * (n + 1), true);
  int c = 0;
  for (int i = 0; i < n; i++) {
    short ev = 0;
    if (r && FD_ISSET(i, r)) ev |= POLLIN;
    if (w && FD_ISSET(i, w)) ev |= POLLOUT;
    if (e && FD_ISSET(i, e)) ev |= POLLPRI;
    if (ev) { p[c].fd = i; p[c].events = ev; c++; }
  }
  int ret = sim_poll(p, c, tv ? (int)(tv->tv_sec * 1000 + tv->tv_usec / 1000) : -1);
  if (ret >= 0) {
    if (r) FD_ZERO(r);
    if (w) FD_ZERO(w);
    if (e) FD_ZERO(e);
    ret = 0;
    for (int i = 0; i < c; i++) {
      if (r && (p[i].events & POLLIN) && (p[i].revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(p[i].fd, r); ret++; }
      if (w && (p[i].events & POLLOUT) && (p[i].revents & (POLLOUT | POLLERR))) { FD_SET(p[i].fd, w); ret++; }
    }
  }
  heap_free(p, "select");
  return ret;
}
// ---- names ------------------------------------------------------------------------------------------------------
int sim_getaddrinfo(const char* node, const char* service, const struct addrinfo* hints, struct addrinfo** res) {
  point("getaddrinfo");
  if (node) checked_strlen(node, "getaddrinfo");
  if (service) checked_strlen(service, "getaddrinfo");
  check_range(res, sizeof *res, true, "getaddrinfo");
  struct addrinfo h;
  memset(&h, 0, sizeof h);
  if (hints) {
    check_range(hints, sizeof *hints, false, "getaddrinfo");
    h = *hints;
    const int known = AI_PASSIVE | AI_CANONNAME | AI_NUMERICHOST | AI_V4MAPPED | AI_ALL | AI_ADDRCONFIG | AI_NUMERICSERV | 0x0fc0;
    if (h.ai_flags & ~known) return EAI_BADFLAGS;
    if ((h.ai_flags & AI_CANONNAME) && !node) return EAI_BADFLAGS;
    if (h.ai_family != AF_UNSPEC && h.ai_family != AF_INET && h.ai_family != AF_INET6) return EAI_FAMILY;
    bool okp = h.ai_protocol == 0 || (h.ai_socktype == SOCK_STREAM && h.ai_protocol == IPPROTO_TCP) || (h.ai_socktype == SOCK_DGRAM && h.ai_protocol == IPPROTO_UDP) || h.ai_socktype == 0 || h.ai_socktype == SOCK_RAW;
    if ((h.ai_socktype && h.ai_socktype != SOCK_STREAM && h.ai_socktype != SOCK_DGRAM && h.ai_socktype != SOCK_RAW) || !okp) return EAI_SOCKTYPE;
  }
  uint64_t f = fault_val(K_GAI, 4);
  if (f) { static const int es[] = {EAI_MEMORY, EAI_AGAIN, EAI_SYSTEM, EAI_FAIL}; errno = ENOMEM; return es[f - 1]; }
  if (!node && !service) return EAI_NONAME;
  long port = 0;
  if (service) {
    char* end;
    port = strtol(service, &end, 10);
    if (!*service || *end || port < 0 || port > 65535) return EAI_SERVICE;
  }
  IP ip = 0;
  bool v6 = h.ai_family == AF_INET6, dual = false;
  if (!node) ip = (h.ai_flags & AI_PASSIVE) ? 0 : mkip(127, 0, 0, 1);
  else {
    struct in_addr ia;
    if (inet_aton(node, &ia) && strspn(node, "0123456789.") == strlen(node)) { if (v6) return EAI_ADDRFAMILY; ip = ntohl(ia.s_addr); }
    else {
      struct in6_addr i6;
      if (strchr(node, ':')) {
        if (h.ai_family == AF_INET) return EAI_ADDRFAMILY;
        if (inet_pton(AF_INET6, node, &i6) != 1) return EAI_NONAME;
        v6 = true;
        ip = v6_to(&i6);
        struct in6_addr back;
        v6_of(ip, &back);
        if (memcmp(&back, &i6, sizeof i6)) ip = mkip(240, 0, 0, 6);   // an address of nobody
      } else if (h.ai_flags & AI_NUMERICHOST) return EAI_NONAME;
      else {
        if (!net.dns) return EAI_NONAME;
        dual = net.dual && net.dual(node) && h.ai_family != AF_INET;
        if (v6 && !dual) return EAI_NONAME;
        Time d = 0;
        int r = net.dns(node, &ip, &d);
        if (d > 0 && cur) sleep_until(now() + d, "name lookup");
        if (r) return r;
      }
    }
  }
  // one heap block, so that leaks are seen
  struct Both { struct addrinfo ai; struct sockaddr_in6 sa6; };
  Both* b = (Both*)heap_alloc(sizeof(Both), true);
  b->ai.ai_flags = h.ai_flags;
  b->ai.ai_family = v6 ? AF_INET6 : AF_INET;
  b->ai.ai_socktype = h.ai_socktype ? h.ai_socktype : SOCK_STREAM;
  b->ai.ai_protocol = h.ai_protocol ? h.ai_protocol : b->ai.ai_socktype == SOCK_STREAM ? IPPROTO_TCP : IPPROTO_UDP;
  b->ai.ai_addr = (struct sockaddr*)&b->sa6;
  if (v6) {
    b->ai.ai_addrlen = sizeof(struct sockaddr_in6);
    b->sa6.sin6_family = AF_INET6;
    b->sa6.sin6_port = htons((uint16_t)port);
    v6_of(ip, &b->sa6.sin6_addr);
  } else {
    struct sockaddr_in* sa = (struct sockaddr_in*)&b->sa6;
    b->ai.ai_addrlen = sizeof(struct sockaddr_in);
    sa->sin_family = AF_INET;
    sa->sin_port = htons((uint16_t)port);
    sa->sin_addr.s_addr = htonl(ip);
  }
  *res = &b->ai;
  if (dual) {                                          // the IPv6 address first, as most systems order them
    Both* d = (Both*)heap_alloc(sizeof(Both), true);
    *d = *b;
    d->ai.ai_addr = (struct sockaddr*)&d->sa6;
    memset(&d->sa6, 0, sizeof d->sa6);
    d->ai.ai_family = AF_INET6;
    d->ai.ai_addrlen = sizeof(struct sockaddr_in6);
    d->sa6.sin6_family = AF_INET6;
    d->sa6.sin6_port = htons((uint16_t)port);
    v6_of(ip, &d->sa6.sin6_addr);
    if (h.ai_family == AF_INET6) heap_free(b, "getaddrinfo"); else d->ai.ai_next = &b->ai;
    *res = &d->ai;
  }
  return 0;
}
void sim_freeaddrinfo(struct addrinfo* a) {
  if (!a) fatal_violation("*:memory", "freeaddrinfo(NULL)");
  while (a) {
    check_range(a, sizeof *a, false, "freeaddrinfo");
    struct addrinfo* n = a->ai_next;
    heap_free(a, "freeaddrinfo");
    a = n;
  }
}
const char* sim_gai_strerror(int) { return "name lookup error"; }
char* sim_inet_ntoa(struct in_addr a) {               // each thread has its own buffer
  static std::map<Fiber*, std::array<char, 18>> bufs;
  char* b = bufs[cur].data();
  inet_ntop(AF_INET, &a, b, 18);
  return b;
}
const char* sim_inet_ntop(int af, const void* src, char* dst, socklen_t n) {
  check_range(src, af == AF_INET ? 4 : 16, false, "inet_ntop");
  char b[64];
  const char* r = inet_ntop(af, src, b, sizeof b);
  if (!r) return r;
  if (strlen(b) + 1 > n) { errno = ENOSPC; return nullptr; }
  check_range(dst, strlen(b) + 1, true, "inet_ntop");
  strcpy(dst, b);
  return dst;
}
int sim_inet_pton(int af, const char* src, void* dst) { checked_strlen(src, "inet_pton"); check_range(dst, af == AF_INET ? 4 : 16, true, "inet_pton"); return inet_pton(af, src, dst); }
in_addr_t sim_inet_addr(const char* s) { checked_strlen(s, "inet_addr"); return inet_addr(s); }
}

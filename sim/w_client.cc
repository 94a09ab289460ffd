// World for the client side of the handshake (C25).
#include "w_util.h"
#include "md5x.h"
#include <errno.h>
extern "C" {
#include "proxy_client.h"
}
using namespace sim;

namespace cl {
enum { O_CONNECT, O_FREE };
static const Plan* P;
static int live, n_ok, n_fail, n_rounds;
// what the server does
enum { V_GOOD, V_SHORT, V_NOTHING, V_RSTEARLY, V_RSTLATE, V_SLOWREAD, V_PUSH, V_N };
struct Round {
  int who;
  Rng r;
  int route = 0, behave = 0;
  Time rdelay = 0;
  std::string nonce, want, got;
  Sock* a = nullptr;
  Sock* mine = nullptr;
  int end_kind = -1;
  bool ended = false, up = false, nonce_sent = false;
  uint16_t port = 0;
  bool name = false, nosuch = false;
};
static std::map<int, Round*> cur_round;        // by client
static std::map<uint16_t, int> port_of;
static void serve(Round* q, size_t sent) {
  if (q->a->st == T_SYN_SENT) { post(1 * MS, [q, sent] { serve(q, sent); }); return; }
  if (q->a->st != T_EST || q->ended) return;
  size_t stop_at = q->behave == V_SHORT ? (size_t)(q->nonce[0] % 8) : q->behave == V_NOTHING ? 0 : 8;
  if (q->behave == V_RSTEARLY && sent >= (size_t)(q->nonce[0] % 8)) { q->ended = true; actor_rst(q->a); return; }
  if (sent >= stop_at) {
    if (stop_at < 8) {
      Time d = q->r.chance(0.5) ? 0 : q->r.logu(1, 40 * SEC);
      bool rst = q->r.chance(0.3);
      post(d, [q, rst] { if (q->a->st == T_EST && !q->ended) { q->ended = true; if (rst) actor_rst(q->a); else actor_fin(q->a); } });
      return;
    }
    q->nonce_sent = true;
    if (q->behave == V_RSTLATE) post(q->r.chance(0.5) ? 0 : q->r.logu(1, 2 * SEC), [q] { if (q->a->st == T_EST && !q->ended) { q->ended = true; actor_rst(q->a); } });
    if (q->behave == V_PUSH) actor_send(q->a, std::string(q->r.below(40) + 1, 'Z'));
    return;
  }
  size_t n = q->r.chance(0.6) ? stop_at - sent : 1 + q->r.below(stop_at - sent);
  actor_send(q->a, q->nonce.substr(sent, n));
  Time d = sent + n >= 8 || q->r.chance(0.3) ? 0 : q->r.logu(1, 5 * SEC);
  post(d, [q, sent, n] { serve(q, sent + n); });
}
static void attach(Round* q, Sock* a) {
  q->a = a;
  q->mine = a->peer;
  q->up = true;
  a->on_data = [q](Sock*, const char* d, size_t n) {
    q->got.append(d, n);
    if (q->got.compare(0, q->got.size(), q->want, 0, q->got.size()))
      violate("C25:bytes", "the server received something else than callsign, newline and response (%zu bytes, %zu expected)", q->got.size(), q->want.size());
    else if (!q->nonce_sent && q->got.size() > 0) violate("C25:early", "the client answered before the challenge was complete");
  };
  a->on_end = [q](Sock*, int k) { if (q->end_kind < 0) q->end_kind = k; };
  if (q->behave == V_SLOWREAD) {
    actor_pause(a, true);
    post(q->r.logu(1000, 20 * SEC), [q] { if (q->a->st != T_DEAD) actor_pause(q->a, false); });
  }
  post(q->r.chance(0.5) ? 0 : q->r.logu(1, 3 * SEC), [q] { serve(q, 0); });
}
static std::string text(Rng& r, size_t n, bool call) {
  std::string s;
  static const char cs[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-*/@[`{z \xe4\xff";
  for (size_t i = 0; i < n; i++) s += cs[r.below(sizeof cs - 1)];
  (void)call;
  return s;
}
static char* hstr(const std::string& s) {
  char* b = (char*)heap_alloc(s.size() + 1, false);
  memcpy(b, s.c_str(), s.size() + 1);
  return b;
}
static bool init(proxy_client_handle* ch) {
  for (int k = 0; k < 60; k++) {
    if (k == 0 || hash64(cfg.seed, 700 + k) % 3 == 0) memset(ch, 0, sizeof *ch);   // else the handle of the failed attempt is used again
    uint64_t f0 = resource_faults();
    int ret = proxy_client_init(ch);
    if (ret == 0) return true;
    stats->probes[49]++;
    if (resource_faults() == f0) { violate("C25:init", "proxy_client_init failed (%d) although no resource failed", ret); return false; }
    if (ret > 0) violate("C25:init", "proxy_client_init returned %d", ret);
    if (hash64(cfg.seed, 800 + k) % 3 == 0) proxy_client_free(ch);
    if (k > 20) faults_on = false;
  }
  return false;
}
static void body(int who) {
  proxy_client_handle ch;
  bool solo = P->p("clients") == 1;
  if (!init(&ch)) { live--; return; }
  for (auto& o : P->ops) {
    if (o.who != who) continue;
    stats->ops++;
    if (o.gap) sleep_until(now() + o.gap, "before connecting");
    if (o.kind == O_FREE) { proxy_client_free(&ch); if (!init(&ch)) break; continue; }
    n_rounds++;
    Round* q = new Round;
    q->who = who;
    q->r.seed((uint64_t)o.a);
    Rng& r = q->r;
    q->route = r.chance(0.85) ? 0 : (int)r.range(1, 3);
    q->rdelay = r.chance(0.7) ? 0 : r.logu(1000, 5 * SEC);
    q->behave = r.chance(0.55) ? (int)V_GOOD : (int)r.below(V_N);
    q->name = r.chance(0.4);
    q->nosuch = q->name && r.chance(0.15);
    q->port = (uint16_t)(8100 + who);
    for (int i = 0; i < 8; i++) q->nonce += "0123456789abcdef"[r.below(16)];
    if (r.chance(0.05)) q->nonce = r.chance(0.5) ? "00000000" : "ffffffff";
    std::string lower = q->nonce;
    if (r.chance(0.15))
      for (char& c : q->nonce) if (c >= 'a' && r.chance(0.7)) c -= 32; // upper-case digits mean the same value
    bool nocall = r.chance(0.1), nopw = r.chance(0.3);
    std::string call = r.chance(0.8) ? text(r, r.below(11), true) : text(r, (size_t)r.logu(1, 3000), true);
    std::string pw = r.chance(0.85) ? text(r, r.below(16), false) : text(r, (size_t)r.logu(1, 3000), false);
    call.erase(std::remove(call.begin(), call.end(), '\n'), call.end());
    std::string up = nopw ? "PUBLIC" : pw;
    for (char& c : up) if (c >= 'a' && c <= 'z') c -= 32;
    q->want = (nocall ? "" : call) + "\n" + md5x(up + lower);
    char port[16];
    snprintf(port, sizeof port, "%d", q->port);
    char* hs[4] = {hstr(q->name ? (q->nosuch ? "no.such.host" : r.chance(0.3) ? "dual.host" : "some.host") : "40.1.1.1"), hstr(port), nocall ? nullptr : hstr(call), nopw ? nullptr : hstr(pw)};
    ch.host_addr = hs[0];
    ch.host_port = hs[1];
    ch.callsign = hs[2];
    ch.password = hs[3];
    cur_round[who] = q;
    uint64_t f0 = resource_faults();
    int fd0 = open_fds();
    Time t0 = now();
    int ret = proxy_client_connect(&ch);
    uint64_t f1 = resource_faults();
    tlog("client %d: connect to a server which does %d (route %d): %d after %lld ms", who, q->behave, q->route, ret, (long long)((now() - t0) / MS));
    if (ret > 0) violate("C25:code", "proxy_client_connect returned %d", ret);
    bool sock_fault = q->mine && q->mine->faulted;
    if (ret == 0) {
      n_ok++;
      stats->probes[47]++;
      if (!q->up || q->route || q->nosuch) violate("C25:success", "connecting succeeded although there was no connection");
      else if (!q->nonce_sent) violate("C25:success", "connecting succeeded although the challenge was not complete");
      else {
        for (int k = 0; k < 600 && q->got.size() < q->want.size() && !q->ended && q->end_kind < 0; k++) sleep_until(now() + 100 * MS, "waiting for the answer");
        if (q->got.size() < q->want.size() && !q->ended && q->end_kind != 1) violate("C25:success", "connecting succeeded but the server received only %zu of %zu bytes", q->got.size(), q->want.size());
        if (q->end_kind >= 0 && !q->ended && !sock_fault) violate("C25:kept", "the connection was ended after connecting successfully");
        if (!q->ended && q->r.chance(0.5)) sleep_until(now() + q->r.logu(1, 2 * SEC), "connected");
        if (q->got.size() > q->want.size()) violate("C25:bytes", "the server received more than the answer");
      }
      if (q->r.chance(0.85)) {
        proxy_client_disconnect(&ch);
        if (q->mine && !q->mine->closed) violate("C25:leak", "the socket is open after disconnecting");
        if (solo && open_fds()) violate("C25:leak", "a descriptor is open after disconnecting: %s", fd_dump().c_str());
        if (!q->ended && q->up) {
          for (int k = 0; k < 200 && q->end_kind < 0 && !q->ended; k++) sleep_until(now() + 100 * MS, "waiting for the end");
          if (q->end_kind < 0 && !q->ended) violate("C25:end", "the server did not notice the disconnection");
        }
      } else { proxy_client_free(&ch); if (q->mine && !q->mine->closed) violate("C25:leak", "the socket is open after freeing"); if (!init(&ch)) { live--; return; } }
    } else {
      n_fail++;
      stats->probes[48]++;
      bool good = q->route == 0 && !q->nosuch && (q->behave == V_GOOD || q->behave == V_SLOWREAD || q->behave == V_PUSH);
      if (good && !sock_fault && f1 == f0) violate("C25:failed", "connecting failed (%d) although nothing was wrong", ret);
      if (solo && open_fds() != fd0) violate("C25:leak", "a failed connect (%d) left a descriptor open: %s", ret, fd_dump().c_str());
      if (q->mine && !q->mine->closed) violate("C25:leak", "a failed connect (%d) left its socket open", ret);
      if (q->r.chance(0.3)) proxy_client_disconnect(&ch);
    }
    for (int i = 0; i < 4; i++) if (hs[i]) heap_free(hs[i], "harness");
    ch.host_addr = ch.host_port = ch.callsign = ch.password = nullptr;
  }
  proxy_client_free(&ch);
  if (ch.priv) violate("C25:free", "the handle was not cleared");
  proxy_client_free(&ch);
  live--;
}
static void control() {
  int n = (int)P->p("clients");
  for (int i = 0; i < n; i++) { live++; spawn("client" + std::to_string(i), [i] { body(i); }, false); }
  Time lim = now() + 60 * SEC + 500 * g_slack();
  for (auto& o : P->ops) lim += o.gap + 300 * SEC;
  while (live) {
    sleep_until(now() + 20 * MS, "waiting for the clients");
    if (now() > lim) fatal_violation("C25:hang", "connecting does not end\n%s", fiber_dump().c_str());
  }
  if (open_fds()) violate("C25:leak", "descriptors are open after freeing every client: %s", fd_dump().c_str());
  leaks("C25:leak", "after freeing every client");
}
static void gen(Plan& p, Rng& r) {
  gen_sched(p, r);
  Config& c = p.cfg;
  int n = r.chance(0.6) ? 1 : 2 + (int)r.below(3);
  p.par["clients"] = n;
  p.par["sndbuf"] = r.chance(0.4) ? 16384 : r.logu(1, 2000);
  p.par["rcvbuf"] = r.chance(0.4) ? 32768 : r.logu(8, 2000);
  if (r.chance(0.4)) c.rate[K_SHORTSEND] = r.chance(0.5) ? 0.8 : 0.2;
  if (r.chance(0.4)) c.rate[K_SHORTRECV] = r.chance(0.5) ? 0.8 : 0.2;
  if (r.chance(0.15)) c.rate[K_SENDERR] = 0.1;
  if (r.chance(0.15)) c.rate[K_RECVERR] = 0.1;
  if (r.chance(0.3))
    for (int k : {K_SOCKET, K_SOCKOPT, K_CONNECT, K_GAI, K_ALLOC, K_SYNCINIT, K_BIND})
      if (r.chance(0.4)) { if (r.chance(0.5)) c.rate[k] = r.chance(0.5) ? 0.3 : 0.05; else c.fail_at[k] = r.range(0, 12); }
  for (int w = 0; w < n; w++)
    for (int i = 0, k = 1 + (int)r.below(5); i < k; i++) {
      if (r.chance(0.1)) add(p, w, O_FREE, 0);
      add(p, w, O_CONNECT, r.chance(0.5) ? 0 : r.logu(1, 2 * SEC), (int64_t)(r.next() >> 20));
    }
}
static void exec(const Plan& p) {
  P = &p;
  net.sut_sndbuf = (size_t)p.p("sndbuf");
  net.sut_rcvbuf = (size_t)p.p("rcvbuf");
  net.is_local = [](IP a) { return a == mkip(10, 0, 0, 1) || a == mkip(127, 0, 0, 1); };
  net.dns = [](const std::string& h, IP* ip, Time* d) {
    *d = 20 * MS;
    if (h != "some.host" && h != "dual.host") return -2;
    *ip = mkip(40, 1, 1, 1);
    return 0;
  };
  net.dual = [](const std::string& h) { return h == "dual.host"; };
  net.route = [](Sock* k, IP ip, uint16_t port) {
    Route r;
    int who = port - 8100;
    if (ip != mkip(40, 1, 1, 1) || !cur_round.count(who)) { violate("C25:address", "a connection is made to %s:%d", ipstr(ip).c_str(), port); r.mode = 1; return r; }
    Round* q = cur_round[who];
    r.mode = q->route;
    r.delay = q->rdelay;
    r.up = [q](Sock* a) { attach(q, a); };
    return r;
  };
  main_fiber = spawn("main", [] { control(); stop(); }, false);
  on_quiesce = [] { fatal_violation("C25:hang", "nothing can run any more\n%s", fiber_dump().c_str()); return false; };
  run();
  result->nontrivial = n_rounds > 0;
  snprintf(result->sample, sizeof result->sample, "%s/%s index %lld: %lld clients, %d connects, %d successful, %d failed, strategy %d, simulated %lld ms",
           p.world.c_str(), p.profile.c_str(), (long long)p.p("index"), (long long)p.p("clients"), n_rounds, n_ok, n_fail, cfg.strategy, (long long)(now() / MS));
  finish_ok();
}
static WorldReg reg({"client", gen, exec, {"connect", "free"}});
}  // namespace cl

// The whole proxy under simulation: clients, remote hosts, network peers and the registrar are actors; everything the
// proxy does is checked against reference models of the protocol at the socket boundary.
#include <deque>
#include <unordered_map>
#include "w_proxy.h"
#include "md5x.h"
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
extern "C" {
#include "openelp/openelp.h"
int sut_main(int argc, char** argv);
}

namespace pw {
const std::vector<const char*> opnames = {"CONN", "UDP", "OPEN", "TDATA", "TCLOSE", "PAUSE", "RAW", "END", "RSEND", "REND", "RPAUSE", "IN",
  "SHUTDOWN", "DROP", "JUMP", "REGMODE", "SIGNAL", "FDFULL", "LOGSEL", "WAIT"};
// two groups whose Pearson hashes collide, and others
const char* const calls[] = {"AA0JQM-R", "AC0X-R", "AE0QV-L", "AH2X-R", "K0KF-L", "N9R-L", "K1SQD-L", "KE4XJL-L", "N4PM-R", "ND6W-R", "W2F-R", "W7SST",
  "BADGUY", "BAD1", "EVIL-L", "X1", "K2LL", "1234567890", "TENCHARS-L", "W1AW", "G4ABC-R", "WX", "K7", "Z",
  "", "w1aw", "K 1", "BADGUYBAD", "K2LL-R", "W\xc3\x96X", "^K", "*CONF*",
  // one group whose hashes collide: beginnings and letters in common
  "W4EDD", "w4edd", "W4EDDAS", "W4EDDXG", "W4EDD-K", "W4EHA", "W4EDDAJK-R", "W4EDDARD-R"};
const int ncalls = 40;
static const char* const pws[] = {"secret1", "PUBLIC", "MixedCase9", "x", "aVeryLongPasswordThatGoesOnAndOnForSixtyCharactersOrSoItSeems", "p@ss{|}~z`", "public", "pa ss=w\xc3\xb6rd#1;", "0123456789abcdef0123456789ABCDEF01234567012345670123456z"};
struct Pat { const char* re; bool (*f)(const std::string&); };
static bool has_prefix(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
static const Pat denies[] = {{nullptr, nullptr},
  {"^BAD", [](const std::string& s) { return has_prefix(s, "BAD"); }},
  {"-L$", [](const std::string& s) { return s.size() >= 2 && s.substr(s.size() - 2) == "-L"; }},
  {"^.{7,}$", [](const std::string& s) { return s.size() >= 7; }},
  {"(?i)^(evil|w7s)", [](const std::string& s) { return has_prefix(s, "EVIL") || has_prefix(s, "W7S"); }},
  {"^$", [](const std::string& s) { return s.empty(); }},
  {"^(?!K)", [](const std::string& s) { return !has_prefix(s, "K"); }},
  {"W1AW|LL$|^X1$|[*]", [](const std::string& s) { return s.find("W1AW") != s.npos || (s.size() > 1 && s.substr(s.size() - 2) == "LL") || s == "X1" || s.find('*') != s.npos; }},
  {".*", [](const std::string&) { return true; }}};
static const Pat allows[] = {{nullptr, nullptr},
  {"^[A-K]", [](const std::string& s) { return !s.empty() && s[0] >= 'A' && s[0] <= 'K'; }},
  {"^K[0-9]|^W", [](const std::string& s) { return (s.size() > 1 && s[0] == 'K' && isdigit((unsigned char)s[1])) || (!s.empty() && s[0] == 'W'); }},
  {"[0-9]", [](const std::string& s) { for (char c : s) if (isdigit((unsigned char)c)) return true; return false; }},
  {".", [](const std::string& s) { return !s.empty(); }},
  {"^(K2LL|W1AW|)$", [](const std::string& s) { return s == "K2LL" || s == "W1AW" || s.empty(); }},
  {"^[A-Z0-9]{2,8}(-[LR])?$", [](const std::string& s) {
    std::string b = s.size() > 2 && (s.substr(s.size() - 2) == "-L" || s.substr(s.size() - 2) == "-R") ? s.substr(0, s.size() - 2) : s;
    for (char c : b) if (!((c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'))) return false;
    return b.size() >= 2 && b.size() <= 8;
  }}};
// printable text as it may stand behind Name=
static std::string gen_text(uint64_t seed, size_t n) {
  Rng r;
  r.seed(seed);
  std::string s(n, 0);
  for (size_t i = 0; i < n; i++) s[i] = (char)(r.chance(0.03) ? r.range(0x80, 0xff) : r.range(i && i + 1 < n ? 0x20 : 0x21, 0x7e));
  return s;
}
static const char* const reg_names[] = {nullptr, "TestProxy", "A Rather Long Registration Name That Exceeds Fifty Characters (Somewhere, XX)", "n"};
static const char* const reg_comments[] = {nullptr, "hello world", "A comment which goes on for rather longer than anybody would ever want to read in a list of proxies 0123456789", "c"};
static const char* const pub_addrs[] = {nullptr, "203.0.113.77", "proxy.example.org.with.a.long.name.example.net"};

static std::string md5pw(const std::string& pw, const std::string& nonce) {
  std::string u = pw;
  for (char& c : u) if (c >= 'a' && c <= 'z') c -= 32;
  return md5x(u + nonce);
}
static inline char gb(uint64_t key, size_t i) { return (char)(hash64(key, i >> 3) >> ((i & 7) * 8)); }
static std::string gen_bytes(uint64_t key, size_t off, size_t n) {
  std::string s(n, 0);
  for (size_t i = 0; i < n; i++) s[i] = gb(key, off + i);
  return s;
}
static void put32(std::string& s, uint32_t v) { for (int i = 0; i < 4; i++) s += (char)(v >> (8 * i)); }
static uint32_t get32(const char* p) { const unsigned char* u = (const unsigned char*)p; return u[0] | u[1] << 8 | u[2] << 16 | (uint32_t)u[3] << 24; }
static std::string ipbytes(IP a) { std::string s; for (int i = 3; i >= 0; i--) s += (char)(a >> (8 * i)); return s; }
static std::string frame(int type, IP addr, const std::string& body, int64_t size = -1) {
  std::string s(1, (char)type);
  s += ipbytes(addr);
  put32(s, size < 0 ? (uint32_t)body.size() : (uint32_t)size);
  return s + body;
}

struct Sess;
struct Msg { int type; IP dst; size_t base; size_t size; uint64_t key; size_t pos; long alt; bool done; bool failed; Time t; };  // base: the first message to the same host
struct Ep {
  Sess* s; int k; IP dst;
  Ep* same = nullptr;            // the next request for the same host
  int mode; Time delay; size_t rbytes; int rend;
  int attempts = 0;
  Time pause_for = 0;            // stop reading as soon as connected, for so long
  size_t pause_buf = 0;
  Sock* ss = nullptr;            // the proxy's socket
  Sock* r = nullptr;             // the remote host
  bool connected = false;        // connect() returned success to the proxy
  std::string to;                // bytes the client sent for this connection
  size_t got = 0;
  std::string from;              // bytes the remote sent
  size_t del = 0;                // bytes delivered to the client
  bool status = false; uint32_t sval = 0;
  int closes = 0;
  int ndata = 0, ndata_closed = 0;  // data messages; those certainly sent with no connection open
  bool cclosed = false;          // client asked to close
  bool superseded = false;       // client opened another
  bool rfin = false, rrst = false;  // remote ended it
  int r_end = 0;                 // remote saw 1 FIN, 2 RST from the proxy
  Time t_sup = 0, t_rend = 0, t_req = 0;
  std::deque<std::pair<size_t, Time>> lat_to, lat_from;  // when the bytes up to an offset were handed over
};
enum { E_SERVE, E_BADPW, E_BADAUTH, E_END, E_HANG };
struct Sess {
  int era = 0;                   // how often the proxy was closed before
  int id = 0, who = 0, mode = 0, expect = E_SERVE;
  Op op;
  std::string call, answer, nonce;
  IP src = 0;
  Sock* c = nullptr;
  Sock* ss = nullptr;
  bool up = false, ended = false, self_end = false, vanished = false, accepted = false, sclosed = false, admit = false;
  bool challenged = false, sent_auth = false, extra = false, hostile = false, maybe = false, evidence = false, paused = false;
  bool must_refuse = false, failed = false, unk = false, hung = false, rst = false;
  int endkind = 0;
  Time t_conn = 0, t_up = 0, t_acc = 0, t_sclosed = 0, t_auth = 0, t_end = 0, t_self = 0, t_chal = 0, t_seen = 0, t_rel = 0;
  std::string buf;
  size_t rx_msgs = 0;
  IP lip = 0; bool lip_known = false;
  std::vector<Msg> msgs; size_t next = 0;
  std::vector<Ep*> eps;
  int rxep = -1;
  int closes0 = 0, ndata0 = 0;
  int ctr = 0;
  bool watch = false;            // every delay of this session is measured
  bool eligible() const { return sent_auth && expect == E_SERVE; }
  bool live() const { return up && !ended && !self_end; }
};
struct US { Sock* s; IP lip; uint16_t port; Sess* owner = nullptr; Time t; std::vector<int> q; size_t next = 0; bool closed = false; bool faulted = false; };
struct Inj { IP src; int base; IP dst; uint16_t port; size_t size; uint64_t key; uint64_t us = 0; bool arrived = false, dropped = false, delivered = false; Time t = 0; uint64_t arr = 0; };
struct Report { Time t; std::string name, status, body; long used, total; bool br; bool answered; };

static const Plan* P;
static int N;
static uint16_t tcp_port = 8100;
static std::vector<IP> slots;
static int bind_kind;
static bool wild, reconfigured;
static std::string old_password;                 // of the previous configuration
static std::vector<Sess*> ss;
static std::map<int, Sess*> curs;               // current session per client
static std::map<uint64_t, US> us;
static std::vector<Inj> injs;
static std::unordered_map<int, std::vector<int>> peers;  // datagrams by the first one of the same host
static std::vector<std::vector<Op>> cops;       // per client
static std::vector<Op> iops, kops;
static std::set<std::string> nonces;
static Time last_act = 0;
static int busy_ops = 0, pauses = 0;
static int dropping = 0, era = 0;
static bool app_up = false, closing = false, closed_done = false, want_close = false, shutdown_called = false, shutdown_done = false, all_done = false, main_idle = false;
static int proc_errs = 0, phase = 0;
static Time t_shutdown = 0, t_close0 = 0;
static bool stalls = false, resource = false, daemon_mode = false;
static Time slack = 0;                          // extra time for deadlines when stalls are injected
static std::string password;
static int npat_d, npat_a;
static struct proxy_handle* ph;
static std::string last_nonce, last_answer;
static uint64_t n_arrived = 0;
static int n_served = 0, n_delivered = 0, n_emitted = 0, n_rejected = 0;
static IP REG = mkip(60, 0, 0, 1);
static int regmode = 0; static Time regdelay = 0, reg_since = 0, reg_bad_until = 0;
static bool reg_on = false;
static std::vector<Report> reports;
static uint64_t reports_partial = 0;
static Time last_change = 0;                     // a session began or ended
static uint64_t resource_faults() {
  static const K ks[] = {K_ALLOC, K_THREAD, K_SOCKET, K_BIND, K_LISTEN, K_SOCKOPT, K_SYNCINIT, K_PCRE_ALLOC, K_PCRE_MATCH, K_GAI, K_EMFILE};
  uint64_t n = 0;
  for (K k : ks) n += stats->fault[k];
  return n;
}
// faults which can make an operation fail (as opposed to delay or split it)
static uint64_t hard_faults() {
  uint64_t n = 0;
  for (int k = K_FIRST_FAULT; k < K_N; k++) if (k != K_STALL && k != K_SHORTSEND && k != K_SHORTRECV && k != K_UDPLOSS && k != K_CLOCKJUMP) n += stats->fault[k];
  return n;
}
static uint64_t hf_run0 = 0;                     // likewise, of the network
static uint64_t rf0 = 0;                         // faults counted before this run (statistics accumulate)
static uint64_t rfaults() { return resource_faults() - rf0; }
static uint64_t pm0 = 0;
static IP norm(IP a) { return a ? a : net.default_ip; }
static bool permitted(const std::string& c) {
  if (npat_d && denies[npat_d].f(c)) return false;
  if (npat_a && !allows[npat_a].f(c)) return false;
  return true;
}
static void act() { last_act = now(); }
static void d_mark_ready();
static std::string sdesc(const Sess* s) {
  char b[160];
  snprintf(b, sizeof b, "session %d (client %d '%s', auth mode %d)", s->id, s->who, s->call.c_str(), s->mode);
  return b;
}
// may still hold an external address: connected, closed a moment ago, or with a remote TCP connection not yet closed
static bool holding(Sess* s) {
  if (!s->accepted) return false;
  if (!s->sclosed || s->t_sclosed > now() - 3 * SEC - slack || s->t_rel > now() - 3 * SEC - slack) return true;
  for (auto e : s->eps) if (e->ss && !e->ss->closed) return true;
  return false;
}
static int occupied(Sess* except) {  // sessions that may hold a worker now
  int n = 0;
  for (auto s : ss)
    if (s != except && holding(s)) n++;
  return n;
}
// What others do must not delay this session
static void in_time(Sess* s, const char* cls, const char* what, Time since, Time extra = 0) {
  if (!s->watch) return;
  stats->probes[61]++;
  if (now() - since > 5 * SEC + extra + slack) violate(cls, "%s behaves and nothing of its own is slow, but %s took %lld ms\n%s", sdesc(s).c_str(), what, (long long)((now() - since) / MS), fiber_dump().c_str());
}
static void in_time(Sess* s, const char* cls, const char* what, std::deque<std::pair<size_t, Time>>& q, size_t upto) {
  while (!q.empty() && q.front().first <= upto) { in_time(s, cls, what, q.front().second); q.pop_front(); }
}
static bool quiet_world() { return !closing && !shutdown_called && !want_close; }

// ---- attribution -------------------------------------------------------------------------------------------------
static void seen(Sess* s) { if (!s->evidence) { s->evidence = true; s->t_seen = now(); n_served++; stats->probes[0]++; } }
static void note_lip(Sess* s, IP lip, const char* cls) {
  lip = norm(lip);
  seen(s);
  if (s->era == era && std::find(slots.begin(), slots.end(), lip) == slots.end()) violate(cls, "%s uses %s, which is not an external address of the proxy", sdesc(s).c_str(), ipstr(lip).c_str());
  if (s->lip_known && s->lip != lip) violate(cls, "%s uses external address %s after %s", sdesc(s).c_str(), ipstr(lip).c_str(), ipstr(s->lip).c_str());
  if (!s->lip_known) {
    s->lip_known = true;
    s->lip = lip;
    if (!s->sclosed) for (auto o : ss)
      if (o != s && o->lip_known && o->lip == lip && o->accepted && !o->sclosed)
        violate("C09:share", "%s and %s are served at the same external address %s", sdesc(o).c_str(), sdesc(s).c_str(), ipstr(lip).c_str());
  }
}
static void own(US& u, Sess* s, const char* what) {
  if (u.owner && u.owner != s) violate("C09:cross", "%s of %s through the UDP socket of %s", what, sdesc(s).c_str(), sdesc(u.owner).c_str());
  if (!u.owner) {
    if (u.t < s->t_conn) violate("C09:cross", "%s of %s through a UDP socket opened before it connected", what, sdesc(s).c_str());
    u.owner = s;
  }
  note_lip(s, u.lip, "C09:addr-udp");
}
static bool wide;                                // many addresses, many clients, many callsigns
// logical addresses name a session and what it did: the first byte tells the kind and the upper bits of the number
static IP addr_of(int kind, int id, size_t i) { return mkip(kind + (id >> 8), id & 255, 0, 0) | (IP)(i & 0xffff); }
static int kind_of(IP a) { int k = (int)(a >> 24) & ~3; return k == 20 || k == 40 ? k : 0; }
static int id_of(IP a) { return (int)(((a >> 24) & 3) << 8 | (a >> 16 & 255)); }
static std::string call_name(int64_t i) {
  if (!wide || i < ncalls) return calls[i % ncalls];
  static const char* const suffix[] = {"", "-L", "-R", "X"};
  return "W" + std::to_string(i % 1000) + std::string(1, (char)('A' + i % 26)) + suffix[i / 3 % 4];
}
static Sess* by_id(int id) { return id >= 1 && id <= (int)ss.size() ? ss[id - 1] : nullptr; }
static bool any_hostile() { for (auto s : ss) if (s->hostile) return true; return false; }
static void need_eligible(Sess* s, const char* what) {
  if (s->eligible() || s->hostile) {
    if (s->must_refuse) violate("C13:served", "%s connected after the shutdown request and still had %s", sdesc(s).c_str(), what);
    return;
  }
  if (s->sent_auth && s->expect == E_BADAUTH) violate("C02:served", "%s is not permitted but had %s", sdesc(s).c_str(), what);
  violate("C01:served", "%s is not authenticated but had %s", sdesc(s).c_str(), what);
}
// The hosts of the world have a logical address (which says who they are) and, in half of the plans, an unrelated
// address on the wire: of every shape, from the shortest to the longest when written out.
static std::unordered_map<IP, IP> w2l, l2w;
static IP wire(IP l) {
  uint64_t seed = (uint64_t)P->p("addrs");
  if (!seed) return l;
  auto it = l2w.find(l);
  if (it != l2w.end()) return it->second;
  for (uint64_t i = 0;; i++) {
    uint64_t h = hash64(hash64(seed, l), i);
    int shape = (int)(h & 7);
    int b[4];
    for (int k = 0; k < 4; k++) {
      int v = (int)(h >> (8 + 8 * k) & 255);
      b[k] = shape == 0 && i < 50 ? v % 10 : shape == 1 ? 100 + v % 156 : shape == 2 && k ? ((v & 1) ? 255 : 0) : v;
    }
    IP w = mkip(b[0], b[1], b[2], b[3]);
    if (b[0] < 1 || b[0] > 223 || b[0] == 10 || b[0] == 127 || b[0] == 192 || w == REG || w2l.count(w)) continue;
    w2l[w] = l;
    return l2w[l] = w;
  }
}
static IP logical(IP w) {
  if (!P->p("addrs")) return w;
  auto it = w2l.find(w);
  return it != w2l.end() ? it->second : (w >> 24) == 10 ? w : 0;
}
static bool msg_complete(const Msg& m) { return m.done || (m.failed && m.alt == (long)m.size); }
// In half of the plans a host takes part more than once: which earlier one, by number back, or none
static const size_t MAXSHARE = 300;
static int share_back(uint64_t kind, uint64_t id, size_t i) {
  uint64_t seed = (uint64_t)P->p("share");
  if (!seed) return 0;
  uint64_t h = hash64(hash64(seed, kind * 1000 + id), i) % 5;
  return h < 2 ? 1 : h == 2 ? 2 : 0;
}
// data may repeat
static int again(int n) { return P->p("share") && hash64((uint64_t)P->p("share"), (uint64_t)n) % 4 == 0 ? n - 1 : n; }
static bool shareable(size_t n) { return n >= 16 && n <= 4096; }  // in one datagram, and different from all others
// a datagram leaves (or was refused by the system)
static void on_udp(Sock* k, IP to, uint16_t port, const std::string& d, bool failed) {
  act();
  IP dst = logical(to);
  tlog("datagram of %zu bytes to %s:%d %s", d.size(), ipstr(to).c_str(), port, failed ? "(refused)" : "");
  Sess* s = kind_of(dst) == 20 ? by_id(id_of(dst)) : nullptr;
  auto it = us.find(k->id);
  if (!s || it == us.end()) {
    if (any_hostile()) return;
    violate("C04:foreign", "a datagram of %zu bytes was sent to %s:%d, which nobody asked for", d.size(), ipstr(to).c_str(), port);
    return;
  }
  need_eligible(s, "a datagram relayed");
  size_t lo = s->next > 1000 ? s->next - 1000 : 0;    // the upper bits of the number are not in the address
  size_t mi = lo + (((size_t)dst - lo) & 0xffff);
  if (mi >= s->msgs.size()) { violate("C04:foreign", "%s: datagram to an address it did not ask for", sdesc(s).c_str()); return; }
  if (s->msgs[mi].base != mi) { violate("C04:foreign", "%s: datagram to an address it did not ask for", sdesc(s).c_str()); return; }
  int alike = 0;
  if (shareable(s->msgs[mi].size)) {  // of the messages to this host, the one with this content
    size_t b = mi, first = ~(size_t)0, hit = ~(size_t)0, old = ~(size_t)0, refused = ~(size_t)0;
    for (size_t i = b; i < s->msgs.size() && i < b + MAXSHARE; i++) {
      const Msg& q = s->msgs[i];
      if (q.base != b) continue;
      if (!q.done && first == ~(size_t)0) first = i;
      if (q.size != d.size() || d[0] != gb(q.key, 0)) continue;
      bool eq = true;
      for (size_t k = 1; k < d.size() && eq; k++) eq = d[k] == gb(q.key, k);
      if (!eq) continue;
      alike++;
      if (q.done) old = i;
      else if (!q.failed) { if (hit == ~(size_t)0) hit = i; }
      else if (refused == ~(size_t)0) refused = i;
    }
    if (hit == ~(size_t)0) hit = refused;
    mi = hit != ~(size_t)0 ? hit : old != ~(size_t)0 ? old : first != ~(size_t)0 ? first : b;
    if (mi != b) stats->probes[63]++;
  }
  Msg& m = s->msgs[mi];
  if (!failed) own(it->second, s, "a datagram");
  uint16_t want = m.type == 5 ? 5198 : 5199;
  if (port != want || k->lport != want) violate("C04:port", "%s: message of type %d sent from port %d to port %d", sdesc(s).c_str(), m.type, k->lport, port);
  if (s->hostile) return;
  if (s->next < mi) {
    bool gap = s->rst || s->vanished || s->maybe || closing || want_close;  // the end was abrupt
    // every earlier message must be complete
    for (size_t i = s->next; i < mi; i++)
      if (!gap && !msg_complete(s->msgs[i])) violate(s->msgs[i].pos == 0 && s->msgs[i].alt < 0 ? "C04:order" : "C04:lost", "%s: datagram for message %zu was sent while message %zu (%zu bytes, %zu sent) was not complete", sdesc(s).c_str(), mi, i, s->msgs[i].size, s->msgs[i].pos);
    s->next = mi;
  }
  if (alike > 1 && !m.done && mi < s->next && m.failed) { if (!failed) m.done = true; return; }  // refused before, and sent again
  if (m.done || mi < s->next) { violate("C04:dup", "%s: another datagram for message %zu, which had been sent completely", sdesc(s).c_str(), mi); return; }
  if (d.size() > 4096 || d.empty()) { violate("C04:size", "%s: datagram of %zu bytes", sdesc(s).c_str(), d.size()); return; }
  auto match = [&](size_t pos) {
    if (pos + d.size() > m.size) return false;
    for (size_t i = 0; i < d.size(); i++) if (d[i] != gb(m.key, pos + i)) return false;
    return true;
  };
  size_t at;
  if (m.alt >= 0 && match((size_t)m.alt)) at = (size_t)m.alt;  // after a refused part, the next one or the same again
  else if (match(m.pos)) at = m.pos;
  else {
    violate("C04:content", "%s: datagram of %zu bytes for message %zu (%zu bytes) does not continue it at %zu", sdesc(s).c_str(), d.size(), mi, m.size, m.pos);
    return;
  }
  if (m.size <= 4096 && d.size() != m.size) violate("C04:split", "%s: message of %zu bytes sent as a datagram of %zu bytes", sdesc(s).c_str(), m.size, d.size());
  n_emitted++;
  if (failed) {
    stats->probes[2]++;
    m.failed = true;
    m.pos = at;
    m.alt = (long)(at + d.size());
    if ((size_t)m.alt == m.size) m.done = false;
    return;
  }
  m.pos = at + d.size();
  m.alt = -1;
  stats->probes[1]++;
  if (m.pos == m.size) { m.done = true; s->next = mi + 1; in_time(s, "C29:out", "relaying its datagram", m.t); }
}
// closing helper: a refused datagram at the end of a message completes it
static void settle_failed(Sess* s) {
  for (auto& m : s->msgs) if (!m.done && m.failed && m.alt == (long)m.size) m.done = true;
}

// ---- the client's view ---------------------------------------------------------------------------------------------
static void session_over(Sess* s, int kind);
static void client_msg(Sess* s, int type, IP from, const char* d, size_t n) {
  IP addr = logical(from);
  s->rx_msgs++;
  stats->probes[3]++;
  if (s->expect != E_SERVE && !s->hostile) { violate("C01:served", "%s received message type %d", sdesc(s).c_str(), type); return; }
  Ep* e = s->rxep >= 0 && s->rxep < (int)s->eps.size() ? s->eps[s->rxep] : nullptr;
  switch (type) {
    case 5:
    case 6: {
      if ((addr >> 24) != 30 || (addr & 0xffffff) >= injs.size()) { violate("C05:addr", "%s received a datagram from %s (%zu bytes), which nobody sent", sdesc(s).c_str(), ipstr(from).c_str(), n); return; }
      int ji = (int)(addr & 0xffffff);
      if (injs[ji].base != ji) { violate("C05:addr", "%s received a datagram from %s (%zu bytes), which nobody sent", sdesc(s).c_str(), ipstr(from).c_str(), n); return; }
      auto pp = peers.find(ji);
      if (pp != peers.end()) {  // of the datagrams from this host, the one with this content
        int hit = -1, old = -1, first = -1, best = 0;
        for (int i : pp->second) {
          const Inj& q = injs[i];
          if (q.arrived && !q.dropped && !q.delivered && first < 0) first = i;
          if (!q.arrived || q.dropped || std::min<size_t>(q.size, 4087) != n || !n || d[0] != gb(q.key, 0)) continue;
          bool eq = true;
          for (size_t k = 1; k < n && eq; k++) eq = d[k] == gb(q.key, k);
          if (!eq) continue;
          if (q.delivered) { old = i; continue; }
          const US& w = us[q.us];  // of equal ones the earliest to arrive at a socket of this session
          int score = q.port != (type == 5 ? 5198 : 5199) ? 0 : w.owner == s ? 4 : w.owner || w.t < s->t_conn ? 1 : w.closed ? 2 : 3;
          if (hit < 0 || score > best || (score == best && q.arr < injs[hit].arr)) { hit = i; best = score; }
        }
        ji = hit >= 0 ? hit : old >= 0 ? old : first >= 0 ? first : ji;
        if (ji != (int)(addr & 0xffffff)) stats->probes[63]++;
      }
      Inj& j = injs[ji];
      if (!j.arrived) { violate("C05:foreign", "%s received a datagram that never arrived", sdesc(s).c_str()); return; }
      US& u = us[j.us];
      own(u, s, "an incoming datagram");
      n_delivered++;
      if ((type == 5 ? 5198 : 5199) != j.port) violate("C05:type", "%s: datagram for port %d delivered as type %d", sdesc(s).c_str(), j.port, type);
      size_t want = std::min<size_t>(j.size, 4087);
      if (n != want) { violate("C05:payload", "%s: datagram of %zu bytes delivered with %zu bytes", sdesc(s).c_str(), j.size, n); return; }
      for (size_t i = 0; i < n; i++) if (d[i] != gb(j.key, i)) { violate("C05:payload", "%s: byte %zu of a datagram of %zu bytes changed", sdesc(s).c_str(), i, n); return; }
      if (j.delivered) { violate("C05:dup", "%s received the same datagram twice", sdesc(s).c_str()); return; }
      j.delivered = true;
      in_time(s, "C29:in", "delivering a datagram to it", j.t);
      size_t qi = u.next;
      while (qi < u.q.size() && u.q[qi] != ji) {
        Inj& k = injs[u.q[qi]];
        if (!k.dropped && k.size > 0 && !k.delivered) { violate("C05:lost", "%s: a datagram of %zu bytes that arrived earlier on port %d was skipped", sdesc(s).c_str(), k.size, k.port); return; }
        qi++;
      }
      if (qi >= u.q.size()) { violate("C05:order", "%s: datagram delivered out of order", sdesc(s).c_str()); return; }
      u.next = qi + 1;
      break;
    }
    case 2:
      if (s->hostile) return;
      if (!e || !e->connected) { violate("C07:early", "%s received TCP data before a successful status", sdesc(s).c_str()); return; }
      if (e->closes) { violate("C07:late", "%s received TCP data after the close message of that connection", sdesc(s).c_str()); return; }
      if (e->del + n > e->from.size() || memcmp(d, e->from.data() + e->del, n)) { violate("C07:data", "%s: %zu bytes of TCP data at offset %zu are not what the remote host sent", sdesc(s).c_str(), n, e->del); return; }
      e->del += n;
      in_time(s, "C29:data", "delivering bytes of its remote host", e->lat_from, e->del);
      stats->probes[4]++;
      break;
    case 3:
      if (s->hostile) return;
      if (!e) {
        s->closes0++;
        if (s->closes0 > s->ndata0) violate("C07:close", "%s received a close message without a connection", sdesc(s).c_str());
        return;
      }
      e->closes++;
      {
        bool faulted = e->ss && e->ss->faulted;
        bool ended = e->rfin || e->rrst || faulted;
        int most = e->connected ? ((ended || e->cclosed || e->superseded) ? 1 : 0) + (ended ? e->ndata : e->ndata_closed) : e->ndata;
        if (resource) most += 1 + e->ndata;
        if (e->closes > most) {
          // a session that the proxy is ending may see its connection close first
          char m0[400];
          snprintf(m0, sizeof m0, "%s: close message %d for connection %d (connected %d, remote ended %d, client closed %d, data messages %d)", sdesc(s).c_str(), e->closes, e->k, e->connected, ended, e->cclosed, e->ndata);
          std::string m = m0;
          Time t = now();
          if (s->self_end || s->ended) break;
          post(2 * SEC + slack, [s, m, t] { if (!s->ended && !s->self_end && !s->sclosed) violate("C07:close", "%s, at %lld us", m.c_str(), (long long)t); });
        }
      }
      break;
    case 4: {
      if (s->hostile) return;
      s->rxep++;
      if (s->rxep >= (int)s->eps.size()) { violate("C06:status", "%s received more status messages than it made requests", sdesc(s).c_str()); return; }
      if (e) {  // the previous connection is over now
        bool faulted = e->ss && e->ss->faulted;
        int least = (e->connected ? e->ndata_closed : e->ndata) + (e->connected && e->cclosed && !faulted ? 1 : 0);
        if (e->closes < least && !resource) violate("C07:noclose", "%s: %d close messages for connection %d before the next status, expected %d", sdesc(s).c_str(), e->closes, e->k, least);
      }
      e = s->eps[s->rxep];
      e->status = true;
      in_time(s, "C29:open", "opening its connection", e->t_req, e->delay);
      e->sval = get32(d);
      if ((e->sval == 0) != e->connected && !resource) violate("C06:status", "%s: status %u for connection %d, which %s", sdesc(s).c_str(), e->sval, e->k, e->connected ? "was established" : "was not established");
      stats->probes[5]++;
      break;
    }
    default:
      violate("C08:type", "%s received a message of unknown type %d", sdesc(s).c_str(), type);
  }
}
static void send_auth(Sess* s);
static void client_data(Sess* s, const char* d, size_t n) {
  act();
  if (s->ss && s->ss->faulted) { s->buf.clear(); return; }  // an injected error cut a message short; the session has to end
  s->buf.append(d, n);
  if (!s->challenged) {
    if (s->buf.size() < 8) return;
    s->nonce = s->buf.substr(0, 8);
    s->buf.erase(0, 8);
    s->challenged = true;
    s->t_chal = now();
    in_time(s, "C29:login", "its challenge", s->t_up);
    if (daemon_mode) d_mark_ready();
    if (s->must_refuse) stats->probes[6]++;
    for (char c : s->nonce) if (!isdigit((unsigned char)c) && !(c >= 'a' && c <= 'f')) { violate("C03:format", "%s: challenge is not eight lower-case hexadecimal digits", sdesc(s).c_str()); break; }
    if (!nonces.insert(s->nonce).second && !rand_repeated) violate("C03:reuse", "%s got challenge %s, which was used before", sdesc(s).c_str(), s->nonce.c_str());
    Time think = s->op.d > 0 ? s->op.d : 0;
    post(think, [s] { if (s->live()) send_auth(s); });
    if (s->buf.empty()) return;
  }
  if (s->expect != E_SERVE && !s->hostile) {
    if (!s->sent_auth) { if (!s->buf.empty() && s->expect != E_END && s->expect != E_HANG && !s->extra) violate("C08:early", "%s received %zu bytes after the challenge before answering", sdesc(s).c_str(), s->buf.size()); return; }
    return;  // compared when it ends
  }
  if (!s->sent_auth && !s->buf.empty() && !s->hostile) violate("C08:early", "%s received %zu bytes after the challenge before answering", sdesc(s).c_str(), s->buf.size());
  while (s->buf.size() >= 9) {
    int type = (unsigned char)s->buf[0];
    uint32_t size = get32(s->buf.data() + 5);
    if (type == 7 && size == 1 && s->rx_msgs == 0) {
      if (s->hostile) { s->buf.clear(); return; }
      if (s->buf.size() < 10) return;
      if (stats->fault[K_PCRE_MATCH] + stats->fault[K_PCRE_ALLOC] != pm0 && s->buf[9] == 2) { s->expect = E_BADAUTH; return; }
      violate(s->buf[9] == 2 ? "C02:refused" : "C01:refused", "%s gave the right answer and is permitted but was refused with code %d", sdesc(s).c_str(), s->buf[9]);
      return;
    }
    bool ok = (type == 2 && size >= 1 && size <= 4087) || (type == 3 && size == 0) || (type == 4 && size == 4) || ((type == 5 || type == 6) && size <= 4087);
    if (!ok) { violate("C08:header", "%s: stream is not a sequence of whole messages: type %d size %u after %zu messages", sdesc(s).c_str(), type, size, s->rx_msgs); return; }
    if (s->buf.size() < 9 + size) return;
    std::string m = s->buf.substr(0, 9 + size);
    s->buf.erase(0, 9 + size);
    IP a = (IP)(unsigned char)m[1] << 24 | (IP)(unsigned char)m[2] << 16 | (IP)(unsigned char)m[3] << 8 | (unsigned char)m[4];
    client_msg(s, type, a, m.data() + 9, size);
  }
}
static const char bad_pw[] = "\x07\0\0\0\0\x01\0\0\0\x01", bad_auth[] = "\x07\0\0\0\0\x01\0\0\0\x02";
static void check_reply(Sess* s) {
  if (s->self_end || s->hostile || !s->challenged || !s->sent_auth || s->vanished) return;
  if (s->expect != E_BADPW && s->expect != E_BADAUTH) return;
  if (s->maybe || closing || want_close || rfaults() || (s->ss && s->ss->faulted)) return;
  n_rejected++;
  stats->probes[7]++;
  std::string want(s->expect == E_BADPW ? bad_pw : bad_auth, 10);
  bool ok = s->buf == want;
  if (!ok && s->extra && want.compare(0, s->buf.size(), s->buf) == 0) ok = true;
  if (!ok) {
    std::string h;
    for (unsigned char c : s->buf.substr(0, 24)) { char b[4]; snprintf(b, 4, "%02x", c); h += b; }
    violate(s->expect == E_BADPW ? "C01:reply" : "C02:reply", "%s: refused with %zu bytes %s", sdesc(s).c_str(), s->buf.size(), h.c_str());
  }
}
static void session_over(Sess* s, int kind) {  // the server ended it
  if (s->ended) return;
  act();
  s->ended = true;
  s->endkind = kind;
  s->t_end = now();
  s->up = false;
  tlog("%s ended by the proxy (%s)", sdesc(s).c_str(), kind ? "reset" : "closed");
  check_reply(s);
  if (s->c->st == T_EST) actor_fin(s->c);
  if (s->self_end || s->hostile || s->maybe || closing || want_close || s->vanished) return;
  if (s->ss && s->ss->faulted) return;
  if (rfaults()) return;
  for (auto& u : us) if (u.second.s->faulted && (u.second.owner == s || !u.second.owner)) return;
  if (s->expect != E_SERVE || !s->sent_auth) {
    if (s->challenged && (s->expect == E_HANG || !s->sent_auth)) violate("SESS:auth", "%s was disconnected while it still had time to answer", sdesc(s).c_str());
    else if (!s->challenged && s->admit && s->mode != 10) violate("SERVE:refused", "%s was disconnected without a challenge although an external address was free", sdesc(s).c_str());
    return;
  }
  if (s->evidence) violate("SESS:end", "%s was being served and was disconnected for no reason", sdesc(s).c_str());
  else if (s->admit) violate("SERVE:refused", "%s authenticated correctly with an address free but was disconnected", sdesc(s).c_str());
}
static void do_send(Sess* s, const std::string& d) {
  if (!s->c || s->c->st != T_EST || s->self_end) return;
  if (s->hung) return;   // deliberately says no more
  act();
  if (verbose) { std::string h; for (unsigned char c : d.substr(0, 32)) { char b[4]; snprintf(b, 4, "%02x", c); h += b; } tlog("%s sends %zu bytes %s", sdesc(s).c_str(), d.size(), h.c_str()); }
  actor_send(s->c, d);
}
static void send_auth(Sess* s) {
  std::string right = md5pw(password, s->nonce), ans = right, call = s->call;
  const Op& o = s->op;
  int x = (int)(o.c & 0xffff);
  bool partial_fin = false, silent = false;
  std::string raw;
  switch (s->mode) {
    case 1: ans[x % 16] ^= (char)(1 << (x / 16 % 8)); break;
    case 2: ans = md5pw(password + "x", s->nonce); break;
    case 20: ans = md5pw(old_password, s->nonce); break;
    case 3: ans = last_answer.empty() ? std::string(16, 'r') : last_answer; break;
    case 4: { std::string c; for (int i = 0; i < 11 + x % 20; i++) c += (char)('A' + i % 26); call = c; break; }
    case 5: partial_fin = true; break;
    case 6: silent = true; break;
    case 7: raw = std::string(27 + x % 40, 'Q'); break;
    case 8: ans = md5x(password + s->nonce); break;
    case 9: call = ""; break;
    case 11: ans = std::string(16, 0); break;
    case 12: { std::string n = s->nonce; for (char& c : n) if (c >= 'a' && c <= 'f') c -= 32; ans = md5pw(password, n); break; }
    case 13: ans = md5x(s->nonce); break;
    case 15: ans[15] ^= (char)(1 + x % 255); break;
    case 17: { std::string u = password; for (char& c : u) if (c >= 'a' && c <= 'z') c -= 32; ans = md5x(s->nonce + u); break; }
    case 18: ans = right; ans[0] ^= 1; ans[8] ^= 0x80; break;
    case 19: { std::string u = password; for (char& c : u) if (c >= 'a' && c <= 'z') c -= 32; ans = md5x(u); break; }
    default: break;
  }
  if (s->mode == 10 || s->mode == 14) { return; }
  std::string all = raw.empty() ? call + "\n" + ans : raw;
  if (partial_fin || silent) all = all.substr(0, x % all.size());
  if (partial_fin) s->expect = E_END;
  else if (silent) s->expect = E_HANG;
  else if (!raw.empty() || call.size() > 10) s->expect = E_END;
  else if (ans != right) s->expect = E_BADPW;
  else s->expect = permitted(call) ? E_SERVE : E_BADAUTH;
  if (s->mode != 4) s->call = call;
  s->answer = ans;
  if (ans == right && s->expect == E_SERVE) { last_answer = ans; last_nonce = s->nonce; }
  if (s->mode != 16) s->sent_auth = true;
  s->t_auth = now();
  tlog("%s answers challenge %s; should be %s", sdesc(s).c_str(), s->nonce.c_str(), s->expect == E_SERVE ? "served" : s->expect == E_BADPW ? "refused (password)" : s->expect == E_BADAUTH ? "refused (callsign)" : s->expect == E_END ? "dropped" : "waiting");
  stats->probes[8 + std::min(s->expect, 4)]++;
  if (s->mode == 16) {  // in pieces
    Time t = 0;
    size_t i = 0;
    Rng r;
    r.seed(hash64(0xabc, s->op.c));
    while (i < all.size()) {
      size_t n = 1 + r.below(std::min<size_t>(6, all.size() - i));
      std::string piece = all.substr(i, n);
      t += r.range(1, 400) * MS;
      busy_ops++;
      bool last = i + n == all.size();
      post(t, [s, piece, last] { busy_ops--; if (last && s->live()) { s->sent_auth = true; s->t_auth = now(); } do_send(s, piece); });
      i += n;
    }
  } else if (!all.empty()) do_send(s, all);
  if (silent) s->hung = true;
  if (partial_fin) { s->self_end = true; s->t_self = now(); actor_fin(s->c); return; }
  if (s->expect == E_BADPW || s->expect == E_BADAUTH || s->expect == E_END) {
    post(60 * SEC + slack, [s] {
      if (s->ended || s->self_end || s->hostile || closing || s->paused) return;
      violate(s->expect == E_BADAUTH ? "C02:noend" : "C01:noend", "%s should have been refused but is still connected a minute later", sdesc(s).c_str());
    });
  }
}
static Sess* new_session(int who, const Op& o) {
  if (ss.size() >= (wide ? 1020 : 250)) return nullptr;
  Sess* s = new Sess;
  s->id = (int)ss.size() + 1;
  s->who = who;
  s->era = era;
  s->op = o;
  s->mode = (int)o.a;
  s->call = call_name(o.b);
  s->watch = P->p("isolate") && who == 0 && s->mode == 0;
  s->src = mkip(10, 1 + (s->id >> 8), (who + 1) & 255, s->id & 255);
  int back = share_back(4, 0, (size_t)s->id);  // the same host again, or another client at it
  if (back == 1 && curs.count(who)) s->src = curs[who]->src;
  else if (back == 2 && !ss.empty()) s->src = ss.back()->src;
  s->t_conn = now();
  s->must_refuse = shutdown_done;
  s->expect = s->mode == 0 ? (permitted(s->call) ? E_SERVE : E_BADAUTH) : E_END;
  if (s->mode != 0) s->expect = E_HANG;  // decided when the answer is sent
  ss.push_back(s);
  curs[who] = s;
  act();
  last_change = now();
  std::vector<Sess*>* dummy = nullptr;
  (void)dummy;
  s->c = actor_connect(s->src, mkip(10, 0, 0, 1), tcp_port,
    [s](Sock* k) {
      act();
      tlog("%s is connected", sdesc(s).c_str());
      s->up = true;
      s->t_up = now();
      if (s->mode == 10) { do_send(s, s->call + "\n" + std::string(16, 'e')); s->sent_auth = true; s->t_auth = now(); s->expect = E_BADPW; }
      if (s->watch) post(6 * SEC + slack, [s] { if (!s->challenged && s->live()) in_time(s, "C29:login", "its challenge", s->t_up); });
      if (s->mode == 14) { s->self_end = true; s->t_self = now(); actor_rst(k); }
    },
    [s](int) { s->failed = true; s->ended = true; s->t_end = now(); act(); });
  s->c->userp = s;
  s->c->user = (uint64_t)s->id;
  s->c->on_data = [s](Sock*, const char* d, size_t n) { if (!s->vanished) client_data(s, d, n); };
  s->c->on_end = [s](Sock*, int k) { session_over(s, k); };
  return s;
}
// ---- remote hosts ---------------------------------------------------------------------------------------------------
static void remote_send(Ep* e, size_t n) {
  if (!e->r || e->r->st != T_EST || e->rfin || e->rrst || e->r_end || e->r->wshut) return;
  std::string d = gen_bytes(hash64(e->dst, 99), e->from.size(), n);
  if (e->from.size() >= n && again((int)(e->from.size() & 0xffff)) != (int)(e->from.size() & 0xffff)) d = e->from.substr(e->from.size() - n);
  e->from += d;
  if (e->s->watch) e->lat_from.push_back({e->from.size(), now()});
  act();
  actor_send(e->r, d);
}
static void remote_end(Ep* e, int how) {
  if (!e->r || e->rfin || e->rrst || e->r->st != T_EST || e->r->wshut) return;
  act();
  e->t_rend = now();
  if (how == 1) { e->rfin = true; actor_fin(e->r); }
  else { e->rrst = true; actor_rst(e->r); }
}
static void ep_pause(Ep* e, Time t, size_t buf) {
  Sock* k = e->r;
  pauses++;
  actor_pause(k, true);
  if (buf) k->rcvbuf = buf;
  post(t, [k] { pauses--; act(); actor_pause(k, false); });
}
// some session waits for a remote host which does not read
static bool held_up() {
  for (auto s : ss) if (!s->ended && !s->sclosed) for (auto e : s->eps) if (e->r && e->r->paused && e->ss && !e->ss->closed && e->ss->snd.size() >= e->ss->sndbuf) return true;
  return false;
}
static Route on_route(Sock* k, IP to, uint16_t port) {
  IP dst = logical(to);
  if (kind_of(dst) != 40) return Route{1, 0, nullptr};
  Sess* s = by_id(id_of(dst));
  if (!s || (dst & 0xffff) >= s->eps.size()) return Route{1, 0, nullptr};
  Ep* e = s->eps[dst & 0xffff];
  while (e->same && e->same->attempts) e = e->same;
  e->ss = k;
  Route r;
  r.mode = e->mode;
  r.delay = e->delay;
  r.up = [e](Sock* c) {
    e->r = c;
    if (e->pause_for) ep_pause(e, e->pause_for, e->pause_buf);
    act();
    c->on_data = [e](Sock*, const char* d, size_t n) {
      act();
      if (e->s->hostile) return;
      if (e->got + n > e->to.size() || memcmp(d, e->to.data() + e->got, n)) { violate("C06:data", "%s: the remote host of connection %d received %zu bytes at offset %zu that the client did not send it (it sent %zu)", sdesc(e->s).c_str(), e->k, n, e->got, e->to.size()); return; }
      e->got += n;
      in_time(e->s, "C29:data", "delivering bytes to its remote host", e->lat_to, e->got);
      stats->probes[14]++;
    };
    c->on_end = [e](Sock* c, int kind) {
      act();
      e->r_end = kind + 1;
      if (kind == 0 && c->st == T_EST && !c->wshut) actor_fin(c);
    };
    post(e->delay, [e] {
      if (e->rbytes) {
        // in a few pieces
        size_t left = e->rbytes;
        Time t = 0;
        int pieces = 0;
        while (left) {
          size_t n = std::min<size_t>(left, 1 + hash64(e->dst, left) % 9000);
          busy_ops++;
          post(t, [e, n] { busy_ops--; remote_send(e, n); });
          left -= n;
          t += (Time)(hash64(e->dst + 1, left) % (30 * MS));
          if (++pieces > 30) break;
        }
        if (e->rend) { busy_ops++; post(t + (Time)(hash64(e->dst, 5) % 3 == 0 ? 0 : hash64(e->dst, 6) % (200 * MS)), [e] { busy_ops--; remote_end(e, e->rend); }); }
      } else if (e->rend) { remote_end(e, e->rend); }
    });
  };
  return r;
}
static void on_connecting(Sock* k, IP to, uint16_t port) {
  if (to == REG) return;
  act();
  IP dst = logical(to);
  Sess* s = kind_of(dst) == 40 ? by_id(id_of(dst)) : nullptr;
  if (!s || (dst & 0xffff) >= s->eps.size()) {
    if (any_hostile() || (to >> 24) == 10) return;
    violate("C06:foreign", "a connection to %s:%d was attempted, which nobody asked for", ipstr(to).c_str(), port);
    return;
  }
  need_eligible(s, "a TCP connection opened");
  Ep* e = s->eps[dst & 0xffff];
  while (e->attempts && e->same) { e = e->same; stats->probes[63]++; }
  if (port != 5200) violate("C06:port", "%s: connection to port %d", sdesc(s).c_str(), port);
  if (++e->attempts > 1) violate("C06:attempts", "%s: %d connection attempts for one request", sdesc(s).c_str(), e->attempts);
  for (int i = 0; i < e->k; i++)
    if (!s->eps[i]->attempts && !rfaults()) violate("C06:order", "%s: connection %d attempted before connection %d", sdesc(s).c_str(), e->k, i);
  note_lip(s, k->lip, "C09:addr-tcp");
}

// ---- registrar -------------------------------------------------------------------------------------------------------
struct RegConn { std::string in; bool done = false; int mode = 0; Time delay = 0; };
static const char* reg_name; static const char* reg_comment; static const char* pub_addr;
static void reg_body(const std::string& b) {
  auto bad = [&](const char* why) { violate("C14:body", "registration report is wrong (%s): %s", why, b.substr(0, 400).c_str()); };
  std::string pre = std::string("name=") + reg_name + "&comment=" + (reg_comment ? reg_comment : "");
  if (b.compare(0, pre.size(), pre)) return bad("name and comment");
  size_t i = pre.size();
  Report r;
  r.t = now();
  r.body = b;
  r.br = false;
  r.used = r.total = -1;
  r.answered = false;
  if (b.compare(i, 2, " [") == 0) {
    char* e;
    const char* q = b.c_str() + i + 2;
    if (!isdigit((unsigned char)*q)) return bad("used slots");
    r.used = strtol(q, &e, 10);
    if (*e != '/' || !isdigit((unsigned char)e[1])) return bad("slots");
    r.total = strtol(e + 1, &e, 10);
    if (*e != ']') return bad("slots");
    r.br = true;
    i = (size_t)(e + 1 - b.c_str());
    if (r.total == 1) return bad("slots of a single-slot proxy");
    if (r.used < 0 || r.used > N || (r.total != N && r.total != 0)) return bad("slot numbers");
  } else if (N != 1) return bad("slots missing");
  std::string pub = std::string("&public=") + (password == "PUBLIC" ? "Y" : "N") + "&status=";
  if (b.compare(i, pub.size(), pub)) return bad("public flag");
  i += pub.size();
  for (const char* st : {"Ready", "Busy", "Off"})
    if (b.compare(i, strlen(st), st) == 0) r.status = st;
  if (r.status.empty()) return bad("status");
  i += r.status.size();
  std::string pa = pub_addr ? pub_addr : "";
  std::string suf = "&a=" + pa + "&d=" + hexup(md5x(std::string(reg_name) + pa + "#5A!zu")) + "&p=" + std::to_string(tcp_port) + "&v=1.2.3o";
  if (b.substr(i) != suf) return bad("address, digest, port or version");
  if (r.br && r.status != "Off") {
    const char* want = r.used >= r.total ? "Busy" : "Ready";
    if (r.status != want) return bad("status does not match the slots");
  }
  reports.push_back(r);
  stats->probes[15]++;
}
static const char reg_hdr[] = "POST /proxypost.jsp HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nCache-Control: no-cache\r\nPragma: no-cache\r\nUser-Agent: OpenELP/";
static void reg_data(Sock* c, RegConn* rc, const char* d, size_t n) {
  rc->in.append(d, n);
  if (!reg_name) { violate("C14:unwanted", "something is sent to the registrar although no name is configured"); return; }
  size_t m = std::min(rc->in.size(), sizeof reg_hdr - 1);
  if (rc->in.compare(0, m, reg_hdr, m)) { violate("C14:http", "registration request is not the expected POST: %s", rc->in.substr(0, 80).c_str()); return; }
  size_t he = rc->in.find("\r\n\r\n");
  if (he == std::string::npos) { if (rc->in.size() > 2000) violate("C14:http", "registration request header does not end"); return; }
  size_t cl = rc->in.find("\r\nContent-Length: ");
  size_t hp = rc->in.find("\r\nHost: www.echolink.org\r\n");
  if (cl == std::string::npos || cl > he || hp == std::string::npos || hp > he) { violate("C14:http", "registration request has no Content-Length or Host"); return; }
  size_t len = strtoul(rc->in.c_str() + cl + 18, nullptr, 10);
  if (rc->in.size() > he + 4 + len) { violate("C14:length", "registration request body is longer than its Content-Length %zu: %s", len, rc->in.substr(he + 4, 300).c_str()); return; }
  if (rc->in.size() < he + 4 + len || rc->done) return;
  rc->done = true;
  reg_body(rc->in.substr(he + 4));
  int mode = rc->mode;
  if (mode == 0 || mode == 11 || mode == 12) {
    size_t ri = reports.size() - 1;
    post(rc->delay, [c, mode, ri] {
      if (c->st != T_EST) return;
      if (!reports.empty()) reports[ri].answered = true;
      std::string a = "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n";
      actor_send(c, a);
      (void)mode;
      post(50 * MS, [c] { actor_fin(c); });
    });
  } else if (mode == 7) { actor_send(c, gen_bytes(77, 0, 5000)); post(100 * MS, [c] { actor_fin(c); }); }
  else if (mode == 8) { actor_send(c, "HTTP/1.1"); post(100 * MS, [c] { actor_fin(c); }); }
  else if (mode == 10) { actor_send(c, "HTTP/1.1 500 Oops\r\n\r\n"); post(100 * MS, [c] { actor_fin(c); }); }
  else if (mode == 13) actor_rst(c);
  // mode 5: silence
}
static Route reg_route(Sock* k, IP dst, uint16_t port) {
  Route r;
  if (port != 80) violate("C14:port", "registration uses port %d", port);
  int m = regmode;
  if (m == 1 || m == 2 || m == 3) { r.mode = m; return r; }
  r.mode = 0;
  r.delay = 0;
  Time dl = regdelay;
  r.up = [m, dl](Sock* c) {
    RegConn* rc = new RegConn;
    rc->mode = m;
    rc->delay = dl;
    c->on_data = [rc](Sock* c, const char* d, size_t n) { reg_data(c, rc, d, n); };
    c->on_end = [](Sock* c, int kind) { if (kind == 0 && c->st == T_EST && !c->wshut) actor_fin(c); };
    if (m == 6) post(20 * MS, [c] { actor_rst(c); });
    if (m == 11) { c->paused = true; c->rcvbuf = 64; post(20 * SEC, [c] { actor_pause(c, false); }); }
    if (m == 14) { c->paused = true; c->rcvbuf = 64; }   // never reads
  };
  return r;
}
static void set_regmode(int m, Time d) {
  if (regmode != 0) reg_bad_until = now();
  regmode = m;
  regdelay = d;
  reg_since = now();
  if (m != 0 || d > 5 * SEC) reg_bad_until = NEVER;
  else if (reg_bad_until == NEVER) reg_bad_until = now();
}
static int in_use() { int n = 0; for (auto s : ss) if (s->accepted && !s->sclosed) n++; return n; }
// sessions which are admitted; one which has not authenticated yet may or may not be counted
static int served_now() { int n = 0; for (auto s : ss) if (s->accepted && !s->sclosed && (s->eligible() || s->hostile) && s->evidence) n++; return n; }

// ---- operations --------------------------------------------------------------------------------------------------------
static void exec_client_op(int who, const Op& o);
static std::map<int, size_t> opi;
static bool stop_ops = false;
static void next_op(int who);
static void sched_next(int who, Time extra = 0) {
  auto& v = cops[who];
  size_t i = opi[who];
  if (i >= v.size() || stop_ops) { busy_ops--; return; }
  post(v[i].gap + extra, [who] { next_op(who); });
}
static bool conn_settled(Sess* s) { return s->ended || s->failed || s->self_end || s->sent_auth || (s->challenged && (s->mode == 10 || s->mode == 14)); }
static void wait_conn(int who, Sess* s, Time deadline) {
  if (conn_settled(s) || now() > deadline || stop_ops) { sched_next(who); return; }
  post(5 * MS, [=] { wait_conn(who, s, deadline); });
}
static void next_op(int who) {
  auto& v = cops[who];
  if (stop_ops) { busy_ops--; return; }
  const Op& o = v[opi[who]++];
  stats->ops++;
  exec_client_op(who, o);
}
static void client_end(Sess* s, int how) {
  if (!s || s->self_end || s->ended || !s->c) return;
  act();
  s->self_end = true;
  s->t_self = now();
  last_change = now();
  tlog("%s: client %s", sdesc(s).c_str(), how == 0 ? "closes" : how == 1 ? "resets" : "vanishes");
  if (how == 0) { actor_pause(s->c, false); actor_fin(s->c); }
  else if (how == 1) { s->rst = true; actor_rst(s->c); s->up = false; s->ended = true; s->t_end = now(); }
  else { s->vanished = true; actor_vanish(s->c); s->up = false; s->ended = true; s->t_end = now(); }
  if (s->c->st == T_DEAD && how == 0) { s->ended = true; s->up = false; s->t_end = now(); }
}
static void send_udp(Sess* s, int type, size_t size) {
  Msg m;
  m.type = type;
  size_t mi = s->msgs.size();
  m.base = mi;
  int back = share_back(1, (uint64_t)s->id, mi);
  if (back && (size_t)back <= mi && shareable(size) && s->expect == E_SERVE) {
    const Msg& q = s->msgs[mi - back];
    if (shareable(q.size) && q.base + MAXSHARE > mi) m.base = q.base;
  }
  m.dst = addr_of(20, s->id, m.base);
  m.size = size;
  m.key = hash64(addr_of(20, s->id, mi), size + (uint64_t)type);
  if (m.base != mi) {  // the very same message again
    const Msg& q = s->msgs[mi - back];
    if (q.size == size && q.type == type && m.key % 3 == 0) m.key = q.key;
  }
  m.pos = 0;
  m.alt = -1;
  m.done = m.failed = false;
  m.t = now();
  s->msgs.push_back(m);
  if (s->expect != E_SERVE) s->extra = true;
  do_send(s, frame(type, wire(m.dst), gen_bytes(m.key, 0, size)));
}
static void inject(IP dst, uint16_t port, size_t size) {
  Inj j;
  int ji = (int)injs.size();
  j.base = ji;
  int back = share_back(2, 0, (size_t)ji);
  if (back && back <= ji && size >= 16) {
    const Inj& q = injs[ji - back];
    if (q.size >= 16 && peers[q.base].size() < MAXSHARE) {
      j.base = q.base;
      auto& v = peers[q.base];
      if (v.empty()) v.push_back(q.base);
      v.push_back(ji);
    }
  }
  j.src = mkip(30, 0, 0, 0) | (IP)j.base;
  j.dst = dst;
  j.port = port;
  j.size = size;
  j.key = hash64(mkip(30, 0, 0, 0) | (IP)ji, size);
  if (j.base != ji) {
    const Inj& q = injs[ji - back];
    if (q.size == size && q.dst == dst && q.port == port && j.key % 3 == 0) j.key = q.key;
  }
  j.t = now();
  injs.push_back(j);
  uint64_t tag = injs.size() - 1;
  udp_inject(dst, port, wire(j.src), (uint16_t)(1024 + tag), gen_bytes(j.key, 0, size), tag);
}
static Ep* last_ep(Sess* s) { return s->eps.empty() ? nullptr : s->eps.back(); }
static void raw_op(Sess* s, const Op& o);
static void exec_client_op(int who, const Op& o) {
  Sess* s = curs.count(who) ? curs[who] : nullptr;
  if (o.kind == O_CONN) {
    if (s && !s->ended && !s->self_end) client_end(s, 0);
    s = new_session(who, o);
    if (!s) { sched_next(who); return; }
    wait_conn(who, s, now() + 40 * SEC + slack);
    return;
  }
  if (o.kind == O_WAIT) { sched_next(who, o.a); return; }
  if (!s || !s->up || s->self_end || s->ended) { sched_next(who); return; }
  // who waited too long to be admitted does not talk before answering the challenge
  if (s->expect == E_SERVE && !s->sent_auth && (o.kind == O_UDP || o.kind == O_OPEN || o.kind == O_TDATA || o.kind == O_TCLOSE)) { sched_next(who); return; }
  Ep* e = last_ep(s);
  switch (o.kind) {
    case O_UDP:
      for (int i = 0; i < o.c && s->msgs.size() < 100000; i++) send_udp(s, o.a ? 5 : 6, (size_t)std::max<int64_t>(1, o.b));
      break;
    case O_OPEN: {
      if (s->eps.size() > 60000) break;
      Ep* n = new Ep;
      n->s = s;
      n->k = (int)s->eps.size();
      n->dst = addr_of(40, s->id, (size_t)n->k);
      int back = share_back(3, (uint64_t)s->id, (size_t)n->k);
      if (back && back <= n->k && !resource) {
        Ep* q = s->eps[n->k - back];
        while (q->same) q = q->same;
        n->dst = q->dst;
        q->same = n;
      }
      n->mode = (int)(o.a & 7);
      n->delay = o.b;
      n->rbytes = (size_t)o.c;
      n->rend = (int)o.d;
      n->t_req = now();
      if (e) { e->superseded = true; e->t_sup = now(); }
      s->eps.push_back(n);
      if (s->expect != E_SERVE) s->extra = true;
      do_send(s, frame(1, wire(n->dst), ""));
      break;
    }
    case O_TDATA:
      for (int i = 0; i < o.b; i++) {
        size_t n = (size_t)std::max<int64_t>(1, o.a);
        std::string d = gen_bytes(hash64(s->id * 1000 + (e ? e->k : 999), again(s->ctr++)), 0, n);
        if (s->expect != E_SERVE) s->extra = true;
        if (!e) s->ndata0++;
        else {
          e->ndata++;
          if (e->cclosed || e->closes) e->ndata_closed++;
          else { e->to += d; if (s->watch) e->lat_to.push_back({e->to.size(), now()}); }
        }
        do_send(s, frame(2, 0, d));
      }
      break;
    case O_TCLOSE:
      if (e) e->cclosed = true;
      if (s->expect != E_SERVE) s->extra = true;
      do_send(s, frame(3, 0, ""));
      break;
    case O_PAUSE:
      if (!s->paused) {
        s->paused = true;
        pauses++;
        actor_pause(s->c, true);
        post(o.a, [s] { s->paused = false; pauses--; act(); actor_pause(s->c, false); });
      }
      break;
    case O_RAW: raw_op(s, o); break;
    case O_END: client_end(s, (int)o.a); break;
    case O_RSEND: if (e) remote_send(e, (size_t)o.a); break;
    case O_REND: if (e) remote_end(e, (int)o.a); break;
    case O_RPAUSE:
      if (e && e->r && !e->r->paused) ep_pause(e, o.a, (size_t)o.b);
      else if (e && !e->r) { e->pause_for = o.a; e->pause_buf = (size_t)o.b; }
      break;
    default: break;
  }
  sched_next(who);
}
static void raw_op(Sess* s, const Op& o) {
  Rng r;
  r.seed(hash64((uint64_t)o.b, 4242));
  std::string d;
  s->extra = true;
  s->hostile = true;
  stats->probes[16]++;
  IP junk = mkip(66, (int)r.below(256), (int)r.below(256), (int)r.below(256));
  int type = (int)(1 + r.below(6));
  switch (o.a) {
    case 0: for (int i = 0; i < o.c; i++) d += (char)r.below(256); if (!d.empty()) d[0] = (char)(7 + r.below(249)); break;
    case 1: d = frame(r.chance(0.3) ? 0 : (int)(7 + r.below(249)), junk, gen_bytes(1, 0, (size_t)o.c % 300)); break;
    case 2: d = frame(1, junk, gen_bytes(2, 0, 1 + (size_t)o.c % 100)); break;
    case 3: d = frame(5 + (int)r.below(2), junk, gen_bytes(3, 0, (size_t)o.c), 0xffffffffll - (int64_t)r.below(3) * 0x7fffffff); break;
    case 4: for (int i = 0; i < 6; i++) d += frame((int)(2 + r.below(5)), junk, ""); break;
    case 5: d = frame(type, junk, gen_bytes(4, 0, 20), 30 + (int)r.below(5000)); break;
    case 6: d = frame(2, 0, gen_bytes(5, 0, (size_t)o.c), o.c); break;
    case 7: { IP dst[] = {0, 0xffffffff, mkip(10, 0, 0, 1), mkip(127, 0, 0, 1), slots[0]}; d = frame(r.chance(0.4) ? 1 : 5, dst[r.below(5)], r.chance(0.5) ? "abc" : ""); if (d[0] == 1) d = frame(1, dst[r.below(5)], ""); break; }
    case 8: { for (int i = 0; i < 1 + (int)r.below(12); i++) { int t = (int)(1 + r.below(6)); d += frame(t, junk, t == 1 || t == 3 ? "" : gen_bytes(6, 0, r.below(5000))); } break; }
    case 9: d = frame(4, junk, gen_bytes(7, 0, r.below(20))); break;
    default: d = frame(type, junk, gen_bytes(8, 0, (size_t)o.c)); break;
  }
  do_send(s, d);
}
static void injector(size_t i) {
  if (i >= iops.size() || stop_ops) { busy_ops--; return; }
  post(iops[i].gap, [i] {
    if (stop_ops) { busy_ops--; return; }
    const Op& o = iops[i];
    stats->ops++;
    IP to = slots[o.a % slots.size()];
    bool any = true;
    if (P->p("isolate")) {  // the measured client gets its own datagrams, and no flood
      auto b = curs.find(0);
      Sess* w = b != curs.end() && b->second->watch && !b->second->ended && !b->second->self_end ? b->second : nullptr;
      if (o.a >= 1000) { any = w && w->lip_known; if (any) to = w->lip; }
      else any = !w || (w->lip_known && w->lip != to);
    }
    for (int k = 0; k < o.d && any; k++) inject(to, o.b ? 5198 : 5199, (size_t)o.c);
    injector(i + 1);
  });
}

// ---- checks at rest --------------------------------------------------------------------------------------------------
static Time op_time;   // what the operations may take
static bool conn_pending() {
  for (auto s : ss) for (auto e : s->eps) if (e->ss && !e->ss->closed && e->ss->st == T_SYN_SENT) return true;
  for (auto s : ss) if (!s->ended && s->c && s->c->st == T_SYN_SENT) return true;
  return false;
}
static bool settled() { return busy_ops == 0 && pauses == 0 && now() - last_act > 10 * SEC + slack && !conn_pending(); }
static bool until(std::function<bool()> f, Time t) {
  Time end = now() + t, step = 2 * MS;
  while (!f()) {
    if (now() >= end) return false;
    sleep_until(now() + step, "waiting (harness)");
    if (step < 500 * MS) step = step * 3 / 2;
  }
  return true;
}
static void settle(const char* what) {
  if (!until([] { return settled(); }, 3000 * SEC + slack + op_time)) {
    std::string o;
    for (auto s : ss) if (!s->ended) o += " s" + std::to_string(s->id);
    fatal_violation("*:unsettled", "activity does not cease %s: ops %d pauses %d last %lld%s\n%s", what, busy_ops, pauses, (long long)last_act, o.c_str(), fiber_dump().c_str());
  }
}
static bool excused(Sess* s) {
  if (s->hostile || s->maybe || rfaults() || (s->ss && s->ss->faulted)) return true;
  return false;
}
static bool udp_faulted(Sess* s) {
  for (auto& u : us) if (u.second.s->faulted && (u.second.owner == s || !u.second.owner)) return true;
  return false;
}
static void check_rest() {
  // sessions alive and expected to be served are probed in both directions
  std::vector<Sess*> v;
  for (auto s : ss)
    if (s->live() && s->eligible() && !s->hostile && !s->must_refuse) {
      if (s->sclosed) continue;
      v.push_back(s);
      send_udp(s, 5, 40);
      send_udp(s, 6, 33);
    }
  if (!v.empty()) settle("after probing");
  for (auto s : v) {
    settle_failed(s);
    if (s->ended || excused(s)) continue;
    if (!s->evidence && !s->admit) continue;
    bool all = true;
    for (auto& m : s->msgs) if (!msg_complete(m)) all = false;
    if (!all) {
      size_t i = 0;
      while (msg_complete(s->msgs[i])) i++;
      if (!s->evidence) violate("SERVE:unserved", "%s was admitted but nothing it sent was relayed", sdesc(s).c_str());
      else if (i > 0 && i + 2 >= s->msgs.size() && s->msgs[i].pos == 0) violate("C04:stuck", "%s: the proxy stopped relaying its messages (message %zu of %zu)\n%s", sdesc(s).c_str(), i, s->msgs.size(), fiber_dump().c_str());
      else violate("C04:lost", "%s: message %zu of %zu (%zu bytes, type %d) was relayed only up to byte %zu", sdesc(s).c_str(), i, s->msgs.size(), s->msgs[i].size, s->msgs[i].type, s->msgs[i].pos);
    }
    if (s->lip_known) { inject(s->lip, 5198, 50); inject(s->lip, 5199, 51); }
  }
  if (!v.empty()) settle("after probing");
  for (auto s : v) {
    if (s->ended || excused(s) || !s->lip_known) continue;
    int have = 0;
    for (auto& kv : us) {
      US& u = kv.second;
      if (u.owner != s || u.closed) continue;
      have++;
      for (size_t i = u.next; i < u.q.size(); i++) {
        Inj& j = injs[u.q[i]];
        if (!j.dropped && j.size > 0 && !j.delivered) violate("C05:lost", "%s: datagram %zu of %zu (%zu bytes) that arrived on port %d was not delivered\n%s", sdesc(s).c_str(), i, u.q.size(), j.size, j.port, fiber_dump().c_str());
      }
    }
    if (have < 2) violate("C05:closed", "%s is connected but only %d of its two UDP ports are open", sdesc(s).c_str(), have);
  }
  // messages of clients that closed after sending
  for (auto s : ss) {
    settle_failed(s);
    if (!s->eligible() || !s->evidence || excused(s) || udp_faulted(s) || !s->self_end || s->c->link_dead || s->c->st == T_DEAD || !s->sclosed) continue;
    if (s->endkind != 0 || !s->ended) continue;
    bool tcp = false;
    for (auto e : s->eps) { (void)e; tcp = true; }
    if (tcp) continue;
    for (size_t i = 0; i < s->msgs.size(); i++)
      if (!msg_complete(s->msgs[i])) violate("C04:lost", "%s closed after sending %zu messages; message %zu was not relayed", sdesc(s).c_str(), s->msgs.size(), i);
  }
  // TCP
  for (auto s : ss) {
    bool ok = s->live() && s->eligible() && !excused(s) && (s->evidence || s->admit) && !s->sclosed;
    for (auto e : s->eps) {
      bool faulted = e->ss && e->ss->faulted;
      if (e->r && !e->r_end && !e->rrst && !s->hostile && e->r->st == T_EST && !faulted) {
        bool should = ((e->cclosed || e->superseded) && !s->vanished) || s->sclosed;
        if (should && !(e->r->wshut && e->r->st != T_EST)) violate("C06:notclosed", "%s: connection %d should have been closed (%s) but the remote host still has it open", sdesc(s).c_str(), e->k, e->cclosed ? "client asked" : e->superseded ? "another was opened" : "session ended");
      }
      if (!ok) continue;
      if (!e->status) violate("C06:nostatus", "%s: no status message for connection %d\n%s", sdesc(s).c_str(), e->k, fiber_dump().c_str());
      if (e->attempts != 1) violate("C06:attempts", "%s: %d connection attempts for request %d", sdesc(s).c_str(), e->attempts, e->k);
      if (!e->connected) {
        if (e->closes < e->ndata) violate("C06:noclose", "%s: %d data messages on a failed connection but %d close messages", sdesc(s).c_str(), e->ndata, e->closes);
        continue;
      }
      if (faulted) continue;
      bool silent = e->from.empty();
      if (e->got != e->to.size()) {
        bool must = (!e->rfin && !e->rrst && !e->superseded && (!e->cclosed || silent)) || (e->superseded && !e->rfin && !e->rrst && silent);
        if (must) violate("C06:lost", "%s: the remote host of connection %d received %zu of %zu bytes", sdesc(s).c_str(), e->k, e->got, e->to.size());
      }
      bool last = e == s->eps.back();
      if (e->del != e->from.size() && !e->rrst && !e->cclosed && !e->superseded) violate("C07:lost", "%s: %zu of %zu bytes of the remote host reached the client on connection %d (remote closed %d)", sdesc(s).c_str(), e->del, e->from.size(), e->k, e->rfin);
      if (last) {
        int least = e->ndata_closed + (e->cclosed || e->rfin || e->rrst ? 1 : 0);
        if (e->closes < least) violate("C07:noclose", "%s: connection %d is over (remote ended %d, client closed %d) but %d close messages arrived, expected %d", sdesc(s).c_str(), e->k, e->rfin || e->rrst, e->cclosed, e->closes, least);
      }
    }
    if (ok && s->closes0 < s->ndata0) violate("C06:noclose", "%s: data with no connection open was not answered with a close message", sdesc(s).c_str());
    if (ok && !s->buf.empty()) violate("C08:partial", "%s: an incomplete message of %zu bytes is left", sdesc(s).c_str(), s->buf.size());
  }
}
// ---- sessions vanish -----------------------------------------------------------------------------------------------------
static void check_ends() {  // every session whose client is gone must be over
  Time limit = 0;
  for (auto s : ss) {
    if (!s->accepted || s->sclosed) continue;
    if (s->vanished) limit = std::max(limit, s->t_self + 13 * MINUTE + 20 * SEC + slack);
    else if (s->self_end || s->ended) limit = std::max(limit, now() + 150 * SEC + slack);
  }
  auto over = [] {
    for (auto s : ss) if (s->accepted && !s->sclosed && (s->self_end || s->ended)) return false;
    return true;
  };
  if (limit <= now()) { if (over()) return; limit = now() + 1 * SEC; }
  until(over, limit - now());
  for (auto s : ss)
    if (s->accepted && !s->sclosed && (s->self_end || s->ended)) {
      if (s->vanished) {
        if (s->ss && (!s->ss->snd.empty() || s->ss->rto_at)) {
          if (!until([s] { return s->sclosed; }, std::max<Time>(0, s->ss->rto_at + 30 * SEC + slack - now()) + 1)) violate("C26:held", "%s vanished with data pending %lld s ago and its session is still there\n%s", sdesc(s).c_str(), (long long)((now() - s->t_self) / SEC), fiber_dump().c_str());
        } else violate("C26:held", "%s vanished %lld s ago and its session is still there (authenticated %d)\n%s", sdesc(s).c_str(), (long long)((now() - s->t_self) / SEC), s->sent_auth, fiber_dump().c_str());
      } else violate("C10:stuck", "%s ended %lld s ago but the proxy still holds it\n%s", sdesc(s).c_str(), (long long)((now() - std::max(s->t_self, s->t_end)) / SEC), fiber_dump().c_str());
    }
}
// N clients at once after everything is over, and one too many
static void recovery(const char* cls, const char* when) {
  faults_on = false;
  net.fd_limit = wide ? 5000 : 256;
  std::vector<Sess*> v;
  int base = wide ? 1000 + phase * 1000 : 100 + phase * 20;
  sleep_until(now() + 4 * SEC + slack, "recovery");
  bool over = true;
  for (auto s : ss) if ((s->accepted && !s->sclosed) || (!s->accepted && !s->ended)) over = false;
  if (over) {
    int lim = 1 + (reg_name != nullptr);        // the listener, and a report under way
    if (open_socks() > lim) violate("C10:descriptors", "%s: no client is connected but descriptors of sessions are still open:%s", when, fd_dump().c_str());
  }
  if (reconfigured && phase) {   // what was right before may be wrong now
    for (int k = 0; k < 3; k++) {
      Op o;
      int at = -1;
      for (int i = 0, j = (int)(hash64(cfg.seed, 40 + (uint64_t)k) % (uint64_t)ncalls); i < ncalls && at < 0; i++) if (permitted(calls[(i + j) % ncalls]) == (k == 1)) at = (i + j) % ncalls;
      if (at < 0) continue;
      o.b = at;
      o.a = k == 1 ? 20 : 0;
      Sess* s = new_session(base + 10 + k, o);
      if (!s) return;
      until([s] { return s->ended || (s->sent_auth && s->expect == E_SERVE); }, 60 * SEC + slack);
      if (!s->ended && s->expect != E_SERVE) violate("C28:refused", "%s: %s should have been refused by the new configuration", when, sdesc(s).c_str());
      if (!s->ended) { client_end(s, 0); until([s] { return s->sclosed; }, 60 * SEC + slack); }
    }
    sleep_until(now() + 4 * SEC + slack, "recovery");
  }
  int c0 = 0;
  while (c0 < ncalls && !permitted(calls[c0])) c0++;
  if (c0 == ncalls) return;                      // nobody may be served
  for (int i = 0; i < N; i++) {
    Op o;
    o.a = 0;
    while (!permitted(calls[c0 % ncalls])) c0++;
    o.b = c0++ % ncalls;
    Sess* s = new_session(base + i, o);
    if (!s) return;
    v.push_back(s);
    until([s] { return s->sent_auth || s->ended; }, 30 * SEC + slack);
    if (!s->sent_auth) violate(cls, "%s: client %d of %d simultaneous clients was not admitted (%s)\n%s", when, i + 1, N, s->ended ? "disconnected" : "no challenge", fiber_dump().c_str());
    send_udp(s, 5, 20);
    send_udp(s, 6, 20);
    until([s] { return s->ended || (s->msgs[0].done && s->msgs[1].done); }, 30 * SEC + slack);
    if (s->ended || !s->msgs[0].done || !s->msgs[1].done) violate(cls, "%s: client %d of %d simultaneous clients was not served (%s)\n%s", when, i + 1, N, s->ended ? "disconnected" : "nothing relayed", fiber_dump().c_str());
    inject(s->lip, 5198, 30);
    inject(s->lip, 5199, 31);
  }
  size_t j0 = injs.size() - 2 * (size_t)N;
  if (!until([j0] { for (size_t i = j0; i < injs.size(); i++) if (!injs[i].delivered) return false; return true; }, 30 * SEC + slack))
    violate(cls, "%s: a datagram for one of %d simultaneous clients was not delivered\n%s", when, N, fiber_dump().c_str());
  Op o;
  o.b = 20;
  for (int i = 0; i < ncalls; i++) if (permitted(calls[i])) { o.b = i; break; }
  Sess* x = new_session(base + N, o);
  if (x) {
    until([x] { return x->ended; }, 60 * SEC + slack);
    if (!x->ended) violate("C09:over", "%s: client %d of a proxy with %d addresses was not disconnected\n%s", when, N + 1, N, fiber_dump().c_str());
  }
  stats->probes[17]++;
}
static void end_all(Rng& r) {
  for (auto s : ss) if (!s->ended && !s->self_end) client_end(s, r.chance(0.7) ? 0 : 1);
}
// The same rounds of use again and again: what the proxy holds while nobody is connected must not grow
struct Held { size_t n, bytes; int threads, fds; };
static Held held() {
  Held h{~(size_t)0, ~(size_t)0, 1 << 30, 1 << 30};
  for (int i = 0; i < (reg_name ? 8 : 1); i++) {   // a report may be under way
    if (i) sleep_until(now() + 2 * SEC, "control");
    h.n = std::min(h.n, heap_live_count());
    h.bytes = std::min(h.bytes, heap_live_bytes());
    h.threads = std::min(h.threads, live_sut_threads());
    h.fds = std::min(h.fds, open_fds());
  }
  return h;
}
static void soak(Rng& r) {
  int rounds = (int)P->p("soak");
  std::vector<Held> h;
  for (int k = 0; k < rounds; k++) {
    if (k) {
      opi.clear();
      for (size_t w = 0; w < cops.size(); w++) if (!cops[w].empty()) { busy_ops++; sched_next((int)w); }
      if (!iops.empty()) { busy_ops++; injector(0); }
    }
    settle("after a round");
    end_all(r);
    check_ends();
    settle("after all sessions of a round ended");
    h.push_back(held());
    tlog("after round %d of %d: %zu allocations of %zu bytes, %d threads, %d descriptors", k + 1, rounds, h[k].n, h[k].bytes, h[k].threads, h[k].fds);
  }
  Held a = h[(size_t)(rounds - 1) / 2], b = h.back();
  stats->probes[62]++;
  if (b.n > a.n || b.bytes > a.bytes + 1024) violate("C30:memory", "after %d rounds of the same use the idle proxy holds %zu allocations of %zu bytes, after %d rounds %zu of %zu:%s", (rounds - 1) / 2 + 1, a.n, a.bytes, rounds, b.n, b.bytes, heap_live_dump().c_str());
  if (b.threads > a.threads) violate("C30:threads", "after %d rounds of the same use the idle proxy has %d threads, after %d rounds %d\n%s", (rounds - 1) / 2 + 1, a.threads, rounds, b.threads, fiber_dump().c_str());
  if (b.fds > a.fds) violate("C30:descriptors", "after %d rounds of the same use the idle proxy has %d open descriptors, after %d rounds %d:%s", (rounds - 1) / 2 + 1, a.fds, rounds, b.fds, fd_dump().c_str());
}
static void leaks(const char* cls, const char* when, int threads) {
  // threads that have been joined are gone; anything else is a leak
  if (live_sut_threads() != threads) violate(cls, "%s: %d threads are left\n%s", when, live_sut_threads() - threads, fiber_dump().c_str());
  if (open_fds() != 0 + (when[0] == '+' ? 1 : 0) && when[0] != '+') violate(cls, "%s: descriptors are left open:%s", when, fd_dump().c_str());
}

// ---- the application -----------------------------------------------------------------------------------------------------
static std::string conf_text() {
  std::string c;
  // the second time, what was given before must be taken back
  auto unset = [&c](const char* k) { if (reconfigured) c += std::string(k) + "=\n"; };
  if (!slots.empty() && !wild) c += "ExternalBindAddress=" + ipstr(slots[0]) + "\n";
  else unset("ExternalBindAddress");
  if (N > 1) {
    c += "AdditionalExternalBindAddresses=";
    for (int i = 1; i < N; i++) c += (i > 1 ? "," : "") + ipstr(slots[i]);
    c += "\n";
  } else unset("AdditionalExternalBindAddresses");
  c += "Password=" + password + "\n";
  if (tcp_port != 8100 || P->p("portline", 1) || reconfigured) c += "Port=" + std::to_string(tcp_port) + "\n";
  if (bind_kind == 0) unset("BindAddress");
  if (bind_kind == 1) c += "BindAddress=10.0.0.1\n";
  if (bind_kind == 2) c += "BindAddress=::\n";
  if (bind_kind == 3) c += "BindAddress=" + v6str(mkip(10, 0, 0, 1)) + "\n";
  if (npat_d) c += std::string("CallsignsDenied=") + denies[npat_d].re + "\n";
  else unset("CallsignsDenied");
  if (npat_a) c += std::string("CallsignsAllowed=") + allows[npat_a].re + "\n";
  else unset("CallsignsAllowed");
  if (reg_name) c += std::string("RegistrationName=") + reg_name + "\n";
  else unset("RegistrationName");
  if (reg_comment) c += std::string("RegistrationComment=") + reg_comment + "\n";
  else unset("RegistrationComment");
  if (pub_addr) c += std::string("PublicAddress=") + pub_addr + "\n";
  else unset("PublicAddress");
  return c;
}
// the proxy listens where it is configured to and nowhere else
static void check_listening(const char* when) {
  IP want = bind_kind == 1 || bind_kind == 3 ? mkip(10, 0, 0, 1) : 0;
  bool v6 = bind_kind >= 2;
  std::string d;
  bool ok = false, other = false;
  for (auto& l : sut_listening()) {
    d += " " + (l.v6 ? "[" + v6str(l.ip) + "]" : ipstr(l.ip)) + ":" + std::to_string(l.port);
    if (l.ip == want && l.port == tcp_port && (l.v6 == v6 || !bind_kind)) ok = true; else other = true;
  }
  if (!ok || other) violate("C28:listen", "%s: the proxy is configured to listen at %s port %d and listens at%s", when, bind_kind == 0 ? "any address" : bind_kind == 1 ? "10.0.0.1" : bind_kind == 2 ? "::" : v6str(mkip(10, 0, 0, 1)).c_str(), tcp_port, d.empty() ? " none" : d.c_str());
  stats->probes[59]++;
}
// another configuration for the time after the proxy was closed
static void reconfigure() {
  static std::string text[4];
  Rng r;
  r.seed((uint64_t)P->p("reconf"));
  old_password = password;
  reconfigured = true;
  N = (int)(r.chance(0.3) ? 1 : r.range(1, 6));
  wild = N == 1 && r.chance(0.3);
  slots.clear();
  int first = r.chance(0.5) ? 1 : (int)r.range(1, 9);
  if (wild) slots = {net.default_ip};
  else for (int i = 0; i < N; i++) slots.push_back(mkip(192, 0, 2, first + i));
  if (!wild && r.chance(0.3)) std::reverse(slots.begin(), slots.end());
  if (r.chance(0.6)) tcp_port = (uint16_t)(r.chance(0.3) ? 8100 : r.range(1024, 65535));
  if (r.chance(0.5)) bind_kind = (int)r.below(4);
  if (r.chance(0.6)) npat_d = r.chance(0.4) ? 0 : (int)r.below(sizeof denies / sizeof *denies);
  if (r.chance(0.6)) npat_a = r.chance(0.4) ? 0 : (int)r.below(sizeof allows / sizeof *allows);
  if (r.chance(0.6)) { text[0] = r.chance(0.7) ? pws[r.below(9)] : gen_text(r.next(), 1 + (size_t)r.below(70)); password = text[0].c_str(); }
  if (r.chance(0.5)) {
    auto t = [&r](int i, const char* dflt) -> const char* {
      if (r.chance(0.6)) return dflt;
      text[i] = gen_text(r.next(), 1 + (size_t)r.below(120));
      return text[i].c_str();
    };
    bool reg = reg_name || P->p("checkreg");
    if (reg) { reg_name = t(1, reg_names[r.below(4)]); reg_comment = t(2, reg_comments[r.below(4)]); pub_addr = t(3, pub_addrs[r.below(3)]); }
  }
  if (r.chance(0.25)) {   // first one with which the proxy cannot be opened
    bool nopw = r.chance(0.3);
    std::string c = conf_text();
    if (nopw) c += "Password=\n";
    else c += r.chance(0.5) ? "CallsignsAllowed=^(K\n" : "CallsignsDenied=[a-\n";
    fs_put("/etc/elp.conf", c);
    int l = proxy_load_conf(ph, "/etc/elp.conf");
    int o = l < 0 ? 0 : proxy_open(ph);
    tlog("a configuration without a %s: load %d, open %d", nopw ? "password" : "valid pattern", l, o);
    if (l >= 0 && o >= 0) { violate("C28:invalid", "the proxy was opened although its configuration has %s", nopw ? "no password" : "an invalid callsign pattern"); proxy_close(ph); }
    if (!sut_listening().empty()) violate("C28:listen", "opening the proxy failed and it listens nevertheless");
  }
  fs_put("/etc/elp.conf", conf_text());
  int l = proxy_load_conf(ph, "/etc/elp.conf");
  if (l < 0) violate("C28:load", "the proxy was closed but configuring it anew failed with %d", l);
}
static void serve_loop() {
  int errs = 0;
  while (!want_close) {
    int r = proxy_process(ph);
    if (want_close) break;
    if (r < 0) {
      proc_errs++;
      if (shutdown_called) {
        main_idle = true;
        // every further call must return as well
        int r2 = proxy_process(ph);
        if (r2 >= 0 && shutdown_done) violate("C13:process", "after a shutdown request the dispatch call returned %d", r2);
        until([] { return want_close; }, NEVER);
        break;
      }
      if (net.fd_limit < 256) errs = 0;
      if (++errs > 300) { violate("SERVE:process", "proxy_process keeps failing with %d", r); break; }
      sleep_until(now() + 20 * MS, "retry");
    } else {
      errs = 0;
      if (shutdown_done) {
        // a connection accepted before the request took effect is turned away with success; the next call must fail
        stats->probes[18]++;
      }
    }
  }
}
static Time close_limit = 600 * SEC;
static void watch_close(int ph0) {
  post(close_limit + slack, [ph0] {
    if (phase == ph0 && closing && !closed_done)
      violate("C12:hang", "closing the proxy has not finished after %lld s\n%s", (long long)((now() - t_close0) / SEC), fiber_dump().c_str());
  });
}
static int api_calls = 0;   // calls from the controller which have not returned
struct Call { Call() { api_calls++; } ~Call() { api_calls--; } };
static bool until(std::function<bool()> f, Time t);
static void app_close() {
  if (!until([] { return api_calls == 0; }, now() + 150 * SEC + slack)) violate("C13:hang", "proxy_shutdown or proxy_drop has not returned after 150 s\n%s", fiber_dump().c_str());
  closing = true;
  closed_done = false;
  t_close0 = now();
  act();
  tlog("closing the proxy");
  watch_close(phase);
  size_t nrep = reports.size();
  uint64_t hf0 = hard_faults();
  proxy_close(ph);
  closed_done = true;
  tlog("proxy closed");
  stats->probes[19]++;
  // only the proxy's own object and its locks may be left
  if (live_sut_threads() != 0) violate("C12:leak", "after closing, %d threads are left\n%s", live_sut_threads(), fiber_dump().c_str());
  if (open_fds() != 0) violate("C12:leak", "after closing, descriptors are left open:%s", fd_dump().c_str());
  if (reg_name && reg_on && hard_faults() == hf0 && reg_bad_until != NEVER && now() > reg_bad_until + 30 * MINUTE) {
    if (reports.size() == nrep || reports.back().status != "Off") violate("C15:off", "the last report after closing is %s", reports.empty() ? "missing" : reports.back().status.c_str());
  }
}
static std::function<void()> ctl_body;
static bool setup_ok = false;
static int try_setup(const char* what, std::function<int()> f) {
  for (int i = 0;; i++) {
    uint64_t f0 = rfaults() + (stats->fault[K_FOPEN] + stats->fault[K_FREAD]);
    int r = f();
    uint64_t fired = rfaults() + (stats->fault[K_FOPEN] + stats->fault[K_FREAD]) - f0;
    tlog("%s: %d (%llu faults)", what, r, (unsigned long long)fired);
    if (r >= 0) return r;
    if (r < -4095) violate("C20:code", "%s failed with %d, which is no error code", what, r);
    if (!fired) violate("C20:spurious", "%s failed with %d although no resource failure was injected (attempt %d)", what, r, i + 1);
    if (i >= 3) faults_on = false;
    if (i >= 30) violate("C20:retry", "%s keeps failing with %d although resources are available again", what, r);
  }
}
void app_main() {
  ph = (struct proxy_handle*)heap_alloc(sizeof *ph, true);
  bool res = P->p("setupfaults") != 0;
  if (!res) faults_on = false;
  auto need = [](const char* w, int r) { if (r < 0) violate("C20:spurious", "%s failed with %d", w, r); };
  bool again = true;
  int tries = 0;
  while (again) {
    again = false;
    if (res) try_setup("proxy_init", [] { return proxy_init(ph); });
    else need("proxy_init", proxy_init(ph));
    proxy_log_level(ph, (enum LOG_LEVEL)P->p("loglevel", 4));
    int medium = (int)P->p("log");
    if (medium == 1) proxy_log_select_medium(ph, LOG_MEDIUM_FILE, "/var/log/elp.log");
    else if (medium == 2) proxy_log_select_medium(ph, LOG_MEDIUM_SYSLOG, nullptr);
    else proxy_log_select_medium(ph, LOG_MEDIUM_NONE, nullptr);
    if (res) {
      if (P->p("restart")) {
        // on failure: free the whole object and begin again
        struct Step { const char* n; std::function<int()> f; } st[] = {{"proxy_load_conf", [] { return proxy_load_conf(ph, "/etc/elp.conf"); }}, {"proxy_open", [] { return proxy_open(ph); }}, {"proxy_start", [] { return proxy_start(ph); }}};
        for (auto& x : st) {
          uint64_t f0 = rfaults() + (stats->fault[K_FOPEN] + stats->fault[K_FREAD]);
          int r = x.f();
          tlog("%s: %d", x.n, r);
          if (r < 0) {
            if (r < -4095) violate("C20:code", "%s failed with %d, which is no error code", x.n, r);
            if (rfaults() + (stats->fault[K_FOPEN] + stats->fault[K_FREAD]) == f0) violate("C20:spurious", "%s failed with %d although no resource failure was injected", x.n, r);
            proxy_free(ph);
            if (heap_live_count() != 1) violate("C20:leak", "after a failed %s and freeing, %zu allocations are left:%s", x.n, heap_live_count() - 1, heap_live_dump().c_str());
            if (open_fds()) violate("C20:leak", "after a failed %s and freeing, descriptors are left:%s", x.n, fd_dump().c_str());
            if (live_sut_threads()) violate("C20:leak", "after a failed %s and freeing, threads are left\n%s", x.n, fiber_dump().c_str());
            memset(ph, 0, sizeof *ph);
            again = true;
            if (++tries > 3) faults_on = false;
            break;
          }
        }
      } else {
        try_setup("proxy_load_conf", [] { return proxy_load_conf(ph, "/etc/elp.conf"); });
        try_setup("proxy_open", [] { return proxy_open(ph); });
        int sr = try_setup("proxy_start", [] {
          int r = proxy_start(ph);
          if (r < 0 && P->p("reopen_on_start")) {
            proxy_close(ph);
            int o;
            for (int i = 0; (o = proxy_open(ph)) < 0 && i < 30; i++) if (i > 3) faults_on = false;
            if (o < 0) violate("C20:retry", "proxy_open keeps failing with %d", o);
          }
          return r;
        });
        (void)sr;
      }
    } else {
      need("proxy_load_conf", proxy_load_conf(ph, "/etc/elp.conf"));
      need("proxy_open", proxy_open(ph));
      need("proxy_start", proxy_start(ph));
    }
  }
  reg_on = true;
  faults_on = P->p("faults", 1) != 0;
  app_up = true;
  rf0 = resource_faults();
  check_listening("after starting");
  serve_loop();
  app_close();
  if (P->p("reopen")) {
    until([] { return !closing; }, NEVER);  // the controller resets the world
    faults_on = false;
    if (P->p("reconf")) reconfigure();
    int r = proxy_open(ph);
    if (r < 0) violate("C12:reopen", "the proxy was closed but opening it again failed with %d", r);
    if (r >= 0) r = proxy_start(ph);
    if (r < 0) violate("C12:reopen", "the proxy was closed but starting it again failed with %d", r);
    check_listening("after reopening");
    app_up = true;
    serve_loop();
    app_close();
  }
  proxy_free(ph);
  heap_free(ph, "harness");
  size_t files = file_objs;
  if (heap_live_count()) violate("C12:leak", "after freeing the proxy %zu allocations are left:%s", heap_live_count(), heap_live_dump().c_str());
  if (files) violate("C12:leak", "after freeing the proxy %zu files are left open", files);
  if (open_fds()) violate("C12:leak", "after freeing the proxy descriptors are left open:%s", fd_dump().c_str());
  if (pcre_live) violate("C12:leak", "after freeing the proxy %d matcher objects are left", pcre_live);
  all_done = true;
}
// ---- the daemon -------------------------------------------------------------------------------------------------------
static bool d_exited = false, d_ready = false, d_term = false, d_term_ready = false, d_selected = false;
static int d_killed = 0;
static Time d_t0 = 0;
static uint64_t d_f0 = 0, d_fw0 = 0;
static size_t d_con = 0;
static int d_tty = -1;
static struct proxy_handle* d_ph = nullptr;
static std::string d_log, d_args;
extern "C" int proxy_init(struct proxy_handle*);
extern "C" int sim_cap_proxy_init(struct proxy_handle* h) { d_ph = h; return proxy_init(h); }   // called by proxyd.c only
static uint64_t start_faults() { return hard_faults() + stats->fault[K_FOPEN] + stats->fault[K_FREAD] + stats->fault[K_FORK] + stats->fault[K_SYS]; }
static bool daemonised() { return !P->p("dfg"); }
static void d_mark_ready() {
  if (d_ready) return;
  d_ready = true;
  d_con = console[1].size() + console[2].size();
  for (int i = 0; i < 3; i++) if (fd_is_console(i)) d_tty = i;
  tlog("the daemon is ready");
}
static void d_signal(int sig) {
  bool ends = sig == SIGTERM || sig == SIGINT;
  tlog("signal %d is sent to the daemon (ready %d)", sig, d_ready);
  if (ends && !d_term) { d_term = true; d_term_ready = d_ready; }
  stats->probes[50]++;
  d_killed = sig;
  raise_signal(sig);
}
static std::vector<void*> d_mem;
static void* dalloc(const void* p, size_t n) { void* q = heap_alloc(n, true); memcpy(q, p, n); d_mem.push_back(q); return q; }
static void daemon_exit(int code, const char* how) {
  if (d_exited) return;
  d_exited = true;
  for (auto p : d_mem) heap_free(p, "harness");
  int st = code & 255;
  tlog("the daemon ended: %s, status %d", how, st);
  bool killed = code > 128 && !strcmp(how, "exit or signal") && code - 128 == d_killed;
  int kind = (int)P->p("dstart");
  if (fork_mode && forked) {   // this run follows the process which was started, the daemon proper goes on elsewhere
    if (st) violate("C22:parent", "the process which was started ended with status %d although the daemon was started", st);
    if (!tcp_port_listening(mkip(10, 0, 0, 1), tcp_port)) violate("C22:parent", "the process which was started shut down the port of the daemon");
    stats->probes[55]++;
  } else if (killed) {
    if (d_ready) violate("C22:killed", "the daemon was killed by signal %d while it was serving", d_killed);
    stats->probes[51]++;
  } else {
    if (kind == 20 || kind == 21) {
      if (st) violate("C22:usage", "'%s' ended with status %d", d_args.c_str(), st);
      if (console[1].empty()) violate("C22:usage", "'%s' printed nothing", d_args.c_str());
    } else if (kind >= 22) {
      if (!st) violate("C22:usage", "'%s' is not a valid use but the status is 0", d_args.c_str());
      if (console[2].empty()) violate("C22:usage", "'%s' was refused without a message", d_args.c_str());
    } else if (d_term) {
      if (d_term_ready && st) violate("C22:status", "the daemon was asked to end and ended with status %d", st);
    } else {
      if (!st) violate(app_up || d_ready ? "C22:died" : "C22:startstatus", "the daemon ended with status 0 although nobody asked it to%s", d_ready ? "" : " (it was starting)");
      if (d_ready || (app_up && !P->p("setupfaults"))) violate("C22:died", "the daemon ended with status %d although nobody asked it to", st);
      if (!kind && start_faults() == d_f0) violate("C22:start", "the daemon did not start (status %d) although nothing was wrong", st);
      stats->probes[52]++;
    }
    if (d_term) stats->probes[53]++;
    for (auto f : fibers)
      if (f->sut && f->state != 2 && strcmp(f->what, "sigwait")) violate("C22:leak", "the daemon ended with threads running\n%s", fiber_dump().c_str());
    if (heap_live_count()) violate("C22:leak", "the daemon ended with %zu allocations left:%s", heap_live_count(), heap_live_dump().c_str());
    if (open_fds()) violate("C22:leak", "the daemon ended with descriptors left open:%s", fd_dump().c_str());
    if (file_objs) violate("C22:leak", "the daemon ended with %d files left open", file_objs);
    if (pcre_live) violate("C22:leak", "the daemon ended with %d matcher objects left", pcre_live);
    if (d_ready && kind < 20) {
      int lg = (int)P->p("dlog");
      bool other = lg >= 1 && lg <= 4 && (d_selected || !P->p("setupfaults"));
      if ((other || daemonised()) && console[1].size() + console[2].size() != d_con)
        violate("C22:logplace", "output appeared on the console of a daemon which %s: '%s'", other ? "was told to log elsewhere" : "is detached from it", (console[1] + console[2]).substr(0, 300).c_str());
      bool quiet = P->p("dquiet") && !daemonised();
      if (other && !quiet && stats->fault[K_FWRITE] == d_fw0) {
        if (lg == 3 ? sysl.empty() : !fs_get(d_log) || fs_get(d_log)->data.empty()) violate("C22:logplace", "nothing was written to the configured log");
        else stats->probes[54]++;
      }
    }
    if (d_ready && daemonised() && d_tty >= 0) violate("C22:detach", "descriptor %d of the daemon is still the terminal", d_tty);
    if (d_ready && daemonised() && (!session_made || cwd != "/")) violate("C22:detach", "the daemon did not detach itself");
  }
  closed_done = all_done = true;
  if (app_up || kind || killed || P->p("setupfaults")) n_rejected++;
  stop();
}
static void daemon_main() {
  if (d_exited) return;
  int kind = (int)P->p("dstart"), lg = (int)P->p("dlog");
  fork_mode = P->p("dparent") ? 1 : 0;
  fs.clear();
  static const char* const cfgs[] = {"/etc/elp.conf", "/home/op/my.conf", "/home/op/ELProxy.conf", "/home/op/../etc/ELProxy.conf"};
  static const char* const cfga[] = {"/etc/elp.conf", "my.conf", "", ""};
  int cp = (int)P->p("dconf") & 3;
  if (kind != 1) {
    std::string t = conf_text();
    if (kind == 2) t += "Port=many\n";
    if (kind == 6) t += "CallsignsDenied=(\n";
    if (kind == 7) { size_t a = t.find("Password="); t = t.substr(0, a) + t.substr(t.find('\n', a) + 1); }
    fs_put(cfgs[cp], t);
    if (kind == 3) fs_get(cfgs[cp])->err = EACCES;
  }
  fs_put("/dev/null", "")->special = true;
  fs_get("/dev/null")->dir = false;
  std::vector<std::string> v{"openelpd"};
  std::vector<std::string> flags;
  if (P->p("dfg")) flags.push_back("F");
  if (P->p("ddebug")) flags.push_back("d");
  if (P->p("dquiet")) flags.push_back("q");
  if (lg == 3) flags.push_back("S");
  std::string lp = lg == 1 ? "/var/log/elp.log" : lg == 2 ? "/var/log/elp2.log" : lg == 4 ? "rel.log" : "/missing/elp.log";
  if (lg == 4) d_log = "/home/op/rel.log"; else d_log = lp;
  bool conf_first = P->p("dorder") & 1;
  if (*cfga[cp] && conf_first) v.push_back(cfga[cp]);
  if (P->p("dorder") & 2) { std::string j; for (auto& f : flags) j += f; if (!j.empty()) v.push_back("-" + j); }
  else for (auto& f : flags) {
    if ((P->p("dorder") & 8) && f == "d") v.push_back("--debug");
    else if ((P->p("dorder") & 8) && f == "q") v.push_back("--quiet");
    else v.push_back("-" + f);
  }
  if (lg == 2) v.push_back("-L" + lp);
  else if (lg && lg != 3) { v.push_back("-L"); v.push_back(lp); }
  if (*cfga[cp] && !conf_first) v.push_back(cfga[cp]);
  auto put = [&](const char* a) { v.insert(v.begin() + 1 + (long)((uint64_t)P->p("dpos") % v.size()), a); };
  switch (kind) {
    case 20: put(P->p("dorder") & 4 ? "-h" : "--help"); break;
    case 21: put(P->p("dorder") & 4 ? "-V" : "--version"); break;
    case 22: v.push_back("-x"); break;
    case 23: v.push_back("--nonsense"); break;
    case 24: v.push_back("one.conf"); v.push_back("two.conf"); break;
    case 25: v.push_back("-L"); break;
    case 26: v.push_back("-S"); v.push_back("-L"); v.push_back("/var/log/x"); break;
    case 27: v.push_back("-L"); v.push_back("/var/log/x"); v.push_back("-S"); break;
    case 28: v.push_back(""); break;
    default: break;
  }
  if (kind == 20 || kind == 21) {   // an argument of -L, or an error before it, is not an option
    v.erase(v.begin() + 1, v.end());
    v.push_back(kind == 20 ? (P->p("dorder") & 4 ? "-h" : "--help") : P->p("dorder") & 4 ? "-V" : "--version");
    if (P->p("dorder") & 1) v.insert(v.begin() + 1, "-d");
  }
  std::vector<char*> ap;
  for (size_t i = 0; i < v.size(); i++) { ap.push_back((char*)dalloc(v[i].c_str(), v[i].size() + 1)); d_args += (i ? " " : "") + v[i]; }
  ap.push_back(nullptr);
  char** av = (char**)dalloc(ap.data(), ap.size() * sizeof *av);
  tlog("starting '%s'", d_args.c_str());
  faults_on = P->p("setupfaults") != 0;
  d_t0 = now();
  d_f0 = start_faults();
  d_fw0 = stats->fault[K_FWRITE];
  raw_write_hook = [](int fd, Obj* o, const char* d, size_t n) {
    if (o->kind == 1) violate("C22:logsocket", "log output is written to descriptor %d, which is a socket: '%.*s'", fd, (int)std::min<size_t>(n, 100), d);
  };
  file_written = [](FNode* f, const char* d, size_t n) {
    for (auto& x : fs) if (x.second == f) {
      if (x.first != d_log || P->p("dlog") == 3 || !P->p("dlog")) violate("C22:logplace", "output is written to %s: '%.*s'", x.first.c_str(), (int)std::min<size_t>(n, 100), d);
      else d_selected = true;
    }
  };
  post(120 * SEC + slack, [] {
    if (d_exited || app_up || P->p("dsig_start")) return;
    violate("C22:start", "the daemon neither serves nor ends after two minutes\n%s", fiber_dump().c_str());
  });
  int rc = sut_main((int)v.size(), av);
  daemon_exit(rc, "return from main");
}
// what -d, -q, -L and -S mean: which messages appear and where
static void d_log_probe() {
  if (!d_ready || !d_ph || P->p("setupfaults") || P->p("dsig_start") || P->p("dstart")) return;
  bool f = faults_on;
  faults_on = false;
  static const enum LOG_LEVEL lv[] = {LOG_LEVEL_DEBUG, LOG_LEVEL_INFO, LOG_LEVEL_WARN, LOG_LEVEL_ERROR};
  static const char* const nm[] = {"debug", "informational", "warning", "error"};
  int lg = (int)P->p("dlog");
  bool other = lg >= 1 && lg <= 4, dbg = P->p("ddebug"), quiet = P->p("dquiet");
  bool ff = stats->fault[K_FWRITE] != d_fw0;
  for (int i = 0; i < 4; i++) {
    char t[32];
    snprintf(t, sizeof t, "probe of level %d.", i);
    proxy_log(d_ph, lv[i], "%s\n", t);
    if (d_exited) break;
    int con = 0, fil = 0, sys = 0;
    for (int k = 1; k < 3; k++) con += console[k].find(t) != std::string::npos;
    for (auto& x : fs) fil += x.second->data.find(t) != std::string::npos;
    for (auto& l : sysl) sys += l.text.find(t) != std::string::npos;
    if (lg == 5 || (lg != 3 && ff)) continue;   // no log can be opened, or a line was lost before
    int n = other ? (lg == 3 ? sys : fil) : con;
    bool eff_quiet = quiet && !other;              // --quiet is about the standard output
    if (!daemonised() || other) {
      bool must = i >= 2 || (i == 1 && !eff_quiet && !(quiet && !daemonised())) || (i == 0 && dbg && !quiet);
      bool mustnot = (i == 0 && !dbg) || (i <= 1 && eff_quiet);
      if (must && !n) violate("C22:loglevel", "'%s': a message of level %s does not appear", d_args.c_str(), nm[i]);
      if (mustnot && con + fil + sys) violate("C22:loglevel", "'%s': a message of level %s appears", d_args.c_str(), nm[i]);
      if (must) stats->probes[56]++;
    }
    if (con + fil + sys > 1) violate("C22:loglevel", "'%s': a message appears %d times", d_args.c_str(), con + fil + sys);
  }
  faults_on = f;
}
static void d_request_close(int mode) {
  if (d_exited) return;
  if (!want_close) d_log_probe();
  if (d_exited) return;
  tlog("termination requested");
  closing = want_close = true;
  t_close0 = now();
  act();
  d_signal(mode ? SIGINT : SIGTERM);
  post(close_limit + slack, [] { if (!d_exited) violate("C22:hang", "the daemon has not ended %lld s after it was told to\n%s", (long long)((now() - t_close0) / SEC), fiber_dump().c_str()); });
  for (int64_t i = 0, k = P->p("dagain"); i < k; i++) {
    Rng r;
    r.seed(hash64((uint64_t)P->p("ctlseed"), 77 + (uint64_t)i));
    int sig = r.chance(0.4) ? SIGTERM : r.chance(0.5) ? SIGINT : SIGUSR1;
    post(r.chance(0.5) ? r.range(0, 3000) : r.logu(1, 20 * SEC), [sig] { if (!d_exited) d_signal(sig); });
  }
}
static void request_close(int mode) {
  if (daemon_mode) { d_request_close(mode); return; }
  tlog("close requested (mode %d)", mode);
  if (mode == 0 && !shutdown_called) {
    shutdown_called = true;
    want_close = true;
    { Call k; proxy_shutdown(ph); }
    shutdown_done = true;
  } else {
    want_close = true;
    if (!shutdown_called) {
      // any connection makes the dispatch call return
      Op o;
      Sess* s = new_session(250, o);
      if (s) { s->maybe = true; s->hostile = true; }
    }
  }
}
// a request which arrives just as the dispatcher has taken a connection off the queue
static int arm_k = 0;
static Time arm_hold = 0;
static WaitQ arm_q;
static void arm_wait(int64_t k, int64_t hold, Time limit) {
  arm_k = (int)k;
  arm_hold = hold;
  wait_on(arm_q, now() + limit, "control");
  arm_k = 0;
}
static void do_control(const Op& o) {
  stats->ops++;
  switch (o.kind) {
    case O_SHUTDOWN: {
      if (o.b > 0 && !daemon_mode && !shutdown_called && !want_close) arm_wait(o.b, o.c, 20 * SEC);
      if (shutdown_called || want_close) break;
      tlog("proxy_shutdown");
      shutdown_called = true;
      t_shutdown = now();
      for (auto s : ss) if (!s->evidence && !s->ended) s->maybe = true;  // still being admitted: either way
      if (daemon_mode) {
        d_signal(SIGUSR1);
        post(10 * SEC + slack, [] { for (auto s : ss) if (!s->evidence && !s->ended) s->maybe = true; shutdown_done = true; last_change = now(); });
        break;
      }
      bool* done = new bool(false);
      post(60 * SEC + slack, [done] { if (!*done && !closing) violate("C13:hang", "proxy_shutdown has not returned after a minute\n%s", fiber_dump().c_str()); });
      { Call k; proxy_shutdown(ph); }
      *done = true;
      for (auto s : ss) if (!s->evidence && !s->ended) s->maybe = true;
      shutdown_done = true;
      last_change = now();
      int e0 = proc_errs;
      (void)e0;
      int g = era;
      busy_ops++;
      post(20 * SEC + slack, [g] { if (g == era) busy_ops--; if (g == era && !main_idle && !want_close && !closing) violate("C13:blocks", "the dispatch call still blocks 20 s after a shutdown request\n%s", fiber_dump().c_str()); });
      break;
    }
    case O_DROP: {
      if (o.b == 1) until([] { return held_up() || want_close || busy_ops <= 1; }, 40 * SEC);
      if (want_close) break;
      tlog("proxy_drop");
      std::vector<Sess*> v;
      std::vector<std::pair<Sess*, Sock*>> out;   // their connections to remote hosts
      dropping++;
      for (auto s : ss) { if (s->evidence && !s->vanished && s->accepted && !s->sclosed) v.push_back(s); if (!s->ended) s->maybe = true; }
      for (auto s : v) for (auto e : s->eps) if (e->ss && e->ss->st == T_EST && !e->ss->closed) out.push_back({s, e->ss});
      bool* done = new bool(false);
      post(60 * SEC + slack, [done] { if (!*done && !closing) violate("C13:hang", "proxy_drop has not returned after a minute\n%s", fiber_dump().c_str()); });
      { Call k; proxy_drop(ph); }
      *done = true;
      dropping--;
      for (auto s : ss) if (!s->ended) s->maybe = true;
      last_change = now();
      busy_ops++;   // nothing else ends these sessions meanwhile
      int g = era;
      post(30 * SEC + slack, [v, g, out] {
        if (g == era) busy_ops--;
        for (auto& k : out) if (!k.second->closed && !closing) violate("C13:held", "%s was dropped half a minute ago and its connection to a remote host is still open\n%s", sdesc(k.first).c_str(), fiber_dump().c_str());
        for (auto s : v) if (!s->sclosed && !closing) violate("C13:notdropped", "%s was served when the drop was requested and is still there half a minute later\n%s", sdesc(s).c_str(), fiber_dump().c_str());
      });
      stats->probes[20]++;
      break;
    }
    case O_SIGNAL: if (daemon_mode && shutdown_called) d_signal(SIGUSR1); break;
    case O_JUMP: clock_jump(o.a); stats->fault[K_CLOCKJUMP]++; break;
    case O_REGMODE: set_regmode((int)o.a, o.b); break;
    case O_FDFULL: { net.fd_limit = open_fds() + 3 + (int)o.b; post(o.a, [] { net.fd_limit = wide ? 5000 : 256; }); break; }
    default: break;
  }
}
static void check_registrar(const char* when) {
  if (!reg_name) {
    if (!reports.empty()) violate("C14:unwanted", "a report was sent although no name is configured");
    return;
  }
  if (reg_bad_until == NEVER) return;
  auto st = [&](int u, int total) { return u >= total ? "Busy" : "Ready"; };
  auto wrong = [&](std::string& why) {
    const Report& r = reports.back();
    int hi = in_use(), lo = served_now(), total = shutdown_called ? 0 : N;
    if (r.br ? r.used >= lo && r.used <= hi && r.total == total && r.status == st((int)r.used, total) : r.status == st(lo, total) || r.status == st(hi, total)) return false;
    char b[160];
    snprintf(b, sizeof b, "%d to %d of %d addresses are in use but the last report says [%ld/%ld] %s", lo, hi, total, r.used, r.total, r.status.c_str());
    why = b;
    return true;
  };
  // while every report succeeds, a change is reported at once
  if (reg_bad_until < 0 && hard_faults() == hf_run0 && !resource) {
    Time t0 = last_change;
    if (now() < t0 + 100 * SEC + slack) sleep_until(t0 + 100 * SEC + slack, "prompt report");
    bool quiet = last_change == t0 && hard_faults() == hf_run0;
    for (auto s : ss) if (s->accepted && !s->sclosed && (s->self_end || s->ended)) quiet = false;
    std::string why;
    if (quiet) {
      if (reports.empty()) violate("C15:prompt", "%s: no report was made although the registrar works", when);
      if (wrong(why)) violate("C15:prompt", "%s: %s, %lld s after the last change", when, why.c_str(), (long long)((now() - t0) / SEC));
      stats->probes[58]++;
    }
  }
  // the registrar's view must become true within one interval once nothing changes
  size_t n0;
  uint64_t hf;
  for (int tries = 0;; tries++) {
    n0 = reports.size();
    hf = hard_faults();
    Time t0 = now();
    sleep_until(now() + 10 * MINUTE + 40 * SEC + slack + (now() < reg_bad_until + 10 * MINUTE ? 11 * MINUTE : 0), "registration interval");
    for (auto s : ss) if (s->accepted && !s->sclosed && (s->self_end || s->ended)) return;  // something changed meanwhile
    if (hard_faults() == hf && last_change <= t0) break;
    if (tries > 20) return;
  }
  if (reports.size() == n0) violate(P->p("setupfaults") ? "C20:report" : now() < reg_bad_until + 25 * MINUTE ? "C16:resume" : "C15:interval", "%s: no report was made for %lld s although the registrar works", when, (long long)((now() - (reports.empty() ? 0 : reports.back().t)) / SEC));
  std::string why;
  if (wrong(why)) violate(P->p("setupfaults") ? "C20:report" : "C15:stale", "%s: %s", when, why.c_str());
  stats->probes[21]++;
}
// affinity: strictly sequential connects and disconnects against the documented slot policy
static void affinity(const std::vector<Op>& ops) {
  std::vector<int> idle;
  std::vector<std::string> last(N, "?");
  for (int i = 0; i < N; i++) idle.push_back(i);
  std::map<int, std::pair<Sess*, int>> on;
  for (auto& o : ops) {
    if (o.kind == O_CONN && !on.count(o.who) && !idle.empty()) {
      Op q = o;
      q.a = 0;
      Sess* s = new_session(o.who, q);
      if (!s) break;
      until([s] { return s->sent_auth || s->ended; }, 30 * SEC);
      send_udp(s, 5, 10);
      until([s] { return s->ended || s->lip_known; }, 30 * SEC);
      if (!s->lip_known) { violate("SERVE:unserved", "%s was not served", sdesc(s).c_str()); return; }
      int got = (int)(std::find(slots.begin(), slots.end(), s->lip) - slots.begin());
      std::string c = s->call;
      std::vector<int> okv;
      for (int i : idle) if (last[i] == c) okv.push_back(i);
      if (okv.empty()) okv.push_back(idle[0]);
      if (std::find(okv.begin(), okv.end(), got) == okv.end()) {
        std::string d;
        for (int i : idle) d += " " + ipstr(slots[i]) + "(" + last[i] + ")";
        violate("C11:slot", "client '%s' got %s; idle, longest first:%s", c.c_str(), ipstr(s->lip).c_str(), d.c_str());
      }
      idle.erase(std::find(idle.begin(), idle.end(), got));
      last[got] = c;
      on[o.who] = {s, got};
      stats->probes[22]++;
    } else if (o.kind == O_END && on.count(o.who)) {
      Sess* s = on[o.who].first;
      client_end(s, (int)(o.a & 1));
      if (!until([s] { return s->sclosed; }, 60 * SEC)) { violate("C10:stuck", "%s ended but the proxy still holds it", sdesc(s).c_str()); return; }
      sleep_until(now() + 3 * SEC, "affinity");
      idle.push_back(on[o.who].second);
      on.erase(o.who);
    } else if (o.kind != O_CONN && o.kind != O_END && on.count(o.who)) {
      busy_ops++;
      exec_client_op(o.who, o);
      sleep_until(now() + o.gap, "affinity");
    }
  }
}
static void control() {
  if (daemon_mode) {
    if (fork_mode) {
      sleep_until(now() + 60 * SEC + 2 * slack, "the start of the daemon");
      if (!d_exited) violate("C22:parent", "the process which was started is still running after a minute\n%s", fiber_dump().c_str());
      return;
    }
    if (P->p("dsig_start")) {   // a signal while the daemon starts
      post(P->p("dsig_start") - 1, [] { if (!d_exited && !d_ready) { closing = want_close = true; t_close0 = now(); d_signal(P->p("dsig") == 0 ? SIGTERM : P->p("dsig") == 1 ? SIGINT : SIGUSR1); } });
    }
    if (P->p("dsig_start")) {
      sleep_until(now() + P->p("dsig_start") + 30 * SEC + 2 * slack, "the start of the daemon");
      if (d_exited) return;
      if (d_killed == SIGUSR1) { d_term = false; d_mark_ready(); request_close((int)P->p("close_mode")); }
      else post(close_limit + slack, [] { violate("C22:hang", "the daemon has not ended although it was told to\n%s", fiber_dump().c_str()); });
      return;
    }
    until([] { return d_exited || tcp_port_listening(mkip(10, 0, 0, 1), tcp_port); }, NEVER);
    if (d_exited) return;
    if (P->p("setupfaults")) sleep_until(now() + 30 * SEC + 2 * slack, "the start of the daemon");
    if (d_exited) return;
    int kind = (int)P->p("dstart");
    if (kind) violate("C22:start", "the daemon is serving although it cannot start (case %d)", kind);
    reg_on = app_up = true;
    rf0 = resource_faults();
    if (!P->p("setupfaults")) {
      // resources run short only once the start is complete: the main thread waits for clients
      spawn("faults", [] {
        until([] { return d_exited || d_ready || !strcmp(main_fiber->what, "accept"); }, 30 * SEC);
        faults_on = P->p("faults", 1) != 0;
        rf0 = resource_faults();
      }, false);
      post(60 * SEC + slack, [] { if (!d_exited && !closing) d_mark_ready(); });
    } else faults_on = P->p("faults", 1) != 0;
  }
  until([] { return app_up; }, NEVER);
  act();
  Rng r;
  r.seed(hash64((uint64_t)P->p("ctlseed", 1), 3));
  int nc = 0;
  if (P->p("affinity")) affinity(P->ops);
  else {
    for (size_t w = 0; w < cops.size(); w++) if (!cops[w].empty()) { busy_ops++; nc++; sched_next((int)w); }
    if (!iops.empty()) { busy_ops++; injector(0); }
    for (auto& o : kops) {
      sleep_until(now() + o.gap, "control");
      if (stop_ops) break;
      do_control(o);
    }
  }
  if (P->p("soak")) soak(r);
  if (P->p("wedge")) {
    // the client of a session has gone while the session is held up by a remote host which never reads
    sleep_until(now() + 300 * SEC + slack, "control");
    for (auto s : ss)
      if (s->accepted && !s->sclosed && (s->self_end || s->ended))
        for (auto e : s->eps) if (e->r && e->r->paused) fatal_violation("C10:wedged", "%s ended more than 300 s ago but the proxy still holds it, sending to a remote host which does not read\n%s", sdesc(s).c_str(), fiber_dump().c_str());
  }
  if (P->p("close_at")) {
    // close in the middle of everything
    sleep_until(now() + P->p("close_at"), "control");
    stop_ops = true;
    request_close((int)P->p("close_mode"));
  } else {
    settle("after the last operation");
    check_rest();
    if (P->p("checkreg")) check_registrar("at rest");
    if (P->p("faultsafter")) {}
    bool rec = P->p("recovery") != 0;
    if (P->p("endall") || rec) {
      end_all(r);
      check_ends();
      settle("after all sessions ended");
      check_rest();
      if (P->p("checkreg")) check_registrar("after all sessions ended");
    }
    if (rec && !shutdown_called) {
      recovery("C10:capacity", "after all sessions ended");
      if (P->p("endall2")) { end_all(r); check_ends(); }
    }
    stop_ops = true;
    request_close((int)P->p("close_mode"));
  }
  until([] { return closed_done; }, NEVER);
  sleep_until(now() + 3 * SEC + 2 * cfg.net_max, "after close");
  for (auto s : ss)
    if (s->accepted && !s->sclosed) violate("C12:client", "%s is still connected after the proxy was closed", sdesc(s).c_str());
  if (P->p("reopen")) {
    for (auto s : ss) if (!s->ended && s->c && s->c->st == T_SYN_SENT) { actor_rst(s->c); s->failed = s->ended = true; s->t_end = now(); }
    phase = 1;
    busy_ops = 0;
    want_close = false;
    shutdown_called = shutdown_done = false;
    main_idle = false;
    era++;
    closed_done = false;
    app_up = false;
    if (regmode) set_regmode(0, 0);
    size_t n0 = reports.size();
    for (auto s : ss) { if (!s->ended) { s->self_end = true; s->ended = true; } }
    closing = false;
    until([] { return app_up; }, NEVER);
    bool first = hash64(cfg.seed, 33) % 2;      // nobody connects before the first report
    if (!P->p("wasteful") && !first) recovery("C12:reopen", "after reopening the proxy");
    if (P->p("checkreg") && reg_name) {
      Time t0 = now();
      until([n0] { return reports.size() > n0 && reports.back().status != "Off"; }, 11 * MINUTE + slack);
      if (reports.size() == n0 || reports.back().status == "Off") violate("C15:reopen", "no report of Ready or Busy within %lld s of reopening", (long long)((now() - t0) / SEC));
      if (first && !P->p("wasteful")) recovery("C12:reopen", "after reopening the proxy");
      end_all(r);
      check_ends();
      check_registrar("after reopening");
    } else if (first && !P->p("wasteful")) recovery("C12:reopen", "after reopening the proxy");
    request_close((int)P->p("close_mode2"));
  }
}
static void exec(const Plan& p) {
  P = &p;
  N = (int)p.p("n", 1);
  tcp_port = (uint16_t)p.p("port", 8100);
  wide = p.p("wide") != 0;
  op_time = 0;
  for (auto& o : p.ops) op_time += 3 * SEC + (o.kind == O_RPAUSE || o.kind == O_PAUSE ? (Time)o.a : 0);
  if (wide) net.fd_limit = 5000;
  wild = p.p("wild") && N == 1;
  bind_kind = (int)p.p("bind");
  if (wild) slots = {net.default_ip};
  else for (int i = 0; i < N; i++) slots.push_back(mkip(192, 0, 2, 0) + 1 + (IP)i);
  rand_gray = p.p("randgray") != 0;
  if (p.p("pwlen")) {
    static std::string g;
    g = gen_text((uint64_t)p.p("pwseed"), (size_t)p.p("pwlen"));
    password = g.c_str();
  } else password = pws[p.p("pw") % 9];
  npat_d = (int)p.p("deny");
  npat_a = (int)p.p("allow");
  static std::string rt[3];
  auto text = [&p](int i, const char* k, const char* k2, const char* dflt) -> const char* {
    if (!p.p(k)) return dflt;
    rt[i] = gen_text((uint64_t)p.p(k2), (size_t)p.p(k));
    return rt[i].c_str();
  };
  reg_name = text(0, "regnamelen", "regseed", reg_names[p.p("regname")]);
  reg_comment = text(1, "regcommentlen", "regseed2", reg_comments[p.p("regcomment")]);
  pub_addr = text(2, "pubaddrlen", "regseed3", pub_addrs[p.p("pubaddr")]);
  set_regmode((int)p.p("regmode"), p.p("regdelay"));
  if (!regmode) reg_bad_until = -100 * MINUTE;
  daemon_mode = p.p("daemon") != 0;
  stalls = cfg.rate[K_STALL] > 0;
  slack = stalls ? 30 * cfg.max_stall : 0;
  resource = p.p("resource") != 0;
  net.sut_sndbuf = (size_t)p.p("sndbuf", 16384);
  net.sut_rcvbuf = (size_t)p.p("rcvbuf", 32768);
  net.udp_rcvbuf = (size_t)p.p("udpbuf", 400000);
  cops.resize(wide ? 512 : 64);
  for (auto& o : p.ops) {
    if (o.kind == O_IN) iops.push_back(o);
    else if (o.who >= 0) cops[(size_t)o.who % cops.size()].push_back(o);
    else kops.push_back(o);
  }
  if (p.p("affinity")) for (auto& v : cops) v.clear();
  net.is_local = [](IP a) { return a == mkip(10, 0, 0, 1) || a == mkip(127, 0, 0, 1) || std::find(slots.begin(), slots.end(), a) != slots.end(); };
  net.dns = [](const std::string& h, IP* ip, Time* d) {
    if (h != "www.echolink.org") return -2;
    if (!reg_name) violate("C14:unwanted", "the registrar is looked up although no name is configured");
    if (regmode == 4) { *d = 2 * SEC; return -3; }
    if (regmode == 9) *d = 25 * SEC;
    *ip = REG;
    return 0;
  };
  net.dual = [](const std::string& h) { return h == "www.echolink.org" && hash64(cfg.seed, 31) % 4 == 0; };
  net.route = [](Sock* k, IP dst, uint16_t port) { return dst == REG ? reg_route(k, dst, port) : on_route(k, dst, port); };
  net.connecting = on_connecting;
  net.connected = [](Sock* k) {
    if (k->rip == REG) return;
    act();
    IP l = logical(k->rip);
    if (kind_of(l) != 40) return;
    Sess* s = by_id(id_of(l));
    if (s && (l & 0xffff) < s->eps.size()) for (Ep* e = s->eps[l & 0xffff]; e; e = e->same) if (e->ss == k) e->connected = true;
  };
  net.udp_out = [](Sock* k, IP d, uint16_t p, const std::string& b) { on_udp(k, d, p, b, false); };
  net.udp_out_fail = [](Sock* k, IP d, uint16_t p, const std::string& b) { on_udp(k, d, p, b, true); };
  net.udp_in = [](Sock* k, const Dgram& d, bool dropped) {
    act();
    Inj& j = injs[d.tag];
    j.arrived = true;
    j.arr = ++n_arrived;
    j.dropped = dropped;
    j.us = k->id;
    us[k->id].q.push_back((int)d.tag);
    if (dropped) stats->fault[K_UDPLOSS]++;
  };
  net.bound = [](Sock* k) {
    if (k->tcp) return;
    act();
    US u;
    u.s = k;
    u.lip = norm(k->lip);
    u.port = k->lport;
    u.t = now();
    for (auto& o : us)
      if (!o.second.closed && o.second.lip == u.lip && o.second.port == u.port) violate("C09:bind", "port %d of %s is bound twice", u.port, ipstr(u.lip).c_str());
    us[k->id] = u;
    int bound = 0, elig = 0;
    for (auto& o : us) if (!o.second.closed && o.second.port == k->lport) bound++;
    for (auto s : ss) if ((s->eligible() || s->hostile) && holding(s)) elig++;
    if (bound > elig) violate(npat_d || npat_a ? "C02:occupied" : "C01:occupied", "an external address is occupied (%d) although only %d clients are entitled to one", bound, elig);
  };
  net.accepted = [](Sock* k) {
    act();
    Sess* s = k->peer ? (Sess*)k->peer->userp : nullptr;
    if (!s) return;
    s->ss = k;
    s->accepted = true;
    if (dropping) s->maybe = true;
    if (arm_k > 0 && --arm_k == 0) {
      post(0, [] { wake_all(arm_q); });
      sleep_until(now() + arm_hold, "stalled");
    }
    s->t_acc = now();
    last_change = now();
    s->admit = occupied(s) < N && quiet_world() && !s->maybe && !rfaults() && !s->must_refuse;
    if (s->admit) {
      stats->probes[23]++;
      post(30 * SEC + slack, [s] {
        if (s->challenged || s->ended || s->self_end || s->maybe || closing || want_close || rfaults() || s->paused) return;
        violate("SERVE:nochallenge", "%s got no challenge within 30 s although an external address was free\n%s", sdesc(s).c_str(), fiber_dump().c_str());
      });
    }
  };
  net.accept_ret = [](Sock* k) {
    Sess* s = k->peer ? (Sess*)k->peer->userp : nullptr;
    // only now does the dispatcher learn of this connection: the request has taken effect before it
    if (s && shutdown_done && !daemon_mode) { s->must_refuse = true; stats->probes[57]++; }
  };
  net.closed = [](Sock* k) {
    if (!k->tcp) { auto it = us.find(k->id); if (it != us.end()) it->second.closed = true; return; }
    Sess* s = k->peer ? (Sess*)k->peer->userp : nullptr;
    if (s && s->ss == k) { s->sclosed = true; s->t_sclosed = now(); last_change = now(); act(); }
    for (auto q : ss) for (auto e : q->eps) if (e->ss == k) q->t_rel = now();
  };
  net.tcp_write = [](Sock* k, const char*, size_t) { if (k->rip != REG) act(); };
  rf0 = resource_faults();
  hf_run0 = hard_faults();
  pm0 = stats->fault[K_PCRE_MATCH] + stats->fault[K_PCRE_ALLOC];
  fs_put("/etc/elp.conf", conf_text());
  if (daemon_mode) on_exit_call = [](int c) { daemon_exit(c, "exit or signal"); };
  main_fiber = spawn("main", [] { if (daemon_mode) daemon_main(); else app_main(); stop(); }, false);
  spawn("control", [] { control(); }, false);
  on_quiesce = [] {
    fatal_violation(daemon_mode ? "C22:hang" : closing ? "C12:hang" : "*:hang", "nothing can run any more\n%s", fiber_dump().c_str());
    return false;
  };
  run();
  result->nontrivial = n_served > 0 || n_rejected > 0;
  snprintf(result->sample, sizeof result->sample, "%s/%s index %lld: slots %d, %zu operations, %zu connections (%d served, %d refused), %d datagrams out, %d in, %zu reports, strategy %d, preempt every %llu accesses, simulated %lld s",
           p.world.c_str(), p.profile.c_str(), (long long)p.p("index"), N, p.ops.size(), ss.size(), n_served, n_rejected, n_emitted, n_delivered, reports.size(), cfg.strategy, (unsigned long long)cfg.mem_gap, (long long)(now() / SEC));
  finish_ok();
}
static WorldReg reg({"proxy", gen, exec, opnames});
}  // namespace pw

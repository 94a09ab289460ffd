// Plans for the proxy world.
#include "w_proxy.h"
#include <algorithm>

namespace pw {
static void add(Plan& p, int who, int kind, int64_t gap, int64_t a = 0, int64_t b = 0, int64_t c = 0, int64_t d = 0) {
  Op o;
  o.who = who; o.kind = kind; o.gap = gap; o.a = a; o.b = b; o.c = c; o.d = d;
  p.ops.push_back(o);
}
static Time gap(Rng& r) {
  switch (r.below(8)) {
    case 0: case 1: return r.range(0, 300);
    case 2: case 3: return r.range(0, 5 * MS);
    case 4: case 5: return r.range(0, 80 * MS);
    case 6: return r.range(0, 2 * SEC);
    default: return r.chance(0.3) ? r.range(0, 60 * SEC) : r.range(0, 400 * MS);
  }
}
static int64_t huge(Rng& r) {   // does not fit into 16 bits
  static const int64_t edge[] = {65535, 65536, 65537, 65540, 65536 + 4096, 70000, 131072, 131077};
  return r.chance(0.6) ? edge[r.below(8)] : r.logu(60000, 300000);
}
static int64_t usize(Rng& r) {  // size of a client datagram
  if (r.chance(0.006)) return huge(r);
  static const int64_t edge[] = {1, 2, 8, 9, 12, 100, 255, 256, 257, 512, 1024, 1400, 1472, 4086, 4087, 4088, 4095, 4096, 4097, 8191, 8192, 8193, 12000};
  if (r.chance(0.4)) return edge[r.below(sizeof edge / sizeof *edge)];
  return r.chance(0.7) ? r.range(1, 300) : r.logu(1, 20000);
}
static int64_t insize(Rng& r) {  // size of a datagram from the network
  static const int64_t edge[] = {1, 2, 9, 12, 100, 256, 512, 1400, 1472, 4078, 4086, 4087};
  if (r.chance(0.35)) return edge[r.below(sizeof edge / sizeof *edge)];
  return r.chance(0.8) ? r.range(1, 300) : r.logu(1, 4087);
}
static int64_t dsize(Rng& r) {  // size of a TCP data message
  if (r.chance(0.008)) return huge(r);
  static const int64_t edge[] = {1, 4086, 4087, 4088, 4095, 4096, 4097, 8192, 8193};
  if (r.chance(0.2)) return edge[r.below(9)];
  return r.chance(0.7) ? r.range(1, 500) : r.logu(1, 40000);
}
static void open_op(Plan& p, Rng& r, int who) {
  int mode = r.chance(0.75) ? 0 : (int)r.range(1, 3);
  int64_t bytes = r.chance(0.4) ? 0 : r.chance(0.8) ? r.logu(1, 6000) : r.logu(1, 120000);
  int end = r.chance(0.45) ? 0 : r.chance(0.8) ? 1 : 2;
  add(p, who, O_OPEN, gap(r), mode, r.chance(0.5) ? 0 : r.chance(0.8) ? r.range(0, 100 * MS) : r.range(0, 20 * SEC), bytes, end);
}
static void client_traffic(Plan& p, Rng& r, int who, int n, bool tcp, bool pause) {
  for (int i = 0; i < n; i++) {
    int x = (int)r.below(tcp ? 14 : 8);
    if (x < 5) add(p, who, O_UDP, gap(r), r.below(2), usize(r), r.chance(0.7) ? 1 : r.range(1, 12));
    else if (x < 6) { if (pause && r.chance(0.5)) add(p, who, O_PAUSE, gap(r), r.logu(1000, 40 * SEC)); else add(p, who, O_WAIT, gap(r), r.range(0, 3 * SEC)); }
    else if (x < 8) { if (r.chance(0.3)) { add(p, who, O_UDP, 0, 1, usize(r), 1); add(p, who, O_UDP, 0, 0, usize(r), 1); } else add(p, who, O_UDP, gap(r), r.below(2), r.range(1, 200), r.range(1, 3)); }
    else if (x < 10) open_op(p, r, who);
    else if (x < 12) add(p, who, O_TDATA, gap(r), dsize(r), r.chance(0.8) ? 1 : r.range(1, 6));
    else if (x < 13) {
      switch (r.below(5)) {
        case 0: add(p, who, O_RSEND, gap(r), r.logu(1, 20000)); break;
        case 1: add(p, who, O_REND, gap(r), r.chance(0.8) ? 1 : 2); break;
        case 2: if (pause) add(p, who, O_RPAUSE, gap(r), r.logu(1000, 30 * SEC), r.chance(0.5) ? r.range(64, 4096) : 0); break;
        default: add(p, who, O_RSEND, gap(r), r.range(1, 500)); break;
      }
    } else add(p, who, O_TCLOSE, gap(r));
  }
}
// a remote host which stops reading while the client keeps sending
static void wedge(Plan& p, Rng& r, int who) {
  add(p, who, O_OPEN, gap(r), 0, 0, r.chance(0.5) ? 0 : r.logu(1, 6000), 0);
  add(p, who, O_RPAUSE, gap(r), r.chance(0.5) ? 1500 * SEC : r.logu(10 * SEC, 1500 * SEC), 0);
  int k = (int)r.range(1, 6);
  for (int i = 0; i < k; i++) add(p, who, O_TDATA, gap(r), r.range(1000, 40000), r.range(1, 6));
}
static void end_op(Plan& p, Rng& r, int who, bool vanish = false) {
  add(p, who, O_END, gap(r), vanish && r.chance(0.5) ? 2 : r.chance(0.7) ? 0 : 1);
}
static void inbound(Plan& p, Rng& r, int n) {
  for (int i = 0; i < n; i++) add(p, 0, O_IN, gap(r), r.below(8), r.below(2), r.chance(0.02) ? 0 : insize(r), r.chance(0.8) ? 1 : r.range(1, 8));
}
static void conn_op(Plan& p, Rng& r, int who, int mode = 0, int call = -1) {
  add(p, who, O_CONN, gap(r), mode, call >= 0 ? call : (int64_t)r.below(r.chance(0.5) ? 4 : 24), r.below(60000), r.chance(0.8) ? 0 : r.logu(1000, 5 * SEC));
}
static void net_faults(Plan& p, Rng& r, double scale) {
  Config& c = p.cfg;
  if (r.chance(0.5)) c.rate[K_SHORTSEND] = r.chance(0.5) ? 0.02 * scale : 0.25 * scale;
  if (r.chance(0.5)) c.rate[K_SHORTRECV] = r.chance(0.5) ? 0.05 * scale : 0.4 * scale;
  if (r.chance(0.3)) c.rate[K_SENDTO] = 0.03 * scale;
  if (r.chance(0.2)) c.rate[K_CONNECT] = 0.05 * scale;
  if (r.chance(0.3)) { c.rate[K_STALL] = r.chance(0.5) ? 0.001 : 0.01; c.max_stall = r.logu(1000, 2 * SEC); }
}
static void err_faults(Plan& p, Rng& r, double scale = 1) {
  Config& c = p.cfg;
  if (r.chance(0.3)) c.rate[K_SENDERR] = 0.004 * scale;
  if (r.chance(0.3)) c.rate[K_RECVERR] = 0.002 * scale;
  if (r.chance(0.3)) c.rate[K_UDPRECVERR] = 0.004 * scale;
}
static void bufs(Plan& p, Rng& r) {
  static const int64_t sb[] = {4096, 4096, 8192, 16384, 65536};
  p.par["sndbuf"] = sb[r.below(5)];
  static const int64_t rb[] = {2048, 8192, 32768, 65536};
  p.par["rcvbuf"] = rb[r.below(4)];
  if (r.chance(0.2)) p.par["udpbuf"] = r.range(8000, 60000);
}
static void common(Plan& p, Rng& r, int nmax) {
  p.par["n"] = r.range(1, nmax);
  p.par["pw"] = r.below(7);
  if (p.par["n"] == 1) p.par["wild"] = r.below(2);
  if (r.chance(0.5)) p.par["addrs"] = r.range(1, 1000000);
  if (r.chance(0.5)) p.par["share"] = r.range(1, 1000000);
  p.par["bind"] = r.chance(0.75) ? r.below(2) : r.range(2, 3);
  p.par["log"] = r.chance(0.6) ? 0 : r.range(1, 2);
  p.par["loglevel"] = r.range(1, 6);
  p.par["ctlseed"] = r.below(1000000);
  p.par["close_mode"] = r.below(2);
}
static void registrar(Plan& p, Rng& r) {
  p.par["regname"] = r.range(1, 3);
  p.par["regcomment"] = r.below(4);
  p.par["pubaddr"] = r.below(3);
  auto text = [&](const char* k, const char* k2, int64_t most) { if (r.chance(0.25)) { p.par[k] = r.chance(0.5) ? r.range(1, 130) : r.logu(1, most); p.par[k2] = (int64_t)r.below(1000000); } };
  text("regnamelen", "regseed", 300);
  text("regcommentlen", "regseed2", 1500);
  text("pubaddrlen", "regseed3", 300);
  if (r.chance(0.3)) p.par["regdelay"] = r.range(0, 3 * SEC);
}
// sessions come and go
static void churn(Plan& p, Rng& r, int clients, int rounds, int traffic, bool tcp, bool vanish) {
  for (int w = 0; w < clients; w++)
    for (int k = 0; k < rounds; k++) {
      conn_op(p, r, w);
      client_traffic(p, r, w, (int)r.below((uint64_t)traffic + 1), tcp, false);
      if (r.chance(0.85)) end_op(p, r, w, vanish);
    }
}

void gen(Plan& p, Rng& r) {
  gen_sched(p, r);
  Config& c = p.cfg;
  const std::string& f = p.profile;
  if (f == "fidelity" || f == "tcp" || f == "udp") {
    common(p, r, 3);
    bufs(p, r);
    int n = (int)p.p("n");
    if (r.chance(0.25)) registrar(p, r);
    net_faults(p, r, 1);
    if (r.chance(0.2)) err_faults(p, r, r.chance(0.5) ? 1 : 5);
    int clients = (int)r.range(1, n);
    for (int w = 0; w < clients; w++) {
      conn_op(p, r, w);
      int k = (int)r.range(2, 25);
      if (f == "tcp") {
        for (int i = 0; i < k; i++) {
          if (i == 0 || r.chance(0.2)) open_op(p, r, w);
          else if (r.chance(0.35)) add(p, w, O_TDATA, gap(r), dsize(r), r.chance(0.7) ? 1 : r.range(1, 5));
          else if (r.chance(0.3)) add(p, w, O_RSEND, gap(r), r.logu(1, 20000));
          else if (r.chance(0.2)) add(p, w, O_TCLOSE, gap(r));
          else if (r.chance(0.2)) add(p, w, O_REND, gap(r), r.chance(0.8) ? 1 : 2);
          else if (r.chance(0.2)) add(p, w, O_RPAUSE, gap(r), r.logu(1000, 30 * SEC), r.chance(0.5) ? r.range(64, 4096) : 0);
          else if (r.chance(0.2)) add(p, w, O_PAUSE, gap(r), r.logu(1000, 30 * SEC));
          else client_traffic(p, r, w, 1, true, true);
        }
      } else client_traffic(p, r, w, k, f == "fidelity", true);
      if (r.chance(0.3)) end_op(p, r, w);
      if (r.chance(0.15)) { conn_op(p, r, w); client_traffic(p, r, w, 4, true, true); }
    }
    inbound(p, r, f == "tcp" ? (int)r.below(5) : (int)r.below(30));
    p.par["endall"] = r.chance(0.3);
  } else if (f == "auth") {
    common(p, r, 3);
    p.par["pw"] = r.below(9);
    if (r.chance(0.4)) { p.par["pwlen"] = r.chance(0.7) ? r.range(1, 130) : r.logu(1, 1000); p.par["pwseed"] = (int64_t)r.below(1000000); }
    p.par["deny"] = r.chance(0.4) ? 0 : r.chance(0.04) ? 8 : r.range(1, 7);
    p.par["allow"] = r.chance(0.4) ? 0 : r.range(1, 6);
    p.par["randgray"] = r.chance(0.4);
    if (r.chance(0.3)) c.rate[K_SHORTRECV] = 0.3;
    if (r.chance(0.15)) { c.rate[K_STALL] = 0.005; c.max_stall = 500 * MS; }
    int clients = (int)r.range(1, 4);
    for (int w = 0; w < clients; w++) {
      int k = (int)r.range(1, 6);
      for (int i = 0; i < k; i++) {
        static const int rej[] = {1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 18, 19};
        int mode = r.chance(0.3) ? 0 : r.chance(0.1) ? 16 : r.chance(0.05) ? 6 : rej[r.below(17)];
        conn_op(p, r, w, mode, (int)r.below(32));
        if (r.chance(0.6)) client_traffic(p, r, w, (int)r.range(1, 4), r.chance(0.4), false);
        if (r.chance(0.5)) add(p, w, O_WAIT, 0, r.range(0, 20 * SEC));
        if (r.chance(0.5)) end_op(p, r, w);
      }
    }
    inbound(p, r, (int)r.below(6));
    p.par["endall"] = r.chance(0.3);
  } else if (f == "wedge") {   // a recorded finding: not part of any check's search
    common(p, r, 2);
    p.par["wedge"] = 1;
    conn_op(p, r, 0);
    add(p, 0, O_WAIT, 3 * SEC, 3 * SEC);
    add(p, 0, O_OPEN, 1 * SEC, 0, 0, 0, 0);
    add(p, 0, O_RPAUSE, 3 * SEC, 1500 * SEC, 0);
    for (int i = 0; i < 4; i++) add(p, 0, O_TDATA, 100 * MS, 30000, 1);
    add(p, 0, O_END, 3 * SEC, 0);
  } else if (f == "slots" || f == "faultslots") {
    common(p, r, 5);
    int n = (int)p.p("n");
    if (r.chance(0.3)) registrar(p, r);
    int clients = (int)r.range(n, n + 3);
    churn(p, r, clients, (int)r.range(1, 8), 3, r.chance(0.4), r.chance(0.2));
    inbound(p, r, (int)r.below(10));
    if (f == "faultslots") {
      net_faults(p, r, 1);
      err_faults(p, r);
      if (r.chance(0.5)) {
        p.par["resource"] = 1;
        double q = r.chance(0.5) ? 0.01 : 0.06;
        if (r.chance(0.4)) c.rate[K_BIND] = q;
        if (r.chance(0.3)) c.rate[K_SOCKET] = q;
        if (r.chance(0.3)) c.rate[K_SOCKOPT] = q;
        if (r.chance(0.3)) c.rate[K_ALLOC] = q;
        if (r.chance(0.3)) c.rate[K_GAI] = q;
        if (r.chance(0.3)) c.rate[K_PCRE_MATCH] = q;
      }
      if (r.chance(0.3)) c.rate[K_ACCEPT] = 0.05;
      if (r.chance(0.2)) add(p, -1, O_FDFULL, r.range(0, 2 * SEC), r.logu(1000, 20 * SEC), r.below(6));
    }
    p.par["endall"] = 1;
    p.par["recovery"] = 1;
    p.par["endall2"] = r.below(2);
  } else if (f == "many") {
    // many addresses: more than there are buckets, bits in a word, or what fits into a byte
    common(p, r, 2);
    p.par["wide"] = 1;
    p.par["wild"] = 0;
    int n = (int)(p.par["n"] = r.chance(0.6) ? r.range(6, 24) : r.chance(0.6) ? r.range(25, 80) : r.range(200, 290));
    int nc = (int)r.range(n / 2, 3 * n);
    if (r.chance(0.2)) {
      // every address in use at once, and reported to be
      n = (int)(p.par["n"] = r.chance(0.6) ? r.range(250, 290) : r.range(60, 250));
      registrar(p, r);
      p.par["checkreg"] = 1;
      for (int w = 0; w < n; w++) conn_op(p, r, w, 0, (int)r.below((uint64_t)nc));
      for (int i = 0; i < 10; i++) {
        int w = (int)r.below((uint64_t)n + 4);
        add(p, w, O_END, i ? gap(r) : r.range(0, 60 * SEC), r.below(2));
        if (r.chance(0.7)) conn_op(p, r, w, 0, (int)r.below((uint64_t)nc));
      }
      if (r.chance(0.5)) inbound(p, r, (int)r.below(10));
      p.par["endall"] = r.below(2);
    } else if (r.chance(0.5)) {
      p.par["affinity"] = 1;
      std::vector<int> on((size_t)n + 2, 0);
      int k = (int)r.range(n, 4 * n);
      for (int i = 0; i < k && i < 700; i++) {
        int w = i < n && r.chance(0.8) ? i : (int)r.below((uint64_t)n + 2);
        if (!on[w]) conn_op(p, r, w, 0, (int)(r.chance(0.7) ? w : r.below((uint64_t)nc)));
        else add(p, w, O_END, gap(r), r.below(2));
        on[w] = !on[w];
      }
    } else {
      if (r.chance(0.3)) { registrar(p, r); p.par["checkreg"] = 1; }
      int clients = (int)r.range(n, n + 3);
      for (int w = 0; w < clients; w++) {
        conn_op(p, r, w, r.chance(0.9) ? 0 : (int)r.range(1, 19), (int)r.below((uint64_t)nc));
        client_traffic(p, r, w, (int)r.below(3), r.chance(0.3), false);
        if (r.chance(0.5)) end_op(p, r, w);
        if (r.chance(0.3)) { conn_op(p, r, w, 0, (int)r.below((uint64_t)nc)); client_traffic(p, r, w, (int)r.below(3), r.chance(0.3), false); }
      }
      inbound(p, r, (int)r.below(10));
      if (r.chance(0.3)) net_faults(p, r, 1);
      p.par["endall"] = r.below(2);
      p.par["recovery"] = r.chance(0.7);
      if (r.chance(0.3)) add(p, -1, r.chance(0.5) ? O_SHUTDOWN : O_DROP, r.range(0, 60 * SEC));
    }
  } else if (f == "volume") {
    // more of everything than fits into a small counter
    common(p, r, 2);
    bufs(p, r);
    p.par["loglevel"] = r.range(1, 3);
    int kind = (int)r.below(6);
    if (r.chance(0.3)) registrar(p, r);
    if (r.chance(0.3)) c.rate[K_SHORTRECV] = 0.02;
    if (r.chance(0.3)) c.rate[K_SHORTSEND] = 0.02;
    conn_op(p, r, 0);
    if (kind == 0) {
      int ty = (int)r.below(3);
      int64_t n = r.chance(0.5) ? r.range(65400, 66500) : r.range(300, 70000);
      for (int64_t k = 0; k < n; k += 500) add(p, 0, O_UDP, r.range(0, 20 * MS), ty < 2 ? ty : r.below(2), r.chance(0.95) ? r.range(1, 30) : usize(r), std::min<int64_t>(500, n - k));
    } else if (kind == 1) {
      p.par["udpbuf"] = 400000;
      int ty = (int)r.below(3), at = (int)r.below(2);
      int64_t n = r.chance(0.5) ? r.range(65400, 66500) : r.range(300, 70000);
      add(p, 0, O_IN, 2 * SEC, at, r.below(2), 10, 1);
      for (int64_t k = 0; k < n; k += 300) add(p, 0, O_IN, r.range(0, 40 * MS), at, ty < 2 ? ty : r.below(2), r.chance(0.95) ? r.range(1, 30) : insize(r), std::min<int64_t>(300, n - k));
    } else if (kind == 2) {
      int m = (int)r.range(1, 3);
      for (int i = 0; i < m; i++) {
        add(p, 0, O_OPEN, gap(r), 0, 0, 0, 0);
        add(p, 0, O_WAIT, 1 * SEC, 1 * SEC);
        int k = (int)r.range(1, 4);
        for (int j = 0; j < k; j++) add(p, 0, O_TDATA, gap(r), r.chance(0.5) ? huge(r) : r.logu(100000, 4000000), 1);
        if (r.chance(0.5)) add(p, 0, O_RSEND, gap(r), r.logu(100000, 3000000));
        if (r.chance(0.5)) add(p, 0, O_WAIT, 1 * SEC, 20 * SEC);
      }
    } else if (kind == 3) {
      int k = (int)r.range(260, 700);
      for (int i = 0; i < k; i++) {
        add(p, 0, O_OPEN, r.range(0, 200 * MS), r.chance(0.98) ? 0 : r.range(1, 3), r.chance(0.8) ? 0 : r.range(0, 100 * MS), r.chance(0.5) ? 0 : r.range(1, 300), r.chance(0.5) ? 0 : 1);
        if (r.chance(0.5)) add(p, 0, O_TDATA, r.range(0, 200 * MS), r.range(1, 200), 1);
        if (r.chance(0.2)) add(p, 0, O_TCLOSE, r.range(0, 200 * MS));
      }
    } else if (kind == 4) {
      p.par["wide"] = 1;
      bool steady = r.chance(0.6);  // one after the other, all of them let in
      int k = steady ? (int)r.range(260, 500) : (int)r.range(255, 600), w = 0;
      if (steady && r.chance(0.7)) p.par["n"] = 1;
      int64_t bad = steady || r.chance(0.5) ? 0 : r.range(1, 18);
      for (int i = 0; i < k; i++) {
        conn_op(p, r, w, r.chance(0.8) ? 0 : bad, r.chance(0.5) ? (int)r.below(40) : (int)r.below(400));
        if (r.chance(0.3)) client_traffic(p, r, w, 1, r.chance(0.2), false);
        add(p, w, O_END, steady ? r.range(1000 * MS, 2500 * MS) : r.range(0, 3 * SEC), r.chance(0.8) ? 0 : 1);
      }
      p.par["recovery"] = 1;
    } else {
      for (int i = (int)r.range(20, 120); i > 0; i--) add(p, 0, O_UDP, gap(r), r.below(2), r.chance(0.5) ? huge(r) : r.logu(1, 2000000), 1);
    }
    p.par["endall"] = r.below(2);
  } else if (f == "affinity") {
    common(p, r, 5);
    p.par["affinity"] = 1;
    int k = (int)r.range(4, 40);
    int nc = (int)r.range(2, 8);
    std::vector<int> on(8, 0);
    int alike = r.chance(0.4);
    for (int i = 0; i < k; i++) {
      int w = (int)r.below((uint64_t)nc);
      // callsigns of a small pool, with colliding hashes
      static const int pools[][8] = {{0, 1, 4, 5, 6, 8, 2, 3}, {32, 33, 34, 35, 36, 37, 38, 39}};
      const int* pool = pools[alike];
      if (!on[w]) {
        conn_op(p, r, w, 0, pool[r.chance(0.7) ? (uint64_t)w : r.below(8)]);
        on[w] = 1;
        // what clients send must not influence the choice either
        if (r.chance(0.15)) for (int j = (int)r.range(1, 3); j > 0; j--) add(p, w, O_UDP, r.range(0, 50 * MS), r.below(2), usize(r), 1);
        if (r.chance(0.15)) { add(p, w, O_OPEN, r.range(0, 500 * MS), 0, 0, r.chance(0.5) ? 0 : r.logu(1, 6000), 0); add(p, w, O_TDATA, r.range(0, 500 * MS), dsize(r), r.range(1, 3)); }
      }
      else { add(p, w, O_END, gap(r), r.below(2)); on[w] = 0; }
    }
  } else if (f == "close" || f == "closereg" || f == "reconf") {
    bool rc = f == "reconf";
    common(p, r, 4);
    int n = (int)p.p("n");
    bufs(p, r);
    if (f == "closereg" || (rc && r.chance(0.5)) || r.chance(0.25)) {
      registrar(p, r);
      if (r.chance(0.5)) { p.par["regmode"] = r.range(0, 14); if (r.chance(0.4)) p.par["regdelay"] = r.range(0, 40 * SEC); }
    }
    int clients = (int)r.range(1, n + 2);
    for (int w = 0; w < clients; w++) {
      static const int odd[] = {5, 6, 6, 16, 7, 14, 2};
      int k = (int)r.range(1, 4);
      for (int i = 0; i < k; i++) {
        conn_op(p, r, w, r.chance(0.7) ? 0 : odd[r.below(7)]);
        client_traffic(p, r, w, (int)r.below(6), r.chance(0.7), true);
        if (r.chance(0.12)) wedge(p, r, w);
        if (r.chance(0.3)) end_op(p, r, w, r.chance(0.2));
      }
    }
    inbound(p, r, (int)r.below(12));
    net_faults(p, r, 1);
    if (r.chance(0.9)) p.par["close_at"] = r.chance(0.3) ? r.range(1, 20 * MS) : r.logu(1000, 40 * SEC);
    if (r.chance(0.2)) add(p, -1, O_SHUTDOWN, gap(r));
    if (r.chance(0.3)) add(p, -1, O_DROP, gap(r));
    p.par["reopen"] = r.chance(0.5);
    p.par["close_mode2"] = r.below(2);
    if (f == "closereg") p.par["checkreg"] = 1;
    if (rc) { if (r.chance(0.5)) p.par["deny"] = r.range(0, 6); if (r.chance(0.5)) p.par["allow"] = r.range(0, 6); p.par["reopen"] = 1; p.par["reconf"] = (int64_t)(r.next() >> 2) | 1; p.par["checkreg"] = p.par.count("regname") || p.par.count("regnamelen"); }
  } else if (f == "soak") {
    common(p, r, 3);
    int n = (int)p.p("n");
    p.par["soak"] = r.range(4, 9);
    if (r.chance(0.25)) registrar(p, r);
    if (r.chance(0.5)) net_faults(p, r, 1);
    if (r.chance(0.3)) err_faults(p, r);
    if (r.chance(0.2)) c.rate[K_ACCEPT] = 0.05;
    if (r.chance(0.2)) {
      p.par["resource"] = 1;
      double q = r.chance(0.5) ? 0.01 : 0.06;
      if (r.chance(0.4)) c.rate[K_BIND] = q;
      if (r.chance(0.3)) c.rate[K_SOCKET] = q;
      if (r.chance(0.3)) c.rate[K_ALLOC] = q;
      if (r.chance(0.3)) c.rate[K_GAI] = q;
      if (r.chance(0.3)) c.rate[K_PCRE_MATCH] = q;
    }
    p.par["deny"] = r.chance(0.5) ? 0 : r.range(1, 6);
    int clients = (int)r.range(1, n + 1);
    for (int w = 0; w < clients; w++) {
      int k = (int)r.range(1, 3);
      for (int i = 0; i < k; i++) {
        conn_op(p, r, w, r.chance(0.75) ? 0 : (int)r.range(1, 19));
        client_traffic(p, r, w, (int)r.below(5), r.chance(0.6), false);
        if (r.chance(0.7)) add(p, w, O_END, gap(r), r.chance(0.7) ? 0 : 1);
      }
    }
    inbound(p, r, (int)r.below(5));
    p.par["endall"] = r.chance(0.3);
  } else if (f == "isolate") {
    common(p, r, 4);
    int n = (int)(p.par["n"] = r.range(2, 4));
    p.par["wild"] = 0;
    p.par["isolate"] = 1;
    p.par["sndbuf"] = r.chance(0.5) ? 8192 : 16384;
    if (r.chance(0.4)) { registrar(p, r); p.par["regmode"] = r.range(0, 14); if (r.chance(0.4)) p.par["regdelay"] = r.range(0, 40 * SEC); }
    if (r.chance(0.3)) { c.rate[K_SHORTSEND] = 0.1; c.rate[K_SHORTRECV] = 0.1; }
    // one client which behaves and whose delays are measured
    int rounds = (int)r.range(1, 3);
    for (int k = 0; k < rounds; k++) {
      add(p, 0, O_CONN, r.chance(0.5) ? gap(r) : r.range(0, 10 * SEC), 0, (int64_t)r.below(24), 0, 0);
      add(p, 0, O_UDP, r.range(0, 2 * SEC), r.below(2), r.range(1, 200), 1);
      int m = (int)r.range(3, 20);
      for (int i = 0; i < m; i++)
        switch (r.below(8)) {
          case 0: case 1: add(p, 0, O_UDP, gap(r), r.below(2), r.range(1, 1400), 1); break;
          case 2: add(p, 0, O_OPEN, gap(r), 0, r.range(0, 100 * MS), r.chance(0.5) ? 0 : r.range(1, 3000), r.chance(0.6) ? 0 : 1); break;
          case 3: add(p, 0, O_TDATA, gap(r), r.range(1, 1500), r.range(1, 2)); break;
          case 4: add(p, 0, O_RSEND, gap(r), r.range(1, 2000)); break;
          case 5: if (r.chance(0.3)) add(p, 0, O_TCLOSE, gap(r)); else add(p, 0, O_WAIT, 0, r.range(0, 3 * SEC)); break;
          default: add(p, 0, O_WAIT, 0, r.range(0, 12 * SEC)); break;
        }
      add(p, 0, O_END, gap(r), r.below(2));
      add(p, 0, O_WAIT, 0, r.range(8, 15) * SEC);
    }
    // others in every sort of trouble
    for (int w = 1; w < n; w++) {
      conn_op(p, r, w, r.chance(0.75) ? 0 : r.chance(0.5) ? 6 : 16);
      int k = (int)r.range(1, 4);
      for (int i = 0; i < k; i++)
        switch (r.below(7)) {
          case 0: add(p, w, O_PAUSE, gap(r), r.range(20, 120) * SEC); break;
          case 1: add(p, w, O_OPEN, gap(r), r.chance(0.6) ? 2 : 0, r.range(10, 60) * SEC, 0, 0); break;
          case 2: wedge(p, r, w); break;
          case 3: add(p, w, O_OPEN, gap(r), 0, 0, r.logu(20000, 200000), r.below(3)); add(p, w, O_PAUSE, gap(r), r.range(20, 120) * SEC); break;
          case 4: add(p, w, O_UDP, gap(r), r.below(2), usize(r), r.range(1, 12)); break;
          case 5: client_traffic(p, r, w, 3, true, true); break;
          default: add(p, w, O_WAIT, 0, r.range(0, 20 * SEC)); break;
        }
      if (r.chance(0.4)) add(p, w, O_END, gap(r), r.below(3));
    }
    int k = (int)r.range(5, 30);
    for (int i = 0; i < k; i++) {
      if (r.chance(0.5)) add(p, 0, O_IN, gap(r), 1000, r.below(2), r.range(1, 500), 1);
      else add(p, 0, O_IN, gap(r), r.below(8), r.below(2), insize(r), r.chance(0.5) ? 1 : r.range(5, 40));
    }
    p.par["endall"] = r.chance(0.3);
  } else if (f == "shutdown") {
    common(p, r, 4);
    int n = (int)p.p("n");
    if (r.chance(0.25)) { registrar(p, r); p.par["checkreg"] = r.below(2); }
    int clients = (int)r.range(1, n + 2);
    bool stuck = false;   // a session which waits for its remote host
    for (int w = 0; w < clients; w++) {
      int k = (int)r.range(1, 5);
      for (int i = 0; i < k; i++) {
        conn_op(p, r, w, r.chance(0.85) ? 0 : r.chance(0.5) ? 6 : 16);
        client_traffic(p, r, w, (int)r.below(8), r.chance(0.5), r.chance(0.5));
        if (r.chance(0.12)) { wedge(p, r, w); stuck = true; }
        if (r.chance(0.4)) end_op(p, r, w);
      }
    }
    inbound(p, r, (int)r.below(12));
    if (r.chance(0.3)) net_faults(p, r, 1);
    int k = (int)r.range(1, 3);
    for (int i = 0; i < k; i++) add(p, -1, O_DROP, r.chance(0.5) ? gap(r) : r.logu(1000, 20 * SEC), 0, stuck && r.chance(0.6));
    if (r.chance(0.7)) {
      size_t at = p.ops.size() - r.below((uint64_t)k + 1);
      Op o;
      o.who = -1; o.kind = O_SHUTDOWN; o.gap = r.chance(0.5) ? gap(r) : r.logu(1000, 20 * SEC);
      if (r.chance(0.3)) { o.b = r.range(1, 4); o.c = r.logu(1, 200 * MS); if (r.chance(0.7)) o.gap = 0; }
      p.ops.insert(p.ops.begin() + (long)at, o);
    }
    p.par["endall"] = r.below(2);
    if (r.chance(0.3)) p.par["recovery"] = 1;
  } else if (f == "registrar" || f == "regfail") {
    common(p, r, 5);
    registrar(p, r);
    int n = (int)p.p("n");
    if (!r.chance(0.1)) churn(p, r, (int)r.range(1, n + 1), (int)r.range(1, 5), 2, false, false);
    if (r.chance(0.3)) for (int i = 0; i < 3; i++) add(p, -1, O_JUMP, r.range(0, 900 * SEC), r.chance(0.5) ? r.range(-4000, 4000) * SEC : r.range(-100, 100) * MS);
    if (f == "regfail") {
      int k = (int)r.range(1, 4);
      p.par["regmode"] = r.chance(0.5) ? 0 : r.range(0, 14);
      for (int i = 0; i < k; i++) add(p, -1, O_REGMODE, r.chance(0.5) ? r.range(0, 5 * SEC) : r.range(0, 700 * SEC), r.range(0, 14), r.chance(0.3) ? r.range(0, 30 * SEC) : 0);
      add(p, -1, O_REGMODE, r.range(0, 100 * SEC), 0, 0);
      net_faults(p, r, 1);
      if (r.chance(0.3)) c.rate[K_CONNECT] = 0.3;
      if (r.chance(0.3)) c.rate[K_SENDERR] = 0.05;
    } else {
      if (r.chance(0.4)) net_faults(p, r, 0.5);
      c.rate[K_CONNECT] = 0;
    }
    if (r.chance(0.15)) add(p, -1, O_DROP, r.range(0, 5 * SEC));
    if (r.chance(0.15)) add(p, -1, O_SHUTDOWN, r.range(0, 5 * SEC));
    p.par["checkreg"] = 1;
    p.par["endall"] = r.below(2);
    p.par["reopen"] = r.chance(0.3);
  } else if (f == "setup") {
    common(p, r, 5);
    p.par["resource"] = 1;
    p.par["setupfaults"] = 1;
    p.par["faults"] = r.chance(0.3);
    p.par["checkreg"] = !p.p("faults") && r.chance(0.5);
    p.par["restart"] = r.below(2);
    p.par["reopen_on_start"] = r.below(2);
    p.par["deny"] = r.below(3);
    p.par["allow"] = r.below(2);
    bool reg = r.chance(0.7);
    if (reg) registrar(p, r);
    static const K ks[] = {K_ALLOC, K_ALLOC, K_THREAD, K_SOCKET, K_BIND, K_LISTEN, K_SOCKOPT, K_GAI, K_SYNCINIT, K_PCRE_ALLOC, K_FOPEN, K_FREAD};
    int k = (int)r.range(1, 3);
    for (int i = 0; i < k; i++) {
      K x = ks[r.below(12)];
      if (r.chance(0.7)) c.fail_at[x] = (int64_t)r.logu(1, x == K_ALLOC ? 120 : 30) - 1;
      else c.rate[x] = r.chance(0.5) ? 0.02 : 0.1;
    }
    // the last thread and allocation of starting are those of the registration
    if (reg && r.chance(0.15)) {
      for (K x : {K_ALLOC, K_THREAD}) { c.fail_at[x] = -1; c.rate[x] = 0; }
      int64_t t = 4 * p.p("n", 1);
      bool both = r.chance(0.3);   // one attempt after the other fails, each in its own way
      if (both || r.chance(0.6)) c.fail_at[K_THREAD] = t;
      if (both || c.fail_at[K_THREAD] < 0) c.fail_at[K_ALLOC] = both ? r.range(20, 110) : r.range(20, 160);
      if (both && r.chance(0.8)) p.par["reopen_on_start"] = 0;
    }
    if (r.chance(0.2)) c.rate[K_FSHORT] = 0.3;
    churn(p, r, (int)r.range(1, 3), 2, 3, r.chance(0.5), false);
    p.par["recovery"] = 1;
    p.par["endall"] = 1;
    p.par["reopen"] = r.chance(0.3);
  } else if (f == "hostile") {
    common(p, r, 3);
    bufs(p, r);
    int n = (int)p.p("n");
    int clients = (int)r.range(1, n + 1);
    for (int w = 0; w < clients; w++) {
      bool bad = r.chance(0.6);
      int k = (int)r.range(1, 5);
      for (int i = 0; i < k; i++) {
        conn_op(p, r, w, r.chance(0.85) ? 0 : (int)r.range(1, 19));
        client_traffic(p, r, w, (int)r.below(5), r.chance(0.7), true);
        if (bad) for (int j = 0; j < (int)r.range(1, 4); j++) { add(p, w, O_RAW, gap(r), r.below(11), r.below(1000000), r.logu(1, 9000)); if (r.chance(0.5)) client_traffic(p, r, w, 2, true, false); }
        if (r.chance(0.6)) end_op(p, r, w, r.chance(0.3));
      }
    }
    inbound(p, r, (int)r.below(12));
    net_faults(p, r, 1);
    if (r.chance(0.3)) err_faults(p, r);
    p.par["endall"] = 1;
    p.par["recovery"] = 1;
  } else if (f == "daemon" || f == "dstart") {
    common(p, r, 4);
    p.par["daemon"] = 1;
    p.par["wild"] = p.par["n"] == 1 && r.chance(0.5);
    p.par["dconf"] = r.below(4);
    p.par["dlog"] = r.below(6);
    p.par["dfg"] = r.chance(0.5);
    p.par["ddebug"] = r.chance(0.4);
    p.par["dquiet"] = r.chance(0.25);
    p.par["dorder"] = r.below(16);
    p.par["dpos"] = r.below(8);
    if (r.chance(0.5)) p.par["dagain"] = r.range(1, 4);
    if (r.chance(0.25)) { registrar(p, r); if (r.chance(0.3)) p.par["regmode"] = r.range(0, 14); }
    int n = (int)p.p("n");
    if (f == "dstart") {
      if (r.chance(0.6)) {
        static const int ks[] = {1, 2, 3, 5, 6, 7, 8, 9, 20, 21, 22, 23, 24, 25, 26, 27, 28};
        int k = ks[r.below(17)];
        if (k == 8 || k == 9) p.par["dfg"] = 0;
        p.par["dstart"] = k;
        if (k == 5 || k == 8 || k == 9) {
          p.par["setupfaults"] = 1;
          static const K b[] = {K_BIND, K_LISTEN, K_SOCKET, K_SOCKOPT};
          c.fail_at[k == 5 ? b[r.below(3)] : k == 8 ? K_FORK : K_SYS] = k == 9 ? (int64_t)r.below(2) : 0;
        }
      } else if (r.chance(0.7)) {
        p.par["setupfaults"] = 1;
        p.par["resource"] = 1;
        static const K ks[] = {K_ALLOC, K_ALLOC, K_THREAD, K_SOCKET, K_BIND, K_LISTEN, K_SOCKOPT, K_GAI, K_SYNCINIT, K_PCRE_ALLOC, K_FOPEN, K_FREAD};
        int k = (int)r.range(1, 2);
        for (int i = 0; i < k; i++) {
          K x = ks[r.below(12)];
          if (r.chance(0.7)) c.fail_at[x] = (int64_t)r.logu(1, x == K_ALLOC ? 120 : 30) - 1;
          else c.rate[x] = r.chance(0.5) ? 0.02 : 0.1;
        }
        p.par["faults"] = 0;
        p.par["deny"] = r.below(3);
      } else if (r.chance(0.2)) {
        p.par["dparent"] = 1;
        p.par["dfg"] = 0;
      } else {
        p.par["dsig_start"] = 1 + (r.chance(0.5) ? r.range(0, 400) : r.logu(1, 60 * SEC));
        p.par["dsig"] = r.below(3);
      }
      churn(p, r, (int)r.range(1, n), 1, 3, false, false);
      p.par["recovery"] = r.chance(0.3);
    } else {
      int clients = (int)r.range(1, n + 2);
      bool tcp = r.chance(0.5);
      bool sig = r.chance(0.35);
      churn(p, r, clients, (int)r.range(1, 5), 5, tcp, false);
      inbound(p, r, (int)r.below(8));
      if (r.chance(0.6)) {
        net_faults(p, r, 1);
        if (r.chance(0.7)) c.rate[K_ACCEPT] = r.chance(0.5) ? 0.05 : 0.4;
        if (r.chance(0.4)) {
          p.par["resource"] = 1;
          double q = r.chance(0.5) ? 0.01 : 0.05;
          if (r.chance(0.5)) c.rate[K_ALLOC] = q;
          if (r.chance(0.3)) c.rate[K_SOCKOPT] = q;
          if (r.chance(0.3)) c.rate[K_SYNCINIT] = q;
          if (r.chance(0.3)) c.rate[K_BIND] = q;
          if (r.chance(0.3)) err_faults(p, r);
        }
        if (r.chance(0.3)) { p.par["resource"] = 1; add(p, -1, O_FDFULL, r.range(0, 2 * SEC), r.logu(1000, 20 * SEC), r.below(6)); }
        if (r.chance(0.3)) c.rate[K_FWRITE] = 0.05;
      }
      if (sig) {
        add(p, -1, O_SHUTDOWN, r.chance(0.5) ? gap(r) : r.logu(1, 20 * SEC));
        if (r.chance(0.3)) add(p, -1, O_SIGNAL, r.logu(1, 5 * SEC));
      }
      if (r.chance(0.5)) p.par["close_at"] = r.chance(0.4) ? r.range(1, 5 * MS) : r.logu(100, 40 * SEC);
      if (p.p("regname")) p.par["checkreg"] = r.chance(0.4) && !c.rate[K_ALLOC] && !p.p("regmode");
      p.par["endall"] = r.below(2);
      p.par["recovery"] = r.chance(0.5);
      p.par["endall2"] = r.below(2);
    }
  } else if (f == "vanish") {
    common(p, r, 3);
    bufs(p, r);
    int n = (int)p.p("n");
    int clients = (int)r.range(1, n + 1);
    for (int w = 0; w < clients; w++) {
      int k = (int)r.range(1, 3);
      for (int i = 0; i < k; i++) {
        conn_op(p, r, w, r.chance(0.75) ? 0 : r.chance(0.5) ? 6 : 16);
        client_traffic(p, r, w, (int)r.below(5), r.chance(0.6), true);
        add(p, w, O_END, gap(r), r.chance(0.7) ? 2 : r.range(0, 1));
      }
    }
    inbound(p, r, (int)r.below(20));
    p.par["endall"] = 1;
    p.par["recovery"] = 1;
  }
  if (r.chance(0.5)) {
    static const int ports[] = {7, 80, 443, 1024, 5198, 5199, 8101, 9999, 10000, 32767, 32768, 65535};
    p.par["port"] = r.chance(0.5) ? ports[r.below(12)] : (int)r.range(1, 65535);
    if (p.par["port"] == 5200) p.par["port"] = 5201;   // a client could open a connection to the proxy itself
  } else if (r.chance(0.3)) p.par["portline"] = 0;
}
}  // namespace pw

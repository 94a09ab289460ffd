// Runner: seeded search over plans, reproducibility gate, minimisation, replay.
#include "plan.h"
#include "env.h"
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <unordered_set>

namespace sim {
std::vector<World>& worlds() { static std::vector<World> w; return w; }
std::function<void()> dump_run;
void gen_sched(Plan& p, Rng& r) {
  Config& c = p.cfg;
  switch (r.below(8)) {
    case 0: case 1: c.strategy = 0; c.p_switch = 0.5; break;
    case 2: case 3: c.strategy = 0; c.p_switch = 0.1; break;
    case 4: c.strategy = 0; c.p_switch = 0.02; break;
    case 5: case 6: c.strategy = 1; c.pct_depth = 1 + (int)r.below(6); break;
    default: c.strategy = 2; break;
  }
  c.mem_gap = r.chance(0.45) ? (uint64_t)r.logu(20, 4000) : 0;
  switch (r.below(3)) {
    case 0: c.net_min = 20; c.net_max = 300; break;
    case 1: c.net_min = 20; c.net_max = 5 * MS; break;
    default: c.net_min = 20; c.net_max = 80 * MS; break;
  }
  c.p_spur = r.chance(0.3) ? 0.02 : 0;
  c.p_jump = r.chance(0.3) ? 0.02 : 0;
}
}  // namespace sim
using namespace sim;

struct Shared {
  volatile int stop;
  volatile int64_t found;           // lowest index with a violation, or INT64_MAX
  uint64_t hashes_n;
  struct Found { int64_t idx; int status; char cls[64]; char msg[3000]; } f[64];
  volatile int nf;
};
static const uint64_t TRACE_CAP = 4u << 20;
static Shared* sh;
static Stats* wstats;
static Result* wres;
static Dec* tbuf;
static uint64_t* hashes;            // one per run: schedule hash, 0 if not non-trivial
static char (*samples)[1200];
static const int NW_MAX = 16;
static int NW = 8;
struct Part { std::string world, profile; int weight; };
static std::vector<Part> parts;
static uint64_t base_seed = 1;

template <class T> static T* shm(size_t n) {
  void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (T*)p;
}
static World* find_world(const std::string& n) {
  for (auto& w : worlds()) if (n == w.name) return &w;
  fprintf(stderr, "no world %s\n", n.c_str());
  exit(3);
}
static Plan make_plan(uint64_t idx) {
  Rng r;
  uint64_t seed = hash64(base_seed * 1000003 + 17, idx);
  r.seed(seed);
  int tot = 0;
  for (auto& p : parts) tot += p.weight;
  int x = (int)r.below(tot);
  size_t i = 0;
  while (x >= parts[i].weight) x -= parts[i++].weight;
  Plan p;
  p.world = parts[i].world;
  p.profile = parts[i].profile;
  p.cfg.seed = seed;
  p.par["index"] = (int64_t)idx;
  find_world(p.world)->gen(p, r);
  return p;
}
static int wall_limit = 60;
// runs one plan in a child; the result is in `result`
static bool keep_trace = false;
static void run_child(const Plan& p, const std::vector<Dec>* replay) {
  fflush(stdout);
  memset(result, 0, sizeof *result);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    alarm(wall_limit);
    cfg = p.cfg;
    if (replay) set_replay(*replay);
    if (keep_trace)
      dump_run = [] {
        size_t n = std::min<size_t>(trace.size(), TRACE_CAP);
        if (n) memcpy(tbuf, trace.data(), n * sizeof(Dec));
      };
    stats->runs++;
    env_init();
    find_world(p.world)->exec(p);
    engine_error("world returned");
  }
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (result->status == 0) {
    result->status = 3;
    if (WIFSIGNALED(st)) snprintf(result->msg, sizeof result->msg, "run ended by signal %d%s", WTERMSIG(st), WTERMSIG(st) == SIGALRM ? " (wall-clock limit)" : "");
    else snprintf(result->msg, sizeof result->msg, "run ended with status %d", WEXITSTATUS(st));
  }
}
static void worker(int w, int64_t n, int64_t first, double deadline_s, double t0) {
  stats = &wstats[w];
  result = &wres[w];
  auto nowd = [] { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; };
  uint64_t det = 0;
  for (int64_t i = first + w; i < first + n; i += NW) {
    if (sh->stop || i > sh->found) break;
    if (nowd() - t0 > deadline_s) break;
    Plan p = make_plan((uint64_t)i);
    run_child(p, nullptr);
    Result r1 = *result;
    if (r1.status == 1 && r1.nontrivial && i - first < 5000000) {
      hashes[i - first] = r1.sched_hash ? r1.sched_hash : 1;
      if (i - first < 8 * NW_MAX) memcpy(samples[i - first], r1.sample, sizeof r1.sample);
    }
    bool again = r1.status == 2 || (++det % 64) == 1;
    if (again && r1.status != 3) {
      run_child(p, nullptr);
      if (result->trace_hash != r1.trace_hash || result->status != r1.status || strcmp(result->cls, r1.cls)) {
        r1.status = 3;
        snprintf(r1.msg, sizeof r1.msg, "run %lld is not reproducible: %llx/%d/%s then %llx/%d/%s", (long long)i, (unsigned long long)r1.trace_hash, r1.status, r1.cls, (unsigned long long)result->trace_hash, result->status, result->cls);
      }
    }
    if (r1.status != 1) {
      int k = __sync_fetch_and_add(&sh->nf, 1);
      if (k < 64) {
        sh->f[k].idx = i;
        memcpy(sh->f[k].cls, r1.cls, sizeof r1.cls);
        memcpy(sh->f[k].msg, r1.msg, sizeof r1.msg);
        sh->f[k].status = r1.status;
      }
      int64_t f;
      while ((f = sh->found) > i && !__sync_bool_compare_and_swap(&sh->found, f, i)) {}
    }
  }
  _exit(0);
}
// ---- replay files -----------------------------------------------------------------------------------------------
static void write_plan(FILE* f, const Plan& p, const std::vector<Dec>& d, const std::string& rel, const char* cls) {
  World* w = find_world(p.world);
  fprintf(f, "openelp-sim-replay 1\nworld %s\nprofile %s\nrelevant %s\nexpect %s\n", p.world.c_str(), p.profile.c_str(), rel.c_str(), cls);
  const Config& c = p.cfg;
  fprintf(f, "cfg %llu %d %.17g %llu %d %.17g %lld %lld %lld %.17g\n", (unsigned long long)c.seed, c.strategy, c.p_switch, (unsigned long long)c.mem_gap, c.pct_depth, c.p_jump, (long long)c.max_stall, (long long)c.net_min, (long long)c.net_max, c.p_spur);
  for (int i = 0; i < K_N; i++) {
    if (c.rate[i] > 0) fprintf(f, "rate %s %.17g\n", kname[i], c.rate[i]);
    if (c.fail_at[i] >= 0) fprintf(f, "failat %s %lld\n", kname[i], (long long)c.fail_at[i]);
  }
  for (auto& kv : p.par) fprintf(f, "param %s %lld\n", kv.first.c_str(), (long long)kv.second);
  for (auto& o : p.ops) fprintf(f, "op %d %s %lld %lld %lld %lld %lld\n", o.who, w->opnames[o.kind], (long long)o.gap, (long long)o.a, (long long)o.b, (long long)o.c, (long long)o.d);
  for (auto& x : d) fprintf(f, "dec %s %llu %llu\n", kname[x.k], (unsigned long long)x.idx, (unsigned long long)x.val);
}
static int kind_of(const std::string& s) {
  for (int i = 0; i < K_N; i++) if (s == kname[i]) return i;
  fprintf(stderr, "unknown decision kind %s\n", s.c_str());
  exit(3);
}
static Plan read_plan(const char* path, std::vector<Dec>& d, std::string& rel, std::string& cls) {
  std::ifstream f(path);
  if (!f) { fprintf(stderr, "cannot open %s\n", path); exit(3); }
  Plan p;
  std::string line;
  World* w = nullptr;
  while (std::getline(f, line)) {
    std::istringstream s(line);
    std::string k, t;
    s >> k;
    if (k == "world") { s >> p.world; w = find_world(p.world); }
    else if (k == "profile") s >> p.profile;
    else if (k == "relevant") { s >> rel; }
    else if (k == "expect") { std::getline(s, cls); if (!cls.empty() && cls[0] == ' ') cls.erase(0, 1); }
    else if (k == "cfg") {
      unsigned long long a, b; long long c1, c2, c3;
      s >> a >> p.cfg.strategy >> p.cfg.p_switch >> b >> p.cfg.pct_depth >> p.cfg.p_jump >> c1 >> c2 >> c3 >> p.cfg.p_spur;
      p.cfg.seed = a; p.cfg.mem_gap = b; p.cfg.max_stall = c1; p.cfg.net_min = c2; p.cfg.net_max = c3;
    } else if (k == "rate") { double v; s >> t >> v; p.cfg.rate[kind_of(t)] = v; }
    else if (k == "failat") { long long v; s >> t >> v; p.cfg.fail_at[kind_of(t)] = v; }
    else if (k == "param") { long long v; s >> t >> v; p.par[t] = v; }
    else if (k == "op") {
      Op o; s >> o.who >> t >> o.gap >> o.a >> o.b >> o.c >> o.d;
      size_t i = 0;
      while (i < w->opnames.size() && t != w->opnames[i]) i++;
      o.kind = (int)i;
      p.ops.push_back(o);
    } else if (k == "dec") { Dec x; unsigned long long a, b; s >> t >> a >> b; x.k = kind_of(t); x.idx = a; x.val = b; d.push_back(x); }
  }
  return p;
}
// ---- minimisation -----------------------------------------------------------------------------------------------
struct Mini {
  Plan p;
  std::vector<Dec> d;
  std::string cls;
  int runs = 0;
  double t_end;
  static double nowd() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
  bool out() { return nowd() > t_end; }
  bool fails(const Plan& q, const std::vector<Dec>& e) {
    runs++;
    run_child(q, &e);
    return result->status == 2 && cls == result->cls;
  }
  template <class T, class F> void ddmin(std::vector<T>& v, F test) {
    size_t n = 2;
    while (v.size() >= 1 && !out()) {
      size_t len = (v.size() + n - 1) / n;
      bool reduced = false;
      for (size_t i = 0; i < v.size() && !out(); i += len) {
        std::vector<T> c(v.begin(), v.begin() + i);
        c.insert(c.end(), v.begin() + std::min(v.size(), i + len), v.end());
        if (test(c)) { v = c; reduced = true; n = std::max<size_t>(n - 1, 2); break; }
      }
      if (!reduced) {
        if (len <= 1) break;
        n = std::min(n * 2, v.size());
      }
    }
  }
  void go() {
    if (!fails(p, d)) return;
    for (int round = 0; round < 2 && !out(); round++) {
      ddmin(p.ops, [&](const std::vector<Op>& o) { Plan q = p; q.ops = o; return fails(q, d); });
      ddmin(d, [&](const std::vector<Dec>& e) { return fails(p, e); });
      // smaller gaps and values
      for (size_t i = 0; i < p.ops.size() && !out(); i++) {
        Plan q = p;
        if (q.ops[i].gap > 1000) { q.ops[i].gap = 1000; if (fails(q, d)) p = q; }
      }
    }
  }
};
static std::string json(const std::string& s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
static void split(const std::string& s, char sep, std::vector<std::string>& o) {
  std::istringstream is(s);
  std::string t;
  while (std::getline(is, t, sep)) if (!t.empty()) o.push_back(t);
}

int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  std::string cmd = argc > 1 ? argv[1] : "";
  std::map<std::string, std::string> a;
  for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  sh = shm<Shared>(1);
  wstats = shm<Stats>(NW_MAX + 1);
  wres = shm<Result>(NW_MAX + 1);
  tbuf = shm<Dec>(TRACE_CAP);
  hashes = shm<uint64_t>(5000001);
  samples = (char(*)[1200])shm<char>(1200 * 8 * NW_MAX);
  stats = &wstats[NW_MAX];
  result = &wres[NW_MAX];
  mem_init();
  auto nowd = [] { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; };
  if (a.count("-v")) verbose = true;
  if (a.count("-limit")) wall_limit = atoi(a["-limit"].c_str());
  if (cmd == "replay") {
    std::vector<Dec> d;
    std::string rel, cls;
    Plan p = read_plan(a["-file"].c_str(), d, rel, cls);
    split(rel, ',', relevant);
    run_child(p, &d);
    printf("status %d\nclass %s\nhash %llx\nmessage %s\n", result->status, result->cls, (unsigned long long)result->trace_hash, result->msg);
    return result->status == 2 ? 1 : result->status == 1 ? 0 : 3;
  }
  split(a["-relevant"], ',', relevant);
  std::vector<std::string> ps;
  split(a["-parts"], ',', ps);
  for (auto& s : ps) {
    std::vector<std::string> f;
    split(s, ':', f);
    parts.push_back({f[0], f[1], f.size() > 2 ? atoi(f[2].c_str()) : 1});
  }
  if (a.count("-seed")) base_seed = strtoull(a["-seed"].c_str(), nullptr, 10);
  if (a.count("-jobs")) NW = atoi(a["-jobs"].c_str());
  if (NW > NW_MAX) NW = NW_MAX;
  if (cmd == "one") {  // one run by index
    uint64_t idx = strtoull(a["-index"].c_str(), nullptr, 10);
    Plan p = make_plan(idx);
    if (a.count("-show")) write_plan(stdout, p, {}, a["-relevant"], "?");
    run_child(p, nullptr);
    printf("status %d class %s hash %llx sched %llx ntrace %d nontrivial %d\nmsg %s\nsample %s\n", result->status, result->cls, (unsigned long long)result->trace_hash, (unsigned long long)result->sched_hash, result->ntrace, result->nontrivial, result->msg, result->sample);
    return result->status == 1 ? 0 : 1;
  }
  if (cmd != "explore") { fprintf(stderr, "usage\n"); return 3; }
  int64_t n = atoll(a["-n"].c_str()), first = a.count("-first") ? atoll(a["-first"].c_str()) : 0;
  double secs = a.count("-secs") ? atof(a["-secs"].c_str()) : 1e9;
  int msecs = a.count("-minsecs") ? atoi(a["-minsecs"].c_str()) : 25;
  bool all = a.count("-all");        // survey: do not stop at the first violation
  sh->found = INT64_MAX;
  double t0 = nowd();
  std::vector<pid_t> kids;
  for (int w = 0; w < NW; w++) {
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      if (all) {
        // survey mode: print classes
        stats = &wstats[w];
        result = &wres[w];
        std::map<std::string, int> cnt;
        for (int64_t i = first + w; i < first + n && nowd() - t0 < secs; i += NW) {
          Plan p = make_plan((uint64_t)i);
          run_child(p, nullptr);
          if (result->status == 1 && result->nontrivial) hashes[i - first] = result->sched_hash | 1;
          if (result->status != 1) {
            std::string k = result->status == 3 ? "ENGINE" : result->cls;
            if (cnt[k]++ < 1) { printf("[%lld] %s: %s\n", (long long)i, k.c_str(), result->msg); fflush(stdout); }
          }
        }
        for (auto& kv : cnt) printf("count %s %d\n", kv.first.c_str(), kv.second);
        fflush(stdout);
        _exit(0);
      }
      worker(w, n, first, secs, t0);
    }
    kids.push_back(pid);
  }
  for (auto k : kids) { int st; while (waitpid(k, &st, 0) < 0 && errno == EINTR) {} }
  double explored = nowd() - t0;
  // totals
  Stats tot;
  memset(&tot, 0, sizeof tot);
  for (int w = 0; w < NW; w++)
    for (size_t i = 0; i < sizeof(Stats) / sizeof(uint64_t); i++) ((uint64_t*)&tot)[i] += ((uint64_t*)&wstats[w])[i];
  std::unordered_set<uint64_t> hs;
  uint64_t nontrivial = 0;
  int64_t lim = std::min<int64_t>(n, 5000000);
  for (int64_t i = 0; i < lim; i++) if (hashes[i]) { nontrivial++; hs.insert(hashes[i]); }
  // the violation with the lowest index; engine errors only if there is none
  int best = -1;
  int nf = sh->nf < 64 ? sh->nf : 64;
  for (int k = 0; k < nf; k++)
    if (best < 0 || sh->f[k].idx < sh->f[best].idx) best = k;
  std::string vio = "null";
  int rc = 0;
  if (best >= 0) {
    auto& F = sh->f[best];
    if (F.status != 2) {
      printf("ENGINE-ERROR run %lld: %s\n", (long long)F.idx, F.msg);
      rc = 3;
    } else {
      Mini m;
      m.p = make_plan((uint64_t)F.idx);
      m.cls = F.cls;
      keep_trace = true;
      run_child(m.p, nullptr);
      m.d.assign(tbuf, tbuf + std::min<size_t>(result->ntrace, TRACE_CAP));
      keep_trace = false;
      size_t ops0 = m.p.ops.size(), d0 = m.d.size();
      m.t_end = nowd() + msecs;
      Plan orig = m.p;
      std::vector<Dec> od = m.d;
      m.go();
      if (!m.fails(m.p, m.d)) { m.p = orig; m.d = od; m.fails(m.p, m.d); }
      Result rr = *result;
      std::string path = a["-replay"];
      FILE* f = fopen(path.c_str(), "w");
      if (!f) { perror(path.c_str()); return 3; }
      write_plan(f, m.p, m.d, a["-relevant"], F.cls);
      fclose(f);
      printf("minimised: %zu -> %zu operations, %zu -> %zu decisions, %d runs\n", ops0, m.p.ops.size(), d0, m.d.size(), m.runs);
      std::ostringstream o;
      o << "{\"index\":" << F.idx << ",\"class\":" << json(F.cls) << ",\"message\":" << json(rr.status == 2 ? rr.msg : F.msg) << ",\"ops\":" << m.p.ops.size() << ",\"decisions\":" << m.d.size() << ",\"hash\":\"" << std::hex << rr.trace_hash << "\"}";
      vio = o.str();
      rc = 1;
    }
  }
  if (a.count("-json")) {
    std::ofstream o(a["-json"]);
    o << "{\"runs\":" << tot.runs << ",\"explored_s\":" << explored << ",\"sim_s\":" << tot.sim_us / 1000000 << ",\"steps\":" << tot.steps << ",\"switches\":" << tot.switches
      << ",\"mem_accesses\":" << tot.mem_acc << ",\"threads\":" << tot.threads << ",\"allocs\":" << tot.allocs << ",\"sockets\":" << tot.sockets << ",\"ops\":" << tot.ops << ",\"other_ignored\":" << tot.violations_other
      << ",\"nontrivial\":" << nontrivial << ",\"distinct\":" << hs.size() << ",\"faults\":{";
    bool c = false;
    for (int i = K_FIRST_FAULT; i < K_N; i++) if (tot.fault[i]) { o << (c ? "," : "") << "\"" << kname[i] << "\":" << tot.fault[i]; c = true; }
    o << "},\"probes\":[";
    for (int i = 0; i < 64; i++) o << (i ? "," : "") << tot.probes[i];
    o << "],\"samples\":[";
    c = false;
    int ns = 0;
    for (int i = 0; i < 8 * NW_MAX && ns < 3; i++) if (samples[i][0]) { o << (c ? "," : "") << json(samples[i]); c = true; ns++; }
    o << "],\"violation\":" << vio << "}\n";
  }
  printf("runs %llu nontrivial %llu distinct %zu in %.1fs, simulated %.1fh, steps %llu\n", (unsigned long long)tot.runs, (unsigned long long)nontrivial, hs.size(), explored, tot.sim_us / 3.6e9, (unsigned long long)tot.steps);
  return rc;
}

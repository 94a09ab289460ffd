// Scheduler, simulated clock, decisions, violations.
#include "sim.h"
#include <errno.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <queue>
#include <unordered_map>

namespace sim {
const char* const kname[K_N] = {"sched", "mem", "jump", "spurious_wakeup", "wake_order", "net_delay", "segment", "retry", "rand",
  "thread_stall", "alloc_fail", "thread_create_fail", "socket_fail", "bind_fail", "listen_fail", "setsockopt_fail",
  "accept_fail", "connect_fail", "udp_send_fail", "tcp_send_fail", "tcp_recv_fail", "udp_recv_fail", "short_send", "short_recv",
  "name_lookup_fail", "sync_init_fail", "matcher_alloc_fail", "matcher_fail", "fopen_fail", "file_read_fail", "file_short_read",
  "file_write_fail", "fork_fail", "udp_loss", "clock_jump", "sys_fail", "descriptor_limit"};

Config cfg;
bool faults_on = true, replaying = false, verbose = false;
std::vector<Dec> trace;
static std::unordered_map<uint64_t, uint64_t> rmap[K_N];
static std::vector<uint64_t> rmem;  // sorted memory preemption points in replay
static size_t rmem_i = 0;
static uint64_t kcnt[K_N];
static Rng krng[K_N];
Stats* stats;
Result* result;
std::vector<std::string> relevant;

int64_t Rng::logu(int64_t a, int64_t b) {
  double x = unit();
  double l = log((double)a), h = log((double)b + 1);
  int64_t v = (int64_t)exp(l + x * (h - l));
  return v < a ? a : v > b ? b : v;
}
uint64_t hash64(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0xD1B54A32D192ED03ull + (a << 6) + (a >> 2));
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
void mix(uint64_t v) { result->trace_hash = hash64(result->trace_hash, v); }
void probe(int i) { stats->probes[i]++; }

void set_replay(const std::vector<Dec>& d) {
  replaying = true;
  for (auto& x : d) {
    rmap[x.k][x.idx] = x.val;
    if (x.k == K_MEM) rmem.push_back(x.idx);
  }
  std::sort(rmem.begin(), rmem.end());
}
static bool seeded = false;
static void seed_all() {
  if (seeded) return;
  seeded = true;
  for (int i = 0; i < K_N; i++) krng[i].seed(hash64(cfg.seed, 1000 + i));
}
uint64_t dec_raw(K k, const std::function<uint64_t(Rng&)>& gen) {
  seed_all();
  uint64_t idx = kcnt[k]++, v;
  if (replaying) {
    auto it = rmap[k].find(idx);
    v = it == rmap[k].end() ? 0 : it->second;
  } else {
    v = gen(krng[k]);
    if (v) trace.push_back({k, idx, v});
  }
  return v;
}
uint64_t pick(K k, uint64_t n) {
  if (n <= 1) return 0;
  uint64_t v = dec_raw(k, [n](Rng& r) { return r.below(n); });
  return v % n;
}
bool fault(K k) { return fault_val(k, 1) != 0; }
uint64_t fault_val(K k, uint64_t n) {
  if (!faults_on || (cfg.fail_at[k] < 0 && cfg.rate[k] <= 0)) return 0;
  seed_all();
  uint64_t idx = kcnt[k];
  uint64_t v = dec_raw(k, [&](Rng& r) -> uint64_t {
    if (cfg.fail_at[k] == (int64_t)idx) return 1 + r.below(n);
    if (r.chance(cfg.rate[k])) return 1 + r.below(n);
    return 0;
  });
  if (v) {
    v = 1 + (v - 1) % n;
    stats->fault[k]++;
    if (verbose) tlog("FAULT %s #%llu", kname[k], (unsigned long long)idx);
  }
  return v;
}
bool coin(K k, double p) {
  if (p <= 0) return false;
  return dec_raw(k, [p](Rng& r) -> uint64_t { return r.chance(p); }) != 0;
}
Time net_delay() {
  uint64_t v = dec_raw(K_NETDELAY, [](Rng& r) -> uint64_t { return r.logu(cfg.net_min, cfg.net_max); });
  return v ? (Time)v : cfg.net_min;
}

// ---- violations ------------------------------------------------------------------------------------------------
extern uint64_t g_acc;
static uint64_t g_steps = 0;
bool is_relevant(const char* cls) {
  if (cls[0] == '*') return true;
  for (auto& r : relevant)
    if (strncmp(cls, r.c_str(), r.size()) == 0) return true;
  return false;
}
static void end_process() {
  stats->mem_acc += g_acc;
  stats->steps += g_steps;
  result->ntrace = (int)trace.size();
  stats->sim_us += now();
  _exit(0);
}
static void vrecord(const char* cls, const char* fmt, va_list ap) {
  result->status = 2;
  snprintf(result->cls, sizeof result->cls, "%s", cls);
  int n = vsnprintf(result->msg, sizeof result->msg, fmt, ap);
  if (n < 0) n = 0;
  std::string bt = backtrace_str();
  if (n < (int)sizeof(result->msg)) snprintf(result->msg + n, sizeof(result->msg) - n, "\n  at t=%lldus in %s%s", (long long)now(), cur ? cur->name.c_str() : "environment", bt.c_str());
  if (verbose) { fflush(stdout); printf("VIOLATION %s: %s\n", result->cls, result->msg); fflush(stdout); }
}
extern std::function<void()> dump_run;
void violate(const char* cls, const char* fmt, ...) {
  if (!is_relevant(cls)) {
    stats->violations_other++;
    if (verbose) { va_list ap; va_start(ap, fmt); char b[512]; vsnprintf(b, 512, fmt, ap); va_end(ap); tlog("ignored %s: %s", cls, b); }
    return;
  }
  va_list ap;
  va_start(ap, fmt);
  vrecord(cls, fmt, ap);
  va_end(ap);
  if (dump_run) dump_run();
  end_process();
}
void fatal_violation(const char* cls, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vrecord(cls, fmt, ap);
  va_end(ap);
  if (dump_run) dump_run();
  end_process();
  abort();
}
void engine_error(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  result->status = 3;
  vsnprintf(result->msg, sizeof result->msg, fmt, ap);
  va_end(ap);
  if (verbose) printf("ENGINE ERROR %s\n", result->msg), fflush(stdout);
  if (dump_run) dump_run();
  end_process();
  abort();
}
void finish_ok() {
  result->status = 1;
  if (dump_run) dump_run();
  end_process();
  abort();
}
void tlog(const char* fmt, ...) {
  if (!verbose) return;
  va_list ap;
  va_start(ap, fmt);
  printf("%12lld %-16s ", (long long)now(), cur ? cur->name.c_str() : "-");
  vprintf(fmt, ap);
  va_end(ap);
  printf("\n");
}

// ---- fibers ---------------------------------------------------------------------------------------------------
extern "C" void sim_switch(void** save, void* load);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
Fiber* cur = nullptr;
std::vector<Fiber*> fibers;
static void* sched_sp;
static Time t_now = 0;
Time real_offset = 0;
uint64_t max_steps = 6000000;
static bool g_stop = false;
std::function<bool()> on_quiesce;
std::function<void(Fiber*, int)> sig_dispatch;

struct Ev { Time t; uint64_t seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev* a, const Ev* b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };
static std::priority_queue<Ev*, std::vector<Ev*>, EvCmp> evq;
static uint64_t evseq = 0;

Time now() { return t_now; }
// How long the machine has been up and what time it is, before any jump: most runs start at odd moments, some just
// before a counter of milliseconds, microseconds or seconds would not fit into 31 or 32 bits any more.
static Time start_of(uint64_t salt, bool wall) {
  uint64_t h = hash64(cfg.seed, salt), v = hash64(h, 1);
  Time sub = (Time)(v % (uint64_t)SEC), early = (Time)(hash64(h, 2) % 1500) * SEC + sub;
  Time most = wall ? 4102444800ll * SEC : 10ll * 365 * 86400 * SEC;
  switch (h % 8) {
    case 0: case 1: return wall ? 1700000000ll * SEC : 0;
    case 2: return wall ? 90000 * SEC + sub : sub;
    case 3: return wall ? 2147483648ll * SEC - early : (Time)1000 * 2147483648ll - early;
    case 4: return wall ? 4294967296ll * SEC - early : (Time)1000 * 4294967296ll - early;
    case 5: return wall ? 1700000000ll * SEC + sub : 4294967296ll - early / 4;
    default: return (Time)(hash64(h, 3) % (uint64_t)(most / SEC)) * SEC + 90000 * SEC + sub;
  }
}
Time now_real() {
  static const Time base = start_of(7001, true);
  return base + t_now + real_offset;
}
Time now_mono() {
  static const Time base = start_of(7002, false);
  return base + t_now;
}
void post_at(Time t, std::function<void()> fn) {
  if (t < t_now) t = t_now;
  evq.push(new Ev{t, evseq++, std::move(fn)});
}
void post(Time d, std::function<void()> fn) { post_at(t_now + (d < 0 ? 0 : d), std::move(fn)); }

// memory access preemption
uint64_t g_acc = 0, g_next_preempt = UINT64_MAX;
static bool mem_on = false;
static const uint64_t ACC_CAP = 1500000000ull;  // memory accesses in one run: more means a loop without end
static void mem_next() {
  g_next_preempt = UINT64_MAX;
  if (replaying) {
    while (rmem_i < rmem.size() && rmem[rmem_i] <= g_acc) rmem_i++;
    g_next_preempt = rmem_i < rmem.size() ? rmem[rmem_i] : UINT64_MAX;
  } else if (cfg.mem_gap) {
    seed_all();
    double u = krng[K_MEM].unit();
    uint64_t gap = 1 + (uint64_t)(-log(1.0 - u) * (double)cfg.mem_gap);
    g_next_preempt = g_acc + gap;
  }
  if (g_next_preempt > ACC_CAP) g_next_preempt = ACC_CAP;
}

static void to_sched() {
  Fiber* me = cur;
  me->err = errno;
  sim_switch(&me->sp, sched_sp);
  errno = me->err;
}
[[noreturn]] void fiber_exit() {
  cur->state = 2;
  cur->started = true;
  wake_all(cur->joinq);
  to_sched();
  abort();
}
static void tramp() {
  cur->body();
  fiber_exit();
}
static int64_t pct_low = -1;
static const size_t STK = 256 * 1024;
static const uint64_t STK_BASE = 0x200000000000ull;
Fiber* spawn(const std::string& name, std::function<void()> body, bool sut) {
  seed_all();
  Fiber* f = new Fiber;
  f->id = (int)fibers.size();
  f->name = name;
  f->body = std::move(body);
  f->sut = sut;
  if (fibers.size() > 3000) engine_error("too many fibers");
  f->stksz = STK;
  char* base = (char*)(STK_BASE + (uint64_t)f->id * (STK + 65536));
  void* p = mmap(base, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != base) engine_error("stack mmap failed");
  f->stk = base;
  memset(base + STK - 8192, 0xcb, 8192);   // what a variable holds before it is set must not matter
  uint64_t* sp = (uint64_t*)(base + STK - 64);
  *--sp = 0;
  *--sp = (uint64_t)(void*)tramp;
  for (int i = 0; i < 6; i++) *--sp = 0;
  f->sp = sp;
  f->prio = cfg.strategy == 1 && !replaying ? (int64_t)(krng[K_SCHED].next() >> 2) : 0;
  fibers.push_back(f);
  if (sut) stats->threads++;
  return f;
}
static std::vector<uint64_t> pct_points;
static uint64_t sync_points = 0;
static std::vector<Fiber*> runnable;
static void collect() {
  runnable.clear();
  if (cur && cur->state == 0) runnable.push_back(cur);
  for (auto f : fibers)
    if (f->state == 0 && f != cur) runnable.push_back(f);
}
// choose among `runnable`; index 0 is the default
static size_t choose(bool forced, bool may_switch) {
  size_t n = runnable.size();
  if (n <= 1) return 0;
  uint64_t v = dec_raw(K_SCHED, [&](Rng& r) -> uint64_t {
    switch (cfg.strategy) {
      case 1: {
        size_t b = 0;
        for (size_t i = 1; i < n; i++)
          if (runnable[i]->prio > runnable[b]->prio) b = i;
        return b;
      }
      case 2:
        return forced ? r.below(n) : 0;
      default:
        if (forced) return r.below(n);
        if (may_switch && r.chance(cfg.p_switch)) return r.below(n);
        return 0;
    }
  });
  return v % n;
}
static Fiber* next_fiber = nullptr;  // chosen by a preempting fiber
static void switch_to_other(size_t i) {
  next_fiber = runnable[i];
  stats->switches++;
  to_sched();
}
static void deliver_signals() {
  while (cur && !cur->sigpend.empty() && cur->sigdepth == 0) {
    int s = cur->sigpend.front();
    cur->sigpend.erase(cur->sigpend.begin());
    cur->sigdepth++;
    int e = errno;
    if (sig_dispatch) sig_dispatch(cur, s);
    errno = e;
    cur->sigdepth--;
  }
}
void point(const char* what) {
  if (!cur) return;
  if (++g_steps > max_steps) fatal_violation("*:livelock", "no progress: step limit reached (%llu scheduling points), at %s\n%s", (unsigned long long)g_steps, what, fiber_dump().c_str());
  t_now += 1;
  sync_points++;
  result->trace_hash = hash64(result->trace_hash, (uint64_t)cur->id * 1315423911u + (uint64_t)what[0] * 31 + (uint64_t)t_now);
  if (!evq.empty() && evq.top()->t <= t_now) {
    next_fiber = cur;
    to_sched();
  }
  if (cfg.strategy == 1 && !replaying && !pct_points.empty() && sync_points >= pct_points.back()) {
    pct_points.pop_back();
    cur->prio = pct_low--;
  }
  if (faults_on && cfg.rate[K_STALL] > 0) {
    uint64_t d = dec_raw(K_STALL, [](Rng& r) -> uint64_t { return r.chance(cfg.rate[K_STALL]) ? r.logu(5, cfg.max_stall) : 0; });
    if (d) {
      stats->fault[K_STALL]++;
      sleep_until(t_now + (Time)d, "stalled");
    }
  }
  collect();
  size_t i = choose(false, true);
  if (i) {
    result->sched_hash = hash64(result->sched_hash, (uint64_t)cur->id << 32 | (uint64_t)runnable[i]->id << 8 | (uint8_t)what[0]);
    switch_to_other(i);
  }
  if (cur->sigdepth == 0 && !cur->sigpend.empty()) deliver_signals();
}
void yield_now() { point("yield"); }
// A store to a static variable of the code under test, which all threads share: its thread is likely to be held up
// right behind it, so that the others run meanwhile.
static bool after_static = false;
static inline bool static_on() { return hash64(cfg.seed, 99) & 1; }
void static_store() {
  if (replaying || !cur || !cur->sut || !static_on()) return;
  seed_all();
  if (!krng[K_MEM].chance(0.3)) return;
  uint64_t at = g_acc + 1 + krng[K_MEM].below(krng[K_MEM].chance(0.5) ? 2 : 12);
  if (at < g_next_preempt) { g_next_preempt = at; after_static = true; }
}
void mem_preempt() {  // from the access callbacks
  if (g_acc >= ACC_CAP) fatal_violation("*:spin", "a thread runs without end (%llu memory accesses)\n%s", (unsigned long long)g_acc, fiber_dump().c_str());
  if (!cur) { mem_next(); return; }
  uint64_t at = g_acc;
  if (!replaying) trace.push_back({K_MEM, at, 1});
  mem_next();
  if (++g_steps > max_steps) fatal_violation("*:livelock", "no progress: step limit reached\n%s", fiber_dump().c_str());
  t_now += 1;
  result->trace_hash = hash64(result->trace_hash, (uint64_t)cur->id * 77 + at);
  if (!evq.empty() && evq.top()->t <= t_now) { next_fiber = cur; to_sched(); }
  if (static_on()) {
    uint64_t d = dec_raw(K_STALL, [](Rng& r) -> uint64_t { bool s = after_static; after_static = false; return s ? r.logu(2, 20 * MS) : 0; });
    if (d) sleep_until(t_now + (Time)d, "stalled");
  }
  collect();
  if (cfg.strategy == 1 && !replaying && (at & 7) == 0) cur->prio = pct_low--;
  size_t i = choose(true, true);
  if (i) {
    result->sched_hash = hash64(result->sched_hash, (uint64_t)cur->id << 32 | (uint64_t)runnable[i]->id << 8 | 7);
    switch_to_other(i);
  }
  if (cur->sigdepth == 0 && !cur->sigpend.empty()) deliver_signals();
}
static void rm_wait(Fiber* f) {
  if (f->wq) {
    auto& v = f->wq->q;
    v.erase(std::remove(v.begin(), v.end(), f), v.end());
    f->wq = nullptr;
  }
}
void wake_fiber(Fiber* f, int reason) {
  if (f->state != 1) return;
  rm_wait(f);
  f->state = 0;
  f->wreason = reason;
  f->wseq++;
}
void wake_all(WaitQ& q) {
  while (!q.q.empty()) wake_fiber(q.q.front());
}
bool wake_one(WaitQ& q, K k) {
  if (q.q.empty()) return false;
  wake_fiber(q.q[pick(k, q.q.size())]);
  return true;
}
int wait_on(WaitQ& q, Time deadline, const char* what, bool interruptible) {
  if (!cur) engine_error("wait_on outside fiber: %s", what);
  if (interruptible && cur->sigdepth == 0 && !cur->sigpend.empty()) { deliver_signals(); return W_INTR; }
  Fiber* me = cur;
  me->state = 1;
  me->what = what;
  me->wq = &q;
  me->intr = interruptible;
  q.q.push_back(me);
  uint64_t ws = me->wseq;
  if (deadline < NEVER)
    post_at(deadline, [me, ws] { if (me->state == 1 && me->wseq == ws) wake_fiber(me, W_TIMEOUT); });
  if (++g_steps > max_steps) fatal_violation("*:livelock", "no progress: step limit reached in %s\n%s", what, fiber_dump().c_str());
  result->sched_hash = hash64(result->sched_hash, (uint64_t)me->id << 32 | (uint8_t)what[0] << 8 | 3);
  to_sched();
  me->intr = false;
  if (me->sigdepth == 0 && !me->sigpend.empty()) {
    deliver_signals();
    if (me->wreason == W_INTR) return W_INTR;
  }
  return me->wreason;
}
void sleep_until(Time t, const char* what, bool interruptible) {
  static WaitQ dummy[1];
  WaitQ q;
  (void)dummy;
  wait_on(q, t, what, interruptible);
}
int live_sut_threads() {
  int n = 0;
  for (auto f : fibers)
    if (f->sut && (f->state != 2 || (!f->joined && !f->detached))) n++;
  return n;
}
std::string fiber_dump() {
  std::string s;
  char b[200];
  for (auto f : fibers)
    if (f->state != 2) {
      snprintf(b, sizeof b, "    %s: %s%s\n", f->name.c_str(), f->state == 0 ? "runnable" : "blocked in ", f->state == 0 ? "" : f->what);
      s += b;
      if (s.size() > 1500) break;
    }
  return s;
}
void stop() { g_stop = true; }
void run() {
  seed_all();
  if (cfg.strategy == 1 && !replaying) {
    for (int i = 0; i < cfg.pct_depth; i++) pct_points.push_back(1 + krng[K_MEM].below(krng[K_MEM].chance(0.5) ? 300 : 4000));
    std::sort(pct_points.rbegin(), pct_points.rend());
  }
  if (!mem_on) { mem_on = true; mem_next(); }
  while (!g_stop) {
    // due events first
    if (!evq.empty() && evq.top()->t <= t_now) {
      Ev* e = evq.top();
      evq.pop();
      e->fn();
      delete e;
      if (++g_steps > max_steps) fatal_violation("*:livelock", "no progress: step limit reached in events\n%s", fiber_dump().c_str());
      continue;
    }
    Fiber* f = next_fiber;
    next_fiber = nullptr;
    if (!f || f->state != 0) {
      cur = nullptr;
      collect();
      if (runnable.empty()) {
        if (evq.empty()) {
          if (on_quiesce && on_quiesce()) continue;
          break;
        }
        t_now = evq.top()->t;
        continue;
      }
      if (cfg.p_jump > 0 && !evq.empty() && faults_on && evq.top()->t - t_now < 50 * MS && coin(K_JUMP, cfg.p_jump)) {
        t_now = evq.top()->t;
        continue;
      }
      f = runnable[choose(true, true)];
    }
    cur = f;
    if (!f->started) f->started = true;
    sim_switch(&sched_sp, f->sp);
    cur = nullptr;
  }
}
}  // namespace sim

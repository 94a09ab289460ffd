// Worlds for the background worker (C17) and for the lock and condition variable (C18).
#include "w_util.h"
extern "C" {
#include "mutex.h"
#include "worker.h"
}
using namespace sim;

// ======================================================================================================== worker
namespace wk {
enum { O_WAKE, O_ISIDLE, O_WAITIDLE, O_NAP, O_START, O_JOIN, O_JUMP, O_FREE };
static const Plan* P;
struct Run { uint64_t s = 0, e = 0; Time ts = 0, te = 0; };
struct Wake { uint64_t i = 0, r = 0; bool ok = false; Time t = 0; };
struct W {
  worker_handle wh;
  bool inited = false, started = false, joining = false;
  std::vector<Run> runs;
  std::vector<Wake> wakes;
  bool up = false;        // started, and joining has not begun
  int joins = 0;
  Time t_active = 0;      // the end of the last run, or the start of the worker
  int nrun = 0, id = 0;
};
static std::vector<W*> ws;
static uint64_t seq;
static std::vector<std::vector<Op>> req;
static int live_req;
static Time dur(int64_t k) {
  Rng r;
  r.seed(hash64((uint64_t)P->p("durseed"), (uint64_t)k));
  switch (r.below(6)) {
    case 0: case 1: return 0;
    case 2: return r.range(0, 50);
    case 3: return r.range(0, 3 * MS);
    case 4: return r.range(0, 100 * MS);
    default: return r.chance(0.3) ? r.range(0, 5 * SEC) : r.range(0, 500);
  }
}
static bool do_wake(W* w, const char* by) {
  size_t k = w->wakes.size();
  w->wakes.push_back(Wake());
  w->wakes[k].i = ++seq;
  w->wakes[k].t = now();
  Time t0 = now();
  int ret = worker_wake(&w->wh);
  w->wakes[k].ok = ret >= 0;
  w->wakes[k].r = ++seq;
  if (now() - t0 > g_slack()) violate("C17:block", "a wake request blocked for %lld ms", (long long)((now() - t0) / MS));
  tlog("%s wakes worker %d: %d", by, w->id, ret);
  return ret >= 0;
}
static void work(worker_handle* wh) {
  W* w = (W*)wh->func_ctx;
  if (wh != &w->wh) fatal_violation("C17:handle", "the work function got another handle");
  if (!w->runs.empty() && !w->runs.back().e) violate("C17:overlap", "a run of the work function began while the previous one was going on");
  if (!w->started) violate("C17:stray", "the work function ran although the worker was stopped");
  if (wh->periodic_wake && w->t_active) {
    Time lim = (Time)wh->periodic_wake * MS + g_slack();
    if (now() - w->t_active > lim && !w->joining)
      violate("C17:period", "no run for %lld ms although the interval is %u ms", (long long)((now() - w->t_active) / MS), wh->periodic_wake);
  }
  size_t k = w->runs.size();
  w->runs.push_back(Run());
  w->runs[k].s = ++seq;
  w->runs[k].ts = now();
  tlog("worker %d run %zu", w->id, k);
  Time d = dur(w->id * 1000 + (w->nrun++));
  if (d) sleep_until(now() + d, "work"); else point("work");
  int x = (int)(hash64((uint64_t)P->p("durseed"), 77 + k) % 16);
  if (k < 40 && (x < 2 || P->p("selfwake") > x)) do_wake(w, "itself");
  if (x == 5) { int i = worker_is_idle(wh); if (i) violate("C17:idle", "the worker reports to be idle during a run"); }
  point("work");
  w->runs[k].te = now();
  w->t_active = now();
  w->runs[k].e = ++seq;
  stats->probes[24]++;
}
// was there a moment in [a, b] at which no accepted work was pending or going on?
static void idle_claim(W* w, uint64_t a, uint64_t b, const char* what) {
  stats->probes[25]++;
  for (auto& r : w->runs)
    if (r.s < a && (!r.e || r.e > b)) { violate("C17:idle", "%s although a run was going on all the time", what); return; }
  for (auto& k : w->wakes) {
    if (!k.ok || !k.r || k.r > a) continue;
    bool done = false;
    for (auto& r : w->runs) if (r.s > k.i && r.e && r.e < b) done = true;
    if (!done) { violate("C17:idle", "%s although an accepted wake request had not been run to its end", what); return; }
  }
}
static void do_waitidle(W* w) {
  uint64_t a = ++seq;
  bool up = w->up;
  int j0 = w->joins;
  int ret = worker_wait_idle(&w->wh);
  uint64_t b = ++seq;
  if (ret == 0) idle_claim(w, a, b, "waiting for idle succeeded");
  else if (up && w->joins == j0) violate("C17:waiterr", "waiting for idle failed (%d) although the worker was running", ret);
}
static void do_isidle(W* w) {
  uint64_t a = ++seq;
  Time t0 = now();
  int ret = worker_is_idle(&w->wh);
  if (now() - t0 > g_slack()) violate("C17:block", "asking whether a worker is idle blocked for %lld ms", (long long)((now() - t0) / MS));
  if (ret) idle_claim(w, a, ++seq, "the worker was reported to be idle");
}
static bool do_init(W* w) {
  for (int k = 0; k < 60 && !w->inited; k++) {
    memset(&w->wh, 0, sizeof w->wh);
    w->wh.func_ctx = w;
    w->wh.func_ptr = work;
    w->wh.stack_size = P->p("stack") ? 1 << 17 : 0;
    w->wh.periodic_wake = (uint32_t)P->p("periodic");
    uint64_t f0 = resource_faults();
    int ret = worker_init(&w->wh);
    if (ret == 0) { w->inited = true; break; }
    if (resource_faults() == f0) { violate("C17:init", "worker_init failed (%d) although no resource failed", ret); return false; }
    stats->probes[26]++;
    if (k > 20) faults_on = false;
  }
  return w->inited;
}
static void do_start(W* w) {
  if (!w->inited && !do_init(w)) return;
  if (w->started) {
    int ret = worker_start(&w->wh);
    if (ret) violate("C17:start", "starting a running worker failed (%d)", ret);
    return;
  }
  uint64_t f0 = resource_faults();
  w->started = true;
  w->joining = false;
  w->t_active = now();
  int ret = worker_start(&w->wh);
  if (ret < 0) {
    w->started = false;
    stats->probes[26]++;
    if (resource_faults() == f0) violate("C17:start", "worker_start failed (%d) although no resource failed", ret);
    return;
  }
  w->up = true;
}
static void do_join(W* w, bool fre) {
  if (!w->inited) return;
  Time t0 = now();
  bool was = w->started;
  w->joining = true;
  w->joins++;
  w->up = false;
  if (was && w->wh.periodic_wake && w->t_active && (w->runs.empty() || w->runs.back().e)) {
    Time lim = (Time)w->wh.periodic_wake * MS + g_slack();
    if (t0 - w->t_active > lim) violate("C17:period", "no run for %lld ms although the interval is %u ms", (long long)((t0 - w->t_active) / MS), w->wh.periodic_wake);
  }
  int ret = 0;
  if (fre) worker_free(&w->wh); else ret = worker_join(&w->wh);
  uint64_t b = ++seq;
  w->started = false;
  if (ret < 0) violate("C17:join", "worker_join failed (%d)", ret);
  stats->probes[27]++;
  Time last = t0;
  for (auto& r : w->runs) {
    if (!r.e) violate("C17:join", "joining returned during a run");
    last = std::max(last, r.te);
  }
  if (now() - last > g_slack() + 20 * MS) violate("C17:joinslow", "joining took %lld ms longer than the last run", (long long)((now() - last) / MS));
  for (auto& k : w->wakes) {
    if (!k.ok || !k.r || k.r > b) continue;
    bool done = false;
    for (auto& r : w->runs) if (r.s > k.i && r.e && r.e < b) done = true;
    if (!done) { violate("C17:lost", "joining returned although an accepted wake request had not been run"); break; }
  }
  if (fre) w->inited = false;
}
static void gen(Plan& p, Rng& r) {
  gen_sched(p, r);
  Config& c = p.cfg;
  if (c.mem_gap == 0 && r.chance(0.6)) c.mem_gap = (uint64_t)r.logu(3, 300);
  int nw = r.chance(0.8) ? 1 : 2, nr = 1 + (int)r.below(4);
  p.par["nw"] = nw;
  p.par["nr"] = nr;
  p.par["durseed"] = (int64_t)(r.next() >> 20);
  p.par["stack"] = r.chance(0.5);
  p.par["selfwake"] = r.chance(0.2) ? 8 : 0;
  p.par["periodic"] = r.chance(0.6) ? 0 : r.chance(0.5) ? r.range(1, 30) : r.logu(1, 20000);
  if (r.chance(0.15)) { c.rate[K_STALL] = 0.01; c.max_stall = r.logu(1000, 2 * SEC); }
  if (r.chance(0.2)) c.rate[K_SYNCINIT] = r.chance(0.5) ? 0.3 : 0.05;
  if (r.chance(0.2)) c.rate[K_ALLOC] = r.chance(0.5) ? 0.3 : 0.05;
  if (r.chance(0.2)) c.rate[K_THREAD] = 0.4;
  auto gap = [&]() -> int64_t {
    switch (r.below(6)) { case 0: case 1: case 2: return 0; case 3: return r.range(0, 60); case 4: return r.range(0, 5 * MS); default: return r.chance(0.2) ? r.range(0, 10 * SEC) : r.range(0, 200 * MS); }
  };
  for (int q = 0; q < nr; q++) {
    int n = 1 + (int)r.below(r.chance(0.2) ? 30 : 8);
    for (int i = 0; i < n; i++) {
      int x = (int)r.below(10);
      add(p, q, x < 5 ? O_WAKE : x < 7 ? O_ISIDLE : x < 9 ? O_WAITIDLE : O_NAP, gap(), (int64_t)r.below(nw));
    }
  }
  if (r.chance(0.004))   // more requests during one run than fit into a byte
    for (int q = 0; q < nr; q++) add(p, q, O_WAKE, gap(), (int64_t)r.below(nw), r.chance(0.5) ? r.range(250, 262) : r.range(200, 700));
  for (int w = 0; w < nw; w++) add(p, -1, O_START, r.chance(0.7) ? 0 : gap(), w);
  int n = 1 + (int)r.below(5);
  for (int i = 0; i < n; i++) {
    int w = (int)r.below(nw), x = (int)r.below(10);
    if (x < 5) { add(p, -1, O_JOIN, gap(), w); if (r.chance(0.8)) add(p, -1, O_START, r.chance(0.6) ? 0 : gap(), w); }
    else if (x < 7) add(p, -1, O_JUMP, gap(), r.chance(0.5) ? r.range(-2 * 3600 * SEC, 2 * 3600 * SEC) : r.range(-3 * SEC, 3 * SEC));
    else if (x < 8) add(p, -1, O_WAKE, gap(), w);
    else if (x < 9) add(p, -1, O_WAITIDLE, gap(), w);
    else add(p, -1, O_START, gap(), w);
  }
}
static void client(int q) {
  for (auto& o : req[q]) {
    if (o.gap) sleep_until(now() + o.gap, "between requests"); else point("request");
    W* w = ws[o.a % ws.size()];
    if (!w->inited) continue;
    stats->ops++;
    switch (o.kind) {
      case O_WAKE: for (int64_t k = 0; k == 0 || k < o.b; k++) do_wake(w, "a requester"); break;
      case O_ISIDLE: do_isidle(w); break;
      case O_WAITIDLE: do_waitidle(w); break;
    }
  }
  live_req--;
}
static void control() {
  std::vector<Op> ops;
  for (auto& o : P->ops) if (o.who < 0) ops.push_back(o);
  for (auto w : ws) if (!do_init(w)) return;
  for (int q = 0; q < (int)req.size(); q++) { live_req++; spawn("req" + std::to_string(q), [q] { client(q); }, false); }
  for (auto& o : ops) {
    if (o.gap) sleep_until(now() + o.gap, "between requests"); else point("request");
    W* w = ws[o.a % ws.size()];
    stats->ops++;
    switch (o.kind) {
      case O_START: do_start(w); break;
      case O_JOIN: do_join(w, false); break;
      case O_JUMP: clock_jump(o.a); break;
      case O_WAKE: do_wake(w, "the controller"); break;
      case O_WAITIDLE: do_waitidle(w); break;
    }
  }
  Time lim = now() + 120 * SEC + g_slack() * 20;
  for (auto& v : req) for (auto& o : v) lim += o.gap;
  while (live_req) {
    sleep_until(now() + 50 * MS, "waiting for requesters");
    if (now() > lim) { fatal_violation("C17:hang", "a call has not returned long after the last request\n%s", fiber_dump().c_str()); }
  }
  // every accepted request has been or will be run
  Time t_last = now();
  sleep_until(now() + 70 * SEC + g_slack(), "settling");
  for (auto w : ws) {
    for (auto& k : w->wakes) {
      if (!k.ok || k.t > t_last) continue;
      bool done = false;
      for (auto& r : w->runs) if (r.s > k.i && r.e) done = true;
      if (!done) { violate("C17:lost", "an accepted wake request was never followed by a run"); break; }
    }
    if (w->started && !w->joining && w->inited) {
      uint64_t a = ++seq;
      if (!P->p("periodic")) {
        if (!worker_is_idle(&w->wh)) violate("C17:idle", "a worker with nothing to do is not reported as idle");
        if (worker_wait_idle(&w->wh)) violate("C17:waiterr", "waiting for idle fails although the worker is idle");
      }
      (void)a;
      int before = (int)w->runs.size();
      if (!do_wake(w, "the final check")) violate("C17:refused", "a running worker refuses a wake request");
      sleep_until(now() + 6 * SEC + g_slack(), "settling");
      if ((int)w->runs.size() == before) violate("C17:lost", "an accepted wake request was not followed by a run");
    }
    if (w->runs.size() % 2) do_join(w, false);
    do_join(w, true);
    int n0 = (int)w->runs.size();
    sleep_until(now() + 1 * SEC, "settling");
    if ((int)w->runs.size() > n0) violate("C17:stray", "runs went on after the worker had been freed");
  }
  leaks("C17:leak", "after freeing the workers");
}
static void exec(const Plan& p) {
  P = &p;
  req.resize((size_t)p.p("nr"));
  for (auto& o : p.ops) if (o.who >= 0) req[o.who % req.size()].push_back(o);
  for (int i = 0; i < p.p("nw"); i++) { W* w = new W; w->id = i; ws.push_back(w); }
  main_fiber = spawn("main", [] { control(); stop(); }, false);
  on_quiesce = [] {
    fatal_violation("C17:hang", "nothing can run any more\n%s", fiber_dump().c_str());
    return false;
  };
  run();
  size_t nr = 0, nk = 0;
  for (auto w : ws) { nr += w->runs.size(); nk += w->wakes.size(); }
  result->nontrivial = nr > 0;
  snprintf(result->sample, sizeof result->sample, "%s/%s index %lld: %zu workers, period %lld ms, %zu requesters, %zu operations, %zu wake requests, %zu runs, strategy %d, preempt every %llu accesses, simulated %lld s",
           p.world.c_str(), p.profile.c_str(), (long long)p.p("index"), ws.size(), (long long)p.p("periodic"), req.size(), p.ops.size(), nk, nr, cfg.strategy, (unsigned long long)cfg.mem_gap, (long long)(now() / SEC));
  finish_ok();
}
static WorldReg reg({"worker", gen, exec, {"wake", "isidle", "waitidle", "nap", "start", "join", "clockjump", "free"}});
}  // namespace wk

// ========================================================================================================= mutex
namespace mx {
enum { O_EXCL, O_SHARED, O_WAIT, O_WAITTIME, O_GIVE, O_ONE, O_ALL, O_JUMP, O_NAP };
static const Plan* P;
struct M { mutex_handle h; Fiber* owner = nullptr; int readers = 0; int excl = 0; uint64_t excl_seq = 0; };   // excl: threads holding or asking for the exclusive lock
struct C {
  condvar_handle h;
  M* m = nullptr;
  int64_t tokens = 0, waiting = 0;
  uint64_t notes = 0, notes_done = 0;
  struct Wt { uint64_t id; uint64_t note0; bool back = false; };
  std::vector<Wt*> cur;
};
static std::vector<M*> ms;
static std::vector<C*> cs;
static std::vector<std::vector<Op>> thr;
static int live;
static int n_wait, n_excl, n_shared;
static void hold(int64_t t) { if (t > 0) sleep_until(now() + t, "holding a lock"); else point("holding a lock"); }
static void enter(M* m, const char* how) {
  if (m->owner) violate("C18:exclusive", "%s gave the lock although another thread holds it exclusively", how);
  if (m->readers) violate("C18:exclusive", "%s gave the exclusive lock although it is held shared", how);
  m->owner = cur;
  n_excl++;
}
static void check(M* m) {
  if (m->owner != cur || m->readers) violate("C18:exclusive", "another thread obtained a lock that is held exclusively");
}
static void lock(M* m) {
  m->excl++;
  m->excl_seq++;
  int r = mutex_lock(&m->h);
  if (r) violate("C18:error", "mutex_lock failed (%d)", r);
  enter(m, "locking");
}
static void unlock(M* m) {
  check(m);
  m->owner = nullptr;
  int r = mutex_unlock(&m->h);
  if (r) violate("C18:error", "mutex_unlock failed (%d)", r);
  m->excl--;
}
static void shared(M* m, int64_t t) {
  uint64_t s0 = m->excl_seq;
  bool free0 = m->excl == 0;
  Time t0 = now();
  int r = mutex_lock_shared(&m->h);
  if (r) violate("C18:error", "mutex_lock_shared failed (%d)", r);
  if (m->owner) violate("C18:exclusive", "the lock was given shared although it is held exclusively");
  if (free0 && m->excl_seq == s0) {
    stats->probes[28]++;
    if (now() - t0 > g_slack()) violate("C18:share", "a shared lock waited %lld ms although nobody held or wanted the lock exclusively", (long long)((now() - t0) / MS));
  }
  m->readers++;
  n_shared++;
  hold(t);
  if (m->owner) violate("C18:exclusive", "another thread obtained the lock exclusively while it is held shared");
  m->readers--;
  r = mutex_unlock_shared(&m->h);
  if (r) violate("C18:error", "mutex_unlock_shared failed (%d)", r);
}
// one wait; the lock is held before and after
static int wait1(C* c, int64_t msec) {
  M* m = c->m;
  check(m);
  m->owner = nullptr;
  C::Wt* w = new C::Wt{0, c->notes};
  c->cur.push_back(w);
  c->waiting++;
  Time t0 = now(), cpu0 = 0;
  (void)cpu0;
  n_wait++;
  m->excl_seq++;
  uint64_t notes0 = c->notes_done;
  int r = msec < 0 ? condvar_wait(&c->h, &m->h) : condvar_wait_time(&c->h, &m->h, (uint32_t)msec);
  c->waiting--;
  w->back = true;
  c->cur.erase(std::find(c->cur.begin(), c->cur.end(), w));
  enter(m, "returning from a condition wait");
  Time el = now() - t0;
  if (r < 0 || (msec < 0 && r != 0)) violate("C18:error", "a condition wait returned %d", r);
  if (msec >= 0 && r == 1) {
    stats->probes[29]++;
    if (el < msec * MS) violate("C18:early", "a timed wait of %lld ms reported a timeout after %lld us", (long long)msec, (long long)el);
  }
  if (r == 0 && c->notes == notes0 && cfg.p_spur == 0) violate("C18:spurious", "a condition wait returned without a notification or timeout");
  if (msec >= 0 && el > msec * MS + P->p("maxhold") + g_slack()) violate("C18:late", "a timed wait of %lld ms returned after %lld ms", (long long)msec, (long long)(el / MS));
  return r;
}
static void notify(C* c, bool all) {
  c->notes++;
  int r = all ? condvar_wake_all(&c->h) : condvar_wake_one(&c->h);
  if (r) violate("C18:error", "a notification returned %d", r);
  c->notes_done++;
}
static void gen(Plan& p, Rng& r) {
  gen_sched(p, r);
  Config& c = p.cfg;
  if (c.mem_gap == 0 && r.chance(0.7)) c.mem_gap = (uint64_t)r.logu(2, 200);
  bool crowd = r.chance(0.003);
  int nt = crowd ? (int)r.range(250, 300) : 2 + (int)r.below(5), nm = r.chance(0.8) ? 1 : 2, nc = 1 + (int)r.below(2);
  p.par["nt"] = nt; p.par["nm"] = nm; p.par["nc"] = nc;
  p.par["outside"] = r.chance(0.5);
  if (r.chance(0.12)) { c.rate[K_STALL] = 0.01; c.max_stall = r.logu(1000, 2 * SEC); }
  if (r.chance(0.2)) c.rate[K_SYNCINIT] = 0.3;
  if (r.chance(0.2)) c.rate[K_ALLOC] = 0.3;
  int mode = (int)r.below(4);   // 3: readers prevail
  int64_t maxhold = 0, per = r.chance(0.5) ? 0 : r.logu(1, 200 * MS);
  std::vector<int64_t> waits(nc, 0);
  bool exact = r.chance(0.6);   // every token is needed: a lost notification leaves a thread waiting
  for (int t = 0; t < nt; t++) {
    int n = crowd ? 1 : 2 + (int)r.below(r.chance(0.2) ? 25 : 8);
    for (int i = 0; i < n; i++) {
      int64_t gap = r.chance(0.6) ? 0 : r.chance(0.7) ? r.range(0, 100) : r.range(0, 100 * MS);
      int64_t h = r.chance(0.6) ? 0 : r.range(0, per);
      int x = (int)r.below(20), cv = (int)r.below(nc);
      if (mode == 3 && x < 12) x = 4 + x / 4;
      if (crowd && t % 16) x = mode & 1 ? 4 : 8, h = 10 * MS;
      if (x < 4) add(p, t, O_EXCL, gap, (int64_t)r.below(nm), h), maxhold += h;
      else if (x < 8) add(p, t, O_SHARED, gap, (int64_t)r.below(nm), h), maxhold += h;
      else if (x < 11) { add(p, t, O_WAIT, gap, cv, h); maxhold += h; waits[cv]++; }
      else if (x < 15) add(p, t, O_WAITTIME, gap, cv, h, r.chance(0.2) ? 0 : r.chance(0.5) ? r.range(0, 20) : r.logu(1, 30000)), maxhold += h;
      else if (x < 16) add(p, t, O_ONE, gap, cv);
      else if (x < 17) add(p, t, O_ALL, gap, cv);
      else if (x < 18) add(p, t, O_JUMP, gap, r.chance(0.5) ? r.range(-2 * 3600 * SEC, 2 * 3600 * SEC) : r.range(-3 * SEC, 3 * SEC));
      else if (!exact) { add(p, t, O_GIVE, gap, cv, h, r.below(3)); maxhold += h; }
    }
  }
  // a last thread gives a token for every wait, so that each can end
  for (int k = 0; k < nc; k++)
    for (int64_t i = 0, n; i < waits[k]; i += n) {
      n = r.chance(0.6) ? 1 : r.range(1, waits[k] - i);   // several tokens are announced by waking all
      int64_t h = r.chance(0.8) ? 0 : r.range(0, per); maxhold += h; add(p, nt, O_GIVE, r.chance(0.7) ? 0 : r.range(0, 50 * MS), k, h, n > 1 ? 1 + 2 * r.below(2) : r.below(4), n);
    }
  p.par["maxhold"] = maxhold + 1;
}
static void body(int t) {
  for (auto& o : thr[t]) {
    if (o.gap) sleep_until(now() + o.gap, "between operations"); else point("operation");
    stats->ops++;
    M* m = ms[o.a % ms.size()];
    C* c = cs[o.a % cs.size()];
    switch (o.kind) {
      case O_EXCL: lock(m); hold(o.b); unlock(m); break;
      case O_SHARED: shared(m, o.b); break;
      case O_WAIT:
        lock(c->m);
        while (c->tokens <= 0) wait1(c, -1);
        c->tokens--;
        hold(o.b);
        unlock(c->m);
        stats->probes[30]++;
        break;
      case O_WAITTIME:
        lock(c->m);
        wait1(c, o.c);
        hold(o.b);
        // a notification meant for a waiter for a token may have come here: pass it on
        if (c->tokens > 0) notify(c, false);
        unlock(c->m);
        break;
      case O_GIVE:
        lock(c->m);
        c->tokens += o.d > 1 ? o.d : 1;
        hold(o.b);
        if (o.c == 0) { notify(c, false); unlock(c->m); }
        else if (o.c == 1) { notify(c, true); unlock(c->m); }
        else { unlock(c->m); point("before notification"); notify(c, o.c == 3); }
        break;
      case O_ONE: notify(c, false); break;
      case O_ALL: notify(c, true); break;
      case O_JUMP: clock_jump(o.a); break;
    }
  }
  live--;
}
static bool init_all() {
  auto retry = [](const char* what, std::function<int()> fn) {
    for (int k = 0; k < 60; k++) {
      uint64_t f0 = resource_faults();
      int r = fn();
      if (r == 0) return true;
      stats->probes[26]++;
      if (resource_faults() == f0) { violate("C18:init", "%s failed (%d) although no resource failed", what, r); return false; }
      if (k > 20) faults_on = false;
    }
    return false;
  };
  for (int i = 0; i < P->p("nm"); i++) {
    M* m = new M;
    memset(&m->h, 0, sizeof m->h);
    ms.push_back(m);
    if (!retry("mutex_init", [m] { return mutex_init(&m->h); })) return false;
  }
  for (int i = 0; i < P->p("nc"); i++) {
    C* c = new C;
    memset(&c->h, 0, sizeof c->h);
    c->m = ms[i % ms.size()];
    cs.push_back(c);
    if (!retry("condvar_init", [c] { return condvar_init(&c->h); })) return false;
  }
  return true;
}
static void control() {
  if (!init_all()) return;
  for (int t = 0; t < (int)thr.size(); t++) { live++; spawn("thread" + std::to_string(t), [t] { body(t); }, false); }
  Time lim = now() + 60 * SEC + P->p("maxhold") + 200 * g_slack();
  for (auto& o : P->ops) lim += o.gap + (o.kind == O_WAITTIME ? o.c * MS : 0);
  while (live) {
    sleep_until(now() + 20 * MS, "waiting for the threads");
    if (now() > lim) fatal_violation("C18:hang", "a thread has not obtained a lock or its notification\n%s", fiber_dump().c_str());
  }
  for (auto c : cs) condvar_free(&c->h);
  for (auto m : ms) mutex_free(&m->h);
  leaks("C18:leak", "after freeing");
}
static void exec(const Plan& p) {
  P = &p;
  thr.resize((size_t)p.p("nt") + 1);
  for (auto& o : p.ops) thr[o.who % thr.size()].push_back(o);
  main_fiber = spawn("main", [] { control(); stop(); }, false);
  on_quiesce = [] {
    fatal_violation("C18:hang", "nothing can run any more\n%s", fiber_dump().c_str());
    return false;
  };
  run();
  result->nontrivial = n_wait > 0 || n_excl + n_shared > 1;
  snprintf(result->sample, sizeof result->sample, "%s/%s index %lld: %lld threads, %zu locks, %zu conditions, %zu operations: %d exclusive, %d shared, %d waits, strategy %d, preempt every %llu accesses, simulated %lld ms",
           p.world.c_str(), p.profile.c_str(), (long long)p.p("index"), (long long)p.p("nt"), ms.size(), cs.size(), p.ops.size(), n_excl, n_shared, n_wait, cfg.strategy, (unsigned long long)cfg.mem_gap, (long long)(now() / MS));
  finish_ok();
}
static WorldReg reg({"mutex", gen, exec, {"exclusive", "shared", "wait", "waittime", "give", "wakeone", "wakeall", "clockjump", "nap"}});
}  // namespace mx

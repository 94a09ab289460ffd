#include <unordered_set>
// Clocks, sleeping, random numbers, signals, processes.
#include "env.h"
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

namespace sim {
bool rand_repeated = false, rand_gray = false;
static unsigned gray_seed = 1, gray_n = 0;
std::function<void(int)> on_exit_call;
bool forked = false, session_made = false;
int fork_mode = 0;
Fiber* main_fiber = nullptr;
void stdio_init();
static struct random_data rd;
static char rdbuf[128];
static void rinit(unsigned s) {
  memset(&rd, 0, sizeof rd);
  initstate_r(s, rdbuf, sizeof rdbuf, &rd);
}
struct SigAct { void (*h)(int) = SIG_DFL; void (*sa)(int, siginfo_t*, void*) = nullptr; int flags = 0; uint64_t mask = 0; };
static SigAct acts[65];
bool sig_ignored(int sig) { return acts[sig].h == SIG_IGN && !acts[sig].sa; }
static std::vector<uint64_t> masks;
static std::vector<int> procpend;
static std::vector<std::pair<int, int>> tpend;   // thread, blocked signal sent to it
static WaitQ sigwaitq;
void env_init() {
  setenv("TZ", "UTC", 1);
  tzset();
  rinit(1);
  net_init();
  stdio_init();
}
}  // namespace sim
using namespace sim;
extern "C" {
uint64_t sim_mask_get(int id) { return id < (int)masks.size() ? masks[id] : 0; }
void sim_mask_set(int id, uint64_t m) { if (id >= (int)masks.size()) masks.resize(id + 1); masks[id] = m; }
}
namespace sim {
static uint64_t bit(int s) { return 1ull << (s - 1); }
static bool fiber_takes(Fiber* f, int s) { return f && f->state != 2 && !(sim_mask_get(f->id) & bit(s)); }
static void deliver_to(Fiber* f, int s) {
  if (acts[s].h == SIG_IGN && !acts[s].sa) return;
  if (acts[s].h == SIG_DFL && !acts[s].sa) {
    if (s == SIGCHLD || s == SIGURG || s == SIGWINCH) return;
    tlog("process killed by signal %d", s);
    if (on_exit_call) on_exit_call(128 + s);
    return;
  }
  f->sigpend.push_back(s);
  sig_restart = (acts[s].flags & SA_RESTART) != 0;
  if (f->state == 1 && f->intr) wake_fiber(f, W_INTR);
}
bool raise_signal(int s) {
  stats->probes[60]++;
  if (fiber_takes(main_fiber, s)) { deliver_to(main_fiber, s); return true; }
  for (auto f : fibers)
    if (f->sut && fiber_takes(f, s)) { deliver_to(f, s); return true; }
  if (std::find(procpend.begin(), procpend.end(), s) == procpend.end()) procpend.push_back(s);
  wake_all(sigwaitq);
  return true;
}
static void dispatch(Fiber* f, int s) {
  SigAct a = acts[s];
  if (!a.sa && (a.h == SIG_DFL || a.h == SIG_IGN)) return;
  uint64_t old = sim_mask_get(f->id);
  sim_mask_set(f->id, old | a.mask | ((a.flags & SA_NODEFER) ? 0 : bit(s)));
  tlog("signal handler for %d", s);
  if (a.sa) {
    siginfo_t* si = (siginfo_t*)heap_alloc(sizeof(siginfo_t), true);
    si->si_signo = s;
    a.sa(s, si, nullptr);
    heap_free(si, "signal");
  } else a.h(s);
  sim_mask_set(f->id, old);
}
static void recheck_pending() {
  if (!cur) return;
  for (size_t i = 0; i < tpend.size();) {
    int s = tpend[i].second;
    if (tpend[i].first == cur->id && fiber_takes(cur, s)) { tpend.erase(tpend.begin() + i); deliver_to(cur, s); }
    else i++;
  }
  for (size_t i = 0; i < procpend.size();) {
    int s = procpend[i];
    if (fiber_takes(cur, s)) { procpend.erase(procpend.begin() + i); deliver_to(cur, s); }
    else i++;
  }
}
struct SigInit { SigInit() { sig_dispatch = dispatch; } } siginit;
}  // namespace sim

extern "C" {
time_t sim_time(time_t* t) {
  time_t v = (time_t)(now_real() / SEC);
  if (t) { check_range(t, sizeof *t, true, "time"); *t = v; }
  return v;
}
int sim_clock_gettime(clockid_t c, struct timespec* ts) {
  point("clock");
  check_range(ts, sizeof *ts, true, "clock_gettime");
  Time t = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? now_real() : now_mono();
  ts->tv_sec = t / SEC;
  ts->tv_nsec = (t % SEC) * 1000;
  return 0;
}
int sim_gettimeofday(struct timeval* tv, void*) { Time t = now_real(); tv->tv_sec = t / SEC; tv->tv_usec = t % SEC; return 0; }
int sim_usleep(useconds_t u) {
  point("usleep");
  Fiber* f = cur;
  sleep_until(now() + u, "usleep", true);
  if (f->wreason == W_INTR) { errno = EINTR; return -1; }
  return 0;
}
int sim_clock_nanosleep(clockid_t c, int fl, const struct timespec* ts, struct timespec*) {
  point("nanosleep");
  Time d = (Time)ts->tv_sec * SEC + (ts->tv_nsec + 999) / 1000;
  if (fl & TIMER_ABSTIME) d -= c == CLOCK_REALTIME ? now_real() : now_mono();
  if (d < 0) d = 0;
  sleep_until(now() + d, "nanosleep", true);
  return cur->wreason == W_INTR ? EINTR : 0;
}
int sim_nanosleep(const struct timespec* ts, struct timespec* rem) { int r = sim_clock_nanosleep(CLOCK_MONOTONIC, 0, ts, rem); if (r) { errno = r; return -1; } return 0; }
unsigned sim_sleep(unsigned s) { point("sleep"); sleep_until(now() + (Time)s * SEC, "sleep", true); return 0; }
struct tm* sim_localtime_r(const time_t* t, struct tm* r) { check_range(t, sizeof *t, false, "localtime_r"); check_range(r, sizeof *r, true, "localtime_r"); return gmtime_r(t, r); }
struct tm* sim_gmtime_r(const time_t* t, struct tm* r) { check_range(t, sizeof *t, false, "gmtime_r"); check_range(r, sizeof *r, true, "gmtime_r"); return gmtime_r(t, r); }
struct tm* sim_localtime(const time_t* t) { static struct tm r; point("localtime"); check_range(t, sizeof *t, false, "localtime"); memset(&r, 0, sizeof r); point("localtime"); gmtime_r(t, &r); static_store(); point("localtime2"); return &r; }
struct tm* sim_gmtime(const time_t* t) { return sim_localtime(t); }
size_t sim_strftime(char* b, size_t n, const char* fmt, const struct tm* tm) {
  checked_strlen(fmt, "strftime");
  check_range(tm, sizeof *tm, false, "strftime");
  char t[512];
  size_t r = strftime(t, n < sizeof t ? n : sizeof t, fmt, tm);
  if (r) { check_range(b, r + 1, true, "strftime"); memcpy(b, t, r + 1); }
  return r;
}
// whether the source itself gave one value twice since it was seeded, by chance
static std::unordered_set<int32_t> rand_seen;
void sim_srand(unsigned s) { point("srand"); rinit(s); rand_seen.clear(); gray_seed = s; gray_n = 0; }
int sim_rand(void) {
  point("rand");
  int32_t r;
  if (rand_gray) {
    unsigned n = gray_n++, g = n ^ (n >> 1);
    uint32_t used = 0, v = (uint32_t)hash64(gray_seed, 77) & 0x7fffffff;
    for (int b = 0; b < 31; b++) {                 // the b-th bit of the code goes to a bit chosen by the seed
      int at = (int)(hash64(gray_seed, 100 + b) % 31);
      while (used >> at & 1) at = (at + 1) % 31;
      used |= 1u << at;
      if (g >> b & 1) v ^= 1u << at;
    }
    r = (int32_t)v;
  } else
  random_r(&rd, &r);
  if (!rand_seen.insert(r).second) rand_repeated = true;
  return r;
}
void sim_srandom(unsigned s) { sim_srand(s); }
long sim_random(void) { return sim_rand(); }
int sim_rand_r(unsigned* s) { return rand_r(s); }
ssize_t sim_getrandom(void* b, size_t n, unsigned) {
  check_range(b, n, true, "getrandom");
  for (size_t i = 0; i < n; i++) ((unsigned char*)b)[i] = (unsigned char)dec_raw(K_RANDV, [](Rng& r) { return r.below(256); });
  return (ssize_t)n;
}
int sim_getentropy(void* b, size_t n) { sim_getrandom(b, n, 0); return 0; }
uint32_t sim_arc4random(void) { return (uint32_t)dec_raw(K_RANDV, [](Rng& r) { return r.next() & 0xffffffff; }); }

// signals
int sim_sigaction(int s, const struct sigaction* a, struct sigaction* o) {
  if (s < 1 || s > 64 || s == SIGKILL || s == SIGSTOP) { errno = EINVAL; return -1; }
  if (o) { memset(o, 0, sizeof *o); if (acts[s].sa) { o->sa_sigaction = acts[s].sa; } else o->sa_handler = acts[s].h; o->sa_flags = acts[s].flags; }
  if (a) {
    check_range(a, sizeof *a, false, "sigaction");
    SigAct n;
    n.flags = a->sa_flags;
    if (a->sa_flags & SA_SIGINFO) { n.sa = a->sa_sigaction; n.h = nullptr; if ((void*)n.sa == (void*)SIG_DFL || (void*)n.sa == (void*)SIG_IGN) { n.h = (void (*)(int))n.sa; n.sa = nullptr; } }
    else n.h = a->sa_handler;
    for (int i = 1; i <= 64; i++) if (sigismember(&a->sa_mask, i) == 1) n.mask |= bit(i);
    if (a->sa_flags & SA_RESETHAND) {}
    acts[s] = n;
  }
  return 0;
}
typedef void (*sh_t)(int);
sh_t sim_signal(int s, sh_t h) { sh_t o = acts[s].h; acts[s] = SigAct(); acts[s].h = h; acts[s].flags = SA_RESTART; return o; }
static int setmask(int how, const sigset_t* n, sigset_t* o) {
  uint64_t m = cur ? sim_mask_get(cur->id) : 0;
  if (o) { sigemptyset(o); for (int i = 1; i <= 64; i++) if (m & bit(i)) sigaddset(o, i); }
  if (n) {
    uint64_t x = 0;
    for (int i = 1; i <= 64; i++) if (sigismember(n, i) == 1) x |= bit(i);
    if (how == SIG_BLOCK) m |= x; else if (how == SIG_UNBLOCK) m &= ~x; else m = x;
    if (cur) sim_mask_set(cur->id, m);
    // pending signals of this fiber that are now blocked become process-wide
    if (cur) {
      for (size_t i = 0; i < cur->sigpend.size();) {
        int s = cur->sigpend[i];
        if (m & bit(s)) { cur->sigpend.erase(cur->sigpend.begin() + i); raise_signal(s); } else i++;
      }
    }
    recheck_pending();
  }
  return 0;
}
int sim_pthread_sigmask(int how, const sigset_t* n, sigset_t* o) { setmask(how, n, o); point("sigmask"); return 0; }
int sim_sigprocmask(int how, const sigset_t* n, sigset_t* o) { setmask(how, n, o); point("sigmask"); return 0; }
static int sigw(const sigset_t* set, Time deadline) {
  point("sigwait");
  for (;;) {
    for (size_t i = 0; i < tpend.size(); i++)
      if (tpend[i].first == cur->id && sigismember(set, tpend[i].second) == 1) { int s = tpend[i].second; tpend.erase(tpend.begin() + i); return s; }
    for (size_t i = 0; i < procpend.size(); i++)
      if (sigismember(set, procpend[i]) == 1) { int s = procpend[i]; procpend.erase(procpend.begin() + i); return s; }
    if (wait_on(sigwaitq, deadline, "sigwait") == W_TIMEOUT) return 0;
  }
}
int sim_sigwait(const sigset_t* set, int* sig) { *sig = sigw(set, NEVER); return 0; }
int sim_sigwaitinfo(const sigset_t* set, siginfo_t* si) { int s = sigw(set, NEVER); if (si) { memset(si, 0, sizeof *si); si->si_signo = s; } return s; }
int sim_sigtimedwait(const sigset_t* set, siginfo_t* si, const struct timespec* ts) {
  int s = sigw(set, now() + (Time)ts->tv_sec * SEC + ts->tv_nsec / 1000);
  if (!s) { errno = EAGAIN; return -1; }
  if (si) { memset(si, 0, sizeof *si); si->si_signo = s; }
  return s;
}
int sim_raise(int s) { if (cur && fiber_takes(cur, s)) { deliver_to(cur, s); point("raise"); } else raise_signal(s); return 0; }
int sim_kill(pid_t, int s) { raise_signal(s); point("kill"); return 0; }
int sim_pthread_kill(pthread_t t, int s) { Fiber* f = fiber_by_tid((uint64_t)t); if (!f || f->state == 2) return ESRCH; if (s && fiber_takes(f, s)) deliver_to(f, s); else if (s) { tpend.push_back({f->id, s}); wake_all(sigwaitq); } point("pthread_kill"); return 0; }
int sim_pause(void) { WaitQ q; point("pause"); wait_on(q, NEVER, "pause", true); errno = EINTR; return -1; }
int sim_sigsuspend(const sigset_t* m) {
  sigset_t o;
  setmask(SIG_SETMASK, m, &o);
  WaitQ q;
  wait_on(q, NEVER, "sigsuspend", true);
  setmask(SIG_SETMASK, &o, nullptr);
  errno = EINTR;
  return -1;
}
unsigned sim_alarm(unsigned) { return 0; }

// processes
pid_t sim_fork(void) {
  point("fork");
  if (fault(K_FORK)) { errno = EAGAIN; return -1; }
  forked = true;
  if (fork_mode) { tlog("fork: continuing as the parent"); return 4711; }
  stdio_fork();
  procpend.clear();
  tlog("fork: continuing as the child");
  for (auto f : fibers)
    if (f->sut && f != cur && f->state != 2) {
      f->state = 2;
      f->joined = true;
      f->wq = nullptr;
    }
  return 0;
}
pid_t sim_setsid(void) { if (fault(K_SYS)) { errno = EPERM; return -1; } session_made = true; return 4242; }
pid_t sim_getpid(void) { return 4242; }
pid_t sim_getppid(void) { return 1; }
void sim_exit(int code) {
  stdio_exit_flush();
  if (on_exit_call) on_exit_call(code);
  stack_unpoison(cur);
  fiber_exit();
}
void sim__exit(int code) { if (on_exit_call) on_exit_call(code); stack_unpoison(cur); fiber_exit(); }
void sim_abort(void) { fatal_violation("*:crash", "abort() called"); }
void sim___assert_fail(const char* e, const char*, unsigned, const char*) { fatal_violation("*:crash", "assertion failed: %s", e); }
char* sim_getenv(const char*) { return nullptr; }
char* sim_secure_getenv(const char*) { return nullptr; }
int sim_daemon(int nochdir, int noclose) { sim_fork(); sim_setsid(); (void)nochdir; (void)noclose; return 0; }
int sim_atexit(void (*)(void)) { return 0; }
}

// Deterministic simulator core interface.
#pragma once
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <functional>
#include <string>
#include <vector>

namespace sim {

typedef int64_t Time;  // microseconds of simulated time
static const Time US = 1, MS = 1000, SEC = 1000000, MINUTE = 60 * SEC, NEVER = INT64_MAX / 4;

// ---- decisions ---------------------------------------------------------------------------------------------
enum K {
  K_SCHED, K_MEM, K_JUMP, K_SPUR, K_WAKE, K_NETDELAY, K_SEG, K_RETRY, K_RANDV,  // schedule and environment
  K_STALL, K_ALLOC, K_THREAD, K_SOCKET, K_BIND, K_LISTEN, K_SOCKOPT, K_ACCEPT, K_CONNECT, K_SENDTO, K_SENDERR,
  K_RECVERR, K_UDPRECVERR, K_SHORTSEND, K_SHORTRECV, K_GAI, K_SYNCINIT, K_PCRE_ALLOC, K_PCRE_MATCH, K_FOPEN, K_FREAD, K_FSHORT,
  K_FWRITE, K_FORK, K_UDPLOSS, K_CLOCKJUMP, K_SYS, K_EMFILE,
  K_N
};
extern const char* const kname[K_N];
static const int K_FIRST_FAULT = K_STALL;

struct Rng {
  uint64_t s;
  void seed(uint64_t x) { s = x; next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return p > 0 && unit() < p; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  // log-uniform in [a,b], a >= 1
  int64_t logu(int64_t a, int64_t b);
};
uint64_t hash64(uint64_t a, uint64_t b);

struct Dec { int k; uint64_t idx, val; };

// Everything that defines a run apart from the world plan.
struct Config {
  uint64_t seed = 1;
  int strategy = 0;            // 0 random walk, 1 priorities (PCT), 2 run to block
  double p_switch = 0.1;       // probability of considering a switch at a synchronisation/system call
  uint64_t mem_gap = 0;        // mean number of memory accesses between preemptions (0 = none)
  int pct_depth = 3;
  double p_jump = 0;
  double rate[K_N] = {0};      // fault rates
  int64_t fail_at[K_N];        // force the n-th occurrence to fail (-1 = none)
  Time max_stall = 1 * SEC;
  Time net_min = 20, net_max = 50 * MS;
  double p_spur = 0;
  Config() { for (int i = 0; i < K_N; i++) fail_at[i] = -1; }
};
extern Config cfg;
extern bool faults_on;                 // master switch for fault kinds
extern bool replaying;
extern std::vector<Dec> trace;         // non-default decisions of this run
void set_replay(const std::vector<Dec>& d);
uint64_t dec_raw(K k, const std::function<uint64_t(Rng&)>& gen);
uint64_t pick(K k, uint64_t n);        // 0..n-1, default 0
bool fault(K k);                       // does a fault of this kind fire here?
uint64_t fault_val(K k, uint64_t n);   // 0 = no fault, else 1..n
bool coin(K k, double p);
Time net_delay();

// ---- statistics shared with the parent ------------------------------------------------------------------------
struct Stats {
  uint64_t runs, sim_us, steps, switches, mem_acc, fault[K_N], threads, allocs, sockets, probes[64], ops;
  uint64_t violations_other;
};
extern Stats* stats;
struct Result {
  int status;              // 0 not finished, 1 ok, 2 violation, 3 engine error
  char cls[64];
  char msg[3000];
  uint64_t trace_hash, sched_hash, state_hash;
  int ntrace;
  int nontrivial;
  char sample[1200];
};
extern Result* result;
void mix(uint64_t v);                  // into the trace hash
void probe(int i);

// ---- violations -----------------------------------------------------------------------------------------------
// cls "C05:order": property tag and detail; tag "*" is generic (crash, memory, hang...). A violation whose tag is not
// relevant to the running check is counted and ignored unless fatal.
extern std::vector<std::string> relevant;
bool is_relevant(const char* cls);
void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void fatal_violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void engine_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finish_ok();
extern bool verbose;
void tlog(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- fibers and time --------------------------------------------------------------------------------------------
struct Fiber;
struct WaitQ { std::vector<Fiber*> q; };
struct Fiber {
  int id = 0;
  void* sp = nullptr;
  char* stk = nullptr;
  size_t stksz = 0;
  std::function<void()> body;
  int state = 0;  // 0 runnable, 1 blocked, 2 done
  std::string name;
  uint64_t wseq = 0;
  int wreason = 0;
  WaitQ* wq = nullptr;
  int64_t prio = 0;
  int err = 0;
  const char* what = "";
  bool intr = false;
  std::vector<int> sigpend;
  int sigdepth = 0;
  // pthread
  bool sut = false, detached = false, joined = false, started = false;
  void* ret = nullptr;
  WaitQ joinq;
  void* keys[16] = {0};
  uint32_t sysdepth = 0;
};
extern Fiber* cur;                     // NULL in scheduler/actor context
extern std::vector<Fiber*> fibers;
Fiber* spawn(const std::string& name, std::function<void()> body, bool sut);
[[noreturn]] void fiber_exit();
Time now();
Time now_real();
Time now_mono();
extern Time real_offset;
void post(Time delay, std::function<void()> fn);
void post_at(Time t, std::function<void()> fn);
void point(const char* what);          // preemption point (fiber context only; no-op elsewhere)
void yield_now();
enum { W_WAKE = 0, W_TIMEOUT = 1, W_INTR = 2 };
int wait_on(WaitQ& q, Time deadline, const char* what, bool interruptible = false);
void wake_fiber(Fiber* f, int reason = W_WAKE);
void wake_all(WaitQ& q);
bool wake_one(WaitQ& q, K k = K_WAKE);
void sleep_until(Time t, const char* what, bool interruptible = false);
int live_sut_threads();
std::string fiber_dump();
void run();                            // scheduler loop; returns when stop() was called or nothing is left
void stop();
extern std::function<bool()> on_quiesce;  // called when nothing can run; return true to continue
extern std::function<void(Fiber*, int)> sig_dispatch;
extern uint64_t max_steps;

// ---- memory -------------------------------------------------------------------------------------------------------
void mem_init();                       // once, before forking
void static_store();
void check_range(const void* p, size_t n, bool write, const char* what);
size_t checked_strlen(const char* s, const char* what);
void* heap_alloc(size_t n, bool zero);
void sync_freed(const void* p, size_t n);
void heap_free(void* p, const char* what);
size_t heap_live_count();
size_t heap_live_bytes();
std::string heap_live_dump();
bool heap_is_live(const void* p);
void stack_unpoison(Fiber* f);
std::string backtrace_str();

void cleanup_check_begin();
}  // namespace sim

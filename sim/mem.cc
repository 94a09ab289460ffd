// Shadow memory, access callbacks (run-time of -fsanitize=kernel-address), heap.
#include "sim.h"
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" char __executable_start, etext, __data_start[], _end[];

namespace sim {
extern uint64_t g_acc, g_next_preempt;
void mem_preempt();
static const uint64_t SH_OFF = 0x7fff8000ull;
static const uint64_t SH_END = 0x10007fff8000ull;
static bool shadow_ready = false;
static void ensure_shadow() {
  if (shadow_ready) return;
  shadow_ready = true;
  void* p = mmap((void*)SH_OFF, SH_END - SH_OFF, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)SH_OFF) {
    fprintf(stderr, "cannot map shadow memory\n");
    _exit(3);
  }
  madvise((void*)SH_OFF, SH_END - SH_OFF, MADV_DONTDUMP);
}
static inline int8_t* sh(uint64_t a) { return (int8_t*)((a >> 3) + SH_OFF); }
static void poison(uint64_t a, size_t n, int8_t v) { memset(sh(a), v, n >> 3); }
static void unpoison(uint64_t a, size_t n) {
  memset(sh(a), 0, n >> 3);
  if (n & 7) *sh(a + (n & ~7ull)) = (int8_t)(n & 7);
}
void stack_unpoison(Fiber* f) { if (f && f->stk) memset(sh((uint64_t)f->stk), 0, f->stksz >> 3); }

std::string backtrace_str() {
  std::string s;
  uint64_t* bp = (uint64_t*)__builtin_frame_address(0);
  char b[40];
  int n = 0;
  uint64_t lo = cur ? (uint64_t)cur->stk : 0, hi = cur ? lo + cur->stksz : 0;
  while (cur && (uint64_t)bp >= lo && (uint64_t)bp + 16 <= hi && n < 14) {
    uint64_t ret = bp[1];
    if (ret < (uint64_t)&__executable_start || ret > (uint64_t)&etext) break;
    snprintf(b, sizeof b, " 0x%llx", (unsigned long long)ret);
    s += b;
    n++;
    uint64_t* nb = (uint64_t*)bp[0];
    if (nb <= bp) break;
    bp = nb;
  }
  return s.empty() ? s : "\n  stack:" + s;
}

struct Block { char* p; size_t n; int state; const char* fname; uint64_t site; };
static std::vector<Block>* blocks;
static const uint64_t AR_BASE = 0x300000000000ull;
static const size_t AR_SIZE = 640u << 20;
static const size_t AR_STEP = 32u << 20;
static uint64_t ar_next = AR_BASE, ar_closed = AR_BASE;   // memory up to the second one is marked as not allocated
static uint64_t live = 0;

[[noreturn]] static void bad(uint64_t a, size_t n, bool w, const char* what) {
  const char* kind = "invalid memory";
  char extra[160] = "";
  if (a < 65536) kind = "null-pointer";
  else {
    int8_t v = *sh(a);
    if (v >= 0 && v < 8) v = *sh((a + n - 1));
    if (a >= AR_BASE && a < AR_BASE + AR_SIZE) {
      kind = (uint8_t)v == 0xfd ? "use-after-free" : "heap-buffer-overflow";
      for (auto& b : *blocks)
        if ((uint64_t)b.p <= a + 16 && a < (uint64_t)b.p + b.n + 32) snprintf(extra, sizeof extra, " (block of %zu bytes, offset %lld)", b.n, (long long)(a - (uint64_t)b.p));
    } else if ((uint8_t)v == 0xf9) kind = "global-buffer-overflow";
    else kind = "stack-buffer-overflow";
  }
  fatal_violation("*:memory", "%s: %s of %zu bytes%s%s%s", kind, w ? "write" : "read", n, extra, what[0] ? " in " : "", what);
}
static inline bool range_ok(uint64_t a, size_t n) {
  if (a < 65536) return false;
  uint64_t e = a + n - 1;
  for (uint64_t s = a >> 3; s <= e >> 3; s++) {
    int8_t v = *(int8_t*)(s + SH_OFF);
    if (v == 0) continue;
    if (v < 0) return false;
    uint64_t last = s == e >> 3 ? (e & 7) : 7;
    if ((int)last >= v) return false;
  }
  return true;
}
void static_store();
static inline bool is_static(uint64_t a) { return a - (uint64_t)__data_start < (uint64_t)(_end - __data_start); }
void check_range(const void* p, size_t n, bool w, const char* what) {
  if (n == 0) return;
  uint64_t a = (uint64_t)p;
  if (a >= 0x800000000000ull || a + n >= 0x800000000000ull || !range_ok(a, n)) bad(a, n, w, what);
  if (w && is_static(a)) static_store();
}
size_t checked_strlen(const char* s, const char* what) {
  size_t n = 0;
  for (;; n++) {
    uint64_t a = (uint64_t)(s + n);
    if (n == 0 || (a & 7) == 0) {
      if (a < 65536) bad(a, 1, false, what);
    }
    int8_t v = *sh(a);
    if (v && (v < 0 || (int)(a & 7) >= v)) bad(a, 1, false, what);
    if (!s[n]) return n;
  }
}
static inline void acc(uint64_t a, size_t n, bool w) {
  if (a < 65536 || !range_ok(a, n)) bad(a, n, w, "");
  if (w && is_static(a)) static_store();
  if (++g_acc >= g_next_preempt) mem_preempt();
}
static inline void acc_small(uint64_t a, size_t n, bool w) {
  if (a < 65536) bad(a, n, w, "");
  int8_t v = *sh(a);
  if (__builtin_expect(v != 0 || ((a & 7) + n > 8), 0)) {
    if (!range_ok(a, n)) bad(a, n, w, "");
  }
  if (__builtin_expect(w && is_static(a), 0)) static_store();
  if (__builtin_expect(++g_acc >= g_next_preempt, 0)) mem_preempt();
}

// ---- heap ---------------------------------------------------------------------------------------------------
void* heap_alloc(size_t n, bool zero) {
  uint64_t tot = ((n + 15) & ~15ull) + 64;  // 32-byte red zones
  if (ar_next + tot > AR_BASE + AR_SIZE) {
    if (n > (16u << 20)) fatal_violation("*:memory", "absurd allocation of %zu bytes", n);
    result->nontrivial = 0; finish_ok();   // memory is not used twice in a run: the run ends here, undecided
  }
  for (; ar_next + tot + 65536 > ar_closed; ar_closed += AR_STEP) memset(sh(ar_closed), 0xfa, AR_STEP >> 3);
  char* p = (char*)(ar_next + 32);
  ar_next += tot;
  uint64_t idx = blocks->size();
  *(uint64_t*)(p - 8) = idx;
  *(uint64_t*)(p - 16) = 0x5ca1ab1e0ddba11ull;
  blocks->push_back({p, n, 1, cur ? cur->name.c_str() : "-", 0});
  uint64_t* bp = (uint64_t*)__builtin_frame_address(0);
  if (cur) {  // caller of sim_malloc
    bp = (uint64_t*)bp[0];
    blocks->back().site = bp[1];
  }
  unpoison((uint64_t)p, n);
  memset(p, zero ? 0 : 0xcb, n);
  live++;
  stats->allocs++;
  return p;
}
bool heap_is_live(const void* q) {
  uint64_t a = (uint64_t)q;
  if (a < AR_BASE + 32 || a >= ar_next) return false;
  char* p = (char*)a;
  if ((a & 15) || *(uint64_t*)(p - 16) != 0x5ca1ab1e0ddba11ull) return false;
  uint64_t i = *(uint64_t*)(p - 8);
  return i < blocks->size() && (*blocks)[i].p == p && (*blocks)[i].state == 1;
}
void heap_free(void* q, const char* what) {
  if (!q) return;
  if (!heap_is_live(q)) {
    uint64_t a = (uint64_t)q;
    bool was = a >= AR_BASE && a < ar_next && !(a & 15) && *(uint64_t*)((char*)q - 16) == 0x5ca1ab1e0ddba11ull;
    fatal_violation("*:memory", "%s of %s in %s", "free", was ? "already freed block" : "pointer that was not allocated", what);
  }
  Block& b = (*blocks)[*(uint64_t*)((char*)q - 8)];
  sync_freed(b.p, b.n);
  b.state = 2;
  live--;
  memset(b.p, 0xdd, b.n);
  poison((uint64_t)b.p, (b.n + 15) & ~15ull, (int8_t)0xfd);
}
size_t heap_live_count() { return live; }
size_t heap_live_bytes() {
  size_t n = 0;
  for (auto& b : *blocks) if (b.state == 1) n += b.n;
  return n;
}
std::string heap_live_dump() {
  std::string s;
  char t[120];
  for (auto& b : *blocks)
    if (b.state == 1) {
      snprintf(t, sizeof t, " %zuB@0x%llx", b.n, (unsigned long long)b.site);
      s += t;
      if (s.size() > 400) break;
    }
  return s;
}
size_t heap_size(void* p) { return (*blocks)[*(uint64_t*)((char*)p - 8)].n; }

static void on_segv(int sig, siginfo_t* si, void* uc_) {
  ucontext_t* uc = (ucontext_t*)uc_;
  uint64_t ip = uc->uc_mcontext.gregs[REG_RIP];
  fatal_violation("*:crash", "signal %d (address %s) at 0x%llx", sig, (uint64_t)si->si_addr < 65536 ? "near null" : "wild", (unsigned long long)ip);
}
void mem_init() {
  ensure_shadow();
  blocks = new std::vector<Block>;
  blocks->reserve(4096);
  void* p = mmap((void*)AR_BASE, AR_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)AR_BASE) { fprintf(stderr, "arena mmap failed\n"); _exit(3); }
  memset(sh(AR_BASE), 0xfa, AR_STEP >> 3);
  ar_closed = AR_BASE + AR_STEP;
  static char alt[65536];
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_segv;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, nullptr);
  sigaction(SIGBUS, &sa, nullptr);
  sigaction(SIGFPE, &sa, nullptr);
  sigaction(SIGILL, &sa, nullptr);
  sigaction(SIGABRT, &sa, nullptr);
}
}  // namespace sim
using namespace sim;
extern "C" {
#define LS(n) \
  void __asan_load##n##_noabort(uint64_t a) { acc_small(a, n, false); } \
  void __asan_store##n##_noabort(uint64_t a) { acc_small(a, n, true); }
LS(1) LS(2) LS(4) LS(8)
void __sanitizer_cov_trace_pc() { if (__builtin_expect(++g_acc >= g_next_preempt, 0)) mem_preempt(); }
void __asan_load16_noabort(uint64_t a) { acc(a, 16, false); }
void __asan_store16_noabort(uint64_t a) { acc(a, 16, true); }
void __asan_loadN_noabort(uint64_t a, uint64_t n) { if (n) acc(a, n, false); }
void __asan_storeN_noabort(uint64_t a, uint64_t n) { if (n) acc(a, n, true); }
void __asan_handle_no_return() { if (cur) stack_unpoison(cur); }
void __asan_alloca_poison(uint64_t a, uint64_t n) {
  uint64_t e = (a + n + 31) & ~31ull;
  unpoison(a, n);
  poison(a - 32, 32, (int8_t)0xca);
  poison(e, 32, (int8_t)0xcb);
}
void __asan_allocas_unpoison(uint64_t top, uint64_t bottom) {
  if (top && top <= bottom) memset(sh(top), 0, (bottom - top) >> 3);
}
struct AsanGlobal { uint64_t beg, size, size_rz; const char* name; const char* mod; uint64_t init; void* loc; uint64_t odr; };
void __asan_register_globals(AsanGlobal* g, uint64_t n) {
  ensure_shadow();
  for (uint64_t i = 0; i < n; i++) {
    uint64_t a = (g[i].size + 7) & ~7ull;
    memset(sh(g[i].beg + a), 0xf9, (g[i].size_rz - a) >> 3);
    if (g[i].size & 7) *sh(g[i].beg + (g[i].size & ~7ull)) = g[i].size & 7;
  }
}
void __asan_unregister_globals(AsanGlobal*, uint64_t) {}
void __asan_before_dynamic_init(const char*) {}
void __asan_after_dynamic_init() {}
void __asan_version_mismatch_check_v8() {}
void __asan_init() {}
#define SETSH(x) void __asan_set_shadow_##x(uint64_t a, uint64_t n) { memset((void*)a, 0x##x, n); }
SETSH(00) SETSH(f1) SETSH(f2) SETSH(f3) SETSH(f5) SETSH(f8)
}

// Helpers shared by the small worlds.
#pragma once
#include "plan.h"
#include "env.h"
#include <algorithm>
#include <string>
namespace wu {
using namespace sim;
static void add(Plan& p, int who, int kind, int64_t gap, int64_t a = 0, int64_t b = 0, int64_t c = 0, int64_t d = 0) {
  Op o;
  o.who = who; o.kind = kind; o.gap = gap; o.a = a; o.b = b; o.c = c; o.d = d;
  p.ops.push_back(o);
}
// how late a thread may be: stalls and a slow processor are part of the environment
static Time g_slack() { return 20 * MS + (cfg.rate[K_STALL] > 0 ? 40 * cfg.max_stall : 0) + (cfg.p_jump > 0 ? 20 * SEC : 0); }
static void leaks(const char* cls, const char* when) {
  if (heap_live_count()) violate(cls, "%s: %zu allocations are still live: %s", when, heap_live_count(), heap_live_dump().c_str());
  if (live_sut_threads()) violate(cls, "%s: %d threads are still running\n%s", when, live_sut_threads(), fiber_dump().c_str());
}
static uint64_t resource_faults() { uint64_t n = 0; for (int k = K_ALLOC; k < K_N; k++) if (k != K_SHORTSEND && k != K_SHORTRECV && k != K_FSHORT && k != K_CLOCKJUMP) n += stats->fault[k]; return n; }
}  // namespace wu
using namespace wu;

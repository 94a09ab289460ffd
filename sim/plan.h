// A run's plan: what the environment does, and the configuration of the simulator.
#pragma once
#include "sim.h"
#include <map>

namespace sim {
struct Op { int who = 0; int kind = 0; int64_t gap = 0, a = 0, b = 0, c = 0, d = 0; };
struct Plan {
  std::string world, profile;
  Config cfg;
  std::map<std::string, int64_t> par;
  std::vector<Op> ops;
  int64_t p(const char* k, int64_t def = 0) const { auto it = par.find(k); return it == par.end() ? def : it->second; }
};
struct World {
  const char* name;
  void (*gen)(Plan&, Rng&);
  void (*exec)(const Plan&);
  std::vector<const char*> opnames;
};
std::vector<World>& worlds();
struct WorldReg { WorldReg(World w) { worlds().push_back(w); } };
// common choice of scheduling strategy and network speed
void gen_sched(Plan&, Rng&);
// checked helper: end of run
void check_leaks(const char* cls, int allowed_threads);
}  // namespace sim

// The proxy world: shared declarations.
#pragma once
#include "plan.h"
#include "env.h"
#include <map>
#include <set>
#include <string>
#include <vector>

namespace pw {
using namespace sim;
enum { O_CONN, O_UDP, O_OPEN, O_TDATA, O_TCLOSE, O_PAUSE, O_RAW, O_END, O_RSEND, O_REND, O_RPAUSE, O_IN, O_SHUTDOWN, O_DROP, O_JUMP,
       O_REGMODE, O_SIGNAL, O_FDFULL, O_LOGSEL, O_WAIT, O_N };
extern const std::vector<const char*> opnames;
void gen(Plan& p, Rng& r);
extern const char* const calls[];
extern const int ncalls;
}  // namespace pw

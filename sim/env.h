// Simulated files, console, syslog, process environment.
#pragma once
#include "net.h"
#include <map>

namespace sim {
struct FNode { std::string data; bool dir = false; int err = 0; bool special = false; uint64_t writes = 0; };
extern std::map<std::string, FNode*> fs;           // absolute path -> node
FNode* fs_put(const std::string& path, const std::string& data);
FNode* fs_get(const std::string& path);
struct SysLine { int prio; std::string text; Time t; };
extern std::vector<SysLine> sysl;
extern bool syslog_opened;
extern bool rand_gray;                                // rand() returns values of which any two in a row differ in one bit, none twice
extern bool rand_repeated;                            // the random source gave one value twice since it was seeded
extern std::string cwd;
extern int file_objs;                               // open FILEs
extern std::function<void(FNode*, const char*, size_t)> file_written;
extern std::function<void(int)> on_exit_call;       // exit() by the SUT
extern bool forked, session_made;
extern int fork_mode;                               // 0: the run goes on as the child, 1: as the parent
bool raise_signal(int sig);                         // asynchronous signal to the process
bool sig_ignored(int sig);
std::string vformat(const char* fmt, va_list ap, const char* what);
extern int pcre_live;
extern Fiber* main_fiber;                           // target of signals
extern int stdout_mode;                             // 0 line buffered, 1 fully buffered
void stdio_exit_flush();
void stdio_fork();                                  // the parent's copies of unwritten stream data are written too
void env_init();
void mem_tick();
size_t heap_size(void* p);
void clock_jump(Time d);
Fiber* fiber_by_tid(uint64_t t);
}  // namespace sim

// pthread emulation on fibers.
#include "sim.h"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <algorithm>

using namespace sim;
namespace sim {
struct Sync {
  int kind;  // 1 mutex 2 cond 3 rwlock 4 sem
  bool destroyed = false;
  Fiber* owner = nullptr;
  int count = 0;  // recursion / semaphore value
  int readers = 0;
  int type = 0;
  int clock = CLOCK_REALTIME;
  WaitQ q;
  std::vector<Fiber*> rholders;
};
static std::vector<Sync*> syncs;
static const uint32_t MAG = 0x51abc0de;
struct Tag { uint32_t mag, id; };

static const char* kn[] = {"", "mutex", "condition variable", "rwlock", "semaphore"};
static Sync* mk(void* p, int kind) {
  Sync* s = new Sync;
  s->kind = kind;
  syncs.push_back(s);
  Tag* t = (Tag*)p;
  t->mag = MAG;
  t->id = (uint32_t)syncs.size() - 1;
  return s;
}
static Sync* get(const void* p, int kind, const char* fn, size_t size) {
  check_range(p, size, true, fn);
  Tag* t = (Tag*)p;
  if (t->mag == 0 && t->id == 0) {
    Sync* s = mk((void*)p, kind);
    if (kind == 1) s->type = *(int*)((char*)p + 16) & 3;
    return s;
  }
  if (t->mag != MAG || t->id >= syncs.size()) fatal_violation("*:sync", "%s on an uninitialised or overwritten %s", fn, kn[kind]);
  Sync* s = syncs[t->id];
  if (s->kind != kind) fatal_violation("*:sync", "%s on something that is not a %s", fn, kn[kind]);
  if (s->destroyed) fatal_violation("*:sync", "%s on a destroyed %s", fn, kn[kind]);
  return s;
}
static int sync_init(void* p, int kind, const char* fn, size_t size, Sync** out) {
  check_range(p, size, true, fn);
  uint64_t f = fault_val(K_SYNCINIT, 2);
  if (f) return f == 1 ? ENOMEM : EAGAIN;
  Tag* t = (Tag*)p;
  if (t->mag == MAG && t->id < syncs.size() && !syncs[t->id]->destroyed && syncs[t->id]->kind == kind) {
    Sync* s = syncs[t->id];
    if (s->owner || !s->q.q.empty() || s->readers) fatal_violation("*:sync", "%s re-initialises a %s that is in use", fn, kn[kind]);
  }
  memset(p, 0, size);
  *out = mk(p, kind);
  return 0;
}
static int sync_destroy(void* p, int kind, const char* fn, size_t size) {
  Sync* s = get(p, kind, fn, size);
  if (s->owner || s->readers) fatal_violation("*:sync", "%s destroys a locked %s", fn, kn[kind]);
  if (!s->q.q.empty()) fatal_violation("*:sync", "%s destroys a %s with waiters", fn, kn[kind]);
  s->destroyed = true;
  return 0;
}
void sync_freed(const void* p, size_t n) {
  for (size_t i = 0; i + sizeof(Tag) <= n; i += 8) {
    const Tag* t = (const Tag*)((const char*)p + i);
    if (t->mag != MAG || t->id >= syncs.size() || syncs[t->id]->destroyed) continue;
    Sync* s = syncs[t->id];
    if (s->owner || s->readers) fatal_violation("*:sync", "the memory of a locked %s is freed", kn[s->kind]);
    if (!s->q.q.empty()) fatal_violation("*:sync", "the memory of a %s with waiters is freed", kn[s->kind]);
    violate("C20:locks", "the memory of a %s is freed although it was not destroyed", kn[s->kind]);
  }
}
static Fiber* me(const char* fn) {
  if (!cur) engine_error("%s outside a fiber", fn);
  return cur;
}
static Time ts_us(const struct timespec* ts) { return (Time)ts->tv_sec * SEC + (ts->tv_nsec + 999) / 1000; }
// absolute deadline on `clock` -> wait in steps so that clock jumps take effect
static Time remain(const struct timespec* ts, int clock) {
  Time c = clock == CLOCK_REALTIME ? now_real() : now_mono();
  return ts_us(ts) - c;
}
std::vector<Fiber*> rt_waiters;  // fibers whose deadline follows CLOCK_REALTIME: re-evaluated on a jump
static int lock_mutex(Sync* s, const struct timespec* abst, int clock) {
  Fiber* f = cur;
  if (s->owner == f) {
    if (s->type == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
    if (s->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    fatal_violation("*:deadlock", "a thread locks a mutex it already holds%s", f->sigdepth ? " (from a signal handler)" : "");
  }
  while (s->owner) {
    Time dl = NEVER;
    if (abst) { Time r = remain(abst, clock); if (r <= 0) return ETIMEDOUT; dl = now() + r; }
    wait_on(s->q, dl, "lock");
  }
  s->owner = f;
  s->count = 1;
  return 0;
}
static void unlock_mutex(Sync* s) {
  if (s->owner != cur) fatal_violation("*:sync", "mutex unlocked by a thread that does not hold it");
  if (--s->count > 0) return;
  s->owner = nullptr;
  wake_one(s->q);
}
static int cond_wait(Sync* c, Sync* m, const struct timespec* abst, int clock) {
  if (m->owner != cur) fatal_violation("*:sync", "condition wait without holding the mutex");
  if (abst && (abst->tv_nsec < 0 || abst->tv_nsec >= 1000000000)) return EINVAL;
  int cnt = m->count;
  m->owner = nullptr;
  wake_one(m->q);
  int ret = 0;
  if (abst && remain(abst, clock) <= 0) {
    ret = ETIMEDOUT;
    point("cond_timeout");
  } else {
    if (cfg.p_spur > 0 && faults_on && coin(K_SPUR, cfg.p_spur)) {
      stats->fault[K_SPUR]++;
      Fiber* f = cur;
      uint64_t ws = f->wseq;
      post(net_delay() * 20, [f, ws] { if (f->state == 1 && f->wseq == ws) wake_fiber(f, 99); });
    }
    for (;;) {
      Time dl = NEVER;
      if (abst) { Time r = remain(abst, clock); dl = now() + (r > 0 ? r : 0); }
      if (abst && clock == CLOCK_REALTIME) rt_waiters.push_back(cur);
      int w = wait_on(c->q, dl, abst ? "timed condition wait" : "condition wait");
      if (abst && clock == CLOCK_REALTIME) rt_waiters.erase(std::find(rt_waiters.begin(), rt_waiters.end(), cur));
      if (w == W_TIMEOUT || w == 98) {
        if (remain(abst, clock) > 0) continue;
        ret = ETIMEDOUT;
      }
      break;
    }
  }
  while (m->owner) wait_on(m->q, NEVER, "lock after condition wait");
  m->owner = cur;
  m->count = cnt;
  return ret;
}
// adjust the wall clock; absolute realtime waits are re-evaluated
void clock_jump(Time d) {
  real_offset += d;
  stats->fault[K_CLOCKJUMP]++;
  std::vector<Fiber*> v = rt_waiters;
  for (auto f : v) if (f->state == 1) wake_fiber(f, 98);
}
uint64_t sync_op_count = 0;
}  // namespace sim

extern "C" {
#define MSZ sizeof(pthread_mutex_t)
#define CSZ sizeof(pthread_cond_t)
#define RSZ sizeof(pthread_rwlock_t)
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  Sync* s;
  int r = sync_init(m, 1, "pthread_mutex_init", MSZ, &s);
  if (r) return r;
  if (a) s->type = *(const int*)a & 3;
  return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t* m) { point("mutex_destroy"); return sync_destroy(m, 1, "pthread_mutex_destroy", MSZ); }
int sim_pthread_mutex_lock(pthread_mutex_t* m) {
  me("pthread_mutex_lock");
  point("mutex_lock");
  return lock_mutex(get(m, 1, "pthread_mutex_lock", MSZ), nullptr, 0);
}
int sim_pthread_mutex_trylock(pthread_mutex_t* m) {
  point("mutex_trylock");
  Sync* s = get(m, 1, "pthread_mutex_trylock", MSZ);
  if (s->owner) {
    if (s->owner == cur && s->type == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
    return EBUSY;
  }
  s->owner = cur;
  s->count = 1;
  return 0;
}
int sim_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) {
  point("mutex_timedlock");
  return lock_mutex(get(m, 1, "pthread_mutex_timedlock", MSZ), t, CLOCK_REALTIME);
}
int sim_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) {
  point("mutex_clocklock");
  return lock_mutex(get(m, 1, "pthread_mutex_clocklock", MSZ), t, c);
}
int sim_pthread_mutex_unlock(pthread_mutex_t* m) {
  me("pthread_mutex_unlock");
  unlock_mutex(get(m, 1, "pthread_mutex_unlock", MSZ));
  point("mutex_unlock");
  return 0;
}
int sim_pthread_mutexattr_init(pthread_mutexattr_t* a) { memset(a, 0, sizeof *a); return 0; }
int sim_pthread_mutexattr_destroy(pthread_mutexattr_t*) { return 0; }
int sim_pthread_mutexattr_settype(pthread_mutexattr_t* a, int t) { *(int*)a = t & 3; return 0; }

int sim_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
  Sync* s;
  int r = sync_init(c, 2, "pthread_cond_init", CSZ, &s);
  if (r) return r;
  if (a) s->clock = *(const int*)a;
  return 0;
}
int sim_pthread_condattr_init(pthread_condattr_t* a) { memset(a, 0, sizeof *a); *(int*)a = CLOCK_REALTIME; return 0; }
int sim_pthread_condattr_destroy(pthread_condattr_t*) { return 0; }
int sim_pthread_condattr_setclock(pthread_condattr_t* a, clockid_t c) {
  if (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC) return EINVAL;
  *(int*)a = c;
  return 0;
}
int sim_pthread_cond_destroy(pthread_cond_t* c) { point("cond_destroy"); return sync_destroy(c, 2, "pthread_cond_destroy", CSZ); }
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  me("pthread_cond_wait");
  point("cond_wait");
  return cond_wait(get(c, 2, "pthread_cond_wait", CSZ), get(m, 1, "pthread_cond_wait", MSZ), nullptr, 0);
}
int sim_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  me("pthread_cond_timedwait");
  point("cond_timedwait");
  check_range(t, sizeof *t, false, "pthread_cond_timedwait");
  Sync* s = get(c, 2, "pthread_cond_timedwait", CSZ);
  return cond_wait(s, get(m, 1, "pthread_cond_timedwait", MSZ), t, s->clock);
}
int sim_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* t) {
  me("pthread_cond_clockwait");
  point("cond_clockwait");
  return cond_wait(get(c, 2, "pthread_cond_clockwait", CSZ), get(m, 1, "pthread_cond_clockwait", MSZ), t, ck);
}
int sim_pthread_cond_signal(pthread_cond_t* c) {
  point("cond_signal");
  wake_one(get(c, 2, "pthread_cond_signal", CSZ)->q);
  return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t* c) {
  point("cond_broadcast");
  wake_all(get(c, 2, "pthread_cond_broadcast", CSZ)->q);
  return 0;
}
// rwlock
int sim_pthread_rwlock_init(pthread_rwlock_t* p, const pthread_rwlockattr_t*) { Sync* s; return sync_init(p, 3, "pthread_rwlock_init", RSZ, &s); }
int sim_pthread_rwlock_destroy(pthread_rwlock_t* p) { return sync_destroy(p, 3, "pthread_rwlock_destroy", RSZ); }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t* p) {
  me("rdlock");
  point("rdlock");
  Sync* s = get(p, 3, "pthread_rwlock_rdlock", RSZ);
  if (s->owner == cur) return EDEADLK;
  while (s->owner) wait_on(s->q, NEVER, "read lock");
  s->readers++;
  return 0;
}
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t* p) {
  point("tryrdlock");
  Sync* s = get(p, 3, "pthread_rwlock_tryrdlock", RSZ);
  if (s->owner) return EBUSY;
  s->readers++;
  return 0;
}
int sim_pthread_rwlock_wrlock(pthread_rwlock_t* p) {
  me("wrlock");
  point("wrlock");
  Sync* s = get(p, 3, "pthread_rwlock_wrlock", RSZ);
  if (s->owner == cur) return EDEADLK;
  while (s->owner || s->readers) wait_on(s->q, NEVER, "write lock");
  s->owner = cur;
  return 0;
}
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t* p) {
  point("trywrlock");
  Sync* s = get(p, 3, "pthread_rwlock_trywrlock", RSZ);
  if (s->owner || s->readers) return EBUSY;
  s->owner = cur;
  return 0;
}
int sim_pthread_rwlock_unlock(pthread_rwlock_t* p) {
  Sync* s = get(p, 3, "pthread_rwlock_unlock", RSZ);
  if (s->owner == cur) s->owner = nullptr;
  else if (s->readers > 0) s->readers--;
  else fatal_violation("*:sync", "rwlock unlocked while not held");
  if (!s->owner && !s->readers) wake_all(s->q);
  point("rwunlock");
  return 0;
}
// semaphores
int sim_sem_init(sem_t* p, int, unsigned v) { Sync* s; int r = sync_init(p, 4, "sem_init", sizeof *p, &s); if (r) { errno = r; return -1; } s->count = (int)v; return 0; }
int sim_sem_destroy(sem_t* p) { return sync_destroy(p, 4, "sem_destroy", sizeof *p); }
int sim_sem_post(sem_t* p) { Sync* s = get(p, 4, "sem_post", sizeof *p); s->count++; wake_one(s->q); point("sem_post"); return 0; }
int sim_sem_wait(sem_t* p) {
  point("sem_wait");
  Sync* s = get(p, 4, "sem_wait", sizeof *p);
  while (s->count <= 0)
    if (wait_on(s->q, NEVER, "semaphore", true) == W_INTR) { errno = EINTR; return -1; }
  s->count--;
  return 0;
}
int sim_sem_trywait(sem_t* p) {
  point("sem_trywait");
  Sync* s = get(p, 4, "sem_trywait", sizeof *p);
  if (s->count <= 0) { errno = EAGAIN; return -1; }
  s->count--;
  return 0;
}
int sim_sem_timedwait(sem_t* p, const struct timespec* t) {
  point("sem_timedwait");
  Sync* s = get(p, 4, "sem_timedwait", sizeof *p);
  while (s->count <= 0) {
    Time r = remain(t, CLOCK_REALTIME);
    if (r <= 0) { errno = ETIMEDOUT; return -1; }
    if (wait_on(s->q, now() + r, "semaphore", true) == W_INTR) { errno = EINTR; return -1; }
  }
  s->count--;
  return 0;
}
// spin locks behave as mutexes
int sim_pthread_spin_init(pthread_spinlock_t* l, int) { *l = 0; return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t* l) { point("spin"); while (*l) sleep_until(now() + 10, "spinlock"); *l = 1; return 0; }
int sim_pthread_spin_trylock(pthread_spinlock_t* l) { point("spin"); if (*l) return EBUSY; *l = 1; return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t* l) { *l = 0; point("spin"); return 0; }

// threads
struct SimAttr { uint32_t mag; int detach; size_t stack; };
int sim_pthread_attr_init(pthread_attr_t* a) {
  check_range(a, sizeof *a, true, "pthread_attr_init");
  SimAttr* s = (SimAttr*)a;
  memset(a, 0, sizeof *a);
  s->mag = MAG;
  s->stack = 8 << 20;
  return 0;
}
int sim_pthread_attr_destroy(pthread_attr_t*) { return 0; }
int sim_pthread_attr_setstacksize(pthread_attr_t* a, size_t n) { if (n < 16384) return EINVAL; ((SimAttr*)a)->stack = n; return 0; }
int sim_pthread_attr_getstacksize(const pthread_attr_t* a, size_t* n) { *n = ((SimAttr*)a)->stack; return 0; }
int sim_pthread_attr_setdetachstate(pthread_attr_t* a, int d) { ((SimAttr*)a)->detach = d == PTHREAD_CREATE_DETACHED; return 0; }
int sim_pthread_attr_setguardsize(pthread_attr_t*, size_t) { return 0; }

static const uint64_t TID0 = 0x7a0000000000ull;
static Fiber* byt(pthread_t t) {
  uint64_t i = ((uint64_t)t - TID0) / 4096;
  if ((uint64_t)t < TID0 || ((uint64_t)t - TID0) % 4096 || i >= fibers.size()) return nullptr;
  return fibers[i];
}
std::vector<uint64_t> sim_sigmask;  // per fiber
extern uint64_t sim_mask_get(int id);
extern void sim_mask_set(int id, uint64_t m);
int sim_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  point("pthread_create");
  check_range(t, sizeof *t, true, "pthread_create");
  if (fault(K_THREAD)) return EAGAIN;
  char nm[32];
  snprintf(nm, sizeof nm, "thread%d", (int)fibers.size());
  Fiber* f = spawn(nm, nullptr, true);
  f->body = [f, fn, arg] { f->ret = fn(arg); };
  if (a && ((SimAttr*)a)->mag == MAG && ((SimAttr*)a)->detach) f->detached = true;
  if (cur) sim_mask_set(f->id, sim_mask_get(cur->id));
  *t = (pthread_t)(TID0 + (uint64_t)f->id * 4096);
  point("pthread_created");
  return 0;
}
int sim_pthread_join(pthread_t t, void** ret) {
  point("pthread_join");
  Fiber* f = byt(t);
  if (!f) fatal_violation("*:sync", "pthread_join of an invalid thread handle");
  if (f->joined) fatal_violation("*:sync", "thread joined twice");
  if (f->detached) fatal_violation("*:sync", "join of a detached thread");
  if (f == cur) return EDEADLK;
  while (f->state != 2) wait_on(f->joinq, NEVER, "thread join");
  f->joined = true;
  if (ret) *ret = f->ret;
  return 0;
}
int sim_pthread_detach(pthread_t t) { Fiber* f = byt(t); if (!f) return ESRCH; f->detached = true; return 0; }
void sim_pthread_exit(void* r) { cur->ret = r; stack_unpoison(cur); fiber_exit(); }
pthread_t sim_pthread_self() { return (pthread_t)(TID0 + (uint64_t)(cur ? cur->id : 4000) * 4096); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sim_sched_yield() { point("sched_yield"); if (cur) sleep_until(now() + 1, "yield"); return 0; }
int sim_pthread_setname_np(pthread_t, const char*) { return 0; }
int sim_pthread_setcancelstate(int, int* o) { if (o) *o = 0; return 0; }
int sim_pthread_once(pthread_once_t* o, void (*fn)(void)) {
  point("once");
  while (*(int*)o == 1) sleep_until(now() + 10, "once");
  if (*(int*)o == 0) { *(int*)o = 1; fn(); *(int*)o = 2; }
  return 0;
}
static int nkeys = 0;
int sim_pthread_key_create(pthread_key_t* k, void (*)(void*)) { if (nkeys >= 16) return EAGAIN; *k = (pthread_key_t)nkeys++; return 0; }
int sim_pthread_key_delete(pthread_key_t) { return 0; }
void* sim_pthread_getspecific(pthread_key_t k) { return cur && k < 16 ? cur->keys[k] : nullptr; }
int sim_pthread_setspecific(pthread_key_t k, const void* v) { if (!cur || k >= 16) return EINVAL; cur->keys[k] = (void*)v; return 0; }
}
namespace sim {
Fiber* fiber_by_tid(uint64_t t) { return byt((pthread_t)t); }
}

// Symbol interposition: these definitions in the executable take precedence over the
// C/C++ runtime for the code under test and for every library it uses.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simrt.h"
#include "prng.h"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <set>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <thread>
#include <time.h>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define REAL(ret, name, args)                                                  \
  using name##_t = ret(*) args;                                                \
  static name##_t real_##name = nullptr;                                       \
  if (__builtin_expect(!real_##name, 0))                                       \
  real_##name = reinterpret_cast<name##_t>(dlsym(RTLD_NEXT, #name))

namespace sim {
RtConfig rt;
RtStats rtStats;
void (*rtOnFatal)(int) = nullptr;

namespace {

long rawSyscall(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(r)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}

enum State { RUNNABLE, BLOCKED, FINISHED };

struct Thread {
  int id = 0;
  State st = RUNNABLE;
  const void *waitObj = nullptr; // what it blocks on
  int waitKind = 0;
  bool woken = false;       // condition wait was signalled
  int64_t deadline = -1;    // timed wait (simulated ns)
  bool timedOut = false;
  int sem = 0;              // parking futex
  pthread_t real{};
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr;
  void *ret = nullptr;
  bool detached = false;
  bool reaped = false; // real thread joined
  Thread *reapMe = nullptr; // exited thread that must be reaped first
  double weight = 1.0;
  bool exiting = false;
};

bool gActive = false;   // simulation on
bool gMulti = false;    // more than one live thread: sites are preemption points
Thread *gCur = nullptr;
std::vector<Thread *> gThreads;
__thread Thread *tSelf = nullptr;
__thread int tInside = 0;
Rng gSched(1), gRand(1), gClock(1), gShort(1);
int64_t gNow = 0;
double gJump = 0.02;
int gLive = 0;
int gCreated = 0;

struct Mutex {
  Thread *owner = nullptr;
  int depth = 0;
};
struct RwLock {
  Thread *writer = nullptr;
  int readers = 0;
};
std::unordered_map<const void *, Mutex> *gMutex;
std::unordered_map<const void *, RwLock> *gRw;
std::unordered_map<const void *, int> *gOnce; // 1 running 2 done

constexpr size_t kSites = 1 << 16;
uint64_t gSpin = 0, gSpinSwitch = 0; // atomic operations since the last context switch
uint16_t gSiteHits[kSites];
uint8_t gSiteOn[kSites]; // 0 unknown 1 off 2 on

void park(Thread *t) {
  while (__atomic_load_n(&t->sem, __ATOMIC_ACQUIRE) == 0)
    rawSyscall(SYS_futex, (long)&t->sem, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(&t->sem, 0, __ATOMIC_RELEASE);
}
void unpark(Thread *t) {
  __atomic_store_n(&t->sem, 1, __ATOMIC_RELEASE);
  rawSyscall(SYS_futex, (long)&t->sem, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

[[noreturn]] void fatal(int code) {
  gActive = false;
  if (rtOnFatal)
    rtOnFatal(code);
  _exit(code);
}

void reap(Thread *me) {
  if (me->reapMe) {
    Thread *z = me->reapMe;
    me->reapMe = nullptr;
    REAL(int, pthread_join, (pthread_t, void **));
    real_pthread_join(z->real, nullptr);
    z->reaped = true;
  }
}

// give the token to `to`; the caller parks unless it is finished
void switchTo(Thread *me, Thread *to, uint64_t site) {
  if (to == me)
    return;
  rtStats.switches++;
  rtStats.interleaving = mix64(rtStats.interleaving * 31 + site * 131 +
                               uint64_t(me->id) * 17 + uint64_t(to->id));
  gCur = to;
  unpark(to);
  park(me);
  reap(me);
}

bool timersFire() {
  // nothing runnable: jump the clock to the earliest deadline
  Thread *best = nullptr;
  for (Thread *t : gThreads)
    if (t->st == BLOCKED && t->deadline >= 0 &&
        (!best || t->deadline < best->deadline))
      best = t;
  if (!best)
    return false;
  if (best->deadline > gNow)
    gNow = best->deadline;
  best->timedOut = true;
  best->deadline = -1;
  best->st = RUNNABLE;
  return true;
}

uint64_t nextPoint() {
  uint64_t n = ++rtStats.points;
  if (n > rt.maxPoints)
    fatal(kExitBudget);
  return n;
}
void logDecision(uint64_t n, int v) { rtStats.decisions.emplace_back(n, v); }

Thread *pickRunnable(Thread *except) {
  double tot = 0;
  for (Thread *t : gThreads)
    if (t->st == RUNNABLE && t != except)
      tot += t->weight;
  if (tot <= 0)
    return nullptr;
  double x = gSched.uni() * tot;
  Thread *last = nullptr;
  for (Thread *t : gThreads)
    if (t->st == RUNNABLE && t != except) {
      last = t;
      x -= t->weight;
      if (x < 0)
        return t;
    }
  return last;
}

// a point where the scheduler may preempt the running thread
void maybePreempt(uint64_t site, bool want) {
  Thread *me = tSelf;
  uint64_t n = nextPoint();
  Thread *to = nullptr;
  if (rt.explicitMode) {
    auto it = rt.decisions.find(n);
    if (it == rt.decisions.end())
      return;
    int v = it->second;
    if (v >= 0 && v < (int)gThreads.size() && gThreads[v]->st == RUNNABLE &&
        gThreads[v] != me)
      to = gThreads[v];
  } else if (want) {
    to = pickRunnable(me);
  }
  if (!to)
    return;
  logDecision(n, to->id);
  rtStats.preemptions++;
  switchTo(me, to, site);
}

// the running thread cannot continue
void blockAndSwitch(uint64_t site) {
  Thread *me = tSelf;
  for (;;) {
    uint64_t n = nextPoint();
    Thread *dflt = nullptr;
    for (Thread *t : gThreads)
      if (t->st == RUNNABLE) {
        dflt = t;
        break;
      }
    if (!dflt) {
      if (timersFire())
        continue;
      fatal(kExitDeadlock);
    }
    Thread *to = dflt;
    if (rt.explicitMode) {
      auto it = rt.decisions.find(n);
      if (it != rt.decisions.end() && it->second >= 0 &&
          it->second < (int)gThreads.size() &&
          gThreads[it->second]->st == RUNNABLE)
        to = gThreads[it->second];
    } else if (rt.syncP > 0) {
      to = pickRunnable(nullptr);
    }
    if (to != dflt)
      logDecision(n, to->id);
    if (to == me) // became runnable through a timer
      return;
    switchTo(me, to, site);
    return;
  }
}

void block(const void *obj, int kind, uint64_t site, int64_t deadline = -1) {
  Thread *me = tSelf;
  me->st = BLOCKED;
  me->waitObj = obj;
  me->waitKind = kind;
  me->deadline = deadline;
  me->timedOut = false;
  blockAndSwitch(site);
  me->waitObj = nullptr;
  me->deadline = -1;
}

void wakeAll(const void *obj, int kind) {
  for (Thread *t : gThreads)
    if (t->st == BLOCKED && t->waitObj == obj && t->waitKind == kind) {
      t->st = RUNNABLE;
      t->woken = true;
    }
}

bool on() { return gActive && tSelf && !tInside; }
struct Inside {
  Inside() { ++tInside; }
  ~Inside() { --tInside; }
};

bool drawSync() {
  return !rt.explicitMode && rt.syncP > 0 && gSched.coin(rt.syncP);
}

uint64_t callSite(void *ra) {
  static uintptr_t base = 0;
  if (!base) {
    Dl_info i;
    if (dladdr((void *)&fatal, &i))
      base = (uintptr_t)i.dli_fbase;
  }
  uintptr_t a = (uintptr_t)ra;
  if (a > base && a - base < (1u << 28))
    return a - base;
  return 1; // library address: not stable under ASLR
}

bool isRecursive(pthread_mutex_t *m) {
  return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}

void simLock(pthread_mutex_t *m, uint64_t site) {
  Thread *me = tSelf;
  Mutex *x = &(*gMutex)[m];
  if (x->owner == me) {
    if (isRecursive(m)) {
      x->depth++;
      return;
    }
    fatal(kExitDeadlock); // self deadlock
  }
  while (x->owner) {
    if (me->exiting)
      fatal(kExitUnsupported);
    block(m, 1, site);
    x = &(*gMutex)[m];
  }
  x->owner = me;
  x->depth = 1;
}
void simUnlock(pthread_mutex_t *m) {
  auto it = gMutex->find(m);
  if (it == gMutex->end())
    return;
  if (it->second.owner == tSelf && --it->second.depth > 0)
    return;
  it->second.owner = nullptr;
  it->second.depth = 0;
  wakeAll(m, 1);
}

void refreshMulti() { gMulti = gLive > 1; }

void *threadMain(void *p) {
  Thread *me = static_cast<Thread *>(p);
  tSelf = me;
  park(me);
  reap(me);
  void *r = me->fn(me->arg);
  {
    Inside in;
    me->ret = r;
    me->exiting = true;
    me->st = FINISHED;
    gLive--;
    refreshMulti();
    for (Thread *t : gThreads)
      if (t->st == BLOCKED && t->waitObj == me && t->waitKind == 3)
        t->st = RUNNABLE;
    // choose who goes on; it first waits until this thread is really gone
    uint64_t n = nextPoint();
    Thread *to = nullptr;
    for (;;) {
      for (Thread *t : gThreads)
        if (t->st == RUNNABLE) {
          to = t;
          break;
        }
      if (to || !timersFire())
        break;
    }
    if (!to)
      fatal(kExitDeadlock);
    Thread *dflt = to;
    if (rt.explicitMode) {
      auto it = rt.decisions.find(n);
      if (it != rt.decisions.end() && it->second >= 0 &&
          it->second < (int)gThreads.size() &&
          gThreads[it->second]->st == RUNNABLE)
        to = gThreads[it->second];
    } else if (rt.syncP > 0) {
      to = pickRunnable(nullptr);
    }
    if (to != dflt)
      logDecision(n, to->id);
    rtStats.switches++;
    rtStats.interleaving = mix64(rtStats.interleaving * 31 + 7 +
                                 uint64_t(me->id) * 17 + uint64_t(to->id));
    to->reapMe = me;
    gCur = to;
    unpark(to);
  }
  return r;
}

// ---------------------------------------------------------------- I/O layer
bool gIoArmed = false;
bool gAllocArmed = false; // counted and failing allocations
std::unordered_map<FILE *, std::string> *gOutFiles;
std::unordered_map<int, std::string> *gOutFds;
bool gDiskFull = false;

bool under(const char *p, const std::string &root) {
  if (!p || root.empty())
    return false;
  return std::strstr(p, root.c_str()) != nullptr;
}

void ioStep(int fd) {
  if (!gIoArmed)
    return;
  rtStats.ioSteps++;
  for (auto &f : rt.faults) {
    if (f.kind == "crash" && rtStats.ioSteps == (uint64_t)f.nth) {
      f.fired++;
      rtStats.ioFired++;
      fatal(kExitCrashPoint);
    }
    if (f.kind == "full" && rtStats.ioSteps == (uint64_t)f.nth) {
      f.fired++;
      rtStats.ioFired++;
      gDiskFull = true;
    }
    if (f.kind == "full" && f.err > 0 && !f.sticky &&
        rtStats.ioSteps == (uint64_t)(f.nth + f.err))
      gDiskFull = false; // space became available again
  }
  if (gDiskFull && fd >= 0) {
    int full = (int)rawSyscall(SYS_open, (long)"/dev/full", O_WRONLY, 0, 0, 0, 0);
    if (full >= 0) {
      rawSyscall(SYS_dup2, full, fd, 0, 0, 0, 0);
      rawSyscall(SYS_close, full, 0, 0, 0, 0, 0);
    }
  }
}

// returns errno to fail with, or 0
int openFault(const char *path, bool writing) {
  if (!gIoArmed || !path)
    return 0;
  const char *kind = writing ? "wfail" : "rfail";
  for (auto &f : rt.faults)
    if (f.kind == kind && std::strstr(path, f.path.c_str())) {
      f.seen++;
      if (f.seen == f.nth || (f.sticky && f.seen >= f.nth)) {
        f.fired++;
        rtStats.ioFired++;
        return f.err;
      }
    }
  return 0;
}

// Closing fails: the last of the data does not arrive. Returns errno to fail with, or 0
int closeFault(const std::string &path, int fd) {
  for (auto &f : rt.faults)
    if (f.kind == "cfail" && path.find(f.path) != std::string::npos && ++f.seen == f.nth) {
      f.fired++;
      rtStats.ioFired++;
      struct stat st;
      if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode))
        if (ftruncate(fd, st.st_size / 2) != 0)
          ;
      return f.err;
    }
  return 0;
}
// how many of n bytes a write takes, 0: it is interrupted before the first one
size_t shortened(int fd, size_t n) {
  if (rt.shortP <= 0 || n == 0 || !gIoArmed || tInside || !gOutFds->count(fd) || !gShort.coin(rt.shortP))
    return n;
  rtStats.shortWrites++;
  return gShort.coin(0.4) ? 0 : 1 + (size_t)(gShort.next() % n);
}

} // namespace

// modules that have to cope with a failing allocation: the program, OpenCV, Ceres and the C++ library
static struct Range {
  uintptr_t lo, hi;
} gAllocFrom[64];
static int gAllocFromN = 0;
static int findModules(struct dl_phdr_info *i, size_t, void *) {
  const char *n = i->dlpi_name ? i->dlpi_name : "";
  const bool wanted = !*n || std::strstr(n, "libopencv_") || std::strstr(n, "libceres") || std::strstr(n, "libstdc++");
  if (*n == 0 && gAllocFromN > 0) // only the program itself has no name (the vdso comes later)
    return 0;
  if (wanted)
    for (int k = 0; k < i->dlpi_phnum && gAllocFromN < 64; k++)
      if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
        uintptr_t lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
        gAllocFrom[gAllocFromN++] = {lo, lo + i->dlpi_phdr[k].p_memsz};
      }
  return 0;
}
void rtArmIo(bool onOff) {
  gIoArmed = onOff;
  if (onOff && rt.countAllocs && !gAllocFromN)
    dl_iterate_phdr(findModules, nullptr);
  gAllocArmed = onOff && rt.countAllocs;
}

void rtBegin() {
  gMutex = new std::unordered_map<const void *, Mutex>();
  gRw = new std::unordered_map<const void *, RwLock>();
  gOnce = new std::unordered_map<const void *, int>();
  gOutFiles = new std::unordered_map<FILE *, std::string>();
  gOutFds = new std::unordered_map<int, std::string>();
  gSched = Rng(rt.schedSeed, "sched");
  gRand = Rng(rt.randSeed, "randdev");
  gClock = Rng(rt.clockSeed, "clock");
  Rng jump(rt.clockSeed, "jump");
  gJump = jump.pick(std::vector<double>{0.02, 0.02, 0.1, 0.5});
  gShort = Rng(rt.clockSeed, "short");
  gNow = rt.clockBase * 1000000000ll;
  rtStats = RtStats();
  std::memset(gSiteHits, 0, sizeof gSiteHits);
  std::memset(gSiteOn, 0, sizeof gSiteOn);
  gSpin = gSpinSwitch = 0;
  gDiskFull = false;
  Thread *m = new Thread();
  m->real = pthread_self();
  gThreads = {m};
  gLive = 1;
  gCreated = 0;
  tSelf = m;
  gCur = m;
  refreshMulti();
  gActive = true;
}
void rtEnd() {
  gAllocArmed = false;
  gActive = false;
  gIoArmed = false;
}

static int64_t clockRead() {
  rtStats.clockReads++;
  switch (rt.clockMode) {
  case 1:
    break;
  case 2:
    gNow += 1000;
    // within thirty years of simulated time
    if (gClock.coin(gJump) && gNow - rt.clockBase * 1000000000ll < 900000000ll * 1000000000ll) {
      rtStats.clockJumps++;
      gNow += (int64_t)gClock.ri(1, 4000) * 1000000000ll;
    }
    break;
  case 3:
    if (gClock.coin(0.02)) {
      rtStats.clockJumps++;
      gNow -= (int64_t)gClock.ri(1, 4000) * 1000000000ll;
      if (gNow < 0)
        gNow = 0;
    } else
      gNow += 1000;
    break;
  default:
    gNow += 1000;
  }
  rtStats.simNs += 1000;
  return gNow;
}

} // namespace sim

using namespace sim;

// ------------------------------------------------------------ code sites
// The program is compiled with coverage and memory-access callbacks (of the kind a race detector uses):
// every edge, every load or store that may be shared and every atomic operation is a possible preemption.
static inline __attribute__((always_inline)) void codeSite(void *ra, bool atomic) {
  if (__builtin_expect(!gMulti, 1) || !gActive || !tSelf || tInside ||
      tSelf->exiting)
    return;
  Inside in;
  uint64_t site = callSite(ra);
  size_t h = (site * 0x9e3779b97f4a7c15ull) >> 48;
  if (gSiteHits[h] == 0)
    rtStats.sites++;
  if (gSiteHits[h] < 65535)
    gSiteHits[h]++;
  // a thread that only spins on an atomic gives way in the end
  if (atomic && rtStats.switches != gSpinSwitch) {
    gSpin = 0;
    gSpinSwitch = rtStats.switches;
  }
  bool want = atomic && (drawSync() || ++gSpin % 4096 == 0);
  if (!rt.explicitMode && rt.siteFrac > 0 && !want) {
    if (!gSiteOn[h])
      gSiteOn[h] =
          (mix64(rt.schedSeed ^ (site * 77)) % 10000 < rt.siteFrac * 10000) ? 2
                                                                           : 1;
    if (gSiteOn[h] == 2) {
      // the first hits of a rare site, then every 2^k-th one
      uint16_t c = gSiteHits[h];
      if (c <= rt.siteBudget || (c & (c - 1)) == 0)
        want = gSched.coin(rt.siteP);
    }
  }
  maybePreempt(site, want);
}
EXPORT void __sanitizer_cov_trace_pc() { codeSite(__builtin_return_address(0), false); }

#define ACCESS(name)                                                                                              \
  EXPORT void __tsan_##name(void *) { codeSite(__builtin_return_address(0), false); }
#define ACCESSES(n)                                                                                               \
  ACCESS(read##n) ACCESS(write##n) ACCESS(unaligned_read##n) ACCESS(unaligned_write##n) ACCESS(volatile_read##n)  \
  ACCESS(volatile_write##n) ACCESS(unaligned_volatile_read##n) ACCESS(unaligned_volatile_write##n)
ACCESSES(1)
ACCESSES(2)
ACCESSES(4)
ACCESSES(8)
ACCESSES(16)
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_read_range(void *, size_t) { codeSite(__builtin_return_address(0), false); }
EXPORT void __tsan_write_range(void *, size_t) { codeSite(__builtin_return_address(0), false); }
EXPORT void __tsan_vptr_update(void **, void *) {}
EXPORT void __tsan_vptr_read(void **) {}
#define ATOMICS(bits, T)                                                                                          \
  EXPORT T __tsan_atomic##bits##_load(const volatile T *a, int) {                                                 \
    codeSite(__builtin_return_address(0), true);                                                                  \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                  \
  }                                                                                                               \
  EXPORT void __tsan_atomic##bits##_store(volatile T *a, T v, int) {                                              \
    codeSite(__builtin_return_address(0), true);                                                                  \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                     \
  }                                                                                                               \
  RMW(bits, T, exchange, __atomic_exchange_n)                                                                     \
  RMW(bits, T, fetch_add, __atomic_fetch_add)                                                                     \
  RMW(bits, T, fetch_sub, __atomic_fetch_sub)                                                                     \
  RMW(bits, T, fetch_and, __atomic_fetch_and)                                                                     \
  RMW(bits, T, fetch_or, __atomic_fetch_or)                                                                       \
  RMW(bits, T, fetch_xor, __atomic_fetch_xor)                                                                     \
  RMW(bits, T, fetch_nand, __atomic_fetch_nand)                                                                   \
  EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {                  \
    codeSite(__builtin_return_address(0), true);                                                                  \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                       \
  }                                                                                                               \
  EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) {                    \
    codeSite(__builtin_return_address(0), true);                                                                  \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                       \
  }                                                                                                               \
  EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) {                        \
    codeSite(__builtin_return_address(0), true);                                                                  \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                             \
    return c;                                                                                                     \
  }
#define RMW(bits, T, op, builtin)                                                                                 \
  EXPORT T __tsan_atomic##bits##_##op(volatile T *a, T v, int) {                                                  \
    codeSite(__builtin_return_address(0), true);                                                                  \
    return builtin(a, v, __ATOMIC_SEQ_CST);                                                                       \
  }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
EXPORT void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------ threads
EXPORT int pthread_create(pthread_t *th, const pthread_attr_t *attr,
                          void *(*fn)(void *), void *arg) {
  REAL(int, pthread_create,
       (pthread_t *, const pthread_attr_t *, void *(*)(void *), void *));
  if (!on())
    return real_pthread_create(th, attr, fn, arg);
  Inside in;
  ++gCreated;
  if (rt.createFail && gCreated == rt.createFail) {
    rtStats.createFails++;
    return EAGAIN;
  }
  Thread *t = new Thread();
  t->id = (int)gThreads.size();
  t->fn = fn;
  t->arg = arg;
  if (attr) {
    int ds = 0;
    pthread_attr_getdetachstate(attr, &ds);
    t->detached = ds == PTHREAD_CREATE_DETACHED;
  }
  if (!rt.explicitMode && rt.starve > 0 && t->id <= rt.starve)
    t->weight = 0.02;
  gThreads.push_back(t);
  int r = real_pthread_create(&t->real, nullptr, threadMain, t);
  if (r) {
    gThreads.pop_back();
    return r;
  }
  *th = t->real;
  rtStats.threads++;
  gLive++;
  refreshMulti();
  maybePreempt(2, drawSync());
  return 0;
}

static Thread *findThread(pthread_t th) {
  for (Thread *t : gThreads)
    if (t->id > 0 && pthread_equal(t->real, th) && !t->detached)
      return t;
  return nullptr;
}

EXPORT int pthread_join(pthread_t th, void **ret) {
  REAL(int, pthread_join, (pthread_t, void **));
  if (!on())
    return real_pthread_join(th, ret);
  Inside in;
  Thread *t = findThread(th);
  if (!t)
    return real_pthread_join(th, ret);
  maybePreempt(3, drawSync());
  while (t->st != FINISHED)
    block(t, 3, 3);
  if (!t->reaped) {
    if (tSelf->reapMe == t)
      reap(tSelf);
    // otherwise the thread that got the token reaped it already
  }
  if (ret)
    *ret = t->ret;
  t->detached = true; // handle consumed
  return 0;
}
EXPORT int pthread_detach(pthread_t th) {
  REAL(int, pthread_detach, (pthread_t));
  if (!on())
    return real_pthread_detach(th);
  Thread *t = findThread(th);
  if (!t)
    return real_pthread_detach(th);
  t->detached = true;
  return 0;
}

EXPORT int pthread_mutex_lock(pthread_mutex_t *m) {
  REAL(int, pthread_mutex_lock, (pthread_mutex_t *));
  if (!on())
    return real_pthread_mutex_lock(m);
  Inside in;
  if (!tSelf->exiting && gMulti)
    maybePreempt(4, drawSync());
  simLock(m, 4);
  return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) {
  REAL(int, pthread_mutex_trylock, (pthread_mutex_t *));
  if (!on())
    return real_pthread_mutex_trylock(m);
  Inside in;
  if (!tSelf->exiting && gMulti)
    maybePreempt(5, drawSync());
  Mutex &x = (*gMutex)[m];
  if (x.owner && !(x.owner == tSelf && isRecursive(m)))
    return EBUSY;
  if (x.owner == tSelf) {
    x.depth++;
    return 0;
  }
  x.owner = tSelf;
  x.depth = 1;
  return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
  REAL(int, pthread_mutex_unlock, (pthread_mutex_t *));
  if (!on())
    return real_pthread_mutex_unlock(m);
  Inside in;
  simUnlock(m);
  if (!tSelf->exiting && gMulti)
    maybePreempt(6, drawSync());
  return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t *m) {
  REAL(int, pthread_mutex_destroy, (pthread_mutex_t *));
  if (gActive && gMutex && tSelf && !tInside) {
    Inside in;
    gMutex->erase(m);
  }
  return real_pthread_mutex_destroy(m);
}

static int condWait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline) {
  Inside in;
  Thread *me = tSelf;
  simUnlock(m);
  me->woken = false;
  // a spurious wake-up is legal: the caller must re-check its predicate
  uint64_t n = nextPoint();
  bool spurious = false;
  if (rt.explicitMode) {
    auto it = rt.decisions.find(n);
    spurious = it != rt.decisions.end() && it->second == 1000;
  } else if (rt.spuriousP > 0 && gMulti) {
    spurious = gSched.coin(rt.spuriousP);
  }
  bool timedOut = false;
  if (spurious) {
    logDecision(n, 1000);
    rtStats.spurious++;
    maybePreempt(7, drawSync());
  } else {
    block(c, 2, 7, deadline);
    timedOut = me->timedOut && !me->woken;
  }
  simLock(m, 7);
  return timedOut ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  REAL(int, pthread_cond_wait, (pthread_cond_t *, pthread_mutex_t *));
  if (!on())
    return real_pthread_cond_wait(c, m);
  return condWait(c, m, -1);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m,
                                  const struct timespec *ts) {
  REAL(int, pthread_cond_timedwait,
       (pthread_cond_t *, pthread_mutex_t *, const struct timespec *));
  if (!on())
    return real_pthread_cond_timedwait(c, m, ts);
  return condWait(c, m, ts->tv_sec * 1000000000ll + ts->tv_nsec);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m,
                                  clockid_t id, const struct timespec *ts) {
  REAL(int, pthread_cond_clockwait,
       (pthread_cond_t *, pthread_mutex_t *, clockid_t,
        const struct timespec *));
  if (!on())
    return real_pthread_cond_clockwait(c, m, id, ts);
  return condWait(c, m, ts->tv_sec * 1000000000ll + ts->tv_nsec);
}
EXPORT int pthread_cond_signal(pthread_cond_t *c) {
  REAL(int, pthread_cond_signal, (pthread_cond_t *));
  if (!on())
    return real_pthread_cond_signal(c);
  Inside in;
  std::vector<Thread *> w;
  for (Thread *t : gThreads)
    if (t->st == BLOCKED && t->waitObj == c && t->waitKind == 2)
      w.push_back(t);
  if (!w.empty()) {
    uint64_t n = nextPoint();
    size_t k = 0;
    if (rt.explicitMode) {
      auto it = rt.decisions.find(n);
      if (it != rt.decisions.end())
        for (size_t i = 0; i < w.size(); i++)
          if (w[i]->id == it->second)
            k = i;
    } else if (rt.syncP > 0) {
      k = gSched.next() % w.size();
    }
    if (k)
      logDecision(n, w[k]->id);
    w[k]->woken = true;
    w[k]->st = RUNNABLE;
  }
  if (!tSelf->exiting && gMulti)
    maybePreempt(8, drawSync());
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) {
  REAL(int, pthread_cond_broadcast, (pthread_cond_t *));
  if (!on())
    return real_pthread_cond_broadcast(c);
  Inside in;
  wakeAll(c, 2);
  if (!tSelf->exiting && gMulti)
    maybePreempt(9, drawSync());
  return 0;
}

EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t *));
  if (!on())
    return real_pthread_rwlock_rdlock(l);
  Inside in;
  if (!tSelf->exiting && gMulti)
    maybePreempt(10, drawSync());
  while ((*gRw)[l].writer)
    block(l, 4, 10);
  (*gRw)[l].readers++;
  return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t *));
  if (!on())
    return real_pthread_rwlock_wrlock(l);
  Inside in;
  if (!tSelf->exiting && gMulti)
    maybePreempt(11, drawSync());
  while ((*gRw)[l].writer || (*gRw)[l].readers)
    block(l, 4, 11);
  (*gRw)[l].writer = tSelf;
  return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t *));
  if (!on())
    return real_pthread_rwlock_unlock(l);
  Inside in;
  RwLock &x = (*gRw)[l];
  if (x.writer == tSelf)
    x.writer = nullptr;
  else if (x.readers > 0)
    x.readers--;
  wakeAll(l, 4);
  if (!tSelf->exiting && gMulti)
    maybePreempt(12, drawSync());
  return 0;
}

EXPORT int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  REAL(int, pthread_once, (pthread_once_t *, void (*)(void)));
  if (!on())
    return real_pthread_once(o, fn);
  if (*o == 2)
    return 0; // glibc: already done before the simulation began
  int *st;
  {
    Inside in;
    st = &(*gOnce)[o];
    while (*st == 1) {
      block(o, 5, 13);
      if (*o == 2)
        return 0;
      st = &(*gOnce)[o];
    }
    *st = 1;
  }
  try {
    fn();
  } catch (...) {
    Inside in;
    (*gOnce)[o] = 0;
    wakeAll(o, 5);
    throw;
  }
  {
    Inside in;
    gOnce->erase(o);
    *o = 2; // as glibc marks it; the address may be used again
    wakeAll(o, 5);
  }
  return 0;
}

// function-local statics
EXPORT int __cxa_guard_acquire(uint64_t *g) {
  unsigned char *b = reinterpret_cast<unsigned char *>(g);
  if (__atomic_load_n(b, __ATOMIC_ACQUIRE))
    return 0;
  if (!on()) {
    // single threaded outside the simulation: plain semantics, spin otherwise
    for (;;) {
      if (__atomic_load_n(b, __ATOMIC_ACQUIRE))
        return 0;
      unsigned char z = 0;
      if (__atomic_compare_exchange_n(b + 1, &z, 1, false, __ATOMIC_ACQ_REL,
                                      __ATOMIC_ACQUIRE))
        return 1;
      sched_yield();
    }
  }
  Inside in;
  while (b[1]) {
    block(g, 6, 14);
    if (b[0])
      return 0;
  }
  if (b[0])
    return 0;
  b[1] = 1;
  return 1;
}
EXPORT void __cxa_guard_release(uint64_t *g) {
  unsigned char *b = reinterpret_cast<unsigned char *>(g);
  __atomic_store_n(b, 1, __ATOMIC_RELEASE);
  __atomic_store_n(b + 1, 0, __ATOMIC_RELEASE);
  if (on()) {
    Inside in;
    wakeAll(g, 6);
  }
}
EXPORT void __cxa_guard_abort(uint64_t *g) {
  unsigned char *b = reinterpret_cast<unsigned char *>(g);
  __atomic_store_n(b + 1, 0, __ATOMIC_RELEASE);
  if (on()) {
    Inside in;
    wakeAll(g, 6);
  }
}

// futexes issued through libc's syscall() (libstdc++ atomics wait, futures, call_once)
EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long),
       d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && on()) {
    int op = (int)b & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      Inside in;
      if (__atomic_load_n((int *)a, __ATOMIC_ACQUIRE) != (int)c) {
        errno = EAGAIN;
        return -1;
      }
      int64_t dl = -1;
      if (d) {
        const struct timespec *ts = (const struct timespec *)d;
        dl = ts->tv_sec * 1000000000ll + ts->tv_nsec;
        if (op == FUTEX_WAIT)
          dl += gNow;
      }
      tSelf->woken = false;
      block((void *)a, 7, 15, dl);
      if (tSelf->timedOut && !tSelf->woken) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      Inside in;
      int cnt = 0;
      for (Thread *t : gThreads)
        if (cnt < (int)c && t->st == BLOCKED && t->waitObj == (void *)a &&
            t->waitKind == 7) {
          t->st = RUNNABLE;
          t->woken = true;
          cnt++;
        }
      if (gMulti && !tSelf->exiting)
        maybePreempt(16, drawSync());
      return cnt;
    }
  }
  long r = rawSyscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}

EXPORT int sched_yield(void) {
  if (!on())
    return (int)rawSyscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
  Inside in;
  // always hand over so that spin loops make progress
  Thread *me = tSelf;
  uint64_t n = nextPoint();
  Thread *to = nullptr;
  for (size_t i = 1; i <= gThreads.size(); i++) {
    Thread *t = gThreads[(me->id + i) % gThreads.size()];
    if (t != me && t->st == RUNNABLE) {
      to = t;
      break;
    }
  }
  (void)n;
  if (to)
    switchTo(me, to, 17);
  else if (timersFire()) {
  }
  return 0;
}

static int simSleep(int64_t ns) {
  Inside in;
  if (!gMulti) {
    gNow += ns;
    rtStats.simNs += ns;
    return 0;
  }
  block(&tSelf->sem, 8, 18, gNow + ns);
  return 0;
}
EXPORT int nanosleep(const struct timespec *rq, struct timespec *rm) {
  if (!on())
    return (int)rawSyscall(SYS_nanosleep, (long)rq, (long)rm, 0, 0, 0, 0);
  return simSleep(rq->tv_sec * 1000000000ll + rq->tv_nsec);
}
EXPORT int clock_nanosleep(clockid_t id, int flags, const struct timespec *rq,
                           struct timespec *rm) {
  if (!on())
    return (int)-rawSyscall(SYS_clock_nanosleep, id, flags, (long)rq, (long)rm,
                            0, 0);
  int64_t ns = rq->tv_sec * 1000000000ll + rq->tv_nsec;
  if (flags & TIMER_ABSTIME)
    ns = ns > gNow ? ns - gNow : 0;
  return simSleep(ns);
}
EXPORT int usleep(useconds_t us) {
  struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}

// ------------------------------------------------------------ clocks
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!gActive)
    return (int)rawSyscall(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
  int64_t t = clockRead();
  ts->tv_sec = t / 1000000000ll;
  ts->tv_nsec = t % 1000000000ll;
  return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
EXPORT time_t time(time_t *out) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (out)
    *out = ts.tv_sec;
  return ts.tv_sec;
}
EXPORT clock_t clock(void) {
  struct timespec ts;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
  return ts.tv_sec * CLOCKS_PER_SEC + ts.tv_nsec / 1000;
}

// ------------------------------------------------------------ randomness, CPUs
unsigned int std::thread::hardware_concurrency() noexcept {
  if (!gActive)
    return (unsigned)sysconf(_SC_NPROCESSORS_ONLN);
  return rt.ncpu;
}
void std::random_device::_M_init(const std::string &) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval() {
  rtStats.randDraws++;
  return (unsigned)gRand.next();
}
EXPORT ssize_t getrandom(void *b, size_t n, unsigned) {
  unsigned char *p = (unsigned char *)b;
  for (size_t i = 0; i < n; i++)
    p[i] = (unsigned char)gRand.next();
  return (ssize_t)n;
}
EXPORT int getentropy(void *b, size_t n) {
  getrandom(b, n, 0);
  return 0;
}
EXPORT uint32_t arc4random(void) { return (uint32_t)gRand.next(); }

// ------------------------------------------------------------ memory
extern "C" void *__libc_malloc(size_t);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);
static bool noMemory(const void *from, size_t n) {
  if (__builtin_expect(!gAllocArmed, 1) || tInside || !tSelf || n < rt.allocMin)
    return false;
  const uintptr_t a = (uintptr_t)from;
  for (int i = 0; i < gAllocFromN; i++)
    if (a >= gAllocFrom[i].lo && a < gAllocFrom[i].hi) {
      const uint64_t k = ++rtStats.allocs;
      if (!rt.allocFail || k < rt.allocFail || k - rt.allocFail >= rt.allocLen)
        return false;
      rtStats.allocFired++;
      errno = ENOMEM;
      return true;
    }
  return false;
}
EXPORT void *malloc(size_t n) { return noMemory(__builtin_return_address(0), n) ? nullptr : __libc_malloc(n); }
EXPORT void *calloc(size_t n, size_t m) {
  return noMemory(__builtin_return_address(0), n * m) ? nullptr : __libc_calloc(n, m);
}
EXPORT void *realloc(void *p, size_t n) {
  return n && noMemory(__builtin_return_address(0), n) ? nullptr : __libc_realloc(p, n);
}
EXPORT void *memalign(size_t a, size_t n) {
  return noMemory(__builtin_return_address(0), n) ? nullptr : __libc_memalign(a, n);
}
EXPORT void *aligned_alloc(size_t a, size_t n) {
  return noMemory(__builtin_return_address(0), n) ? nullptr : __libc_memalign(a, n);
}
EXPORT int posix_memalign(void **p, size_t a, size_t n) {
  void *q = noMemory(__builtin_return_address(0), n) ? nullptr : __libc_memalign(a, n);
  if (!q)
    return ENOMEM;
  *p = q;
  return 0;
}

// ------------------------------------------------------------ files
static FILE *doFopen(FILE *(*realf)(const char *, const char *),
                     const char *path, const char *mode) {
  bool writing = mode && (strchr(mode, 'w') || strchr(mode, 'a') ||
                          strchr(mode, '+'));
  if (gIoArmed && !tInside) {
    Inside in;
    bool out = under(path, rt.saveRoot);
    if (int e = openFault(path, writing)) {
      errno = e;
      return nullptr;
    }
    if (writing && out)
      ioStep(-1);
    if (writing && out && gDiskFull) {
      // creating a file needs space for its directory entry; both happen
      if (gClock.coin(0.5)) {
        errno = ENOSPC;
        return nullptr;
      }
    }
    FILE *f = realf(path, mode);
    if (f && writing && out) {
      (*gOutFiles)[f] = path;
      (*gOutFds)[fileno(f)] = path;
    }
    return f;
  }
  return realf(path, mode);
}
EXPORT FILE *fopen(const char *path, const char *mode) {
  REAL(FILE *, fopen, (const char *, const char *));
  return doFopen(real_fopen, path, mode);
}
EXPORT FILE *fopen64(const char *path, const char *mode) {
  REAL(FILE *, fopen64, (const char *, const char *));
  return doFopen(real_fopen64, path, mode);
}
static int doOpen(const char *path, int flags, mode_t m) {
  bool writing = (flags & O_ACCMODE) != O_RDONLY;
  if (gIoArmed && !tInside) {
    Inside in;
    bool out = under(path, rt.saveRoot);
    if (!(flags & O_DIRECTORY))
      if (int e = openFault(path, writing)) {
        errno = e;
        return -1;
      }
    if (writing && out)
      ioStep(-1);
    long r = rawSyscall(SYS_open, (long)path, flags, m, 0, 0, 0);
    if (r < 0) {
      errno = (int)-r;
      return -1;
    }
    if (writing && out)
      (*gOutFds)[(int)r] = path;
    return (int)r;
  }
  long r = rawSyscall(SYS_open, (long)path, flags, m, 0, 0, 0);
  if (r < 0) {
    errno = (int)-r;
    return -1;
  }
  return (int)r;
}
EXPORT int open(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return doOpen(path, flags, m);
}
EXPORT int open64(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return doOpen(path, flags | O_LARGEFILE, m);
}
EXPORT int fclose(FILE *f) {
  REAL(int, fclose, (FILE *));
  if (gIoArmed && !tInside && gOutFiles->count(f)) {
    Inside in;
    ioStep(fileno(f));
    const std::string path = (*gOutFiles)[f];
    REAL(int, fflush, (FILE *));
    real_fflush(f);
    const int e = closeFault(path, fileno(f));
    gOutFds->erase(fileno(f));
    gOutFiles->erase(f);
    const int r = real_fclose(f);
    if (!e)
      return r;
    errno = e;
    return EOF;
  }
  return real_fclose(f);
}
EXPORT int fputs(const char *s, FILE *f) {
  REAL(int, fputs, (const char *, FILE *));
  if (gIoArmed && !tInside && gOutFiles->count(f)) {
    Inside in;
    ioStep(fileno(f));
    return real_fputs(s, f);
  }
  return real_fputs(s, f);
}
EXPORT size_t fwrite(const void *p, size_t s, size_t n, FILE *f) {
  REAL(size_t, fwrite, (const void *, size_t, size_t, FILE *));
  if (gIoArmed && !tInside && gOutFiles->count(f)) {
    Inside in;
    ioStep(fileno(f));
    return real_fwrite(p, s, n, f);
  }
  return real_fwrite(p, s, n, f);
}
EXPORT int fflush(FILE *f) {
  REAL(int, fflush, (FILE *));
  if (f && gIoArmed && !tInside && gOutFiles->count(f)) {
    Inside in;
    ioStep(fileno(f));
    return real_fflush(f);
  }
  return real_fflush(f);
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
  if (gIoArmed && !tInside && gOutFds->count(fd)) {
    Inside in;
    ioStep(fd);
  }
  const size_t take = shortened(fd, n);
  if (n && !take) {
    errno = EINTR;
    return -1;
  }
  long r = rawSyscall(SYS_write, fd, (long)b, (long)take, 0, 0, 0);
  if (r < 0) {
    errno = (int)-r;
    return -1;
  }
  return r;
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  if (gIoArmed && !tInside && gOutFds->count(fd)) {
    Inside in;
    ioStep(fd);
  }
  size_t all = 0;
  for (int k = 0; k < c; k++)
    all += v[k].iov_len;
  size_t take = shortened(fd, all);
  if (all && !take) {
    errno = EINTR;
    return -1;
  }
  struct iovec part[16];
  if (take < all && c <= 16) {
    int k = 0;
    for (size_t left = take; left; k++) {
      part[k] = v[k];
      part[k].iov_len = std::min(left, part[k].iov_len);
      left -= part[k].iov_len;
    }
    v = part;
    c = k;
  }
  long r = rawSyscall(SYS_writev, fd, (long)v, c, 0, 0, 0);
  if (r < 0) {
    errno = (int)-r;
    return -1;
  }
  return r;
}
EXPORT int close(int fd) {
  if (gIoArmed && !tInside && gOutFds->count(fd)) {
    Inside in;
    ioStep(fd);
    const int e = closeFault((*gOutFds)[fd], fd);
    gOutFds->erase(fd);
    if (e) {
      rawSyscall(SYS_close, fd, 0, 0, 0, 0, 0);
      errno = e;
      return -1;
    }
  }
  long r = rawSyscall(SYS_close, fd, 0, 0, 0, 0, 0);
  if (r < 0) {
    errno = (int)-r;
    return -1;
  }
  return 0;
}
EXPORT int rename(const char *a, const char *b) {
  if (gIoArmed && !tInside && under(b, rt.saveRoot)) {
    Inside in;
    ioStep(-1);
  }
  long r = rawSyscall(SYS_rename, (long)a, (long)b, 0, 0, 0, 0);
  if (r < 0) {
    errno = (int)-r;
    return -1;
  }
  return 0;
}
EXPORT int mkdir(const char *p, mode_t m) {
  if (gIoArmed && !tInside && under(p, rt.saveRoot)) {
    Inside in;
    ioStep(-1);
  }
  long r = rawSyscall(SYS_mkdir, (long)p, m, 0, 0, 0, 0);
  if (r < 0) {
    errno = (int)-r;
    return -1;
  }
  return 0;
}

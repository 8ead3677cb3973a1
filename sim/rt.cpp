// Deterministic simulation runtime.
//
// One simulated process = one forked child. Its threads are real threads of
// which exactly one runs at any time; every pthread operation, clock, sleep,
// C++ atomic and (sampled) memory access of the code under test is a point
// where the seeded scheduler decides who goes on. Nothing here calls back into
// instrumented code.
#include "rt.h"
#include "internal.h"

#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>

extern "C" char __data_start, _end, __executable_start, etext;

namespace sim {

// ------------------------------------------------------------------ raw calls
static long rawsys(long n, long a = 0, long b = 0, long c = 0, long d = 0,
                   long e = 0, long f = 0) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
static void fwait(volatile int *w, int v) {
  rawsys(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, v);
}
static void fwake(volatile int *w) {
  rawsys(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, INT_MAX);
}
static void rawwrite(int fd, const char *p, size_t n) {
  rawsys(SYS_write, fd, (long)p, (long)n);
}

// ------------------------------------------------------------------ PRNG
uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a + 0x9E3779B97F4A7C15ull * (b + 1);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
struct Rng {
  uint64_t s;
  uint64_t next() { return mix(s++, 0x1234567); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool permille(int p) { return p > 0 && (int)below(1000) < p; }
};

// ------------------------------------------------------------------ memory map
static char *const HEAP = (char *)0x100000000000;
static constexpr size_t HEAP_SIZE = 3ull << 30;
static constexpr size_t CHILD_OFF = 256ull << 20;
static unsigned char *const HSH = (unsigned char *)0x120000000000;
static char *const STK = (char *)0x130000000000;
static constexpr size_t STK_SIZE = 512 << 10;
static constexpr int MAXT = 40;
struct Cell {
  uint64_t meta;
  uint64_t pc;
};
static constexpr int CELLS = 4;
static Cell *const RHEAP = (Cell *)0x140000000000;
static Cell *const RSTK = (Cell *)0x180000000000;
static Cell *const RDATA = (Cell *)0x190000000000;

// ------------------------------------------------------------------ state
enum TS : int {
  RUNNABLE,
  B_MUTEX,
  B_COND,
  B_RW,
  B_JOIN,
  B_SLEEP,
  B_GUARD,
  B_FUTEX,
  B_QUIESCE,
  DONE
};
static const char *tsName[] = {"runnable", "mutex", "condition", "rwlock",
                               "join",     "sleep", "static-init", "futex",
                               "quiescence", "done"};
struct VC {
  uint32_t c[MAXT];
};
static void vcJoin(VC &a, const VC &b) {
  for (int i = 0; i < MAXT; ++i)
    if (b.c[i] > a.c[i])
      a.c[i] = b.c[i];
}
struct Thread {
  int id;
  volatile int go;
  int st;
  void *obj;
  int64_t deadline; // monotonic ns, or realtime ns when rtclock
  bool timed, rtclock, timedout, signaled;
  uint64_t waitSeq; // FIFO order in a wait queue
  int want;         // rwlock: 1 write
  int quiet;
  int64_t allocArm; // only this thread runs out of memory
  int allocQuiet; // quiet level at which the memory runs out
  bool allocFired;
  VC vc;
  void *(*fn)(void *);
  void *arg;
  void *ret;
  pthread_t real;
  uintptr_t parkedSp;
  int depth;
  uint64_t stack[2048];
  int prio;
  uint64_t stallUntil;
  uint64_t sinceSwitch;
  int inAlloc;
};

struct SyncObj { // keyed by address
  uintptr_t addr;
  int index;
  // mutex
  int owner; // -1 none
  int count;
  // rwlock
  int writer; // -1 none
  int nread;
  uint8_t rd[MAXT];
  // once / guard
  int once; // 0 none 1 running 2 done
  VC vc, vcr;
};
static constexpr int NOBJ = 1 << 14;
static SyncObj *objs; // mmap
static int nobjs;

struct R_ {
  bool active;
  bool inrt;
  Plan plan;
  Result *res;
  Rng wl, sc, fl, ax;
  Thread *th; // MAXT
  int nth;
  int64_t now; // monotonic ns
  int64_t injected; // ns of slow-thread delay
  int64_t realBase;
  int64_t skew;
  uint64_t stepLimit;
  uint64_t sidx, fidx, tidx;
  int sp, fp, tp; // scripted cursors
  int *sdec, *fdec, *tdec;
  int nsd, nfd, ntd;
  // strategy
  int strat; // 0 random 1 pct
  int pSync;
  int memGap; // mean gap of memory preemptions, 0 off
  uint64_t memCount;
  int pTime;
  int pSpur;
  uint64_t pctNext;
  int pctLow;
  bool raceFatal, memPre;
  uint64_t heapTop;
  uint64_t allocN;
  uint64_t seq;
  int lifeNo;
  bool fenceUsed;
  VC fenceVC;
  bool ended;
};
static R_ R;
static __thread Thread *self_ __attribute__((tls_model("initial-exec")));
static __thread char altstk[32768]
    __attribute__((tls_model("initial-exec"), aligned(16)));
static volatile int endFlag;

bool on() { return R.active && self_ && !R.inrt; }
static inline bool noisy() { return R.active && self_ && !self_->quiet && !R.inrt; }

// ------------------------------------------------------------------ heap
struct HeapShared {
  uint64_t top;
};
static void mapAll() {
  auto m = [](void *a, size_t n) {
    void *p = mmap(a, n, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (p != a) {
      const char e[] = "sim: cannot map the arenas\n";
      rawwrite(2, e, sizeof e - 1);
      rawsys(SYS_exit_group, 3);
    }
  };
  m(HEAP, HEAP_SIZE);
  m(HSH, HEAP_SIZE / 16);
}
static bool heapReady;
static uint64_t heapTop0; // used before the run
static void heapInit() {
  heapReady = true;
  mapAll();
  heapTop0 = 64;
}
// header: 16 bytes before the block {size, magic}
static void *halloc(size_t n, size_t align) {
  if (!heapReady)
    heapInit();
  uint64_t &top = R.active ? R.heapTop : heapTop0;
  if (align < 16)
    align = 16;
  if (n > (512u << 20))
    return nullptr;
  uint64_t b = (top + 16 + 16 + align - 1) & ~(uint64_t)(align - 1);
  uint64_t e = b + ((n + 15) & ~15ull) + 16;
  if (e >= (R.active ? HEAP_SIZE : CHILD_OFF))
    return nullptr;
  top = e;
  char *p = HEAP + b;
  ((uint64_t *)p)[-2] = n;
  ((uint64_t *)p)[-1] = 0xA110CA7E5AFEull;
  size_t g = b >> 4;
  size_t full = n >> 4;
  memset(HSH + g, 16, full);
  if (n & 15)
    HSH[g + full] = (unsigned char)(n & 15);
  if (n == 0)
    HSH[g] = 0;
  return p;
}
static inline bool inHeap(const void *p) {
  return (const char *)p >= HEAP && (const char *)p < HEAP + HEAP_SIZE;
}
static uint64_t blkCount, blkBytes;
size_t liveBlocks() { return blkCount; }
size_t liveBytes() { return blkBytes; }

[[noreturn]] static void endRun(int status);
static void vfail(const char *cls, const char *fmt, va_list ap);

static void hfree(void *p) {
  if (!p)
    return;
  if (!inHeap(p))
    return;
  auto *h = (uint64_t *)p;
  if (h[-1] != 0xA110CA7E5AFEull) {
    if (R.active && self_) {
      if (h[-1] == 0xDEADF8EEull)
        fail("double-free", "block %p freed twice", p);
      fail("bad-free", "free of %p which is no block", p);
    }
    return;
  }
  size_t n = h[-2];
  h[-1] = 0xDEADF8EEull;
  --blkCount;
  blkBytes -= n;
  size_t g = ((char *)p - HEAP) >> 4;
  memset(HSH + g, 0xFD, (n + 15) / 16);
  if (R.active && n <= (1u << 20))
    memset(p, 0xDB, n);
}
static void *hmalloc(size_t n, size_t a = 16) {
  void *p = halloc(n, a);
  if (p) {
    ++blkCount;
    blkBytes += n;
  } else {
    errno = ENOMEM;
  }
  return p;
}
static bool heapOk(const void *p, size_t n) {
  const char *a = (const char *)p;
  while (n) {
    size_t g = (a - HEAP) >> 4, o = (a - HEAP) & 15;
    size_t k = 16 - o < n ? 16 - o : n;
    unsigned char s = HSH[g];
    if (s > 16 || o + k > s)
      return false;
    a += k;
    n -= k;
  }
  return true;
}

// ------------------------------------------------------------------ hashing
static inline void fold(uint64_t &h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
}

// ------------------------------------------------------------------ history
static void histAppend(const char *s, size_t n) {
  Result *r = R.res;
  if (r->hist + (int)n + 2 >= HIST_CAP) {
    r->tainted = 1;
    return;
  }
  memcpy(r->history + r->hist, s, n);
  r->hist += (int)n;
  r->history[r->hist++] = '\n';
  r->history[r->hist] = 0;
}
static void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void trace(const char *fmt, ...) {
  if (!R.plan.verbose)
    return;
  bool o = R.inrt;
  R.inrt = true;
  char b[512];
  va_list ap;
  va_start(ap, fmt);
  int k = snprintf(b, sizeof b, "      . T%d ", self_ ? self_->id : -1);
  k += vsnprintf(b + k, sizeof b - k, fmt, ap);
  va_end(ap);
  if (k >= (int)sizeof b)
    k = sizeof b - 1;
  histAppend(b, k);
  R.inrt = o;
}
void log(const char *fmt, ...) {
  if (!R.active)
    return;
  bool o = R.inrt;
  R.inrt = true;
  char b[1024];
  va_list ap;
  va_start(ap, fmt);
  int k = snprintf(b, sizeof b, "[%llu] T%d ", (unsigned long long)++R.seq,
                   self_ ? self_->id : -1);
  int k2 = vsnprintf(b + k, sizeof b - k, fmt, ap);
  va_end(ap);
  k += k2;
  if (k >= (int)sizeof b)
    k = sizeof b - 1;
  uint64_t h = 1469598103934665603ull;
  for (int i = 0; i < k; ++i)
    h = (h ^ (unsigned char)b[i]) * 1099511628211ull;
  fold(R.res->hash, h);
  fold(R.res->lhash, h);
  histAppend(b, k);
  R.inrt = o;
}

// ------------------------------------------------------------------ counters
static void count(Counter *c, int &n, int max, const char *name, uint64_t by) {
  for (int i = 0; i < n; ++i)
    if (!strcmp(c[i].name, name)) {
      c[i].n += by;
      return;
    }
  if (n < max) {
    snprintf(c[n].name, sizeof c[n].name, "%s", name);
    c[n].n = by;
    ++n;
  }
}
void countFault(const char *k) {
  count(R.res->faults, R.res->nfaults, MAX_FAULT, k, 1);
}
void probe(const char *k, uint64_t by) {
  count(R.res->probes, R.res->nprobes, MAX_PROBE, k, by);
}

// ------------------------------------------------------------------ ending
static void dumpThreads(char *b, size_t n) {
  size_t k = strlen(b);
  for (int i = 0; i < R.nth && k + 400 < n; ++i) {
    Thread &t = R.th[i];
    if (t.st == DONE)
      continue;
    k += snprintf(b + k, n - k, "\n  T%d %s", t.id, tsName[t.st]);
    if (t.st == B_MUTEX) {
      for (int j = 0; j < NOBJ; ++j)
        if (objs[j].addr == (uintptr_t)t.obj && objs[j].addr)
          k += snprintf(b + k, n - k, "#%d held by T%d", objs[j].index, objs[j].owner);
    } else if (t.st == B_JOIN)
      k += snprintf(b + k, n - k, " T%d", ((Thread *)t.obj)->id);
    if (t.timed)
      k += snprintf(b + k, n - k, " (timed, %lld ns left)", (long long)(R.th[i].rtclock ? R.th[i].deadline - R.realBase - R.now - R.skew : R.th[i].deadline - R.now));
    k += snprintf(b + k, n - k, ":");
    int lo = t.depth > 12 ? t.depth - 12 : 0;
    for (int d = t.depth - 1; d >= lo && k + 100 < n; --d)
      k += snprintf(b + k, n - k, " 0x%llx",
                    (unsigned long long)t.stack[d < 2048 ? d : 2047]);
  }
}
static void setViolation(const char *cls, const char *msg) {
  Result *r = R.res;
  snprintf(r->cls, sizeof r->cls, "%s", cls);
  snprintf(r->msg, sizeof r->msg, "%s", msg);
  dumpThreads(r->msg, sizeof r->msg);
}
[[noreturn]] static void endRun(int status) {
  R.inrt = true;
  Result *r = R.res;
  R.active = false;
  if (status == ST_VIOLATION) {
    uint64_t h = 1469598103934665603ull;
    for (const char *c = r->cls; *c; ++c)
      h = (h ^ (unsigned char)*c) * 1099511628211ull;
    fold(r->hash, h);
  }
  fold(r->hash, r->steps);
  fold(r->hash, (uint64_t)R.now);
  r->simtime += (uint64_t)R.now;
  r->status = status;
  rawsys(SYS_exit_group, 0);
  __builtin_unreachable();
}
void fail(const char *cls, const char *fmt, ...) {
  R.inrt = true;
  char b[1500];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  char h[1800];
  int k = snprintf(h, sizeof h, "[%llu] T%d VIOLATION %s: %s",
                   (unsigned long long)++R.seq, self_ ? self_->id : -1, cls, b);
  histAppend(h, k >= (int)sizeof h ? sizeof h - 1 : k);
  setViolation(cls, b);
  endRun(ST_VIOLATION);
}
[[noreturn]] static void simError(const char *m) {
  R.inrt = true;
  snprintf(R.res->cls, sizeof R.res->cls, "sim-error");
  snprintf(R.res->msg, sizeof R.res->msg, "%s", m);
  endRun(ST_ERROR);
}
void finishOk() { endRun(ST_OK); }
void nextLife() { endRun(ST_NEXT_LIFE); }
int life() { return R.lifeNo; }

static void onSignal(int s, siginfo_t *si, void *) {
  R.inrt = true;
  if (!R.active || !R.res)
    rawsys(SYS_exit_group, 100 + s);
  const char *n = s == SIGSEGV ? "SIGSEGV"
                  : s == SIGBUS ? "SIGBUS"
                  : s == SIGFPE ? "SIGFPE"
                  : s == SIGILL ? "SIGILL"
                                : "SIGABRT";
  char c[64], m[128];
  snprintf(c, sizeof c, "crash:%s", n);
  snprintf(m, sizeof m, "the process died of %s (address %p)", n,
           s == SIGABRT ? nullptr : si->si_addr);
  char h[256];
  int k = snprintf(h, sizeof h, "[%llu] T%d VIOLATION %s", (unsigned long long)++R.seq,
                   self_ ? self_->id : -1, m);
  histAppend(h, k);
  setViolation(c, m);
  endRun(ST_VIOLATION);
}
static void onTerminate() {
  R.inrt = true;
  char m[700] = "std::terminate without an exception";
  char c[128] = "terminate";
  if (std::type_info *t = abi::__cxa_current_exception_type()) {
    int st = 0;
    char *d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
    snprintf(m, sizeof m, "std::terminate: uncaught exception of type %s", d ? d : t->name());
    snprintf(c, sizeof c, "terminate:%s", d ? d : t->name());
    try {
      throw;
    } catch (const std::exception &e) {
      size_t k = strlen(m);
      snprintf(m + k, sizeof m - k, " what=%s", e.what());
    } catch (...) {
    }
  }
  if (!R.active || !R.res) {
    rawwrite(2, m, strlen(m));
    rawsys(SYS_exit_group, 99);
  }
  fail(c, "%s", m);
}

// ------------------------------------------------------------------ choices
static void record(int kind, uint64_t idx, uint64_t val) {
  Result *r = R.res;
  if (r->ndec >= MAX_DEC) {
    r->decOverflow = 1;
    return;
  }
  r->dec[r->ndec++] = Dec{(uint8_t)kind, (uint32_t)idx, (uint32_t)val};
}
static uint64_t scriptedAt(int kind, uint64_t idx) {
  int &p = kind == 0 ? R.sp : kind == 1 ? R.fp : R.tp;
  const int lifeTag = R.lifeNo;
  while (p < R.plan.ndec) {
    const Dec &d = R.plan.dec[p];
    if (d.kind != kind) {
      ++p;
      continue;
    }
    if (d.idx < idx) {
      ++p;
      continue;
    }
    (void)lifeTag;
    if (d.idx == idx) {
      ++p;
      return d.val;
    }
    return 0;
  }
  return 0;
}
// one index space per kind over all lives (offset kept in shared memory)
struct Carry { // survives a simulated process death
  uint64_t sidx, fidx, tidx;
  uint64_t wl, sc, fl, ax;
  int64_t now, skew;
  int opIndex;
  char user[1 << 16];
  bool userInit;
};
static Carry *carry;

bool fault(const char *kind, int permille) {
  if (!R.active)
    return false;
  uint64_t idx = R.fidx++;
  bool hit;
  if (R.plan.scripted)
    hit = scriptedAt(1, idx) != 0;
  else
    hit = !R.plan.faultsOff && R.fl.permille(permille);
  if (hit) {
    record(1, idx, 1);
    countFault(kind);
    fold(R.res->hash, 0xFA000000 + idx);
    fold(R.res->lhash, 0xFA000000 + idx);
    trace("fault %s fires", kind);
  }
  return hit;
}
int choice(const char *kind, int n, int permille) {
  if (!R.active || n <= 1)
    return 0;
  uint64_t idx = R.fidx++;
  uint64_t v;
  if (R.plan.scripted)
    v = scriptedAt(1, idx);
  else
    v = (!R.plan.faultsOff && R.fl.permille(permille)) ? 1 + R.fl.below(n - 1) : 0;
  if (v >= (uint64_t)n)
    v = n - 1;
  if (v) {
    record(1, idx, v);
    countFault(kind);
    fold(R.res->hash, 0xFB000000 + idx * 64 + v);
    fold(R.res->lhash, 0xFB000000 + idx * 64 + v);
    trace("fault %s -> %d", kind, (int)v);
  }
  return (int)v;
}

uint64_t rnd(uint64_t n) { return R.wl.below(n); }
int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)R.wl.below((uint64_t)(hi - lo + 1)); }
bool chance(int pc) { return (int)R.wl.below(100) < pc; }
uint64_t rndAux() { return R.ax.next(); }
int newOp() {
  int i = carry->opIndex++;
  R.res->nops = carry->opIndex;
  return i;
}
bool keep(int op) {
  return !(R.plan.drop && op < MAX_OPS && R.plan.drop[op]);
}

// ------------------------------------------------------------------ scheduling
static void park(Thread *t) {
  while (!t->go)
    fwait(&t->go, 0);
  t->go = 0;
}
static bool due(const Thread &t) {
  if (!t.timed)
    return false;
  return t.rtclock ? (R.realBase + R.now + R.skew) >= t.deadline
                   : R.now >= t.deadline;
}
static bool isReady(const Thread &t) {
  if (t.st == RUNNABLE)
    return true;
  if (t.st == DONE || t.st == B_QUIESCE)
    return false;
  return due(t);
}
[[noreturn]] static void deadlock() {
  char b[1900];
  snprintf(b, sizeof b, "no thread can make progress");
  dumpThreads(b, sizeof b);
  R.inrt = true;
  char h[64];
  int k = snprintf(h, sizeof h, "[%llu] VIOLATION deadlock", (unsigned long long)++R.seq);
  histAppend(h, k);
  snprintf(R.res->cls, sizeof R.res->cls, "deadlock");
  snprintf(R.res->msg, sizeof R.res->msg, "%s", b);
  endRun(ST_VIOLATION);
}
static void checkLimit() {
  if (R.res->steps > R.stepLimit) {
    fail("no-progress", "%llu scheduling steps without finishing (limit %llu)",
         (unsigned long long)R.res->steps, (unsigned long long)R.stepLimit);
  }
}
enum PointKind { P_SYNC, P_MEM, P_YIELD, P_BLOCK };

static Thread *pick(Thread *cur, PointKind pk) {
  Thread *cand[MAXT];
  for (;;) {
    int n = 0;
    bool curReady = cur->st == RUNNABLE && pk != P_BLOCK;
    if (curReady && pk != P_YIELD)
      cand[n++] = cur;
    for (int i = 1; i <= R.nth; ++i) {
      Thread *t = &R.th[(cur->id + i) % R.nth];
      if (t == cur && (curReady))
        continue;
      if (isReady(*t))
        cand[n++] = t;
    }
    if (curReady && pk == P_YIELD)
      cand[n++] = cur;
    if (n == 0) {
      // quiescent: a waiter for quiescence goes first, then the next timer
      for (int i = 0; i < R.nth; ++i)
        if (R.th[i].st == B_QUIESCE) {
          R.th[i].st = RUNNABLE;
          return &R.th[i];
        }
      int64_t best = INT64_MAX;
      for (int i = 0; i < R.nth; ++i) {
        Thread &t = R.th[i];
        if (t.st != DONE && t.st != RUNNABLE && t.timed) {
          int64_t d = t.rtclock ? t.deadline - R.realBase - R.skew : t.deadline;
          if (d < best)
            best = d;
        }
      }
      if (best == INT64_MAX)
        deadlock();
      if (best > R.now)
        R.now = best;
      ++R.res->steps;
      checkLimit();
      continue;
    }
    if (n == 1)
      return cand[0];
    uint64_t idx = R.sidx++;
    uint64_t v = 0;
    if (R.plan.scripted) {
      v = scriptedAt(0, idx);
      if (v == 0 && cur->sinceSwitch > 60000 && curReady)
        v = 1 % n;
    } else if (cur->sinceSwitch > 60000 && curReady) {
      v = 1 % n; // fairness: a spinning thread is preempted
    } else if (R.strat == 1) { // PCT
      if (R.res->steps >= R.pctNext) {
        cur->prio = --R.pctLow;
        R.pctNext = R.res->steps + 1 + R.sc.below(2 * (R.memGap ? R.memGap : 400));
      }
      int b = 0;
      for (int i = 1; i < n; ++i)
        if (cand[i]->prio > cand[b]->prio)
          b = i;
      v = b;
      if (pk == P_YIELD && cand[b] == cur)
        v = R.sc.below(n);
    } else {
      bool sw = pk != P_SYNC || R.sc.permille(R.pSync);
      if (pk == P_MEM)
        v = 1 + R.sc.below(n - 1);
      else if (sw)
        v = R.sc.below(n);
      // slow thread: stalled ones are chosen only when nothing else is ready
      if (cand[v]->stallUntil > R.res->steps) {
        for (int i = 0; i < n; ++i)
          if (cand[i]->stallUntil <= R.res->steps) {
            v = i;
            break;
          }
      }
      if (R.sc.below(4000) == 0) {
        cand[v]->stallUntil = R.res->steps + 50 + R.sc.below(3000);
      }
    }
    if (v >= (uint64_t)n)
      v = n - 1;
    if (v)
      record(0, idx, v);
    return cand[v];
  }
}
static void wake(Thread *t) {
  if (t->st != RUNNABLE) { // a timer fired
    t->timedout = true;
    t->st = RUNNABLE;
  }
  t->timed = false;
}
static void switchTo(Thread *cur, Thread *t) {
  wake(t);
  if (t == cur)
    return;
  ++R.res->switches;
  cur->sinceSwitch = 0;
  t->sinceSwitch = 0;
  fold(R.res->hash, ((uint64_t)t->id << 32) ^ R.res->steps);
  fold(R.res->shash, 0x5EED0000u + t->id);
  trace("-> T%d", t->id);
  // before the other one goes on: it may look at this thread's stack
  cur->parkedSp = (uintptr_t)__builtin_frame_address(0) - 1024;
  t->go = 1;
  fwake(&t->go);
  if (cur->st == DONE)
    return;
  park(cur);
}
static void advance(PointKind pk) {
  Result *r = R.res;
  ++r->steps;
  ++self_->sinceSwitch;
  R.now += 20;
  if (r->steps > R.stepLimit)
    checkLimit();
  if (pk == P_SYNC || pk == P_YIELD) {
    uint64_t idx = R.tidx++;
    uint64_t us = 0;
    if (R.plan.scripted)
      us = scriptedAt(2, idx);
    else if (R.pTime && R.sc.permille(R.pTime)) {
      int mag = (int)R.sc.below(21); // up to a second
      us = 1 + R.sc.below(1ull << mag);
    }
    if (us) {
      record(2, idx, us);
      countFault("slow-thread");
      R.now += (int64_t)us * 1000;
      R.injected += (int64_t)us * 1000;
    }
  }
}
static void point(PointKind pk) {
  if (!noisy())
    return;
  Thread *cur = self_;
  advance(pk);
  if (pk == P_MEM) {
    if (!R.memPre)
      return;
    ++R.res->memops;
    if (R.nth == 1)
      return;
    bool go = false;
    if (R.plan.scripted) {
      // the index space counts every memory point
      int ready = 0;
      for (int i = 0; i < R.nth; ++i)
        if (i != cur->id && isReady(R.th[i]))
          ++ready;
      if (!ready)
        return;
      go = true;
    } else {
      int ready = 0;
      for (int i = 0; i < R.nth; ++i)
        if (i != cur->id && isReady(R.th[i]))
          ++ready;
      if (!ready)
        return;
      if (R.strat == 1) {
        if (R.res->steps < R.pctNext) {
          ++R.sidx;
          if (cur->sinceSwitch <= 60000)
            return;
          --R.sidx;
        }
        go = true;
      } else {
        if (cur->sinceSwitch <= 60000) {
          if (!R.memGap || R.memCount-- > 0) {
            ++R.sidx;
            return;
          }
          R.memCount = R.sc.below(2 * (uint64_t)R.memGap) + 1;
        }
        go = true;
      }
    }
    if (!go)
      return;
  } else {
    ++R.res->syncops;
  }
  R.inrt = true;
  Thread *t = pick(cur, pk);
  R.inrt = false;
  if (t != cur) {
    R.inrt = true;
    switchTo(cur, t);
    R.inrt = false;
  } else if (pk == P_YIELD)
    cur->sinceSwitch = 0;
}
// the caller has set its blocked state
static void block() {
  Thread *cur = self_;
  R.inrt = true;
  cur->timedout = false;
  ++R.res->steps;
  checkLimit();
  Thread *t = pick(cur, P_BLOCK);
  switchTo(cur, t);
  R.inrt = false;
}

// ------------------------------------------------------------------ objects
static SyncObj *obj(const void *a) {
  uintptr_t k = (uintptr_t)a;
  size_t h = (k >> 3) * 0x9E3779B97F4A7C15ull >> 50;
  for (int i = 0; i < NOBJ; ++i) {
    SyncObj *o = &objs[(h + i) & (NOBJ - 1)];
    if (o->addr == k)
      return o;
    if (!o->addr) {
      if (nobjs > NOBJ * 3 / 4)
        simError("too many synchronisation objects");
      o->addr = k;
      o->index = ++nobjs;
      o->owner = -1;
      o->writer = -1;
      return o;
    }
  }
  simError("object table full");
}
static void note(int op, SyncObj *o) {
  uint64_t v = ((uint64_t)op << 40) ^ ((uint64_t)o->index << 8) ^ self_->id;
  fold(R.res->hash, v);
  fold(R.res->shash, v);
}
static void aliveObj(const void *a, size_t n, const char *what) {
  if (inHeap(a) && !heapOk(a, n))
    fail("use-after-free", "%s on a %s object at freed memory %p", what, "synchronisation", a);
}
static void acq(SyncObj *o) { vcJoin(self_->vc, o->vc); }
static void rel(SyncObj *o) {
  vcJoin(o->vc, self_->vc);
  ++self_->vc.c[self_->id];
}

int64_t mono() { return R.now; }
int64_t injected() { return R.injected; }
int64_t real() { return R.realBase + R.now + R.skew; }
int self() { return self_ ? self_->id : -1; }
uint64_t stamp() { return ++R.seq; }
uint64_t steps() { return R.res->steps; }
void jumpReal(int64_t ns) {
  R.skew += ns;
  countFault(ns < 0 ? "clock-jump-back" : "clock-jump-forward");
  trace("clock jump %lld", (long long)ns);
  fold(R.res->hash, (uint64_t)ns);
}
void setStepLimit(uint64_t n) { R.stepLimit = n; }
void raceFatal(bool b) { R.raceFatal = b; }
void memPreempt(bool b) { R.memPre = b; }
void armAlloc(int64_t n) {
  self_->allocArm = n;
  self_->allocQuiet = self_->quiet;
  self_->allocFired = false;
}
bool allocFired() { return self_ && self_->allocFired; }
uint64_t allocCount() { return R.allocN; }
Quiet::Quiet() {
  if (self_)
    ++self_->quiet;
}
Quiet::~Quiet() {
  if (self_)
    --self_->quiet;
}
void *persist(size_t n) {
  if (n > sizeof carry->user)
    simError("persist too large");
  return carry->user;
}

// ------------------------------------------------------------------ threads
static int64_t toMono(const timespec *ts) {
  return (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec;
}
typedef int (*pc_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static pc_t realCreate;

static void *tramp(void *p) {
  Thread *t = (Thread *)p;
  stack_t ss{};
  ss.ss_sp = altstk;
  ss.ss_size = sizeof altstk;
  sigaltstack(&ss, nullptr);
  self_ = t;
  park(t);
  R.inrt = false;
  t->ret = t->fn(t->arg);
  R.inrt = true;
  t->quiet = 0;
  t->st = DONE;
  ++t->vc.c[t->id];
  fold(R.res->hash, 0xD0 + t->id);
  fold(R.res->shash, 0xD0 + t->id);
  trace("thread ends");
  for (int i = 0; i < R.nth; ++i)
    if (R.th[i].st == B_JOIN && R.th[i].obj == t)
      R.th[i].st = RUNNABLE;
  Thread *n = pick(t, P_BLOCK);
  // the real thread stays parked for ever: no thread exit code runs
  volatile int never = 0;
  switchTo(t, n);
  for (;;)
    fwait(&never, 0);
}
static Thread *newThread(void *(*fn)(void *), void *arg) {
  if (R.nth >= MAXT)
    simError("too many threads");
  Thread *t = &R.th[R.nth];
  t->id = R.nth++;
  t->fn = fn;
  t->arg = arg;
  t->st = RUNNABLE;
  t->allocArm = -1;
  t->allocQuiet = 0;
  t->allocFired = false;
  t->prio = (int)R.sc.below(1000) + 1;
  if (self_) {
    t->vc = self_->vc;
    ++self_->vc.c[self_->id];
  }
  t->vc.c[t->id] = 1;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, STK + (size_t)t->id * STK_SIZE + 4096, STK_SIZE - 4096);
  int rc = realCreate(&t->real, &at, tramp, t);
  if (rc)
    simError("real pthread_create failed");
  return t;
}
static void *fnTramp(void *p) {
  auto *f = (std::function<void()> *)p;
  (*f)();
  return nullptr;
}
int spawn(std::function<void()> fn) {
  auto *f = new std::function<void()>(std::move(fn));
  bool o = R.inrt;
  R.inrt = true;
  Thread *t = newThread(fnTramp, f);
  R.inrt = o;
  point(P_SYNC);
  return t->id;
}
static void joinThread(Thread *t) {
  point(P_SYNC);
  while (t->st != DONE) {
    self_->st = B_JOIN;
    self_->obj = t;
    block();
  }
  vcJoin(self_->vc, t->vc);
}
void join(int i) { joinThread(&R.th[i]); }
bool threadDone(int i) { return R.th[i].st == DONE; }
int liveThreads() {
  int n = 0;
  for (int i = 0; i < R.nth; ++i)
    n += R.th[i].st != DONE;
  return n;
}
bool quiescent() {
  for (int i = 0; i < R.nth; ++i)
    if (&R.th[i] != self_ && isReady(R.th[i]))
      return false;
  return true;
}
bool settle(uint64_t) {
  int q = self_->quiet;
  self_->quiet = 0;
  self_->st = B_QUIESCE;
  self_->timed = false;
  block();
  self_->quiet = q;
  return true;
}
void yield() { point(P_YIELD); }
static void sleepUntil(int64_t dl, bool rt) {
  self_->st = B_SLEEP;
  self_->timed = true;
  self_->rtclock = rt;
  self_->deadline = dl;
  block();
}
void sleepNs(int64_t ns) {
  if (ns <= 0) {
    point(P_YIELD);
    return;
  }
  sleepUntil(R.now + ns, false);
}

// ------------------------------------------------------------------ races
static inline Cell *cells(uintptr_t a) {
  if (a - (uintptr_t)HEAP < HEAP_SIZE)
    return RHEAP + ((a - (uintptr_t)HEAP) >> 3) * CELLS;
  if (a - (uintptr_t)STK < STK_SIZE * MAXT)
    return RSTK + ((a - (uintptr_t)STK) >> 3) * CELLS;
  if (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end)
    return RDATA + ((a - (uintptr_t)&__data_start) >> 3) * CELLS;
  return nullptr;
}
// meta: clk<<32 | tid<<16 | mask<<8 | atomic<<2 | write<<1 | 1
static void raceCheck(uintptr_t a, int size, bool wr, bool at, uint64_t pc) {
  Thread *t = self_;
  while (size > 0) {
    int off = a & 7;
    int k = 8 - off < size ? 8 - off : size;
    Cell *c = cells(a);
    if (!c)
      return;
    uint64_t mask = ((1u << k) - 1) << off;
    Cell *slot = nullptr;
    for (int i = 0; i < CELLS; ++i) {
      uint64_t m = c[i].meta;
      if (!m) {
        if (!slot)
          slot = &c[i];
        continue;
      }
      int tid = (m >> 16) & 0xff;
      uint32_t clk = m >> 32;
      uint64_t mm = (m >> 8) & 0xff;
      if (tid == t->id) {
        if (mm == mask && ((m >> 1) & 1) <= (uint64_t)wr && (!((m >> 2) & 1) || at))
          if (!slot || slot->meta == 0)
            slot = &c[i];
        continue;
      }
      bool hb = t->vc.c[tid] >= clk;
      if (hb) {
        // ordered before us: a write covering it subsumes it
        if (wr && (mm & ~mask) == 0) {
          if (!slot || !slot->meta)
            slot = &c[i];
          else
            c[i].meta = 0;
        }
        continue;
      }
      if ((mm & mask) && (wr || ((m >> 1) & 1)) && !(at && ((m >> 2) & 1))) {
        if (R.raceFatal) {
          char b[1200];
          int n = snprintf(b, sizeof b,
                           "unsynchronised %s by T%d (pc 0x%llx) and earlier %s by "
                           "T%d (pc 0x%llx) on the same memory; stack:",
                           wr ? "write" : "read", t->id, (unsigned long long)pc,
                           (m & 2) ? "write" : "read", tid,
                           (unsigned long long)c[i].pc);
          for (int d = t->depth - 1; d >= 0 && d >= t->depth - 14; --d)
            n += snprintf(b + n, sizeof b - n, " 0x%llx",
                          (unsigned long long)t->stack[d < 2048 ? d : 2047]);
          fail("data-race", "%s", b);
        }
      }
    }
    if (!slot) {
      // evict an entry ordered before us, else round robin
      for (int i = 0; i < CELLS && !slot; ++i) {
        uint64_t m = c[i].meta;
        if (t->vc.c[(m >> 16) & 0xff] >= (uint32_t)(m >> 32))
          slot = &c[i];
      }
      if (!slot)
        slot = &c[R.res->steps & (CELLS - 1)];
    }
    slot->meta = ((uint64_t)t->vc.c[t->id] << 32) | ((uint64_t)t->id << 16) |
                 (mask << 8) | ((uint64_t)at << 2) | ((uint64_t)wr << 1) | 1;
    slot->pc = pc;
    a += k;
    size -= k;
  }
}
static void memAccess(void *p, size_t size, bool wr, uint64_t pc) {
  if (!noisy())
    return;
  uintptr_t a = (uintptr_t)p;
  if (a < 4096)
    fail("crash:SIGSEGV", "null pointer %s at %p (pc 0x%llx)", wr ? "write" : "read", p,
         (unsigned long long)pc);
  point(P_MEM);
  if (inHeap(p)) {
    if (!heapOk(p, size)) {
      char b[700];
      int n = snprintf(b, sizeof b, "%s of %zu bytes at %p outside any live block (pc 0x%llx) stack:",
                       wr ? "write" : "read", size, p, (unsigned long long)pc);
      Thread *t = self_;
      for (int d = t->depth - 1; d >= 0 && d >= t->depth - 14; --d)
        n += snprintf(b + n, sizeof b - n, " 0x%llx", (unsigned long long)t->stack[d < 2048 ? d : 2047]);
      unsigned char s = HSH[((char *)p - HEAP) >> 4];
      fail(s == 0xFD ? "use-after-free" : "heap-overflow", "%s", b);
    }
  } else if (a - (uintptr_t)STK < STK_SIZE * MAXT) {
    int id = (int)((a - (uintptr_t)STK) / STK_SIZE);
    uintptr_t sp = id == self_->id ? (uintptr_t)__builtin_frame_address(0)
                                   : (id < R.nth ? R.th[id].parkedSp : 0);
    if (a < sp) {
      char b[700];
      int n = snprintf(b, sizeof b, "%s of a local object of T%d whose function has returned (pc 0x%llx) stack:",
                       wr ? "write" : "read", id, (unsigned long long)pc);
      Thread *t = self_;
      for (int d = t->depth - 1; d >= 0 && d >= t->depth - 14; --d)
        n += snprintf(b + n, sizeof b - n, " 0x%llx", (unsigned long long)t->stack[d < 2048 ? d : 2047]);
      fail("use-after-return", "%s", b);
    }
  }
  if (size > 4096)
    size = 4096;
  raceCheck(a, (int)size, wr, false, pc);
}

const char *where(void *pc, char *buf, size_t n) {
  snprintf(buf, n, "%p", pc);
  return buf;
}

// ------------------------------------------------------------------ run
static const Workload *findWorkload(const char *n) {
  for (const Workload *w = workloads(); w->name; ++w)
    if (!strcmp(w->name, n))
      return w;
  return nullptr;
}
static const Workload *curWl;
static void *mainThread(void *) {
  curWl->main();
  {
    R.inrt = true;
    endRun(ST_OK);
  }
  return nullptr;
}

static void childMain(const Plan &plan, Result *res, int lifeNo) {
  curWl = findWorkload(plan.workload);
  R.plan = plan;
  R.res = res;
  R.lifeNo = lifeNo;
  struct sigaction sa {};
  sa.sa_sigaction = onSignal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
    sigaction(s, &sa, nullptr);
  std::set_terminate(onTerminate);
  itimerval itv {};
  itv.it_value.tv_sec = 40; // processor time: busy without a simulated step
  setitimer(ITIMER_PROF, &itv, nullptr);
  alarm(600);
  auto m = [](void *a, size_t n) {
    void *p = mmap(a, n, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (p != a)
      rawsys(SYS_exit_group, 5);
  };
  m(STK, STK_SIZE * MAXT);
  m(RHEAP, HEAP_SIZE / 8 * sizeof(Cell) * CELLS);
  m(RSTK, STK_SIZE * MAXT / 8 * sizeof(Cell) * CELLS);
  m(RDATA, ((size_t)(&_end - &__data_start) / 8 + 16) * sizeof(Cell) * CELLS);
  objs = (SyncObj *)mmap(nullptr, sizeof(SyncObj) * NOBJ, PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  R.th = (Thread *)mmap(nullptr, sizeof(Thread) * MAXT, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (lifeNo == 0) {
    memset(carry, 0, sizeof *carry);
    carry->wl = mix(plan.seed, 101);
    carry->sc = mix(mix(plan.seed, 202), plan.schedSeed);
    carry->fl = mix(plan.seed, 303);
    carry->ax = mix(plan.seed, 404);
  }
  R.wl.s = carry->wl;
  R.sc.s = carry->sc;
  R.fl.s = carry->fl;
  R.ax.s = carry->ax;
  R.sidx = carry->sidx;
  R.fidx = carry->fidx;
  R.tidx = carry->tidx;
  if (lifeNo) { // decorrelate the lives
    R.wl.s = mix(plan.seed, 1000 + lifeNo);
    R.sc.s = mix(mix(plan.seed, 2000 + lifeNo), plan.schedSeed);
    R.fl.s = mix(plan.seed, 3000 + lifeNo);
    R.ax.s = mix(plan.seed, 4000 + lifeNo);
    R.sidx = R.fidx = R.tidx = (uint64_t)lifeNo << 26;
  }
  R.realBase = 1700000000000000000ll;
  R.stepLimit = curWl->stepLimit;
  R.raceFatal = true;
  R.memPre = true;
  R.heapTop = CHILD_OFF;
  // swarm: the strategy of this run (a function of the schedule stream)
  uint64_t k = R.sc.below(100);
  R.strat = k < 30;
  static const int ps[] = {0, 20, 100, 300, 600};
  R.pSync = ps[R.sc.below(5)];
  static const int mg[] = {0, 0, 4000, 800, 150, 40};
  R.memGap = mg[R.sc.below(6)];
  R.memCount = R.memGap ? R.sc.below(2 * (uint64_t)R.memGap) : 0;
  static const int pt[] = {0, 0, 0, 2, 20};
  R.pTime = pt[R.sc.below(5)];
  static const int psp[] = {0, 0, 20, 200};
  R.pSpur = psp[R.sc.below(4)];
  R.pctNext = R.sc.below(2000);
  R.active = true;
  R.inrt = true;
  Thread *t = newThread(mainThread, nullptr);
  t->go = 1;
  fwake(&t->go);
  volatile int never = 0;
  for (;;)
    fwait(&never, 0);
}

void runPlan(const Plan &plan, Result *res) {
  // clear everything before dec[] and what follows cheaply
  res->status = ST_NONE;
  res->cls[0] = res->msg[0] = 0;
  res->hash = res->shash = res->lhash = 0;
  res->steps = res->switches = res->syncops = res->memops = res->simtime = 0;
  res->lives = res->nops = res->ndec = res->decOverflow = res->tainted = 0;
  res->nfaults = res->nprobes = res->hist = 0;
  res->history[0] = 0;
  fsResetShared();
  for (int life = 0; life < 8; ++life) {
    res->status = ST_NONE;
    res->lives = life + 1;
    int pid = (int)rawsys(SYS_fork);
    if (pid == 0) {
      childMain(plan, res, life);
      rawsys(SYS_exit_group, 0);
    }
    int st = 0;
    rawsys(SYS_wait4, pid, (long)&st, 0, 0);
    if (res->status == ST_NONE) {
      res->status = ST_ERROR;
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) {
        res->status = ST_VIOLATION; // busy without reaching any simulated point
        res->hash = 0;
        snprintf(res->cls, sizeof res->cls, "hang");
        snprintf(res->msg, sizeof res->msg, "no progress in 40 s of processor time");
        break;
      }
      snprintf(res->cls, sizeof res->cls, "sim-error");
      snprintf(res->msg, sizeof res->msg, "child ended with wait status %x", st);
    }
    if (res->status != ST_NEXT_LIFE)
      break;
  }
  if (res->status == ST_NEXT_LIFE)
    res->status = ST_OK;
}
void initProcess() {
  if (!heapReady)
    heapInit();
  realCreate = (pc_t)dlvsym(RTLD_NEXT, "pthread_create", "GLIBC_2.34");
  initWorker();
}
void initWorker() {
  carry = (Carry *)mmap(nullptr, sizeof(Carry), PROT_READ | PROT_WRITE,
                        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  fsInitShared();
}
int threadId() { return self_ ? self_->id : -1; }

} // namespace sim

// ============================================================ interposition
using namespace sim;
extern "C" {

// ---- allocation
// memory nobody has initialised does not look like anything useful
static void *dirty(void *p, size_t n) {
  if (p)
    memset(p, 0xA5, n < 65536 ? n : 65536);
  return p;
}
void *malloc(size_t n) { return dirty(hmalloc(n), n); }
void free(void *p) { hfree(p); }
void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  void *p = hmalloc(n); // fresh pages are zero, blocks are never reused
  return p;
}
void *realloc(void *p, size_t n) {
  if (!p)
    return dirty(hmalloc(n), n);
  if (n == 0) {
    hfree(p);
    return nullptr;
  }
  void *q = dirty(hmalloc(n), n);
  if (!q)
    return nullptr;
  size_t o = ((uint64_t *)p)[-2];
  memcpy(q, p, o < n ? o : n);
  hfree(p);
  return q;
}
void *memalign(size_t a, size_t n) { return dirty(hmalloc(n, a), n); }
void *aligned_alloc(size_t a, size_t n) { return dirty(hmalloc(n, a), n); }
int posix_memalign(void **r, size_t a, size_t n) {
  *r = dirty(hmalloc(n, a), n);
  return *r ? 0 : ENOMEM;
}
void *valloc(size_t n) { return hmalloc(n, 4096); }
void *pvalloc(size_t n) { return hmalloc((n + 4095) & ~4095ull, 4096); }
size_t malloc_usable_size(void *p) { return p ? ((uint64_t *)p)[-2] : 0; }

// ---- threads
int pthread_create(pthread_t *th, const pthread_attr_t *, void *(*fn)(void *),
                   void *arg) {
  if (!R.active)
    return realCreate ? realCreate(th, nullptr, fn, arg) : EAGAIN;
  bool o = R.inrt;
  R.inrt = true;
  Thread *t = newThread(fn, arg);
  *th = t->real;
  R.inrt = o;
  fold(R.res->shash, 0xC0 + t->id);
  point(P_SYNC);
  return 0;
}
static Thread *byReal(pthread_t h) {
  for (int i = 0; i < R.nth; ++i)
    if (R.th[i].real == h)
      return &R.th[i];
  return nullptr;
}
int pthread_join(pthread_t h, void **ret) {
  if (!R.active)
    return 0;
  Thread *t = byReal(h);
  if (!t)
    return ESRCH;
  if (t == self_)
    return EDEADLK;
  joinThread(t);
  if (ret)
    *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t) { return 0; }

// ---- mutex
static int mkind(pthread_mutex_t *m) { return m->__data.__kind & 3; }
static void mutexAcquire(SyncObj *o) {
  while (o->owner >= 0) {
    self_->st = B_MUTEX;
    self_->obj = (void *)o->addr;
    self_->timed = false;
    block();
  }
  o->owner = self_->id;
  o->count = 1;
  acq(o);
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!on())
    return 0;
  point(P_SYNC);
  aliveObj(m, 8, "lock");
  SyncObj *o = obj(m);
  if (o->owner == self_->id) {
    if (mkind(m) == PTHREAD_MUTEX_RECURSIVE) {
      ++o->count;
      return 0;
    }
    if (mkind(m) == PTHREAD_MUTEX_ERRORCHECK)
      return EDEADLK;
  }
  mutexAcquire(o);
  note(1, o);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!on())
    return 0;
  point(P_SYNC);
  aliveObj(m, 8, "trylock");
  SyncObj *o = obj(m);
  if (o->owner >= 0) {
    if (o->owner == self_->id && mkind(m) == PTHREAD_MUTEX_RECURSIVE) {
      ++o->count;
      return 0;
    }
    return EBUSY;
  }
  o->owner = self_->id;
  o->count = 1;
  acq(o);
  note(2, o);
  return 0;
}
static int mutexTimed(pthread_mutex_t *m, int64_t dl, bool rt) {
  if (!on())
    return 0;
  point(P_SYNC);
  aliveObj(m, 8, "lock");
  SyncObj *o = obj(m);
  if (o->owner == self_->id && mkind(m) == PTHREAD_MUTEX_RECURSIVE) {
    ++o->count;
    return 0;
  }
  while (o->owner >= 0) {
    self_->st = B_MUTEX;
    self_->obj = (void *)o->addr;
    self_->timed = true;
    self_->rtclock = rt;
    self_->deadline = dl;
    block();
    if (self_->timedout && o->owner >= 0)
      return ETIMEDOUT;
  }
  o->owner = self_->id;
  o->count = 1;
  acq(o);
  note(1, o);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *ts) {
  return mutexTimed(m, toMono(ts), true);
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const timespec *ts) {
  return mutexTimed(m, toMono(ts), c == CLOCK_REALTIME);
}
static void mutexRelease(SyncObj *o) {
  rel(o);
  o->owner = -1;
  o->count = 0;
  for (int i = 0; i < R.nth; ++i)
    if (R.th[i].st == B_MUTEX && R.th[i].obj == (void *)o->addr) {
      R.th[i].st = RUNNABLE;
      R.th[i].timed = false;
    }
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!on())
    return 0;
  aliveObj(m, 8, "unlock");
  SyncObj *o = obj(m);
  if (o->owner != self_->id)
    fail("bad-unlock", "T%d unlocks a mutex it does not hold", self_->id);
  if (--o->count > 0)
    return 0;
  note(3, o);
  mutexRelease(o);
  point(P_SYNC);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
  if (!on())
    return 0;
  SyncObj *o = obj(m);
  if (o->owner >= 0)
    fail("destroy-locked", "a mutex is destroyed while T%d holds it", o->owner);
  return 0;
}

// ---- condition
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, int64_t dl,
                    bool rt) {
  if (!R.active || !self_)
    return 0;
  point(P_SYNC);
  aliveObj(c, 8, "wait");
  SyncObj *co = obj(c);
  SyncObj *o = obj(m);
  if (o->owner != self_->id)
    fail("bad-wait", "condition wait without holding the mutex");
  note(4, co);
  mutexRelease(o);
  int rc = 0;
  if (fault("spurious-wakeup", R.pSpur)) {
    point(P_YIELD);
  } else {
    self_->st = B_COND;
    self_->obj = c;
    self_->timed = timed;
    self_->rtclock = rt;
    self_->deadline = dl;
    self_->waitSeq = ++R.seq;
    self_->signaled = false;
    block();
    if (self_->timedout && !self_->signaled)
      rc = ETIMEDOUT;
  }
  aliveObj(m, 8, "relock");
  o = obj(m);
  mutexAcquire(o);
  note(5, obj(c));
  return rc;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  return condWait(c, m, false, 0, false);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts) {
  return condWait(c, m, true, toMono(ts), true);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k,
                           const timespec *ts) {
  return condWait(c, m, true, toMono(ts), k == CLOCK_REALTIME);
}
static int condWake(pthread_cond_t *c, bool all) {
  if (!on())
    return 0;
  point(P_SYNC);
  aliveObj(c, 8, "notify");
  SyncObj *o = obj(c);
  note(all ? 7 : 6, o);
  for (;;) {
    // FIFO by default; the scheduler may pick any waiter
    Thread *w[MAXT];
    int n = 0;
    for (int i = 0; i < R.nth; ++i)
      if (R.th[i].st == B_COND && R.th[i].obj == c)
        w[n++] = &R.th[i];
    if (!n)
      break;
    int b = 0;
    for (int i = 1; i < n; ++i)
      if (w[i]->waitSeq < w[b]->waitSeq)
        b = i;
    if (!all && n > 1)
      b = (b + choice("wake-order", n, 300)) % n;
    w[b]->st = RUNNABLE;
    w[b]->timed = false;
    w[b]->signaled = true;
    if (!all)
      break;
  }
  point(P_SYNC);
  return 0;
}
int pthread_cond_signal(pthread_cond_t *c) { return condWake(c, false); }
int pthread_cond_broadcast(pthread_cond_t *c) { return condWake(c, true); }
int pthread_cond_destroy(pthread_cond_t *c) {
  if (!on())
    return 0;
  for (int i = 0; i < R.nth; ++i)
    if (R.th[i].st == B_COND && R.th[i].obj == c)
      fail("destroy-waited", "a condition variable is destroyed while T%d waits on it", i);
  return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) {
  memset(c, 0, sizeof *c);
  return 0;
}

// ---- rwlock (default: readers preferred)
static void rwWake(SyncObj *o) {
  for (int i = 0; i < R.nth; ++i)
    if (R.th[i].st == B_RW && R.th[i].obj == (void *)o->addr) {
      R.th[i].st = RUNNABLE;
      R.th[i].timed = false;
    }
}
static int rwRd(pthread_rwlock_t *l, bool tryOnly, bool timed, int64_t dl, bool rt) {
  if (!on())
    return 0;
  point(P_SYNC);
  aliveObj(l, 8, "read lock");
  SyncObj *o = obj(l);
  if (o->writer == self_->id && !tryOnly)
    return EDEADLK;
  while (o->writer >= 0) {
    if (tryOnly)
      return EBUSY;
    self_->st = B_RW;
    self_->obj = l;
    self_->timed = timed;
    self_->rtclock = rt;
    self_->deadline = dl;
    block();
    if (timed && self_->timedout && o->writer >= 0)
      return ETIMEDOUT;
  }
  ++o->nread;
  ++o->rd[self_->id];
  acq(o);
  note(8, o);
  return 0;
}
static int rwWr(pthread_rwlock_t *l, bool tryOnly, bool timed, int64_t dl, bool rt) {
  if (!on())
    return 0;
  point(P_SYNC);
  aliveObj(l, 8, "write lock");
  SyncObj *o = obj(l);
  if (o->writer == self_->id && !tryOnly)
    return EDEADLK;
  while (o->writer >= 0 || o->nread > 0) {
    if (tryOnly)
      return EBUSY;
    self_->st = B_RW;
    self_->obj = l;
    self_->timed = timed;
    self_->rtclock = rt;
    self_->deadline = dl;
    block();
    if (timed && self_->timedout && (o->writer >= 0 || o->nread > 0))
      return ETIMEDOUT;
  }
  o->writer = self_->id;
  vcJoin(self_->vc, o->vc);
  vcJoin(self_->vc, o->vcr);
  note(9, o);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return rwRd(l, false, false, 0, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return rwWr(l, false, false, 0, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return rwRd(l, true, false, 0, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return rwWr(l, true, false, 0, false); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t *l, const timespec *ts) {
  return rwRd(l, false, true, toMono(ts), true);
}
int pthread_rwlock_timedwrlock(pthread_rwlock_t *l, const timespec *ts) {
  return rwWr(l, false, true, toMono(ts), true);
}
int pthread_rwlock_clockrdlock(pthread_rwlock_t *l, clockid_t c, const timespec *ts) {
  return rwRd(l, false, true, toMono(ts), c == CLOCK_REALTIME);
}
int pthread_rwlock_clockwrlock(pthread_rwlock_t *l, clockid_t c, const timespec *ts) {
  return rwWr(l, false, true, toMono(ts), c == CLOCK_REALTIME);
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!on())
    return 0;
  aliveObj(l, 8, "unlock");
  SyncObj *o = obj(l);
  if (o->writer == self_->id) {
    o->writer = -1;
    vcJoin(o->vc, self_->vc);
    ++self_->vc.c[self_->id];
  } else if (o->nread > 0) {
    // glibc does not track readers: an unlock by a non-holder is undefined
    if (!o->rd[self_->id])
      fail("bad-unlock", "T%d unlocks a reader lock it does not hold", self_->id);
    --o->rd[self_->id];
    --o->nread;
    vcJoin(o->vcr, self_->vc);
    ++self_->vc.c[self_->id];
  } else
    fail("bad-unlock", "T%d unlocks a rwlock nobody holds", self_->id);
  note(10, o);
  rwWake(o);
  point(P_SYNC);
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *l) {
  if (!on())
    return 0;
  SyncObj *o = obj(l);
  if (o->writer >= 0 || o->nread)
    fail("destroy-locked", "a rwlock is destroyed while held");
  return 0;
}

// ---- once and static initialisation
int pthread_once(pthread_once_t *c, void (*fn)(void)) {
  if (!R.active || !self_) {
    if (*(volatile int *)c == 0) {
      *(volatile int *)c = 2;
      fn();
    }
    return 0;
  }
  if (*(volatile int *)c == 2 && !obj(c)->once)
    return 0;
  SyncObj *o = obj(c);
  for (;;) {
    if (o->once == 2)
      break;
    if (o->once == 0) {
      o->once = 1;
      try {
        fn();
      } catch (...) {
        o->once = 0;
        for (int i = 0; i < R.nth; ++i)
          if (R.th[i].st == B_GUARD && R.th[i].obj == c)
            R.th[i].st = RUNNABLE;
        throw;
      }
      o->once = 2;
      *(volatile int *)c = 2;
      rel(o);
      for (int i = 0; i < R.nth; ++i)
        if (R.th[i].st == B_GUARD && R.th[i].obj == c)
          R.th[i].st = RUNNABLE;
      return 0;
    }
    self_->st = B_GUARD;
    self_->obj = c;
    self_->timed = false;
    block();
  }
  acq(o);
  return 0;
}
int __cxa_guard_acquire(abi::__guard *g) {
  char *b = (char *)g;
  if (*b)
    return 0;
  if (!R.active || !self_) {
    if (b[1])
      abort();
    b[1] = 1;
    return 1;
  }
  SyncObj *o = obj(g);
  while (b[1]) {
    self_->st = B_GUARD;
    self_->obj = g;
    self_->timed = false;
    block();
  }
  if (*b) {
    acq(o);
    return 0;
  }
  b[1] = 1;
  return 1;
}
static void guardEnd(void *g, bool done) {
  char *b = (char *)g;
  b[1] = 0;
  if (done)
    b[0] = 1;
  if (!R.active || !self_)
    return;
  SyncObj *o = obj(g);
  rel(o);
  for (int i = 0; i < R.nth; ++i)
    if (R.th[i].st == B_GUARD && R.th[i].obj == g)
      R.th[i].st = RUNNABLE;
}
void __cxa_guard_release(abi::__guard *g) noexcept { guardEnd(g, true); }
void __cxa_guard_abort(abi::__guard *g) noexcept { guardEnd(g, false); }

// ---- clocks
static void fillTs(timespec *ts, int64_t ns) {
  ts->tv_sec = ns / 1000000000;
  ts->tv_nsec = ns % 1000000000;
}
int clock_gettime(clockid_t c, timespec *ts) {
  if (!R.active || !self_)
    return (int)rawsys(SYS_clock_gettime, c, (long)ts);
  R.now += 100;
  R.injected += 100;
  if (noisy())
    point(P_SYNC);
  fillTs(ts, c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI
                 ? sim::real()
                 : R.now);
  return 0;
}
int gettimeofday(struct timeval *__restrict tv, void *__restrict) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *p) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (p)
    *p = ts.tv_sec;
  return ts.tv_sec;
}
int clock_nanosleep(clockid_t c, int flags, const timespec *ts, timespec *) {
  if (!R.active || !self_)
    return 0;
  if (flags & TIMER_ABSTIME)
    sleepUntil(toMono(ts), c == CLOCK_REALTIME);
  else
    sleepUntil(R.now + toMono(ts), false);
  return 0;
}
int nanosleep(const timespec *ts, timespec *r) {
  return clock_nanosleep(CLOCK_MONOTONIC, 0, ts, r);
}
int usleep(useconds_t u) {
  timespec ts{(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s) {
  timespec ts{(time_t)s, 0};
  nanosleep(&ts, nullptr);
  return 0;
}
int sched_yield(void) {
  point(P_YIELD);
  return 0;
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long),
       d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && R.active && self_) {
    int op = (int)b & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      point(P_SYNC);
      if (*(volatile int *)a != (int)c) {
        errno = EAGAIN;
        return -1;
      }
      self_->st = B_FUTEX;
      self_->obj = (void *)a;
      self_->timed = d != 0;
      if (d) {
        int64_t t = toMono((timespec *)d);
        self_->rtclock = op == FUTEX_WAIT_BITSET && (b & FUTEX_CLOCK_REALTIME);
        self_->deadline = op == FUTEX_WAIT ? R.now + t : t;
      }
      block();
      if (self_->timedout) {
        errno = ETIMEDOUT;
        return -1;
      }
      acq(obj((void *)a));
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      point(P_SYNC);
      rel(obj((void *)a));
      long k = 0;
      for (int i = 0; i < R.nth && k < (int)c; ++i)
        if (R.th[i].st == B_FUTEX && R.th[i].obj == (void *)a) {
          R.th[i].st = RUNNABLE;
          R.th[i].timed = false;
          ++k;
        }
      return k;
    }
  }
  long r = rawsys(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}

// ---- compiler instrumentation of the code under test
#define PC ((uint64_t)__builtin_return_address(0))
void __tsan_init() {}
void __tsan_func_entry(void *pc) {
  if (Thread *t = self_) {
    if (t->depth < 2048)
      t->stack[t->depth] = (uint64_t)pc;
    else if (R.active && !R.inrt && t->depth > 6000)
      fail("stack-overflow", "unbounded recursion");
    ++t->depth;
  }
}
void __tsan_func_exit() {
  if (Thread *t = self_)
    --t->depth;
}
#define ACC(n)                                                                 \
  void __tsan_read##n(void *p) { memAccess(p, n, false, PC); }                 \
  void __tsan_write##n(void *p) { memAccess(p, n, true, PC); }                 \
  void __tsan_unaligned_read##n(void *p) { memAccess(p, n, false, PC); }       \
  void __tsan_unaligned_write##n(void *p) { memAccess(p, n, true, PC); }       \
  void __tsan_read_write##n(void *p) { memAccess(p, n, true, PC); }            \
  void __tsan_unaligned_read_write##n(void *p) { memAccess(p, n, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, unsigned long n) { if (n) memAccess(p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { if (n) memAccess(p, n, true, PC); }
void __tsan_vptr_read(void **p) { memAccess(p, 8, false, PC); }
void __tsan_vptr_update(void **p, void *v) {
  if (inHeap(p) && !heapOk(p, 8)) {
    memAccess(p, 8, true, PC);
    return;
  }
  if (*p != v)
    memAccess(p, 8, true, PC);
}
static void overlap(size_t n, uint64_t pc) {
  if (noisy())
    fail("overlapping-copy", "copy of %zu bytes between overlapping places (pc 0x%llx)", n, (unsigned long long)pc);
}
void *__tsan_memcpy(void *d, const void *s, unsigned long n) {
  if (n) {
    memAccess((void *)s, n, false, PC);
    memAccess(d, n, true, PC);
    // the source and target of a plain copy may not overlap (the very same
    // place is what compilers emit for a = a)
    if (d != s && (char *)d < (const char *)s + n && (const char *)s < (char *)d + n)
      overlap(n, PC);
  }
  return memmove(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, unsigned long n) {
  if (n) {
    memAccess((void *)s, n, false, PC);
    memAccess(d, n, true, PC);
  }
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, unsigned long n) {
  if (n)
    memAccess(d, n, true, PC);
  return memset(d, c, n);
}
} // extern "C"

// ---- atomics
namespace {
enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
bool isAcq(int m) { return m != MO_RELAXED && m != MO_RELEASE; }
bool isRel(int m) { return m == MO_RELEASE || m == MO_ACQ_REL || m == MO_SEQ_CST; }
void atomicPre(volatile void *p, size_t n, bool wr, uint64_t pc) {
  uintptr_t a = (uintptr_t)p;
  if (a < 4096)
    fail("crash:SIGSEGV", "atomic access through a null pointer (pc 0x%llx)",
         (unsigned long long)pc);
  point(P_SYNC);
  if (inHeap((void *)p) && !heapOk((void *)p, n))
    fail("use-after-free", "atomic access to freed memory %p (pc 0x%llx)", (void *)p,
         (unsigned long long)pc);
  raceCheck(a, (int)n, wr, true, pc);
}
void atomicSync(volatile void *p, bool rd, bool wr, int mo) {
  SyncObj *o = obj((void *)p);
  if (R.fenceUsed)
    mo = MO_SEQ_CST;
  if (rd && isAcq(mo))
    vcJoin(self_->vc, o->vc);
  if (wr && isRel(mo)) {
    vcJoin(o->vc, self_->vc);
    ++self_->vc.c[self_->id];
  }
  note(wr ? 12 : 11, o);
}
} // namespace
#define ATOMIC(B, T)                                                           \
  extern "C" T __tsan_atomic##B##_load(const volatile T *a, int mo) {          \
    if (noisy()) {                                                             \
      atomicPre((volatile void *)a, sizeof(T), false, PC);                     \
      atomicSync((volatile void *)a, true, false, mo);                         \
    }                                                                          \
    return *a;                                                                 \
  }                                                                            \
  extern "C" void __tsan_atomic##B##_store(volatile T *a, T v, int mo) {       \
    if (noisy()) {                                                             \
      atomicPre(a, sizeof(T), true, PC);                                       \
      *a = v;                                                                  \
      atomicSync(a, false, true, mo);                                          \
      return;                                                                  \
    }                                                                          \
    *a = v;                                                                    \
  }                                                                            \
  extern "C" T __tsan_atomic##B##_exchange(volatile T *a, T v, int mo) {       \
    bool n = noisy();                                                          \
    if (n)                                                                     \
      atomicPre(a, sizeof(T), true, PC);                                       \
    T o = *a;                                                                  \
    *a = v;                                                                    \
    if (n)                                                                     \
      atomicSync(a, true, true, mo);                                           \
    return o;                                                                  \
  }                                                                            \
  ATOMIC_RMW(B, T, add, o + v)                                                 \
  ATOMIC_RMW(B, T, sub, o - v)                                                 \
  ATOMIC_RMW(B, T, and, o &v)                                                  \
  ATOMIC_RMW(B, T, or, o | v)                                                  \
  ATOMIC_RMW(B, T, xor, o ^ v)                                                 \
  ATOMIC_RMW(B, T, nand, ~(o & v))                                             \
  extern "C" int __tsan_atomic##B##_compare_exchange_strong(                   \
      volatile T *a, T *c, T v, int mo, int fmo) {                             \
    bool n = noisy();                                                          \
    if (n)                                                                     \
      atomicPre(a, sizeof(T), true, PC);                                       \
    if (*a == *c) {                                                            \
      *a = v;                                                                  \
      if (n)                                                                   \
        atomicSync(a, true, true, mo);                                         \
      return 1;                                                                \
    }                                                                          \
    *c = *a;                                                                   \
    if (n)                                                                     \
      atomicSync(a, true, false, fmo);                                         \
    return 0;                                                                  \
  }                                                                            \
  extern "C" int __tsan_atomic##B##_compare_exchange_weak(                     \
      volatile T *a, T *c, T v, int mo, int fmo) {                             \
    return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo);       \
  }                                                                            \
  extern "C" T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c,     \
                                                       T v, int mo, int fmo) { \
    __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, fmo);             \
    return c;                                                                  \
  }
#define ATOMIC_RMW(B, T, name, expr)                                           \
  extern "C" T __tsan_atomic##B##_fetch_##name(volatile T *a, T v, int mo) {   \
    bool n = noisy();                                                          \
    if (n)                                                                     \
      atomicPre(a, sizeof(T), true, PC);                                       \
    T o = *a;                                                                  \
    *a = (T)(expr);                                                            \
    if (n)                                                                     \
      atomicSync(a, true, true, mo);                                           \
    return o;                                                                  \
  }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
typedef unsigned __int128 u128;
ATOMIC(128, u128)
extern "C" void __tsan_atomic_thread_fence(int) {
  if (!noisy())
    return;
  R.fenceUsed = true;
  point(P_SYNC);
  vcJoin(R.fenceVC, self_->vc);
  vcJoin(self_->vc, R.fenceVC);
  ++self_->vc.c[self_->id];
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---- operator new: allocation failures
static void *opNew(size_t n, size_t al) {
  if (R.active && self_ && !R.inrt && (!self_->quiet || self_->allocArm >= 0)) {
    R.allocN += !self_->quiet;
    if (self_->allocArm >= 0 && self_->quiet == self_->allocQuiet && self_->allocArm-- == 0) {
      self_->allocFired = true;
      countFault("alloc-failure");
      trace("allocation of %zu bytes fails", n);
      return nullptr;
    }
  }
  return dirty(hmalloc(n, al), n);
}
static void *opNewThrow(size_t n, size_t al) {
  void *p = opNew(n, al);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new(size_t n) { return opNewThrow(n, 16); }
void *operator new[](size_t n) { return opNewThrow(n, 16); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return opNew(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return opNew(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return opNewThrow(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return opNewThrow(n, (size_t)a); }
void operator delete(void *p) noexcept { hfree(p); }
void operator delete[](void *p) noexcept { hfree(p); }
void operator delete(void *p, size_t) noexcept { hfree(p); }
void operator delete[](void *p, size_t) noexcept { hfree(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { hfree(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { hfree(p); }
void operator delete(void *p, std::align_val_t) noexcept { hfree(p); }
void operator delete[](void *p, std::align_val_t) noexcept { hfree(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { hfree(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { hfree(p); }

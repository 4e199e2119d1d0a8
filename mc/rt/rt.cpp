// Stateless model checker for real Rust code.
//
// The code under test, all its dependencies and the standard library are
// compiled with rustc's ThreadSanitizer *instrumentation* but are linked with
// this runtime instead of the sanitizer's: every atomic access, fence, futex
// wait/wake and yield is therefore a call into this file, whatever primitive
// (std, parking_lot, once_cell, ...) the source uses.  One controlled thread
// runs at a time; each such call is a scheduling point.  `mc_explore` runs the
// scenario once per Mazurkiewicz trace (dynamic partial-order reduction with
// sleep sets, Flanagan & Godefroid 2005), each execution in a forked child so
// that every execution starts from the same global state.
//
// On every execution the runtime also checks, by vector clocks that honour the
// memory orderings given in the source, that conflicting plain accesses are
// ordered (data race), that no plain or atomic access touches freed heap memory,
// that not all threads are blocked (deadlock), and that the run ends (livelock).
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef unsigned __int128 u128;
#define HOT __attribute__((hot))

static const int MAXT = 8;           // controlled threads
static const int MAXSTEPS = 100000;   // horizon: longer executions count as livelock
static const int SPINREAL = 3;        // identical re-reads that are still scheduling points
static const int SPINMAX = 400;      // identical re-reads before a thread counts as waiting

// ---- raw system calls (the libc `syscall` symbol is interposed below) -------
static long raw_syscall6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}

// ---- operations ---------------------------------------------------------------
enum Kind : u8 { K_NONE, K_LOAD, K_STORE, K_RMW, K_FWAIT, K_FWAKE, K_INV, K_RESP, K_LOCAL, K_LOCK, K_UNLOCK };
static const char *kind_name[] = {"none", "load", "store", "rmw", "futex-wait", "futex-wake", "call", "return", "resume", "lock", "unlock"};

struct Op { u64 addr; u8 kind; u8 size; u16 tag; };
struct Step { Op op; u64 val; u8 tid; u8 enabled; u8 sleep; u8 pad[5]; };

static inline bool is_write(u8 k) { return k == K_STORE || k == K_RMW || k == K_FWAIT || k == K_FWAKE || k == K_LOCK || k == K_UNLOCK; }
static inline bool is_mem(u8 k) { return k == K_LOAD || is_write(k); }
static bool dependent(const Op &a, const Op &b) {
  if (a.kind == K_INV && b.kind == K_RESP) return true;
  if (a.kind == K_RESP && b.kind == K_INV) return true;
  if (!is_mem(a.kind) || !is_mem(b.kind)) return false;
  if (!is_write(a.kind) && !is_write(b.kind)) return false;
  return a.addr < b.addr + b.size && b.addr < a.addr + a.size;
}

enum Status : u32 { ST_RUNNING, ST_OK, ST_PRUNED, ST_DEADLOCK, ST_LIVELOCK, ST_RACE, ST_UAF, ST_DIVERGED, ST_VIOLATION, ST_CRASH, ST_INTERNAL };
static const char *status_name[] = {"running", "ok", "pruned", "deadlock", "livelock", "data-race", "use-after-free", "diverged", "violation", "crash", "internal"};

struct Shared {                       // child -> parent
  volatile u32 status;
  u32 nsteps;
  u32 outcome_hash_lo;
  u64 outcome;
  char msg[3000];
  char outcome_text[2000];
  Op pending[MAXT];
  u8 pending_valid[MAXT];
  Step steps[MAXSTEPS + 8];
};
static Shared *sh;

// ---- vector clocks ------------------------------------------------------------
struct VC {
  u32 c[MAXT];
  void clear() { memset(c, 0, sizeof c); }
  void join(const VC &o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

struct AtomicLoc { VC rel; bool has_rel; };
struct Cell {                         // shadow of one 8-byte granule
  u32 wclk; u8 wtid; u8 wmask; u8 watomic;
  u32 rclk[MAXT]; u8 rmask[MAXT]; u8 ratomic[MAXT];
  u8 wset;
};

struct Thread {
  int id;
  u32 sem;                            // handoff futex
  bool started, finished, blocked, spinning, blocked_timed, timed_out;
  u64 fwait_addr, spin_addr;
  Op pending;
  VC vc, acq_pending, rel_fence;
  bool has_rel_fence;
  // spin detection
  u64 last_addr, last_val; u8 last_kind; int rep;
  pthread_t pt;
  bool lock_announced;
};

static Thread thr[MAXT];
static int nthr;
static __thread Thread *cur;
static __thread int in_rt;
static bool active;                   // exploration running in this (child) process
static u32 main_sem;
static const u8 *g_prefix; static u32 g_nprefix; static u8 g_sleep0;
static u8 g_sleep;
static u32 g_nsteps;
static int g_running;
// Periodic schedule: g_pat[0..g_npat), whose part from g_loop on repeats for ever.
static const u8 *g_pat; static u32 g_npat, g_loop, g_patpos;

static std::unordered_map<u64, AtomicLoc> *alocs;
static std::unordered_map<u64, Cell> *cells;

static void sem_wait_(u32 *s) {
  for (;;) {
    u32 v = __atomic_load_n(s, __ATOMIC_ACQUIRE);
    if (v) { __atomic_store_n(s, 0, __ATOMIC_RELEASE); return; }
    raw_syscall6(SYS_futex, (long)s, FUTEX_WAIT, 0, 0, 0, 0);
  }
}
static void sem_post_(u32 *s) {
  __atomic_store_n(s, 1, __ATOMIC_RELEASE);
  raw_syscall6(SYS_futex, (long)s, FUTEX_WAKE, 1, 0, 0, 0);
}

__attribute__((noreturn)) static void child_end(Status st, const char *fmt, ...) {
  if (sh->status == ST_RUNNING) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
    va_end(ap);
    sh->nsteps = g_nsteps;
    for (int i = 0; i < nthr; i++) {
      sh->pending[i] = thr[i].pending;
      sh->pending_valid[i] = thr[i].started && !thr[i].finished && !thr[i].blocked;
    }
    __atomic_store_n((u32 *)&sh->status, (u32)st, __ATOMIC_SEQ_CST);
  }
  _exit(0);
}

__attribute__((noreturn)) static void child_end_outside() { child_end(ST_DEADLOCK, "a lock is still held after every thread has ended"); }

// ---- scheduler ----------------------------------------------------------------
// Locks of the parking_lot stand-in. The word holds: bit 0 writer, bit 1 upgradable
// reader, bits 2..31 readers, bits 32.. number of waiting writers.
enum { L_SHARED, L_RECURSIVE, L_EXCLUSIVE, L_MUTEX, L_UPGRADABLE, L_UPGRADE };
static inline bool lock_can(u64 w, int mode, bool announced) {
  u64 readers = (w & 0xffffffffull) >> 2, waiting = w >> 32;
  switch (mode) {
    case L_SHARED: return !(w & 1) && !waiting;
    case L_RECURSIVE: return !(w & 1) && (!waiting || readers > 0);
    case L_EXCLUSIVE: return !(w & 0xffffffffull) && (announced || !waiting);
    case L_MUTEX: return !(w & 1);
    case L_UPGRADABLE: return !(w & 3) && !waiting;
    default: return readers == 1;      // L_UPGRADE: only the upgrader itself reads
  }
}
static inline u64 lock_apply(u64 w, int mode, bool announced) {
  switch (mode) {
    case L_SHARED: case L_RECURSIVE: return w + 4;
    case L_EXCLUSIVE: case L_MUTEX: return (announced ? w - (1ull << 32) : w) | 1;
    case L_UPGRADABLE: return (w + 4) | 2;
    default: return (w - 4 - 2) | 1;
  }
}
// A thread about to lock can take a step unless the lock is unavailable to it; a
// writer's first attempt is always possible: it announces that it is waiting.
static inline bool lock_ready(const Thread &t) {
  if (t.pending.kind != K_LOCK || t.pending.tag >= 16) return true;   // tag >= 16: try_lock
  bool ann = t.lock_announced;
  if (t.pending.tag == L_EXCLUSIVE && !ann) return true;
  return lock_can(*(volatile u64 *)t.pending.addr, t.pending.tag, ann);
}
static bool all_finished() {
  for (int i = 0; i < nthr; i++) if (!thr[i].finished) return false;
  return true;
}

static u8 enabled_mask() {
  u8 m = 0;
  for (int i = 0; i < nthr; i++)
    if (thr[i].started && !thr[i].finished && !thr[i].blocked && !thr[i].spinning && lock_ready(thr[i])) m |= 1 << i;
  return m;
}
// Chooses the thread that performs the next step; returns -1 when all are done.
static int pick(int self) {
  if (all_finished()) return -1;
  u8 en = enabled_mask();
  if (!en) {
    // A timed wait may expire when nothing else can run.
    for (int i = 0; i < nthr; i++)
      if (thr[i].blocked && thr[i].blocked_timed) {
        thr[i].blocked = false; thr[i].timed_out = true; en = enabled_mask(); break;
      }
  }
  if (!en) {
    std::string s; char b[160];
    bool spin = false;
    for (int i = 0; i < nthr; i++) {
      if (thr[i].finished) continue;
      spin |= thr[i].spinning;
      snprintf(b, sizeof b, " thread %d %s;", i, thr[i].spinning ? "waits in a loop" : "is blocked");
      s += b;
    }
    child_end(spin ? ST_LIVELOCK : ST_DEADLOCK, "no thread can make progress:%s", s.c_str());
  }
  if (g_nsteps < g_nprefix) {
    int t = g_prefix[g_nsteps];
    if (!(en >> t & 1)) child_end(ST_DIVERGED, "replay diverged at step %u: thread %d not enabled", g_nsteps, t);
    return t;
  }
  if (g_npat) {
    for (u32 i = 0; i <= g_npat; i++) {
      int t = g_pat[g_patpos];
      if (++g_patpos == g_npat) g_patpos = g_loop;
      if (en >> t & 1) return t;
    }
    return __builtin_ctz(en);
  }
  u8 cand = en & ~g_sleep;
  if (!cand) child_end(ST_PRUNED, "sleep set");
  if (self >= 0 && (cand >> self & 1)) return self;
  return __builtin_ctz(cand);
}

static void record_step(int t) {
  if (g_nsteps >= (u32)MAXSTEPS) child_end(ST_LIVELOCK, "execution exceeded %d steps", MAXSTEPS);
  Step &s = sh->steps[g_nsteps];
  s.op = thr[t].pending; s.tid = t; s.enabled = enabled_mask(); s.val = 0;
  if (g_nprefix && g_nsteps == g_nprefix - 1) g_sleep = g_sleep0;
  s.sleep = g_nsteps + 1 >= g_nprefix ? g_sleep : 0;
  if (g_nsteps + 1 >= g_nprefix) {
    for (int i = 0; i < nthr; i++)
      if ((g_sleep >> i & 1) && (i == t || dependent(thr[i].pending, s.op))) g_sleep &= ~(1 << i);
  }
  g_nsteps++;
}

// Called by the running thread with its pending op set; returns when it may run.
static void switch_from(Thread *t) {
  int n = pick(t->id);
  if (n < 0) { sem_post_(&main_sem); return; }
  if (n != t->id) {
    g_running = n;
    sem_post_(&thr[n].sem);
    if (!t->finished) sem_wait_(&t->sem);
  }
}

static void point(Thread *t, Op op) {
  t->pending = op;
  if (!t->started) {                  // initial run up to the first visible operation
    t->started = true;
    sem_post_(&main_sem);
    sem_wait_(&t->sem);
  } else {
    switch_from(t);
  }
  record_step(t->id);
}

static void wake_spinners(u64 addr, u8 size) {
  for (int i = 0; i < nthr; i++)
    if (thr[i].spinning && thr[i].spin_addr < addr + size && addr < thr[i].spin_addr + 8) {
      thr[i].spinning = false; thr[i].rep = 0;
    }
}

// ---- heap -----------------------------------------------------------------------
// Per-thread bump arenas inside one reserved region, so that addresses depend on
// the thread's own history only.  Policy bit 0: freed blocks are reused (LIFO, by
// the freeing thread); otherwise they stay poisoned for the rest of the execution.
// Policy bit 1: arenas grow downwards / threads get descending regions, which
// reverses the order of addresses.
static const u64 REGION = 1ull << 36;
static const u64 ARENA = 1ull << 31;
static char *heap_base;
static u64 bump[MAXT + 2];
static int heap_policy;
static std::unordered_map<u64, std::vector<u64>> *freelist;  // (arena<<32 | size) -> blocks
static u8 *freed_map;                 // one byte per 16 heap bytes, lazily mapped

static void heap_init() {
  if (heap_base) return;
  void *p = mmap((void *)0x100000000000ull, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED) { fprintf(stderr, "rt: cannot reserve heap\n"); _exit(3); }
  heap_base = (char *)p;
  void *q = mmap(nullptr, REGION / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (q == MAP_FAILED) { fprintf(stderr, "rt: cannot reserve shadow\n"); _exit(3); }
  freed_map = (u8 *)q;
}
static pthread_mutex_t heap_mu = PTHREAD_MUTEX_INITIALIZER;
static inline bool in_heap(u64 a) { return heap_base && a - (u64)heap_base < REGION; }

static u64 arena_index() { return cur ? (u64)cur->id + 1 : 0; }

extern "C" void *rt_alloc(size_t size, size_t align) {
  pthread_mutex_lock(&heap_mu);
  in_rt++;
  heap_init();
  if (!freelist) { freelist = new std::unordered_map<u64, std::vector<u64>>(); }
  u64 a = arena_index();
  u64 sz = (size + 15) & ~15ull; if (!sz) sz = 16;
  if (align < 16) align = 16;
  u64 res = 0;
  bool outside = !active || !cur;
  if ((heap_policy & 1) || outside) {
    auto it = freelist->find(a << 40 | sz);
    if (it != freelist->end())
      for (size_t i = it->second.size(); i-- > 0;) {
        u64 c = it->second[i];
        if (c % align == 0) { res = c; it->second.erase(it->second.begin() + i); break; }
      }
  }
  if (!res) {
    if (!(heap_policy & 2) || outside) {
      u64 b = bump[a];
      b = (b + align - 1) & ~(u64)(align - 1);
      u64 ar = (heap_policy & 2) && !outside ? (MAXT + 1 - a) : a;
      res = (u64)heap_base + ar * ARENA + b;
      bump[a] = b + sz + 16;
      if (bump[a] > ARENA / 2) { fprintf(stderr, "rt: heap exhausted\n"); _exit(3); }
    } else {
      u64 b = bump[a] + sz + 16;
      b = (b + align - 1) & ~(u64)(align - 1);
      bump[a] = b;
      res = (u64)heap_base + (MAXT + 2 - a) * ARENA - b;
      if (bump[a] > ARENA / 2) { fprintf(stderr, "rt: heap exhausted\n"); _exit(3); }
    }
  }
  for (u64 x = 0; x < sz; x += 16) freed_map[(res - (u64)heap_base + x) / 16] = 0;
  if (active) {                        // new block: forget its history
    if (cells) for (u64 x = 0; x < sz; x += 8) cells->erase(res + x);
    if (alocs) for (u64 x = 0; x < sz; x++) alocs->erase(res + x);
  }
  in_rt--;
  pthread_mutex_unlock(&heap_mu);
  return (void *)res;
}

static void plain(u64 addr, u64 size, bool write);

extern "C" void rt_free(void *p, size_t size, size_t align) {
  (void)align;
  u64 a = (u64)p;
  if (cur && active && !in_rt) plain(a, size ? size : 1, true);   // freeing conflicts with every access
  pthread_mutex_lock(&heap_mu);
  in_rt++;
  u64 sz = (size + 15) & ~15ull; if (!sz) sz = 16;
  bool reuse = (heap_policy & 1) || !(active && cur);
  if (active && cur) for (u64 x = 0; x < sz; x += 16) freed_map[(a - (u64)heap_base + x) / 16] = 1;
  if (reuse) (*freelist)[arena_index() << 40 | sz].push_back(a);
  in_rt--;
  pthread_mutex_unlock(&heap_mu);
}

static void check_live(u64 addr, u64 size, const char *what) {
  if (!in_heap(addr)) return;
  u64 o = (addr - (u64)heap_base) / 16, e = (addr + size - 1 - (u64)heap_base) / 16;
  for (; o <= e; o++)
    if (freed_map[o]) child_end(ST_UAF, "thread %d %s freed memory (step %u)", cur->id, what, g_nsteps);
}

// ---- plain accesses ---------------------------------------------------------------
static void race(const char *a, const char *b, int other, u64 addr) {
  child_end(ST_RACE, "data race: %s by thread %d is not ordered with earlier %s by thread %d (step %u, address %s)", a, cur->id, b, other, g_nsteps, in_heap(addr) ? "heap" : "other");
}
static HOT void access_granule(u64 g, u8 mask, bool write, bool atomic) {
  Thread *t = cur;
  Cell &c = (*cells)[g];
  u32 myclk = t->vc.c[t->id];
  if (c.wset && c.wtid != t->id && (c.wmask & mask) && !(atomic && c.watomic)) {
    if (c.wclk > t->vc.c[c.wtid])
      race(atomic ? (write ? "atomic write" : "atomic read") : (write ? "write" : "read"), c.watomic ? "atomic write" : "write", c.wtid, g);
  }
  if (write) {
    for (int i = 0; i < nthr; i++) {
      if (i == t->id || !(c.rmask[i] & mask) || (atomic && c.ratomic[i])) continue;
      if (c.rclk[i] > t->vc.c[i])
        race(atomic ? "atomic write" : "write", c.ratomic[i] ? "atomic read" : "read", i, g);
    }
    c.wset = 1; c.wtid = t->id; c.wclk = myclk; c.wmask = mask; c.watomic = atomic;
  } else {
    if (c.rclk[t->id] == myclk) { c.rmask[t->id] |= mask; if (!atomic) c.ratomic[t->id] = 0; }
    else { c.rclk[t->id] = myclk; c.rmask[t->id] = mask; c.ratomic[t->id] = atomic; }
  }
}
static HOT void plain2(u64 addr, u64 size, bool write, bool atomic) {
  check_live(addr, size, atomic ? "atomically accesses" : (write ? "writes" : "reads"));
  u64 end = addr + size;
  for (u64 g = addr & ~7ull; g < end; g += 8) {
    u64 lo = addr > g ? addr - g : 0, hi = end - g < 8 ? end - g : 8;
    u8 mask = (u8)((hi == 8 ? 0x100 : 1 << hi) - (1 << lo));
    access_granule(g, mask, write, atomic);
  }
}
static HOT void plain(u64 addr, u64 size, bool write) {
  if (!cur || in_rt || !active || !size) return;
  in_rt++;
  plain2(addr, size, write, false);
  in_rt--;
}

// ---- atomics ------------------------------------------------------------------------
enum { MO_RLX, MO_CONS, MO_ACQ, MO_REL, MO_ACQREL, MO_SC };
static inline bool acq(int mo) { return mo == MO_CONS || mo == MO_ACQ || mo == MO_ACQREL || mo == MO_SC; }
static inline bool rel(int mo) { return mo == MO_REL || mo == MO_ACQREL || mo == MO_SC; }

static void sync_load(Thread *t, u64 addr, int mo) {
  auto it = alocs->find(addr);
  if (it == alocs->end() || !it->second.has_rel) return;
  if (acq(mo)) t->vc.join(it->second.rel); else t->acq_pending.join(it->second.rel);
}
static void sync_store(Thread *t, u64 addr, int mo, bool rmw) {
  AtomicLoc &l = (*alocs)[addr];
  if (!rmw) { l.rel.clear(); l.has_rel = false; }
  if (rel(mo)) { l.rel.join(t->vc); l.has_rel = true; t->vc.c[t->id]++; }
  else if (t->has_rel_fence) { l.rel.join(t->rel_fence); l.has_rel = true; }
}

struct Enter {
  bool on;
  Enter() { on = cur && active && !in_rt; if (on) in_rt++; }
  ~Enter() { if (on) in_rt--; }
};

template <class T> static T at_load(volatile T *a, int mo) {
  Enter e;
  if (!e.on) return __atomic_load_n(a, __ATOMIC_SEQ_CST);
  Thread *t = cur;
  u64 ad = (u64)a;
  check_live(ad, sizeof(T), "atomically accesses");
  // Coalesce spinning: after SPINREAL immediate re-reads that return the same
  // value further ones are not scheduling points; after SPINMAX of them the thread
  // waits for a write.
  if (t->started && t->last_addr == ad && t->last_kind == K_LOAD && (u64)*a == t->last_val) {
    t->rep++;
    if (t->rep >= SPINREAL && t->rep < SPINMAX) { sync_load(t, ad, mo); return *a; }
    if (t->rep >= SPINMAX) { t->spinning = true; t->spin_addr = ad; t->rep = 0; }
  }
  point(t, Op{ad, K_LOAD, sizeof(T), 0});
  check_live(ad, sizeof(T), "atomically accesses");
  plain2(ad, sizeof(T), false, true);
  T v = *a;
  sh->steps[g_nsteps - 1].val = (u64)v;
  sync_load(t, ad, mo);
  if (t->last_addr != ad || t->last_kind != K_LOAD || t->last_val != (u64)v) t->rep = 0;
  t->last_addr = ad; t->last_kind = K_LOAD; t->last_val = (u64)v;
  return v;
}
template <class T> static void at_store(volatile T *a, T v, int mo) {
  Enter e;
  if (!e.on) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; }
  Thread *t = cur;
  check_live((u64)a, sizeof(T), "atomically accesses");
  point(t, Op{(u64)a, K_STORE, sizeof(T), 0});
  plain2((u64)a, sizeof(T), true, true);
  *a = v;
  sh->steps[g_nsteps - 1].val = (u64)v;
  sync_store(t, (u64)a, mo, false);
  t->last_addr = 0;
  wake_spinners((u64)a, sizeof(T));
}
template <class T, class F> static T at_rmw(volatile T *a, int mo, F f) {
  Enter e;
  Thread *t = cur;
  check_live((u64)a, sizeof(T), "atomically accesses");
  point(t, Op{(u64)a, K_RMW, sizeof(T), 0});
  plain2((u64)a, sizeof(T), true, true);
  T old = *a;
  *a = f(old);
  sh->steps[g_nsteps - 1].val = (u64)*a;
  sync_load(t, (u64)a, mo);
  sync_store(t, (u64)a, mo, true);
  t->last_addr = 0;
  wake_spinners((u64)a, sizeof(T));
  return old;
}
template <class T> static T at_cas(volatile T *a, T exp, T nv, int mo, int fmo) {
  Enter e;
  if (!e.on) { T x = exp; __atomic_compare_exchange_n(a, &x, nv, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return x; }
  Thread *t = cur;
  u64 ad = (u64)a;
  check_live(ad, sizeof(T), "atomically accesses");
  if (t->started && t->last_addr == ad && t->last_kind == K_RMW && (u64)*a == t->last_val && *a != exp) {
    t->rep++;
    if (t->rep >= SPINREAL && t->rep < SPINMAX) { sync_load(t, ad, fmo); return *a; }
    if (t->rep >= SPINMAX) { t->spinning = true; t->spin_addr = ad; t->rep = 0; }
  }
  point(t, Op{ad, K_RMW, sizeof(T), 0});
  T old = *a;
  if (old == exp) {
    plain2(ad, sizeof(T), true, true);
    *a = nv;
    sync_load(t, ad, mo);
    sync_store(t, ad, mo, true);
    t->last_addr = 0;
    wake_spinners(ad, sizeof(T));
  } else {
    sh->steps[g_nsteps - 1].op.kind = K_LOAD;     // a failed exchange only reads
    plain2(ad, sizeof(T), false, true);
    sync_load(t, ad, fmo);
    if (t->last_addr != ad || t->last_kind != K_RMW || t->last_val != (u64)old) t->rep = 0;
    t->last_addr = ad; t->last_kind = K_RMW; t->last_val = (u64)old;
  }
  sh->steps[g_nsteps - 1].val = (u64)*a;
  return old;
}
#define ON (cur && active && !in_rt)
#define ATOMICS(N, T) \
  extern "C" T __tsan_atomic##N##_load(const volatile T *a, int mo) { return at_load<T>((volatile T *)a, mo); } \
  extern "C" void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { at_store<T>(a, v, mo); } \
  extern "C" T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { if (!ON) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); return at_rmw<T>(a, mo, [&](T) { return v; }); } \
  extern "C" T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { if (!ON) return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); return at_rmw<T>(a, mo, [&](T o) { return (T)(o + v); }); } \
  extern "C" T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { if (!ON) return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); return at_rmw<T>(a, mo, [&](T o) { return (T)(o - v); }); } \
  extern "C" T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { if (!ON) return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); return at_rmw<T>(a, mo, [&](T o) { return (T)(o & v); }); } \
  extern "C" T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { if (!ON) return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); return at_rmw<T>(a, mo, [&](T o) { return (T)(o | v); }); } \
  extern "C" T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { if (!ON) return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); return at_rmw<T>(a, mo, [&](T o) { return (T)(o ^ v); }); } \
  extern "C" T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) { if (!ON) return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); return at_rmw<T>(a, mo, [&](T o) { return (T) ~(o & v); }); } \
  extern "C" T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { return at_cas<T>(a, c, v, mo, fmo); } \
  extern "C" int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { T o = at_cas<T>(a, *c, v, mo, fmo); if (o == *c) return 1; *c = o; return 0; } \
  extern "C" int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { T o = at_cas<T>(a, *c, v, mo, fmo); if (o == *c) return 1; *c = o; return 0; }
ATOMICS(8, u8)
ATOMICS(16, u16)
ATOMICS(32, u32)
ATOMICS(64, u64)

extern "C" void __tsan_atomic_thread_fence(int mo) {
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
  if (!ON) return;
  Thread *t = cur;
  if (acq(mo)) t->vc.join(t->acq_pending);
  if (rel(mo)) { t->rel_fence = t->vc; t->has_rel_fence = true; t->vc.c[t->id]++; }
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---- plain access entry points -------------------------------------------------------
#define RW(N) \
  extern "C" void __tsan_read##N(void *a) { plain((u64)a, N, false); } \
  extern "C" void __tsan_write##N(void *a) { plain((u64)a, N, true); } \
  extern "C" void __tsan_unaligned_read##N(void *a) { plain((u64)a, N, false); } \
  extern "C" void __tsan_unaligned_write##N(void *a) { plain((u64)a, N, true); } \
  extern "C" void __tsan_volatile_read##N(void *a) { plain((u64)a, N, false); } \
  extern "C" void __tsan_volatile_write##N(void *a) { plain((u64)a, N, true); } \
  extern "C" void __tsan_unaligned_volatile_read##N(void *a) { plain((u64)a, N, false); } \
  extern "C" void __tsan_unaligned_volatile_write##N(void *a) { plain((u64)a, N, true); } \
  extern "C" void __tsan_read_write##N(void *a) { plain((u64)a, N, false); plain((u64)a, N, true); } \
  extern "C" void __tsan_unaligned_read_write##N(void *a) { plain((u64)a, N, false); plain((u64)a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
extern "C" void __tsan_read_range(void *a, size_t n) { plain((u64)a, n, false); }
extern "C" void __tsan_write_range(void *a, size_t n) { plain((u64)a, n, true); }
extern "C" void __tsan_vptr_update(void **, void *) {}
extern "C" void __tsan_vptr_read(void **) {}
extern "C" void __tsan_init() {}
extern "C" void __tsan_func_entry(void *) {}
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_ignore_thread_begin() {}
extern "C" void __tsan_ignore_thread_end() {}
extern "C" void *__tsan_memcpy(void *d, const void *s, size_t n) { plain((u64)s, n, false); plain((u64)d, n, true); return memcpy(d, s, n); }
extern "C" void *__tsan_memmove(void *d, const void *s, size_t n) { plain((u64)s, n, false); plain((u64)d, n, true); return memmove(d, s, n); }
extern "C" void *__tsan_memset(void *d, int c, size_t n) { plain((u64)d, n, true); return memset(d, c, n); }

// ---- interposed libc entry points ---------------------------------------------------
static long do_futex(u32 *addr, int op, u32 val, const void *timeout, u32 *addr2, u32 val3) {
  (void)addr2; (void)val3;
  Enter e;
  Thread *t = cur;
  int cmd = op & 0x7f;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    point(t, Op{(u64)addr, K_FWAIT, 4, 0});
    if (*(volatile u32 *)addr != val) { errno = EAGAIN; return -1; }
    t->blocked = true; t->blocked_timed = timeout != nullptr; t->timed_out = false; t->fwait_addr = (u64)addr;
    t->pending = Op{0, K_LOCAL, 0, 0};
    t->last_addr = 0;
    switch_from(t);
    if (t->timed_out) { t->timed_out = false; errno = ETIMEDOUT; record_step(t->id); return -1; }
    record_step(t->id);
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    point(t, Op{(u64)addr, K_FWAKE, 4, 0});
    long n = 0;
    for (int i = 0; i < nthr && (u32)n < val; i++)
      if (thr[i].blocked && thr[i].fwait_addr == (u64)addr) { thr[i].blocked = false; n++; }
    t->last_addr = 0;
    return n;
  }
  child_end(ST_INTERNAL, "unsupported futex operation %d", op);
}
extern "C" void rt_lock(u64 *w, int mode) {
  Enter e;
  if (!e.on) {
    if (!lock_can(*w, mode, false)) { fprintf(stderr, "rt: lock held outside the exploration\n"); child_end_outside(); }
    *w = lock_apply(*w, mode, false); return;
  }
  Thread *t = cur;
  check_live((u64)w, 8, "locks");
  t->lock_announced = false;
  for (;;) {
    point(t, Op{(u64)w, K_LOCK, 8, (u16)mode});
    plain2((u64)w, 8, true, true);
    if (lock_can(*w, mode, t->lock_announced)) break;
    *w += 1ull << 32; t->lock_announced = true;            // only an exclusive first attempt gets here
    sh->steps[g_nsteps - 1].val = *w;
  }
  *w = lock_apply(*w, mode, t->lock_announced);
  t->lock_announced = false;
  sh->steps[g_nsteps - 1].val = *w;
  sync_load(t, (u64)w, MO_ACQ);
  t->last_addr = 0;
}
extern "C" int rt_try_lock(u64 *w, int mode) {
  Enter e;
  if (e.on) {
    Thread *t = cur;
    check_live((u64)w, 8, "locks");
    // trying again and again is waiting, as for loads
    if (t->started && t->last_addr == (u64)w && t->last_kind == K_LOCK && *w == t->last_val && !lock_can(*w, mode, false)) {
      t->rep++;
      if (t->rep >= SPINREAL && t->rep < SPINMAX) return 0;
      if (t->rep >= SPINMAX) { t->spinning = true; t->spin_addr = (u64)w; t->rep = 0; }
    }
    point(t, Op{(u64)w, K_LOCK, 8, (u16)(mode + 16)});
    plain2((u64)w, 8, true, true);
    if (!lock_can(*w, mode, false)) {
      if (t->last_addr != (u64)w || t->last_kind != K_LOCK || t->last_val != *w) t->rep = 0;
      t->last_addr = (u64)w; t->last_kind = K_LOCK; t->last_val = *w;
      return 0;
    }
    t->last_addr = 0;
  }
  if (!lock_can(*w, mode, false)) return 0;
  *w = lock_apply(*w, mode, false);
  if (e.on) { sync_load(cur, (u64)w, MO_ACQ); wake_spinners((u64)w, 8); }
  return 1;
}
extern "C" void rt_unlock(u64 *w, int mode) {
  Enter e;
  if (e.on) {
    check_live((u64)w, 8, "unlocks");
    point(cur, Op{(u64)w, K_UNLOCK, 8, (u16)mode});
    plain2((u64)w, 8, true, true);
    cur->last_addr = 0;
  }
  switch (mode) {
    case 0: *w -= 4; break;
    case 1: *w &= ~1ull; break;
    case 2: *w = (*w - 4) & ~2ull; break;
    case 3: *w = (*w & ~1ull) + 4; break;
    case 4: *w &= ~2ull; break;
    case 5: *w = ((*w & ~1ull) + 4) | 2; break;
  }
  if (e.on) { sh->steps[g_nsteps - 1].val = *w; sync_store(cur, (u64)w, MO_REL, true); wake_spinners((u64)w, 8); }
}
extern "C" u64 rt_lock_peek(u64 *w) {
  Enter e;
  if (e.on) { point(cur, Op{(u64)w, K_LOAD, 8, 0}); plain2((u64)w, 8, false, true); cur->last_addr = 0; }
  return *w;
}
extern "C" size_t rt_thread_id() { return cur ? cur->id + 2 : 1; }

extern "C" long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && cur && active && !in_rt)
    return do_futex((u32 *)a[0], (int)a[1], (u32)a[2], (void *)a[3], (u32 *)a[4], (u32)a[5]);
  if (n == SYS_getrandom) { memset((void *)a[0], 0x5a, a[1]); return a[1]; }
  long r = raw_syscall6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
extern "C" ssize_t getrandom(void *p, size_t n, unsigned) { memset(p, 0x5a, n); return n; }
extern "C" int sched_yield() { if (cur && active) return 0; return raw_syscall6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
// Simulated clock: strictly increasing, one microsecond per query, so that timed
// code is deterministic.
static u64 fake_ns = 1700000000ull * 1000000000ull;
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!active) return (int)raw_syscall6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
  u64 v = __atomic_add_fetch(&fake_ns, 1000, __ATOMIC_SEQ_CST);
  ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull;
  return 0;
}
extern "C" u64 rt_now_ns() { return __atomic_load_n(&fake_ns, __ATOMIC_SEQ_CST); }
extern "C" int nanosleep(const struct timespec *, struct timespec *) { return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { return 0; }

// ---- harness interface ----------------------------------------------------------------
// Marks the call and the return of one operation of the recorded history. A call
// and a return on different threads are mutually dependent, so every real-time
// order of non-overlapping operations is explored. Returns the position in the
// execution.
extern "C" u32 rt_invoke() {
  if (!ON) return g_nsteps;
  Enter e; point(cur, Op{0, K_INV, 0, 0}); cur->last_addr = 0; return g_nsteps;
}
extern "C" u32 rt_return() {
  if (!ON) return g_nsteps;
  Enter e; point(cur, Op{0, K_RESP, 0, 0}); cur->last_addr = 0; return g_nsteps;
}
extern "C" u32 rt_step() { return g_nsteps; }
// 1 while the address lies in heap memory that has been freed in this execution.
extern "C" int rt_is_freed(const void *p) { return in_heap((u64)p) && freed_map[((u64)p - (u64)heap_base) / 16]; }

struct Scenario {
  int nthreads;
  int heap;                            // heap policy
  void *(*setup)(void *user);
  void (*thread)(void *user, void *ctx, int tid);
  // writes a description of the outcome; returns 0 if the execution is fine
  int (*finish)(void *user, void *ctx, char *msg, size_t msgcap, char *outcome, size_t outcap);
  void *user;
};
struct Options { u64 max_execs; double max_seconds; int naive; int bound; int stop_after; };
// counterexamples confirmed so far by all workers together
static volatile int *pool_found = nullptr;
extern "C" int mc_found() { return pool_found ? *pool_found : -1; }
extern "C" void mc_note_found() { if (pool_found) __atomic_fetch_add(pool_found, 1, __ATOMIC_SEQ_CST); }
struct Result {
  u64 executions, complete, pruned, transitions, nodes, outcomes;
  u32 max_depth; u32 exhausted; u32 status; u32 nschedule; u64 outcome_xor;
  double wall;
  char msg[3000];
  char outcome_sample[2000];
  u8 schedule[MAXSTEPS];
};

struct TArg { Scenario *sc; void *ctx; int id; };
static void *thread_main(void *p) {
  TArg *a = (TArg *)p;
  cur = &thr[a->id];
  a->sc->thread(a->sc->user, a->ctx, a->id);
  in_rt++;
  Thread *t = cur;
  if (!t->started) {                   // performed no visible operation at all
    t->started = true; t->finished = true;
    sem_post_(&main_sem);
  } else {
    t->finished = true;
    int n = pick(-1);
    if (n < 0) sem_post_(&main_sem);
    else { g_running = n; sem_post_(&thr[n].sem); }
  }
  for (;;) pause();
  return nullptr;
}

static void run_child(Scenario *sc, const u8 *prefix, u32 nprefix, u8 sleep0) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  alocs = new std::unordered_map<u64, AtomicLoc>();
  cells = new std::unordered_map<u64, Cell>();
  g_prefix = prefix; g_nprefix = nprefix; g_sleep0 = sleep0; g_sleep = 0; g_nsteps = 0;
  nthr = sc->nthreads; heap_policy = 0;
  void *ctx = sc->setup(sc->user);
  memset(thr, 0, sizeof thr);
  heap_policy = sc->heap;
  active = true;
  static TArg args[MAXT];
  for (int i = 0; i < nthr; i++) {
    thr[i].id = i;
    for (int j = 0; j < MAXT; j++) thr[i].vc.c[j] = 0;
    thr[i].vc.c[i] = 1;
    args[i] = TArg{sc, ctx, i};
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
    pthread_create(&thr[i].pt, &at, thread_main, &args[i]);
    sem_wait_(&main_sem);
  }
  int n = pick(-1);
  if (n >= 0) { g_running = n; sem_post_(&thr[n].sem); sem_wait_(&main_sem); }
  active = false;
  heap_policy = 0;
  static char msg[3000], out[2000];
  int bad = sc->finish(sc->user, ctx, msg, sizeof msg, out, sizeof out);
  memcpy(sh->outcome_text, out, sizeof out);
  u64 h = 1469598103934665603ull;
  for (char *c = out; *c; c++) h = (h ^ (u8)*c) * 1099511628211ull;
  sh->outcome = h;
  child_end(bad ? ST_VIOLATION : ST_OK, "%s", msg);
}

static double now_s() { struct timespec ts; raw_syscall6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0); return ts.tv_sec + ts.tv_nsec * 1e-9; }

static Status execute(Scenario *sc, const std::vector<u8> &prefix, u8 sleep0) {
  sh->status = ST_RUNNING; sh->nsteps = 0; sh->msg[0] = 0; sh->outcome_text[0] = 0; sh->outcome = 0;
  pid_t pid = fork();
  if (pid < 0) { fprintf(stderr, "rt: fork failed\n"); _exit(3); }
  if (pid == 0) {
    run_child(sc, prefix.data(), prefix.size(), sleep0);
    _exit(0);
  }
  int st = 0;
  // A child that neither ends nor takes steps is stuck outside our control.
  double t0 = now_s();
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    double el = now_s() - t0;
    if (el > 60) { kill(pid, SIGKILL); waitpid(pid, &st, 0); snprintf(sh->msg, sizeof sh->msg, "execution did not end within 60 s of wall time"); sh->status = ST_LIVELOCK; return ST_LIVELOCK; }
    if (el > 0.02) usleep(1000); else if (el > 0.002) usleep(100); else { struct timespec ts = {0, 20000}; raw_syscall6(SYS_nanosleep, (long)&ts, 0, 0, 0, 0, 0); }
  }
  if (sh->status == ST_RUNNING) {
    if (WIFSIGNALED(st)) snprintf(sh->msg, sizeof sh->msg, "execution crashed with signal %d", WTERMSIG(st));
    else snprintf(sh->msg, sizeof sh->msg, "execution exited unexpectedly with status %d", WEXITSTATUS(st));
    sh->status = WIFSIGNALED(st) ? ST_CRASH : (WEXITSTATUS(st) == 3 ? ST_INTERNAL : ST_CRASH);
  }
  return (Status)sh->status;
}

struct Node { u8 enabled, backtrack, done, sleep, tid; };

static void map_shared() {
  if (!sh) sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

// Renders the schedule of the execution in `sh` with small object names.
static std::string render() {
  std::unordered_map<u64, int> names; std::string s; char b[128];
  u32 n = sh->nsteps; u32 from = 0;
  for (u32 i = from; i < n && i < 400; i++) {
    Step &x = sh->steps[i];
    if (is_mem(x.op.kind)) {
      int id = names.emplace(x.op.addr, (int)names.size()).first->second;
      snprintf(b, sizeof b, "T%d:%s(o%d)->%llu\n", x.tid, kind_name[x.op.kind], id, (unsigned long long)x.val);
    } else snprintf(b, sizeof b, "T%d:%s\n", x.tid, kind_name[x.op.kind]);
    s += b;
  }
  if (n > 400) s += "...\n";
  return s;
}

static std::string g_render;
extern "C" const char *mc_render() { return g_render.c_str(); }

extern "C" void mc_replay(Scenario *sc, const u8 *sched, u32 n, Result *res) {
  map_shared();
  memset(res, 0, sizeof *res);
  std::vector<u8> p(sched, sched + n);
  Status st = execute(sc, p, 0);
  res->status = st; memcpy(res->msg, sh->msg, sizeof res->msg); memcpy(res->outcome_sample, sh->outcome_text, sizeof sh->outcome_text);
  g_render = render();
}

// One execution of a periodic schedule. One that does not end within the horizon
// decides nothing (status pruned): the threads may only be keeping each other busy.
extern "C" void mc_pattern(Scenario *sc, const u8 *pat, u32 n, u32 loop, Result *res) {
  map_shared();
  memset(res, 0, sizeof *res);
  g_pat = pat; g_npat = n; g_loop = loop; g_patpos = 0;
  double t0 = now_s();
  Status st = execute(sc, std::vector<u8>(), 0);
  g_npat = 0;
  if (st == ST_LIVELOCK && sh->nsteps >= (u32)MAXSTEPS) st = ST_PRUNED;
  res->status = st; res->executions = 1; res->complete = st != ST_PRUNED; res->pruned = st == ST_PRUNED;
  res->transitions = res->nodes = sh->nsteps; res->max_depth = sh->nsteps; res->outcome_xor = sh->outcome;
  res->exhausted = 1; res->wall = now_s() - t0;
  memcpy(res->msg, sh->msg, sizeof res->msg); memcpy(res->outcome_sample, sh->outcome_text, sizeof sh->outcome_text);
  res->nschedule = sh->nsteps; for (u32 i = 0; i < sh->nsteps; i++) res->schedule[i] = sh->steps[i].tid;
  g_render = render();
}

extern "C" void mc_explore(Scenario *sc, const Options *opt, Result *res) {
  map_shared();
  memset(res, 0, sizeof *res);
  double t0 = now_s();
  std::vector<Node> stack;
  std::vector<u8> prefix;
  u8 sleep0 = 0;
  std::unordered_set<u64> outcomes;
  std::vector<u32> vbuf;
  std::vector<VC> svc;                 // clock of each step (dependency order)
  for (;;) {
    Status st = execute(sc, prefix, sleep0);
    res->executions++;
    if (st == ST_DIVERGED || st == ST_INTERNAL) { res->status = st; memcpy(res->msg, sh->msg, sizeof res->msg); break; }
    u32 n = sh->nsteps;
    if (st != ST_PRUNED) res->complete++; else res->pruned++;
    if (n > res->max_depth) res->max_depth = n;
    size_t keep = prefix.empty() ? 0 : prefix.size();
    res->transitions += n;
    // determinism: the replayed prefix must have been followed exactly
    for (size_t i = 0; i < keep && i < n; i++)
      if (sh->steps[i].tid != prefix[i]) { res->status = ST_DIVERGED; snprintf(res->msg, sizeof res->msg, "replay followed another thread at step %zu", i); break; }
    if (res->status) break;
    if (n < keep) { // ended (violation/crash) inside prefix: must not happen for ok prefixes
      if (st == ST_OK || st == ST_PRUNED) { res->status = ST_DIVERGED; snprintf(res->msg, sizeof res->msg, "execution ended inside the replayed prefix"); break; }
    }
    if (st == ST_OK) {
      if (outcomes.insert(sh->outcome).second) { if (getenv("MC_DUMP")) { fprintf(stderr, "%s\n", sh->outcome_text); for (u32 i = 0; i < n; i++) fprintf(stderr, "%d%s ", sh->steps[i].tid, kind_name[sh->steps[i].op.kind]); fprintf(stderr, "\n"); } res->outcome_xor ^= sh->outcome * 0x9E3779B97F4A7C15ull; memcpy(res->outcome_sample, sh->outcome_text, sizeof sh->outcome_text); }
      res->outcomes = outcomes.size();
    }
    if (st != ST_OK && st != ST_PRUNED) {
      res->status = st; memcpy(res->msg, sh->msg, sizeof res->msg);
      memcpy(res->outcome_sample, sh->outcome_text, sizeof sh->outcome_text);
      res->nschedule = n; for (u32 i = 0; i < n; i++) res->schedule[i] = sh->steps[i].tid;
      g_render = render();
      break;
    }
    // extend the stack with the new nodes
    stack.resize(keep < stack.size() ? keep : stack.size());
    for (u32 i = stack.size(); i < n; i++) {
      Step &s = sh->steps[i];
      Node nd; nd.enabled = s.enabled; nd.tid = s.tid; nd.done = 1 << s.tid; nd.sleep = s.sleep;
      nd.backtrack = opt->naive ? s.enabled : (1 << s.tid);
      stack.push_back(nd);
      res->nodes++;
    }
    // race analysis (dependency-order clocks)
    if (!opt->naive) {
      svc.assign(n, VC());
      VC tvc[MAXT]; for (auto &v : tvc) v.clear();
      // per step: clock[i] = number (index+1) of last step of thread i that happens before
      // Source-DPOR (Abdulla et al. 2014): for each race of an earlier step i with
      // the step `op` of p, an initial of the steps that do not follow i, then p's
      // step, must be explored at i.
      auto analyse = [&](int p, const Op &op, u32 upto) {
        VC before = tvc[p], full = tvc[p];
        for (u32 i = 0; i < upto; i++)
          if (sh->steps[i].tid != p && dependent(sh->steps[i].op, op)) full.join(svc[i]);
        u32 own = 0;                   // number of steps up to p's latest one
        for (u32 i = 0; i < upto; i++) if (sh->steps[i].tid == p) own = i + 1;
        for (int i = (int)upto - 1; i >= 0; i--) {
          Step &s = sh->steps[i];
          if (s.tid == p) continue;
          if (!dependent(s.op, op)) continue;
          if (before.c[s.tid] >= (u32)i + 1) continue; // ordered already
          // A lock operation may have waited for step i, so that the race is with an
          // earlier one: for those, every unordered dependent step counts.
          if (op.kind != K_LOCK) before.join(svc[i]);
          Node &nd = stack[i];
          if (!(nd.enabled >> p & 1) && own <= (u32)i) continue;  // p was waiting
          u8 seen = 0, init = 0;
          std::vector<u32> &v = vbuf; v.clear();
          auto first = [&](int q, const VC &c) {
            if (seen >> q & 1) return;
            seen |= 1 << q;
            for (u32 k : v) if (c.c[sh->steps[k].tid] >= k + 1) return;
            init |= 1 << q;
          };
          for (u32 k = i + 1; k < upto; k++) {
            Step &x = sh->steps[k];
            if (svc[k].c[s.tid] >= (u32)i + 1) continue;          // follows i
            first(x.tid, svc[k]);
            v.push_back(k);
          }
          first(p, full);
          init &= nd.enabled;
          if (!init) nd.backtrack |= nd.enabled;
          else if (!(nd.backtrack & init)) nd.backtrack |= (init >> p & 1) ? 1 << p : 1 << __builtin_ctz(init);
        }
      };
      for (u32 j = 0; j < n; j++) {
        Step &s = sh->steps[j];
        int p = s.tid;
        analyse(p, s.op, j);
        // update clocks
        VC v = tvc[p];
        for (int i = (int)j - 1; i >= 0; i--) {
          if (sh->steps[i].tid != p && dependent(sh->steps[i].op, s.op)) v.join(svc[i]);
        }
        // waking a blocked thread orders the resume after the wake
        if (s.op.kind == K_LOCAL) {
          for (int i = (int)j - 1; i >= 0; i--)
            if (sh->steps[i].op.kind == K_FWAKE && sh->steps[i].tid != p) { v.join(svc[i]); break; }
        }
        v.c[p] = j + 1;
        svc[j] = v; tvc[p] = v;
      }
      if (st == ST_PRUNED)
        for (int p = 0; p < sc->nthreads; p++)
          if (sh->pending_valid[p]) analyse(p, sh->pending[p], n);
    }
    // next branch
    bool found = false;
    while (!stack.empty()) {
      Node &nd = stack.back();
      u8 cand = nd.backtrack & nd.enabled & ~nd.done & ~(opt->naive ? 0 : nd.sleep);
      if (cand) {
        int q = __builtin_ctz(cand);
        prefix.clear();
        for (size_t i = 0; i + 1 < stack.size(); i++) prefix.push_back(stack[i].tid);
        prefix.push_back(q);
        sleep0 = opt->naive ? 0 : (nd.sleep | nd.done);
        nd.done |= 1 << q; nd.tid = q;
        found = true;
        break;
      }
      stack.pop_back();
    }
    if (!found) { res->exhausted = 1; break; }
    if ((opt->max_execs && res->executions >= opt->max_execs) || (opt->max_seconds > 0 && now_s() - t0 > opt->max_seconds) || mc_found() >= opt->stop_after) break;
  }
  res->wall = now_s() - t0;
}
extern "C" const char *mc_status_name(u32 s) { return s <= ST_INTERNAL ? status_name[s] : "?"; }

// Runs work(0..n-1) on `jobs` forked workers that take indices from a shared counter.
extern "C" int mc_pool(int jobs, int n, void (*work)(int, void *), void *user) {
  fflush(nullptr);
  volatile int *next = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pool_found = next + 16;
  std::vector<pid_t> pids;
  for (int j = 0; j < jobs; j++) {
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      for (;;) { int i = __atomic_fetch_add(next, 1, __ATOMIC_SEQ_CST); if (i >= n) break; work(i, user); }
      _exit(0);
    }
    pids.push_back(p);
  }
  int bad = 0;
  for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++; }
  return bad;
}

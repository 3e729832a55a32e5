// Deterministic simulator runtime. Compiled WITHOUT instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdexcept>
#include <ios>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef uintptr_t uptr;

// the linker wraps _exit for the code under test; the runtime itself leaves through the kernel
static inline void __attribute__((noreturn)) sys_exit(int s) {
  for (;;) syscall(SYS_exit_group, s);
}
#define _exit(s) sys_exit(s)

namespace {

const int T = sim::MAX_THREADS;

// ------------------------------------------------------------------------------------------ layout
const uptr ARENA = 0x200000000000ull;
const uptr HEAP_SIZE = 192ull << 20;
const uptr STACK_SIZE = 1ull << 20;
const uptr STACKS = ARENA + HEAP_SIZE;
const uptr ARENA_SIZE = HEAP_SIZE + STACK_SIZE * T;
const uptr SHADOW = 0x210000000000ull;     // race cells of the arena
const uptr GSHADOW = 0x218000000000ull;    // race cells of the globals
const uptr ADDRSH = 0x220000000000ull;     // addressability of the heap

struct Cell {
  u32 we;
  u8 wt, wm, hot, pad;
  u32 wpc;
  u32 pad2;
  u32 re[T];
  u8 rm[T];
};

extern "C" char __data_start[];
extern "C" char _end[];

// ------------------------------------------------------------------------------------------ shared
const int MAXSCHED = 1 << 16;
const int MAXOPS = 4096;
const int MAXFAULT = 512;
const int LOGSZ = 1 << 16;
const int MAXPROBE = 256;

struct SchedEnt {
  u64 step;
  u32 to;
  u32 forced;
};
struct FaultEnt {
  int op;
  int kind;
  long at;
  int persist;
  int fired;
};
struct Result {
  volatile int status;  // 0 nothing, 1 pass, 2 violation, 3 harness error
  char cls[64];
  char msg[2048];
  u64 trace_hash, sched_hash, work_hash;
  u64 steps, switches, allocs, oracles;
  u64 fired[sim::F_KINDS];
  int nsched;
  int sched_overflow;
  SchedEnt sched[MAXSCHED];
  int nops;
  int ops[MAXOPS];
  int nfaults;
  FaultEnt faults[MAXFAULT];
  int loglen;
  char log[LOGSZ];
  char findings[16][96];
  int nfindings;
  int strategy;
  int threads_max;
};
struct Probe {
  char name[56];
  u64 count;
};
struct Shared {
  Result r;
  Probe probes[MAXPROBE];
};
Shared *sh = nullptr;

struct Spec {
  u64 seed;
  u64 sched_salt;
  int ndis;
  int dis[MAXOPS];
  bool expl_faults;
  int nfaults;
  FaultEnt faults[MAXFAULT];
  bool expl_sched;
  int nsched;
  SchedEnt *sched;
  bool no_budget;
};

// ------------------------------------------------------------------------------------------ state
enum TState { RUNNABLE = 0, BLOCKED = 1, DONE = 2, FREE = 3 };
struct Thread {
  int tid;
  int state;
  std::atomic<int> go;
  u32 vc[T];
  u32 fence_rel[T];
  u32 acq_pending[T];
  uptr block_on;
  pthread_t pt;
  bool has_pt;
  void *(*start)(void *);
  void *arg;
  void *ret;
  const std::function<void()> *fn;
  int prio;
  int ignore;
  // api region
  int armed;
  int op;
  FaultEnt *plan;
  long counter;
  long allocs;
  bool plan_fired;
  int fired_kind;
  char altstack[16384];
};
Thread thr[T];
__thread Thread *cur __attribute__((tls_model("initial-exec"))) = nullptr;

struct {
  bool on;         // simulation running in this process
  bool concurrent; // more than one live simulated thread
  const Spec *spec;
  u64 steps, next_switch, step_cap;
  u64 hash, sched_hash;
  u64 switches;
  int live;
  int nthreads;
  int strategy;
  double mean_gap;
  u64 change_pts[16];
  int nchange, ichange;
  int low_prio;
  bool switch_after;
  int sched_pos;
  double hot_p;
  double rate[sim::F_KINDS];
  bool reuse;
  int poison;
} g;
sim::Rng wrng, srng;
u64 sched_seed;

std::function<void(int)> *exit_handler = nullptr;
std::function<void()> *reentry = nullptr;
bool exit_expected = false;
int exit_tid = -1;                 // only the thread that announced it may end the process
bool assert_expected = false;
int in_violation = 0;

char known_keys[64][96];
int nknown = 0;

[[noreturn]] void end_run(int status);

void vset(int status, const char *cls, const char *fmt, va_list ap) {
  Result &r = sh->r;
  snprintf(r.cls, sizeof r.cls, "%s", cls);
  vsnprintf(r.msg, sizeof r.msg, fmt, ap);
  for (char *p = r.msg; *p; ++p) if (*p == '\n') *p = ' ';
  (void) status;
}

[[noreturn]] void viol(const char *cls, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vset(2, cls, fmt, ap);
  va_end(ap);
  end_run(2);
}
[[noreturn]] void herr(const char *cls, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vset(3, cls, fmt, ap);
  va_end(ap);
  end_run(3);
}

[[noreturn]] void end_run(int status) {
  Result &r = sh->r;
  r.trace_hash = g.hash;
  r.sched_hash = g.sched_hash;
  r.steps = g.steps;
  r.switches = g.switches;
  r.status = status;
  _exit(0);
}

// ------------------------------------------------------------------------------------------ futex
void fwait(std::atomic<int> &v) {
  while (v.load(std::memory_order_acquire) == 0)
    syscall(SYS_futex, (int *) &v, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  v.store(0, std::memory_order_relaxed);
}
void fpost(std::atomic<int> &v) {
  v.store(1, std::memory_order_release);
  syscall(SYS_futex, (int *) &v, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

// ------------------------------------------------------------------------------------------ scheduler
inline void hmix(u64 x) {
  g.hash = (g.hash ^ x) * 0x100000001b3ull;
  g.hash ^= g.hash >> 29;
}

void new_gap() {
  if (g.strategy == 0 || g.strategy == 2) {
    double u = srng.unit();
    double gap = -std::log(1.0 - u) * g.mean_gap;
    if (gap > 1e9) gap = 1e9;
    g.next_switch = g.steps + 1 + (u64) gap;
  } else if (g.strategy == 1) {
    g.next_switch = g.ichange < g.nchange ? g.change_pts[g.ichange] : ~0ull;
    if (g.next_switch <= g.steps) g.next_switch = g.steps + 1;
  } else if (g.strategy == 4) {
    g.next_switch = g.steps + (u64) g.mean_gap + 1;
  } else
    g.next_switch = ~0ull;
}

void record(int to, bool forced) {
  Result &r = sh->r;
  if (r.nsched < MAXSCHED) {
    r.sched[r.nsched].step = g.steps;
    r.sched[r.nsched].to = to;
    r.sched[r.nsched].forced = forced;
    r.nsched++;
  } else
    r.sched_overflow = 1;
  g.sched_hash = sim::mix(g.sched_hash, sim::mix(g.steps, to));
  hmix(0x5ced0000ull + to);
}

int runnable(int *out) {
  int n = 0;
  for (int i = 0; i < g.nthreads; ++i) if (thr[i].state == RUNNABLE) out[n++] = i;
  return n;
}

void hand_to(int n) {
  Thread *me = cur;
  if (n == me->tid) return;
  g.switches++;
  int mystate = me->state;
  fpost(thr[n].go);
  if (mystate != DONE) fwait(me->go);
}

[[noreturn]] void deadlock() {
  char b[512];
  int p = 0;
  for (int i = 0; i < g.nthreads; ++i)
    p += snprintf(b + p, sizeof b - p, " T%d:%s", i, thr[i].state == DONE ? "done" : "blocked");
  viol("deadlock", "no simulated thread can make progress:%s", b);
}

// current thread cannot continue
void leave() {
  int rn[T];
  int n = runnable(rn);
  if (!n) deadlock();
  int to = rn[0];
  if (g.spec->expl_sched) {
    const Spec &s = *g.spec;
    while (g.sched_pos < s.nsched && s.sched[g.sched_pos].step < g.steps) g.sched_pos++;
    if (g.sched_pos < s.nsched && s.sched[g.sched_pos].step == g.steps && s.sched[g.sched_pos].forced) {
      int w = s.sched[g.sched_pos++].to;
      for (int i = 0; i < n; ++i) if (rn[i] == w) to = w;
    }
    if (g.sched_pos < s.nsched) g.next_switch = s.sched[g.sched_pos].step; else g.next_switch = ~0ull;
  } else if (g.strategy == 1) {
    int best = -1000000;
    for (int i = 0; i < n; ++i) if (thr[rn[i]].prio > best) best = thr[rn[i]].prio, to = rn[i];
  } else
    to = rn[srng.below(n)];
  record(to, true);
  hand_to(to);
}

// voluntary preemption
void preempt() {
  Thread *me = cur;
  int rn[T];
  int n = runnable(rn);
  int to = me->tid;
  if (g.spec->expl_sched) {
    const Spec &s = *g.spec;
    while (g.sched_pos < s.nsched && (s.sched[g.sched_pos].step < g.steps ||
                                      (s.sched[g.sched_pos].step == g.steps && s.sched[g.sched_pos].forced)))
      g.sched_pos++;
    if (g.sched_pos < s.nsched && s.sched[g.sched_pos].step == g.steps) {
      int w = s.sched[g.sched_pos++].to;
      for (int i = 0; i < n; ++i) if (rn[i] == w) to = w;
    }
    g.next_switch = g.sched_pos < s.nsched ? s.sched[g.sched_pos].step : ~0ull;
    if (g.next_switch <= g.steps) g.next_switch = g.steps + 1;
  } else {
    if (n > 1) {
      if (g.strategy == 1) {
        if (g.ichange < g.nchange && g.steps >= g.change_pts[g.ichange]) {
          g.ichange++;
          me->prio = g.low_prio--;
        }
        int best = -1000000;
        for (int i = 0; i < n; ++i) if (thr[rn[i]].prio > best) best = thr[rn[i]].prio, to = rn[i];
      } else if (g.strategy == 4) {
        for (int i = 0; i < n; ++i) if (rn[i] == me->tid) to = rn[(i + 1) % n];
      } else {
        do to = rn[srng.below(n)]; while (to == me->tid);
      }
    }
    new_gap();
  }
  if (to != me->tid) {
    record(to, false);
    hand_to(to);
  }
}

// called before every instrumented access / sync operation in a concurrent phase
inline void yield_point(bool hot) {
  if (g.steps >= g.next_switch) {
    preempt();
    return;
  }
  if (hot && !g.spec->expl_sched && (g.strategy == 2 || g.strategy == 0)) {
    double p = g.strategy == 2 ? g.hot_p : 0.05;
    if (srng.unit() < p) preempt();
  }
}

// ------------------------------------------------------------------------------------------ sync table
struct Sync {
  uptr key;
  u32 vc[T];
  int owner;     // tid+1
  int count;
  int readers;
  int state;     // for guards / once: 0 new, 1 running, 2 done
};
const int NSYNC = 1 << 14;
Sync syncs[NSYNC];
u16 sync_used[NSYNC];
int nsync_used;

Sync *get_sync(uptr key, bool create = true) {
  u32 h = (u32) ((key >> 2) * 2654435761u) & (NSYNC - 1);
  for (int i = 0; i < NSYNC; ++i) {
    Sync &s = syncs[(h + i) & (NSYNC - 1)];
    if (s.key == key) return &s;
    if (!s.key) {
      if (!create) return nullptr;
      s.key = key;
      if (nsync_used < NSYNC) sync_used[nsync_used++] = (u16) ((h + i) & (NSYNC - 1));
      return &s;
    }
  }
  herr("sim", "sync table full");
}
void forget_sync(uptr lo, uptr hi) {
  for (int i = 0; i < nsync_used; ++i) {
    Sync &s = syncs[sync_used[i]];
    if (s.key >= lo && s.key < hi) {
      uptr k = s.key;
      memset(&s, 0, sizeof s);
      s.key = k;
    }
  }
}
inline void vjoin(u32 *a, const u32 *b) {
  for (int i = 0; i < T; ++i) if (b[i] > a[i]) a[i] = b[i];
}
inline void acquire(Thread *t, Sync *s) { vjoin(t->vc, s->vc); }
inline void release(Thread *t, Sync *s) {
  vjoin(s->vc, t->vc);
  t->vc[t->tid]++;
}
inline void release_set(Thread *t, Sync *s) {
  memcpy(s->vc, t->vc, sizeof s->vc);
  t->vc[t->tid]++;
}

void block_on(uptr key) {
  Thread *t = cur;
  t->state = BLOCKED;
  t->block_on = key;
  leave();
}
void wake(uptr key) {
  for (int i = 0; i < g.nthreads; ++i)
    if (thr[i].state == BLOCKED && thr[i].block_on == key) thr[i].state = RUNNABLE;
}

// ------------------------------------------------------------------------------------------ memory
uptr gbeg, gend;

inline uptr norm(uptr a) {
  if (a - ARENA < ARENA_SIZE) return a - ARENA + (1ull << 40);
  if (a - gbeg < gend - gbeg) return a;
  return 7;
}
inline Cell *cell(uptr a) {
  if (a - ARENA < ARENA_SIZE) return (Cell *) SHADOW + ((a - ARENA) >> 3);
  if (a - gbeg < gend - gbeg) return (Cell *) GSHADOW + ((a - gbeg) >> 3);
  return nullptr;
}

[[noreturn]] void bad_access(uptr a, unsigned sz, bool wr, uptr pc) {
  u8 c = ((u8 *) ADDRSH)[(a - ARENA) >> 3];
  const char *k = c == 0xFF ? "freed memory" : "memory outside any live block";
  viol("memory", "thread T%d %s %u byte(s) of %s [pc=0x%lx]", cur->tid, wr ? "writes" : "reads", sz, k,
       (unsigned long) pc);
}

inline void addr_check(uptr a, unsigned sz, bool wr, uptr pc) {
  if (a - ARENA >= HEAP_SIZE) return;
  u8 *s = (u8 *) ADDRSH + ((a - ARENA) >> 3);
  unsigned off = a & 7;
  unsigned left = sz;
  while (left) {
    unsigned n = 8 - off < left ? 8 - off : left;
    u8 v = *s;
    if (v > 8 || off + n > v) bad_access(a, sz, wr, pc);
    left -= n;
    off = 0;
    ++s;
  }
}

[[noreturn]] void race(uptr a, unsigned sz, bool wr, const char *other, int ot, u32 opc, uptr pc) {
  const char *where = a - ARENA < HEAP_SIZE ? "heap" : a - ARENA < ARENA_SIZE ? "stack" : "global";
  viol("race", "data race on %s memory: T%d %s %u byte(s) [pc=0x%lx] unordered with an earlier %s by T%d [pc=0x%x]",
       where, cur->tid, wr ? "writes" : "reads", sz, (unsigned long) pc, other, ot, opc);
}

inline void race_granule(Thread *t, Cell *c, u8 mask, bool wr, uptr a, unsigned sz, uptr pc) {
  int id = t->tid;
  if (c->we && c->wt != id && (c->wm & mask) && c->we > t->vc[c->wt]) race(a, sz, wr, "write", c->wt, c->wpc, pc);
  if (wr) {
    for (int i = 0; i < g.nthreads; ++i)
      if (i != id && c->re[i] && (c->rm[i] & mask)) {
        if (c->re[i] > t->vc[i]) race(a, sz, wr, "read", i, 0, pc);
      }
    if (!c->hot) {
      if (c->we && c->wt != id) c->hot = 1;
      else for (int i = 0; i < g.nthreads; ++i) if (i != id && c->re[i]) c->hot = 1;
    }
    c->we = t->vc[id];
    c->wt = id;
    c->wm = mask;
    c->wpc = (u32) pc;
  } else {
    if (c->we && c->wt != id) c->hot = 1;
    c->re[id] = t->vc[id];
    c->rm[id] = mask;
  }
}

void access_slow(Thread *t, uptr a, unsigned sz, bool wr, uptr pc) {
  Cell *c = cell(a);
  bool hot = c && c->hot;
  yield_point(hot);
  if (!c) return;
  unsigned off = a & 7;
  unsigned left = sz;
  while (left) {
    unsigned n = 8 - off < left ? 8 - off : left;
    u8 mask = (u8) (((1u << n) - 1) << off);
    race_granule(t, c, mask, wr, a, sz, pc);
    left -= n;
    off = 0;
    ++c;
  }
}

[[noreturn]] void step_cap_hit() {
  viol("progress", "the run did not finish within %llu simulated steps", (unsigned long long) g.step_cap);
}

inline __attribute__((always_inline)) void access(uptr a, unsigned sz, bool wr, uptr pc) {
  if (!g.on) return;
  Thread *t = cur;
  if (!t || t->ignore) return;
  g.steps++;
  hmix(norm(a) * 4 + wr + ((u64) sz << 50) + ((u64) t->tid << 58));
  if (g.steps > g.step_cap) step_cap_hit();
  if (g.concurrent) access_slow(t, a, sz, wr, pc);
  addr_check(a, sz, wr, pc);
}

// ------------------------------------------------------------------------------------------ allocator
struct Hdr {
  u64 magic;
  u64 size;
  u64 total;
  Hdr *next;  // free list
};
const u64 LIVE = 0xA110CA7EDB10C5ull, DEAD = 0xDEADB10CDEADull;
uptr heap_top = 0;
long live_b = 0, live_n = 0;
const int NCLS = 64;
Hdr *freelist[NCLS];
bool arena_ready = false;

void arena_init() {
  if (arena_ready) return;
  arena_ready = true;
  void *p = mmap((void *) ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void *q = mmap((void *) SHADOW, ARENA_SIZE / 8 * sizeof(Cell), PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  gbeg = (uptr) __data_start & ~7ull;
  gend = ((uptr) _end + 7) & ~7ull;
  void *r = mmap((void *) GSHADOW, ((gend - gbeg) / 8 + 16) * sizeof(Cell), PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void *s = mmap((void *) ADDRSH, HEAP_SIZE / 8 + 16, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED || q == MAP_FAILED || r == MAP_FAILED || s == MAP_FAILED) {
    fprintf(stderr, "sim: cannot map the arena: %s\n", strerror(errno));
    _exit(3);
  }
  heap_top = ARENA + 64;
  for (int i = 0; i < T; ++i) mprotect((void *) (STACKS + i * STACK_SIZE), 4096, PROT_NONE);
  gbeg = (uptr) __data_start & ~7ull;
}

int cls_of(u64 total) {
  u64 c = total >> 5;
  if (c < 32) return (int) c;
  int k = 32;
  c >>= 5;
  while (c > 1 && k < NCLS - 1) c >>= 1, ++k;
  return k;
}

void mark(uptr p, u64 size) {
  u8 *s = (u8 *) ADDRSH + ((p - ARENA) >> 3);
  u64 i = 0;
  for (; i + 8 <= size; i += 8) *s++ = 8;
  if (i < size) *s = (u8) (size - i);
}

bool inject_alloc() {
  if (cur && cur->ignore) return false;
  if (!g.on) return false;
  Thread *t = cur;
  if (!t || !t->armed) return false;
  t->allocs++;
  sh->r.allocs++;
  if (!t->plan || t->plan->kind != sim::F_ALLOC) return false;
  long k = t->counter++;
  if (k == t->plan->at || (t->plan->persist && k > t->plan->at)) {
    t->plan_fired = true;
    t->fired_kind = sim::F_ALLOC;
    t->plan->fired++;
    sh->r.fired[sim::F_ALLOC]++;
    hmix(0xfa117);
    return true;
  }
  return false;
}

void *raw_alloc(u64 size, u64 align) {
  arena_init();
  if (align < 16) align = 16;
  if (size > HEAP_SIZE / 2) return nullptr;
  u64 total = (size + 15) & ~15ull;
  if (g.on && g.reuse && align == 16) {
    int c = cls_of(total);
    Hdr **pp = &freelist[c];
    int tries = 0;
    while (*pp && tries++ < 8) {
      if ((*pp)->total == total) {
        Hdr *h = *pp;
        *pp = h->next;
        h->magic = LIVE;
        h->size = size;
        h->next = nullptr;
        uptr p = (uptr) (h + 1);
        memset((u8 *) ADDRSH + ((p - ARENA) >> 3), 0, total >> 3);
        mark(p, size);
        if (g.concurrent) memset((Cell *) SHADOW + ((p - ARENA) >> 3), 0, (total >> 3) * sizeof(Cell));
        live_n++;
        live_b += size;
        return (void *) p;
      }
      pp = &(*pp)->next;
    }
  }
  uptr p = heap_top + sizeof(Hdr) + 16;
  p = (p + align - 1) & ~(align - 1);
  if (p + total + 64 > ARENA + HEAP_SIZE) {
    if (g.on) herr("sim", "simulated heap exhausted");
    return nullptr;
  }
  heap_top = p + total + 16;
  Hdr *h = (Hdr *) p - 1;
  h->magic = LIVE;
  h->size = size;
  h->total = total;
  h->next = nullptr;
  mark(p, size);
  live_n++;
  live_b += size;
  return (void *) p;
}

void *sim_alloc(u64 size, u64 align) {
  if (inject_alloc()) return nullptr;
  void *p = raw_alloc(size, align);
  if (p && g.on && size) {
    hmix(0xa110c + size);
    switch (g.poison) {
      case 0: memset(p, 0, size); break;
      case 1: memset(p, 0xFF, size); break;          // NaN / -1
      case 2: memset(p, 0x43, size); break;          // plausible doubles ~ 1e16
      default: memset(p, 0xC7, size); break;
    }
  }
  return p;
}

bool in_heap(void *p) { return (uptr) p - ARENA < HEAP_SIZE; }

enum Family { FAM_NONE = 0, FAM_NEW = 1, FAM_ARRAY = 2, FAM_MALLOC = 3 };
void *tag(void *p, Family f) {
  if (p) ((Hdr *) p - 1)->next = (Hdr *) (uptr) f;
  return p;
}
// how: the way the caller releases the block; size: the size it claims (-1: none claimed)
void sim_free(void *p, uptr pc, Family how = FAM_NONE, long size = -1) {
  if (!p) return;
  Hdr *h = (Hdr *) p - 1;
  if (((uptr) p & 15) || h->magic != LIVE) {
    if (g.on) viol("memory", "thread T%d frees %s [pc=0x%lx]", cur ? cur->tid : -1,
                   h->magic == DEAD ? "an already freed block" : "something that is not a live block", (unsigned long) pc);
    return;
  }
  static const char *const fam[] = {"", "operator new", "operator new[]", "malloc"};
  uptr was = (uptr) h->next;
  if (g.on && how != FAM_NONE && was >= 1 && was <= 3 && was != (uptr) how)
    viol("memory", "thread T%d releases a block of %s as if it came from %s [pc=0x%lx]", cur ? cur->tid : -1, fam[was], fam[how], (unsigned long) pc);
  if (g.on && size >= 0 && (u64) size != h->size)
    viol("memory", "thread T%d releases a block of %lu bytes as one of %ld bytes (an object deleted through a base class without virtual destructor?) [pc=0x%lx]",
         cur ? cur->tid : -1, (unsigned long) h->size, size, (unsigned long) pc);
  if (g.on) hmix(0xf4ee);
  if (g.on && g.concurrent && cur && !cur->ignore) {
    Cell *c = cell((uptr) p);
    for (u64 i = 0; i < h->size; i += 8, ++c)
      race_granule(cur, c, h->size - i >= 8 ? 0xFF : (u8) ((1u << (h->size - i)) - 1), true, (uptr) p + i, 8, pc);
  }
  h->magic = DEAD;
  memset((u8 *) ADDRSH + (((uptr) p - ARENA) >> 3), 0xFF, h->total >> 3);
  if (g.on && nsync_used) forget_sync((uptr) p, (uptr) p + h->total);
  live_n--;
  live_b -= h->size;
  if (g.on) {
    // scribble so that a stale pointer read outside instrumented code is visible too
    memset(p, 0xDD, h->size < 256 ? h->size : 256);
    if (g.reuse) {
      int c = cls_of(h->total);
      h->next = freelist[c];
      freelist[c] = h;
    }
  }
}

}  // namespace

#define PC ((uptr) __builtin_return_address(0))

// ------------------------------------------------------------------------------------------ operator new
namespace {
void *must(void *p, Family f) {
  if (!p) throw std::bad_alloc();
  return tag(p, f);
}
}  // namespace
void *operator new(size_t n) { return must(sim_alloc(n, 16), FAM_NEW); }
void *operator new[](size_t n) { return must(sim_alloc(n, 16), FAM_ARRAY); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return tag(sim_alloc(n, 16), FAM_NEW); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return tag(sim_alloc(n, 16), FAM_ARRAY); }
void *operator new(size_t n, std::align_val_t a) { return must(sim_alloc(n, (size_t) a), FAM_NEW); }
void *operator new[](size_t n, std::align_val_t a) { return must(sim_alloc(n, (size_t) a), FAM_ARRAY); }
void operator delete(void *p) noexcept { sim_free(p, PC, FAM_NEW); }
void operator delete[](void *p) noexcept { sim_free(p, PC, FAM_ARRAY); }
void operator delete(void *p, size_t n) noexcept { sim_free(p, PC, FAM_NEW, (long) n); }
void operator delete[](void *p, size_t n) noexcept { sim_free(p, PC, FAM_ARRAY, (long) n); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim_free(p, PC, FAM_NEW); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim_free(p, PC, FAM_ARRAY); }
void operator delete(void *p, std::align_val_t) noexcept { sim_free(p, PC, FAM_NEW); }
void operator delete[](void *p, std::align_val_t) noexcept { sim_free(p, PC, FAM_ARRAY); }
void operator delete(void *p, size_t n, std::align_val_t) noexcept { sim_free(p, PC, FAM_NEW, (long) n); }
void operator delete[](void *p, size_t n, std::align_val_t) noexcept { sim_free(p, PC, FAM_ARRAY, (long) n); }

extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);

void *__wrap_malloc(size_t n) {
  void *p = tag(sim_alloc(n, 16), FAM_MALLOC);
  if (!p) errno = ENOMEM;
  return p;
}
void __wrap_free(void *p) {
  if (!p) return;
  if (in_heap(p)) sim_free(p, PC, FAM_MALLOC);
  else __real_free(p);
}
void *__wrap_calloc(size_t a, size_t b) {
  if (b && a > (size_t) -1 / b) return nullptr;
  void *p = tag(sim_alloc(a * b, 16), FAM_MALLOC);
  if (p) memset(p, 0, a * b); else errno = ENOMEM;
  return p;
}
void *__wrap_realloc(void *p, size_t n) {
  if (!p) return __wrap_malloc(n);
  if (!in_heap(p)) return __real_realloc(p, n);
  void *q = tag(sim_alloc(n, 16), FAM_MALLOC);
  if (!q) {
    errno = ENOMEM;
    return nullptr;
  }
  Hdr *h = (Hdr *) p - 1;
  memcpy(q, p, h->size < n ? h->size : n);
  sim_free(p, PC, FAM_MALLOC);
  return q;
}
void *__wrap_aligned_alloc(size_t a, size_t n) { return tag(sim_alloc(n, a), FAM_MALLOC); }
void *__wrap_memalign(size_t a, size_t n) { return tag(sim_alloc(n, a), FAM_MALLOC); }
int __wrap_posix_memalign(void **out, size_t a, size_t n) {
  void *p = tag(sim_alloc(n, a), FAM_MALLOC);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}

// ------------------------------------------------------------------------------------------ tsan ABI
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *a) { access((uptr) a, n, false, PC); } \
  void __tsan_write##n(void *a) { access((uptr) a, n, true, PC); } \
  void __tsan_read_write##n(void *a) { access((uptr) a, n, true, PC); } \
  void __tsan_unaligned_read##n(void *a) { access((uptr) a, n, false, PC); } \
  void __tsan_unaligned_write##n(void *a) { access((uptr) a, n, true, PC); } \
  void __tsan_unaligned_read_write##n(void *a) { access((uptr) a, n, true, PC); } \
  void __tsan_volatile_read##n(void *a) { access((uptr) a, n, false, PC); } \
  void __tsan_volatile_write##n(void *a) { access((uptr) a, n, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void *a, size_t n) { if (n) access((uptr) a, (unsigned) n, false, PC); }
void __tsan_write_range(void *a, size_t n) { if (n) access((uptr) a, (unsigned) n, true, PC); }
void __tsan_vptr_read(void **a) { access((uptr) a, 8, false, PC); }
// memory outside the simulation (exception objects come from libstdc++'s own malloc) may hold anything before
void __tsan_vptr_update(void **a, void *nv) { access((uptr) a, 8, norm((uptr) a) != 7 && *a != nv, PC); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  if (n) {
    access((uptr) s, (unsigned) n, false, PC);
    access((uptr) d, (unsigned) n, true, PC);
  }
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  if (n) {
    access((uptr) s, (unsigned) n, false, PC);
    access((uptr) d, (unsigned) n, true, PC);
  }
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  if (n) access((uptr) d, (unsigned) n, true, PC);
  return memset(d, c, n);
}
int __real_memcmp(const void *, const void *, size_t);
int __wrap_memcmp(const void *a, const void *b, size_t n) {
  if (n) {
    access((uptr) a, (unsigned) n, false, PC);
    access((uptr) b, (unsigned) n, false, PC);
  }
  return __real_memcmp(a, b, n);
}
int __wrap_bcmp(const void *a, const void *b, size_t n) {
  if (n) {
    access((uptr) a, (unsigned) n, false, PC);
    access((uptr) b, (unsigned) n, false, PC);
  }
  return __real_memcmp(a, b, n);
}
}

// atomics
namespace {
void atomic_pre(uptr a) {
  if (!g.on || !cur || cur->ignore) return;
  g.steps++;
  hmix(norm(a) * 8 + 5 + ((u64) cur->tid << 58));
  if (g.steps > g.step_cap) step_cap_hit();
  if (g.concurrent) yield_point(true);
}
void atomic_hb(uptr a, bool rd, bool wr, int mo, unsigned sz, uptr pc) {
  if (!g.on || !cur || cur->ignore) return;
  addr_check(a, sz, wr, pc);
  Thread *t = cur;
  if (!g.concurrent) return;
  Sync *s = get_sync(a);
  if (rd) {
    if (mo == 1 || mo == 2 || mo == 4 || mo == 5) vjoin(t->vc, s->vc);
    vjoin(t->acq_pending, s->vc);
  }
  if (wr) {
    bool rel = mo == 3 || mo == 4 || mo == 5;
    if (rel) {
      if (rd) vjoin(s->vc, t->vc); else memcpy(s->vc, t->vc, sizeof s->vc);
      t->vc[t->tid]++;
    } else {
      if (rd) vjoin(s->vc, t->fence_rel); else memcpy(s->vc, t->fence_rel, sizeof s->vc);
    }
  }
}
void fence(int mo) {
  if (!g.on || !cur) return;
  Thread *t = cur;
  if (mo == 1 || mo == 2 || mo == 4 || mo == 5) vjoin(t->vc, t->acq_pending);
  if (mo == 3 || mo == 4 || mo == 5) {
    memcpy(t->fence_rel, t->vc, sizeof t->fence_rel);
    t->vc[t->tid]++;
  }
}
}
typedef __int128 a128;
#define ATOM(n, ty) \
  extern "C" ty __tsan_atomic##n##_load(const volatile ty *a, int mo) { \
    atomic_pre((uptr) a); ty v = *a; atomic_hb((uptr) a, true, false, mo, sizeof(ty), PC); return v; } \
  extern "C" void __tsan_atomic##n##_store(volatile ty *a, ty v, int mo) { \
    atomic_pre((uptr) a); *a = v; atomic_hb((uptr) a, false, true, mo, sizeof(ty), PC); } \
  extern "C" ty __tsan_atomic##n##_exchange(volatile ty *a, ty v, int mo) { \
    atomic_pre((uptr) a); ty o = *a; *a = v; atomic_hb((uptr) a, true, true, mo, sizeof(ty), PC); return o; } \
  extern "C" ty __tsan_atomic##n##_fetch_add(volatile ty *a, ty v, int mo) { \
    atomic_pre((uptr) a); ty o = *a; *a = o + v; atomic_hb((uptr) a, true, true, mo, sizeof(ty), PC); return o; } \
  extern "C" ty __tsan_atomic##n##_fetch_sub(volatile ty *a, ty v, int mo) { \
    atomic_pre((uptr) a); ty o = *a; *a = o - v; atomic_hb((uptr) a, true, true, mo, sizeof(ty), PC); return o; } \
  extern "C" ty __tsan_atomic##n##_fetch_and(volatile ty *a, ty v, int mo) { \
    atomic_pre((uptr) a); ty o = *a; *a = o & v; atomic_hb((uptr) a, true, true, mo, sizeof(ty), PC); return o; } \
  extern "C" ty __tsan_atomic##n##_fetch_or(volatile ty *a, ty v, int mo) { \
    atomic_pre((uptr) a); ty o = *a; *a = o | v; atomic_hb((uptr) a, true, true, mo, sizeof(ty), PC); return o; } \
  extern "C" ty __tsan_atomic##n##_fetch_xor(volatile ty *a, ty v, int mo) { \
    atomic_pre((uptr) a); ty o = *a; *a = o ^ v; atomic_hb((uptr) a, true, true, mo, sizeof(ty), PC); return o; } \
  extern "C" ty __tsan_atomic##n##_fetch_nand(volatile ty *a, ty v, int mo) { \
    atomic_pre((uptr) a); ty o = *a; *a = ~(o & v); atomic_hb((uptr) a, true, true, mo, sizeof(ty), PC); return o; } \
  extern "C" int __tsan_atomic##n##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int mo, int fmo) { \
    atomic_pre((uptr) a); ty o = *a; if (o == *c) { *a = v; atomic_hb((uptr) a, true, true, mo, sizeof(ty), PC); return 1; } \
    *c = o; atomic_hb((uptr) a, true, false, fmo, sizeof(ty), PC); return 0; } \
  extern "C" int __tsan_atomic##n##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int mo, int fmo) { \
    return __tsan_atomic##n##_compare_exchange_strong(a, c, v, mo, fmo); } \
  extern "C" ty __tsan_atomic##n##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int fmo) { \
    atomic_pre((uptr) a); ty o = *a; if (o == c) { *a = v; atomic_hb((uptr) a, true, true, mo, sizeof(ty), PC); return o; } \
    atomic_hb((uptr) a, true, false, fmo, sizeof(ty), PC); return o; }
ATOM(8, u8)
ATOM(16, u16)
ATOM(32, u32)
ATOM(64, u64)
extern "C" void __tsan_atomic_thread_fence(int mo) { fence(mo); }
extern "C" void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------------------------------ sync primitives
namespace {
bool simd() { return g.on && cur && !cur->ignore; }
void sync_yield(uptr a) {
  g.steps++;
  hmix(norm(a) * 8 + 6 + ((u64) cur->tid << 58));
  if (g.steps > g.step_cap) step_cap_hit();
  if (g.concurrent) yield_point(true);
}
void lock_x(uptr k, bool recursive) {
  sync_yield(k);
  Sync *s = get_sync(k);
  for (;;) {
    if (!s->owner && !s->readers) break;
    if (s->owner == cur->tid + 1 && recursive) {
      s->count++;
      return;
    }
    block_on(k);
  }
  s->owner = cur->tid + 1;
  s->count = 1;
  acquire(cur, s);
}
bool try_x(uptr k, bool recursive) {
  sync_yield(k);
  Sync *s = get_sync(k);
  if (s->owner == cur->tid + 1 && recursive) {
    s->count++;
    return true;
  }
  if (s->owner || s->readers) return false;
  s->owner = cur->tid + 1;
  s->count = 1;
  acquire(cur, s);
  return true;
}
void unlock_any(uptr k) {
  sync_yield(k);
  Sync *s = get_sync(k);
  if (s->owner == cur->tid + 1) {
    if (--s->count > 0) return;
    s->owner = 0;
  } else if (s->readers > 0)
    s->readers--;
  release(cur, s);
  wake(k);
}
void lock_r(uptr k) {
  sync_yield(k);
  Sync *s = get_sync(k);
  while (s->owner) block_on(k);
  s->readers++;
  acquire(cur, s);
}
bool is_recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __real_pthread_once(pthread_once_t *, void (*)());
int __real___cxa_guard_acquire(u64 *);
void __real___cxa_guard_release(u64 *);
void __real___cxa_guard_abort(u64 *);

int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!simd()) return __real_pthread_mutex_lock(m);
  lock_x((uptr) m, is_recursive(m));
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!simd()) return __real_pthread_mutex_trylock(m);
  return try_x((uptr) m, is_recursive(m)) ? 0 : EBUSY;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!simd()) return __real_pthread_mutex_unlock(m);
  unlock_any((uptr) m);
  return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (!simd()) return __real_pthread_rwlock_rdlock(m);
  lock_r((uptr) m);
  return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  if (!simd()) return __real_pthread_rwlock_wrlock(m);
  lock_x((uptr) m, false);
  return 0;
}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) {
  if (!simd()) return __real_pthread_rwlock_tryrdlock(m);
  sync_yield((uptr) m);
  Sync *s = get_sync((uptr) m);
  if (s->owner) return EBUSY;
  s->readers++;
  acquire(cur, s);
  return 0;
}
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m) {
  if (!simd()) return __real_pthread_rwlock_trywrlock(m);
  return try_x((uptr) m, false) ? 0 : EBUSY;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) {
  if (!simd()) return __real_pthread_rwlock_unlock(m);
  unlock_any((uptr) m);
  return 0;
}
int __wrap_pthread_once(pthread_once_t *o, void (*f)()) {
  if (!simd()) return __real_pthread_once(o, f);
  uptr k = (uptr) o;
  sync_yield(k);
  Sync *s = get_sync(k);
  if (*(int *) o == 2 && s->state == 0) return 0;   // done by the real one before the run
  for (;;) {
    if (s->state == 2) {
      acquire(cur, s);
      return 0;
    }
    if (s->state == 0) break;
    block_on(k);
  }
  s->state = 1;
  try {
    f();
  } catch (...) {
    s->state = 0;
    wake(k);
    throw;
  }
  s->state = 2;
  release(cur, s);
  wake(k);
  return 0;
}
int __wrap___cxa_guard_acquire(u64 *gd) {
  if (!simd()) return __real___cxa_guard_acquire(gd);
  uptr k = (uptr) gd;
  if (*(volatile u8 *) gd) return 0;
  sync_yield(k);
  Sync *s = get_sync(k);
  for (;;) {
    if (*(volatile u8 *) gd) {
      acquire(cur, s);
      return 0;
    }
    if (s->state == 0) break;
    if (s->owner == cur->tid + 1) viol("deadlock", "recursive initialisation of a function-local static");
    block_on(k);
  }
  s->state = 1;
  s->owner = cur->tid + 1;
  return 1;
}
void __wrap___cxa_guard_release(u64 *gd) {
  if (!simd()) return __real___cxa_guard_release(gd);
  uptr k = (uptr) gd;
  Sync *s = get_sync(k);
  *(volatile u8 *) gd = 1;
  s->state = 2;
  s->owner = 0;
  release(cur, s);
  wake(k);
}
void __wrap___cxa_guard_abort(u64 *gd) {
  if (!simd()) return __real___cxa_guard_abort(gd);
  Sync *s = get_sync((uptr) gd);
  s->state = 0;
  s->owner = 0;
  wake((uptr) gd);
}
int __wrap_sched_yield() {
  if (simd() && g.concurrent) sync_yield(0x77);
  return 0;
}
}

// ------------------------------------------------------------------------------------------ threads
namespace {
typedef int (*create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
typedef int (*join_t)(pthread_t, void **);
create_t real_create;
join_t real_join;

void thread_exit_sim(Thread *t) {
  t->state = DONE;
  t->vc[t->tid]++;
  g.live--;
  wake((uptr) t);
  if (g.live > 0) {
    leave();
  }
}

pthread_key_t exit_key;
// runs after the destructors of the thread's thread_local objects: those still run under the scheduler
void on_thread_end(void *p) {
  thread_exit_sim((Thread *) p);
  cur = nullptr;
}

void *trampoline(void *p) {
  Thread *t = (Thread *) p;
  stack_t ss;
  ss.ss_sp = t->altstack;
  ss.ss_size = sizeof t->altstack;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  fwait(t->go);
  cur = t;
  if (t->fn) (*t->fn)();
  else t->ret = t->start(t->arg);
  pthread_setspecific(exit_key, t);
  return t->ret;
}

Thread *new_thread() {
  if (g.nthreads >= T) return nullptr;
  Thread *t = &thr[g.nthreads];
  t->tid = g.nthreads++;
  t->state = RUNNABLE;
  memset(t->vc, 0, sizeof t->vc);
  if (cur) {
    memcpy(t->vc, cur->vc, sizeof t->vc);
    cur->vc[cur->tid]++;
  }
  t->vc[t->tid]++;
  t->prio = (int) srng.below(1000) + 1;
  t->fn = nullptr;
  g.live++;
  if (g.nthreads > sh->r.threads_max) sh->r.threads_max = g.nthreads;
  return t;
}

int start_thread(Thread *t) {
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, (void *) (STACKS + t->tid * STACK_SIZE + 4096), STACK_SIZE - 4096);
  int e = real_create(&t->pt, &at, trampoline, t);
  pthread_attr_destroy(&at);
  t->has_pt = true;
  return e;
}
}  // namespace

extern "C" int pthread_create(pthread_t *out, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
  if (!real_create) real_create = (create_t) dlsym(RTLD_NEXT, "pthread_create");
  if (!g.on || !cur) return real_create(out, a, f, arg);
  Thread *t = new_thread();
  if (!t) return EAGAIN;
  t->start = f;
  t->arg = arg;
  int e = start_thread(t);
  if (e) herr("sim", "pthread_create failed: %d", e);
  *out = t->pt;
  g.concurrent = true;
  if (!g.spec->expl_sched) new_gap();
  sync_yield((uptr) t);
  return 0;
}
extern "C" int pthread_join(pthread_t p, void **ret) {
  if (!real_join) real_join = (join_t) dlsym(RTLD_NEXT, "pthread_join");
  if (!g.on || !cur) return real_join(p, ret);
  for (int i = 1; i < g.nthreads; ++i)
    if (thr[i].has_pt && pthread_equal(thr[i].pt, p)) {
      while (thr[i].state != DONE) block_on((uptr) &thr[i]);
      vjoin(cur->vc, thr[i].vc);
      real_join(p, ret);
      thr[i].has_pt = false;
      g.concurrent = g.live > 1;
      return 0;
    }
  return real_join(p, ret);
}

// ------------------------------------------------------------------------------------------ exit & co
extern "C" {
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int status) __attribute__((noreturn));
void __wrap_exit(int status) {
  if (!g.on) __real_exit(status);
  hmix(0xe417 + status);
  if (exit_expected && !in_violation && (!cur || cur->tid == exit_tid)) {
    in_violation = 1;
    if (cur) cur->armed = 0;
    if (exit_handler && *exit_handler) (*exit_handler)(status);
    in_violation = 0;
    sim::probe("process ended by the library");
    end_run(1);
  }
  viol("exit", "the library ended the process with status %d [pc=0x%lx]", status, (unsigned long) PC);
}
#undef _exit
void __wrap__exit(int status) __attribute__((noreturn));
void __wrap__exit(int status) { __wrap_exit(status); }
#define _exit(s) sys_exit(s)
void __wrap__Exit(int status) __attribute__((noreturn));
void __wrap__Exit(int status) { __wrap_exit(status); }
void __wrap_quick_exit(int status) __attribute__((noreturn));
void __wrap_quick_exit(int status) { __wrap_exit(status); }
void __wrap_abort() __attribute__((noreturn));
void __wrap_abort() {
  if (!g.on) _exit(134);
  viol("abort", "the library aborted the process [pc=0x%lx]", (unsigned long) PC);
}
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *) __attribute__((noreturn));
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *) {
  if (!g.on) _exit(134);
  if (assert_expected && exit_expected) __wrap_exit(134);
  const char *b = strrchr(f, '/');
  viol("assert", "assertion failed in %s:%u: %.200s", b ? b + 1 : f, l, e);
}
// randomness
static u64 rand_state = 1;
static int rand_mode_ = 0;
static u64 rand_n = 0;
static sim::Rng rand_rng(1);
int __wrap_rand() {
  if (!g.on) return 0;
  rand_n++;
  sh->r.fired[sim::F_RAND]++;
  u64 v = rand_rng.next() >> 33;
  hmix(0x4a4d);
  switch (rand_mode_) {
    case 1: return 0;
    case 2: return RAND_MAX;
    case 3: {
      u64 k = rand_rng.next() & 3;
      return k == 0 ? 0 : k == 1 ? RAND_MAX : (int) (v & 0x7fffffff);
    }
    case 4: return RAND_MAX / 2;
    default: return (int) (v & 0x7fffffff);
  }
}
void __wrap_srand(unsigned s) { rand_rng = sim::Rng(s * 7919ull + 17); }
long __wrap_random() { return __wrap_rand(); }

// clocks and entropy: a simulated clock that starts at a seeded time and jumps forward (now and then backward) by
// seeded amounts at every reading; entropy sources return a seeded stream of their own
static u64 clock_n = 0, entropy_n = 0;
static double clock_now = 0;
static sim::Rng clock_rng(1), entropy_rng(2);
static double sim_clock() {
  clock_n++;
  if (clock_n == 1) clock_now = 1.5e9 + clock_rng.unit() * 1e8;
  if (clock_rng.chance(0.05)) clock_now -= clock_rng.real(0, 5);
  else clock_now += clock_rng.chance(0.2) ? clock_rng.real(0, 3600) : clock_rng.real(1e-6, 1e-3);
  return clock_now;
}
int __real_clock_gettime(int, struct timespec *);
long __wrap_time(long *t) {
  long v = (long) sim_clock();
  if (t) *t = v;
  return v;
}
long __wrap_clock() { return (long) (sim_clock() * 1e3); }
int __wrap_clock_gettime(int id, struct timespec *ts) {
  if (!g.on) return __real_clock_gettime(id, ts);
  double v = sim_clock();
  ts->tv_sec = (long) v;
  ts->tv_nsec = (long) ((v - (double) (long) v) * 1e9);
  return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *) {
  double v = sim_clock();
  tv->tv_sec = (long) v;
  tv->tv_usec = (long) ((v - (double) (long) v) * 1e6);
  return 0;
}
long __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return (long) (sim_clock() * 1e9); }
long __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return (long) (sim_clock() * 1e9); }
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void *) {
  entropy_n++;
  return (unsigned) entropy_rng.next();
}
long __wrap_getrandom(void *p, size_t n, unsigned) {
  entropy_n++;
  for (size_t i = 0; i < n; ++i) ((u8 *) p)[i] = (u8) entropy_rng.next();
  return (long) n;
}
int __wrap_getentropy(void *p, size_t n) {
  __wrap_getrandom(p, n, 0);
  return 0;
}
void __wrap_srandom(unsigned s) { __wrap_srand(s); }
}

namespace {
void on_signal(int sig) {
  if (!sh || !g.on) _exit(128 + sig);
  const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : sig == SIGXCPU ? "SIGXCPU" : "signal";
  if (sig == SIGXCPU) viol("progress", "the run did not finish within its CPU budget");
  if (sh->r.status == 0) viol("crash", "thread T%d died of %s", cur ? cur->tid : -1, n);
  _exit(0);
}
void on_terminate() {
  if (g.on) {
    const char *w = "unknown";
    try {
      if (std::current_exception()) std::rethrow_exception(std::current_exception());
    } catch (const std::exception &e) {
      w = e.what();
      viol("terminate", "uncaught exception or noexcept breach: %s", w);
    } catch (...) {
    }
    viol("terminate", "uncaught exception or noexcept breach");
  }
  _exit(134);
}
}  // namespace

// ------------------------------------------------------------------------------------------ public API
namespace sim {
u64 mix(u64 a, u64 b) {
  u64 z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
u64 run_seed() { return g.spec->seed; }
Rng &work() { return wrng; }
Rng op_rng(int op) { return Rng(mix(g.spec->seed, 0x10000 + (u64) op)); }
bool op_enabled(int op) {
  Result &r = sh->r;
  bool seen = false;
  for (int i = 0; i < r.nops; ++i) if (r.ops[i] == op) seen = true;
  if (!seen && r.nops < MAXOPS) r.ops[r.nops++] = op;
  for (int i = 0; i < g.spec->ndis; ++i) if (g.spec->dis[i] == op) return false;
  return true;
}
void log(const char *fmt, ...) {
  Result &r = sh->r;
  if (r.loglen > LOGSZ - 512) return;
  int n = snprintf(r.log + r.loglen, 32, "[T%d] ", cur ? cur->tid : -1);
  r.loglen += n;
  va_list ap;
  va_start(ap, fmt);
  n = vsnprintf(r.log + r.loglen, 400, fmt, ap);
  va_end(ap);
  if (n > 399) n = 399;
  r.loglen += n;
  r.log[r.loglen++] = '\n';
}
void probe(const char *name) {
  for (int i = 0; i < MAXPROBE; ++i) {
    Probe &p = sh->probes[i];
    if (!p.name[0]) snprintf(p.name, sizeof p.name, "%s", name);
    if (!strncmp(p.name, name, sizeof p.name - 1)) {
      p.count++;
      return;
    }
  }
}
void note_work(u64 h) { sh->r.work_hash = mix(sh->r.work_hash, h); }
void oracle() { sh->r.oracles++; }
void violation(const char *cls, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vset(2, cls, fmt, ap);
  va_end(ap);
  end_run(2);
}
void harness_error(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vset(3, "harness", fmt, ap);
  va_end(ap);
  end_run(3);
}
void finish_run() { end_run(1); }

int self() { return cur ? cur->tid : -1; }

u64 steps() { return g.steps; }
void set_heap_content(int pattern) { g.poison = pattern & 3; }
void shift_heap(long bytes) { if (bytes > 0) heap_top += (u64) bytes & ~15ull; }
__attribute__((noinline)) void scribble_stack(int pattern) {
  static const u8 fill[4] = {0x00, 0xFF, 0x43, 0xC7};
  volatile u8 a[24576];
  for (size_t i = 0; i < sizeof a; ++i) a[i] = fill[pattern & 3];
}
void run_threads(const std::vector<std::function<void()>> &fns) {
  Thread *me = cur;
  int first = -1, last = -1;
  for (auto &f : fns) {
    // reuse finished slots only if none is live besides us
    Thread *t = new_thread();
    if (!t) herr("sim", "too many simulated threads");
    t->fn = &f;
    int e = start_thread(t);
    if (e) herr("sim", "pthread_create failed: %d", e);
    if (first < 0) first = t->tid;
    last = t->tid;
  }
  g.concurrent = true;
  if (g.spec->expl_sched) {
    g.next_switch = g.sched_pos < g.spec->nsched ? g.spec->sched[g.sched_pos].step : ~0ull;
  } else {
    // PCT change points are relative to the start of the phase
    if (g.strategy == 1)
      for (int i = g.ichange; i < g.nchange; ++i) g.change_pts[i] += g.steps;
    new_gap();
  }
  for (int i = first; i <= last; ++i)
    while (thr[i].state != DONE) {
      me->state = BLOCKED;
      me->block_on = (uptr) &thr[i];
      leave();
    }
  for (int i = first; i <= last; ++i) {
    vjoin(me->vc, thr[i].vc);
    real_join(thr[i].pt, nullptr);
    thr[i].has_pt = false;
  }
  g.concurrent = g.live > 1;
  // all finished slots at the tail become reusable: their history is joined into ours
  while (g.nthreads > 1 && thr[g.nthreads - 1].state == DONE && !thr[g.nthreads - 1].has_pt) {
    // keep clocks monotone per slot: remember by starting the next user of the slot from our joined view
    g.nthreads--;
  }
  // after a full join everything so far happens-before everything later: forget shadow epochs cheaply
  // by making our own clock dominate (done by vjoin above).
}

static Rng fault_rng(int op) { return Rng(mix(g.spec->seed, 0x7fa017000ull + (u64) op)); }

void set_rates(double a, double c, double s) {
  g.rate[F_ALLOC] = a;
  g.rate[F_CALLBACK] = c;
  g.rate[F_STREAM] = s;
}

static FaultEnt *find_plan(int op) {
  Result &r = sh->r;
  for (int i = 0; i < r.nfaults; ++i) if (r.faults[i].op == op) return &r.faults[i];
  return nullptr;
}
static FaultEnt *make_plan(int op) {
  FaultEnt *p = find_plan(op);
  if (p) return p->kind ? p : nullptr;
  Result &r = sh->r;
  if (r.nfaults >= MAXFAULT) return nullptr;
  p = &r.faults[r.nfaults++];
  memset(p, 0, sizeof *p);
  p->op = op;
  if (g.spec->expl_faults) {
    for (int i = 0; i < g.spec->nfaults; ++i)
      if (g.spec->faults[i].op == op) {
        *p = g.spec->faults[i];
        p->fired = 0;
      }
    return p->kind ? p : nullptr;
  }
  Rng f = fault_rng(op);
  double u = f.unit();
  if (u < g.rate[F_ALLOC]) {
    p->kind = F_ALLOC;
    double v = f.unit();
    p->at = v < 0.5 ? (long) f.below(6) : v < 0.8 ? (long) f.below(24) : (long) f.below(200);
    p->persist = f.chance(0.3);
  } else if ((u -= g.rate[F_ALLOC]) < g.rate[F_CALLBACK]) {
    p->kind = F_CALLBACK;
    double v = f.unit();
    p->at = v < 0.4 ? (long) f.below(3) : v < 0.8 ? (long) f.below(30) : (long) f.below(400);
  } else if ((u -= g.rate[F_CALLBACK]) < g.rate[F_STREAM]) {
    p->kind = F_STREAM;
    p->at = f.chance(0.3) ? (long) f.below(4) : (long) f.below(160);
    p->persist = (int) f.below(3);
  }
  return p->kind ? p : nullptr;
}
int planned_kind(int op) {
  FaultEnt *p = make_plan(op);
  return p ? p->kind : 0;
}
void plan_override(int op, int kind, long at, int persist) {
  if (g.spec->expl_faults) return;
  make_plan(op);
  FaultEnt *p = find_plan(op);
  if (!p) return;
  p->kind = kind;
  p->at = at;
  p->persist = persist;
}
void arm(int op) {
  Thread *t = cur;
  t->plan = make_plan(op);
  t->op = op;
  t->counter = 0;
  t->allocs = 0;
  t->plan_fired = false;
  t->fired_kind = 0;
  t->armed = 1;
}
void arm_plain(int op) {
  Thread *t = cur;
  t->plan = nullptr;
  t->op = op;
  t->counter = 0;
  t->allocs = 0;
  t->plan_fired = false;
  t->fired_kind = 0;
  t->armed = 1;
}
void disarm(Outcome *o) {
  Thread *t = cur;
  t->armed = 0;
  o->fired = t->plan_fired;
  o->fired_kind = t->fired_kind;
  o->allocs = t->allocs;
  t->plan = nullptr;
}
void classify(Outcome *o) {
  o->what[0] = 0;
  try {
    throw;
  } catch (const CallbackFault &) {
    o->kind = CALLBACK_FAULT;
  } catch (const std::bad_alloc &) {
    o->kind = BAD_ALLOC;
  } catch (const std::ios_base::failure &e) {
    o->kind = STREAM_EXCEPTION;
    snprintf(o->what, sizeof o->what, "%s", e.what());
  } catch (const std::exception &e) {
    o->kind = STD_EXCEPTION;
    snprintf(o->what, sizeof o->what, "%s", e.what());
  } catch (...) {
    o->kind = OTHER_EXCEPTION;
  }
}
const char *outcome_name(const Outcome &o) {
  switch (o.kind) {
    case OK: return "ok";
    case BAD_ALLOC: return "bad_alloc";
    case CALLBACK_FAULT: return "callback fault";
    case STD_EXCEPTION: return "std::exception";
    case STREAM_EXCEPTION: return "ios failure";
    default: return "other exception";
  }
}
void set_reentry(std::function<void()> f) {
  if (!reentry) reentry = new std::function<void()>();
  *reentry = f;
}
void callback_point() {
  Thread *t = cur;
  if (!t || !t->armed || !t->plan || t->plan->kind != F_CALLBACK) return;
  long k = t->counter++;
  if (k == t->plan->at) {
    t->plan_fired = true;
    t->fired_kind = F_CALLBACK;
    t->plan->fired++;
    sh->r.fired[F_CALLBACK]++;
    hmix(0xca11);
    throw CallbackFault{t->op};
  }
}
bool stream_fault_budget(long *bytes, int *mode) {
  Thread *t = cur;
  if (!t || !t->armed || !t->plan || t->plan->kind != F_STREAM) return false;
  *bytes = t->plan->at;
  *mode = t->plan->persist;
  return true;
}
void stream_fault_fired() {
  Thread *t = cur;
  if (!t || !t->plan) return;
  if (!t->plan_fired) {
    t->plan_fired = true;
    t->fired_kind = F_STREAM;
    t->plan->fired++;
    sh->r.fired[F_STREAM]++;
  }
}
void expect_exit(std::function<void(int)> h, bool assertion_too) {
  exit_tid = cur ? cur->tid : -1;
  assert_expected = assertion_too;
  if (!exit_handler) exit_handler = new std::function<void(int)>();
  *exit_handler = h;
  exit_expected = true;
}
void no_exit() { exit_expected = assert_expected = false; }
long live_blocks() { return live_n; }
long live_bytes() { return live_b; }
void set_heap_reuse(bool on) { g.reuse = on; }
bool heap_reuse() { return g.reuse; }
void rand_mode(int m, u64 s) {
  rand_mode_ = m;
  rand_rng = Rng(s);
}
u64 rand_calls() { return rand_n; }
u64 clock_reads() { return clock_n; }
u64 entropy_reads() { return entropy_n; }
void quiet_begin() { if (cur) cur->ignore++; }
void quiet_end() { if (cur) cur->ignore--; }
}  // namespace sim

// ------------------------------------------------------------------------------------------ driver
namespace {
double now() {
  timespec ts;
  __real_clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

void child_main(const Spec *spec) {
  signal(SIGALRM, SIG_DFL);
  alarm(300);
  rlimit rl;
  rl.rlim_cur = 60;
  rl.rlim_max = 70;
  setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK;
  int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGXCPU};
  for (int s : sigs) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);

  g.spec = spec;
  wrng = sim::Rng(sim::mix(spec->seed, 0x11));
  sched_seed = sim::mix(sim::mix(spec->seed, 0x22), spec->sched_salt);
  srng = sim::Rng(sched_seed);
  g.steps = 0;
  g.step_cap = 200000000;
  g.hash = 0xcbf29ce484222325ull;
  // scheduling strategy of this run (swarm)
  double u = srng.unit();
  if (u < 0.35) g.strategy = 0;
  else if (u < 0.60) g.strategy = 1;
  else if (u < 0.85) g.strategy = 2;
  else if (u < 0.93) g.strategy = 4;
  else g.strategy = 3;
  double gaps[] = {2, 5, 15, 40, 120, 400, 2000};
  g.mean_gap = gaps[srng.below(7)];
  if (g.strategy == 2) g.mean_gap = gaps[3 + srng.below(4)] * 4;
  g.hot_p = srng.chance(0.5) ? 0.5 : 0.15;
  g.nchange = 1 + (int) srng.below(6);
  double span = std::exp(srng.real(std::log(20.0), std::log(40000.0)));
  for (int i = 0; i < g.nchange; ++i) g.change_pts[i] = 1 + (u64) (srng.unit() * span);
  for (int i = 0; i < g.nchange; ++i)
    for (int j = i + 1; j < g.nchange; ++j)
      if (g.change_pts[j] < g.change_pts[i]) std::swap(g.change_pts[i], g.change_pts[j]);
  g.low_prio = 0;
  sh->r.strategy = g.strategy;
  g.reuse = sim::mix(spec->seed, 0x33) & 1;
  g.poison = (int) (sim::mix(spec->seed, 0x44) & 3);
  rand_rng = sim::Rng(sim::mix(spec->seed, 0x55));
  clock_rng = sim::Rng(sim::mix(spec->seed, 0x66));
  entropy_rng = sim::Rng(sim::mix(spec->seed, 0x77));
  if (!real_create) real_create = (create_t) dlsym(RTLD_NEXT, "pthread_create");
  if (!real_join) real_join = (join_t) dlsym(RTLD_NEXT, "pthread_join");
  // the scenario runs as simulated thread 0 on a stack at a fixed address
  static std::function<void()> f = [] { scenario(); };
  // stack content is part of the determinism contract
  u8 fill[4] = {0x00, 0xFF, 0x43, 0xC7};
  memset((void *) (STACKS + STACK_SIZE - 98304), fill[g.poison], 98304 - 8192);
  Thread *t = new_thread();
  t->fn = &f;
  g.on = true;
  struct S {
    static void *go(void *p) {
      Thread *t = (Thread *) p;
      stack_t ss;
      ss.ss_sp = t->altstack;
      ss.ss_size = sizeof t->altstack;
      ss.ss_flags = 0;
      sigaltstack(&ss, nullptr);
      cur = t;
      (*t->fn)();
      end_run(1);
    }
  };
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, (void *) (STACKS + 4096), STACK_SIZE - 4096);
  pthread_t pt;
  g.on = false;
  if (real_create(&pt, &at, [](void *p) -> void * {
        g.on = true;
        return S::go(p);
      }, t)) {
    snprintf(sh->r.cls, sizeof sh->r.cls, "sim");
    snprintf(sh->r.msg, sizeof sh->r.msg, "cannot start thread");
    sh->r.status = 3;
    _exit(0);
  }
  real_join(pt, nullptr);
  _exit(0);
}

void reset_result() {
  Result &r = sh->r;
  size_t head = offsetof(Result, sched);
  memset((void *) &r, 0, head);
  r.nops = r.nfaults = r.loglen = r.nfindings = 0;
  r.strategy = r.threads_max = 0;
}

void execute(const Spec *spec) {
  reset_result();
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p < 0) {
    perror("fork");
    _exit(3);
  }
  if (p == 0) child_main(spec);
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  Result &r = sh->r;
  if (r.status == 0) {
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) {
      r.status = 3;
      snprintf(r.cls, sizeof r.cls, "sim");
      snprintf(r.msg, sizeof r.msg, "run killed by signal %d (wall clock limit or memory)", WTERMSIG(st));
    } else if (WIFSIGNALED(st)) {
      r.status = 2;
      snprintf(r.cls, sizeof r.cls, "crash");
      snprintf(r.msg, sizeof r.msg, "the process died of signal %d", WTERMSIG(st));
    } else {
      r.status = 3;
      snprintf(r.cls, sizeof r.cls, "sim");
      snprintf(r.msg, sizeof r.msg, "run ended without a verdict (wait status 0x%x)", st);
    }
  }
}

const char *kinds[] = {"none", "alloc", "callback", "stream", "rand"};

void write_replay(const char *path, const Spec &s, const Result &r) {
  FILE *f = fopen(path, "w");
  if (!f) {
    perror(path);
    return;
  }
  fprintf(f, "harness %s\nseed %llu\nsalt %llu\n", harness_name, (unsigned long long) s.seed,
          (unsigned long long) s.sched_salt);
  fprintf(f, "disabled %d", s.ndis);
  for (int i = 0; i < s.ndis; ++i) fprintf(f, " %d", s.dis[i]);
  fprintf(f, "\nexplicit_faults %d %d\n", s.expl_faults ? 1 : 0, s.nfaults);
  for (int i = 0; i < s.nfaults; ++i)
    fprintf(f, "%d %d %ld %d\n", s.faults[i].op, s.faults[i].kind, s.faults[i].at, s.faults[i].persist);
  fprintf(f, "explicit_schedule %d %d\n", s.expl_sched ? 1 : 0, s.nsched);
  for (int i = 0; i < s.nsched; ++i)
    fprintf(f, "%llu %u %u\n", (unsigned long long) s.sched[i].step, s.sched[i].to, s.sched[i].forced);
  fprintf(f, "expect_class %s\nexpect_hash %llx\nmessage %s\n", r.cls, (unsigned long long) r.trace_hash, r.msg);
  fprintf(f, "--- trace of the minimised run: %llu steps, %llu context switches ---\n",
          (unsigned long long) r.steps, (unsigned long long) r.switches);
  for (int i = 0; i < r.nfaults; ++i)
    if (r.faults[i].kind && r.faults[i].fired)
      fprintf(f, "fault: op %d: %s #%ld%s\n", r.faults[i].op, kinds[r.faults[i].kind], r.faults[i].at,
              r.faults[i].persist ? " (persisting/mode)" : "");
  fwrite(r.log, 1, r.loglen, f);
  fclose(f);
}

bool read_replay(const char *path, Spec &s, char *cls, u64 *hash) {
  FILE *f = fopen(path, "r");
  if (!f) return false;
  char w[64];
  unsigned long long a, b;
  int x, y;
  bool ok = fscanf(f, "harness %63s seed %llu salt %llu disabled %d", w, &a, &b, &x) == 4;
  if (ok) {
    s.seed = a;
    s.sched_salt = b;
    s.ndis = x;
    for (int i = 0; i < x; ++i) ok = ok && fscanf(f, "%d", &s.dis[i]) == 1;
    ok = ok && fscanf(f, " explicit_faults %d %d", &x, &y) == 2;
    if (ok) {
      s.expl_faults = x;
      s.nfaults = y;
      for (int i = 0; i < y; ++i) {
        memset(&s.faults[i], 0, sizeof s.faults[i]);
        ok = ok && fscanf(f, "%d %d %ld %d", &s.faults[i].op, &s.faults[i].kind, &s.faults[i].at,
                          &s.faults[i].persist) == 4;
      }
    }
    ok = ok && fscanf(f, " explicit_schedule %d %d", &x, &y) == 2;
    if (ok) {
      s.expl_sched = x;
      s.nsched = y;
      s.sched = (SchedEnt *) __real_calloc(y + 1, sizeof(SchedEnt));
      for (int i = 0; i < y; ++i) {
        unsigned to, fo;
        ok = ok && fscanf(f, "%llu %u %u", &a, &to, &fo) == 3;
        s.sched[i].step = a;
        s.sched[i].to = to;
        s.sched[i].forced = fo;
      }
    }
    ok = ok && fscanf(f, " expect_class %63s expect_hash %llx", cls, &a) == 2;
    *hash = a;
  }
  fclose(f);
  return ok;
}

Spec *new_spec() {
  Spec *s = (Spec *) __real_calloc(1, sizeof(Spec));
  return s;
}

// does `s` still show a violation of class cls?
bool fails(const Spec *s, const char *cls) {
  execute(s);
  return sh->r.status == 2 && !strcmp(sh->r.cls, cls);
}

void minimise(Spec *s, const char *cls, double budget) {
  double t0 = now();
  // 1. operations
  execute(s);
  int ops[MAXOPS];
  int n = 0;
  for (int i = 0; i < sh->r.nops; ++i) {
    bool dis = false;
    for (int j = 0; j < s->ndis; ++j) if (s->dis[j] == sh->r.ops[i]) dis = true;
    if (!dis) ops[n++] = sh->r.ops[i];
  }
  int chunk = n / 2 > 0 ? n / 2 : 1;
  while (n > 0 && now() - t0 < budget * 0.5) {
    bool any = false;
    for (int i = 0; i < n && now() - t0 < budget * 0.5;) {
      int k = chunk < n - i ? chunk : n - i;
      int saved = s->ndis;
      u64 salt = s->sched_salt;
      for (int j = 0; j < k && s->ndis < MAXOPS; ++j) s->dis[s->ndis++] = ops[i + j];
      bool ok = false;
      int tries = sh->r.threads_max > 1 ? 6 : 1;
      for (int t = 0; t < tries && !ok; ++t) {
        s->sched_salt = salt + (t ? 1000 + t : 0);
        ok = fails(s, cls);
      }
      if (ok) {
        memmove(ops + i, ops + i + k, (n - i - k) * sizeof(int));
        n -= k;
        any = true;
      } else {
        s->ndis = saved;
        s->sched_salt = salt;
        i += k;
      }
    }
    if (chunk == 1 && !any) break;
    chunk = chunk > 1 ? chunk / 2 : 1;
    if (chunk == 1 && !any && n <= 1) break;
  }
  // 2. faults become explicit, then are dropped one by one
  if (!fails(s, cls)) return;
  Spec *b = new_spec();
  *b = *s;
  b->expl_faults = true;
  b->nfaults = 0;
  for (int i = 0; i < sh->r.nfaults; ++i)
    if (sh->r.faults[i].kind && sh->r.faults[i].fired) b->faults[b->nfaults++] = sh->r.faults[i];
  if (fails(b, cls)) {
    for (int i = 0; i < b->nfaults && now() - t0 < budget * 0.7;) {
      FaultEnt e = b->faults[i];
      memmove(b->faults + i, b->faults + i + 1, (b->nfaults - i - 1) * sizeof(FaultEnt));
      b->nfaults--;
      if (!fails(b, cls)) {
        memmove(b->faults + i + 1, b->faults + i, (b->nfaults - i) * sizeof(FaultEnt));
        b->faults[i] = e;
        b->nfaults++;
        ++i;
      }
    }
    *s = *b;
  }
  // 3. schedule becomes explicit, then switches are dropped
  if (!fails(s, cls)) return;
  if (sh->r.nsched && !sh->r.sched_overflow) {
    *b = *s;
    b->expl_sched = true;
    b->nsched = sh->r.nsched;
    b->sched = (SchedEnt *) __real_calloc(b->nsched + 1, sizeof(SchedEnt));
    memcpy(b->sched, sh->r.sched, b->nsched * sizeof(SchedEnt));
    if (fails(b, cls)) {
      // the failing run records the entries that were really consumed
      SchedEnt *save = (SchedEnt *) __real_calloc(b->nsched + 1, sizeof(SchedEnt));
      int ck = b->nsched / 2 > 0 ? b->nsched / 2 : 1;
      while (b->nsched > 0 && now() - t0 < budget) {
        bool any = false;
        for (int i = 0; i < b->nsched && now() - t0 < budget;) {
          int k = ck < b->nsched - i ? ck : b->nsched - i;
          int old = b->nsched;
          memcpy(save, b->sched, old * sizeof(SchedEnt));
          memmove(b->sched + i, b->sched + i + k, (old - i - k) * sizeof(SchedEnt));
          b->nsched = old - k;
          if (fails(b, cls)) any = true;
          else {
            memcpy(b->sched, save, old * sizeof(SchedEnt));
            b->nsched = old;
            i += k;
          }
        }
        if (ck == 1 && !any) break;
        ck = ck > 1 ? ck / 2 : 1;
      }
      *s = *b;
    }
  }
}

// hash set in private memory of the worker for distinctness counts
struct HSet {
  u64 *t;
  u64 cap, n;
};
void hs_init(HSet &h) {
  h.cap = 1 << 20;
  h.n = 0;
  h.t = (u64 *) mmap(nullptr, h.cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
bool hs_add(HSet &h, u64 k) {
  if (!k) k = 1;
  if (h.n > h.cap * 3 / 4) return false;
  u64 i = sim::mix(k, 3) & (h.cap - 1);
  while (h.t[i]) {
    if (h.t[i] == k) return false;
    i = (i + 1) & (h.cap - 1);
  }
  h.t[i] = k;
  h.n++;
  return true;
}

void jstr(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; ++s) {
    if (*s == '"' || *s == '\\') fputc('\\', f), fputc(*s, f);
    else if (*s == '\n') fputs("\\n", f);
    else if ((u8) *s < 32 || (u8) *s > 126) fprintf(f, "\\u%04x", (u8) *s);
    else fputc(*s, f);
  }
  fputc('"', f);
}

int explore(u64 base, u64 start, u64 stride, u64 count, double tlimit, const char *stats, const char *replay_out) {
  double t0 = now();
  u64 runs = 0, nontrivial = 0, steps = 0, switches = 0, oracles = 0, allocs = 0, audits = 0, audit_bad = 0;
  u64 fired[sim::F_KINDS] = {0};
  u64 strat[5] = {0};
  u64 fault_runs = 0, mt_runs = 0, longest = 0;
  int unrepro = 0;
  HSet il, wk, both;
  hs_init(il);
  hs_init(wk);
  hs_init(both);
  Spec *s = new_spec();
  int rc = 0;
  u64 digest = 0;
  char cls[64] = "", msg[2048] = "";
  char samples[3][1500];
  int ns = 0;
  for (u64 i = start; i < count; i += stride) {
    if (now() - t0 > tlimit) break;
    memset(s, 0, offsetof(Spec, sched));
    s->expl_faults = s->expl_sched = false;
    s->seed = sim::mix(base, i);
    execute(s);
    Result &r = sh->r;
    runs++;
    steps += r.steps;
    if (r.steps > longest) longest = r.steps;
    switches += r.switches;
    oracles += r.oracles;
    allocs += r.allocs;
    strat[r.strategy]++;
    bool ff = false;
    for (int k = 0; k < sim::F_KINDS; ++k) {
      fired[k] += r.fired[k];
      if (r.fired[k]) ff = true;
    }
    fault_runs += ff;
    mt_runs += r.threads_max > 1;
    if (r.switches) hs_add(il, sim::mix(r.sched_hash, r.work_hash));
    hs_add(wk, r.work_hash);
    if (r.oracles && (r.switches || ff || r.threads_max <= 1)) {
      if (hs_add(both, r.trace_hash)) nontrivial++;
    }
    if (ns < 3 && r.loglen && runs % 7 == 1) {
      int n = r.loglen < 1400 ? r.loglen : 1400;
      snprintf(samples[ns], sizeof samples[ns], "seed=%llu steps=%llu switches=%llu\n%.*s",
               (unsigned long long) s->seed, (unsigned long long) r.steps, (unsigned long long) r.switches, n, r.log);
      ns++;
    }
    if (r.status == 3) {
      snprintf(cls, sizeof cls, "%s", r.cls);
      snprintf(msg, sizeof msg, "seed %llu: %s", (unsigned long long) s->seed, r.msg);
      rc = 2;
      break;
    }
    if (r.status == 2) {
      snprintf(cls, sizeof cls, "%s", r.cls);
      u64 h1 = r.trace_hash;
      execute(s);
      if (sh->r.status != 2 || strcmp(sh->r.cls, cls) || sh->r.trace_hash != h1) {
        snprintf(msg, sizeof msg, "seed %llu: violation %s did not reproduce (second run: status %d class %s)",
                 (unsigned long long) s->seed, cls, sh->r.status, sh->r.cls);
        rc = 2;
        if (++unrepro > 10) break;
        continue;
      }
      u64 orig_steps = sh->r.steps, orig_sw = sh->r.switches;
      int orig_ops = sh->r.nops;
      minimise(s, cls, 12.0);
      if (!fails(s, cls)) {
        // fall back to the unminimised seed
        memset(s, 0, offsetof(Spec, sched));
        s->seed = sim::mix(base, i);
        s->nsched = 0;
        fails(s, cls);
      }
      write_replay(replay_out, *s, sh->r);
      snprintf(msg, sizeof msg, "%s", sh->r.msg);
      fprintf(stderr, "violation %s at run %llu: %s\n  minimised: %llu->%llu steps, %llu->%llu switches, %d->%d ops\n",
              cls, (unsigned long long) i, msg, (unsigned long long) orig_steps, (unsigned long long) sh->r.steps,
              (unsigned long long) orig_sw, (unsigned long long) sh->r.switches, orig_ops, orig_ops - s->ndis);
      rc = 1;
      break;
    }
    digest ^= sim::mix(r.trace_hash, i);
    if (runs % 50 == 1) {
      u64 h1 = r.trace_hash, w1 = r.work_hash;
      execute(s);
      audits++;
      if (sh->r.trace_hash != h1 || sh->r.work_hash != w1 || sh->r.status != 1) {
        audit_bad++;
        snprintf(cls, sizeof cls, "nondeterminism");
        snprintf(msg, sizeof msg, "seed %llu gave two different executions", (unsigned long long) s->seed);
        fprintf(stderr, "%s\n", msg);
        if (audit_bad >= 3) {                     // something is not under control; one in thousands is only reported
          rc = 2;
          break;
        }
      }
    }
  }
  FILE *f = fopen(stats, "w");
  if (!f) return 2;
  fprintf(f, "{\"rc\":%d,\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"switches\":%llu,\"oracles\":%llu,\"allocs\":%llu,"
             "\"audits\":%llu,\"audit_bad\":%llu,\"distinct_interleavings\":%llu,\"distinct_workloads\":%llu,"
             "\"longest\":%llu,\"fault_runs\":%llu,\"mt_runs\":%llu,\"digest\":\"%llx\",\"wall\":%.3f,",
          rc, (unsigned long long) runs, (unsigned long long) nontrivial, (unsigned long long) steps,
          (unsigned long long) switches, (unsigned long long) oracles, (unsigned long long) allocs,
          (unsigned long long) audits, (unsigned long long) audit_bad, (unsigned long long) il.n,
          (unsigned long long) wk.n, (unsigned long long) longest, (unsigned long long) fault_runs, (unsigned long long) mt_runs,
          (unsigned long long) digest, now() - t0);
  fprintf(f, "\"fired\":{\"alloc\":%llu,\"callback\":%llu,\"stream\":%llu,\"rand\":%llu},",
          (unsigned long long) fired[1], (unsigned long long) fired[2], (unsigned long long) fired[3],
          (unsigned long long) fired[4]);
  fprintf(f, "\"strategies\":{\"random\":%llu,\"pct\":%llu,\"conflict-directed\":%llu,\"sequential\":%llu,\"round-robin\":%llu},",
          (unsigned long long) strat[0], (unsigned long long) strat[1], (unsigned long long) strat[2],
          (unsigned long long) strat[3], (unsigned long long) strat[4]);
  fprintf(f, "\"probes\":{");
  bool first = true;
  for (int i = 0; i < MAXPROBE && sh->probes[i].name[0]; ++i) {
    if (!first) fputc(',', f);
    first = false;
    jstr(f, sh->probes[i].name);
    fprintf(f, ":%llu", (unsigned long long) sh->probes[i].count);
  }
  fprintf(f, "},\"samples\":[");
  for (int i = 0; i < ns; ++i) {
    if (i) fputc(',', f);
    jstr(f, samples[i]);
  }
  fprintf(f, "],\"class\":");
  jstr(f, cls);
  fprintf(f, ",\"message\":");
  jstr(f, msg);
  fprintf(f, "}\n");
  fclose(f);
  if (rc == 2) fprintf(stderr, "ERROR %s: %s\n", cls, msg);
  return rc;
}

u64 arg_u64(int c, char **v, const char *k, u64 d) {
  for (int i = 2; i + 1 < c; ++i) if (!strcmp(v[i], k)) return strtoull(v[i + 1], nullptr, 0);
  return d;
}
double arg_d(int c, char **v, const char *k, double d) {
  for (int i = 2; i + 1 < c; ++i) if (!strcmp(v[i], k)) return strtod(v[i + 1], nullptr);
  return d;
}
const char *arg_s(int c, char **v, const char *k, const char *d) {
  for (int i = 2; i + 1 < c; ++i) if (!strcmp(v[i], k)) return v[i + 1];
  return d;
}
}  // namespace

int main(int argc, char **argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) {
    if (personality(ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_NOREEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  arena_init();
  pthread_key_create(&exit_key, on_thread_end);
  sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (argc < 2) return 2;
  if (!strcmp(argv[1], "explore")) {
    return explore(arg_u64(argc, argv, "--base", 1), arg_u64(argc, argv, "--start", 0),
                   arg_u64(argc, argv, "--stride", 1), arg_u64(argc, argv, "--count", 1000),
                   arg_d(argc, argv, "--time", 10), arg_s(argc, argv, "--stats", "/dev/null"),
                   arg_s(argc, argv, "--replay-out", "/dev/null"));
  }
  if (!strcmp(argv[1], "replay") && argc > 2) {
    Spec *s = new_spec();
    char cls[64] = "";
    u64 h = 0;
    if (!read_replay(argv[2], *s, cls, &h)) {
      fprintf(stderr, "cannot read %s\n", argv[2]);
      return 2;
    }
    execute(s);
    Result &r = sh->r;
    if (r.status == 1) {
      printf("replay: no violation\n");
      return 0;
    }
    printf("replay: status=%d class=%s hash=%llx (recorded %s %llx)\n  %s\n", r.status, r.cls,
           (unsigned long long) r.trace_hash, cls, (unsigned long long) h, r.msg);
    fwrite(r.log, 1, r.loglen, stdout);
    if (r.status == 2 && !strcmp(r.cls, cls) && r.trace_hash == h) return 1;
    return 2;
  }
  if (!strcmp(argv[1], "one")) {
    Spec *s = new_spec();
    s->seed = arg_u64(argc, argv, "--seed", 1);
    execute(s);
    Result &r = sh->r;
    printf("status=%d class=%s msg=%s\nhash=%llx steps=%llu switches=%llu oracles=%llu allocs=%llu strategy=%d\n", r.status, r.cls, r.msg,
           (unsigned long long) r.trace_hash, (unsigned long long) r.steps, (unsigned long long) r.switches,
           (unsigned long long) r.oracles, (unsigned long long) r.allocs, r.strategy);
    fwrite(r.log, 1, r.loglen, stdout);
    return r.status == 1 ? 0 : r.status == 2 ? 1 : 2;
  }
  return 2;
}

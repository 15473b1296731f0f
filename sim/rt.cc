// Deterministic simulation runtime.  Compiled WITHOUT instrumentation; the code under test and the
// scenario code are compiled with -fsanitize=thread and call the __tsan_* entry points below.
#include "rt.h"

#include <malloc.h>
#include <atomic>
#include <cerrno>
#include <cxxabi.h>
#include <typeinfo>
#include <climits>
#include <clocale>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <link.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <cfenv>
#include <iostream>
#include <xmmintrin.h>
#include <locale>
#include <sstream>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <exception>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
extern void* __libc_stack_end;
extern char __libc_single_threaded;
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
}

namespace rt {
namespace {

constexpr int MAXT          = 64;
constexpr uintptr_t ARENA   = 0x100000000000ull;
constexpr size_t ARENA_SZ   = size_t(512) << 20;
constexpr uintptr_t SHADOW  = 0x110000000000ull;  // 1 byte per 8
constexpr uintptr_t CELLS   = 0x120000000000ull;  // one Cell per 8 bytes
constexpr uintptr_t STACKS  = 0x130000000000ull;
constexpr size_t STACK_SZ   = size_t(4) << 20;
constexpr uint8_t SH_RED = 0xFA, SH_FREE = 0xFD, SH_NONE = 0xFE;
constexpr size_t REDZONE    = 32;

struct VC { uint32_t c[MAXT]; };
inline void vc_join(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct Thread {
  int id;
  int go;                 // futex word
  int state;              // 0 unused 1 runnable 2 blocked 3 done
  bool (*pred)(void*, Thread*);
  void* parg;
  bool timed, timedout;
  int64_t deadline;
  bool in_call;
  int in_rt;
  CallOpts opts;
  uint64_t allocs;
  bool faulted;
  uint64_t steps, work, call_step0, waits;
  int64_t budget, hot;
  uint64_t stall_at;      // suspend this thread after so many more accesses (0 = never)
  int once_depth;         // one-time initialisations it is running
  bool stalled;
  uintptr_t stk_lo, stk_sz;
  VC vc;
  void* (*start)(void*);
  void* arg;
  std::function<void()>* fn;
  pthread_t pt;
  void* ret;
  bool lib_created, detached, joined;
  int prio;
  // call stack of instrumented functions
  uint32_t depth, base_depth;
  uintptr_t cs[1024];
  uintptr_t spin_addr;
  uint32_t spin_n;
  // I/O
  bool io_armed;
  IoPlan plan;
  int io_n, io_f;
  std::function<void(int)>* io_cb;
};

struct Cell {             // 64 bytes
  uint32_t wclk, wpc;
  uint8_t wtid, wmask, last, pad;
  struct R { uint32_t clk, pc; uint8_t tid, mask; uint16_t pad; } r[4];
  uint32_t key;           // only in the hash table for non-heap memory
};
static_assert(sizeof(Cell) == 64);

Config C;
Result* R = nullptr;
bool active = false;
bool multi  = false;      // more than one simulated thread is alive
bool multi_ever = false;
Thread T[MAXT];
int nthreads = 0;
thread_local Thread* self __attribute__((tls_model("initial-exec"))) = nullptr;

// Global VC clock of hashing
uint64_t H = 0, HS = 0;
uint64_t gsteps = 0, step_limit = 60000000;
volatile uint64_t ncalls = 0;            // calls begun in this run
uint64_t prof_calls = 0;
int prof_same = 0;
inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};
Rng rng[NSTREAM];
bool stream_replay[NSTREAM];
uint32_t pos[NSTREAM];

inline void record(Stream s, uint32_t v) {
  if (pos[s] < MAX_DEC) R->dec[s][pos[s]] = v;
  else R->overflow = 1;
  pos[s]++;
  R->ndec[s] = pos[s] < MAX_DEC ? pos[s] : MAX_DEC;
}
inline uint32_t from_list(Stream s) {
  uint32_t v = pos[s] < C.ndec[s] ? C.dec[s][pos[s]] : 0;
  return v;
}

// ---------------------------------------------------------------- raw syscalls
inline long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
#ifdef __x86_64__
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
#else
#error "x86-64 only"
#endif
}
inline void futex_wait(int* a, int v) { raw_syscall(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
inline void futex_wake(int* a) { raw_syscall(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
[[noreturn]] void die(int code) {
  raw_syscall(SYS_exit_group, code, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}

struct InRt {
  Thread* t;
  InRt() : t(self) { if (t) t->in_rt++; }
  ~InRt() { if (t) t->in_rt--; }
};

void finish_result() {
  R->hash = mix(mix(H, gsteps), HS);
  R->sched_hash = HS;
  R->steps = gsteps;
}

void push_pcs(Thread* t, uintptr_t pc) {
  int n = 0;
  if (pc) R->vpc[n++] = pc;
  if (t) for (int d = (int)t->depth - 1; d >= 0 && n < 8; d--) if (d < 1024 && t->cs[d]) R->vpc[n++] = t->cs[d];
  R->nvpc = n;
}
[[noreturn]] void vviolate(Thread* t, uintptr_t pc, const char* kind, const char* fmt, va_list ap) {
  if (t) t->in_rt++;
  R->violated = 1;
  snprintf(R->vkind, sizeof R->vkind, "%s", kind);
  vsnprintf(R->vmsg, sizeof R->vmsg, fmt, ap);
  push_pcs(t, pc);
  H = mix(H, 0x5150);
  finish_result();
  die(0);
}
[[noreturn]] __attribute__((format(printf, 4, 5))) void violate(Thread* t, uintptr_t pc, const char* kind, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vviolate(t, pc, kind, fmt, ap);
}

// ---------------------------------------------------------------- race detector state
constexpr int TBL_BITS = 15, WAYS = 8;
Cell* tbl = nullptr;      // (1<<TBL_BITS) sets of WAYS
uintptr_t* tblkey = nullptr;

inline bool in_arena(uintptr_t a) { return a - ARENA < ARENA_SZ; }
inline Cell* cell_of(uintptr_t g) {   // g: address / 8
  uintptr_t a = g << 3;
  if (in_arena(a)) return (Cell*)CELLS + ((a - ARENA) >> 3);
  uint64_t h = g * 0x9E3779B97F4A7C15ull;
  size_t set = (h >> (64 - TBL_BITS)) * WAYS;
  for (int i = 0; i < WAYS; i++) if (tblkey[set + i] == g) return &tbl[set + i];
  for (int i = 0; i < WAYS; i++) if (!tblkey[set + i]) { tblkey[set + i] = g; return &tbl[set + i]; }
  size_t v = set + (h & (WAYS - 1));
  tblkey[v] = g;
  __real_memset(&tbl[v], 0, sizeof(Cell));
  return &tbl[v];
}

// memory outside the simulated heap (owned by the scenario) goes back to the C library: the next
// owner of the same address is not in a race with this one
void race_forget(void* p) {
  size_t n = malloc_usable_size(p);
  uintptr_t g0 = (uintptr_t)p >> 3, g1 = ((uintptr_t)p + n + 7) >> 3;
  for (uintptr_t g = g0; g < g1; g++) {
    size_t set = ((g * 0x9E3779B97F4A7C15ull) >> (64 - TBL_BITS)) * WAYS;
    for (int i = 0; i < WAYS; i++)
      if (tblkey[set + i] == g) { tblkey[set + i] = 0; __real_memset(&tbl[set + i], 0, sizeof(Cell)); }
  }
}

struct SyncVar { uintptr_t addr; VC vc; };
constexpr int SYNC_N = 16384;
bool sync_full = false;     // no room to follow another variable: stop reporting races rather than guess
SyncVar* syncs = nullptr;
SyncVar* sync_of(uintptr_t a, bool make) {
  uint64_t h = (a * 0x9E3779B97F4A7C15ull) >> 50;
  for (int i = 0; i < SYNC_N; i++) {
    SyncVar* s = &syncs[(h + i) & (SYNC_N - 1)];
    if (s->addr == a) return s;
    if (!s->addr) {
      if (!make) return nullptr;
      s->addr = a;
      return s;
    }
  }
  if (make) sync_full = true;
  return nullptr;
}
void forget_locks(uintptr_t lo, uintptr_t hi);   // new owner of the memory: no lock lives there any more
void sync_clear(uintptr_t lo, uintptr_t hi) {
  forget_locks(lo, hi);
  // keep slots (open addressing), only reset the clocks
  for (uintptr_t a = lo & ~3ull; a < hi && hi - lo <= 256; a += 4)
    if (SyncVar* s = sync_of(a, false)) __real_memset(&s->vc, 0, sizeof s->vc);
}
inline void acquire(Thread* t, uintptr_t a) {
  if (SyncVar* s = sync_of(a, false)) vc_join(t->vc, s->vc);
}
inline void release(Thread* t, uintptr_t a) {
  if (SyncVar* s = sync_of(a, true)) vc_join(s->vc, t->vc);
  t->vc.c[t->id]++;
}

[[noreturn]] void race_found(Thread* t, uintptr_t a, bool w, uintptr_t pc, int otid, uint32_t opc, bool ow, const char* what) {
  R->violated = 1;
  t->in_rt++;
  snprintf(R->vkind, sizeof R->vkind, "data-race");
  snprintf(R->vmsg, sizeof R->vmsg,
           "data race%s: thread %d %s %s memory that thread %d %s without synchronisation", what, t->id,
           w ? "writes" : "reads", in_arena(a) ? "heap" : "shared", otid, ow ? "wrote" : "read");
  push_pcs(t, pc);
  if (R->nvpc < 8) R->vpc[R->nvpc++] = opc;
  else R->vpc[7] = opc;
  finish_result();
  die(0);
}

bool detect_races = true;
inline void race(Thread* t, uintptr_t a, bool w, uintptr_t pc, int otid, uint32_t opc, bool ow, const char* what) {
  if (detect_races) race_found(t, a, w, pc, otid, opc, ow, what);
}
inline bool race_access(Thread* t, uintptr_t g, uint8_t mask, bool w, uintptr_t pc) {
  if (__builtin_expect(sync_full, 0)) return true;
  Cell* c   = cell_of(g);
  uint8_t me = t->id;
  bool shared = c->last && c->last != me + 1;
  c->last   = me + 1;
  if (c->wclk && c->wtid != me && (c->wmask & mask) && c->wclk > t->vc.c[c->wtid])
    race(t, g << 3, w, pc, c->wtid, c->wpc, true, "");
  uint32_t clk = t->vc.c[me];
  if (w) {
    for (auto& r : c->r)
      if (r.clk && r.tid != me && (r.mask & mask) && r.clk > t->vc.c[r.tid])
        race(t, g << 3, true, pc, r.tid, r.pc, false, "");
    if (c->wclk == clk && c->wtid == me) c->wmask |= mask;
    else { c->wclk = clk; c->wtid = me; c->wmask = mask; }
    c->wpc = (uint32_t)pc;
  } else {
    Cell::R* slot = nullptr;
    for (auto& r : c->r) if (r.clk && r.tid == me) { slot = &r; break; }
    if (!slot) for (auto& r : c->r) if (!r.clk || r.clk <= t->vc.c[r.tid]) { slot = &r; break; }
    if (!slot) slot = &c->r[me & 3];
    if (slot->clk == clk && slot->tid == me) slot->mask |= mask;
    else { slot->clk = clk; slot->tid = me; slot->mask = mask; }
    slot->pc = (uint32_t)pc;
  }
  return shared;
}

// ---------------------------------------------------------------- scheduler
int strategy = 0;
bool stalling = false;
uint64_t stalled_since = 0;
uint32_t mean_budget = 0, mean_hot = 0;
int64_t now_us = 0;
uint64_t elapsed_us = 0;    // simulated time that passed (clock jumps not counted)
uint64_t fault_total = 0;

int pick_runnable(Thread* cur, int* list) {   // threads that could run now (cur included if runnable)
  int n = 0;
  for (int i = 0; i < nthreads; i++) {
    Thread* t = &T[i];
    if (t->state == 1) list[n++] = i;
    else if (t->state == 2 && t->pred && t->pred(t->parg, t)) list[n++] = i;
  }
  (void)cur;
  return n;
}
void new_budget(Thread* t) {
  t->budget = 0;
  t->hot    = 0;
  if (!multi) return;
  if (strategy == 1 || strategy == 3) t->budget = draw_geom(S, mean_budget);
  if (strategy == 2) t->hot = draw_geom(S, mean_hot);
}
void run_thread(Thread* from, Thread* to, bool from_alive) {
  if (to->state == 2) { to->state = 1; to->pred = nullptr; }
  if (to == from) { new_budget(to); return; }
  R->switches++;
  HS = mix(HS, (uint64_t(from ? from->id + 1 : 0) << 48) ^ (uint64_t(to->id) << 40) ^ (from ? from->steps : 0));
  new_budget(to);
  __atomic_store_n(&to->go, 1, __ATOMIC_SEQ_CST);
  futex_wake(&to->go);
  if (!from_alive) return;
  while (!__atomic_load_n(&from->go, __ATOMIC_SEQ_CST)) futex_wait(&from->go, 0);
  __atomic_store_n(&from->go, 0, __ATOMIC_SEQ_CST);
}
[[noreturn]] void deadlock(Thread* t) {
  for (int i = 0; i < nthreads; i++)
    if (T[i].stalled)
      violate(&T[i], 0, "held-up", "thread %d is suspended in the middle of a call, and another thread waits for it (the stack is that of the suspended thread)", i);
  violate(t, 0, "deadlock", "deadlock: no simulated thread can make progress");
}
// current thread is blocked or done, or gives up its turn (must_leave prefers another thread)
void schedule(Thread* cur, bool cur_alive, bool prefer_other) {
  int list[MAXT];
  int n = pick_runnable(cur, list);
  if (n == 0) {                      // let a timed waiter time out
    Thread* best = nullptr;
    for (int i = 0; i < nthreads; i++)
      if (T[i].state == 2 && T[i].timed && (!best || T[i].deadline < best->deadline)) best = &T[i];
    if (!best) {
      if (!cur_alive) {
        bool all = true;
        for (int i = 0; i < nthreads; i++) if (T[i].state == 1 || T[i].state == 2) all = false;
        if (all) return;
      }
      deadlock(cur);
    }
    if (best->in_call)
      for (int i = 0; i < nthreads; i++)
        if (T[i].stalled)
          violate(best, 0, "held-up", "another thread is suspended in the middle of a call, and this call waits until a timeout");
    if (best->deadline > now_us) { elapsed_us += best->deadline - now_us; now_us = best->deadline; }
    best->timedout = true;
    run_thread(cur, best, cur_alive);
    return;
  }
  int pick = -1;
  if (strategy == 3) {               // priorities; the current thread drops to the lowest
    if (prefer_other && cur_alive) {
      int lo = 0;
      for (int i = 0; i < nthreads; i++) if (T[i].prio < lo) lo = T[i].prio;
      cur->prio = lo - 1;
    }
    for (int i = 0; i < n; i++) if (pick < 0 || T[list[i]].prio > T[pick].prio) pick = list[i];
  } else {
    int others[MAXT], m = 0;
    for (int i = 0; i < n; i++) if (!(prefer_other && n > 1 && list[i] == cur->id)) others[m++] = list[i];
    if (m == 1) pick = others[0];
    else pick = others[choose(S, m)];
  }
  run_thread(cur, &T[pick], cur_alive);
}
void yield_point(Thread* t) {
  t->in_rt++;
  int e = errno;
  schedule(t, true, true);
  errno = e;
  t->in_rt--;
}
void block_on(Thread* t, bool (*pred)(void*, Thread*), void* arg, int64_t deadline = -1) {
  t->in_rt++;
  t->timed = deadline >= 0;
  t->deadline = deadline;
  t->timedout = false;
  if (!pred(arg, t)) {
    t->state = 2;
    t->pred  = pred;
    t->parg  = arg;
    schedule(t, true, false);
    t->state = 1;
    t->pred  = nullptr;
  }
  t->timed = false;
  t->in_rt--;
}

// A stalled thread goes on when all the others are done (or stalled as well).
bool pr_stall(void*, Thread* me) {
  for (int i = 1; i < nthreads; i++)
    if (&T[i] != me && !T[i].stalled && (T[i].state == 1 || T[i].state == 2)) return false;
  return true;
}
constexpr uint64_t STALL_STEPS = 4000000;
void stall(Thread* t) {
  if (t->once_depth) { t->stall_at = 1; return; }   // one-time initialisation may have to be waited for
  if (pr_stall(nullptr, t)) return;                 // nobody left to be held up
  fault_note("thread-stalled");
  t->stalled = true;
  stalled_since = gsteps;
  int e = errno;
  block_on(t, pr_stall, nullptr);
  errno = e;
  t->stalled = false;
  stalled_since = 0;
}
inline void tick(Thread* t, uintptr_t pc) {
  t->steps++;
  t->work++;
  // the limits are on one call, not on the run: a run may consist of many
  const uint64_t mine = t->steps - t->call_step0;
  gsteps++;
  if (__builtin_expect(stalled_since && mine > STALL_STEPS && gsteps > stalled_since + STALL_STEPS, 0))
    violate(t, pc, "held-up", "another thread is suspended in the middle of a call, and this call does not end (after %llu steps)", (unsigned long long)STALL_STEPS);
  if (__builtin_expect(mine > step_limit, 0))
    violate(t, pc, "hang", "no end after %llu steps: a library call does not terminate", (unsigned long long)step_limit);
}
// giving up the processor over and over while another thread is suspended is waiting for it
inline void give_up(Thread* t) {
  if (stalled_since && t->in_call && ++t->waits > 300)
    violate(t, 0, "held-up", "another thread is suspended in the middle of a call, and this call goes on yielding or sleeping (300 times by now)");
}
inline void preempt(Thread* t) {
  if (__builtin_expect(t->stall_at != 0, 0) && --t->stall_at == 0) { stall(t); return; }
  if (t->budget && --t->budget == 0) yield_point(t);
}
inline void hot_event(Thread* t) {
  if (t->hot && --t->hot == 0) yield_point(t);
}

// ---------------------------------------------------------------- heap
HeapPolicy hp;
uintptr_t brk_ = ARENA + 4096;
uint64_t nblocks_live = 0, nbytes_live = 0, nalloc_total = 0;
// free lists by span class (span is a multiple of 16); small classes only
constexpr int NCLASS = 512;
struct FreeList { uintptr_t* v; int n, cap; };
FreeList fl[NCLASS];
// block table: one entry per 16 bytes of arena
struct BEnt { uint32_t size, span; uint32_t live, used; };
BEnt* bt = nullptr;
inline BEnt* bfind(uintptr_t u, bool make) {
  if (u & 15) return nullptr;
  BEnt* e = &bt[(u - ARENA) >> 4];
  if (make) e->used = 1;
  return e->used ? e : nullptr;
}

void shadow_set(uintptr_t a, size_t n, uint8_t v) { __real_memset((void*)(SHADOW + ((a - ARENA) >> 3)), v, (n + 7) / 8); }
inline uint8_t shadow(uintptr_t a) { return *(uint8_t*)(SHADOW + ((a - ARENA) >> 3)); }

Rng heap_rng;

void* sim_alloc(Thread* t, size_t n, size_t align, uintptr_t pc) {
  t->in_rt++;
  uint64_t k = t->allocs++;
  if (t->opts.oom_at >= 0 && (k == (uint64_t)t->opts.oom_at || (t->opts.oom_persist && k > (uint64_t)t->opts.oom_at))) {
    t->faulted = true;
    fault_note(t->opts.oom_persist ? "oom-persistent" : "oom-once");
    t->in_rt--;
    return nullptr;
  }
  if (n > (size_t(64) << 20)) { t->in_rt--; return nullptr; }
  size_t body = (n + 15) & ~size_t(15);
  if (!body) body = 16;
  size_t span = body + REDZONE + (align > 16 ? align : 0);
  uintptr_t user = 0;
  bool reused = false;
  size_t cls = span / 16;
  if (hp.reuse && align <= 16 && cls < NCLASS && fl[cls].n) {
    int i = hp.reuse == 1 ? fl[cls].n - 1 : int(heap_rng.next() % fl[cls].n);
    user = fl[cls].v[i];
    fl[cls].v[i] = fl[cls].v[--fl[cls].n];
    reused = true;
  } else {
    uintptr_t p = brk_ + REDZONE / 2 + (hp.gap ? (heap_rng.next() % hp.gap) * 16 : 0);
    if (align > 16) p = (p + align - 1) & ~(align - 1);
    user = p;
    brk_ = user + body + REDZONE / 2;
    brk_ = (brk_ + 15) & ~uintptr_t(15);
    if (brk_ > ARENA + ARENA_SZ - 4096)
      violate(t, pc, "memory-runaway", "library calls of one short run used more than %zu MB of heap", ARENA_SZ >> 20);
  }
  BEnt* e = bfind(user, true);
  if (!e) violate(t, pc, "memory-runaway", "too many heap blocks");
  e->size = (uint32_t)n;
  e->span = (uint32_t)span;
  e->live = 1;
  shadow_set(user, body, SH_RED);
  if (n >= 8) shadow_set(user, n & ~size_t(7), 0);
  if (n & 7) *(uint8_t*)(SHADOW + ((user + (n & ~size_t(7)) - ARENA) >> 3)) = n & 7;
  if (multi_ever && reused) {
    __real_memset((void*)(CELLS + ((user - ARENA) >> 3) * sizeof(Cell)), 0, body / 8 * sizeof(Cell));
    sync_clear(user, user + n);
  } else if (reused) {
    forget_locks(user, user + n);
  }
  __real_memset((void*)user, hp.fill_new, body);
  nblocks_live++;
  nbytes_live += n;
  nalloc_total++;
  t->in_rt--;
  return (void*)user;
}

inline void step_mem(Thread* t, uintptr_t a, size_t n, bool w, uintptr_t pc);

// libc may hold locks of its own while it allocates: no switch there
uintptr_t libc_lo = 0, libc_hi = 0;
inline bool from_libc(uintptr_t pc) { return pc >= libc_lo && pc < libc_hi; }
int find_libc(dl_phdr_info* i, size_t, void*) {
  uintptr_t at = (uintptr_t)dlsym(RTLD_DEFAULT, "strerror_r");
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto& h = i->dlpi_phdr[k];
    uintptr_t lo = i->dlpi_addr + h.p_vaddr, hi = lo + h.p_memsz;
    if (h.p_type == PT_LOAD && (h.p_flags & PF_X) && at >= lo && at < hi) { libc_lo = lo; libc_hi = hi; return 1; }
  }
  return 0;
}

void sim_free(void* p, uintptr_t pc) {
  Thread* t = self;
  if (t) t->in_rt++;
  uintptr_t u = (uintptr_t)p;
  BEnt* e = bfind(u, false);
  if (!e) violate(t, pc, "bad-free", "freeing a pointer that is not the start of a heap block");
  if (!e->live) violate(t, pc, "double-free", "freeing a heap block twice");
  if (t && t->in_call && multi) {
    uint32_t n = e->size;
    for (uintptr_t g = u >> 3; g <= (u + (n ? n - 1 : 0)) >> 3; g++) {
      Cell* c = cell_of(g);
      if (c->wclk && c->wtid != t->id && c->wclk > t->vc.c[c->wtid]) race(t, g << 3, true, pc, c->wtid, c->wpc, true, " (free)");
      for (auto& r : c->r)
        if (r.clk && r.tid != t->id && r.clk > t->vc.c[r.tid]) race(t, g << 3, true, pc, r.tid, r.pc, false, " (free)");
    }
  }
  e->live = 0;
  size_t body = (e->size + 15) & ~size_t(15);
  if (!body) body = 16;
  shadow_set(u, body, SH_FREE);
  __real_memset(p, hp.fill_free, body);
  nblocks_live--;
  nbytes_live -= e->size;
  size_t cls = e->span / 16;
  if (hp.reuse && cls < NCLASS && e->span == body + REDZONE) {
    FreeList& f = fl[cls];
    if (f.n == f.cap) {
      int c2 = f.cap ? f.cap * 2 : 64;
      f.v    = (uintptr_t*)__libc_realloc(f.v, c2 * sizeof(uintptr_t));
      f.cap  = c2;
    }
    f.v[f.n++] = u;
  }
  if (t) t->in_rt--;
  if (t && t->in_call && !t->in_rt && multi && !from_libc(pc)) { tick(t, pc); hot_event(t); preempt(t); }
}

[[noreturn]] void heap_error(Thread* t, uintptr_t a, size_t n, bool w, uintptr_t pc) {
  uint8_t s = shadow(a & ~7ull);
  for (uintptr_t b = a; b < a + n && !(s == SH_FREE || s == SH_RED || s == SH_NONE); b += 8) s = shadow(b & ~7ull);
  const char* kind = s == SH_FREE ? "heap-use-after-free" : "heap-out-of-bounds";
  violate(t, pc, kind, "%s: %s of %zu bytes outside every live heap object (%s)", kind, w ? "write" : "read", n,
          s == SH_FREE ? "in a block already freed" : "next to or between blocks");
}
inline bool heap_ok(uintptr_t a, size_t n) {
  uintptr_t end = a + n;
  for (uintptr_t g = a & ~7ull; g < end; g += 8) {
    uint8_t s = shadow(g);
    if (s == 0) continue;
    if (s > 7) return false;
    uintptr_t lim = g + s;
    if ((end < g + 8 ? end : g + 8) > lim) return false;
  }
  return true;
}

inline void step_mem(Thread* t, uintptr_t a, size_t n, bool w, uintptr_t pc) {
  if (a - t->stk_lo < t->stk_sz) return;           // own stack
  tick(t, pc);
  t->work += n >> 4;
  bool hot = false;
  if (in_arena(a)) {
    if (__builtin_expect(!heap_ok(a, n), 0)) heap_error(t, a, n, w, pc);
  }
  if (multi && n) {
    uintptr_t g0 = a >> 3, g1 = (a + n - 1) >> 3;
    for (uintptr_t g = g0; g <= g1; g++) {
      uintptr_t lo = g << 3;
      unsigned s = a > lo ? unsigned(a - lo) : 0, e = a + n < lo + 8 ? unsigned(a + n - lo) : 8;
      uint8_t m = uint8_t((0xFFu << s) & (0xFFu >> (8 - e)));
      hot |= race_access(t, g, m, w, pc);
    }
    if (hot) hot_event(t);
    preempt(t);
  }
}
inline void mem(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  Thread* t = self;
  if (__builtin_expect(!t || !t->in_call || t->in_rt, 1)) return;
  step_mem(t, a, n, w, pc);
}

// reference counts of std::shared_ptr: increments do not order anything, decrements release, and
// only the one that reaches zero acquires.
bool is_refcount(uintptr_t a) {
  if (!in_arena(a)) return false;
  for (uintptr_t off : {8, 12}) {
    uintptr_t u = a - off;
    if (u & 15) continue;
    BEnt* e = bfind(u, false);
    if (e && e->live && e->size >= 16) {
      uintptr_t v = *(uintptr_t*)u;
      return v > 0x1000 && !in_arena(v) && v < 0x800000000000ull;
    }
  }
  return false;
}
enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
inline bool acq(int mo) { return mo == MO_CONSUME || mo == MO_ACQUIRE || mo == MO_ACQ_REL || mo == MO_SEQ_CST; }
inline bool rel(int mo) { return mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ_CST; }
inline Thread* atomic_pre(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  Thread* t = self;
  if (!t || !t->in_call || t->in_rt) return nullptr;
  tick(t, pc);
  if (in_arena(a) && !heap_ok(a, n)) heap_error(t, a, n, w, pc);
  if (!multi) return t;
  if (t->spin_addr == a) {
    if (++t->spin_n > 400) { t->spin_n = 0; yield_point(t); }
  } else { t->spin_addr = a; t->spin_n = 0; }
  hot_event(t);
  preempt(t);
  return t;
}
inline void atomic_post(Thread* t, uintptr_t a, int mo, bool loaded, bool stored, int64_t delta, int64_t oldv, size_t sz) {
  if (!t || !multi) return;
  bool A = loaded && acq(mo), L = stored && rel(mo);
  if (sz == 4 && loaded && stored && (delta == 1 || delta == -1) && is_refcount(a)) {
    if (delta == 1) A = L = false;
    else A = oldv == 1, L = true;
  } else if (sz == 8 && loaded && !stored && is_refcount(a)) {
    A = oldv == 0x100000001ll;
  }
  if (A) acquire(t, a);
  if (L) release(t, a);
}

// ---------------------------------------------------------------- threads
pthread_key_t exit_key;
int (*real_pcreate)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int (*real_pjoin)(pthread_t, void**);

void thread_exit_handoff(void* v) {
  Thread* t = (Thread*)v;
  t->in_rt++;
  t->state = 3;
  t->vc.c[t->id]++;
  self = nullptr;
  Thread* s = t;
  int list[MAXT];
  (void)list;
  schedule(s, false, false);
}
void* thread_main(void* v) {
  Thread* t = (Thread*)v;
  self = t;
  t->in_rt = 1;
  while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) futex_wait(&t->go, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST);
  pthread_setspecific(exit_key, t);
  t->in_rt = 0;
  if (t->fn) (*t->fn)();
  else {
    t->in_call = true;
    t->ret = t->start(t->arg);
    t->in_call = false;
  }
  return t->ret;
}
Thread* new_thread() {
  int id = nthreads;
  for (int i = nthreads - 1; i > 0; i--) if (T[i].joined && (T[i].state == 3 || T[i].state == 0)) id = i;
  if (id >= MAXT) violate(self, 0, "thread-runaway", "library calls of one short run had more than %d threads at once", MAXT);
  Thread* t = &T[id];
  uint32_t clk = t->vc.c[id];           // a slot's clock never goes back
  __real_memset((void*)t, 0, sizeof *t);
  t->id = id;
  if (id == nthreads) nthreads++;
  t->stk_lo = STACKS + t->id * STACK_SZ;
  t->stk_sz = STACK_SZ;
  Thread* p = self;
  vc_join(t->vc, p->vc);
  if (clk > t->vc.c[id]) t->vc.c[id] = clk;
  t->vc.c[id]++;
  p->vc.c[p->id]++;
  t->opts = CallOpts{};
  return t;
}
void start_real(Thread* t) {
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, (void*)(STACKS + t->id * STACK_SZ), STACK_SZ - 65536);
  if (real_pcreate(&t->pt, &at, thread_main, t)) violate(self, 0, "harness", "cannot create a thread");
  pthread_attr_destroy(&at);
}

// ---------------------------------------------------------------- mutexes and friends
struct Lock { uintptr_t addr; int owner; int count; int readers[MAXT]; int nreaders; VC vc, rvc; uint32_t signals, waiters; int once; };
constexpr int LOCK_N = 8192;
Lock* locks = nullptr;
int heap_locks = 0;
Lock* lock_of(uintptr_t a) {
  uint64_t h = (a * 0x9E3779B97F4A7C15ull) >> 51;
  Lock* dead = nullptr;
  for (int i = 0; i < LOCK_N; i++) {
    Lock* l = &locks[(h + i) % LOCK_N];
    if (l->addr == a) return l;
    if (l->addr == 1 && !dead) dead = l;
    if (l->addr && i + 1 < LOCK_N) continue;
    if (l->addr) break;
    if (!dead) dead = l;
    break;
  }
  if (!dead) violate(self, 0, "harness", "too many locks");
  dead->addr = a;
  heap_locks += in_arena(a);
  return dead;
}
void forget_locks(uintptr_t lo, uintptr_t hi) {
  if (!heap_locks || hi - lo > 4096) return;
  for (uintptr_t a = lo & ~3ull; a < hi; a += 4) {
    uint64_t h = (a * 0x9E3779B97F4A7C15ull) >> 51;
    for (int i = 0; i < LOCK_N; i++) {
      Lock* l = &locks[(h + i) % LOCK_N];
      if (!l->addr) break;
      if (l->addr != a) continue;
      __real_memset((void*)l, 0, sizeof *l);
      l->addr = 1;
      heap_locks--;
      break;
    }
  }
}
bool pr_mutex(void* p, Thread*) { return ((Lock*)p)->owner == 0; }
bool pr_wr(void* p, Thread*) { auto* l = (Lock*)p; return l->owner == 0 && l->nreaders == 0; }
bool pr_rd(void* p, Thread*) { return ((Lock*)p)->owner == 0; }
void lk_event(Thread* t) { if (multi && !t->in_rt) { hot_event(t); preempt(t); } }
int mutex_lock(uintptr_t a, int kind, bool try_) {
  Thread* t = self;
  lk_event(t);
  Lock* l = lock_of(a);
  if (l->owner == t->id + 1) {
    if (kind == 1) { l->count++; return 0; }
    if (try_ ) return EBUSY;
    if (kind == 2) return EDEADLK;
  }
  if (try_ && l->owner) return EBUSY;
  block_on(t, pr_mutex, l);
  l->owner = t->id + 1;
  l->count = 1;
  vc_join(t->vc, l->vc);
  return 0;
}
int mutex_unlock(uintptr_t a) {
  Thread* t = self;
  Lock* l = lock_of(a);
  if (l->owner != t->id + 1) return EPERM;
  if (--l->count) return 0;
  l->owner = 0;
  vc_join(l->vc, t->vc);
  t->vc.c[t->id]++;
  lk_event(t);
  return 0;
}
void rw_rd(uintptr_t a) {
  Thread* t = self;
  lk_event(t);
  Lock* l = lock_of(a);
  block_on(t, pr_rd, l);
  l->readers[t->id]++;
  l->nreaders++;
  vc_join(t->vc, l->vc);
}
void rw_wr(uintptr_t a) {
  Thread* t = self;
  lk_event(t);
  Lock* l = lock_of(a);
  block_on(t, pr_wr, l);
  l->owner = t->id + 1;
  vc_join(t->vc, l->vc);
  vc_join(t->vc, l->rvc);
}
void rw_un(uintptr_t a) {
  Thread* t = self;
  Lock* l = lock_of(a);
  if (l->owner == t->id + 1) { l->owner = 0; vc_join(l->vc, t->vc); }
  else if (l->readers[t->id]) { l->readers[t->id]--; l->nreaders--; vc_join(l->rvc, t->vc); }
  t->vc.c[t->id]++;
  lk_event(t);
}
inline bool simulated() { return active && self && !self->in_rt; }

// ---------------------------------------------------------------- I/O
constexpr int MAXFD = 1024;
uint8_t fdtab[MAXFD];       // 1: file of the simulated disk
size_t dirlen = 0;
int nmaps = 0;
struct MapEnt { uintptr_t a; size_t n; } maps[64];
struct FileEnt { FILE* f; } files[64];

bool on_disk(const char* p) {
  return p && C.dir && ((p[0] && p[0] != '/') || (!strncmp(p, C.dir, dirlen) && p[dirlen] == '/'));
}
// returns 0: proceed, IO_SHORT: come up short, or sets errno and returns IO_FAIL
int io_event(Thread* t, const char* what) {
  if (!t || !t->in_call || t->in_rt || !t->io_armed) return 0;
  int n = t->io_n++;
  tick(t, 0);
  for (int i = 0; i < t->plan.n; i++) {
    // Interruptions come in short bursts, so that code which retries on EINTR ends; other failures may last.
    bool hit = t->plan.ev[i] == n ||
               (t->plan.persist && t->plan.what[i] <= IO_EINTR && n > t->plan.ev[i] && (t->plan.what[i] != IO_EINTR || n <= t->plan.ev[i] + 3));
    if (!hit) continue;
    int w = t->plan.what[i];
    int perr = t->plan.err[i];
    if (w == IO_SHORT && strcmp(what, "read")) { w = IO_FAIL; perr = EIO; }   // only reads come up short
    char nm[40];
    t->in_rt++;
    if (w == IO_REPLACE || w == IO_UNLINK) {
      bool ic = t->in_call;
      t->in_call = false;
      if (t->io_cb) (*t->io_cb)(w);
      t->in_call = ic;
      snprintf(nm, sizeof nm, "io-%s-at-%s", w == IO_REPLACE ? "replace" : "unlink", what);
      fault_note(nm);
      t->io_f++;
      t->in_rt--;
      continue;
    }
    t->io_f++;
    t->faulted = true;
    int err = w == IO_EINTR ? EINTR : perr ? perr : EIO;
    if (w == IO_SHORT) snprintf(nm, sizeof nm, "io-short-%s", what);
    else snprintf(nm, sizeof nm, "io-%s-%s", what, err == EINTR ? "EINTR" : err == EIO ? "EIO" : err == ENOMEM ? "ENOMEM" : err == EMFILE ? "EMFILE" : err == EACCES ? "EACCES" : err == ENODEV ? "ENODEV" : err == ENFILE ? "ENFILE" : err == EOVERFLOW ? "EOVERFLOW" : "other");
    fault_note(nm);
    t->in_rt--;
    if (w == IO_SHORT) return IO_SHORT;
    errno = err;
    return IO_FAIL;
  }
  if (multi) { hot_event(t); preempt(t); }
  return 0;
}
bool simio() { return active && self && self->in_call && !self->in_rt; }

template <class F> F real(const char* name) {
  InRt g;
  return (F)dlsym(RTLD_NEXT, name);
}
#define REAL(name) static auto real_##name = real<decltype(&::name)>(#name)

void on_signal(int sig, siginfo_t* si, void* uc) {
  Thread* t = self;
  if (sig == SIGPROF) {                     // every 10 s of processor time
    bool same = ncalls == prof_calls;
    prof_calls = ncalls;
    prof_same = same ? prof_same + 1 : 0;
    if (prof_same < 2) return;
  }
  if (t) t->in_rt++;
  if (!R || !active) die(3);
  uintptr_t pc = 0;
#ifdef __x86_64__
  pc = ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
#endif
  R->violated = 1;
  if (sig == SIGPROF) {
    snprintf(R->vkind, sizeof R->vkind, "hang");
    snprintf(R->vmsg, sizeof R->vmsg, "no end after 20 s of processor time: a library call does not terminate");
  } else {
    snprintf(R->vkind, sizeof R->vkind, "crash");
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGABRT ? "SIGABRT" : "SIGILL";
    snprintf(R->vmsg, sizeof R->vmsg, "process killed by %s%s", n, t && t->in_call ? " inside a library call" : "");
  }
  (void)si;
  push_pcs(t, sig == SIGPROF ? 0 : pc);
  finish_result();
  die(0);
}
void on_terminate() {
  Thread* t = self;
  if (t) t->in_rt++;
  if (R && active && !R->violated) {
    R->violated = 1;
    snprintf(R->vkind, sizeof R->vkind, "terminate");
    std::type_info* ty = abi::__cxa_current_exception_type();
    snprintf(R->vmsg, sizeof R->vmsg, "std::terminate was called%s%s%.80s", t && t->in_call ? " inside a library call" : "", ty ? " with an exception of type " : "", ty ? ty->name() : "");
    push_pcs(t, 0);
    finish_result();
  }
  die(0);
}
char altstack[65536];

} // namespace

// ================================================================== API
void prepare_process();   // called once by the driver before forking

void map_regions() {
  static bool done = false;
  if (done) return;
  done = true;
  auto m = [](uintptr_t a, size_t n) {
    void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)a) { fprintf(stderr, "cannot map %#lx\n", (long)a); _exit(3); }
  };
  m(ARENA, ARENA_SZ);
  m(SHADOW, ARENA_SZ / 8);
  m(CELLS, ARENA_SZ / 8 * sizeof(Cell));
  m(STACKS, STACK_SZ * MAXT);
  auto a = [](size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
  tbl    = (Cell*)a(sizeof(Cell) * WAYS << TBL_BITS);
  tblkey = (uintptr_t*)a(sizeof(uintptr_t) * WAYS << TBL_BITS);
  syncs  = (SyncVar*)a(sizeof(SyncVar) * SYNC_N);
  locks  = (Lock*)a(sizeof(Lock) * LOCK_N);
  bt     = (BEnt*)a(sizeof(BEnt) * (ARENA_SZ / 16));
  real_pcreate = (decltype(real_pcreate))dlsym(RTLD_NEXT, "pthread_create");
  real_pjoin   = (decltype(real_pjoin))dlsym(RTLD_NEXT, "pthread_join");
  pthread_key_create(&exit_key, thread_exit_handoff);
}
void prepare_process() { map_regions(); dl_iterate_phdr(find_libc, nullptr); }

void child_begin(const Config& c) {
  map_regions();
  C = c;
  R = c.res;
  dirlen = C.dir ? strlen(C.dir) : 0;
  if (C.dir && chdir(C.dir)) die(3);
  for (int s = 0; s < NSTREAM; s++) {
    rng[s].s = c.seed * 0x2545F4914F6CDD1Dull + 0x1234567ull * (s + 1);
    rng[s].next();
    stream_replay[s] = c.replay || c.phase > 0;
    pos[s] = 0;
  }
  heap_rng.s = 12345;
  H = HS = 0;
  gsteps = 0;
  nthreads = 1;
  Thread* t = &T[0];
  __real_memset((void*)t, 0, sizeof *t);
  t->opts = CallOpts{};
  t->state = 1;
  t->vc.c[0] = 1;
  uintptr_t end = (uintptr_t)__libc_stack_end;
  t->stk_lo = end - (size_t(64) << 20);
  t->stk_sz = (size_t(64) << 20) + (1 << 20);
  self = t;
  __libc_single_threaded = 0;
  stack_t ss{};
  ss.ss_sp = altstack;
  ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
  itimerval it{};
  it.it_value.tv_sec = it.it_interval.tv_sec = 10;
  ncalls = prof_calls = 0;
  prof_same = 0;
  setitimer(ITIMER_PROF, &it, nullptr);
  active = true;
}
void child_end() {
  InRt g;
  R->finished = 1;
  R->faults = fault_total;
  R->sim_time_us = elapsed_us;
  finish_result();
  die(0);
}
const Config& cfg() { return C; }
int phase() { return C.phase; }

uint32_t choose(Stream s, uint32_t n) {
  InRt g;
  uint32_t v;
  if (stream_replay[s]) v = from_list(s);
  else v = (uint32_t)(rng[s].next() >> 16);
  if (pos[s] >= MAX_DEC) v = 0;
  v = n ? v % n : 0;
  record(s, v);
  return v;
}
uint64_t draw64(Stream s) {
  uint64_t a = choose(s, 1u << 31), b = choose(s, 1u << 31), c = choose(s, 4);
  return (a << 33) ^ (b << 2) ^ c;
}
uint32_t draw_geom(Stream s, uint32_t mean) {
  InRt g;
  uint32_t v;
  if (stream_replay[s]) v = from_list(s);
  else {
    // geometric-like: uniform exponent, so short and long budgets both occur
    uint64_t x = rng[s].next();
    double u = ((x >> 11) + 1) * (1.0 / 9007199254740993.0);
    double e = -__builtin_log(u) * mean;
    v = e > 2e9 ? 2000000000u : (uint32_t)e + 1;
  }
  if (pos[s] >= MAX_DEC) v = 0;
  record(s, v);
  return v;
}

static void vlogf(const char* fmt, va_list ap) {
  char buf[2048];
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  if (n < 0) return;
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  uint64_t h = 1469598103934665603ull;
  for (int i = 0; i < n; i++) h = (h ^ (uint8_t)buf[i]) * 1099511628211ull;
  H = mix(H, h);
  if (C.verbose && R->loglen + n + 16 < LOG_MAX) {
    int m = snprintf(R->log + R->loglen, LOG_MAX - R->loglen, "[t%d] ", self ? self->id : -1);
    R->loglen += m;
    __real_memcpy(R->log + R->loglen, buf, n);
    R->loglen += n;
    R->log[R->loglen++] = '\n';
    R->log[R->loglen] = 0;
  }
}
void log(const char* fmt, ...) {
  InRt g;
  va_list ap;
  va_start(ap, fmt);
  vlogf(fmt, ap);
  va_end(ap);
}
void outcome(int op, const std::string& text, bool compare) {
  InRt g;
  uint64_t h = 1469598103934665603ull;
  for (char c : text) h = (h ^ (uint8_t)c) * 1099511628211ull;
  H = mix(H, h + op);
  if (R->nout >= MAX_OUT) return;
  Outcome& o = R->out[R->nout++];
  o.op = op;
  o.flags = compare ? 1 : 0;
  o.hash = h;
  snprintf(o.text, sizeof o.text, "%s", text.c_str());
}
void stat(const char* name, uint64_t n) {
  if (!R) return;
  for (int i = 0; i < R->nstat; i++)
    if (!strcmp(R->stat[i].name, name)) { R->stat[i].n += n; return; }
  if (R->nstat >= MAX_STAT) return;
  Stat& s = R->stat[R->nstat++];
  snprintf(s.name, sizeof s.name, "%s", name);
  s.n = n;
}
void fault_note(const char* name, uint64_t n) {
  char b[44];
  snprintf(b, sizeof b, "F:%s", name);
  stat(b, n);
  fault_total += n;
}
void set_phases(int n) { R->nphases = n; }
void work_hash(uint64_t h) { R->work_hash = h; }
void violation(const char* kind, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vviolate(self, 0, kind, fmt, ap);
}

__attribute__((noinline)) static void stack_fill() {
  volatile char buf[24 * 1024];
  for (size_t i = 0; i < sizeof buf; i += 64)
    __real_memset((void*)(buf + i), hp.fill_new, 64);
  asm volatile("" ::: "memory");
}
Call::Call(CallOpts o) {
  Thread* t = self;
  stack_fill();
  if (!t) return;
  t->opts = o;
  t->allocs = 0;
  t->faulted = false;
  t->base_depth = t->depth;
  t->call_step0 = t->steps;
  t->waits = 0;
  ncalls++;
  t->in_call = true;
}
Call::~Call() { leave_call(); }
void leave_call() {
  Thread* t = self;
  if (!t || !t->in_call) return;
  t->in_call = false;
  t->depth = t->base_depth;
  H = mix(H, t->allocs);
}
uint64_t call_allocs() { return self->allocs; }
bool call_faulted() { return self->faulted; }

// ---------------------------------------------------------------- threads API
static bool pr_alldone(void*, Thread* me) {
  for (int i = 0; i < nthreads; i++)
    if (&T[i] != me && T[i].fn && T[i].state != 3 && T[i].state != 0) return false;
  return true;
}
void sched_setup(bool none) {
  uint32_t k = none ? 0 : choose(S, 10);
  static const uint32_t means[] = {6, 25, 120, 600, 3000, 15000};
  if (k == 0) strategy = 0;
  else if (k <= 4) { strategy = 1; mean_budget = means[choose(S, 6)]; }
  else if (k <= 7) { strategy = 2; mean_hot = 1 + choose(S, 40); }
  else { strategy = 3; mean_budget = means[2 + choose(S, 4)]; }
}
int spawn(std::function<void()> fn) {
  InRt g;
  Thread* t = new_thread();
  t->fn = new std::function<void()>(std::move(fn));
  t->state = 1;
  t->prio = strategy == 3 ? (int)choose(S, 1000) : 0;
  if (stalling && flip(S, 2)) {
    static const uint32_t after[] = {20, 150, 1000, 6000, 40000};
    t->stall_at = draw_geom(S, after[choose(S, 5)]);
  }
  start_real(t);
  return t->id;
}
void join_all() {
  Thread* t = self;
  multi = multi_ever = true;
  t->prio = -1000000;
  block_on(t, pr_alldone, nullptr);
  t->in_rt++;
  multi = false;
  for (int i = 1; i < nthreads; i++) {
    if (T[i].state == 3 && T[i].fn && !T[i].joined) {
      real_pjoin(T[i].pt, nullptr);
      T[i].joined = true;
      vc_join(t->vc, T[i].vc);
      delete T[i].fn;
      T[i].fn = nullptr;
      T[i].state = 0;
    }
  }
  int live = 0;
  for (int i = 1; i < nthreads; i++) if (T[i].state == 1 || T[i].state == 2) live++;
  if (live) multi = true;
  else {
    bool allj = true;
    for (int i = 1; i < nthreads; i++) if (T[i].state == 3 && !T[i].joined) allj = false;
    if (allj) nthreads = 1;
  }
  t->in_rt--;
}
void stall_threads() { stalling = true; detect_races = false; }
uint64_t steps_done() { return gsteps; }
uint64_t work_done() { return self ? self->work : 0; }
int self_id() { return self ? self->id : -1; }
void RwLock::rdlock() { rw_rd((uintptr_t)this); }
void RwLock::wrlock() { rw_wr((uintptr_t)this); }
void RwLock::unlock() { rw_un((uintptr_t)this); }
void pause_point() {
  Thread* t = self;
  if (t && multi && !t->in_rt) { t->steps++; hot_event(t); preempt(t); }
}

// ---------------------------------------------------------------- heap API
void heap_policy(const HeapPolicy& p) { hp = p; }
HeapPolicy draw_heap_policy() {
  static const uint8_t fills[] = {0xAA, 0x00, 0xFF, 0x7F, 0x41, 0x3F};
  HeapPolicy p;
  p.fill_new  = fills[choose(F, 6)];
  p.fill_free = fills[choose(F, 6)];
  p.reuse     = choose(F, 3);
  p.gap       = choose(F, 2) ? 1 + choose(F, 8) : 0;
  return p;
}
uint64_t live_blocks() { return nblocks_live; }
uint64_t live_bytes() { return nbytes_live; }

// ---------------------------------------------------------------- I/O API
void io_arm(const IoPlan& p) { Thread* t = self; t->plan = p; t->io_armed = true; t->io_n = t->io_f = 0; }
void io_disarm() { self->io_armed = false; }
int io_events() { return self->io_n; }
int io_fired() { return self->io_f; }
void io_on_event(std::function<void(int)> cb) {
  InRt g;
  Thread* t = self;
  delete t->io_cb;
  t->io_cb = new std::function<void(int)>(std::move(cb));
}
static bool elsewhere = false;             // the process works in a directory below that of the files
std::string disk_path(const char* name) { return std::string(elsewhere ? "../" : "./") + name; }   // relative: same text in every process
static std::string real_path(const char* name) { return std::string(C.dir) + "/" + name; }
void env_chdir(bool away) {
  InRt g;
  if (away == elsewhere) return;
  if (away) ::mkdir("wd", 0700);
  if (::chdir(away ? "wd" : "..")) violate(self, 0, "harness", "cannot change directory");
  elsewhere = away;
  fault_note("env-chdir");
}
static void write_all(const std::string& p, const std::string& c) {
  int fd = syscall(SYS_open, p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd < 0) violate(self, 0, "harness", "cannot write %s", p.c_str());
  size_t o = 0;
  while (o < c.size()) {
    long r = syscall(SYS_write, fd, c.data() + o, c.size() - o);
    if (r <= 0) violate(self, 0, "harness", "cannot write %s", p.c_str());
    o += r;
  }
  syscall(SYS_close, fd);
}
// What stat() says beyond the size is simulated: inode numbers (reused, last freed first) and times (with
// the granularity of a timer tick), so that a run does not depend on the kernel's.
struct Meta { uint64_t real, ino; int64_t mtime; };
static Meta metas[64];
static uint64_t ino_free[64], ino_next = 1001;
static int n_ino_free = 0;
static uint64_t real_ino(const char* p) {
  struct stat st;
  return syscall(SYS_newfstatat, AT_FDCWD, p, &st, 0) == 0 ? st.st_ino : 0;
}
static Meta* meta_of(uint64_t real) {
  if (real) for (auto& m : metas) if (m.real == real) return &m;
  return nullptr;
}
static void meta_written(const char* p, uint64_t before) {
  uint64_t r = real_ino(p);
  Meta* m = meta_of(r);
  if (!m || !before) {
    if (!m) for (auto& x : metas) if (!x.real) { m = &x; break; }
    if (!m) return;
    m->real = r;
    m->ino = n_ino_free ? ino_free[--n_ino_free] : ino_next++;
  }
  now_us += 3000;
  m->mtime = now_us / 10000 * 10000;
}
static void meta_gone(uint64_t real) {
  Meta* m = meta_of(real);
  if (!m) return;
  if (n_ino_free < 64) ino_free[n_ino_free++] = m->ino;
  m->real = 0;
}
void disk_write(const char* name, const std::string& c) {
  InRt g;
  std::string p = real_path(name);
  uint64_t b = real_ino(p.c_str());
  write_all(p, c);
  meta_written(p.c_str(), b);
}
void disk_replace(const char* name, const std::string& c) {
  InRt g;
  std::string p = real_path(name), q = p + ".tmp";
  write_all(q, c);
  meta_written(q.c_str(), 0);
  uint64_t old = real_ino(p.c_str());
  ::rename(q.c_str(), p.c_str());
  meta_gone(old);
}
void disk_unlink(const char* name) {
  InRt g;
  std::string p = real_path(name);
  uint64_t old = real_ino(p.c_str());
  ::unlink(p.c_str());
  meta_gone(old);
}
void disk_touch(const char* name, int64_t us) {
  InRt g;
  if (Meta* m = meta_of(real_ino(real_path(name).c_str()))) m->mtime = us;
}
static const int64_t EPOCH = 1700000000ll * 1000000;
static int sim_stat(int r, struct stat* st, bool ours) {
  if (r || !ours) return r;
  static Meta orphan{1, 999, 0};        // replaced or unlinked, but still open
  Meta* m = meta_of(st->st_ino);
  if (!m) m = &orphan;
  int64_t us = EPOCH + m->mtime;
  st->st_ino = m->ino;
  st->st_dev = 42;
  st->st_blocks = (st->st_size + 511) / 512;
  st->st_mtim.tv_sec = st->st_ctim.tv_sec = st->st_atim.tv_sec = us / 1000000;
  st->st_mtim.tv_nsec = st->st_ctim.tv_nsec = st->st_atim.tv_nsec = us % 1000000 * 1000;
  return r;
}
int open_fds() { int n = 0; for (int i = 0; i < MAXFD; i++) n += fdtab[i]; return n; }
int open_maps() { return nmaps; }
int real_fds() {
  int n = 0;
  for (int i = 0; i < 256; i++) if (syscall(SYS_fcntl, i, F_GETFD) >= 0) n++;
  return n;
}

// ---------------------------------------------------------------- environment
static int loc_state = -1;
bool env_locale_available() {
  if (loc_state < 0) {
    InRt g;
    locale_t l = newlocale(LC_ALL_MASK, "de_DE.UTF-8", nullptr);
    loc_state = l ? 1 : 0;
    if (l) freelocale(l);
  }
  return loc_state == 1;
}
void env_locale(bool comma) {
  InRt g;
  if (!env_locale_available()) return;
  std::locale::global(comma ? std::locale("de_DE.UTF-8") : std::locale::classic());
  if (!comma) setlocale(LC_ALL, "C");
  else {                       // libstdc++ fills its per-locale caches on first use; not the library's doing
    double d = 0;
    std::ostringstream() << 1.5 << 2;
    std::istringstream("1,5") >> d;
  }
  if (comma) fault_note("env-locale-switch");
}
std::string env_signature() {
  InRt g;
  char cwd[4096];
  std::string r = std::locale().name();
  r += std::string(" / ") + setlocale(LC_ALL, nullptr) + " / " + (getcwd(cwd, sizeof cwd) ? cwd : "?") + " / rounding " + std::to_string(fegetround());
  uint64_t h = 0;
  for (char** e = environ; e && *e; e++) for (char* p = *e; *p; p++) h = h * 31 + (unsigned char)*p;
  r += " / environment " + std::to_string(h % 1000000);
  h = 0;
  for (int i = 1; i < 32; i++) {
    struct sigaction sa;
    if (i == SIGKILL || i == SIGSTOP || sigaction(i, nullptr, &sa)) continue;
    h = h * 31 + (uint64_t)sa.sa_handler + sa.sa_flags * 7919ull;
  }
  r += " / signal handlers " + std::to_string(h % 1000000);
  sigset_t ss;
  sigemptyset(&ss);
  pthread_sigmask(SIG_BLOCK, nullptr, &ss);
  h = 0;
  for (int i = 1; i < 32; i++) h = h * 2 + sigismember(&ss, i);
  mode_t um = umask(0);
  umask(um);
  itimerval it;
  getitimer(ITIMER_REAL, &it);
  r += " / signal mask " + std::to_string(h) + " / umask " + std::to_string(um) + " / alarm " + (it.it_value.tv_sec || it.it_value.tv_usec ? "on" : "off");
  static const int lim[] = {RLIMIT_NOFILE, RLIMIT_STACK, RLIMIT_CORE, RLIMIT_AS, RLIMIT_FSIZE, RLIMIT_DATA};
  h = 0;
  for (int l : lim) { struct rlimit rl; if (!getrlimit((__rlimit_resource)l, &rl)) h = h * 31 + rl.rlim_cur * 3 + rl.rlim_max; }
  r += " / limits " + std::to_string(h % 1000000) + " / nice " + std::to_string(getpriority(PRIO_PROCESS, 0));
  std::ostream* os[] = {&std::cout, &std::cerr, &std::clog};
  for (auto* o : os)
    r += " / stream " + std::to_string((int)o->flags()) + " " + std::to_string(o->precision()) + " " + std::to_string(o->width()) + " " + std::to_string((int)o->fill()) + " " +
         std::to_string((int)o->exceptions()) + " " + std::to_string((int)o->rdstate()) + " " + o->getloc().name() + " " + std::to_string((uintptr_t)o->rdbuf() % 1000000);
  r += " / handlers " + std::to_string(((uintptr_t)std::get_terminate() + (uintptr_t)std::get_new_handler() * 3) % 1000000);
#ifdef __SSE__
  r += " / mxcsr " + std::to_string(_mm_getcsr() & ~0x3fu);
#endif
  return r;
}
void set_errno_noise(int e) { errno = e; }
void env_clock_jump(int64_t us) { now_us += us; fault_note("env-clock-jump"); }
static unsigned env_noise = 0;
void env_vars(unsigned n) { env_noise = n; if (n) fault_note("env-variables"); }
static char* sim_getenv(const char* n) {
  static const char* const vals[] = {"", "0", "1", "2", "64", "yes", "off", "de_DE.UTF-8", "/tmp", "C", "-1", "debug"};
  uint64_t h = env_noise;
  for (; *n; n++) h = (h * 31 + (unsigned char)*n) * 0x9E3779B97F4A7C15ull >> 7;
  return h % 3 == 0 ? nullptr : (char*)vals[h / 3 % 12];
}
void env_advance(int64_t us) { now_us += us; elapsed_us += us; }
int64_t env_now() { return now_us; }

} // namespace rt
using namespace rt;

// ================================================================== compiler entry points
#define PC (uintptr_t) __builtin_return_address(0)
extern "C" {
// libc aborts if it cannot note a thread_local destructor: that memory is not the library's
int __cxa_thread_atexit_impl(void (*)(void*), void*, void*);
int __cxa_thread_atexit(void (*f)(void*), void* o, void* d) {
  InRt g;
  return __cxa_thread_atexit_impl(f, o, d);
}
void __tsan_init() {}
void __tsan_func_entry(void* pc) {
  Thread* t = self;
  if (!t || !t->in_call) return;
  if (t->depth < 1024) t->cs[t->depth] = (uintptr_t)pc;
  t->depth++;
  if (!t->in_rt) tick(t, 0);
}
void __tsan_func_exit() {
  Thread* t = self;
  if (t && t->in_call && t->depth > t->base_depth) t->depth--;
}
#define RW(n)                                                                              \
  void __tsan_read##n(void* a) { mem((uintptr_t)a, n, false, PC); }                        \
  void __tsan_write##n(void* a) { mem((uintptr_t)a, n, true, PC); }                        \
  void __tsan_unaligned_read##n(void* a) { mem((uintptr_t)a, n, false, PC); }              \
  void __tsan_unaligned_write##n(void* a) { mem((uintptr_t)a, n, true, PC); }              \
  void __tsan_volatile_read##n(void* a) { mem((uintptr_t)a, n, false, PC); }               \
  void __tsan_volatile_write##n(void* a) { mem((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { mem((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { mem((uintptr_t)a, n, true, PC); }
void __tsan_vptr_update(void** a, void* v) { mem((uintptr_t)a, 8, *a != v, PC); }
void __tsan_vptr_read(void** a) { mem((uintptr_t)a, 8, false, PC); }

#define ATOM(bits, ty)                                                                     \
  ty __tsan_atomic##bits##_load(const volatile ty* a, int mo) {                            \
    Thread* t = atomic_pre((uintptr_t)a, sizeof(ty), false, PC);                           \
    ty v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                           \
    atomic_post(t, (uintptr_t)a, mo, true, false, 0, (int64_t)v, sizeof(ty));              \
    return v;                                                                              \
  }                                                                                        \
  void __tsan_atomic##bits##_store(volatile ty* a, ty v, int mo) {                         \
    Thread* t = atomic_pre((uintptr_t)a, sizeof(ty), true, PC);                            \
    atomic_post(t, (uintptr_t)a, mo, false, true, 0, 0, sizeof(ty));                       \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                              \
  }                                                                                        \
  ty __tsan_atomic##bits##_exchange(volatile ty* a, ty v, int mo) {                        \
    Thread* t = atomic_pre((uintptr_t)a, sizeof(ty), true, PC);                            \
    ty o = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                    \
    atomic_post(t, (uintptr_t)a, mo, true, true, 0, (int64_t)o, sizeof(ty));               \
    return o;                                                                              \
  }                                                                                        \
  ty __tsan_atomic##bits##_fetch_add(volatile ty* a, ty v, int mo) {                       \
    Thread* t = atomic_pre((uintptr_t)a, sizeof(ty), true, PC);                            \
    ty o = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                     \
    atomic_post(t, (uintptr_t)a, mo, true, true, (int64_t)v, (int64_t)o, sizeof(ty));      \
    return o;                                                                              \
  }                                                                                        \
  ty __tsan_atomic##bits##_fetch_sub(volatile ty* a, ty v, int mo) {                       \
    Thread* t = atomic_pre((uintptr_t)a, sizeof(ty), true, PC);                            \
    ty o = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                     \
    atomic_post(t, (uintptr_t)a, mo, true, true, -(int64_t)v, (int64_t)o, sizeof(ty));     \
    return o;                                                                              \
  }                                                                                        \
  ty __tsan_atomic##bits##_fetch_and(volatile ty* a, ty v, int mo) {                       \
    Thread* t = atomic_pre((uintptr_t)a, sizeof(ty), true, PC);                            \
    ty o = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                     \
    atomic_post(t, (uintptr_t)a, mo, true, true, 0, (int64_t)o, sizeof(ty));               \
    return o;                                                                              \
  }                                                                                        \
  ty __tsan_atomic##bits##_fetch_or(volatile ty* a, ty v, int mo) {                        \
    Thread* t = atomic_pre((uintptr_t)a, sizeof(ty), true, PC);                            \
    ty o = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                      \
    atomic_post(t, (uintptr_t)a, mo, true, true, 0, (int64_t)o, sizeof(ty));               \
    return o;                                                                              \
  }                                                                                        \
  ty __tsan_atomic##bits##_fetch_xor(volatile ty* a, ty v, int mo) {                       \
    Thread* t = atomic_pre((uintptr_t)a, sizeof(ty), true, PC);                            \
    ty o = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                     \
    atomic_post(t, (uintptr_t)a, mo, true, true, 0, (int64_t)o, sizeof(ty));               \
    return o;                                                                              \
  }                                                                                        \
  ty __tsan_atomic##bits##_fetch_nand(volatile ty* a, ty v, int mo) {                      \
    Thread* t = atomic_pre((uintptr_t)a, sizeof(ty), true, PC);                            \
    ty o = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                    \
    atomic_post(t, (uintptr_t)a, mo, true, true, 0, (int64_t)o, sizeof(ty));               \
    return o;                                                                              \
  }                                                                                        \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty* a, ty* c, ty v, int mo, int fmo) { \
    Thread* t = atomic_pre((uintptr_t)a, sizeof(ty), true, PC);                            \
    ty e = *c;                                                                             \
    bool ok = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    atomic_post(t, (uintptr_t)a, ok ? mo : fmo, true, ok, 0, 0, 0);                        \
    *c = e;                                                                                \
    return ok;                                                                             \
  }                                                                                        \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty* a, ty* c, ty v, int mo, int fmo) { \
    Thread* t = atomic_pre((uintptr_t)a, sizeof(ty), true, PC);                            \
    ty e = *c;                                                                             \
    bool ok = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    atomic_post(t, (uintptr_t)a, ok ? mo : fmo, true, ok, 0, 0, 0);                        \
    *c = e;                                                                                \
    return ok;                                                                             \
  }                                                                                        \
  ty __tsan_atomic##bits##_compare_exchange_val(volatile ty* a, ty c, ty v, int mo, int fmo) { \
    Thread* t = atomic_pre((uintptr_t)a, sizeof(ty), true, PC);                            \
    ty e = c;                                                                              \
    bool ok = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    atomic_post(t, (uintptr_t)a, ok ? mo : fmo, true, ok, 0, 0, 0);                        \
    return e;                                                                              \
  }
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)
static char fence_addr;
void __tsan_atomic_thread_fence(int mo) {
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
  Thread* t = self;
  if (!t || !t->in_call || t->in_rt || !multi) return;
  if (acq(mo)) acquire(t, (uintptr_t)&fence_addr);
  if (rel(mo)) release(t, (uintptr_t)&fence_addr);
}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- memory functions of instrumented code
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (n) { mem((uintptr_t)s, n, false, PC); mem((uintptr_t)d, n, true, PC); }
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (n) { mem((uintptr_t)s, n, false, PC); mem((uintptr_t)d, n, true, PC); }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (n) mem((uintptr_t)d, n, true, PC);
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
  if (n) { mem((uintptr_t)a, n, false, PC); mem((uintptr_t)b, n, false, PC); }
  return __real_memcmp(a, b, n);
}
size_t __real_strlen(const char*);
size_t __wrap_strlen(const char* s) {
  size_t n = 0;
  Thread* t = self;
  if (t && t->in_call && !t->in_rt && in_arena((uintptr_t)s)) {
    while (true) {
      if (!heap_ok((uintptr_t)s + n, 1)) heap_error(t, (uintptr_t)s + n, 1, false, PC);
      if (!s[n]) break;
      n++;
    }
    mem((uintptr_t)s, n + 1, false, PC);
    return n;
  }
  return __real_strlen(s);
}
// red-black tree and list primitives live uninstrumented in libstdc++
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, uintptr_t*, uintptr_t*, uintptr_t*);
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, uintptr_t* x, uintptr_t* p, uintptr_t* h) {
  mem((uintptr_t)x, 32, true, PC);
  mem((uintptr_t)p, 32, true, PC);
  mem((uintptr_t)h, 32, true, PC);
  __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h);
}
uintptr_t* __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(uintptr_t*, uintptr_t*);
uintptr_t* __wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(uintptr_t* z, uintptr_t* h) {
  mem((uintptr_t)z, 32, true, PC);
  mem((uintptr_t)h, 32, true, PC);
  return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(z, h);
}
uintptr_t* __real__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const uintptr_t*);
uintptr_t* __wrap__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const uintptr_t* x) {
  mem((uintptr_t)x, 32, false, PC);
  return __real__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(x);
}
uintptr_t* __real__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(uintptr_t*);
uintptr_t* __wrap__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(uintptr_t* x) {
  mem((uintptr_t)x, 32, false, PC);
  return __real__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(x);
}
void __real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(uintptr_t*, uintptr_t*);
void __wrap__ZNSt8__detail15_List_node_base7_M_hookEPS0_(uintptr_t* n, uintptr_t* p) {
  mem((uintptr_t)n, 16, true, PC);
  mem((uintptr_t)p, 16, true, PC);
  __real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(n, p);
}
void __real__ZNSt8__detail15_List_node_base9_M_unhookEv(uintptr_t*);
void __wrap__ZNSt8__detail15_List_node_base9_M_unhookEv(uintptr_t* n) {
  mem((uintptr_t)n, 16, true, PC);
  __real__ZNSt8__detail15_List_node_base9_M_unhookEv(n);
}

// ---------------------------------------------------------------- malloc
static inline Thread* heap_thread() {
  Thread* t = self;
  return active && t && t->in_call && !t->in_rt ? t : nullptr;
}
static void* heap_new(Thread* t, size_t n, size_t align, uintptr_t pc) {
  if (multi && !from_libc(pc)) { tick(t, pc); hot_event(t); preempt(t); }
  return sim_alloc(t, n, align, pc);
}
void* malloc(size_t n) {
  if (Thread* t = heap_thread()) {
    void* p = heap_new(t, n, 16, PC);
    if (!p) errno = ENOMEM;
    return p;
  }
  return __libc_malloc(n);
}
void free(void* p) {
  if (!p) return;
  if (in_arena((uintptr_t)p)) return sim_free(p, PC);
  if (multi_ever && active) race_forget(p);
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  if (Thread* t = heap_thread()) {
    size_t n;
    void* p = __builtin_mul_overflow(a, b, &n) ? nullptr : heap_new(t, n, 16, PC);
    if (!p) errno = ENOMEM;
    else __real_memset(p, 0, n);
    return p;
  }
  return __libc_calloc(a, b);
}
void* realloc(void* p, size_t n) {
  bool ar = in_arena((uintptr_t)p);
  Thread* t = heap_thread();
  if (!ar && (!t || p)) {
    if (p && multi_ever && active) race_forget(p);
    return __libc_realloc(p, n);
  }
  void* q = t ? heap_new(t, n, 16, PC) : __libc_malloc(n);
  if (!q) { errno = ENOMEM; return nullptr; }
  if (p) {
    BEnt* e = bfind((uintptr_t)p, false);
    if (!e || !e->live) violate(t, PC, "bad-free", "realloc of a pointer that is not a live heap block");
    __real_memcpy(q, p, e->size < n ? e->size : n);
    sim_free(p, PC);
  }
  return q;
}
void* memalign(size_t al, size_t n) {
  if (Thread* t = heap_thread()) return heap_new(t, n, al, PC);
  return __libc_memalign(al, n);
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** p, size_t al, size_t n) {
  void* q = memalign(al, n);
  if (!q) return ENOMEM;
  *p = q;
  return 0;
}
size_t malloc_usable_size(void* p) {
  if (!p) return 0;
  if (in_arena((uintptr_t)p)) { BEnt* e = bfind((uintptr_t)p, false); return e ? e->size : 0; }
  static auto r = (size_t(*)(void*))dlsym(RTLD_NEXT, "malloc_usable_size");
  return r(p);
}
} // extern "C"

static void* op_new(size_t n, size_t al, uintptr_t pc) {
  Thread* t = heap_thread();
  void* p;
  if (t) p = heap_new(t, n, al, pc);
  else p = al > 16 ? __libc_memalign(al, n) : __libc_malloc(n ? n : 1);
  return p;
}
void* operator new(size_t n) { void* p = op_new(n, 16, PC); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = op_new(n, 16, PC); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, PC); }
void* operator new(size_t n, std::align_val_t a) { void* p = op_new(n, (size_t)a, PC); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = op_new(n, (size_t)a, PC); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { if (!p) return; if (in_arena((uintptr_t)p)) sim_free(p, PC); else free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { if (!p) return; if (in_arena((uintptr_t)p)) sim_free(p, PC); else free(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { operator delete(p); }

// ---------------------------------------------------------------- threads and locks of libc
extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  if (!simulated()) {
    if (!real_pcreate) real_pcreate = (decltype(real_pcreate))dlsym(RTLD_NEXT, "pthread_create");
    return real_pcreate(out, at, fn, arg);
  }
  Thread* p = self;
  {
    InRt g;
    Thread* t = new_thread();
    t->lib_created = true;
    t->start = fn;
    t->arg = arg;
    t->state = 1;
    multi = multi_ever = true;
    start_real(t);
    *out = t->pt;
  }
  hot_event(p);
  preempt(p);
  return 0;
}
static Thread* by_pt(pthread_t p) {
  for (int i = 1; i < nthreads; i++) if (T[i].lib_created && !T[i].joined && pthread_equal(T[i].pt, p)) return &T[i];
  return nullptr;
}
static bool pr_done(void* p, Thread*) { return ((Thread*)p)->state == 3; }
int pthread_join(pthread_t p, void** ret) {
  Thread* t = simulated() ? by_pt(p) : nullptr;
  if (!t) {
    if (!real_pjoin) real_pjoin = (decltype(real_pjoin))dlsym(RTLD_NEXT, "pthread_join");
    return real_pjoin(p, ret);
  }
  Thread* me = self;
  block_on(me, pr_done, t);
  InRt g;
  real_pjoin(p, ret);
  t->joined = true;
  vc_join(me->vc, t->vc);
  int others = 0;
  for (int i = 1; i < nthreads; i++) if (T[i].state == 1 || T[i].state == 2) others++;
  if (me->id == 0 && !others) {
    multi = false;
    bool all = true;
    for (int i = 1; i < nthreads; i++) if (!T[i].joined) all = false;
    if (all) nthreads = 1;
  } else if (me->id != 0) {
    while (nthreads > 1 && T[nthreads - 1].joined) nthreads--;
  }
  return 0;
}
int pthread_detach(pthread_t p) {
  Thread* t = simulated() ? by_pt(p) : nullptr;
  if (t) { t->detached = true; return 0; }
  static auto r = real<int (*)(pthread_t)>("pthread_detach");
  return r(p);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (simulated()) return mutex_lock((uintptr_t)m, m->__data.__kind & 3, false);
  REAL(pthread_mutex_lock);
  return active ? 0 : real_pthread_mutex_lock(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (simulated()) return mutex_lock((uintptr_t)m, m->__data.__kind & 3, true);
  REAL(pthread_mutex_trylock);
  return active ? 0 : real_pthread_mutex_trylock(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) {
  if (simulated()) {
    int r = mutex_lock((uintptr_t)m, m->__data.__kind & 3, true);
    if (r == EBUSY) { yield_point(self); r = mutex_lock((uintptr_t)m, m->__data.__kind & 3, true); }
    if (r == EBUSY && stalled_since) violate(self, 0, "held-up", "another thread is suspended in the middle of a call, and this call waits until a timeout");
    return r == EBUSY ? ETIMEDOUT : r;
  }
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (simulated()) return mutex_unlock((uintptr_t)m);
  REAL(pthread_mutex_unlock);
  return active ? 0 : real_pthread_mutex_unlock(m);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (simulated()) { Lock* l = lock_of((uintptr_t)m); uintptr_t a = l->addr; __real_memset((void*)l, 0, sizeof *l); l->addr = a; return 0; }
  return 0;
}
int pthread_spin_lock(pthread_spinlock_t* m) {
  if (simulated()) return mutex_lock((uintptr_t)m, 0, false);
  return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* m) {
  if (simulated()) return mutex_lock((uintptr_t)m, 0, true);
  return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* m) {
  if (simulated()) return mutex_unlock((uintptr_t)m);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (simulated()) { rw_rd((uintptr_t)l); return 0; }
  REAL(pthread_rwlock_rdlock);
  return active ? 0 : real_pthread_rwlock_rdlock(l);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (simulated()) { rw_wr((uintptr_t)l); return 0; }
  REAL(pthread_rwlock_wrlock);
  return active ? 0 : real_pthread_rwlock_wrlock(l);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (simulated()) { if (lock_of((uintptr_t)l)->owner) return EBUSY; rw_rd((uintptr_t)l); return 0; }
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (simulated()) { Lock* k = lock_of((uintptr_t)l); if (k->owner || k->nreaders) return EBUSY; rw_wr((uintptr_t)l); return 0; }
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (simulated()) { rw_un((uintptr_t)l); return 0; }
  REAL(pthread_rwlock_unlock);
  return active ? 0 : real_pthread_rwlock_unlock(l);
}
struct CondWait { Lock* l; uint32_t ticket; };
static bool pr_cond(void* p, Thread* t) { auto* w = (CondWait*)p; return t->timedout || w->l->signals > w->ticket; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
  Thread* t = self;
  Lock* l = lock_of((uintptr_t)c);
  CondWait w{l, l->waiters++};
  mutex_unlock((uintptr_t)m);
  block_on(t, pr_cond, &w, deadline);
  bool to = t->timedout;
  if (to) l->signals = l->waiters;   // this ticket is gone: wake the others (spuriously) rather than lose a signal
  vc_join(t->vc, l->vc);
  mutex_lock((uintptr_t)m, m->__data.__kind & 3, false);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (simulated()) return cond_wait(c, m, -1);
  REAL(pthread_cond_wait);
  return real_pthread_cond_wait(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
  if (simulated()) return cond_wait(c, m, ts->tv_sec * 1000000ll + ts->tv_nsec / 1000);
  REAL(pthread_cond_timedwait);
  return real_pthread_cond_timedwait(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* ts) {
  if (simulated()) return cond_wait(c, m, ts->tv_sec * 1000000ll + ts->tv_nsec / 1000);
  return ETIMEDOUT;
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (simulated()) {
    Lock* l = lock_of((uintptr_t)c);
    if (l->signals < l->waiters) l->signals++;
    vc_join(l->vc, self->vc);
    self->vc.c[self->id]++;
    lk_event(self);
    return 0;
  }
  REAL(pthread_cond_signal);
  return real_pthread_cond_signal(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (simulated()) {
    Lock* l = lock_of((uintptr_t)c);
    l->signals = l->waiters;
    vc_join(l->vc, self->vc);
    self->vc.c[self->id]++;
    lk_event(self);
    return 0;
  }
  REAL(pthread_cond_broadcast);
  return real_pthread_cond_broadcast(c);
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (simulated()) { Lock* l = lock_of((uintptr_t)c); uintptr_t a = l->addr; __real_memset((void*)l, 0, sizeof *l); l->addr = a; }
  return 0;
}
static bool pr_once(void* p, Thread*) { return ((Lock*)p)->once != 1; }
struct OnceGuard { Lock* l; pthread_once_t* o; bool ok = false; ~OnceGuard() { self->once_depth--; if (!ok) { l->once = 0; vc_join(l->vc, self->vc); self->vc.c[self->id]++; } } };
int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (!simulated()) {
    REAL(pthread_once);
    return real_pthread_once(o, fn);
  }
  Lock* l = lock_of((uintptr_t)o);
  lk_event(self);
  if (l->once == 2 && *o == 0) l->once = 0;     // another object at the same address
  if (l->once == 0 && *o == 2) return 0;        // done before the simulation began (glibc: 2 = done)
  while (true) {
    if (l->once == 2) { vc_join(self->vc, l->vc); return 0; }
    if (l->once == 0) break;
    block_on(self, pr_once, l);
  }
  l->once = 1;
  vc_join(self->vc, l->vc);   // after a failed attempt
  OnceGuard g{l, o};
  self->once_depth++;
  fn();
  g.ok = true;
  l->once = 2;
  *o = 2;
  vc_join(l->vc, self->vc);
  self->vc.c[self->id]++;
  return 0;
}
// function-local statics
int __cxa_guard_acquire(uint8_t* g) {
  if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) {
    if (simulated()) acquire(self, (uintptr_t)g);
    return 0;
  }
  if (!simulated()) { g[1] = 1; return 1; }
  Thread* t = self;
  lk_event(t);
  Lock* l = lock_of((uintptr_t)g);
  while (true) {
    if (*g) { acquire(t, (uintptr_t)g); return 0; }
    if (l->once == 0) { l->once = 1; t->once_depth++; acquire(t, (uintptr_t)g); return 1; }   // after a failed attempt
    block_on(t, pr_once, l);
  }
}
void __cxa_guard_release(uint8_t* g) {
  if (simulated()) {
    release(self, (uintptr_t)g);
    lock_of((uintptr_t)g)->once = 0;
    if (self->once_depth) self->once_depth--;
  }
  __atomic_store_n(g, 1, __ATOMIC_RELEASE);
  if (simulated()) lk_event(self);
}
void __cxa_guard_abort(uint8_t* g) {
  if (simulated()) {
    release(self, (uintptr_t)g);
    lock_of((uintptr_t)g)->once = 0;
    if (self->once_depth) self->once_depth--;
  }
  g[1] = 0;
}
// libstdc++ waits for futures and atomics with bare futex calls
struct FutexWait { Lock* l; uint32_t ticket; };
static bool pr_futex(void* p, Thread* t) { auto* w = (FutexWait*)p; return t->timedout || w->l->signals > w->ticket; }
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (long& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && simulated()) {
    int op = int(a[1]) & FUTEX_CMD_MASK;
    Thread* t = self;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      lk_event(t);
      if (__atomic_load_n((int*)a[0], __ATOMIC_ACQUIRE) != int(a[2])) { errno = EAGAIN; return -1; }
      Lock* l = lock_of((uintptr_t)a[0]);
      FutexWait w{l, l->waiters++};
      const timespec* ts = (const timespec*)a[3];
      int64_t deadline = ts ? ts->tv_sec * 1000000ll + ts->tv_nsec / 1000 + (op == FUTEX_WAIT ? now_us : 0) : -1;
      block_on(t, pr_futex, &w, deadline);
      bool to = t->timedout;
      if (to) l->signals = l->waiters;         // nobody may miss a wake because this ticket is gone
      if (to) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      Lock* l = lock_of((uintptr_t)a[0]);
      long woken = 0;
      while (woken < a[2] && l->signals < l->waiters) { l->signals++; woken++; }
      lk_event(t);
      return woken;
    }
  }
  long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = int(-r); return -1; }
  return r;
}
int sem_init(sem_t* s, int, unsigned v) {
  if (simulated()) { Lock* l = lock_of((uintptr_t)s); l->signals = v; return 0; }
  REAL(sem_init);
  return real_sem_init(s, 0, v);
}
static bool pr_sem(void* p, Thread*) { return ((Lock*)p)->signals > 0; }
int sem_wait(sem_t* s) {
  if (!simulated()) { REAL(sem_wait); return real_sem_wait(s); }
  Lock* l = lock_of((uintptr_t)s);
  block_on(self, pr_sem, l);
  l->signals--;
  vc_join(self->vc, l->vc);
  return 0;
}
int sem_post(sem_t* s) {
  if (!simulated()) { REAL(sem_post); return real_sem_post(s); }
  Lock* l = lock_of((uintptr_t)s);
  l->signals++;
  vc_join(l->vc, self->vc);
  self->vc.c[self->id]++;
  lk_event(self);
  return 0;
}
int sched_yield() {
  if (simulated() && multi) { give_up(self); yield_point(self); return 0; }
  return syscall(SYS_sched_yield);
}
// the library's own look at the environment (libc's happens elsewhere)
char* getenv(const char* n) {
  if (simulated() && env_noise && self->in_call) return sim_getenv(n);
  for (char** e = environ; e && *e; e++) {
    size_t l = strlen(n);
    if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
  }
  return nullptr;
}
char* secure_getenv(const char* n) { return getenv(n); }
// ---------------------------------------------------------------- time
int clock_gettime(clockid_t c, timespec* ts) {
  if (simulated()) {
    int64_t us = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? EPOCH : 0) + now_us++;
    ts->tv_sec = us / 1000000;
    ts->tv_nsec = us % 1000000 * 1000;
    return 0;
  }
  return syscall(SYS_clock_gettime, c, ts);
}
int gettimeofday(timeval* tv, void*) {
  if (simulated()) {
    int64_t us = EPOCH + now_us++;
    tv->tv_sec = us / 1000000;
    tv->tv_usec = us % 1000000;
    return 0;
  }
  timespec ts;
  syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* p) {
  timeval tv;
  gettimeofday(&tv, nullptr);
  if (p) *p = tv.tv_sec;
  return tv.tv_sec;
}
clock_t clock() {
  if (simulated()) return now_us++;
  timespec ts;
  syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts);
  return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
static int sim_sleep(int64_t us) {
  now_us += us;
  if (multi) { give_up(self); yield_point(self); }
  return 0;
}
int nanosleep(const timespec* a, timespec* b) {
  if (simulated()) return sim_sleep(a->tv_sec * 1000000ll + a->tv_nsec / 1000);
  return syscall(SYS_nanosleep, a, b);
}
int clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b) {
  if (simulated()) return sim_sleep(f ? 0 : a->tv_sec * 1000000ll + a->tv_nsec / 1000);
  return syscall(SYS_clock_nanosleep, c, f, a, b) ? errno : 0;
}
int usleep(useconds_t us) {
  if (simulated()) return sim_sleep(us);
  timespec t{us / 1000000, (long)(us % 1000000) * 1000};
  return syscall(SYS_nanosleep, &t, nullptr);
}

// ---------------------------------------------------------------- files
static int do_open(const char* p, int fl, mode_t m) {
  bool d = simio() && on_disk(p);
  if (d && io_event(self, "open")) return -1;
  int fd = syscall(SYS_openat, AT_FDCWD, p, fl, m);
  if (d && fd >= 0 && fd < MAXFD) fdtab[fd] = 1;
  return fd;
}
int open(const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl);
  mode_t m = (fl & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return do_open(p, fl, m);
}
int open64(const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl);
  mode_t m = (fl & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return do_open(p, fl, m);
}
int openat(int dfd, const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl);
  mode_t m = (fl & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  if (dfd == AT_FDCWD || (p && p[0] == '/')) return do_open(p, fl, m);
  return syscall(SYS_openat, dfd, p, fl, m);
}
int openat64(int dfd, const char* p, int fl, ...) __attribute__((alias("openat")));
static bool sim_fd(int fd) { return simio() && fd >= 0 && fd < MAXFD && fdtab[fd]; }
ssize_t read(int fd, void* b, size_t n) {
  if (sim_fd(fd)) {
    int e = io_event(self, "read");
    if (e == IO_FAIL) return -1;
    if (e == IO_SHORT && n > 1) n = n < 64 ? n / 2 : 1 + n % 61;
    mem((uintptr_t)b, n, true, PC);
  }
  return syscall(SYS_read, fd, b, n);
}
ssize_t pread(int fd, void* b, size_t n, off_t o) {
  if (sim_fd(fd)) {
    int e = io_event(self, "read");
    if (e == IO_FAIL) return -1;
    if (e == IO_SHORT && n > 1) n = n < 64 ? n / 2 : 1 + n % 61;
  }
  return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t readv(int fd, const iovec* v, int c) {
  if (sim_fd(fd)) {
    int e = io_event(self, "read");
    if (e == IO_FAIL) return -1;
    if (e == IO_SHORT && c > 0) return syscall(SYS_read, fd, v[0].iov_base, v[0].iov_len > 16 ? 16 : v[0].iov_len);
  }
  return syscall(SYS_readv, fd, v, c);
}
off_t lseek(int fd, off_t o, int w) {
  if (sim_fd(fd) && io_event(self, "lseek")) return -1;
  return syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int close(int fd) {
  int e = 0;
  if (sim_fd(fd)) e = io_event(self, "close");
  int er = errno;
  if (fd >= 0 && fd < MAXFD) fdtab[fd] = 0;
  int r = syscall(SYS_close, fd);
  if (e == IO_FAIL) { errno = er; return -1; }
  return r;
}
int fstat(int fd, struct stat* st) {
  if (sim_fd(fd) && io_event(self, "fstat")) { if (!errno) errno = EIO; return -1; }
  return sim_stat(syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH), st, sim_fd(fd));
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int stat(const char* p, struct stat* st) {
  if (simio() && on_disk(p) && io_event(self, "stat")) { if (!errno) errno = EIO; return -1; }
  return sim_stat(syscall(SYS_newfstatat, AT_FDCWD, p, st, 0), st, simio() && on_disk(p));
}
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat(const char* p, struct stat* st) {
  if (simio() && on_disk(p) && io_event(self, "stat")) { if (!errno) errno = EIO; return -1; }
  return sim_stat(syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW), st, simio() && on_disk(p));
}
int access(const char* p, int m) {
  if (simio() && on_disk(p) && io_event(self, "stat")) { if (!errno) errno = EIO; return -1; }
  return syscall(SYS_faccessat, AT_FDCWD, p, m);
}
void* mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) __THROW {
  bool d = sim_fd(fd);
  if (d && io_event(self, "mmap")) { if (!errno) errno = ENOMEM; return MAP_FAILED; }
  void* p = (void*)syscall(SYS_mmap, a, n, pr, fl, fd, o);
  if (d && p != MAP_FAILED) {
    for (auto& m : maps) if (!m.a) { m.a = (uintptr_t)p; m.n = n; nmaps++; break; }
  }
  return p;
}
void* mmap64(void* a, size_t n, int pr, int fl, int fd, off64_t o) __THROW { return mmap(a, n, pr, fl, fd, o); }
int munmap(void* a, size_t n) __THROW {
  for (auto& m : maps) if (m.a && m.a == (uintptr_t)a) { m.a = 0; nmaps--; break; }
  return syscall(SYS_munmap, a, n);
}
FILE* fopen(const char* p, const char* m) {
  REAL(fopen);
  bool d = simio() && on_disk(p);
  if (d && io_event(self, "open")) return nullptr;
  FILE* f = real_fopen(p, m);
  if (d && f) {
    int fd = fileno(f);
    if (fd >= 0 && fd < MAXFD) fdtab[fd] = 1;
  }
  return f;
}
// reads that find the buffer of the stream empty go to the disk
static bool stream_read_fails(FILE* f) {
  if (!f || f->_IO_read_ptr < f->_IO_read_end || !sim_fd(fileno(f))) return false;
  int e = io_event(self, "read");
  if (!e || e == IO_SHORT) return false;
  f->_flags |= 0x20;
  return true;
}
int fgetc(FILE* f) {
  REAL(fgetc);
  return stream_read_fails(f) ? EOF : real_fgetc(f);
}
#undef getc
int getc(FILE* f) {
  REAL(fgetc);
  return stream_read_fails(f) ? EOF : real_fgetc(f);
}
int _IO_getc(FILE* f) {
  REAL(fgetc);
  return stream_read_fails(f) ? EOF : real_fgetc(f);
}
char* fgets(char* b, int n, FILE* f) {
  REAL(fgets);
  return stream_read_fails(f) ? nullptr : real_fgets(b, n, f);
}
ssize_t getdelim(char** l, size_t* n, int d, FILE* f) {
  REAL(getdelim);
  return stream_read_fails(f) ? -1 : real_getdelim(l, n, d, f);
}
ssize_t getline(char** l, size_t* n, FILE* f) { return getdelim(l, n, '\n', f); }
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
int fclose(FILE* f) {
  REAL(fclose);
  int fd = f ? fileno(f) : -1;
  int e = 0;
  if (sim_fd(fd)) e = io_event(self, "close");
  int er = errno;
  if (fd >= 0 && fd < MAXFD) fdtab[fd] = 0;
  int r = real_fclose(f);
  if (e == IO_FAIL) { errno = er; return EOF; }
  return r;
}
size_t fread(void* b, size_t s, size_t n, FILE* f) {
  REAL(fread);
  if (f && sim_fd(fileno(f))) {
    int e = io_event(self, "read");
    if (e == IO_FAIL) { f->_flags |= 0x20; return 0; }   // sets the stream's error flag
    if (e == IO_SHORT && s == 1 && n > 1) n = n / 2;
    else if (e == IO_SHORT) { f->_flags |= 0x20; return 0; }
  }
  return real_fread(b, s, n, f);
}
int fseek(FILE* f, long o, int w) {
  REAL(fseek);
  if (f && sim_fd(fileno(f)) && io_event(self, "lseek")) return -1;
  return real_fseek(f, o, w);
}
long ftell(FILE* f) {
  REAL(ftell);
  if (f && sim_fd(fileno(f)) && io_event(self, "lseek")) return -1;
  return real_ftell(f);
}
} // extern "C"

// The simulator: scheduler, fault injection, simulated heap, happens-before race detection.
// The library is compiled with -fsanitize=thread but linked against *this* file instead of the
// TSan runtime, so every memory access, atomic and lock operation of the library is an event
// that the scheduler owns.  Simulated threads are real pthreads of which exactly one runs.
#include "engine.h"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <fenv.h>
#include <fcntl.h>
#include <locale.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <semaphore.h>
#include <stdarg.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>
#include <xmmintrin.h>
#include <algorithm>
#include <iostream>
#include <locale>
#include <new>

const char* status_name(int s) {
  static const char* n[] = {"none", "value", "rejected", "bad_alloc", "caller-exception", "other-exception"};
  return s >= 0 && s <= ST_OTHER ? n[s] : "?";
}
const char* kind_name(int k) {
  static const char* n[] = {"none", "mismatch", "race", "memory", "free", "leak", "crash", "hang", "deadlock",
                            "blocked-by-stalled", "ambient", "retained-changed", "caller-exception-lost",
                            "wrong-exception", "depends-on-garbage"};
  return k >= 0 && k < V_KINDS ? n[k] : "?";
}

// ================================================================ state of one run
namespace {
constexpr int MAXT = 20;                       // thread 0 is the main simulated thread
constexpr uintptr_t ARENA = 0x100000000000ull; // simulated heap
constexpr size_t ARENA_SIZE = 256u << 20;
constexpr uintptr_t ARENA_SHADOW = 0x110000000000ull;
constexpr uintptr_t STACKS = 0x120000000000ull;
constexpr size_t STACK_SIZE = 512 << 10;
constexpr size_t STACK_STRIDE = 1 << 20;
constexpr uint64_t MAX_EVENTS = 400000000ull;

enum TState { T_NONE, T_RUN, T_BLOCKED, T_STALLED, T_PAUSED, T_DONE };

struct VC { uint32_t c[MAXT]; };
constexpr int NSTACK = 3 * MAXT;               // one each, and two each for the threads that carry them on
bool gone[NSTACK];                             // the thread that had this stack has ended
int stack_of(uintptr_t a) { int i = (int)((a - STACKS) / STACK_STRIDE); return i < MAXT ? i : (i - MAXT) / 2; }

struct Thr {
  int id;
  pthread_t h;
  TState st;
  int baton;                 // futex word
  uintptr_t lo, hi;          // own stack
  int in_lib;                // executing library code
  uint64_t ev;               // events in the current op
  uint32_t op;               // ordinal of the current op
  int64_t budget;            // events until the next preemption
  uint32_t allocs;           // allocations in the current op
  bool sticky;               // fail all
  bool alloc_fired, cb_fired;
  uint32_t cbs;
  const Op* cur;
  const void* wait;          // what it waits for
  int guards;                // initialisations of shared libraries' statics in progress
  uint32_t syncs;            // synchronisation operations since the call a stall waits for
  int pri;
  int64_t live;              // blocks allocated by this thread and not freed
  int64_t bytes;             // ... and bytes
  VC vc, facq, frel;
  bool has_frel, stopped;
  int carriers;              // threads of the operating system that carried it on
};

Thr T[MAXT];
int NT = 1;
bool g_active = false;       // a simulated run is in progress
const Spec* S = nullptr;
const Outcome* REFS = nullptr;
unsigned CK = 0;
Rng* R = nullptr;
Report* REP = nullptr;
uint64_t g_events = 0, g_nswitch = 0;
uint64_t g_hash = 0, g_shash = 0;
std::vector<uint64_t>* g_change = nullptr;   // PCT change points
size_t g_pct_next = 0;
World* W = nullptr;
uint64_t g_clock = 1700000000000000000ull;
bool g_finished = false;
int g_main_wait = 0;
bool g_teardown = false;
int64_t g_harness_live = 0;
thread_local Thr* cur = nullptr;

extern "C" char __data_start, _end;

// the kernel itself, past the seam on syscall() below
long kernel(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f; long r;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
long kernel_e(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { long r = kernel(n, a, b, c, d, e, f); if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }
long fut(int* a, int op, int v) { return kernel(SYS_futex, (long)a, op, v); }
void park(Thr* t) {
  while (__atomic_load_n(&t->baton, __ATOMIC_ACQUIRE) == 0) fut(&t->baton, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(&t->baton, 0, __ATOMIC_RELEASE);
}
void wake(Thr* t) {
  __atomic_store_n(&t->baton, 1, __ATOMIC_RELEASE);
  fut(&t->baton, FUTEX_WAKE_PRIVATE, 1);
}

void finish_report() {
  REP->hash = g_hash; REP->sched_hash = g_shash; REP->events = g_events; REP->clock_ns = g_clock - 1700000000000000000ull;
  REP->switches = g_nswitch; REP->done = 1;
}
[[noreturn]] void quit() { finish_report(); kernel(SYS_exit_group, 0); __builtin_unreachable(); }

[[noreturn]] void violation(int kind, int tid, int tid2, const char* fmt, ...) {
  if (REP->kind == V_NONE) {
    REP->kind = kind; REP->tid = tid; REP->tid2 = tid2;
    REP->op = tid >= 0 ? (int)T[tid].op : -1;
    REP->op2 = tid2 >= 0 ? (int)T[tid2].op : -1;
    va_list ap; va_start(ap, fmt);
    vsnprintf(REP->detail, sizeof REP->detail, fmt, ap);
    va_end(ap);
  }
  quit();
}

void vjoin(VC& a, const VC& b) { for (int i = 0; i < NT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

// ================================================================ scheduler
int pick_random() {
  int c[MAXT], n = 0;
  for (int i = 0; i < NT; ++i) if (T[i].st == T_RUN && i != 0) c[n++] = i;
  if (!n) return -1;
  return c[R->below(n)];
}
int pick_other(int me) {
  int c[MAXT], n = 0;
  for (int i = 1; i < NT; ++i) if (T[i].st == T_RUN && i != me) c[n++] = i;
  if (!n) return me;
  return c[R->below(n)];
}
int pick_pct() {
  int b = -1;
  for (int i = 1; i < NT; ++i) if (T[i].st == T_RUN && (b < 0 || T[i].pri > T[b].pri)) b = i;
  return b;
}
int lowest() { for (int i = 1; i < NT; ++i) if (T[i].st == T_RUN) return i; return -1; }

void new_budget(Thr* t) {
  switch (S->policy) {
    case POL_RAND: t->budget = 1 + (int64_t)R->below(2 * (uint64_t)S->mean); break;
    case POL_RR:   t->budget = S->mean; break;
    case POL_HOT:  t->budget = 1 + (int64_t)R->below(40 * (uint64_t)S->mean + 1); break;
    default:       t->budget = INT64_MAX; break;
  }
}

void record(Thr* t, int next, int type) {
  if (REP->nsched < sizeof REP->sched / sizeof REP->sched[0]) {
    Switch& s = REP->sched[REP->nsched++];
    s.tid = t->id; s.op = t->op; s.ev = t->ev; s.next = next; s.type = type;
  } else REP->nsched++;
}

int g_runs = 0;                              // the thread that has the processor
void hand_over(Thr* me, int next, bool park_me) {
  if (next == me->id) return;
  ++g_nswitch;
  g_hash = mix(mix(g_hash, me->id * 31 + next), me->ev + ((uint64_t)me->op << 40));
  g_shash = mix(mix(g_shash, me->id * 31 + next), me->ev + ((uint64_t)me->op << 40));
  int e = errno;
  g_runs = next;
  wake(&T[next]);
  if (park_me) { park(me); errno = e; }
}

struct Cursor { std::vector<Switch> v; size_t i = 0; };
Cursor* CUR = nullptr;                       // per thread, in the order they apply
bool replay_lookup(Thr* t, int type, int& next) {
  Cursor& c = CUR[t->id];
  while (c.i < c.v.size()) {
    const Switch& s = c.v[c.i];
    if (s.op < t->op || (s.op == t->op && s.ev < t->ev)) { ++c.i; continue; }
    if (s.op == t->op && s.ev == t->ev && s.type == type) { next = s.next; ++c.i; return true; }
    return false;
  }
  return false;
}

// current thread cannot go on (blocked, stalled, finished): choose somebody else
void reschedule(Thr* me, bool park_me) {
  int next = -1;
  if (S->policy == POL_REPLAY) {
    if (!replay_lookup(me, 1, next) || next <= 0 || next >= NT || T[next].st != T_RUN) next = lowest();
  } else if (S->policy == POL_PCT) next = pick_pct();
  else next = pick_random();
  if (next < 0) {
    // nobody is runnable: resume paused threads, or end the run
    for (int i = 1; i < NT; ++i) if (T[i].st == T_PAUSED) { T[i].st = T_RUN; if (next < 0) next = i; }
    if (next >= 0) { record(me, next, 1); hand_over(me, next, park_me); return; }
    bool blocked = false, stalled = false; int b = -1;
    for (int i = 1; i < NT; ++i) { if (T[i].st == T_BLOCKED) { blocked = true; b = i; } if (T[i].st == T_STALLED) stalled = true; }
    if (blocked) {
      if (stalled) violation(V_BLOCKED, b, -1, "thread %d waits in call %u for a lock held by a thread that has stopped; it can never finish", b, T[b].op);
      violation(V_DEADLOCK, b, -1, "thread %d is blocked in call %u and no thread can run", b, T[b].op);
    }
    next = 0;                                   // all done (or stalled for ever): main thread
  }
  if (next != 0) record(me, next, 1);
  hand_over(me, next, park_me);
}

void preempt(Thr* t, int next, int type = 0) {
  if (next == t->id || next < 0) return;
  REP->preempts++;
  record(t, next, type);
  hand_over(t, next, true);
}

void hit_limit(Thr* t) {
  bool stalled = false;
  for (int i = 1; i < NT; ++i) if (T[i].st == T_STALLED) stalled = true;
  violation(stalled ? V_BLOCKED : V_HANG, t->id, -1, "call %u of thread %d exceeds the step limit%s", t->op, t->id,
            stalled ? " while another thread is stopped" : "");
}

// every event of the library comes here; `shared` = touches memory another thread may use
inline void event(Thr* t, bool shared) {
  ++t->ev; ++g_events;
  if (__builtin_expect(t->ev > S->limit || g_events > MAX_EVENTS, 0)) hit_limit(t);
  if (shared) REP->shared_ev++;
  if (!S->stalls.empty())
    for (const Stall& s : S->stalls)
      if (s.tid == t->id && (s.after ? t->syncs >= s.after : s.op < t->op || (s.op == t->op && s.ev <= t->ev)) && !t->guards && !t->stopped) {
        t->stopped = true;                  // each thread stops at most once
        t->st = s.forever ? T_STALLED : T_PAUSED;
        if (s.forever) REP->stalls++; else REP->pauses++;
        g_hash = mix(g_hash, 77 + t->id);
        reschedule(t, true);
        return;
      }
  switch (S->policy) {
    case POL_RAND: case POL_RR:
      if (--t->budget <= 0) {
        new_budget(t);
        if (REP->preempts < 5000) {
          int n = S->policy == POL_RR ? -1 : pick_other(t->id);
          if (n < 0) { for (int k = 1; k < NT; ++k) { int i = 1 + (t->id - 1 + k) % (NT - 1); if (T[i].st == T_RUN) { n = i; break; } } }
          preempt(t, n);
        }
      }
      break;
    case POL_HOT:
      if (--t->budget <= 0) { new_budget(t); if (REP->preempts < 5000) preempt(t, pick_other(t->id)); }
      else if (shared && REP->preempts < 5000 && R->chance(S->hot)) preempt(t, pick_other(t->id));
      break;
    case POL_PCT:
      if (g_pct_next < g_change->size() && g_events >= (*g_change)[g_pct_next]) {
        t->pri = (int)(100 - g_pct_next); ++g_pct_next;
        int n = pick_pct(); if (n > 0 && REP->preempts < 5000) preempt(t, n);
      }
      break;
    case POL_REPLAY: {
      int n;
      if (replay_lookup(t, 0, n) && n > 0 && n < NT && T[n].st == T_RUN) preempt(t, n);
      break;
    }
    default: break;
  }
  // fairness, so that a spinning thread cannot starve the thread it waits for
  if (__builtin_expect((t->ev & 0x3fff) == 0, 0) && S->policy != POL_REPLAY) {
    int n = pick_other(t->id);
    if (n > 0) preempt(t, n);
  }
  if (__builtin_expect((t->ev & 0xfffff) == 0, 0) && S->policy == POL_REPLAY) {
    int n = -1; for (int k = 1; k < NT; ++k) { int i = 1 + (t->id - 1 + k) % (NT - 1); if (T[i].st == T_RUN && i != t->id) { n = i; break; } }
    if (n > 0) preempt(t, n);
  }
}

void op_boundary(Thr* t) {
  int n = -1;
  switch (S->policy) {
    case POL_OPS: case POL_RAND: case POL_HOT: case POL_RR:
      if (R->chance(S->bound)) n = pick_other(t->id);
      break;
    case POL_REPLAY: if (!replay_lookup(t, 2, n)) n = -1; else if (n <= 0 || n >= NT || T[n].st != T_RUN) n = -1; break;
    default: break;
  }
  if (n > 0) preempt(t, n, 2);
}

void block_on(Thr* t, const void* what) {
  REP->blocks_on_lock++;
  t->st = T_BLOCKED; t->wait = what;
  reschedule(t, true);
}
void unblock(const void* what) {
  for (int i = 0; i < NT; ++i) if (T[i].st == T_BLOCKED && T[i].wait == what) T[i].st = T_RUN;
}

// ================================================================ happens-before
struct Cell {
  uintptr_t key;
  uint32_t wclk; uint8_t wtid, wmask, watom, used;
  uint32_t rclk[MAXT]; uint8_t rmask[MAXT]; uint8_t ratom[MAXT];
};
constexpr size_t NCELL = 1 << 18;
Cell* cells = nullptr;
size_t ncells = 0;

Cell* cell(uintptr_t key, bool make) {
  // neighbouring addresses share pages of the table
  size_t i = ((((key >> 9) * 0x9E3779B97F4A7C15ull) >> (64 - 18)) & ~(size_t)63) + ((key >> 3) & 63);
  for (size_t n = 0; n < 256; ++n, i = (i + 1) & (NCELL - 1)) {
    if (cells[i].key == key) return &cells[i];
    if (cells[i].key == 0) {
      if (!make || ncells > NCELL / 2) return nullptr;
      ++ncells; cells[i].key = key; return &cells[i];
    }
  }
  return nullptr;
}
struct SyncVar { uintptr_t key; VC vc; int owner; int count; int readers; };
constexpr size_t NSYNC = 1 << 12;
SyncVar* syncs = nullptr;
SyncVar* syncvar(const void* p) {
  uintptr_t key = (uintptr_t)p;
  size_t i = (key * 0x9E3779B97F4A7C15ull) >> (64 - 12);
  for (size_t n = 0; n < NSYNC; ++n, i = (i + 1) & (NSYNC - 1)) {
    if (syncs[i].key == key) return &syncs[i];
    if (syncs[i].key == 0) { syncs[i].key = key; syncs[i].owner = -1; return &syncs[i]; }
  }
  violation(V_HANG, cur ? cur->id : 0, -1, "simulator: too many synchronisation objects");
}
void acquire(Thr* t, const void* p) { vjoin(t->vc, syncvar(p)->vc); }
void release(Thr* t, const void* p) { vjoin(syncvar(p)->vc, t->vc); t->vc.c[t->id]++; }

bool in_heap(uintptr_t a) { return a >= ARENA && a < ARENA + ARENA_SIZE; }

void describe(uintptr_t a, char* b, size_t n) {
  if (in_heap(a)) { snprintf(b, n, "heap block"); return; }
  if (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end) { snprintf(b, n, "static data"); return; }
  if (a >= STACKS && a < STACKS + NSTACK * STACK_STRIDE) { snprintf(b, n, "stack of thread %d", stack_of(a)); return; }
  snprintf(b, n, "memory");
}

// returns true if the location is shared between threads
bool access(Thr* t, uintptr_t a, size_t size, bool write, bool atomic) {
  if (a >= t->lo && a < t->hi) return false;
  if (CK & CK_MEM) if (in_heap(a)) {
    const unsigned char* sh = (const unsigned char*)ARENA_SHADOW;
    for (size_t i = 0; i < size; ) {
      uintptr_t x = a + i; size_t off = x - ARENA;
      if (off >= ARENA_SIZE || (x & 7) >= sh[off >> 3])
        violation(V_MEMORY, t->id, -1, "call %u of thread %d %s heap memory that is not allocated (%s)", t->op, t->id,
                  write ? "writes" : "reads", off < ARENA_SIZE && sh[off >> 3] == 0 ? "outside any live block" : "past the end of a block");
      i += 8 - (x & 7);
    }
  }
  bool shared = (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end);
  // anything else (exception objects, memory of libc) belongs to the runtime and is recycled by it unseen
  if (!shared && !in_heap(a)) {
    if (a < STACKS || a >= STACKS + NSTACK * STACK_STRIDE) return false;
    if ((CK & CK_MEM) && gone[(a - STACKS) / STACK_STRIDE])
      violation(V_MEMORY, t->id, -1, "call %u of thread %d %s memory (stack or thread_local) of a thread that has ended", t->op, t->id, write ? "writes" : "reads");
  }
  uintptr_t end = a + size;
  for (uintptr_t g = a & ~(uintptr_t)7; g < end; g += 8) {
    unsigned lo = a > g ? a - g : 0, hi = end - g < 8 ? end - g : 8;
    uint8_t mask = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
    Cell* c = cell(g, true);
    if (!c) continue;
    if (c->used) {
      if (c->wmask & mask && c->wtid != t->id) {
        shared = true;
        if ((CK & CK_RACE) && !(atomic && c->watom) && c->wclk > t->vc.c[c->wtid]) {
          char d[64]; describe(a, d, sizeof d);
          violation(V_RACE, t->id, c->wtid, "call %u of thread %d %s %s that a call of thread %d wrote without synchronisation",
                    t->op, t->id, write ? "writes" : "reads", d, c->wtid);
        }
      }
      if (write) for (int i = 0; i < NT; ++i)
        if (i != t->id && (c->rmask[i] & mask)) {
          shared = true;
          if ((CK & CK_RACE) && !(atomic && c->ratom[i]) && c->rclk[i] > t->vc.c[i]) {
            char d[64]; describe(a, d, sizeof d);
            violation(V_RACE, t->id, i, "call %u of thread %d writes %s that a call of thread %d read without synchronisation", t->op, t->id, d, i);
          }
        }
    }
    c->used = 1;
    if (write) { c->wtid = t->id; c->wclk = t->vc.c[t->id]; c->wmask = mask; c->watom = atomic; }
    else {
      if (c->rclk[t->id] != t->vc.c[t->id]) { c->rmask[t->id] = 0; c->ratom[t->id] = atomic; }
      c->rclk[t->id] = t->vc.c[t->id]; c->rmask[t->id] |= mask; c->ratom[t->id] = c->ratom[t->id] && atomic;
    }
  }
  return shared;
}
void forget(uintptr_t a, size_t size) {
  for (uintptr_t g = a & ~(uintptr_t)7; g < a + size; g += 8)
    if (Cell* c = cell(g, false)) { uintptr_t k = c->key; memset(c, 0, sizeof *c); c->key = k; }
}

inline Thr* lib() { Thr* t = cur; return t && t->in_lib ? t : nullptr; }
inline void mem(const void* p, size_t n, bool w) {
  Thr* t = lib(); if (!t || !n) return;
  uintptr_t a = (uintptr_t)p;
  if (a >= t->lo && a < t->hi) { event(t, false); return; }
  bool sh = access(t, a, n, w, false);
  event(t, sh);
}

// ================================================================ simulated heap
struct Hdr { uint64_t magic; uint64_t size; int32_t owner; uint32_t cls; Hdr* next; uint64_t serial; uint64_t pad[3]; };
static_assert(sizeof(Hdr) == 64, "");
constexpr uint64_t LIVE = 0x4c49564542304c4bull, DEAD = 0x4445414442304c4bull;
constexpr size_t TAIL = 16;
uintptr_t heap_top = ARENA;
Hdr* freelist[40];
uint64_t heap_serial = 0;
Rng* HR = nullptr;

size_t cls_of(size_t n) { size_t c = 0, s = 32; while (s < n) { s <<= 1; ++c; } return c; }
size_t cls_size(size_t c) { return (size_t)32 << c; }
void fill(void* p, size_t n) {
  uint64_t x = HR->next(); unsigned char* b = (unsigned char*)p;
  switch (S->garbage % 4) {                       // what fresh memory looks like in this run
    case 0: for (size_t i = 0; i < n; i += 8) { uint64_t v = x; x = x * 6364136223846793005ull + 1442695040888963407ull;
              memcpy(b + i, &v, n - i < 8 ? n - i : 8); } break;
    case 1: for (size_t i = 0; i < n; i += 8) { double v = 1.0 + (x >> 12) * 1e-15; x = x * 6364136223846793005ull + 1; memcpy(b + i, &v, n - i < 8 ? n - i : 8); } break;
    case 2: memset(b, 0xff, n); break;            // NaNs
    case 3: memset(b, 0x7b, n); break;
  }
}
void* heap_alloc(Thr* t, size_t n) {
  size_t need = n + TAIL, c = cls_of(need);
  if (n > (64u << 20)) return nullptr;
  Hdr* h = nullptr;
  bool reuse = S->heap_mode == 1 || (S->heap_mode == 2 && HR->chance(0.5));
  if (reuse && freelist[c]) { h = freelist[c]; freelist[c] = h->next; REP->heap_reuse++; }
  else {
    size_t tot = sizeof(Hdr) + cls_size(c);
    if (heap_top + tot > ARENA + ARENA_SIZE) {
      if (freelist[c]) { h = freelist[c]; freelist[c] = h->next; }
      else return nullptr;
    } else { h = (Hdr*)heap_top; heap_top += tot; }
  }
  h->magic = LIVE; h->size = n; h->owner = t->id; h->cls = c; h->serial = ++heap_serial;
  unsigned char* p = (unsigned char*)(h + 1);
  fill(p, n);
  memset(p + n, 0xA5, TAIL);
  forget((uintptr_t)p, n);
  unsigned char* sh = (unsigned char*)ARENA_SHADOW + (((uintptr_t)p - ARENA) >> 3);
  size_t full = n >> 3; memset(sh, 8, full); if (n & 7) sh[full] = n & 7;
  t->live++; t->bytes += n; REP->allocs++;
  return p;
}
void heap_free(void* p) {
  Thr* t = cur ? cur : &T[0];
  Hdr* h = (Hdr*)p - 1;
  if (((uintptr_t)p & 15) || h->magic != LIVE)
    violation(V_FREE, t->id, -1, "call %u of thread %d frees memory that is %s", t->op, t->id,
              h->magic == DEAD ? "already free" : "not the start of a heap block");
  unsigned char* b = (unsigned char*)p;
  for (size_t i = 0; i < TAIL; ++i) if (b[h->size + i] != 0xA5)
    violation(V_FREE, t->id, -1, "call %u of thread %d frees a block of %zu bytes that was written past its end", t->op, t->id, (size_t)h->size);
  if (t->in_lib && h->size) access(t, (uintptr_t)p, h->size, true, false);
  T[h->owner].live--; T[h->owner].bytes -= h->size;
  h->magic = DEAD;
  memset((unsigned char*)ARENA_SHADOW + (((uintptr_t)p - ARENA) >> 3), 0, (h->size + 7) >> 3);
  fill(p, h->size);
  forget((uintptr_t)p, h->size);
  h->next = freelist[h->cls]; freelist[h->cls] = h;
}
// null: injected failure
void* lib_alloc(Thr* t, size_t n, size_t align) {
  event(t, false);
  t->allocs++;
  if (t->cur && (t->sticky || (t->cur->fault_alloc && t->allocs == t->cur->fault_alloc))) {
    if (t->cur->fault_sticky) t->sticky = true;
    t->alloc_fired = true; REP->alloc_faults++;
    g_hash = mix(g_hash, 991 + t->allocs);
    return nullptr;
  }
  (void)align;
  return heap_alloc(t, n ? n : 1);
}

// ================================================================ ambient state
struct Ambient {
  unsigned mxcsr; unsigned short x87; int round;
  sigset_t mask;
  struct Str { std::ios_base::fmtflags f; std::streamsize p, w; int fill; std::ios::iostate s, e; void *buf, *tie; const void* loc; } str[8];
  locale_t loc;
  long stdout_bytes;
};
int g_stdout_fd = -1;
struct PunctLocale : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};
std::locale* g_loc_expected = nullptr;       // process wide, set between runs of calls
std::locale *LOC_C, *LOC_P;
std::string* g_cloc = nullptr;
std::string* g_cglob = nullptr;

void snap(Ambient& a) {
  unsigned m = _mm_getcsr(); a.mxcsr = m & 0xffc0;
  unsigned short w; __asm__ volatile("fnstcw %0" : "=m"(w)); a.x87 = w;
  a.round = fegetround();
  sigemptyset(&a.mask); pthread_sigmask(SIG_BLOCK, nullptr, &a.mask);
  auto one = [](Ambient::Str& s, auto& o) {
    s.f = o.flags(); s.p = o.precision(); s.w = o.width(); s.fill = (int)o.fill(); s.s = o.rdstate(); s.e = o.exceptions(); s.buf = o.rdbuf(); s.tie = o.tie();
    std::locale l = o.getloc(); memcpy(&s.loc, (void*)&l, sizeof s.loc);      // which one it is
  };
  one(a.str[0], std::cout); one(a.str[1], std::cerr); one(a.str[2], std::clog); one(a.str[3], std::cin);
  one(a.str[4], std::wcout); one(a.str[5], std::wcerr); one(a.str[6], std::wclog); one(a.str[7], std::wcin);
  a.loc = uselocale((locale_t)0);
  std::cout.flush(); fflush(stdout);
  a.stdout_bytes = g_stdout_fd >= 0 ? lseek(g_stdout_fd, 0, SEEK_CUR) : 0;
}
const char* ambient_diff(const Ambient& a, const Ambient& b) {
  if (a.round != b.round) return "floating point rounding mode";
  if (a.mxcsr != b.mxcsr) return "floating point control (MXCSR)";
  if (a.x87 != b.x87) return "x87 control word";
  if (memcmp(&a.mask, &b.mask, 8)) return "signal mask";
  static const char* names[] = {"std::cout", "std::cerr", "std::clog", "std::cin", "std::wcout", "std::wcerr", "std::wclog", "std::wcin"};
  static char what[80];
  for (int i = 0; i < 8; ++i) {
    const Ambient::Str &x = a.str[i], &y = b.str[i];
    const char* k = x.f != y.f || x.p != y.p || x.w != y.w || x.fill != y.fill ? "formatting state" : x.s != y.s || x.e != y.e ? "error state" : x.buf != y.buf || x.tie != y.tie ? "buffer or tie" : x.loc != y.loc ? "locale" : nullptr;
    if (k) { snprintf(what, sizeof what, "%s of %s", k, names[i]); return what; }
  }
  if (a.loc != b.loc) return "locale of the thread";
  if (a.stdout_bytes != b.stdout_bytes) return "standard output (something was written)";
  return nullptr;
}

__attribute__((noinline, no_sanitize("all"))) void stack_garbage(uint64_t s, int mode) {
  volatile unsigned char buf[12288];
  uint64_t x = s;
  for (size_t i = 0; i < sizeof buf; i += 8) {
    uint64_t v;
    if (mode == 0) v = x; else if (mode == 1) { double d = 1.0 + (x >> 12) * 1e-15; memcpy(&v, &d, 8); } else if (mode == 2) v = ~0ull; else v = 0x7b7b7b7b7b7b7b7bull;
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    *(volatile uint64_t*)(buf + i) = v;
  }
  __asm__ volatile("" ::: "memory");
}

void show(const Outcome& o, char* b, size_t n) {
  size_t k = snprintf(b, n, "%s", status_name(o.status));
  bool text = o.len > 0;
  for (int i = 0; i < o.len && i < (int)sizeof o.bytes; ++i) if (o.bytes[i] < 32 || o.bytes[i] > 126) text = false;
  if (text && k < n) { snprintf(b + k, n - k, " '%.*s'", (int)std::min<size_t>(o.len, 60), (const char*)o.bytes); return; }
  for (int i = 0; i + 8 <= o.len && i < 32 && k < n; i += 8) { double d; memcpy(&d, o.bytes + i, 8); k += snprintf(b + k, n - k, " %.17g", d); }
  if (o.len > 32 && k < n) snprintf(b + k, n - k, " ... (%d bytes)", o.len);
}

struct LastTls { Thr* t = nullptr; bool carrier = false; ~LastTls(); };
thread_local LastTls last_tls;

void run_op(Thr* t, const Op& op) {
  Outcome out; out.clear();
  Ambient before, after;
  bool amb = CK & CK_AMBIENT;
  int rounding = FE_TONEAREST;
  if (op.ambient) REP->ambients++;
  if (amb) {
    if (op.ambient & 1) feraiseexcept(FE_ALL_EXCEPT); else feclearexcept(FE_ALL_EXCEPT);
    if (op.ambient & 4) { static const int m[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; rounding = m[(op.ambient >> 8) % 3]; fesetround(rounding); }
    // traps the program has enabled, in the unit the library's arithmetic does not use
    if (op.ambient & 64) { unsigned short w = 0x372; __asm__ volatile("fnclex; fldcw %0" : : "m"(w)); }
    snap(before);
  }
  stack_garbage(S->garbage * 0x9E3779B97F4A7C15ull + t->op, S->garbage % 4);
  t->ev = 0; t->allocs = 0; t->sticky = false; t->alloc_fired = t->cb_fired = false; t->cbs = 0; t->cur = &op;
  errno = (op.ambient & 2) ? ERANGE : 0;
  auto call = [&] { t->in_lib = 1; subject_exec(W, t->id, op, out); t->in_lib = 0; };
  if (op.ambient & 16) {                  // from a destructor, while the caller's own exception is on its way
    struct Caller { decltype(call)& c; ~Caller() { c(); } };
    try { Caller c{call}; throw CallerError{0}; } catch (const CallerError&) {}
  } else if (op.ambient & 32) {           // from a handler of the caller's
    try { throw CallerError{0}; } catch (const CallerError&) { call(); }
  } else call();
  t->cur = nullptr;
  if (amb) {
    snap(after);
    const char* d = ambient_diff(before, after);
    // process wide state must be as set up for the run, also while other threads are in calls
    if (!d) { if (!(std::locale() == *g_loc_expected)) d = "global C++ locale"; }
    if (!d) { const char* l = setlocale(LC_ALL, nullptr); if (!l || *g_cglob != l) d = "C locale"; }
    if (d) violation(V_AMBIENT, t->id, -1, "after call %u of thread %d (%s): changed: %s", t->op, t->id, subject_kind_name(op.kind), d);
    if (op.ambient & 64) { unsigned short w = 0x37f; __asm__ volatile("fnclex; fldcw %0" : : "m"(w)); }
    fesetround(FE_TONEAREST);
  }
  g_hash = mix(mix(mix(g_hash, t->id), t->op), mix(out.hash, out.status + 8 * out.exc));
  REP->ops_done++;
  if (out.status == ST_REJECT) REP->rejects++;
  if (out.status == ST_NOMEM) REP->nomem++;
  if (CK & CK_REFMODE) { REP->out = out; REP->out_allocs = t->allocs; REP->out_events = t->ev; REP->out_cbs = t->cbs; return; }
  if (out.ref == -3) {
    if (CK & CK_RETAIN) violation(V_RETAINED, t->id, -1, "call %u of thread %d (%s): %s", t->op, t->id, subject_kind_name(op.kind),
                                  "a result or object is no longer what its owner left in it");
    return;
  }
  int ref = out.ref == -2 ? -1 : out.ref >= 0 ? out.ref : op.ref;
  char got[160], want[160];
  if (t->cb_fired) {
    if ((CK & CK_EXC) && out.status != ST_CALLER) {
      show(out, got, sizeof got);
      violation(V_FAULTLOST, t->id, -1, "call %u of thread %d (%s): the exception thrown by the caller's number type ended as: %s", t->op, t->id, subject_kind_name(op.kind), got);
    }
    return;
  }
  if (t->alloc_fired) {
    if (out.status == ST_NOMEM) return;
    if (out.ref == -2 && out.status == ST_VALUE) return;
    if (ref >= 0 && out.same(REFS[ref])) return;
    if (CK & CK_EXC) {
      show(out, got, sizeof got); if (ref >= 0) show(REFS[ref], want, sizeof want); else strcpy(want, "?");
      violation(out.status == ST_VALUE ? V_MISMATCH : V_WRONGEXC, t->id, -1, "call %u of thread %d (%s), allocation %u failed: got %s, expected %s or bad_alloc", t->op, t->id,
                subject_kind_name(op.kind), op.fault_alloc, got, want);
    }
    return;
  }
  if ((CK & CK_OUTCOME) && ref >= 0 && rounding == FE_TONEAREST && !out.same(REFS[ref])) {
    show(out, got, sizeof got); show(REFS[ref], want, sizeof want);
    violation(V_MISMATCH, t->id, -1, "call %u of thread %d (%s): got %s, alone it gives %s", t->op, t->id, subject_kind_name(op.kind), got, want);
  }
}

struct Leak {
  int64_t high = 0; int growth = 0;                       // end-of-repetition high-water mark of bytes held
  int64_t opbase = 0; uint32_t opgrow = 0, opseen = 0;    // distinct calls
  int64_t at[4];
  int64_t held = 0; int kept = 0;                         // threads that ended
};
char alts[MAXT][32768];                 // where a stack overflow is reported
void* altstack(Thr* t) { stack_t ss{}; ss.ss_sp = alts[t->id]; ss.ss_size = sizeof alts[0]; sigaltstack(&ss, nullptr); return ss.ss_sp; }

// calls from .. to-1 of thread t: first those of the threads that come and go, then the list, repeated
void calls(Thr* t, Leak& L, size_t from, size_t to, size_t churn) {
  const std::vector<Op>& ops = S->threads[t->id - 1];
  size_t n = ops.size(), total = churn + n * S->reps;
  for (size_t g = from; g < to; ++g) {
    t->op = g;
    if (g < churn) { run_op(t, S->cops[g % S->cops.size()]); if (g + 1 < total) op_boundary(t); continue; }
    size_t i = (g - churn) % n; int r = (g - churn) / n;
    run_op(t, ops[i]);
    if (CK & CK_LEAK) {
      if (r == 0 && i >= 12) { ++L.opseen; if (t->bytes > L.opbase) ++L.opgrow; }
      L.opbase = t->bytes;
      if (S->distinct >= 200 && r == 0) {
        size_t d = S->distinct, k = i + 1;
        if (k == d / 8) L.at[0] = t->bytes; else if (k == d / 4) L.at[1] = t->bytes; else if (k == d / 2) L.at[2] = t->bytes;
        else if (k == d) {
          L.at[3] = t->bytes; int64_t g1 = L.at[1] - L.at[0], g2 = L.at[2] - L.at[1], g3 = L.at[3] - L.at[2];
          if (g1 > 0 && g2 > 0 && g3 > 0 && g2 * 10 >= g1 * 13 && g3 * 10 >= g2 * 13)
            violation(V_LEAK, t->id, -1, "memory held by thread %d grows with the number of different calls made: %ld, %ld, %ld, %ld bytes after %zu, %zu, %zu, %zu calls", t->id, (long)L.at[0], (long)L.at[1], (long)L.at[2], (long)L.at[3], d / 8, d / 4, d / 2, d);
        }
      }
      if (r == 0 && L.opseen >= 60 && L.opgrow * 5 >= L.opseen * 4)
        violation(V_LEAK, t->id, -1, "memory held grew in %u of %u successive calls of thread %d (last: %s)", L.opgrow, L.opseen, t->id, subject_kind_name(ops[i].kind));
    }
    if (g + 1 < total) op_boundary(t);
    if ((CK & CK_LEAK) && i == n - 1) {
      if (r < 2) L.high = std::max(L.high, t->bytes);
      else if (t->bytes > L.high) { ++L.growth; L.high = t->bytes; }
      if (L.growth >= 4)
        violation(V_LEAK, t->id, -1, "memory held by thread %d keeps growing while the same %zu calls are repeated (%d of %d repetitions, %ld bytes in %ld blocks now)", t->id, n, L.growth, r - 1, (long)t->bytes, (long)t->live);
    }
  }
}
struct Part { Thr* t; Leak* l; size_t from, to, churn; };
void* carrier(void* a) {
  Part p = *(Part*)a; cur = p.t; last_tls.t = p.t; last_tls.carrier = true;
  altstack(p.t);
  calls(p.t, *p.l, p.from, p.to, p.churn);
  p.t->in_lib = 1;
  return nullptr;
}
void carry(Thr* t, Leak& L, size_t from, size_t to, size_t churn) {
  uintptr_t lo = t->lo, hi = t->hi; int slot = MAXT + 2 * t->id + (t->carriers++ & 1);
  Part p{t, &L, from, to, churn}; pthread_t h; gone[slot] = false;
  t->lo = STACKS + slot * STACK_STRIDE; t->hi = t->lo + STACK_SIZE;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, (void*)t->lo, STACK_SIZE);
  cur = nullptr;
  if (pthread_create(&h, &at, carrier, &p)) { fprintf(stderr, "pthread_create failed\n"); _exit(3); }
  pthread_join(h, nullptr); pthread_attr_destroy(&at);
  cur = t;
  t->lo = lo; t->hi = hi; gone[slot] = true; REP->carriers++;
  if ((CK & CK_LEAK) && from < churn) {
    if (t->bytes > L.held) ++L.kept; else L.kept = 0;
    L.held = t->bytes;
    if (L.kept >= 40) violation(V_LEAK, t->id, -1, "each of %d successive threads left memory behind when it ended (%ld blocks now)", L.kept, (long)t->live);
  }
}

void* body(void* a) {
  Thr* t = (Thr*)a;
  cur = t;
  last_tls.t = t;                       // registered first, destroyed last
  altstack(t);
  park(t);
  Leak L;
  size_t churn = t->id == S->churner && !S->cops.empty() ? S->churn : 0, total = churn + S->threads[t->id - 1].size() * S->reps;
  for (size_t g = 0; g < total; ) {
    if (g < churn) { carry(t, L, g, g + 1, churn); ++g; }
    else if (S->migrate) { size_t e = std::min(total, g + S->migrate); carry(t, L, g, e, churn); g = e; }
    else { calls(t, L, g, total, churn); g = total; }
  }
  t->op = 1000000;
  t->ev = 0;
  t->in_lib = 1;                        // thread_local destructors of the library are simulated too
  return nullptr;
}
LastTls::~LastTls() {
  if (!t || !g_active) return;
  t->in_lib = 0;
  cur = nullptr;
  if (carrier) return;                  // the simulated thread goes on
  t->st = T_DONE;
  REP->threads_exited++;
  // happens-before to the main thread (join)
  vjoin(T[0].vc, t->vc);
  reschedule(t, false);
}

// a thread that has the processor and does not use it waits for something the simulator does not know
void on_watch(int) {
  static uint64_t last = 0; static int idle = 0;
  struct timespec ts{}; kernel(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, (long)&ts);
  uint64_t c = ts.tv_sec * 1000000000ull + ts.tv_nsec;
  idle = c - last < 3000000 ? idle + 1 : 0; last = c;
  if (idle < 4) return;
  bool stalled = false; for (int i = 1; i < NT; ++i) if (T[i].st == T_STALLED) stalled = true;
  violation(stalled ? V_BLOCKED : V_DEADLOCK, g_runs, -1, "call %u of thread %d waits outside the simulation and nothing can wake it%s", T[g_runs].op, g_runs, stalled ? " while another thread is stopped" : "");
}
void on_signal(int sig) {
  Thr* t = cur;
  if (sig == SIGVTALRM) {
    bool stalled = false; for (int i = 1; i < NT; ++i) if (T[i].st == T_STALLED) stalled = true;
    violation(stalled ? V_BLOCKED : V_HANG, t ? t->id : 0, -1, "call %u of thread %d does not end (CPU limit)", t ? t->op : 0, t ? t->id : 0);
  }
  violation(V_CRASH, t ? t->id : 0, -1, "signal %d (%s) in call %u of thread %d%s", sig,
            sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "SIGILL", t ? t->op : 0, t ? t->id : 0,
            t && t->cur && t->alloc_fired ? " after an injected allocation failure" : "");
}
} // namespace

Report* engine_report() {
  if (!REP) {
    REP = (Report*)mmap(nullptr, (sizeof(Report) + 4095) & ~4095ul, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (REP == MAP_FAILED) { perror("mmap"); _exit(3); }
  }
  return REP;
}

static void map_at(uintptr_t a, size_t n) {
  void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (p != (void*)a) { fprintf(stderr, "cannot map simulated memory at %lx: %m\n", (long)a); _exit(3); }
  madvise(p, n, MADV_NOHUGEPAGE);
}

void engine_init() {
  map_at(ARENA, ARENA_SIZE); map_at(ARENA_SHADOW, ARENA_SIZE / 8); map_at(STACKS, NSTACK * STACK_STRIDE);
  cells = (Cell*)mmap(nullptr, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  syncs = (SyncVar*)mmap(nullptr, NSYNC * sizeof(SyncVar), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  madvise(cells, NCELL * sizeof(Cell), MADV_NOHUGEPAGE); madvise(syncs, NSYNC * sizeof(SyncVar), MADV_NOHUGEPAGE);
  LOC_C = new std::locale(std::locale::classic());
  LOC_P = new std::locale(std::locale::classic(), new PunctLocale);
  engine_report();
}

[[noreturn]] void engine_run(const Spec& spec, const Outcome* refs, unsigned checks) {
  S = &spec; REFS = refs; CK = checks;
  memset(REP, 0, offsetof(Report, sched)); REP->done = 0;
  static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
  struct itimerval it{}; it.it_value.tv_sec = 20; setitimer(ITIMER_VIRTUAL, &it, nullptr);
  sa.sa_handler = on_watch; sa.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGALRM, &sa, nullptr);
  it.it_value.tv_sec = it.it_interval.tv_sec = 2; setitimer(ITIMER_REAL, &it, nullptr);
  static Rng rs(1), hs(1); rs = Rng(spec.seed); hs = Rng(spec.garbage); R = &rs; HR = &hs;
  int n = spec.threads.size();
  NT = n + 1;
  static std::vector<uint64_t> change; g_change = &change;
  if (spec.policy == POL_PCT) { int d = 1 + R->below(6); uint64_t len = 200 + spec.mean * 20; for (int i = 0; i < d; ++i) change.push_back(R->below(len)); std::sort(change.begin(), change.end()); }
  for (int i = 0; i < NT; ++i) {
    T[i].id = i; T[i].st = T_NONE; memset(&T[i].vc, 0, sizeof(VC)); T[i].vc.c[i] = 1;
    T[i].pri = 1000 + (int)R->below(1000); new_budget(&T[i]);
  }
  static Cursor curs[MAXT]; CUR = curs;
  for (const Switch& w : spec.sched) if (w.tid >= 0 && w.tid < MAXT) curs[w.tid].v.push_back(w);
  g_hash = 0xabcdef; g_shash = 0x1234;
  // main simulated thread
  { uintptr_t sp = (uintptr_t)__builtin_frame_address(0); T[0].lo = sp - (7u << 20); T[0].hi = sp + (1u << 20); }
  cur = &T[0]; g_active = true;
  if (checks & CK_AMBIENT) {
    g_stdout_fd = memfd_create("stdout", 0); if (g_stdout_fd >= 0) dup2(g_stdout_fd, 1);
    g_stdout_fd = 1;
    g_loc_expected = (spec.garbage / 4) % 2 ? LOC_P : LOC_C;
    std::locale::global(*g_loc_expected);
    // what the rest of the program may have set up: neither kept as it is by chance nor changed by the library
    if ((spec.garbage / 8) % 2) setlocale(LC_ALL, "C.UTF-8");
    if ((spec.garbage / 16) % 2) for (std::ostream* o : {&std::cout, &std::cerr, &std::clog}) { o->flags(std::ios::hex | std::ios::showpos | std::ios::uppercase | std::ios::scientific | std::ios::left); o->precision(11); o->fill('*'); }
    if ((spec.garbage / 32) % 2) { sigset_t m; sigemptyset(&m); sigaddset(&m, SIGUSR2); sigaddset(&m, SIGPIPE); pthread_sigmask(SIG_BLOCK, &m, nullptr); }
    g_cglob = new std::string(setlocale(LC_ALL, nullptr));
  }
  static Op none; T[0].op = 2000000; T[0].cur = &none;
  T[0].st = T_RUN; T[0].in_lib = 1;
  {
    Policy p = S->policy; const_cast<Spec&>(spec).policy = POL_SEQ;
    W = subject_world(spec.world, n);
    const_cast<Spec&>(spec).policy = p;
  }
  T[0].in_lib = 0;
  T[0].vc.c[0]++;
  for (int i = 1; i <= n; ++i) {
    Thr* t = &T[i];
    t->vc = T[0].vc; t->vc.c[0] = T[0].vc.c[0] - 1; t->vc.c[i] = 1;
    t->lo = STACKS + i * STACK_STRIDE; t->hi = t->lo + STACK_SIZE; t->st = T_RUN;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, (void*)t->lo, STACK_SIZE);
    if (pthread_create(&t->h, &at, body, t)) { fprintf(stderr, "pthread_create failed\n"); _exit(3); }
  }
  T[0].op = 2000000; T[0].ev = 0;
  if (n) {
    T[0].st = T_NONE;
    reschedule(&T[0], true);
    T[0].st = T_RUN; cur = &T[0];
  }
  // no events of the main thread are scheduling points any more
  { Spec* s = const_cast<Spec*>(&spec); s->policy = POL_SEQ; s->stalls.clear(); }
  bool all = true; for (int i = 1; i < NT; ++i) if (T[i].st != T_DONE) all = false;
  T[0].op = 3000000; T[0].in_lib = 1; T[0].cur = &none;
  if (W) {
    char why[300];
    if (!subject_world_check(W, why, sizeof why) && (CK & CK_RETAIN)) violation(V_RETAINED, 0, -1, "%s", why);
    if (all) { g_teardown = true; subject_world_destroy(W); }
    if (all && (CK & CK_LEAK) && n >= 6) {
      int keep = 0; for (int i = 3; i < NT; ++i) if (T[i].live > 0) ++keep;
      if (keep == n - 2) violation(V_LEAK, NT - 1, -1, "every one of %d threads left memory behind when it ended (the last one: %ld blocks)", n, (long)T[NT - 1].live);
    }
  }
  T[0].in_lib = 0;
  quit();
}

// ================================================================ seams: callbacks, allocation
extern "C" bool sim_callback_fault() {
  Thr* t = cur; if (!t || !t->in_lib || !t->cur) return false;
  t->cbs++;
  if (t->cur->fault_cb && t->cbs == t->cur->fault_cb) { t->cb_fired = true; REP->cb_faults++; return true; }
  return false;
}
extern "C" bool sim_alloc_fault_fired() { Thr* t = cur; return t && t->alloc_fired; }
static void* new_throw(size_t n, size_t al) {
  if (Thr* t = lib()) { void* p = lib_alloc(t, n, al); if (!p) throw std::bad_alloc(); return p; }
  void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
static void* new_nothrow(size_t n, size_t al) noexcept {
  if (Thr* t = lib()) return lib_alloc(t, n, al);
  return al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
}
static void del(void* p) noexcept {
  if (!p) return;
  if (in_heap((uintptr_t)p)) { if (Thr* t = lib()) event(t, false); heap_free(p); return; }
  free(p);
}
void* operator new(size_t n) { return new_throw(n, 0); }
void* operator new[](size_t n) { return new_throw(n, 0); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_nothrow(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_nothrow(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return new_throw(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return new_throw(n, (size_t)a); }
void operator delete(void* p) noexcept { del(p); }
void operator delete[](void* p) noexcept { del(p); }
void operator delete(void* p, size_t) noexcept { del(p); }
void operator delete[](void* p, size_t) noexcept { del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { del(p); }
void operator delete(void* p, std::align_val_t) noexcept { del(p); }
void operator delete[](void* p, std::align_val_t) noexcept { del(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { del(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { del(p); }

// malloc family as used by the library's own code (linked with --wrap)
extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t n) { if (Thr* t = lib()) { void* p = lib_alloc(t, n, 0); if (!p) errno = ENOMEM; return p; } return __real_malloc(n); }
void __wrap_free(void* p) { if (p && in_heap((uintptr_t)p)) { if (Thr* t = lib()) event(t, false); heap_free(p); } else __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) {
  if (Thr* t = lib()) { void* p = lib_alloc(t, a * b, 0); if (p) memset(p, 0, a * b); else errno = ENOMEM; return p; }
  return __real_calloc(a, b);
}
void* __wrap_realloc(void* o, size_t n) {
  if (o && !in_heap((uintptr_t)o)) return __real_realloc(o, n);
  Thr* t = lib(); if (!t && !o) return __real_realloc(o, n);
  if (!t) t = &T[0];
  void* p = lib_alloc(t, n, 0); if (!p) { errno = ENOMEM; return nullptr; }
  if (o) { size_t k = ((Hdr*)o - 1)->size; memcpy(p, o, k < n ? k : n); heap_free(o); }
  return p;
}
void* __wrap_aligned_alloc(size_t, size_t n) { return __wrap_malloc(n); }
int __wrap_posix_memalign(void** p, size_t, size_t n) { void* q = __wrap_malloc(n); if (!q) return ENOMEM; *p = q; return 0; }
char* __wrap_strndup(const char* s, size_t k) { size_t n = strnlen(s, k); char* p = (char*)__wrap_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int __wrap_vasprintf(char** p, const char* f, va_list v) {
  va_list w; va_copy(w, v); int n = vsnprintf(nullptr, 0, f, w); va_end(w);
  *p = n < 0 ? nullptr : (char*)__wrap_malloc(n + 1); if (!*p) return -1; return vsnprintf(*p, n + 1, f, v);
}
int __wrap_asprintf(char** p, const char* f, ...) { va_list v; va_start(v, f); int n = __wrap_vasprintf(p, f, v); va_end(v); return n; }
char* __wrap_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)__wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
}

// ================================================================ seams: time
extern "C" int clock_gettime(clockid_t c, struct timespec* ts) {
  if (lib()) { g_clock += 1000 + (g_clock >> 3) % 5000; if (g_events % 7 == 0) g_clock += 3600000000000ull;   // jumps
    ts->tv_sec = g_clock / 1000000000; ts->tv_nsec = g_clock % 1000000000; return 0; }
  return kernel_e(SYS_clock_gettime, c, (long)ts);
}
extern "C" int gettimeofday(struct timeval* tv, void*) { struct timespec ts; int r = clock_gettime(CLOCK_REALTIME, &ts); if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; } return r; }
extern "C" time_t time(time_t* p) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }

// ================================================================ seams: locks
static void* g_exe;
bool subject_initialises();
static bool of_shared_library(const void* p) { if (subject_initialises()) return true; Dl_info i; return dladdr(p, &i) && i.dli_fbase != g_exe; }
__attribute__((constructor)) static void find_exe() { Dl_info i; if (dladdr((void*)&of_shared_library, &i)) g_exe = i.dli_fbase; }
static inline void synced(Thr* t) { if (!S->stalls.empty()) for (const Stall& s : S->stalls) if (s.tid == t->id && s.after && t->op >= s.op) ++t->syncs; }
#define REAL(f) ([]{ static decltype(&f) r = (decltype(&f))dlsym(RTLD_NEXT, #f); return r; }())
static void sim_lock(Thr* t, void* m) {
  event(t, true);
  SyncVar* s = syncvar(m);
  while (s->owner >= 0 && s->owner != t->id) block_on(t, m);
  if (s->owner == t->id) {
    pthread_mutex_t* pm = (pthread_mutex_t*)m;
    if ((pm->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE) violation(V_DEADLOCK, t->id, -1, "call %u of thread %d locks a mutex it already holds", t->op, t->id);
  }
  s->owner = t->id; s->count++; acquire(t, m); synced(t);
}
// a lock that gives up: the others go on for a while, then the time is over
static int sim_timed_lock(Thr* t, void* m) {
  event(t, true);
  SyncVar* s = syncvar(m);
  for (int i = 0; s->owner >= 0; ++i) {
    if (i == 20) { g_clock += 3600000000000ull; return ETIMEDOUT; }
    event(t, true); int n = S->policy == POL_REPLAY ? t->id : pick_other(t->id); preempt(t, n);
  }
  s->owner = t->id; s->count = 1; acquire(t, m); synced(t); return 0;
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (Thr* t = lib()) { sim_lock(t, m); return 0; } return REAL(pthread_mutex_lock)(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  if (Thr* t = lib()) { event(t, true); SyncVar* s = syncvar(m); if (s->owner >= 0 || s->readers) return EBUSY; s->owner = t->id; s->count = 1; acquire(t, m); synced(t); return 0; }
  return REAL(pthread_mutex_trylock)(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept { if (Thr* t = lib()) return sim_timed_lock(t, m); return REAL(pthread_mutex_timedlock)(m, ts); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) noexcept { if (Thr* t = lib()) return sim_timed_lock(t, m); return REAL(pthread_mutex_clocklock)(m, c, ts); }
int pthread_spin_lock(pthread_spinlock_t* m) noexcept { if (Thr* t = lib()) { event(t, true); SyncVar* s = syncvar((const void*)m); while (s->owner >= 0) block_on(t, (const void*)m); s->owner = t->id; acquire(t, (const void*)m); synced(t); return 0; } return REAL(pthread_spin_lock)(m); }
int pthread_spin_trylock(pthread_spinlock_t* m) noexcept { if (Thr* t = lib()) { event(t, true); SyncVar* s = syncvar((const void*)m); if (s->owner >= 0) return EBUSY; s->owner = t->id; acquire(t, (const void*)m); synced(t); return 0; } return REAL(pthread_spin_trylock)(m); }
int pthread_spin_unlock(pthread_spinlock_t* m) noexcept { if (Thr* t = lib()) { SyncVar* s = syncvar((const void*)m); release(t, (const void*)m); s->owner = -1; unblock((const void*)m); event(t, true); return 0; } return REAL(pthread_spin_unlock)(m); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { if (Thr* t = lib()) { event(t, true); SyncVar* s = syncvar(m); if (s->owner >= 0) return EBUSY; s->readers++; acquire(t, m); synced(t); return 0; } return REAL(pthread_rwlock_tryrdlock)(m); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { if (Thr* t = lib()) { event(t, true); SyncVar* s = syncvar(m); if (s->owner >= 0 || s->readers) return EBUSY; s->owner = t->id; acquire(t, m); synced(t); return 0; } return REAL(pthread_rwlock_trywrlock)(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  if (Thr* t = lib()) {
    SyncVar* s = syncvar(m);
    if (s->owner == t->id && --s->count == 0) { release(t, m); s->owner = -1; unblock(m); }
    event(t, true); return 0;
  }
  return REAL(pthread_mutex_unlock)(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
  if (Thr* t = lib()) { event(t, true); SyncVar* s = syncvar(m); while (s->owner >= 0) block_on(t, m); s->readers++; acquire(t, m); synced(t); return 0; }
  return REAL(pthread_rwlock_rdlock)(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
  if (Thr* t = lib()) { event(t, true); SyncVar* s = syncvar(m); while (s->owner >= 0 || s->readers) block_on(t, m); s->owner = t->id; acquire(t, m); synced(t); return 0; }
  return REAL(pthread_rwlock_wrlock)(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
  if (Thr* t = lib()) { SyncVar* s = syncvar(m); release(t, m); if (s->owner == t->id) s->owner = -1; else if (s->readers) s->readers--; unblock(m); event(t, true); return 0; }
  return REAL(pthread_rwlock_unlock)(m);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (Thr* t = lib()) { pthread_mutex_unlock(m); block_on(t, c); acquire(t, c); sim_lock(t, m); return 0; }
  return REAL(pthread_cond_wait)(c, m);
}
static int sim_cond_timed(Thr* t, pthread_cond_t* c, pthread_mutex_t* m) {      // the others go on for a while, then the time is over
  pthread_mutex_unlock(m);
  for (int i = 0; i < 20; ++i) { event(t, true); int n = S->policy == POL_REPLAY ? t->id : pick_other(t->id); preempt(t, n); }
  g_clock += 3600000000000ull; acquire(t, c); sim_lock(t, m); return ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (Thr* t = lib()) return sim_cond_timed(t, c, m); return REAL(pthread_cond_timedwait)(c, m, ts); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { if (Thr* t = lib()) return sim_cond_timed(t, c, m); return REAL(pthread_cond_clockwait)(c, m, k, ts); }
int pthread_cond_signal(pthread_cond_t* c) noexcept { if (Thr* t = lib()) { release(t, c); unblock(c); event(t, true); return 0; } return REAL(pthread_cond_signal)(c); }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (Thr* t = lib()) { release(t, c); unblock(c); event(t, true); return 0; } return REAL(pthread_cond_broadcast)(c); }
int pthread_once(pthread_once_t* o, void (*f)()) {
  Thr* t = lib(); if (!t) return REAL(pthread_once)(o, f);
  event(t, true);
  SyncVar* s = syncvar(o);
  for (;;) {
    if (s->count == 2) { acquire(t, o); return 0; }
    if (s->count == 0) break;
    block_on(t, o);
  }
  int g = of_shared_library(o); s->count = 1; t->guards += g; synced(t);
  try { f(); } catch (...) { s->count = 0; t->guards -= g; unblock(o); throw; }
  s->count = 2; t->guards -= g; release(t, o); unblock(o); event(t, true);
  return 0;
}
// semaphores keep their count where they always do
int sem_wait(sem_t* m) {
  if (Thr* t = lib()) { event(t, true); while (REAL(sem_trywait)(m)) block_on(t, m); acquire(t, m); synced(t); return 0; }
  return REAL(sem_wait)(m);
}
int sem_trywait(sem_t* m) noexcept {
  Thr* t = lib(); if (t) event(t, true);
  int r = REAL(sem_trywait)(m); if (t && r == 0) { acquire(t, m); synced(t); } return r;
}
static int sim_sem_timed(Thr* t, sem_t* m) {
  event(t, true);
  for (int i = 0; REAL(sem_trywait)(m); ++i) {
    if (i == 20) { g_clock += 3600000000000ull; errno = ETIMEDOUT; return -1; }
    event(t, true); int n = S->policy == POL_REPLAY ? t->id : pick_other(t->id); preempt(t, n);
  }
  acquire(t, m); synced(t); return 0;
}
int sem_timedwait(sem_t* m, const struct timespec* ts) { if (Thr* t = lib()) return sim_sem_timed(t, m); return REAL(sem_timedwait)(m, ts); }
int sem_clockwait(sem_t* m, clockid_t c, const struct timespec* ts) { if (Thr* t = lib()) return sim_sem_timed(t, m); return REAL(sem_clockwait)(m, c, ts); }
int sem_post(sem_t* m) noexcept { Thr* t = lib(); if (t) release(t, m); int r = REAL(sem_post)(m); if (t) { unblock(m); event(t, true); } return r; }
// std::atomic::wait, std::counting_semaphore, std::latch and std::barrier end here
long syscall(long n, ...) noexcept {
  va_list v; va_start(v, n); long a[6]; for (long& x : a) x = va_arg(v, long); va_end(v);
  if (n == SYS_futex) if (Thr* t = lib()) {
    const void* p = (const void*)a[0]; int op = (int)a[1] & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      event(t, true);
      if (*(volatile int*)p != (int)a[2]) { errno = EAGAIN; return -1; }
      if (a[3]) {                                                     // with a time limit
        for (int i = 0; i < 20 && *(volatile int*)p == (int)a[2]; ++i) { event(t, true); int k = S->policy == POL_REPLAY ? t->id : pick_other(t->id); preempt(t, k); }
        if (*(volatile int*)p == (int)a[2]) { g_clock += 3600000000000ull; errno = ETIMEDOUT; return -1; }
      } else block_on(t, p);
      acquire(t, p); return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { release(t, p); int k = 0; for (int i = 0; i < NT; ++i) if (T[i].st == T_BLOCKED && T[i].wait == p) ++k; unblock(p); event(t, true); return k; }
  }
  return kernel_e(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
int sched_yield() noexcept { if (Thr* t = lib()) { event(t, true); int n = S->policy == POL_REPLAY ? t->id : pick_other(t->id); preempt(t, n); return 0; } return kernel(SYS_sched_yield); }
static void sim_sleep(Thr* t, uint64_t ns) { g_clock += ns; event(t, true); int n = S->policy == POL_REPLAY ? t->id : pick_other(t->id); preempt(t, n); }
int nanosleep(const struct timespec* a, struct timespec* b) { if (Thr* t = lib()) { sim_sleep(t, a->tv_sec * 1000000000ull + a->tv_nsec); return 0; } return kernel_e(SYS_nanosleep, (long)a, (long)b); }
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) { if (Thr* t = lib()) { sim_sleep(t, f ? 1000000 : a->tv_sec * 1000000000ull + a->tv_nsec); return 0; } return -kernel(SYS_clock_nanosleep, c, f, (long)a, (long)b); }
int usleep(useconds_t u) { if (Thr* t = lib()) { sim_sleep(t, u * 1000ull); return 0; } struct timespec a = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return kernel_e(SYS_nanosleep, (long)&a); }
unsigned sleep(unsigned u) { if (Thr* t = lib()) { sim_sleep(t, u * 1000000000ull); return 0; } struct timespec a = {(time_t)u, 0}; kernel(SYS_nanosleep, (long)&a); return 0; }

// function-local statics
int __cxa_guard_acquire(uint64_t* g) {
  Thr* t = lib();
  unsigned char* b = (unsigned char*)g;
  if (!t) { if (b[0]) return 0; b[1] = 1; return 1; }
  event(t, true);
  SyncVar* s = syncvar(g);
  for (;;) {
    if (b[0]) { acquire(t, g); return 0; }
    if (!b[1]) break;
    if (s->owner == t->id) violation(V_DEADLOCK, t->id, -1, "recursive initialisation of a local static");
    block_on(t, g);
  }
  b[1] = 1; s->owner = t->id; t->guards += s->readers = of_shared_library(g); synced(t);
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  unsigned char* b = (unsigned char*)g; b[1] = 0;
  if (Thr* t = lib()) { SyncVar* s = syncvar(g); release(t, g); s->owner = -1; b[0] = 1; t->guards -= s->readers; s->readers = 0; unblock(g); event(t, true); } else b[0] = 1;
}
void __cxa_guard_abort(uint64_t* g) {
  unsigned char* b = (unsigned char*)g; b[1] = 0;
  if (Thr* t = lib()) { SyncVar* s = syncvar(g); s->owner = -1; t->guards -= s->readers; s->readers = 0; unblock(g); event(t, true); }
}
}

// ================================================================ seams: memory accesses (TSan ABI)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { if (Thr* t = lib()) event(t, false); }
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void* p) { mem(p, n, false); } \
  void __tsan_write##n(void* p) { mem(p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { mem(p, n, false); } \
  void __tsan_unaligned_write##n(void* p) { mem(p, n, true); } \
  void __tsan_read_write##n(void* p) { mem(p, n, false); mem(p, n, true); } \
  void __tsan_unaligned_read_write##n(void* p) { mem(p, n, false); mem(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { mem(p, n, false); } \
  void __tsan_volatile_write##n(void* p) { mem(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { mem(p, n, false); }
void __tsan_write_range(void* p, size_t n) { mem(p, n, true); }
void __tsan_vptr_update(void** p, void*) { mem(p, 8, true); }
void __tsan_vptr_read(void** p) { mem(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { mem(s, n, false); mem(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { mem(s, n, false); mem(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { mem(d, n, true); return memset(d, c, n); }
// libc functions that touch memory on behalf of the library
void* __real_memcpy(void*, const void*, size_t);
}
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_pre(const volatile void* p, size_t n, bool w) {
  Thr* t = lib(); if (!t) return;
  uintptr_t a = (uintptr_t)p;
  if (!(a >= t->lo && a < t->hi)) access(t, a, n, w, true);
  event(t, true);
}
static void at_load(const volatile void* p, int mo) {
  Thr* t = lib(); if (!t) return;
  if (acq(mo)) acquire(t, (const void*)p); else vjoin(t->facq, syncvar((const void*)p)->vc);
}
static void at_store(const volatile void* p, int mo, bool rmw) {
  Thr* t = lib(); if (!t) return;
  SyncVar* s = syncvar((const void*)p);
  if (!rmw) memset(&s->vc, 0, sizeof s->vc);         // a plain store starts a new release sequence
  if (rel(mo)) { vjoin(s->vc, t->vc); t->vc.c[t->id]++; }
  else if (t->has_frel) vjoin(s->vc, t->frel);
}
template <class V> static V a_load(const volatile V* p, int mo) { at_pre(p, sizeof(V), false); V v = *p; at_load(p, mo); return v; }
template <class V> static void a_store(volatile V* p, V v, int mo) { at_pre(p, sizeof(V), true); at_store(p, mo, false); *p = v; if (Thr* t = lib()) synced(t); }
template <class V, class F> static V a_rmw(volatile V* p, int mo, F f) { at_pre(p, sizeof(V), true); V o = *p; at_load(p, mo); at_store(p, mo, true); *p = f(o); if (Thr* t = lib()) synced(t); return o; }
template <class V> static bool a_cas(volatile V* p, V* e, V d, int mo, int fmo) {
  at_pre(p, sizeof(V), true); V o = *p;
  if (o == *e) { at_load(p, mo); at_store(p, mo, true); *p = d; if (Thr* t = lib()) synced(t); return true; }
  at_load(p, fmo); *e = o; return false;
}
extern "C" {
#define AT(n, V) \
  V __tsan_atomic##n##_load(const volatile V* p, int mo) { return a_load<V>(p, mo); } \
  void __tsan_atomic##n##_store(volatile V* p, V v, int mo) { a_store<V>(p, v, mo); } \
  V __tsan_atomic##n##_exchange(volatile V* p, V v, int mo) { return a_rmw<V>(p, mo, [&](V) { return v; }); } \
  V __tsan_atomic##n##_fetch_add(volatile V* p, V v, int mo) { return a_rmw<V>(p, mo, [&](V o) { return (V)(o + v); }); } \
  V __tsan_atomic##n##_fetch_sub(volatile V* p, V v, int mo) { return a_rmw<V>(p, mo, [&](V o) { return (V)(o - v); }); } \
  V __tsan_atomic##n##_fetch_and(volatile V* p, V v, int mo) { return a_rmw<V>(p, mo, [&](V o) { return (V)(o & v); }); } \
  V __tsan_atomic##n##_fetch_or(volatile V* p, V v, int mo) { return a_rmw<V>(p, mo, [&](V o) { return (V)(o | v); }); } \
  V __tsan_atomic##n##_fetch_xor(volatile V* p, V v, int mo) { return a_rmw<V>(p, mo, [&](V o) { return (V)(o ^ v); }); } \
  V __tsan_atomic##n##_fetch_nand(volatile V* p, V v, int mo) { return a_rmw<V>(p, mo, [&](V o) { return (V)~(o & v); }); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile V* p, V* e, V d, int mo, int f) { return a_cas<V>(p, e, d, mo, f); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile V* p, V* e, V d, int mo, int f) { return a_cas<V>(p, e, d, mo, f); } \
  V __tsan_atomic##n##_compare_exchange_val(volatile V* p, V e, V d, int mo, int f) { V x = e; a_cas<V>(p, &x, d, mo, f); return x; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  Thr* t = lib(); if (!t) return;
  if (acq(mo)) vjoin(t->vc, t->facq);
  if (rel(mo)) { t->frel = t->vc; t->has_frel = true; t->vc.c[t->id]++; }
  event(t, true);
}
void __tsan_atomic_signal_fence(int) {}
}

// Deterministic simulation engine: one process = one simulated run.
// See ../DESIGN.md.  Nothing in this file is specific to resonanceReconstruction.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() {                                   // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
  double range(double a, double b) { return a + (b - a) * unit(); }
};
inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h;
}

// ---------------------------------------------------------------- operations
enum Status : uint8_t { ST_NONE = 0, ST_VALUE, ST_REJECT, ST_NOMEM, ST_CALLER, ST_OTHER };
const char* status_name(int);

struct Outcome {
  uint8_t  status = ST_NONE;
  uint16_t len = 0;            // bytes of result (may exceed sizeof bytes)
  int32_t  ref = -1;           // index of the reference this outcome must equal (-1: the op's own)
  uint32_t exc = 0;            // hash of the dynamic type of the exception
  uint64_t hash = 0;           // over all bytes of the result
  unsigned char bytes[192];
  __attribute__((no_sanitize("thread"))) void clear() { status = ST_NONE; len = 0; ref = -1; exc = 0; hash = 0x51ed; memset(bytes, 0, sizeof bytes); }
  __attribute__((no_sanitize("thread"))) void put(const void* p, size_t n) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) {
      hash = mix(hash, c[i]);
      if (len < sizeof bytes) bytes[len] = c[i];
      if (len < 65535) ++len;
    }
  }
  bool same(const Outcome& o) const {
    return status == o.status && exc == o.exc && len == o.len && hash == o.hash;
  }
};

struct Op {
  uint16_t kind = 0;
  uint16_t slot = 0;           // object slot (stateful kinds)
  uint16_t flags = 0;
  uint16_t fault_alloc = 0;    // n: the n-th allocation of this call fails
  uint8_t  fault_sticky = 0;   // ... and all later ones of the call
  uint8_t  fault_cb = 0;       // n: the n-th operation of the caller's number type throws
  uint16_t ambient = 0;        // ambient perturbation applied before the call
  int32_t  ref = -1;           // reference index in the pool
  int64_t  l = 0;
  double   a = 0, b = 0, c = 0, d = 0;
};

// ---------------------------------------------------------------- schedule
struct Switch { int tid; uint32_t op; uint64_t ev; int next; int type; }; // at event ev of call op of thread tid; type: 0 preemption, 1 cannot continue, 2 between calls
struct Stall  { int tid; uint32_t op; uint64_t ev; int forever; uint32_t after = 0; };  // stop there; after: from that call on, after so many synchronisation operations (locks taken, initialisations begun, atomic updates)
enum Policy : int { POL_SEQ = 0, POL_OPS, POL_RAND, POL_HOT, POL_RR, POL_PCT, POL_REPLAY };

struct Spec {
  std::vector<std::vector<Op>> threads;
  int reps = 1;                       // each thread repeats its list
  uint64_t seed = 1;                  // schedule decisions (not used by POL_REPLAY)
  uint64_t garbage = 1;               // contents of fresh memory
  int heap_mode = 0;                  // 0 quarantine freed blocks, 1 reuse at once, 2 mixed
  Policy policy = POL_SEQ;
  uint32_t mean = 50;                 // mean events between preemptions
  double hot = 0.3;                   // preemption probability at shared accesses
  double bound = 0.3;                 // preemption probability between calls
  std::vector<Switch> sched;          // POL_REPLAY
  std::vector<Stall> stalls;
  int distinct = 0;                   // >0: the calls of each list are all different; memory held must not follow their number
  int world = 0;                      // subject specific variant of the shared objects
  uint64_t limit = 30000000;          // events one call may take
  // a simulated thread may be carried on by a succession of threads of the operating system, each with thread_local objects of its own
  int churn = 0, churner = 0;         // before its list, simulated thread churner makes so many calls from cops, each in a thread of its own that ends
  std::vector<Op> cops;
  int migrate = 0;                    // >0: after so many calls the thread of the operating system ends and another carries on
};

// ---------------------------------------------------------------- violations
enum Kind : int {
  V_NONE = 0,
  V_MISMATCH,      // outcome differs from the isolated reference
  V_RACE,          // unsynchronised conflicting accesses
  V_MEMORY,        // access to heap memory that is not live
  V_FREE,          // double or invalid free, or overrun found at free
  V_LEAK,          // memory held grows
  V_CRASH,         // signal or std::terminate
  V_HANG,          // step or CPU limit
  V_DEADLOCK,      // nothing can run
  V_BLOCKED,       // others wait for a stalled thread
  V_AMBIENT,       // ambient state changed
  V_RETAINED,      // retained result or object changed
  V_FAULTLOST,     // injected caller exception did not reach its caller
  V_WRONGEXC,      // wrong exception under an injected allocation failure
  V_GARBAGE,       // outcome depends on contents of unused memory
  V_KINDS
};
const char* kind_name(int);

struct Report {                       // in memory shared with the parent
  int   kind; int tid; int op; int tid2; int op2;
  uint64_t hash;                      // of the whole execution
  uint64_t sched_hash;                // of the interleaving only
  uint64_t events; uint32_t switches, nsched, ops_done, preempts;
  uint32_t alloc_faults, cb_faults, stalls, pauses, rejects, nomem, ambients, shared_ev, heap_reuse;
  uint32_t allocs, threads_exited, blocks_on_lock, carriers;
  uint64_t clock_ns;
  char  detail[400];
  char  trace[1];                     // unused
  Switch sched[6000];
  int   done;
  Outcome out;                        // reference mode: the outcome of the only op
  uint32_t out_allocs, out_cbs; uint64_t out_events;
};

// ---------------------------------------------------------------- engine -> driver
Report* engine_report();                                  // shared page
// run spec in the calling process (a forked child); never returns
[[noreturn]] void engine_run(const Spec&, const Outcome* refs, unsigned checks);
enum Checks : unsigned { CK_OUTCOME = 1, CK_RACE = 2, CK_MEM = 4, CK_LEAK = 8, CK_AMBIENT = 16, CK_RETAIN = 32, CK_STALL = 64, CK_EXC = 128,
                         CK_REFMODE = 256 };
void engine_init();                                       // once, in the zygote

// ---------------------------------------------------------------- engine -> subject
extern "C" bool sim_callback_fault();                     // should the caller's number type throw here?
extern "C" bool sim_alloc_fault_fired();                  // did an allocation of the call under way fail?
struct CallerError { int x; };

// ---------------------------------------------------------------- subject
struct World;
World* subject_world(int variant, int nthreads);          // called by the main simulated thread
bool   subject_world_check(World*, char* why, size_t n);  // retained results and objects unchanged?
void   subject_world_destroy(World*);
void   subject_exec(World*, int tid, const Op&, Outcome&);
const char* subject_kind_name(int kind);

// Seeded search over schedules, histories and faults; minimisation; replay.
#include "workload.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <errno.h>
#include <math.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <algorithm>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_set>

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

void choose_policy(Rng& r, Spec& s, int nt, double est) {
  s.bound = r.chance(.5) ? .3 : r.unit();
  switch (r.below(10)) {
    case 0: s.policy = POL_OPS; s.bound = .5; break;
    case 1: case 2: case 3: s.policy = POL_RAND; s.mean = (uint32_t)exp(r.range(log(2.), log(std::max(20., est / (nt * 4))))); break;
    case 4: case 5: case 6: s.policy = POL_HOT; s.hot = r.range(.03, .6); s.mean = (uint32_t)exp(r.range(log(3.), log(std::max(20., est / (nt * 40))))); break;
    case 7: s.policy = POL_RR; s.mean = (uint32_t)exp(r.range(log(1.), log(std::max(20., est / (nt * 8))))); break;
    default: s.policy = POL_PCT; s.mean = (uint32_t)std::max(10., est / 20); break;
  }
}

// threads that come and go around the calls of a run
void choose_carriers(Rng& r, Spec& s, const Pool& pool, const std::vector<int>& pure, double budget) {
  if (s.distinct) return;
  size_t longest = 0; for (auto& t : s.threads) longest = std::max(longest, t.size() * s.reps);
  if (longest <= 400 && r.chance(.08)) { static const int m[] = {1, 1, 1, 2, 3, 5}; s.migrate = m[r.below(6)]; }
  if (pure.empty() || !r.chance(.07)) return;
  int n; switch (r.below(6)) { case 0: n = 1 + r.below(13); break; case 1: case 2: n = 14 + r.below(6); break; case 3: n = 30 + r.below(6); break; case 4: n = 62 + r.below(6); break; default: n = 126 + r.below(6); }
  int k = 1 + r.below(3); std::vector<Op> ops;
  for (int i = 0; i < 8 && (int)ops.size() < k; ++i) {
    int j = any(r, pure); if (pool[j].events * (double)n > budget) continue;
    Op o = pool[j].op; o.ref = j; o.fault_alloc = 0; o.fault_cb = 0; o.ambient = 0; ops.push_back(o);
  }
  if (ops.empty()) return;
  s.cops = ops; s.churn = n; s.churner = 1 + r.below(s.threads.size());
  for (auto& w : s.stalls) if (w.tid == s.churner && r.chance(.7)) w.op += n;
}

// ---------------------------------------------------------------- one run = one forked process
static Report* REPT;
struct Result { int kind = 0, tid = 0, op = 0; uint64_t hash = 0, shash = 0; std::string detail; };
enum { RUN_BROKEN = -1 };
static Result run(const Spec& spec, const std::vector<Outcome>& refs, unsigned ck) {
  REPT->done = 0; REPT->kind = 0; REPT->nsched = 0;
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) { perror("fork"); _exit(3); }
  if (p == 0) engine_run(spec, refs.data(), ck);
  int st; double t0 = now(); int polls = 0;
  for (;;) {
    pid_t q = waitpid(p, &st, 0); (void)t0; (void)polls;
    if (q == p) break;
    if (q < 0 && errno != EINTR) { perror("waitpid"); _exit(3); }
  }
  Result r;
  if (!REPT->done) { r.kind = RUN_BROKEN; r.detail = WIFSIGNALED(st) ? "run ended by signal " + std::to_string(WTERMSIG(st)) : "run ended with status " + std::to_string(WEXITSTATUS(st)); return r; }
  r.kind = REPT->kind; r.tid = REPT->tid; r.op = REPT->op; r.hash = REPT->hash; r.shash = REPT->sched_hash; r.detail = REPT->detail;
  return r;
}
static Result run_alone(const Op& op, uint64_t garbage, int heap_mode) {
  Spec s; s.threads.assign(1, {op}); s.threads[0][0].fault_alloc = 0; s.threads[0][0].fault_cb = 0; s.threads[0][0].ambient = 0;
  s.garbage = garbage; s.heap_mode = heap_mode; s.policy = POL_SEQ;
  static std::vector<Outcome> none(1);
  return run(s, none, CK_REFMODE | CK_MEM);
}
static bool JUDGE = false;
static Outcome outcome_alone(const Op& op) { Result r = run_alone(op, 4, 0); Outcome o; o.clear(); if (r.kind == 0) o = REPT->out; return o; }
// outcome of the call alone, in fresh processes with different memory contents; returns a violation kind or 0
static Result reference(Entry& e, uint64_t seed) {
  Result a = run_alone(e.op, (seed << 2) | 0, 0);
  if (a.kind == RUN_BROKEN) return a;
  e.ref = REPT->out; e.allocs = REPT->out_allocs; e.cbs = REPT->out_cbs; e.events = REPT->out_events; e.usable = a.kind == 0;
  if (a.kind) { if (subject_expect(e.op) == EXPECT_REJECT && e.ref.status == ST_NONE) a.detail += " (a request that must be rejected)"; return a; }
  static const int modes[] = {2, 1, 3};
  for (int k = 0; k < 2; ++k) {
    Result b = run_alone(e.op, (mix(seed, 5 + k) << 2) | modes[(seed + k) % 3], 1);
    if (b.kind == RUN_BROKEN) return b;
    if (b.kind) { e.usable = false; return b; }
    if (!e.ref.same(REPT->out)) {
      e.usable = false; b.kind = V_GARBAGE;
      b.detail = std::string("the outcome of ") + subject_kind_name(e.op.kind) + ", made alone, depends on what unused memory contains"; return b;
    }
  }
  if (subject_expect(e.op) == EXPECT_REJECT && e.ref.status == ST_VALUE) {
    a.kind = V_WRONGEXC; a.detail = std::string(subject_kind_name(e.op.kind)) + " with l = " + std::to_string(e.op.l) + " is not supported but was not rejected"; return a;
  }
  if (subject_expect(e.op) == EXPECT_VALUE && e.ref.status != ST_VALUE) {
    a.kind = V_WRONGEXC; a.detail = std::string(subject_kind_name(e.op.kind)) + " with l = " + std::to_string(e.op.l) + " is supported but was rejected"; return a;
  }
  if (JUDGE) { std::string w = subject_judge(e.op, e.ref, outcome_alone); if (!w.empty()) { a.kind = V_WRONGEXC; a.detail = w; return a; } }
  return Result();
}

// ---------------------------------------------------------------- replay files
static std::string hexd(double d) { char b[64]; snprintf(b, sizeof b, "%a", d); return b; }
static void put_op(std::ostream& o, const char* tag, const Op& p) {
  o << tag << ' ' << p.kind << ' ' << p.slot << ' ' << p.flags << ' ' << p.fault_alloc << ' ' << (int)p.fault_sticky << ' ' << (int)p.fault_cb << ' ' << p.ambient << ' ' << p.ref << ' ' << p.l << ' '
    << hexd(p.a) << ' ' << hexd(p.b) << ' ' << hexd(p.c) << ' ' << hexd(p.d) << "   # " << subject_kind_name(p.kind) << " l=" << p.l << " a=" << p.a << " b=" << p.b;
  if (p.fault_alloc) o << " [allocation " << p.fault_alloc << (p.fault_sticky ? " and later ones fail]" : " fails]");
  if (p.fault_cb) o << " [caller's operation " << (int)p.fault_cb << " throws]";
  o << "\n";
}
static Op get_op(std::istringstream& i) {
  Op p; int sticky, cb; std::string a, b, c, d;
  i >> p.kind >> p.slot >> p.flags >> p.fault_alloc >> sticky >> cb >> p.ambient >> p.ref >> p.l >> a >> b >> c >> d;
  p.fault_sticky = sticky; p.fault_cb = cb; p.a = strtod(a.c_str(), 0); p.b = strtod(b.c_str(), 0); p.c = strtod(c.c_str(), 0); p.d = strtod(d.c_str(), 0);
  return p;
}
struct Case { std::string prop, subject; Spec spec; unsigned ck = 0; std::vector<Op> refs; int kind = 0; std::string detail; bool isolated = false; uint64_t hash = 0; };
static void save(const Case& c, const std::string& path, const std::string& how) {
  std::ofstream o(path);
  o << "# replay of a simulated run of resonanceReconstruction; run: ./check " << c.prop << " --replay <this file>\n";
  o << "# " << how << "\n";
  o << "property " << c.prop << "\nkind " << c.kind << ' ' << kind_name(c.kind) << "\n# " << c.detail << "\n";
  if (c.isolated) { o << "isolated " << c.spec.garbage << "\n"; put_op(o, "ref", c.refs[0]); return; }
  o << "checks " << c.ck << "\nhash " << c.hash << "\nrun " << c.spec.reps << ' ' << c.spec.seed << ' ' << c.spec.garbage << ' ' << c.spec.heap_mode << ' ' << (int)c.spec.policy << ' ' << c.spec.mean << ' ' << hexd(c.spec.hot) << ' ' << hexd(c.spec.bound) << ' ' << c.spec.world << ' ' << c.spec.limit << ' ' << c.spec.distinct << ' ' << c.spec.churn << ' ' << c.spec.churner << ' ' << c.spec.migrate << "\n";
  for (auto& r : c.refs) put_op(o, "ref", r);
  for (auto& p : c.spec.cops) put_op(o, "passing", p);
  for (size_t t = 0; t < c.spec.threads.size(); ++t) { o << "thread " << t + 1 << "\n"; for (auto& p : c.spec.threads[t]) put_op(o, "op", p); }
  for (auto& s : c.spec.stalls) o << "stall " << s.tid << ' ' << s.op << ' ' << s.ev << ' ' << s.forever << ' ' << s.after << "\n";
  for (auto& s : c.spec.sched) o << "switch " << s.tid << ' ' << s.op << ' ' << s.ev << ' ' << s.next << ' ' << s.type << "\n";
}
static bool load(Case& c, const std::string& path) {
  std::ifstream f(path); if (!f) return false;
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream i(line); std::string t; i >> t;
    if (t == "property") i >> c.prop; else if (t == "kind") i >> c.kind; else if (t == "checks") i >> c.ck; else if (t == "hash") i >> c.hash;
    else if (t == "isolated") { c.isolated = true; i >> c.spec.garbage; }
    else if (t == "run") { int pol; std::string h, b; c.spec.distinct = 0; i >> c.spec.reps >> c.spec.seed >> c.spec.garbage >> c.spec.heap_mode >> pol >> c.spec.mean >> h >> b >> c.spec.world >> c.spec.limit >> c.spec.distinct >> c.spec.churn >> c.spec.churner >> c.spec.migrate; c.spec.policy = (Policy)pol; c.spec.hot = strtod(h.c_str(), 0); c.spec.bound = strtod(b.c_str(), 0); }
    else if (t == "ref") c.refs.push_back(get_op(i));
    else if (t == "passing") c.spec.cops.push_back(get_op(i));
    else if (t == "thread") c.spec.threads.push_back({});
    else if (t == "op") c.spec.threads.back().push_back(get_op(i));
    else if (t == "stall") { Stall s; i >> s.tid >> s.op >> s.ev >> s.forever >> s.after; c.spec.stalls.push_back(s); }
    else if (t == "switch") { Switch s; i >> s.tid >> s.op >> s.ev >> s.next >> s.type; c.spec.sched.push_back(s); }
  }
  return true;
}

// ---------------------------------------------------------------- minimisation
struct Minimiser {
  Case& c; std::vector<Outcome> refs; int budget = 600; double deadline;
  Result last;
  bool fails(const Spec& s) {
    if (budget-- <= 0 || now() > deadline) return false;
    Result r = run(s, refs, c.ck);
    if (r.kind == c.kind) { last = r; return true; }
    return false;
  }
  template <class V, class F> void shrink(V& v, F apply, size_t min = 0) {     // ddmin-like
    for (size_t chunk = std::max<size_t>(1, v.size() / 2); ; chunk /= 2) {
      for (size_t i = 0; i < v.size() && v.size() > min; ) {
        V w = v; size_t n = std::min(chunk, v.size() - i); if (v.size() - n < min) n = v.size() - min;
        w.erase(w.begin() + i, w.begin() + i + n);
        if (apply(w)) v = w; else i += chunk;
        if (budget <= 0) return;
      }
      if (chunk <= 1) break;
    }
  }
  void go() {
    deadline = now() + 60;
    Spec& s = c.spec;
    if (s.distinct) {                       // the number of calls is the point: only halve it
      while (s.distinct >= 1024) { Spec e = s; e.distinct /= 2; e.threads[0].resize(e.distinct); if (fails(e)) s = e; else break; }
      Result f = run(s, refs, c.ck); c.detail = f.detail; c.hash = f.hash; c.refs.clear(); return;
    }
    // 1. explicit schedule
    Result r0 = run(s, refs, c.ck); last = r0;
    if (s.policy != POL_REPLAY && REPT->nsched <= sizeof REPT->sched / sizeof REPT->sched[0]) {
      Spec e = s; e.sched.assign(REPT->sched, REPT->sched + REPT->nsched); e.policy = POL_REPLAY;
      if (fails(e)) s = e;
    }
    // 2. repetitions, faults, stalls, threads, operations, switches, each until nothing more goes
    for (int round = 0; round < 3; ++round) {
      size_t before = s.sched.size() + s.stalls.size(); for (auto& t : s.threads) before += t.size();
      if (s.churn) { Spec e = s; e.churn = e.churner = 0; e.cops.clear(); if (fails(e)) s = e; }
      if (s.migrate) { Spec e = s; e.migrate = 0; if (fails(e)) s = e; }
      while (s.churn > 1) { Spec e = s; e.churn = s.churn > 10 ? s.churn - s.churn / 8 : s.churn - 1; if (fails(e)) s = e; else break; }
      while (s.reps > 1) { Spec e = s; e.reps = s.reps > 10 ? s.reps / 2 : s.reps - 1; if (fails(e)) s = e; else break; }
      for (size_t t = 0; t < s.threads.size(); ++t) if (!s.threads[t].empty() && s.threads.size() > 1) { Spec e = s; e.threads[t].clear(); if (fails(e)) s = e; }
      for (size_t t = 0; t < s.threads.size(); ++t) if (!s.threads[t].empty())
        shrink(s.threads[t], [&](const std::vector<Op>& w) { Spec e = s; e.threads[t] = w; return fails(e); });
      for (auto& t : s.threads) for (auto& o : t) {
        if (o.fault_alloc) { Spec e = s; Op k = o; o.fault_alloc = 0; o.fault_sticky = 0; if (!fails(s)) o = k; }
        if (o.fault_cb) { Op k = o; o.fault_cb = 0; if (!fails(s)) o = k; }
        if (o.ambient) { Op k = o; o.ambient = 0; if (!fails(s)) o = k; }
        if (budget <= 0) break;
      }
      shrink(s.stalls, [&](const std::vector<Stall>& w) { Spec e = s; e.stalls = w; return fails(e); });
      if (s.policy == POL_REPLAY) shrink(s.sched, [&](const std::vector<Switch>& w) { Spec e = s; e.sched = w; return fails(e); });
      size_t after = s.sched.size() + s.stalls.size(); for (auto& t : s.threads) after += t.size();
      if (after >= before || budget <= 0) break;
    }
    Result f = run(s, refs, c.ck); c.detail = f.detail; c.hash = f.hash;
    // keep only the references that are used
    std::map<int, int> m; std::vector<Op> nr;
    for (auto& o : s.cops) if (o.ref >= 0) { if (!m.count(o.ref)) { m[o.ref] = nr.size(); nr.push_back(c.refs[o.ref]); } o.ref = m[o.ref]; }
    for (auto& t : s.threads) for (auto& o : t) if (o.ref >= 0) { if (!m.count(o.ref)) { m[o.ref] = nr.size(); nr.push_back(c.refs[o.ref]); } o.ref = m[o.ref]; }
    c.refs = nr;
  }
};

static int do_replay(const std::string& path) {
  Case c; if (!load(c, path)) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 3; }
  JUDGE = c.prop == "C05";
  if (c.isolated) {
    Entry e; e.op = c.refs[0]; Result r = reference(e, c.spec.garbage);
    if (r.kind == c.kind) { printf("reproduced: %s: %s\nVIOLATION property=%s replay=%s\n", kind_name(r.kind), r.detail.c_str(), c.prop.c_str(), path.c_str()); return 1; }
    printf("not reproduced: the recorded %s does not occur on this tree\n", kind_name(c.kind)); return 0;
  }
  std::vector<Outcome> refs;
  for (auto& o : c.refs) { Entry e; e.op = o; Result r = reference(e, 17); if (r.kind && r.kind != V_GARBAGE && r.kind != V_WRONGEXC) { printf("reference of %s: %s\n", subject_kind_name(o.kind), r.detail.c_str()); } refs.push_back(e.ref); }
  if (refs.empty()) refs.resize(1);
  Result a = run(c.spec, refs, c.ck), b = run(c.spec, refs, c.ck);
  printf("replayed: %s, execution hash %016lx (twice: %s)\n", a.kind ? kind_name(a.kind) : "no violation", (long)a.hash, a.hash == b.hash ? "identical" : "DIFFERENT");
  if (a.kind == RUN_BROKEN) { printf("%s\n", a.detail.c_str()); return 3; }
  if (a.kind) { printf("%s\nVIOLATION property=%s replay=%s\n", a.detail.c_str(), c.prop.c_str(), path.c_str()); return 1; }
  return 0;
}

// ---------------------------------------------------------------- search
struct Stats {
  uint64_t runs, refs, events, ops, switches, preempts, alloc_faults, cb_faults, stalls, pauses, rejects, nomem, ambients, reuse, allocs, lock_waits, threads, rechecks, longest, unusable, truncated, faulted_runs, multi_runs, carriers;
  uint64_t clock_ns; uint64_t policy[8], kinds[64], threads_hist[24];
};
struct Shared { int found; int broken; Stats st[64]; volatile uint64_t next_gen; };

int main(int argc, char** argv) {
  std::string prop = "C01", out, replays = "replays", replay; uint64_t seed = 1; int workers = 8; uint64_t gens = 8, per = 150; double cap = 100; bool thorough = false, dump = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto v = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--property") prop = v(); else if (a == "--seed") seed = strtoull(v().c_str(), 0, 10); else if (a == "--workers") workers = atoi(v().c_str()); else if (a == "--gens") gens = strtoull(v().c_str(), 0, 10);
    else if (a == "--per") per = strtoull(v().c_str(), 0, 10); else if (a == "--cap") cap = atof(v().c_str()); else if (a == "--out") out = v(); else if (a == "--replays") replays = v(); else if (a == "--replay") replay = v();
    else if (a == "--thorough") thorough = true; else if (a == "--dump") dump = true;
  }
  int pers = personality(0xffffffff);
  if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {      // same addresses in every process
    if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_NO_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  if (!subject_has(prop) && replay.empty()) { fprintf(stderr, "this binary does not decide %s\n", prop.c_str()); return 3; }
  double t0 = now();
  if (!replay.empty()) { engine_init(); REPT = engine_report(); return do_replay(replay); }
  Shared* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  mkdir(replays.c_str(), 0777);
  std::string base = replays + "/." + prop + "." + std::to_string(getpid());
  std::vector<pid_t> kids;
  for (int w = 0; w < workers; ++w) {
    pid_t p = fork(); if (p < 0) { perror("fork"); return 3; }
    if (p) { kids.push_back(p); continue; }
    engine_init(); REPT = engine_report(); JUDGE = prop == "C05";
    Stats& S = sh->st[w];
    std::unordered_set<uint64_t> inter, execs; std::vector<std::string> samples; std::ofstream dmp; if (dump) dmp.open(base + ".dump" + std::to_string(w));
    for (;;) {
      uint64_t gi = __sync_fetch_and_add(&sh->next_gen, 1);
      if (gi >= gens || sh->found || sh->broken || now() - t0 > cap) break;
      Rng pr(mix(mix(seed, 0x9001), gi)); Pool pool; subject_pool(pr, prop, pool);
      std::vector<Outcome> refs;
      auto report = [&](Case& c, const std::string& how) {
        if (__sync_lock_test_and_set(&sh->found, 1)) return;
        char nm[80]; snprintf(nm, sizeof nm, "/%s-%016lx.replay", prop.c_str(), (long)mix(c.hash, mix(gi, c.kind)));
        std::string path = replays + nm; save(c, path, how);
        std::ofstream f(base + ".violation"); f << path << "\n" << kind_name(c.kind) << ": " << c.detail << "\n" << how << "\n";
      };
      for (auto& e : pool) {
        if (sh->found || sh->broken) break;
        Result r = reference(e, mix(seed, gi)); S.refs++;
        if (r.kind == RUN_BROKEN) { fprintf(stderr, "simulator: reference run of %s: %s\n", subject_kind_name(e.op.kind), r.detail.c_str()); sh->broken = 1; break; }
        if (!e.usable) S.unusable++;
        bool must_reject = subject_expect(e.op) == EXPECT_REJECT || r.kind == V_WRONGEXC;
        if (r.kind && (subject_isolated_kinds(prop) >> r.kind & 1) && (prop != "C05" || must_reject)) {
          Result again = reference(e, mix(seed, gi));
          if (again.kind != r.kind) { fprintf(stderr, "simulator: reference run not reproducible\n"); sh->broken = 1; break; }
          Case c; c.prop = prop; c.kind = r.kind; c.detail = r.detail; c.isolated = true; c.spec.garbage = mix(seed, gi); c.refs.push_back(e.op); c.refs[0].ref = -1; c.hash = mix(e.op.kind, e.op.l);
          char how[200]; snprintf(how, sizeof how, "seed %lu, pool %lu: a single call in fresh processes", (long)seed, (long)gi); report(c, how); break;
        }
      }
      for (auto& e : pool) refs.push_back(e.ref);
      size_t usable = 0; for (auto& e : pool) usable += e.usable;
      if (usable * 2 < pool.size() && !sh->found && !sh->broken) { fprintf(stderr, "simulator: %zu of %zu calls have no reproducible outcome alone\n", pool.size() - usable, pool.size()); if (usable < 10) sh->broken = 1; }
      for (uint64_t k = 0; k < per && !sh->found && !sh->broken && now() - t0 < cap; ++k) {
        Rng r(mix(mix(seed, gi), 1000 + k)); Spec s; unsigned ck = 0; subject_workload(r, prop, pool, s, ck, thorough);
        Spec s0 = s;
        double rt = now();
        Result x = run(s, refs, ck);
        rt = now() - rt; if (getenv("SIM_SLOW") && rt > 1) fprintf(stderr, "slow run %lu/%lu: %.2f s, %lu events, %u ops\n", (long)gi, (long)k, rt, (long)REPT->events, REPT->ops_done);
        if (x.kind == RUN_BROKEN) { fprintf(stderr, "simulator: seed %lu pool %lu run %lu: %s\n", (long)seed, (long)gi, (long)k, x.detail.c_str()); sh->broken = 1; break; }
        S.runs++; S.events += REPT->events; S.ops += REPT->ops_done; S.switches += REPT->switches; S.preempts += REPT->preempts; S.alloc_faults += REPT->alloc_faults; S.cb_faults += REPT->cb_faults;
        S.stalls += REPT->stalls; S.pauses += REPT->pauses; S.rejects += REPT->rejects; S.nomem += REPT->nomem; S.ambients += REPT->ambients; S.reuse += REPT->heap_reuse; S.allocs += REPT->allocs; S.lock_waits += REPT->blocks_on_lock;
        S.threads += REPT->threads_exited; S.carriers += REPT->carriers; S.clock_ns += REPT->clock_ns; S.longest = std::max<uint64_t>(S.longest, REPT->ops_done); S.policy[(int)s0.policy]++; S.threads_hist[std::min<size_t>(23, s0.threads.size())]++;
        if (REPT->alloc_faults || REPT->cb_faults || REPT->stalls || REPT->pauses) S.faulted_runs++;
        if (s0.threads.size() > 1) S.multi_runs++;
        for (auto& t : s0.threads) for (auto& o : t) S.kinds[o.kind & 63] += s0.reps;
        if (REPT->preempts || REPT->stalls) inter.insert(x.shash);
        if (REPT->preempts || REPT->alloc_faults || REPT->cb_faults || REPT->stalls || REPT->pauses || REPT->ops_done >= 2) execs.insert(mix(x.hash, x.shash));
        if (dump) dmp << gi << ' ' << k << ' ' << std::hex << x.hash << ' ' << x.shash << std::dec << ' ' << x.kind << "\n";
        if (samples.size() < 3 && k % 37 == 5) {
          std::ostringstream o; o << "seed " << seed << " pool " << gi << " run " << k << ": " << s0.threads.size() << " threads x " << s0.reps << ", policy " << (int)s0.policy << ", " << REPT->ops_done << " calls, " << REPT->preempts << " preemptions, "
            << REPT->alloc_faults << " failed allocations, " << REPT->cb_faults << " caller exceptions, " << REPT->stalls << " stopped threads, " << REPT->events << " events; calls of thread 1:";
          int n = 0; for (auto& q : s0.threads[0]) { if (n++ == 4) { o << " ..."; break; } o << " " << subject_kind_name(q.kind) << "(l=" << q.l << ", " << q.a << ", " << q.b << ")"; }
          samples.push_back(o.str());
        }
        bool check = x.kind || k % 40 == 7;
        if (check) {                                    // the same seed must give the same execution
          Spec t = s0; Result y = run(t, refs, ck); S.rechecks++;
          if (y.kind != x.kind || (y.hash != x.hash && x.kind != V_CRASH) || (y.shash != x.shash && x.kind != V_CRASH)) {
            fprintf(stderr, "simulator: seed %lu pool %lu run %lu is not reproducible: %s %lx / %s %lx (%s / %s)\n", (long)seed, (long)gi, (long)k, kind_name(x.kind), (long)x.hash, kind_name(y.kind), (long)y.hash, x.detail.c_str(), y.detail.c_str());
            sh->broken = 1; break;
          }
        }
        if (x.kind) {
          Case c; c.prop = prop; c.spec = s0; c.ck = ck; c.kind = x.kind; c.detail = x.detail; c.hash = x.hash; for (auto& e : pool) { c.refs.push_back(e.op); c.refs.back().ref = -1; }
          char how[200]; snprintf(how, sizeof how, "seed %lu, pool %lu, run %lu", (long)seed, (long)gi, (long)k);
          if (!sh->found) { Minimiser m{c, refs}; m.go(); report(c, how); }
          break;
        }
      }
    }
    std::ofstream f(base + ".w" + std::to_string(w));
    f << inter.size() << "\n"; for (auto h : inter) f << h << "\n"; f << execs.size() << "\n"; for (auto h : execs) f << h << "\n"; for (auto& s : samples) f << s << "\n";
    f.close();
    fflush(nullptr); _exit(0);
  }
  bool died = false;
  for (pid_t p : kids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) died = true; }
  std::set<uint64_t> inter, execs; std::vector<std::string> samples; Stats T{}; 
  for (int w = 0; w < workers; ++w) {
    std::ifstream f(base + ".w" + std::to_string(w)); size_t n = 0; uint64_t h;
    f >> n; while (n--) { f >> h; inter.insert(h); } n = 0; f >> n; while (n--) { f >> h; execs.insert(h); }
    std::string l; std::getline(f, l); while (std::getline(f, l)) if (samples.size() < 6) samples.push_back(l);
    f.close(); unlink((base + ".w" + std::to_string(w)).c_str());
    uint64_t* a = (uint64_t*)&T; uint64_t* b = (uint64_t*)&sh->st[w]; uint64_t lg = std::max(T.longest, sh->st[w].longest);
    for (size_t i = 0; i < sizeof(Stats) / 8; ++i) a[i] += b[i]; T.longest = lg;
  }
  double wall = now() - t0;
  std::string vio; { std::ifstream f(base + ".violation"); std::string p, d, h; if (f && std::getline(f, p) && std::getline(f, d)) { std::getline(f, h); vio = p; printf("%s\nfound at %s\nVIOLATION property=%s replay=%s\n", d.c_str(), h.c_str(), prop.c_str(), p.c_str()); } }
  unlink((base + ".violation").c_str());
  if (!out.empty()) {
    std::ofstream o(out);
    auto esc = [](const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r; };
    o << "{\n\"runs\": " << T.runs << ", \"reference_calls\": " << T.refs << ", \"distinct_interleavings\": " << inter.size() << ", \"distinct_executions\": " << execs.size() << ",\n\"calls\": " << T.ops << ", \"events\": " << T.events << ", \"context_switches\": " << T.switches << ", \"preemptions\": " << T.preempts
      << ", \"runs_with_faults\": " << T.faulted_runs << ", \"runs_with_several_threads\": " << T.multi_runs << ", \"rejected_calls\": " << T.rejects << ", \"bad_alloc_calls\": " << T.nomem << ", \"allocations\": " << T.allocs << ", \"heap_reuse\": " << T.reuse << ", \"lock_waits\": " << T.lock_waits << ", \"longest_history\": " << T.longest << ", \"short_lived_threads\": " << T.carriers << ", \"determinism_rechecks\": " << T.rechecks
      << ", \"calls_without_reproducible_reference\": " << T.unusable << ",\n\"faults\": {\"failed_allocation\": " << T.alloc_faults << ", \"caller_type_exception\": " << T.cb_faults << ", \"thread_stopped_for_ever\": " << T.stalls << ", \"thread_paused\": " << T.pauses << ", \"ambient_state_perturbed\": " << T.ambients << "},\n\"clock_ns\": " << T.clock_ns << ", \"wall_s\": " << wall << ", \"complete\": "
      << (sh->next_gen >= gens && wall < cap ? "true" : "false") << ",\n\"policies\": [";
    for (int i = 0; i < 7; ++i) o << (i ? ", " : "") << T.policy[i];
    o << "],\n\"threads\": {"; bool first = true; for (int i = 1; i < 24; ++i) if (T.threads_hist[i]) { o << (first ? "" : ", ") << "\"" << i << "\": " << T.threads_hist[i]; first = false; }
    o << "},\n\"call_kinds\": {"; first = true; for (int i = 0; i < 64; ++i) if (T.kinds[i]) { o << (first ? "" : ", ") << "\"" << subject_kind_name(i) << "\": " << T.kinds[i]; first = false; }
    o << "},\n\"samples\": ["; for (size_t i = 0; i < samples.size(); ++i) o << (i ? ",\n" : "") << "\"" << esc(samples[i]) << "\"";
    o << "],\n\"components\": " << subject_components() << ",\n\"violation\": \"" << esc(vio) << "\"\n}\n";
  }
  if (!vio.empty()) return 1;
  if (sh->broken || died) { fprintf(stderr, "simulator error\n"); return 3; }
  return 0;
}

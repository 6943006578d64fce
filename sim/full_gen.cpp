// Generators for the R-matrix classes and evaluators: which calls, which histories, which faults.
#include "workload.h"
#include "full_kinds.h"
#include <math.h>
#include <algorithm>
#include <map>
#include <random>

namespace {
const double RESOLVED[] = {1e-5, .0253, 1, 5.5, 6.68, 10.24, 36.7, 50, 63.5, 120.25, 199.5, 200, 333, 350, 500, 650, 999};
const double UNRESOLVED[] = {20, 21.5, 50, 100, 150, 250, 333, 400, 599, 700, 1000, 1500, 1.9e4, 2.5e4};
bool unresolved(int64_t l) { int d = l % VARIATION; return d >= 9 && d <= 12; }
bool has_tmatrix(int64_t l) { int d = l % VARIATION; return (d >= 5 && d <= 8) || d >= 13; }
double energy(Rng& r, int64_t l) {
  if (unresolved(l)) return r.chance(.8) ? UNRESOLVED[r.below(14)] : r.chance(.7) ? r.range(20, 1200) : r.chance(.5) ? 2e4 : 5.;
  return r.chance(.85) ? RESOLVED[r.below(17)] : r.chance(.8) ? exp(r.range(log(1e-3), log(1e3))) : r.chance(.5) ? 1000. : 2e4;
}
// an energy that is hard to tell from e
double near(Rng& r, double e) {
  switch (r.below(5)) { case 0: return nextafter(e, 1e9); case 1: return nextafter(e, 0.); case 2: return double(float(e)); case 3: return e * (1 + exp(r.range(log(1e-12), log(1e-4)))); }
  return e + r.range(-.4, .4) * std::min(1., e);
}
const bool ACCEPTED[NBUILD] = {1,0,0,0,0, 0,0,0,0,0, 0,0,0,0,1, 0,0,0,0,0, 1,0,1,1,0, 0,0,0,0,0, 0,0,0,0,0, 0,0,0,0,0, 0,1,1,0,0, 0,0,0,0,0, 0,0,0,0,0, 0,0,0,0,0, 0,0,0,0,0, 0,0,0,0,0, 0,0,0,0,0, 0,0,0,0,1, 0,0,0,0,0, 0,1,0,0,1, 1};
}

bool subject_has(const std::string& p) { return p == "C09" || p == "C10" || p == "C11" || p == "C12" || p == "C13" || p == "C14" || p == "C15" || p == "C16"; }
int subject_expect(const Op& o) {
  if (o.kind == K_BUILD && !ACCEPTED[o.l % NBUILD]) return EXPECT_REJECT;
  if (o.kind == K_CHAN && o.l >= 12) return EXPECT_REJECT;
  if (o.kind == K_BUILD || o.kind == K_MAKE || o.kind == K_GRID || (o.kind == K_CHAN && o.a <= 600)) return EXPECT_VALUE;
  return EXPECT_ANY;
}
bool subject_initialises() { return true; }      // Eigen sets up its cache sizes in one
unsigned subject_isolated_kinds(const std::string& p) {
  auto b = [](int k) { return 1u << k; };
  if (p == "C09") return b(V_GARBAGE) | b(V_MEMORY);
  if (p == "C11") return b(V_FREE);
  if (p == "C12") return b(V_GARBAGE) | b(V_MEMORY) | b(V_CRASH) | b(V_HANG) | b(V_WRONGEXC) | b(V_FREE);
  return 0;
}
std::string subject_judge(const Op&, const Outcome&, Alone) { return ""; }

void subject_pool(Rng& r, const std::string& prop, Pool& p) {
  auto add = [&](int kind, int64_t l, double a, int cl) {
    Entry e; e.op.kind = kind; e.op.l = l; e.op.a = a; e.cluster = cl;
    for (auto& x : p) if (x.op.kind == kind && x.op.l == l && x.op.a == a) return;
    p.push_back(e);
  };
  // objects shared by the threads are built without variation
  auto is = [&](const char* q) { return prop == q || (!strcmp(q, "C13") && (prop == "C14" || prop == "C15" || prop == "C16")); };
  std::vector<int> defs; for (int d = 0; d < NDEF; ++d) if (subject_available(1000 + d)) defs.push_back(d);
  std::vector<int> olds; for (int d = 0; d < NOLD; ++d) if (subject_available(1100 + d)) olds.push_back(d);
  std::shuffle(defs.begin(), defs.end(), std::mt19937(r.next())); std::shuffle(olds.begin(), olds.end(), std::mt19937(r.next()));
  size_t nd = is("C12") ? 5 : is("C13") ? 3 : 4, no = is("C13") ? 3 : is("C12") ? 3 : 2;
  if (defs.size() > nd) defs.resize(nd);
  if (olds.size() > no) olds.resize(no);
  int cl = 0;
  for (int d : defs) {
    int64_t v[2] = {d, is("C13") ? d : d + VARIATION * (1 + (int)r.below(3))};
    // two systems of one kind and size with different parameters, evaluated at the same energies
    int ne = is("C12") ? 1 : is("C13") ? 3 : 4; std::vector<double> es; for (int i = 0; i < ne; ++i) es.push_back(energy(r, d));
    if (ne > 1 && r.chance(.7)) es.push_back(near(r, any(r, es)));
    for (int k = 0; k < (is("C13") || is("C12") ? 1 : 2); ++k) {
      add(K_MAKE, v[k], 0, cl);
      for (double e : es) { if (k && r.chance(.4)) continue; add(K_EVAL, v[k], e, cl); if (has_tmatrix(d) && r.chance(.35)) add(K_TMAT, v[k], e, cl); }
      add(K_GRID, v[k], 0, cl);
      if (subject_available(K_DESC)) add(K_DESC, v[k], is("C13") ? 50. : any(r, std::vector<double>{50., 150., 650.}), cl);
    }
    if (r.chance(.5) || is("C11")) add(K_EVAL, d, d == 11 ? 2.5e4 : unresolved(d) ? 700 : 650, cl);    // outside the radius table, where there is one
    ++cl;
  }
  for (int d : olds) {
    int64_t l = d + (is("C13") ? 0 : VARIATION * r.below(3));
    int ne = is("C12") ? 1 : 4; double e = 0; for (int i = 0; i < ne; ++i) add(K_OLD, l, e = energy(r, 0), cl);
    if (ne > 1 && r.chance(.6)) add(K_OLD, l, near(r, e), cl);
    if (r.chance(.6)) add(K_OLD, l, 650, cl);
    ++cl;
  }
  if (subject_available(K_CHAN)) {
    int n = is("C13") ? 18 : is("C12") ? 8 : 4;
    for (int i = 0; i < n; ++i) { int c = r.below(12); double e = RESOLVED[r.below(17)]; add(K_CHAN, c, e, cl); }
    ++cl;
    if (is("C12") || is("C11") || is("C15")) { add(K_CHAN, 12, 50, cl); add(K_CHAN, 13, 50, cl); add(K_CHAN, 12, RESOLVED[r.below(17)], cl); ++cl; }
  }
  if (is("C12") || is("C11") || is("C15") || is("C14")) {
    int n = is("C12") ? 26 : is("C15") ? 12 : 5;
    for (int i = 0; i < n; ++i) { int c = r.below(NBUILD); if (subject_available(1200 + c)) add(K_BUILD, c, 0, cl); }
    ++cl;
  }
}

// ---------------------------------------------------------------- workloads
namespace {
constexpr int SLOTS = 4;
struct Gen {
  Rng& r; const Pool& p; std::string prop;
  std::map<int64_t, std::vector<int>> eval, grid, tmat, desc, old; std::map<int64_t, uint32_t> mk, mko; std::map<int64_t, double> mkev;
  std::vector<int64_t> defs, olds; std::vector<int> chan, build, all;
  struct Th { int64_t s[SLOTS], o[SLOTS]; };
  std::vector<Th> th;
  Gen(Rng& r, const Pool& p, const std::string& prop, int nt) : r(r), p(p), prop(prop) {
    for (size_t i = 0; i < p.size(); ++i) {
      if (!p[i].usable) continue;
      int64_t l = p[i].op.l;
      switch (p[i].op.kind) {
        case K_EVAL: eval[l].push_back(i); break;
        case K_GRID: grid[l].push_back(i); break;
        case K_TMAT: tmat[l].push_back(i); break;
        case K_DESC: desc[l].push_back(i); break;
        case K_OLD: old[l].push_back(i); mko[l] = mko.count(l) ? std::min(mko[l], p[i].allocs) : p[i].allocs; break;
        case K_CHAN: chan.push_back(i); break;
        case K_BUILD: build.push_back(i); break;
        case K_MAKE: mk[l] = p[i].allocs; mkev[l] = p[i].events; break;
      }
      all.push_back(i);
    }
    for (auto& e : eval) defs.push_back(e.first);
    for (auto& e : old) olds.push_back(e.first);
    // sometimes few objects, so that they meet again and again
    if (r.chance(.4)) while (defs.size() > 2) defs.erase(defs.begin() + r.below(defs.size()));
    if (r.chance(.4)) while (olds.size() > 1) olds.erase(olds.begin() + r.below(olds.size()));
    th.resize(nt + 1); for (auto& t : th) for (int k = 0; k < SLOTS; ++k) t.s[k] = t.o[k] = -1;
  }
  Op of(int i) const { Op o = p[i].op; o.ref = i; return o; }
  int have(const int64_t* s) { std::vector<int> v; for (int k = 0; k < SLOTS; ++k) if (s[k] >= 0) v.push_back(k); return v.empty() ? -1 : any(r, v); }
  Op as(int i, int kind, int slot, int flags = 0) { Op o = of(i); o.kind = kind; o.slot = slot; o.flags = flags; return o; }
  Op make(int t, int slot, int64_t l) { th[t].s[slot] = l; return as(any(r, eval[l]), K_S_MAKE, slot); }
  // one more request of thread t on systems of its own
  Op system(int t) {
    Th& T = th[t]; double y = r.unit(); int n = have(T.s);
    if (defs.empty()) return pure();
    if (n < 0 || y < .12) return make(t, r.below(SLOTS), any(r, defs));
    int64_t l = T.s[n];
    if (y < .62) return as(any(r, eval[l]), K_S_EVAL, n);
    if (y < .70 && tmat.count(l)) return as(any(r, tmat[l]), K_S_TMAT, n);
    if (y < .75 && grid.count(l)) return as(any(r, grid[l]), K_S_GRID, n);
    if (y < .80 && desc.count(l)) return as(any(r, desc[l]), K_S_DESC, n);
    int m = (n + 1 + r.below(SLOTS - 1)) % SLOTS;
    if (y < .88) { T.s[m] = l; return as(any(r, eval[l]), K_S_COPY, n, m); }
    if (y < .91) { T.s[m] = l; T.s[n] = -1; return as(any(r, eval[l]), K_S_MOVE, n, m); }
    if (y < .95 && T.s[m] >= 0) { T.s[m] = l; return as(any(r, eval[l]), K_S_ASSIGN, n, m); }
    if (y < .98 && T.s[m] >= 0) { T.s[m] = l; T.s[n] = -1; return as(any(r, eval[l]), K_S_MASSIGN, n, m); }
    if (y < .99) { T.s[n] = -1; Op o; o.kind = K_S_DROP; o.slot = n; o.l = l; return o; }
    return as(any(r, eval[l]), K_S_EVAL, n);
  }
  Op evaluator(int t) {
    Th& T = th[t]; double y = r.unit(); int n = have(T.o);
    if (olds.empty()) return pure();
    if (n < 0 || y < .15) { int64_t l = any(r, olds); n = r.below(SLOTS); T.o[n] = l; return as(any(r, old[l]), K_O_MAKE, n); }
    int64_t l = T.o[n];
    if (y < .9) return as(any(r, old[l]), K_O_EVAL, n);
    int m = (n + 1 + r.below(SLOTS - 1)) % SLOTS; T.o[m] = l % VARIATION >= 10 ? T.o[m] : l;
    return as(any(r, old[l]), K_O_COPY, n, m);
  }
  Op pure() { return of(any(r, all)); }
  uint32_t allocs(const Op& o) {
    if (o.ref < 0) return 0;
    uint32_t n = p[o.ref].allocs, b = mk.count(o.l) ? mk[o.l] : 0;
    switch (o.kind) {
      case K_S_EVAL: case K_S_GRID: case K_S_TMAT: case K_S_DESC: return n > b ? n - b : 1;
      case K_S_COPY: case K_S_ASSIGN: case K_H_EVAL: case K_H_TAKE: case K_S_MOVE: case K_S_MASSIGN: return (n > b ? n - b : 1) + std::min(b, 120u);
      case K_O_EVAL: case K_H_OLD: return n > mko[o.l] ? n - mko[o.l] + 2 : 3;
      case K_H_CHAN: return std::min(n, 8u);
    }
    return n;
  }
  void alloc_fault(Op& o) {
    if (o.kind == K_S_DROP || o.kind == K_O_DROP) return;
    uint32_t n = std::max(1u, allocs(o));
    o.fault_alloc = 1 + r.below(std::min(n, 65000u)); if (r.chance(.15)) o.fault_alloc = 1 + r.below(std::min(n, 8u)); o.fault_sticky = r.chance(.25);
  }
  void around(Op& o) { if (r.chance(.06)) o.ambient |= r.chance(.5) ? 16 : 32; }      // made while an exception of the caller's is on its way or being handled
  double cost(const Op& o) {
    if (o.ref < 0) return 50;
    double c = p[o.ref].events + 100., b = mkev.count(o.l) ? mkev[o.l] : 0;
    switch (o.kind) { case K_S_EVAL: case K_S_GRID: case K_S_TMAT: case K_S_DESC: return std::max(200., c - b); case K_S_COPY: case K_S_ASSIGN: case K_H_EVAL: case K_H_TAKE: return std::max(200., c - b * .8); case K_S_MOVE: case K_S_MASSIGN: return std::max(200., c - b); }
    return c;
  }
  double cost(const Spec& s) { double c = 0; for (auto& t : s.threads) for (auto& o : t) c += cost(o); return c * s.reps; }
};
int few_threads(Rng& r) { int x = r.below(10); return x < 5 ? 2 : x < 8 ? 3 : 4 + r.below(3); }
}

static void workload(Rng& r, const std::string& prop, const Pool& pool, Spec& s, unsigned& ck, bool thorough) {
  s.seed = r.next(); s.garbage = r.next() >> 8; s.heap_mode = r.below(3); s.world = 0; s.reps = 1; s.limit = 200000000;
  int nt = prop == "C10" || prop == "C13" || prop == "C14" || (prop == "C16" && r.chance(.6)) ? few_threads(r) : r.chance(prop == "C09" ? .75 : .7) ? 1 : 2 + r.below(2);
  Gen g(r, pool, prop, nt);
  const double BUDGET = thorough ? 1.5e6 : 6e5;
  s.threads.assign(nt, {});
  auto fill = [&](int lo, int hi, auto make, double budget) {
    double c = 0;
    for (int t = 1; t <= nt; ++t) {
      int k = lo + r.below(hi - lo + 1);
      for (int i = 0; i < k; ++i) { Op o = make(t); s.threads[t - 1].push_back(o); c += g.cost(o); if (c > budget * t / nt && i >= 1) break; }
    }
  };
  auto sched = [&] { if (nt == 1) s.policy = POL_SEQ; else choose_policy(r, s, nt, g.cost(s)); };
  if (prop == "C09") {
    ck = CK_OUTCOME | CK_MEM;
    double fa = r.chance(.5) ? 0 : .12;
    fill(6, nt == 1 ? 60 : 20, [&](int t) { Op o = r.chance(.12) ? g.evaluator(t) : r.chance(.04) ? g.pure() : g.system(t); if (r.chance(fa)) g.alloc_fault(o); g.around(o); return o; }, BUDGET);
    if (nt == 1) s.policy = POL_SEQ; else { s.policy = POL_OPS; s.bound = .5; }
  } else if (prop == "C10") {
    ck = CK_OUTCOME | CK_RACE | CK_MEM;
    // systems shared as originals to copy from, so that the copies meet
    std::vector<int64_t> base; for (int64_t l : g.defs) if (l < VARIATION) base.push_back(l);
    unsigned x = 0; int64_t sh[3] = {-1, -1, -1};
    bool share = r.chance(.7) && !base.empty();
    for (int i = 0; i < 3; ++i) { if (share && (i == 0 || r.chance(.3))) sh[i] = any(r, base); x |= unsigned(sh[i] < 0 ? 31 : sh[i]) << (5 * i); }
    if (share) { x |= 0xfffu << 15; s.world = int((x << 1) | 1u); }
    fill(2, nt > 3 ? 5 : 9, [&](int t) {
      if (share && g.have(g.th[t].s) < 0) { int i = 0; int m = r.below(SLOTS); g.th[t].s[m] = sh[i]; return g.as(any(r, g.eval[sh[i]]), K_H_TAKE, i, m); }
      if (share && r.chance(.15)) { int i; do i = r.below(3); while (sh[i] < 0); return g.as(any(r, g.eval[sh[i]]), K_H_EVAL, i); }
      return r.chance(.1) ? g.pure() : g.system(t); }, BUDGET * .5);
    sched();
  } else if (prop == "C11") {
    ck = CK_OUTCOME | CK_EXC | CK_MEM;
    bool leak = r.chance(.34);
    if (leak && r.chance(.15)) {                  // very many different energies
      bool o = r.chance(.25) && !g.olds.empty(); if (!o && g.defs.empty()) o = true; if (o && g.olds.empty()) return;
      int64_t l = any(r, o ? g.olds : g.defs); int i = any(r, o ? g.old[l] : g.eval[l]);
      Op make = g.as(i, o ? K_O_MAKE : K_S_MAKE, 0), ev = g.as(i, o ? K_O_EVAL : K_S_EVAL, 0); make.ref = ev.ref = -1;
      double c = g.cost(g.as(i, ev.kind, 0)); if (o) c *= .5;
      int n = std::min(800, int(4e6 / c)) / 8 * 8; double fa = r.chance(.5) ? .3 : 0;
      if (n >= 200) {
        ck = CK_LEAK | CK_MEM; nt = 1; s.threads.assign(1, {make}); s.distinct = n; s.heap_mode = 1; s.policy = POL_SEQ;
        while ((int)s.threads[0].size() < n) { Op e = ev; e.a = r.chance(.1) ? energy(r, o ? 0 : l) : unresolved(o ? 0 : l) ? r.range(20, 1200) : exp(r.range(log(1e-3), log(600.))); if (r.chance(fa)) { e.ref = i; g.alloc_fault(e); e.ref = -1; } s.threads[0].push_back(e); }
        return;
      }
    }
    if (leak) {
      ck = CK_LEAK | CK_MEM; nt = 1; s.threads.assign(1, {}); int k = 2 + r.below(7); double c = 0;
      for (int i = 0; i < k && c < 60000; ++i) { Op o = r.chance(.2) ? g.evaluator(1) : r.chance(.1) ? g.pure() : g.system(1); if (r.chance(.6)) g.alloc_fault(o); c += g.cost(o); s.threads[0].push_back(o); }
      s.reps = 9; s.heap_mode = 1; s.policy = POL_SEQ; return;
    }
    for (int t = 1; t <= nt; ++t) {
      int k = 3 + r.below(nt == 1 ? 25 : 8); double c = 0;
      for (int i = 0; i < k && c < BUDGET / nt; ++i) {
        Op o = r.chance(.15) ? g.evaluator(t) : r.chance(.1) ? g.pure() : g.system(t); Op again = o;
        bool f = (o.kind != K_S_MAKE && o.kind != K_O_MAKE && r.chance(.6)) || r.chance(.1); if (f) g.alloc_fault(o);
        g.around(o); s.threads[t - 1].push_back(o); c += g.cost(o);
        if (f && (o.kind == K_S_EVAL || o.kind == K_S_GRID || o.kind == K_S_TMAT || o.kind == K_S_DESC || o.kind == K_O_EVAL) && r.chance(.7)) { s.threads[t - 1].push_back(again); c += g.cost(o); }
      }
    }
    sched();
  } else if (prop == "C12") {
    ck = CK_OUTCOME | CK_EXC | CK_MEM;
    auto one = [&](int t) { double y = r.unit(); if (y < .45 && !g.build.empty()) return g.of(any(r, g.build)); if (y < .6 && !g.chan.empty()) return g.of(any(r, g.chan)); if (y < .7) return g.evaluator(t); if (y < .85) return g.system(t); return g.pure(); };
    if (r.chance(.4)) {
      ck = CK_LEAK | CK_MEM; nt = 1; s.threads.assign(1, {}); int k = 1 + r.below(6); double c = 0;
      for (int i = 0; i < k && c < 60000; ++i) { Op o = one(1); if (r.chance(.6)) g.alloc_fault(o); c += g.cost(o); s.threads[0].push_back(o); }
      s.reps = 9; s.heap_mode = 1; s.policy = POL_SEQ; return;
    }
    for (int t = 1; t <= nt; ++t) {
      int k = 2 + r.below(nt == 1 ? 20 : 7); double c = 0;
      for (int i = 0; i < k && c < BUDGET / nt; ++i) {
        Op o = one(t); Op again = o; bool f = r.chance(.7); if (f) g.alloc_fault(o);
        s.threads[t - 1].push_back(o); c += g.cost(o); if (f && o.kind < K_PURE_END && r.chance(.4)) { s.threads[t - 1].push_back(again); c += g.cost(o); }
      }
    }
    sched();
  } else {                                        // C13 to C16: objects shared by the threads, and objects of their own
    unsigned x = 0; int64_t sh[3] = {-1, -1, -1}, so[3] = {-1, -1, -1}; int first = r.below(12);
    for (int i = 0; i < 3; ++i) { if (!g.defs.empty() && (i == 0 || r.chance(.3))) sh[i] = any(r, g.defs); x |= unsigned(sh[i] < 0 ? 31 : sh[i]) << (5 * i); }
    for (int i = 0; i < 3; ++i) { if (!g.olds.empty() && (i == 0 || r.chance(.3))) so[i] = any(r, g.olds); x |= unsigned(so[i] < 0 ? 15 : so[i]) << (15 + 4 * i); }
    x |= unsigned(first) << 27; s.world = int((x << 1) | 1u);
    std::vector<std::pair<int, int>> ch;            // pool index, shared channel
    for (int i = 0; i < 6; ++i) for (int c : g.chan) if (pool[c].op.l == (first + i * 3) % 12) ch.push_back({c, i});
    auto sys = [&] { int i; do i = r.below(3); while (sh[i] < 0); return i; };
    auto ev = [&] { int i; do i = r.below(3); while (so[i] < 0); return i; };
    double wc = r.unit(), wo = r.unit() * 1.5, wg = r.unit() * .7, wd = r.unit() * .7, we = r.unit() * .4, sum = wc + wo + wg + wd + we;
    auto shared = [&](int) {
      double y = r.unit() * sum;
      if ((y -= wc) < 0 && !ch.empty()) { auto c = any(r, ch); return g.as(c.first, K_H_CHAN, c.second); }
      if ((y -= wo) < 0 && so[0] >= 0) { int i = ev(); return g.as(any(r, g.old[so[i]]), K_H_OLD, i); }
      if (sh[0] < 0) return g.pure();
      int i = sys(); int64_t l = sh[i];
      if ((y -= wg) < 0 && g.grid.count(l)) return g.as(any(r, g.grid[l]), K_H_GRID, i);
      if ((y -= wd) < 0 && g.desc.count(l)) return g.as(any(r, g.desc[l]), K_H_DESC, i);
      return g.as(any(r, g.eval[l]), K_H_EVAL, i); };
    double own = r.chance(.3) ? .15 : r.chance(.5) ? .5 : .9;
    auto mixed = [&](int t) { if (!r.chance(own)) return shared(t); if (r.chance(.2)) return g.evaluator(t); if (r.chance(.1)) return g.pure(); return g.system(t); };
    if (prop == "C13") {
      ck = CK_OUTCOME | CK_RACE | CK_MEM;
      fill(1, nt > 3 ? 4 : 8, shared, BUDGET * .5);
    } else if (prop == "C14") {
      ck = CK_OUTCOME | CK_STALL | CK_MEM;
      fill(1, nt > 3 ? 4 : 8, [&](int t) { Op o = mixed(t); if (r.chance(.08)) g.alloc_fault(o); return o; }, BUDGET * .4);
      sched();
      int k = 1 + r.below(std::max(1, nt / 2)); double mx = 0;
      for (int i = 0; i < k; ++i) {
        int t = 1 + r.below(nt); uint32_t o = r.below(s.threads[t - 1].size()); const Op& op = s.threads[t - 1][o];
        uint64_t e = 1 + r.below((uint64_t)std::max(4., g.cost(op) - 90)); if (r.chance(.2)) e = 1 + r.below(60);
        bool dup = false; int st = 0; for (auto& w : s.stalls) { if (w.tid == t) dup = true; if (w.forever) ++st; }
        if (!dup) s.stalls.push_back({t, o, e, st < nt - 1 && r.chance(.75), (uint32_t)(r.chance(.4) ? 1 + r.below(r.chance(.7) ? 2 : 30) : 0)});
      }
      for (auto& t : s.threads) for (auto& o : t) mx = std::max(mx, g.cost(o));
      s.limit = (uint64_t)(mx * 40 + 400000);
      return;
    } else if (prop == "C15") {
      bool rounding = r.chance(.3);               // what is computed under another rounding mode, and kept, may differ
      ck = (rounding ? 0 : CK_OUTCOME) | CK_AMBIENT | CK_MEM;
      fill(2, nt == 1 ? 30 : 6, [&](int t) {
        Op o = r.chance(.15) && !g.build.empty() ? g.of(any(r, g.build)) : mixed(t);
        o.ambient = r.below(4) | (r.chance(.25) ? 64 : 0); g.around(o); if (rounding && r.chance(.6)) o.ambient |= 4 | (r.below(3) << 8); if (r.chance(.2)) g.alloc_fault(o); return o; }, BUDGET * .5);
    } else {                                      // C16
      ck = CK_OUTCOME | CK_RETAIN | CK_RACE | CK_MEM;
      std::vector<std::vector<int64_t>> kc(nt + 1, std::vector<int64_t>(SLOTS, -1));
      double fa = r.chance(.3) ? .1 : 0;
      fill(4, nt == 1 ? 60 : 14, [&](int t) {
        double y = r.unit(); Op o; int n = g.have(g.th[t].s);
        if (y < .3 && n < 0) o = g.system(t);
        else if (y < .22) {
          int64_t l = g.th[t].s[n]; int what = r.below(8), m = r.below(SLOTS);
          if (what < 3 || (what == 3 && !g.tmat.count(l))) o = g.as(any(r, g.eval[l]), K_K_KEEP, n, m);
          else if (what == 3) o = g.as(any(r, g.tmat[l]), K_K_KEEP, n, m | 2 << 4);
          else if (what < 6 && g.grid.count(l)) o = g.as(any(r, g.grid[l]), K_K_KEEP, n, m | 1 << 4);
          else { o = g.as(any(r, g.eval[l]), K_K_KEEP, n, m | 3 << 4); o.a = 50; }
        } else if (y < .32 && sh[0] >= 0) {
          int i = sys(); int64_t l = sh[i]; int m = r.below(SLOTS);
          if (r.chance(.5) && g.grid.count(l)) o = g.as(any(r, g.grid[l]), K_K_SHARED, i, m | 1 << 4); else { o = g.as(any(r, g.eval[l]), K_K_SHARED, i, m | 3 << 4); o.a = 50; }
        } else if (y < .40 && !ch.empty()) { auto c = any(r, ch); int m = r.below(SLOTS); kc[t][m] = pool[c.first].op.l; o = g.as(c.first, K_K_CHAN, c.second, m);
        } else if (y < .48) {
          int m = r.below(SLOTS); std::vector<int> v; for (int c : g.chan) if (pool[c].op.l == kc[t][m]) v.push_back(c);
          o = v.empty() ? mixed(t) : g.as(any(r, v), K_K_CREAD, m);
        } else if (y < .58) { o.kind = r.chance(.5) ? K_K_READ : r.chance(.7) ? K_K_MODIFY : K_K_DROP; o.slot = r.below(SLOTS); o.ref = -1;
        } else if (y < .64 && n >= 0) { g.th[t].s[n] = -1; o.kind = K_S_DROP; o.slot = n; o.ref = -1;
        } else o = mixed(t);
        if (fa && o.ref >= 0 && r.chance(fa)) g.alloc_fault(o);
        return o; }, BUDGET * .5);
    }
    sched();
  }
}
void subject_workload(Rng& r, const std::string& prop, const Pool& pool, Spec& s, unsigned& ck, bool thorough) {
  workload(r, prop, pool, s, ck, thorough);
  std::vector<int> pure; for (size_t i = 0; i < pool.size(); ++i) if (pool[i].usable && pool[i].op.kind < K_PURE_END) pure.push_back(i);
  choose_carriers(r, s, pool, pure, 600000);
}
const char* subject_components() {
  return "{\"real\": [\"rmatrix: Particle, ParticlePair, channels, radii, quantum numbers, resonance tables, spin groups, compound systems (Reich-Moore with both boundary conditions, single and multi level Breit-Wigner, unresolved), factories from resonance ranges, Reconstructor; the const breitWigner and reichMoore evaluators; barrier functions; Eigen and range-v3 (with implicit conversion to vectors and constant group_by views restored); libstdc++ containers and strings; libm\"], "
         "\"simulated\": [\"thread scheduler (one baton, seeded)\", \"heap (allocation results, contents of fresh memory, reuse of freed blocks)\", \"mutexes, rwlocks, condition variables, once and static-initialisation guards\", \"clock\"], "
         "\"stub\": [\"ENDFtk resonance ranges, dimwits quantities, elementary identifiers, interpolation tables, Log: small stand-ins in /verif/stub, because these libraries are not installed\"]}";
}

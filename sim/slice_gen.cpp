// Calls and workloads for the part of the library that builds without the missing njoy libraries.
#include "workload.h"
#include "slice_kinds.h"
#include <algorithm>
#include <cfloat>
#include <climits>
#include <cmath>

static Op mk(int kind, int64_t l, double a = 0, double b = 0, double c = 0, double d = 0) {
  Op o; o.kind = kind; o.l = l; o.a = a; o.b = b; o.c = c; o.d = d; return o;
}
static double gen_rho(Rng& r) {
  static const double sp[] = {0, 1e-10, 1e-5, 1e-3, 0.01, 0.5, 1, 1.7320508075688772, 1.5811388300841898, 3.872983346207417, 2, 5, 10, 20, 100, 1e-300, 7.0710678118654755};
  switch (r.below(6)) {
    case 0: return sp[r.below(sizeof sp / sizeof *sp)];
    case 1: return std::pow(10., r.range(-6, 2));
    case 2: return r.range(0, 100);
    case 3: return r.below(21) * 0.5;
    default: return r.range(0.01, 12);
  }
}
static double gen_eta(Rng& r) {
  switch (r.below(8)) {
    case 0: return 0;
    case 1: return r.range(5, 15);
    case 2: return r.range(15, 60);
    case 3: { static const double sp[] = {5, 15, 14.999999, 4.9999999, 1, 0.5, 2, 10, 20, 1e-8, 1e-3}; return sp[r.below(11)]; }
    case 4: return r.range(0, 0.1);
    case 5: return -r.range(0, 1.5);
    default: return r.range(0.01, 5);
  }
}
// values that a careless cache key would confuse with x
static double near(Rng& r, double x) {
  switch (r.below(9)) {
    case 0: return std::nextafter(x, 1e9);
    case 1: return (double)(float)x;
    case 2: return x * (1 + std::pow(10., -(double)(2 + r.below(13))));
    case 3: return x + std::pow(10., -(double)(1 + r.below(8)));
    case 4: return std::floor(x) + r.unit();
    case 5: return x + 1;
    case 6: return 2 * x > 60 ? x / 2 : 2 * x;
    case 7: return std::floor(x);
    default: return x == 0 ? -0.0 : x;
  }
}
static double near_rho(Rng& r, double x) { double y = near(r, x); return y < 0 ? -y : y > 100 ? x : y; }
static double near_eta(Rng& r, double x) { double y = near(r, x); return std::fabs(y) > 60 ? x : y < -1.5 ? x : y; }
static int64_t bad_l_neutron(Rng& r) { static const int64_t b[] = {5, 6, 7, 8, 16, 60, 100, 1000, INT_MAX, -1, -4, 256, 65536}; return b[r.below(13)]; }
static int64_t bad_l_charged(Rng& r) { static const int64_t b[] = {59, 60, 61, 62, 70, 80, 100, 128, 1000, 100000, INT_MAX, -1, -2}; return b[r.below(13)]; }
static int64_t gen_l(Rng& r) { switch (r.below(5)) { case 0: return r.below(59); case 1: return 50 + r.below(9); default: return r.below(6); } }

// arguments (outside the physical range) for which the recurrence of the Coulomb functions does not converge
static const struct { int l; double rho, eta; } HARD[] = {
  {30, -17.468520508076729, -3.5430654249246771}, {43, -15.33960416882131, -4.7682314922482121}, {30, -9.1637457824937112, -3.175822197737086}, {30, -11.01653184273048, -3.9974935720362459},
  {30, -21.034014778613045, -4.8042803339484479}, {30, -16.813960171315863, -3.2700662096656861}, {33, -17.643536047508338, -3.6132941269495018}, {46, -12.744480390614616, -4.7741210294225116},
  {51, -15.002587629224381, -4.6229576832192887}, {31, -18.836262040230945, -4.0871926627204935}, {50, -17.607874380014287, -3.5994566672181065}, {31, -6.7373647589245076, -4.397924217106068},
  {47, -12.507741532844472, -2.9101259514673048}, {49, -11.849611478177982, -3.2842628725439127}, {57, -10.149334178179984, -2.60200204358196}, {58, -20.12197741627751, -4.5992247828073003}};
static int charged(Rng& r) { return r.chance(.12) ? K_CWF : K_P_C + (int)r.below(3); }
static double half(Rng& r, int max2) { return r.below(max2 + 1) * 0.5; }

void subject_pool(Rng& r, const std::string& prop, Pool& pool) {
  int cl = 0;
  auto add = [&](const Op& o) { if (!subject_available(o.kind)) return; Entry e; e.op = o; e.cluster = cl; pool.push_back(e); };
  for (int k = 0; k < 10; ++k, ++cl) {                                  // charged particle channels
    int64_t l = gen_l(r); double rho = gen_rho(r), eta = gen_eta(r);
    for (int i = 0; i < 3; ++i) add(mk(K_P_C + i, l, rho, eta));
    for (int i = 0; i < 4; ++i) add(mk(charged(r), l, rho, near_eta(r, eta)));
    for (int i = 0; i < 4; ++i) add(mk(charged(r), l, near_rho(r, rho), eta));
    for (int i = 0; i < 3; ++i) add(mk(charged(r), r.chance(.5) ? (l + 1) % 59 : gen_l(r), rho, eta));
    add(mk(charged(r), l, gen_rho(r), gen_eta(r)));
    if (std::fabs(eta) < 60 && rho > 0.1 && rho < 60) add(mk(charged(r), l, std::fabs(eta), std::fabs(rho)));
    int nb = 1 + (prop == "C05") * 3;
    for (int i = 0; i < nb; ++i) add(mk(charged(r), bad_l_charged(r), rho, eta));
    add(mk(charged(r), 40 + r.below(19), std::pow(10., r.range(-3, 0)), eta));   // hard to converge
    add(mk(charged(r), r.below(4), std::pow(10., r.range(-4, -1)), r.range(10, 60)));   // underflow
    { auto& h = HARD[r.below(sizeof HARD / sizeof *HARD)]; add(mk(charged(r), h.l, h.rho, h.eta)); if (r.chance(.5)) add(mk(charged(r), r.chance(.5) ? l : h.l, rho, h.eta)); if (r.chance(.3)) add(mk(charged(r), h.l, h.rho, near(r, h.eta))); }
    { double x = std::fabs(eta) < 1e-3 ? 0 : std::fabs(eta), y = std::max(rho, 1e-3); add(mk(K_CLO, l % 30, y, x)); if (r.chance(.5)) add(mk(K_CLO, r.below(20), r.chance(.5) ? y : r.range(.1, 40), r.chance(.3) ? 0 : x)); }
    add(mk(K_W_C, l, 0, eta)); add(mk(K_W_C, l, 0, near_eta(r, eta)));
    add(mk(K_P_N + r.below(3), l % 5, rho, eta));
  }
  for (int k = 0; k < 6; ++k, ++cl) {                                   // neutron channels, functor
    int64_t l = r.below(5); double rho = gen_rho(r);
    static const int kinds[] = {K_P_N, K_S_N, K_F_N, K_PS, K_PSF, K_PHI};
    for (int i = 0; i < 6; ++i) add(mk(kinds[i], l, rho, 0));
    for (int i = 0; i < 6; ++i) add(mk(kinds[r.below(6)], l, near_rho(r, rho), 0));
    for (int i = 0; i < 4; ++i) add(mk(kinds[r.below(6)], r.below(5), r.chance(.5) ? rho : gen_rho(r), r.chance(.2) ? gen_eta(r) : 0));
    int nb = 1 + (prop == "C05") * 4;
    for (int i = 0; i < nb; ++i) add(mk(kinds[r.below(6)], bad_l_neutron(r), rho, 0));
    add(mk(K_P_G + r.below(6), l, rho, gen_eta(r)));
    add(mk(K_W_N, l, 0, rho));
    if (r.chance(.3)) add(mk(K_PS, l, -rho));
  }
  for (int k = 0; k < 5; ++k, ++cl) {                                   // spins
    int big = r.chance(.25) ? 40 : 9;
    double a = half(r, big), b = half(r, big); int64_t l = r.chance(.2) ? r.below(1000) : r.below(6);
    add(mk(K_SPINS, 0, a, b)); add(mk(K_SPINS, 0, b, a)); add(mk(K_SPINS, 0, a + 0.5, b)); add(mk(K_SPINS, 0, a + 1, b)); add(mk(K_SPINS, 0, a, b + 1));
    add(mk(K_SPINS, 0, half(r, big), half(r, big)));
    add(mk(K_J3, l, a, b)); add(mk(K_J3, l, b, a)); add(mk(K_J3, l + 1, a, b)); add(mk(K_J3, l, a + 1, b)); add(mk(K_J3, r.below(6), half(r, big), half(r, big)));
    add(mk(K_J2, l, a)); add(mk(K_J2, l, a + 0.5)); add(mk(K_J2, l + 1, a)); add(mk(K_J2, r.below(9), half(r, big))); add(mk(K_J2, (int64_t)(2 * a), (double)(l % 20)));
    add(mk(K_SPINS, 0, 0, b)); add(mk(K_J2, 0, b)); add(mk(K_J3, 0, b, 0));
  }
  for (int k = 0; k < 4; ++k, ++cl) {                                   // quantum numbers
    int64_t l = r.chance(.3) ? r.below(100000) : r.below(9); double s = half(r, r.chance(.3) ? 2000 : 15), J = half(r, r.chance(.3) ? 20000 : 15); double pi = r.chance(.5) ? 1 : -1;
    add(mk(K_QN, l, s, J, pi)); add(mk(K_QN, l, s, J, -pi)); add(mk(K_QN, l + 1, s, J, pi)); add(mk(K_QN, l, s + 0.5, J, pi)); add(mk(K_QN, l, s, J + 0.5, pi)); add(mk(K_QN, l, s + 1, J, pi));
    add(mk(K_QN, l, J, s, pi)); add(mk(K_QN, r.below(9), half(r, 15), half(r, 15), r.chance(.5) ? 1 : -1)); add(mk(K_QN, 1000000 + r.below(1000000), 12345.5, 54321.5, pi));
    add(mk(K_QN, 0, 0.5, 0.5, 1)); add(mk(K_QN, 1, 1.5, 2.5, -1)); add(mk(K_QN, 2, 4, 3, 1)); add(mk(K_QN, 3, 3.5, 12.5, -1));   // the shared ones
  }
  for (int k = 0; k < 3; ++k, ++cl) {                                   // packs, polynomials
    for (int i = 0; i < 4; ++i) add(mk(K_PACK, 0, r.range(-9, 9), r.range(-9, 9), r.range(-9, 9), r.range(-9, 9)));
    for (int i = 0; i < 5; ++i) add(mk(K_PACKN, 0, r.range(-9, 9), r.range(-9, 9), r.range(-9, 9)));
    for (int i = 0; i < 4; ++i) add(mk(K_PACKN, 0, 1.25 * i, i - 2.5, 100. / (i + 1)));     // the shared ones
    for (int i = 0; i < 3; ++i) add(mk(K_HORNER, r.below(8), r.range(-9, 9), r.range(-9, 9), r.range(-9, 9), r.range(-9, 9)));
    for (int i = 0; i < 2; ++i) add(mk(K_OVER, 0, r.range(-9, 9), r.range(-9, 9), r.range(-9, 9)));
    add(mk(K_PACK, 0, 1, 2, 3, 4));
  }
}

// Reference model of what the library does not support (see the documentation of the functions).
int subject_expect(const Op& o) {
  uint32_t u = (uint32_t)o.l; int i = (int)o.l;
  switch (o.kind) {
    case K_P_N: case K_S_N: case K_F_N: return u > 4 ? EXPECT_REJECT : EXPECT_ANY;
    case K_PS: case K_PSF: case K_PHI: return i < 0 || i > 4 ? EXPECT_REJECT : EXPECT_ANY;
    case K_P_C: case K_S_C: case K_F_C: case K_CWF: return i < 0 || i > 58 ? EXPECT_REJECT : EXPECT_ANY;
    default: return EXPECT_ANY;
  }
}

// Coulomb functions that cannot be converged must be rejected: wave functions that are returned satisfy
// the Wronskian relation (subject_exec) or vanish because the barrier is too high (for all l at once), and
// penetrability, shift factor and phase shift are rejected together with the wave functions they are made of.
std::string subject_judge(const Op& o, const Outcome& out, Alone alone) {
  bool ch = o.kind == K_P_C || o.kind == K_S_C || o.kind == K_F_C;
  if ((!ch && o.kind != K_CWF) || !subject_available(K_CWF)) return "";
  char b[200];
  if (o.kind == K_CWF) {
    static const unsigned char zero[32] = {};
    if (out.status == ST_OTHER && out.exc == 2) { snprintf(b, sizeof b, "the Coulomb functions of l = %ld, rho = %g, eta = %g have not converged but were not rejected", (long)o.l, o.a, o.b); return b; }
    if (out.status == ST_VALUE && o.l > 0 && !memcmp(out.bytes, zero, 32)) {
      Op z = o; z.l = 0; Outcome q = alone(z);
      if (q.status == ST_VALUE && memcmp(q.bytes, zero, 32)) { snprintf(b, sizeof b, "the Coulomb functions of l = %ld, rho = %g, eta = %g were given as zero instead of being rejected", (long)o.l, o.a, o.b); return b; }
    }
  } else if (out.status == ST_VALUE) {
    Op z = o; z.kind = K_CWF; Outcome q = alone(z);
    if (q.status == ST_REJECT || (q.status == ST_OTHER && q.exc == 2)) { snprintf(b, sizeof b, "%s with l = %ld, rho = %g, eta = %g: the Coulomb functions cannot be converged but the request was not rejected", subject_kind_name(o.kind), (long)o.l, o.a, o.b); return b; }
  }
  return "";
}
bool subject_has(const std::string& p) { return p.size() == 3 && p >= "C01" && p <= "C08"; }
bool subject_initialises() { return false; }
unsigned subject_isolated_kinds(const std::string& p) {
  auto b = [](int k) { return 1u << k; };
  if (p == "C02") return b(V_GARBAGE) | b(V_MEMORY);
  if (p == "C04") return b(V_FREE);
  if (p == "C05") return b(V_WRONGEXC) | b(V_CRASH) | b(V_HANG) | b(V_MEMORY);     // of requests that must be rejected
  return 0;
}

// ---------------------------------------------------------------- workloads
namespace {
struct Gen {
  Rng& r; const Pool& p; std::string prop;
  std::vector<int> focus, all, cheap, qn, pk, ps, lists, rejected, alloc;
  Gen(Rng& r, const Pool& p, const std::string& prop) : r(r), p(p), prop(prop) {
    int ncl = 0; for (auto& e : p) ncl = std::max(ncl, e.cluster + 1);
    std::vector<int> cls; int n = 1 + r.below(3); for (int i = 0; i < n; ++i) cls.push_back(r.below(ncl));
    for (size_t i = 0; i < p.size(); ++i) {
      if (!p[i].usable) continue;
      const Entry& e = p[i];
      all.push_back(i);
      if (std::find(cls.begin(), cls.end(), e.cluster) != cls.end()) focus.push_back(i);
      if (e.events < 400) cheap.push_back(i);
      int k = e.op.kind;
      if (k == K_QN) qn.push_back(i);
      if (k == K_PACKN) pk.push_back(i);
      if (k == K_PS) ps.push_back(i);
      if (k == K_SPINS || k == K_J2 || k == K_J3 || k == K_PS || k == K_PSF || k == K_QN) lists.push_back(i);
      if (e.ref.status == ST_REJECT) rejected.push_back(i);
      if (e.allocs) alloc.push_back(i);
    }
    if (focus.size() < 3) focus = all;
    // sometimes very few distinct calls, so that they meet again and again
    if (r.chance(.3)) { std::vector<int> f; int k = 2 + r.below(4); for (int i = 0; i < k; ++i) f.push_back(any(r, focus)); focus = f; }
  }
  Op of(int i) const { Op o = p[i].op; o.ref = i; return o; }
  int pick() { return r.chance(.88) ? any(r, focus) : any(r, all); }
  Op pure() { return of(pick()); }
  int find_shared(int kind, int s) const {
    static const double Q[4][4] = {{0, 0.5, 0.5, 1}, {1, 1.5, 2.5, -1}, {2, 4, 3, 1}, {3, 3.5, 12.5, -1}};
    for (size_t i = 0; i < p.size(); ++i) {
      const Op& o = p[i].op; if (o.kind != kind || !p[i].usable) continue;
      if (kind == K_QN && o.l == (int64_t)Q[s][0] && o.a == Q[s][1] && o.b == Q[s][2] && o.c == Q[s][3]) return i;
      if (kind == K_PACKN && o.a == 1.25 * s && o.b == s - 2.5 && o.c == 100. / (s + 1)) return i;
    }
    return -1;
  }
  Op shared_obj() {
    int s = r.below(4); bool q = r.chance(.5); int i = find_shared(q ? K_QN : K_PACKN, s);
    if (i < 0) return pure();
    Op o = of(i); o.kind = q ? K_QN_SHARED : K_PK_SHARED; o.slot = s; if (!q && r.chance(.3)) { o.kind = K_PK_SPLIT; o.flags = 100; } return o;
  }
  Op functor() {
    if (ps.empty()) return pure();
    Op o = of(any(r, ps)); if (o.l < 0 || o.l > 4) o.l = 5;
    o.kind = K_FN_CALL; o.flags = r.below(4); return o;
  }
  Op object() {                                            // private objects
    Op o; int t = r.below(10); bool q = r.chance(.5);
    if (t < 3 || (q ? qn : pk).empty()) {
      if ((q ? qn : pk).empty()) return pure();
      o = of(any(r, q ? qn : pk)); o.kind = q ? K_QN_MAKE : K_PK_MAKE; o.slot = r.below(6); return o;
    }
    o.slot = r.below(6); o.flags = r.below(6); o.ref = -1;
    static const int Q[] = {K_QN_READ, K_QN_READ, K_QN_COPY, K_QN_COPY, K_QN_ASSIGN, K_QN_ASSIGN, K_QN_DROP};
    static const int P[] = {K_PK_READ, K_PK_READ, K_PK_COPY, K_PK_COPY, K_PK_DERIVE, K_PK_DERIVE, K_PK_DROP, K_PK_SPLIT};
    o.kind = q ? Q[r.below(7)] : P[r.below(8)];
    return o;
  }
  Op keep() {
    Op o; int t = r.below(10);
    if (t < 4) { if (lists.empty()) return pure(); o = of(any(r, lists)); o.flags = o.kind; o.kind = K_KEEP; }
    else { o.kind = t < 7 ? K_KEEP_READ : t < 9 ? K_KEEP_MODIFY : K_KEEP_DROP; o.a = r.range(-5, 5); o.b = r.range(-5, 5); }
    o.slot = r.below(6); return o;
  }
  bool can_alloc_fault(const Op& o) const {
    switch (o.kind) { case K_KEEP_READ: case K_KEEP_MODIFY: case K_KEEP_DROP: case K_QN_DROP: case K_PK_DROP: return false; }
    return true;
  }
  void alloc_fault(Op& o) {
    if (!can_alloc_fault(o)) return;
    uint32_t n = o.ref >= 0 ? p[o.ref].allocs : 4; if (o.kind >= K_PURE_END) n += 2;
    if (!n) n = 1;
    o.fault_alloc = 1 + r.below(std::min<uint32_t>(n, 400)); o.fault_sticky = r.chance(.3);
  }
  void cb_fault(Op& o) { uint32_t n = o.ref >= 0 ? std::max(1u, p[o.ref].cbs) : 6; o.fault_cb = 1 + r.below(std::min(n + 1, 200u)); }
  void around(Op& o) { if (r.chance(.06)) o.ambient |= r.chance(.5) ? 16 : 32; }      // made while an exception of the caller's is on its way or being handled
  double cost(const Op& o) const { return o.ref >= 0 ? p[o.ref].events + 30. : 200.; }
  double cost(const Spec& s) const { double c = 0; for (auto& t : s.threads) for (auto& o : t) c += cost(o); return c * s.reps; }
};
int nthreads(Rng& r) { int x = r.below(20); return x < 8 ? 2 : x < 13 ? 3 : x < 16 ? 4 : x < 19 ? 5 + r.below(4) : 9 + r.below(8); }
}

void subject_workload(Rng& r, const std::string& prop, const Pool& pool, Spec& s, unsigned& ck, bool thorough) {
  Gen g(r, pool, prop);
  s.seed = r.next(); s.garbage = r.next() >> 8; s.heap_mode = r.below(3); s.world = r.chance(.6); s.reps = 1;
  int nt = nthreads(r);
  auto fill = [&](int n, int lo, int hi, auto make, double budget) {
    double c = 0; s.threads.assign(n, {});
    for (int t = 0; t < n; ++t) {
      int k = lo + r.below(hi - lo + 1);
      for (int i = 0; i < k; ++i) { Op o = make(); s.threads[t].push_back(o); c += g.cost(o); if (c > budget * (t + 1) / n && i + 1 >= 1) break; }
    }
  };
  if (prop == "C01") {
    ck = CK_OUTCOME | CK_RACE | CK_MEM;
    fill(nt, 1, nt > 8 ? 4 : 8, [&] { double x = r.unit(); if (s.world && x < .12) return g.shared_obj(); if (s.world && x < .22) return g.functor(); if (x < .27) return g.object(); return g.pure(); }, 150000);
    choose_policy(r, s, nt, g.cost(s));
  } else if (prop == "C02") {
    ck = CK_OUTCOME | CK_MEM;
    double x = r.unit();
    if (x < .015) {                               // very long history of cheap calls
      int n = r.chance(.5) ? 70000 : 9000 + r.below(9000); std::vector<int> set; int k = 2 + r.below(12); for (int i = 0; i < k; ++i) set.push_back(any(r, g.cheap));
      if (n == 70000 && r.chance(.8)) {           // of one function only
        std::vector<int> kinds; for (int i : g.cheap) kinds.push_back(pool[i].op.kind);
        std::sort(kinds.begin(), kinds.end()); kinds.erase(std::unique(kinds.begin(), kinds.end()), kinds.end());
        int kind = any(r, kinds); set.clear(); for (int i : g.cheap) if (pool[i].op.kind == kind) set.push_back(i);
        std::sort(set.begin(), set.end(), [&](int a, int b) { return pool[a].events < pool[b].events; }); if (set.size() > 4) set.resize(4);
      }
      s.threads.assign(1, {}); for (int i = 0; i < n; ++i) s.threads[0].push_back(g.of(any(r, set)));
      s.heap_mode = 1; s.policy = POL_SEQ;
    } else if (x < .1) {                          // long history over the whole pool
      int n = 300 + r.below(1700); s.threads.assign(1, {}); double c = 0;
      for (int i = 0; i < n && c < 6e6; ++i) { Op o = r.chance(.7) ? g.of(any(r, g.all)) : g.of(any(r, g.cheap)); if (r.chance(.05)) g.alloc_fault(o); c += g.cost(o); s.threads[0].push_back(o); }
      s.heap_mode = 1 + r.below(2); s.policy = POL_SEQ;
    } else {
      nt = r.chance(.55) ? 1 : 2 + r.below(3);
      fill(nt, 4, nt == 1 ? 60 : 25, [&] { Op o; double y = r.unit(); if (s.world && y < .08) o = g.functor(); else if (y < .14) o = g.object(); else o = g.pure(); if (r.chance(.1)) g.alloc_fault(o); g.around(o); return o; }, 500000);
      s.policy = POL_OPS; s.bound = r.chance(.5) ? .5 : .1;
    }
  } else if (prop == "C03") {
    ck = CK_OUTCOME | CK_EXC | CK_MEM;
    nt = r.chance(.5) ? 1 : nt;
    s.threads.assign(nt, {}); double c = 0;
    std::vector<int> fa; for (int i : g.focus) if (pool[i].allocs) fa.push_back(i);
    if (fa.empty()) for (int i = 0; i < 4; ++i) fa.push_back(any(r, g.alloc.empty() ? g.all : g.alloc));
    for (int t = 0; t < nt; ++t) {
      int k = 2 + r.below(nt == 1 ? 24 : 6);
      for (int i = 0; i < k && c < 200000. * (t + 1) / nt; ++i) {
        double y = r.unit();
        Op o = y < .15 ? g.object() : y < .25 && s.world ? (r.chance(.5) ? g.shared_obj() : g.functor()) : y < .4 ? g.pure() : y < .5 ? g.keep() : g.of(any(r, fa));
        Op again = o; bool f = r.chance(.7); if (f) g.alloc_fault(o);
        s.threads[t].push_back(o); c += g.cost(o);
        if (f && r.chance(.7)) { s.threads[t].push_back(again); c += g.cost(o); }
      }
    }
    if (nt == 1) s.policy = POL_SEQ; else choose_policy(r, s, nt, g.cost(s));
  } else if (prop == "C04") {
    ck = CK_LEAK | CK_MEM;
    double x = r.unit();
    auto make = [&](double fa) { double y = r.unit(); Op o = y < .1 ? g.object() : y < .18 ? g.keep() : y < .25 && s.world ? g.functor() : y < .35 && !g.rejected.empty() ? g.of(any(r, g.rejected)) : g.pure();
      if (r.chance(fa)) g.alloc_fault(o); else if (o.kind == K_PACKN && r.chance(.3)) g.cb_fault(o); return o; };
    if (x < .70) {                                // the same calls again and again
      s.threads.assign(1, {}); int k = 1 + r.below(12); double fa = r.chance(.5) ? .5 : .15; double c = 0;
      for (int i = 0; i < k && c < 40000; ++i) { Op o = make(fa); c += g.cost(o); s.threads[0].push_back(o); }
      s.reps = r.chance(.2) ? 60 : 9; if (c * s.reps > 3e6) s.reps = 9;
      s.policy = POL_SEQ; s.heap_mode = 1;
    } else if (x < .74) {                         // very many different calls
      int n = 8 * (r.chance(.6) ? 64 : 256 + r.below(256)); s.threads.assign(1, {}); s.distinct = n;
      int k = 1 + r.below(3); std::vector<int> set; for (int i = 0; i < k; ++i) set.push_back(any(r, g.all)); double c = 0;
      for (int i = 0; i < n; ++i) {
        Op o = g.p[any(r, set)].op; o.ref = -1;
        o.a = r.chance(.3) && o.kind != K_J2 ? o.a : o.kind >= K_SPINS && o.kind <= K_QN ? r.below(400) * .5 : r.range(10, 40); o.b = o.kind >= K_SPINS && o.kind <= K_QN ? r.below(400) * .5 : r.range(-1, 3); o.c = r.range(-9, 9);
        if (r.chance(.5)) o.l = o.kind == K_QN ? r.below(100000) : r.chance(.9) ? r.below(o.kind == K_J2 || o.kind == K_J3 ? 300 : 5) : 5 + r.below(1000000);
        c += 30 + (o.kind >= K_P_C && o.kind <= K_F_C ? 2500 : 200); if (c > 4e6) { s.distinct = 0; break; }
        s.threads[0].push_back(o);
      }
      if (!s.distinct && s.threads[0].size() >= 400) { s.threads[0].resize(s.threads[0].size() / 8 * 8); s.distinct = s.threads[0].size(); }
      s.policy = POL_SEQ; s.heap_mode = 1;
    } else if (x < .82) {                         // many different calls
      s.threads.assign(1, {}); double fa = r.chance(.4) ? .5 : 0; double c = 0;
      std::vector<int> set = r.chance(.5) ? g.all : g.focus;
      for (int i = 0; i < 100 && c < 1e6; ++i) { Op o = g.of(any(r, set)); if (r.chance(fa)) g.alloc_fault(o); c += g.cost(o); s.threads[0].push_back(o); }
      s.policy = POL_SEQ; s.heap_mode = 1;
    } else if (x < .92) {                         // threads that come and go
      nt = 6 + r.below(6); std::vector<Op> l; int k = 1 + r.below(5); double c = 0; for (int i = 0; i < k && c < 30000; ++i) { Op o = make(.2); c += g.cost(o); l.push_back(o); }
      s.threads.assign(nt, l); s.policy = POL_SEQ; s.heap_mode = 1; s.world &= ~1; for (auto& t : s.threads) for (auto& o : t) if (o.kind == K_FN_CALL) o = g.pure();
    } else {                                      // concurrent repetition
      fill(2 + r.below(2), 1, 4, [&] { return make(.3); }, 15000); s.reps = 9; s.heap_mode = 1; choose_policy(r, s, s.threads.size(), g.cost(s));
    }
  } else if (prop == "C05") {
    ck = CK_OUTCOME | CK_EXC | CK_MEM | CK_RETAIN;
    nt = r.chance(.35) ? 1 : nt;
    fill(nt, 3, nt == 1 ? 40 : 8, [&] { double y = r.unit(); Op o;
      if (y < .3 && !g.rejected.empty()) o = g.of(any(r, g.rejected)); else if (y < .5) { o = r.chance(.5) && s.world ? g.shared_obj() : g.object(); if (o.kind == K_PK_SHARED || (o.kind >= K_PK_MAKE && o.kind <= K_PK_DERIVE)) { if (r.chance(.6)) g.cb_fault(o); } }
      else if (y < .6 && !g.pk.empty()) { o = g.of(any(r, g.pk)); if (r.chance(.7)) g.cb_fault(o); }
      else if (y < .7 && s.world) o = g.functor(); else o = g.pure(); g.around(o); return o; }, 200000);
    if (nt == 1) s.policy = POL_SEQ; else choose_policy(r, s, nt, g.cost(s));
  } else if (prop == "C06") {
    ck = CK_OUTCOME | CK_STALL | CK_MEM;
    if (nt < 2) nt = 2;
    fill(nt, 1, nt > 6 ? 3 : 6, [&] { double x = r.unit(); Op o; if (s.world && x < .12) o = g.shared_obj(); else if (s.world && x < .22) o = g.functor(); else if (x < .27) o = g.object(); else o = g.pure(); if (r.chance(.08)) g.alloc_fault(o); return o; }, 120000);
    choose_policy(r, s, nt, g.cost(s));
    int k = 1 + r.below(std::max(1, nt / 2)); double mx = 0;
    for (int i = 0; i < k; ++i) {
      int t = 1 + r.below(nt); uint32_t o = r.below(s.threads[t - 1].size()); const Op& op = s.threads[t - 1][o];
      uint64_t ev = 1 + r.below((uint64_t)std::max(4., g.cost(op) - 28)); if (r.chance(.2)) ev = 1 + r.below(20);
      bool dup = false; int st = 0; for (auto& w : s.stalls) { if (w.tid == t) dup = true; if (w.forever) ++st; }
      if (dup) continue;
      s.stalls.push_back({t, o, ev, st < nt - 1 && r.chance(.75), (uint32_t)(r.chance(.4) ? 1 + r.below(r.chance(.7) ? 2 : 8) : 0)});
    }
    for (auto& t : s.threads) for (auto& o : t) mx = std::max(mx, g.cost(o));
    s.limit = (uint64_t)(mx * 40 + 200000);
  } else if (prop == "C07") {
    bool rounding = r.chance(.3);                 // what is computed under another rounding mode, and kept, may differ
    ck = (rounding ? 0 : CK_OUTCOME) | CK_AMBIENT | CK_MEM;
    nt = r.chance(.4) ? 1 : 2 + r.below(3);
    fill(nt, 1, nt == 1 ? 30 : 6, [&] { double x = r.unit(); Op o; if (s.world && x < .08) o = g.shared_obj(); else if (s.world && x < .16) o = g.functor(); else if (x < .22) o = g.object(); else if (x < .32 && !g.rejected.empty()) o = g.of(any(r, g.rejected)); else o = g.pure();
      o.ambient = r.below(4) | (r.chance(.25) ? 64 : 0); g.around(o); if (rounding && r.chance(.6)) o.ambient |= 4 | (r.below(3) << 8); if (r.chance(.2)) g.alloc_fault(o); return o; }, 150000);
    if (nt == 1) s.policy = POL_SEQ; else choose_policy(r, s, nt, g.cost(s));
  } else {                                        // C08
    ck = CK_OUTCOME | CK_RETAIN | CK_MEM | CK_RACE;
    nt = r.chance(.35) ? 1 : 2 + r.below(4);
    fill(nt, 6, nt == 1 ? 60 : 16, [&] { double x = r.unit(); if (x < .4) return g.keep(); if (x < .72) return g.object(); if (s.world && x < .82) return g.shared_obj(); if (s.world && x < .88) return g.functor(); if (!g.lists.empty() && x < .96) return g.of(any(r, g.lists)); return g.pure(); }, 120000);
    if (nt == 1) s.policy = POL_SEQ; else choose_policy(r, s, nt, g.cost(s));
  }
  choose_carriers(r, s, pool, r.chance(.7) ? g.focus : g.all, 300000);
  (void)thorough;
}
const char* subject_components() {
  return "{\"real\": [\"every public function of the library slice that builds here: penetrability, shift factor, phase shift and Coulomb phase shift for neutron, charged, photon and fission channels (with the coh3 Coulomb functions), penetrationShift functor, phaseShift, spin and total angular momentum lists, ChannelQuantumNumbers, Pack, horner, overload; libstdc++ containers, strings and function-local statics they use; libm\"], "
         "\"simulated\": [\"thread scheduler (one baton, seeded)\", \"heap (allocation results, contents of fresh memory, reuse of freed blocks)\", \"mutexes, rwlocks, condition variables, once and static-initialisation guards\", \"clock\", \"stdout (memory file)\"], "
         "\"stub\": [\"njoy::Log statement in coh3-extwave.hpp is cut, as in the repository's own build here\"]}";
}

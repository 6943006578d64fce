// The library under test, compiled with access instrumentation, and the calls the simulated
// callers make.  Only this file sees the library's headers.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1      // std::string is instantiated, and so instrumented, here
#include <bits/stdc++.h>
#include "resonanceReconstruction.hpp"
#include "engine.h"
#include "slice_kinds.h"
#include <typeinfo>
#include <memory>
#define GLUE __attribute__((no_sanitize("thread"), noinline))

// Parts of the interface the calls below are written against; ../check drops a part that no longer
// compiles, and says so, rather than giving no answer on the rest.
#ifndef NO_PACK
#define HAVE_PACK 1
#else
#define HAVE_PACK 0
#endif
#ifndef NO_QN
#define HAVE_QN 1
#else
#define HAVE_QN 0
#endif
#ifndef NO_LISTS
#define HAVE_LISTS 1
#else
#define HAVE_LISTS 0
#endif
#ifndef NO_FUN
#define HAVE_FUN 1
#else
#define HAVE_FUN 0
#endif
#ifndef NO_MISC
#define HAVE_MISC 1
#else
#define HAVE_MISC 0
#endif
#ifndef NO_CLO
#define HAVE_CLO 1
#else
#define HAVE_CLO 0
#endif
#ifndef NO_CWF
#define HAVE_CWF 1
#else
#define HAVE_CWF 0
#endif

namespace rr = njoy::resonanceReconstruction;
namespace rm = njoy::resonanceReconstruction::rmatrix;

// the caller's own number type: owns memory, may throw
struct Num {
  double* p;
  Num(double v = 0) : p(new double(v)) {}
  Num(const Num& o) : p(new double(*o.p)) {}
  Num(Num&& o) noexcept : p(o.p) { o.p = nullptr; }
  Num& operator=(const Num& o) { if (this != &o) { double* q = new double(*o.p); delete p; p = q; } return *this; }
  ~Num() { delete p; }
};
static double val(const Num& n) { return n.p ? *n.p : -777.25; }
Num operator+(const Num& a, const Num& b) { if (sim_callback_fault()) throw CallerError{1}; return Num(val(a) + val(b)); }
Num operator-(const Num& a, const Num& b) { if (sim_callback_fault()) throw CallerError{2}; return Num(val(a) - val(b)); }
Num operator*(const Num& a, double v) { if (sim_callback_fault()) throw CallerError{3}; return Num(val(a) * v); }

struct Changed {};                        // something changed that nobody was entitled to change
struct Unconverged {};                    // wave functions that are none
GLUE static void putd(Outcome& o, double v) { o.put(&v, 8); }
struct Absent { template <class... A> explicit Absent(A...) {} };
#if HAVE_QN
using QN = rm::ChannelQuantumNumbers;
#else
using QN = Absent;
#endif
#if HAVE_PACK
// packs are made from named variables, which change and go away afterwards
struct Src { Num n; double b; };
template <class P> static void read_pack_out(const P& p, Outcome& o) {
  putd(o, val(std::get<0>(p.data))); putd(o, std::get<1>(p.data)); putd(o, val(std::get<2>(p.data)));
}
static auto make_pk(const Op& op, bool check = true) {
  Src s{Num(op.a), op.b};
  auto p = rr::pack(s.n, s.b, Num(op.c));
  Outcome b, a; b.clear(); a.clear();
  read_pack_out(p, b);
  *s.n.p = 4e99; s.b = -4e99;
  read_pack_out(p, a);
  if (check && a.hash != b.hash) throw Changed{};
  return p;
}
using PackN = decltype(make_pk(std::declval<const Op&>()));
#else
using PackN = Absent;
#endif
#if HAVE_FUN
using Fun = decltype(rr::penetrationShift(rr::Integer<0>{}));
#else
using Fun = Absent;
#endif

GLUE static void puts_(Outcome& o, const std::string& s) { o.put(s.data(), s.size()); }
template <class L> GLUE static void putv(Outcome& o, const L& v) { for (double x : v) o.put(&x, 8); }

// whatever the library hands over (container, view, reference, character array): what it shows now
template <class T> static auto snapshot(const T& t) {
  if constexpr (std::is_convertible_v<const T&, std::string_view>) return std::string(std::string_view(t));
  else { std::vector<double> v; for (const auto& x : t) v.push_back(x); return v; }
}
template <class T, class = void> struct Mutable : std::false_type {};
template <class T> struct Mutable<T, std::enable_if_t<!std::is_const_v<std::remove_reference_t<decltype(*std::begin(std::declval<T&>()))>>>> : std::true_type {};
// a result kept beyond the call, exactly as the library handed it over (value or reference)
struct HoldBase { virtual ~HoldBase() {} virtual bool same() const = 0; virtual void modify(const Op&) = 0; virtual void out(Outcome&) const = 0; };
template <class R> struct Hold : HoldBase {
  R r; decltype(snapshot(std::declval<const std::decay_t<R>&>())) m;
  template <class F> explicit Hold(F f) : r(f()), m(snapshot(r)) {}
  bool same() const override { return snapshot(r) == m; }
  void out(Outcome& o) const override { auto s = snapshot(r); o.put(s.data(), s.size() * sizeof(s[0])); }
  void modify(const Op& op) override {
    if constexpr (!std::is_reference_v<R> && !std::is_const_v<R> && Mutable<R>::value) {
      for (auto& x : r) x = static_cast<std::decay_t<decltype(x)>>(35 + (int)op.slot);
      if constexpr (std::is_same_v<R, std::string>) r += "tail";
      else if constexpr (std::is_same_v<R, std::vector<double>>) r.push_back(op.b);
      m = snapshot(r);
    }
  }
};
template <class F> static std::unique_ptr<HoldBase> hold(F f) { return std::unique_ptr<HoldBase>(new Hold<decltype(f())>(f)); }
struct Keep { std::unique_ptr<HoldBase> h; };
constexpr int NSLOT = 6, NSHARED = 4;
struct Slots {
  std::unique_ptr<QN> qn[NSLOT]; int qref[NSLOT];
  std::unique_ptr<PackN> pk[NSLOT]; int pref[NSLOT];
  Keep keep[NSLOT];
  std::unique_ptr<Fun> fn[6];
};
struct World {
  int nth;
  std::unique_ptr<Fun> fn[6];
  std::unique_ptr<QN> qn[NSHARED];
  std::unique_ptr<PackN> pk[NSHARED];
  std::unique_ptr<Slots[]> t;            // 1..nth
};

#if HAVE_QN
static void read_qn(const QN& q, Outcome& o) {
  std::string s(q.toString());
  puts_(o, s);
  putd(o, q.orbitalAngularMomentum()); putd(o, q.spin()); putd(o, q.totalAngularMomentum()); putd(o, q.parity());
}
static QN make_qn(const Op& op) { return QN((unsigned)op.l, op.a, op.b, (short)(op.c > 0 ? 1 : -1)); }
#endif
#if HAVE_PACK
template <class P> static void read_pk(const P& p, Outcome& o) {
  Outcome b, a; b.clear(); a.clear();
  read_pack_out(p, b);
  read_pack_out(p, o);
  auto q = (p + p) - p * 3.0;
  read_pack_out(q, o);
  read_pack_out(p, a);
  if (a.hash != b.hash) throw Changed{};  // an operand
}
#endif
#if HAVE_PACK
template <class P> static void assign_pk(P& a, const P& b) { if constexpr (std::is_copy_assignable_v<P>) a = b; }
template <class P> static void change_pk(P& p, double v) { std::get<0>(p.data) = Num(v); std::get<1>(p.data) = v + 1; std::get<2>(p.data) = Num(v + 2); }
template <class P> static void check_pk(const P& p, double v) { if (val(std::get<0>(p.data)) != v || std::get<1>(p.data) != v + 1 || val(std::get<2>(p.data)) != v + 2) throw Changed{}; }
#endif
#if HAVE_FUN
static Fun make_fn(int l) {
  switch (l) { case 0: return rr::penetrationShift(rr::Integer<0>{}); case 1: return rr::penetrationShift(rr::Integer<1>{});
    case 2: return rr::penetrationShift(rr::Integer<2>{}); case 3: return rr::penetrationShift(rr::Integer<3>{});
    case 4: return rr::penetrationShift(rr::Integer<4>{}); default: return rr::penetrationShift(rr::Integer<7>{}); }
}
#endif
bool subject_available(int k) {
  switch (k) {
    case K_PSF: case K_FN_CALL: return HAVE_FUN;
    case K_SPINS: case K_J2: case K_J3: return HAVE_LISTS;
    case K_QN: case K_QN_SHARED: case K_QN_MAKE: case K_QN_READ: case K_QN_COPY: case K_QN_ASSIGN: case K_QN_DROP: return HAVE_QN;
    case K_PACK: case K_PACKN: case K_PK_SHARED: case K_PK_MAKE: case K_PK_READ: case K_PK_COPY: case K_PK_DROP: case K_PK_DERIVE: case K_PK_SPLIT: return HAVE_PACK;
    case K_HORNER: case K_OVER: return HAVE_MISC;
    case K_CWF: return HAVE_CWF;
    case K_CLO: return HAVE_CLO;
  }
  return true;
}

template <class Ch> static void barrier(int what, const Op& op, Outcome& o) {
  double v = what == 0 ? rm::calculatePenetrability<Ch>((unsigned)op.l, op.a, op.b)
           : what == 1 ? rm::calculateShiftFactor<Ch>((unsigned)op.l, op.a, op.b)
                       : rm::calculatePhaseShift<Ch>((unsigned)op.l, op.a, op.b);
  putd(o, v);
}

static void pure(const Op& op, Outcome& o) {
  switch (op.kind) {
    case K_P_N: case K_S_N: case K_F_N: barrier<rm::Neutron>(op.kind - K_P_N, op, o); break;
    case K_P_C: case K_S_C: case K_F_C: barrier<rm::ChargedParticle>(op.kind - K_P_C, op, o); break;
    case K_P_G: case K_S_G: case K_F_G: barrier<rm::Photon>(op.kind - K_P_G, op, o); break;
    case K_P_X: case K_S_X: case K_F_X: barrier<rm::Fission>(op.kind - K_P_X, op, o); break;
    case K_W_C: putd(o, rm::calculateCoulombPhaseShift<rm::ChargedParticle>((int)op.l, op.b)); break;
    case K_W_N: putd(o, rm::calculateCoulombPhaseShift<rm::Neutron>((int)op.l, op.b)); break;
    case K_PS: { auto a = rr::penetrationShift((int)op.l, op.a); putd(o, a[0]); putd(o, a[1]); break; }
    case K_PHI: putd(o, rr::phaseShift((int)op.l, op.a)); break;
#if HAVE_FUN
    case K_PSF: { auto f = make_fn((int)op.l); auto a = f(op.a); putd(o, a[0]); putd(o, a[1]); break; }
#endif
#if HAVE_LISTS
    case K_SPINS: { auto v = rm::possibleChannelSpinValues(op.a, op.b); putv(o, v); break; }
    case K_J3: { auto v = rm::possibleChannelTotalAngularMomentumValues((unsigned)op.l, op.a, op.b); putv(o, v); break; }
    case K_J2: { auto v = rm::possibleChannelTotalAngularMomentumValues((unsigned)op.l, op.a); putv(o, v); break; }
#endif
#if HAVE_QN
    case K_QN: { QN q = make_qn(op); read_qn(q, o); break; }
#endif
#if HAVE_PACK
    case K_PACK: {
      double a = op.a, b = op.b; int n = 3;
      auto p = rr::pack(a, b, n); auto q = rr::pack(op.c, op.d, 4);
      double x = std::get<0>(p.data), y = std::get<1>(p.data), z = std::get<2>(p.data);
      a = 1e88; b = -1e88; n = 77777;
      if (std::get<0>(p.data) != x || std::get<1>(p.data) != y || std::get<2>(p.data) != z) throw Changed{};
      auto s = (p + q) * 2.5 - p;
      putd(o, std::get<0>(s.data)); putd(o, std::get<1>(s.data)); putd(o, std::get<2>(s.data));
      break;
    }
    case K_PACKN: { PackN p = make_pk(op); read_pk(p, o); break; }
#endif
#if HAVE_CWF
    case K_CWF: {
      std::complex<double> gf(-1e77, 1e77), dgf(1e77, -1e77);
      rm::coulombWaveFunctions((int)op.l, op.a, op.b, gf, dgf);
      double G = gf.real(), F = gf.imag(), g = dgf.real(), f = dgf.imag();
      putd(o, G); putd(o, F); putd(o, g); putd(o, f);
      double w = f * G - g * F;
      if (std::isfinite(w) && !(G == 0 && F == 0 && g == 0 && f == 0) && std::fabs(w - 1) > 1e-4) throw Unconverged{};
      break;
    }
#endif
#if HAVE_CLO
    case K_CLO: {
      std::complex<double> w[64], d[64];
      const int n = (int)(op.l % 60);
      putd(o, rm::omExternalClosed(n, op.a, op.b, w, d));
      for (int l = 0; l <= n; ++l) { putd(o, w[l].real()); putd(o, w[l].imag()); putd(o, d[l].real()); putd(o, d[l].imag()); }
      break;
    }
#endif
#if HAVE_MISC
    case K_HORNER: {
      std::array<double, 5> c = {{op.b, op.c, op.d, (double)op.l, 1.5}};
      putd(o, rm::horner(c.rbegin(), c.rend(), op.a));
      putd(o, rm::horner(c.begin(), c.begin() + 1 + (op.l & 3), op.a));
      break;
    }
    case K_OVER: {
      auto f = rm::overload{[&](int i) { return i + op.a; }, [&](double d) { return d * op.b; }};
      putd(o, f(3)); putd(o, f(op.c)); break;
    }
#endif
    default: throw std::logic_error("harness: unknown kind");
  }
}

static void keep_call(const Op& op, Keep& k) {
  // flags: which pure call
  k.h.reset();
  switch (op.flags) {
#if HAVE_LISTS
    case K_SPINS: k.h = hold([&]() -> decltype(auto) { return rm::possibleChannelSpinValues(op.a, op.b); }); break;
    case K_J3: k.h = hold([&]() -> decltype(auto) { return rm::possibleChannelTotalAngularMomentumValues((unsigned)op.l, op.a, op.b); }); break;
    case K_J2: k.h = hold([&]() -> decltype(auto) { return rm::possibleChannelTotalAngularMomentumValues((unsigned)op.l, op.a); }); break;
#endif
    case K_PS: k.h = hold([&]() -> decltype(auto) { return rr::penetrationShift((int)op.l, op.a); }); break;
#if HAVE_FUN
    case K_PSF: { auto f = make_fn((int)op.l); k.h = hold([&]() -> decltype(auto) { return f(op.a); }); break; }
#endif
#if HAVE_QN
    case K_QN: { QN q = make_qn(op); k.h = hold([&]() -> decltype(auto) { return q.toString(); }); break; }
#endif
    default: throw std::logic_error("harness: unknown kind");
  }
}
static bool keep_same(const Keep& k) { return !k.h || k.h->same(); }
static void stateful(World* w, int tid, const Op& op, Outcome& o) {
  Slots& S = w->t[tid];
  int n = op.slot % NSLOT, m = op.flags % NSLOT;
  switch (op.kind) {
#if HAVE_QN
    case K_QN_MAKE: { S.qn[n].reset(); std::unique_ptr<QN> q(new QN(make_qn(op))); read_qn(*q, o); S.qn[n] = std::move(q); S.qref[n] = op.ref; break; }
    case K_QN_READ: if (!S.qn[n]) { o.ref = -2; break; } o.ref = S.qref[n]; read_qn(*S.qn[n], o); break;
    case K_QN_COPY: {
      if (!S.qn[n] || n == m) { o.ref = -2; break; }
      o.ref = S.qref[n]; S.qn[m].reset(); S.qn[m].reset(new QN(*S.qn[n])); S.qref[m] = S.qref[n]; read_qn(*S.qn[m], o); break;
    }
    case K_QN_ASSIGN: {
      if (!S.qn[n] || !S.qn[m]) { o.ref = -2; break; }
      o.ref = S.qref[n]; try { *S.qn[m] = *S.qn[n]; } catch (...) { S.qn[m].reset(); throw; } S.qref[m] = S.qref[n]; read_qn(*S.qn[m], o); break;
    }
    case K_QN_DROP: S.qn[n].reset(); o.ref = -2; break;
    case K_QN_SHARED: {            // read, and copy, an object shared by all threads
      int s = op.slot % NSHARED; read_qn(*w->qn[s], o); QN c(*w->qn[s]); Outcome x; x.clear(); read_qn(c, x); if (x.hash != o.hash) putd(o, -1); break;
    }
#endif
#if HAVE_PACK
    case K_PK_MAKE: { S.pk[n].reset(); std::unique_ptr<PackN> p(new PackN(make_pk(op))); read_pk(*p, o); S.pk[n] = std::move(p); S.pref[n] = op.ref; break; }
    case K_PK_READ: if (!S.pk[n]) { o.ref = -2; break; } o.ref = S.pref[n]; read_pk(*S.pk[n], o); break;
    case K_PK_COPY: {
      if (!S.pk[n] || n == m) { o.ref = -2; break; }
      o.ref = S.pref[n]; S.pk[m].reset(); S.pk[m].reset(new PackN(*S.pk[n])); S.pref[m] = S.pref[n]; read_pk(*S.pk[m], o); break;
    }
    case K_PK_DERIVE: {            // build a result from a slot, destroy the operand, then use the result
      if (!S.pk[n]) { o.ref = -2; break; }
      auto r = *S.pk[n] + *S.pk[n]; int ref = S.pref[n]; S.pk[n].reset();
      auto back = r * 0.5; read_pk(back, o); o.ref = ref; break;
    }
    case K_PK_SPLIT: {             // copies and results are their owner's to change; flags: of a shared pack
      const PackN* p = op.flags >= 100 ? w->pk[op.slot % NSHARED].get() : S.pk[n].get();
      if (!p) { o.ref = -2; break; }
      if (op.flags < 100) o.ref = S.pref[n];
      PackN q(*p), z(*p); assign_pk(z, *p);
      auto s = *p + *p; auto d = *p * 2.0; auto e = *p - *p;
      change_pk(q, 7e7); change_pk(s, -5e5); change_pk(d, 3e3); change_pk(e, 1e1); change_pk(z, -9e9);
      read_pk(*p, o);
      check_pk(q, 7e7); check_pk(s, -5e5); check_pk(d, 3e3); check_pk(e, 1e1); check_pk(z, -9e9); break;
    }
    case K_PK_DROP: S.pk[n].reset(); o.ref = -2; break;
    case K_PK_SHARED: { int s = op.slot % NSHARED; read_pk(*w->pk[s], o); break; }
#endif
#if HAVE_FUN
    case K_FN_CALL: {
      int l = op.l < 0 || op.l > 4 ? 5 : (int)op.l;
      if (op.flags & 1) S.fn[l].reset();
      if (!S.fn[l]) S.fn[l].reset(new Fun(*w->fn[l]));
      auto a = (op.flags & 2) ? (*w->fn[l])(op.a) : (*S.fn[l])(op.a); putd(o, a[0]); putd(o, a[1]); break;
    }
#endif
    case K_KEEP: {
      Keep& k = S.keep[n]; o.ref = -2;     // value judged by the pure kinds; here only that it stays
      try {
        keep_call(op, k);
        k.h->out(o);
      } catch (...) { k.h.reset(); throw; }
      break;
    }
    case K_KEEP_READ: {
      Keep& k = S.keep[n]; o.ref = -2;
      if (!keep_same(k)) throw Changed{};
      break;
    }
    case K_KEEP_MODIFY: {
      Keep& k = S.keep[n]; o.ref = -2;
      try {
        if (k.h) k.h->modify(op);
      } catch (...) { k.h.reset(); throw; }
      break;
    }
    case K_KEEP_DROP: { Keep& k = S.keep[n]; k.h.reset(); o.ref = -2; break; }
    default: throw std::logic_error("harness: unknown kind");
  }
}

GLUE static uint32_t tname(const std::exception& e) {
  uint64_t h = 7; for (const char* p = typeid(e).name(); *p; ++p) h = mix(h, *p); return (uint32_t)h | 1;
}
void subject_exec(World* w, int tid, const Op& op, Outcome& o) {
  try {
    if (op.kind < K_PURE_END) pure(op, o); else stateful(w, tid, op, o);
    o.status = ST_VALUE;
  }
  catch (const CallerError&) { int r = o.ref; o.clear(); o.ref = r; o.status = ST_CALLER; }
  catch (const std::bad_alloc&) { int r = o.ref; o.clear(); o.ref = r; o.status = ST_NOMEM; }
  catch (const Unconverged&) { o.clear(); o.status = ST_OTHER; o.exc = 2; }
  catch (const Changed&) { o.clear(); o.status = ST_OTHER; o.ref = -3; }
  catch (const std::exception& e) { uint32_t n = tname(e); int r = o.ref; o.clear(); o.ref = r; o.status = ST_REJECT; o.exc = n; }
  catch (...) { int r = o.ref; o.clear(); o.ref = r; o.status = ST_OTHER; }
}

World* subject_world(int variant, int nthreads) {
  World* w = new World; w->nth = nthreads; w->t.reset(new Slots[nthreads + 1]);
  if (variant & 1) {
#if HAVE_FUN
    for (int l = 0; l < 6; ++l) w->fn[l].reset(new Fun(make_fn(l)));
#endif
#if HAVE_QN
    static const double S2[NSHARED][4] = {{0, 0.5, 0.5, 1}, {1, 1.5, 2.5, -1}, {2, 4, 3, 1}, {3, 3.5, 12.5, -1}};
    for (int i = 0; i < NSHARED; ++i) w->qn[i].reset(new QN((unsigned)S2[i][0], S2[i][1], S2[i][2], (short)S2[i][3]));
#endif
#if HAVE_PACK
    for (int i = 0; i < NSHARED; ++i) { Op op; op.a = 1.25 * i; op.b = i - 2.5; op.c = 100. / (i + 1); w->pk[i].reset(new PackN(make_pk(op, false))); }
#endif
  }
  return w;
}
bool subject_world_check(World* w, char* why, size_t n) {
  for (int t = 0; t <= w->nth; ++t) for (int i = 0; i < NSLOT; ++i)
    if (!keep_same(w->t[t].keep[i])) { snprintf(why, n, "a result retained by thread %d (slot %d) is not what its owner left in it", t, i); return false; }
  return true;
}
void subject_world_destroy(World* w) { delete w; }

const char* subject_kind_name(int k) {
  static const char* n[] = {"penetrability<neutron>", "shiftFactor<neutron>", "phaseShift<neutron>", "penetrability<charged>", "shiftFactor<charged>", "phaseShift<charged>",
    "penetrability<photon>", "shiftFactor<photon>", "phaseShift<photon>", "penetrability<fission>", "shiftFactor<fission>", "phaseShift<fission>",
    "coulombPhaseShift<charged>", "coulombPhaseShift<neutron>", "penetrationShift", "penetrationShift functor", "phaseShift", "channelSpins", "totalAngularMomenta(l,i,I)",
    "totalAngularMomenta(l,s)", "quantumNumbers", "pack<double>", "pack<Num>", "horner", "overload", "coulombWaveFunctions", "closed Coulomb functions"};
  static const char* m[] = {"quantumNumbers make", "quantumNumbers read", "quantumNumbers copy", "quantumNumbers assign", "quantumNumbers drop", "pack make", "pack read", "pack copy", "pack drop",
    "pack derive", "functor call", "keep result", "read kept result", "modify kept result", "drop kept result", "shared pack read", "shared quantumNumbers read", "pack copy and change"};
  if (k >= 0 && k < K_PURE_END) return n[k];
  if (k >= K_QN_MAKE && k < K_END) return m[k - K_QN_MAKE];
  return "?";
}

// The resonance data the simulated callers own, and how they read results.  Compiled against the stand-ins in ../stub.
#pragma once
#include "full_iface.h"
#include "resonanceReconstruction.hpp"
#define GLUE __attribute__((no_sanitize("thread"), noinline))


namespace rr = njoy::resonanceReconstruction;
using namespace dimwits;
using MT151 = njoy::ENDFtk::section::Type<2, 151>;
using Range = MT151::ResonanceRange;
using V = std::vector<double>;
using I = std::vector<int>;
#ifndef NO_DESC
#define HAVE_DESC 1
#else
#define HAVE_DESC 0
#endif

GLUE static void putd(Outcome& o, double v) { o.put(&v, 8); }
GLUE static void puts_(Outcome& o, const std::string& s) { o.put(s.data(), s.size()); char z = 0; o.put(&z, 1); }
template <class U> static void putq(Outcome& o, const Quantity<U>& q) { putd(o, q.value); }

// ---------------------------------------------------------------- data of the resonance ranges
static const double AWRI = 56.47;
static MT151::ScatteringRadius radius_table(double f, double top, int law = 2) {
  MT151::ScatteringRadius s;
  s.regions_ = {{V{1e-5, 40, 200}, V{.55 * f, .6 * f, .5 * f}}, {V{200, 350, top}, V{.5 * f, .64 * f, .7 * f}}};
  s.interpolants_ = {law, law == 2 ? 1 : law == 3 ? 4 : 2};
  return s;
}
using BR = MT151::BreitWignerLValue::Resonance<>;
template <class BW> static BW breit_wigner(int def, double f) {
  BW b; b.spi = .5; b.ap = .6 * f;
  bool fis = def == 1;
  MT151::BreitWignerLValue s; s.awri = AWRI; s.l = 0; s.lrx = def == 1; s.qx = def == 1 ? -35. : 0.;
  auto res = [&](double er, double aj, double gn, double gg, double gf, double gx) { s.resonances_.push_back(BR{er, aj, gn + gg + gf + gx, gn, gg, gf}); };
  if (def != 2) res(-12.5, 1, .3 * f, .4, 0, 0);
  res(5.5, 0, 2e-3 * f, .025, fis ? .01 : 0, s.lrx ? .005 : 0);
  res(36.7, 1, 3.4e-2 * f, .023, fis ? .02 : 0, 0);
  if (def != 2) res(120.25, 0, .8 * f, .1, 0, s.lrx ? .02 : 0);
  if (def != 2) res(121.75, 1, .5 * f, .12 * f, fis ? .03 : 0, 0);
  res(180., 1, 1.5 * f, .3, 0, 0);
  b.lvalues.push_back(s);
  if (def != 2 && def != 4) {
    s.resonances_.clear(); s.l = 1; s.lrx = def == 3; s.qx = def == 3 ? -50. : 0;
    res(10.24, 1, 1.6e-6 * f, .024, 0, 0); res(63.5, 0, 1e-5 * f, .02, 0, s.lrx ? .004 : 0); res(89.2, 2, 8e-5 * f, .024 * f, 0, 0); res(333., 2, 2e-3 * f, .02, 0, s.lrx ? .01 * f : 0);
    b.lvalues.push_back(s);
  }
  if (def == 3) { s.lrx = false; s.qx = 0; s.resonances_.clear(); s.l = 2; res(512., 2, 1e-6 * f, .02, 0, 0); res(730., 3, 2e-6 * f, .02, 0, 0); b.lvalues.push_back(s); }
  if (def == 1) { for (int l = 2; l < 5; ++l) { s.resonances_.clear(); s.l = l; res(500. + 40 * l, l, 1e-6 * f, .02, 0, 0); b.lvalues.push_back(s); } }
  return b;
}
static MT151::ReichMoore reich_moore(int def, double f) {
  MT151::ReichMoore r; r.spi = .5; r.ap = .61 * f; r.nlsc = def == 5 ? 3 : 2;
  using R = MT151::ReichMooreLValue::Resonance<>;
  MT151::ReichMooreLValue s; s.awri = AWRI; s.apl = def == 5 ? .58 * f : 0; s.l = 0;
  if (def == 5) s.resonances_.push_back(R{-3.2, 0, 1e-2 * f, .04, .1, -.05});
  s.resonances_.push_back(R{6.68, 0, 1.5e-3 * f, .023, def == 5 ? .002 : 0, 0});
  s.resonances_.push_back(R{36.7, 1, 3.4e-2 * f, .023, def == 5 ? -.02 : 0, def == 5 ? .01 * f : 0});
  s.resonances_.push_back(R{121., 1, .6 * f, .05, 0, def == 5 ? .2 : 0});
  r.lvalues.push_back(s);
  s.resonances_.clear(); s.l = 1; s.apl = def == 6 ? .57 * f : 0;
  s.resonances_ = {R{10.24, 1, 1.6e-6 * f, .024, 0, 0}, R{63.5, -1, 1e-5 * f, .02 * f, 0, 0}, R{145., 2, 8e-4 * f, .024, 0, def == 5 ? .01 * f : 0}};
  r.lvalues.push_back(s);
  if (def == 5) { s.l = 2; s.resonances_ = {R{420., 2, 1e-5 * f, .03, 0, 0}, R{610., 3, 2e-5 * f, .03, 0, 0}}; r.lvalues.push_back(s); }
  return r;
}
static MT151::RMatrixLimited rmatrix_limited(int def, double f) {
  MT151::RMatrixLimited r; r.krm = 3; r.ifg = def == 8;
  auto& p = r.pairs;
  p.ma = {0, 1, 1, .9986}; p.mb = {AWRI + 1, AWRI, AWRI, AWRI}; p.za = {0, 0, 0, 1}; p.zb = {26, 26, 26, 25};
  p.ia = {1, .5, .5, .5}; p.ib = {0, 0, 0, 0}; p.pa = {0, 0, 0, 0}; p.pb = {1, 1, 1, 1};
  p.q = {7.8e6, 0, -180., 2.5e6}; p.shf = I(4, def == 8); p.mt = {102, 2, 51, 103};
  bool fis = def == 8;
  if (fis) { p.ma.push_back(1); p.mb.push_back(AWRI); p.za.push_back(0); p.zb.push_back(26); p.ia.push_back(.5); p.ib.push_back(0); p.pa.push_back(0); p.pb.push_back(1); p.q.push_back(0); p.mt.push_back(f == 1 ? 18 : f < 1.1 ? 19 : f < 1.2 ? 38 : 20); p.shf.push_back(1); }
  auto group = [&](double aj, int pj, int l, std::vector<double> er, double g) {
    MT151::RMatrixLimited::SpinGroup s;
    s.c.aj = aj; s.c.pj = pj; s.c.ppi = {1, 2, 3, 4}; s.c.l = {0, l, l, l}; s.c.sch = {0, .5, .5, .5};
    s.c.bnd = def == 8 ? V{0, -double(l), -double(l) * f, -.2} : V{0, 0, 0, 0};
    s.c.ape = {0, .6 * f, .55, .62}; s.c.apt = {0, .58 * f, .55, .62 * f};
    if (fis) { s.c.ppi.push_back(5); s.c.l.push_back(l); s.c.sch.push_back(.5); s.c.bnd.push_back(0); s.c.ape.push_back(.6); s.c.apt.push_back(.6); }
    s.p.er = er;
    for (size_t i = 0; i < er.size(); ++i) s.p.gam.push_back(V{.2 + .05 * i, g * f * (1 + .3 * i), i % 2 ? -.01 * f : .02, i % 3 == 1 ? 0 : .004 * f}), fis ? s.p.gam.back().push_back(.003 * f * (1. + i)) : void();
    r.groups.push_back(s);
  };
  group(.5, 0, 0, {-20.5, 36.7, 120.25, 410.}, .3);
  group(-.5, 0, 1, {63.5, 250.}, 1e-3);
  if (def == 7) group(-1.5, 0, 1, {}, 1e-3), group(1.5, 0, 2, {512.}, 0); else group(-1.5, 0, 1, {89.2, 700.}, 2e-3);
  return r;
}
template <class J> static J dof(double aj, int n) { J j{}; j.amun = n; j.amug = 0; j.amuf = aj > .6 ? 2 : 0; j.amux = aj > .6 ? 1 : 0; j.aj = aj; return j; }
static Range make_range(int def, int var) {
  double f = 1 + .07 * var;
  Range r; r.el = 1e-5; r.eh = 1000; r.lru = 1; r.lrf = 1; r.nro = 0; r.naps = 0;
  switch (def) {
    case 0: r.par = breit_wigner<MT151::SingleLevelBreitWigner>(def, f); break;
    case 1: r.naps = 1; r.par = breit_wigner<MT151::SingleLevelBreitWigner>(def, f); break;
    case 2: r.nro = 1; r.sr = radius_table(f, 600, 2); r.par = breit_wigner<MT151::SingleLevelBreitWigner>(def, f); break;
    case 3: r.lrf = 2; r.naps = 1; r.par = breit_wigner<MT151::MultiLevelBreitWigner>(def, f); break;
    case 4: r.lrf = 2; r.nro = 1; r.naps = 2; r.sr = radius_table(f, 600, 5); r.par = breit_wigner<MT151::MultiLevelBreitWigner>(def, f); break;
    case 5: r.lrf = 3; r.par = reich_moore(def, f); break;
    case 6: r.lrf = 3; r.nro = 1; r.naps = 1; r.sr = radius_table(f, 600, 3); r.par = reich_moore(def, f); break;
    case 7: case 8: r.lrf = 7; r.par = rmatrix_limited(def, f); break;
    case 9: {                                            // unresolved, energy independent
      MT151::UnresolvedEnergyIndependent u; u.spi = .5; u.ap = .6 * f; r.lru = 2; r.el = 20; r.eh = 20000;
      using J = MT151::UnresolvedEnergyIndependent::JValue<>;
      for (int l = 0; l < 3; ++l) {
        MT151::UnresolvedLValue<J> s; s.awri = AWRI; s.l = l;
        for (int k = 0; k < 2; ++k) { J j = dof<J>(l + k, 1 + k); j.d = 120 * f; j.gn = .02 * f; j.gg = .4; j.gf = k && l ? .1 : 0; j.gx = k ? .01 : 0; s.j.push_back(j); }
        u.lvalues.push_back(s);
      }
      r.par = u; break;
    }
    case 10: {                                           // energy dependent fission widths
      MT151::UnresolvedEnergyDependentFissionWidths u; u.spi = .5; u.ap = .6 * f; u.es = {20, 100, 250, 1000, 20000}; r.lru = 2; r.el = 20; r.eh = 20000; r.naps = 1;
      using J = MT151::UnresolvedEnergyDependentFissionWidths::JValue;
      for (int l = 0; l < 2; ++l) {
        MT151::UnresolvedLValue<J> s; s.awri = AWRI; s.l = l;
        for (int k = 0; k < 2; ++k) { J j = dof<J>(l + k, 1 + (k & l)); j.amuf = 1 + k; j.d = 80 * f; j.gn = .03; j.gg = .35 * f; j.gx = 0; j.gf = {.1, .2 * f, .15, .3, .25}; s.j.push_back(j); }
        u.lvalues.push_back(s);
      }
      r.par = u; break;
    }
    case 11: case 12: {                                  // all parameters energy dependent
      MT151::UnresolvedEnergyDependent u; u.spi = .5; u.ap = .6 * f; r.lru = 2; r.lrf = 2; r.el = 20; r.eh = 20000;
      if (def == 11) r.eh = 30000;                           // beyond the tables of parameters
      if (def == 12) { r.nro = 1; r.naps = 1; r.sr = radius_table(f, 600, 2); r.eh = 1000; }
      using J = MT151::UnresolvedEnergyDependent::JValue;
      for (int l = 0; l < 2; ++l) {
        MT151::UnresolvedLValue<J> s; s.awri = AWRI; s.l = l;
        for (int k = 0; k < 2; ++k) {
          J j = dof<J>(l + k, 1 + (k & l)); j.es = {20, 150, 400, 1000, 20000}; if (def == 11 && k) j.es = {20, 90, 350, 1200, 20000};
          j.d = {100, 90 * f, 80, 60, 20}; j.gn = {.02, .021, .022 * f, .02, .02}; j.gg = {.3, .31, .32, .33 * f, .34}; j.gf = k ? V{.1, .2, .1, .2, .1} : V{0, 0, 0, 0, 0}; j.gx = k ? V{0, 0, 0, .02 * f, .05} : V{0, 0, 0, 0, 0};
          s.j.push_back(j);
        }
        u.lvalues.push_back(s);
      }
      r.par = u; break;
    }
    default: throw std::logic_error("harness: unknown definition");
  }
  return r;
}


constexpr auto neutronMass = 1.008664 * daltons;
constexpr auto e0 = dimwits::constant::elementaryCharge;

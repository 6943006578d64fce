// Reconstructors built from resonance ranges.
#include "full_systems.h"
struct Rec : Base<rm::Reconstructor> {
  using D = rm::Reconstructor;
  using Base<D>::Base;
#ifndef NO_COPY
  ISys* clone() const override { return new Rec(D(d)); }
#else
  ISys* clone() const override { throw Skip{}; }
#endif
  ISys* taken() override { return new Rec(std::move(d)); }
  void eval(double a, Outcome& o) override { auto m = d(eV(a)); put_map(m, o); }
  IKept* keep(int what, double a) override {
    switch (what) {
      case 0: return new Kept<decltype(d(eV(a)))>([&]() -> decltype(auto) { return d(eV(a)); });
      case 1: return keep_grid();
      case 2: return std::visit([&](auto& s) { return keep_tmatrix(s, a); }, d.compoundSystem());
      default: return std::visit([&](auto& s) { return keep_groups(s, a); }, d.compoundSystem());
    }
  }
  void tmat(double a, Outcome& o) override { std::visit([&](auto& s) { tmatrix(s, a, o); }, d.compoundSystem()); }
  void desc(double a, Outcome& o) const override {
    putq(o, d.lowerEnergy()); putq(o, d.upperEnergy());
    D& m = const_cast<D&>(d);                            // the accessors below are not const, but only read
    putd(o, m.isResolved()); putd(o, m.isUnresolved());
    std::visit([&](const auto& s) { describe_system(s, a, o); }, m.compoundSystem());
  }
};
static ISys* from_range(const Range& r) { return new Rec(rm::fromENDF(r, neutronMass, e0, rm::ParticleID("n"), rm::ParticleID("Fe56"))); }
bool endf_available(int k) { return k == K_DESC ? HAVE_DESC : true; }
ISys* endf_build(int def, int var) { return from_range(make_range(def, var)); }
void endf_case(int c, Outcome& o) {
    Range r;
    switch (c) {
      case 24: r = make_range(0, 0); r.lru = 0; break;
      case 25: r = make_range(0, 0); r.lrf = 2; break;
      case 26: r = make_range(3, 0); r.lrf = 3; break;
      case 27: r = make_range(0, 0); r.lrf = 4; break;
      case 28: r = make_range(7, 0); std::get<MT151::RMatrixLimited>(r.par).krm = 4; break;
      case 29: r = make_range(7, 0); std::get<MT151::RMatrixLimited>(r.par).krm = 1; break;
      case 30: r = make_range(2, 0); r.naps = 5; break;
      case 31: r = make_range(6, 0); r.sr->interpolants_[1] = 6; break;
      case 32: r = make_range(4, 0); r.sr->regions_[0].second.pop_back(); break;
      case 33: r = make_range(2, 0); std::get<MT151::SingleLevelBreitWigner>(r.par).lvalues[0].resonances_[1].aj = 7; break;
      case 34: r = make_range(5, 0); std::get<MT151::ReichMoore>(r.par).lvalues[1].resonances_[1].aj = 2.5; break;
      case 35: r = make_range(2, 0); std::get<MT151::SingleLevelBreitWigner>(r.par).lvalues[0].resonances_[1].er = -4; r.naps = 1; break;     // outside the radius table
      case 36: r = make_range(11, 0); { auto& u = std::get<MT151::UnresolvedEnergyDependent>(r.par); auto& j = u.lvalues[1].j[1]; j.es.resize(1); j.d.resize(1); j.gn.resize(1); j.gg.resize(1); j.gf.resize(1); j.gx.resize(1); } break;
      case 37: r = make_range(9, 0); r.par = MT151::SpecialCase{.5, .6}; break;
      case 38: r = make_range(7, 0); std::get<MT151::RMatrixLimited>(r.par).pairs.za[3] = -1; break;
      case 39: r = make_range(7, 0); std::get<MT151::RMatrixLimited>(r.par).groups.clear(); break;
      case 40: r = make_range(11, 0); std::get<MT151::UnresolvedEnergyDependent>(r.par).lvalues[1].j[1].aj = 1; break;           // the same l, J twice
      case 41: r = make_range(0, 0); r.nro = 0; r.naps = 1; break;                                                            // accepted
      case 42: r = make_range(5, 0); std::get<MT151::ReichMoore>(r.par).nlsc = 4; break;                                      // accepted
      case 43: r = make_range(3, 0); { auto& b = std::get<MT151::MultiLevelBreitWigner>(r.par); MT151::BreitWignerLValue s; s.awri = AWRI; s.qx = 0; s.lrx = false; for (int l = 3; l < 6; ++l) { s.l = l; s.resonances_ = {BR{600., double(l), .03, .001, .029, 0}}; b.lvalues.push_back(s); } } break;   // l = 5
      case 80: r = make_range(3, 0); std::get<MT151::MultiLevelBreitWigner>(r.par).lvalues[1].resonances_.back().aj = 4; break;
      case 81: r = make_range(8, 0); { auto& g = std::get<MT151::RMatrixLimited>(r.par).groups; g.push_back(g[0]); } break;         // the same J, pi twice
      case 82: r = make_range(11, 0); std::get<MT151::UnresolvedEnergyDependent>(r.par).lvalues[1].j[1].amuf = 5; break;
      case 83: r = make_range(12, 0); r.sr->interpolants_[1] = 0; break;
      case 84: r = make_range(7, 0); std::get<MT151::RMatrixLimited>(r.par).pairs.ma[3] = -1; break;
      case 85: r = make_range(3, 0); { auto& b = std::get<MT151::MultiLevelBreitWigner>(r.par); b.lvalues.push_back(b.lvalues[0]); } break;    // the same l, J twice
      case 86: r = make_range(12, 0); r.nro = 0; r.sr.reset(); r.naps = 0; break;                                                    // accepted
      case 87: r = make_range(6, 0); std::get<MT151::ReichMoore>(r.par).lvalues[0].resonances_.back().aj = 1.5; break;
    }
    std::unique_ptr<ISys> s(from_range(r)); s->grid(o); s->desc(50, o);
    return;
}

// Channels, and compound systems built from them directly.
#include "full_systems.h"
template <class D> struct Sys : Base<D> {
  using Base<D>::Base; using Base<D>::d;
#ifndef NO_COPY
  ISys* clone() const override { return new Sys(D(d)); }
#else
  ISys* clone() const override { throw Skip{}; }
#endif
  ISys* taken() override { return new Sys(std::move(d)); }
  void eval(double a, Outcome& o) override { std::map<rm::ReactionID, rr::CrossSection> m; d.evaluate(eV(a), m); put_map(m, o); }
  IKept* keep(int what, double a) override {
    switch (what) {
      case 0: return new Filled<std::map<rm::ReactionID, rr::CrossSection>>([&](auto& m) { d.evaluate(eV(a), m); });
      case 1: return this->keep_grid();
      case 2: return keep_tmatrix(d, a);
      default: return keep_groups(d, a);
    }
  }
  void tmat(double a, Outcome& o) override { tmatrix(d, a, o); }
  void desc(double a, Outcome& o) const override { describe_system(d, a, o); }
};
static rm::ChannelRadiusTable make_radius(double f) {
  auto s = radius_table(f, 600, 2);
  auto t = rm::makeChannelRadiusTable(std::optional<MT151::ScatteringRadius>(s));
  return t.value();
}
struct Pairs { rm::ParticlePair in, p, g, x; };
static Pairs make_pairs(double f) {
  rm::Particle n("n", neutronMass, 0.0 * coulombs, .5, +1), t("Fe56", AWRI * neutronMass * f, 26. * e0, 0., +1);
  rm::Particle pr("p", 1.007276 * daltons, e0, .5, +1), mn("Mn56", AWRI * neutronMass, 25. * e0, 0., +1);
  rm::Particle ga("photon", 0.0 * daltons, 0.0 * coulombs, 1., +1), fe("Fe57", (AWRI + 1) * neutronMass, 26. * e0, .5, -1);
  return {rm::ParticlePair(n, t), rm::ParticlePair(pr, mn), rm::ParticlePair(ga, fe), rm::ParticlePair(n, t, rm::ParticlePairID("fission"))};
}
static rm::ChannelRadii radii_for(int which, double f, const rm::ChannelRadiusTable* t) {
  const rr::ChannelRadius a = .58 * f * rr::rootBarn;
  if (which == 0 || !t) return rm::ChannelRadii(a);
  if (which == 1) return rm::ChannelRadii(a, *t);
  if (which == 3) return rm::ChannelRadii(a, *t, 1.1 * a);
  return rm::ChannelRadii(*t);
}
static rm::ParticleChannel make_channel(int c, const Pairs& P, const rm::ChannelRadiusTable* t, double f) {
  auto q = [](unsigned l, double s, double J) { return rm::ChannelQuantumNumbers(l, s, J, l % 2 ? -1 : +1); };
  switch (c) {
    case 0: return rm::Channel<rm::Neutron>(P.in, P.in, eV(0), q(0, .5, .5), radii_for(0, f, t));
    case 1: return rm::Channel<rm::Neutron>(P.in, P.in, eV(0), q(1, .5, .5), radii_for(1, f, t));
    case 2: return rm::Channel<rm::Neutron>(P.in, P.in, eV(0), q(2, .5, 1.5), radii_for(2, f, t));
    case 3: return rm::Channel<rm::Neutron>(P.in, P.in, eV(-180), q(3, .5, 2.5), radii_for(0, f, t), -1.5);
    case 4: return rm::Channel<rm::Neutron>(P.in, P.in, "named", eV(0), q(4, .5, 3.5), radii_for(3, f, t));
    case 5: return rm::Channel<rm::ChargedParticle>(P.in, P.p, eV(2.5e6), q(0, .5, .5), radii_for(0, f, t));
    case 6: return rm::Channel<rm::ChargedParticle>(P.in, P.p, eV(2.5e6), q(1, .5, .5), radii_for(1, f, t));
    case 7: return rm::Channel<rm::ChargedParticle>(P.p, P.p, eV(0), q(2, .5, 1.5), radii_for(2, f, t));
    case 8: return rm::Channel<rm::Photon>(P.in, P.g, eV(7.8e6), q(0, .5, .5), radii_for(0, f, t));
    case 9: return rm::Channel<rm::Photon>(P.in, P.g, eV(7.8e6), q(1, 1.5, .5), radii_for(1, f, t));
    case 10: return rm::Channel<rm::Fission>(P.in, P.x, "fission1", eV(0), q(0, 0, .5), radii_for(0, f, t));
    case 11: return rm::Channel<rm::Fission>(P.in, P.x, "fission2", eV(0), q(1, 0, .5), radii_for(2, f, t));
    case 12: return rm::Channel<rm::Neutron>(P.in, P.in, eV(0), q(5, .5, 4.5), radii_for(0, f, t));        // not supported: l = 5
    default: return rm::Channel<rm::ChargedParticle>(P.in, P.p, eV(2.5e6), q(60, .5, 60.5), radii_for(0, f, t));   // not supported
  }
}
static void read_channel(const rm::ParticleChannel& c, double a, Outcome& o) {
  std::visit([&](const auto& x) {
    auto E = eV(a);
    puts_(o, x.channelID()); puts_(o, x.reactionID().symbol()); puts_(o, x.particlePair().pairID().symbol()); puts_(o, x.incidentParticlePair().pairID().symbol());
    puts_(o, x.quantumNumbers().toString()); putq(o, x.Q()); putd(o, x.boundaryCondition()); putd(o, x.statisticalSpinFactor()); putd(o, x.isIncidentChannel());
    putq(o, x.particlePair().reducedMass()); putd(o, x.particlePair().massRatio()); putq(o, x.particlePair().particle().mass()); putq(o, x.particlePair().residual().charge());
    putd(o, x.belowThreshold(E)); putq(o, x.waveNumber(E)); putd(o, x.sommerfeldParameter(E));
    putq(o, x.radii().penetrabilityRadius(E)); putq(o, x.radii().shiftFactorRadius(E)); putq(o, x.radii().phaseShiftRadius(E));
    putd(o, x.penetrability(E)); putd(o, x.shiftFactor(E)); putd(o, x.phaseShift(E)); putd(o, x.coulombPhaseShift(E));
  }, c);
}
using RM = rm::ReichMoore;
static std::vector<rm::ParticleChannelData> channel_data(double f, const rm::ChannelRadiusTable* t, const Pairs& P) {
  std::vector<rm::ParticleChannelData> d;
  auto add = [&](int c, std::vector<double> e, std::vector<double> g, bool el) {
    std::vector<rr::Energy> es; std::vector<RW> ws; for (double x : e) es.push_back(eV(x)); for (double x : g) ws.push_back(rw(x * f));
    d.emplace_back(make_channel(c, P, t, f), std::move(es), std::move(ws), el);
  };
  add(0, {36.7, 120.25}, {.4, .8}, false); add(5, {36.7}, {.05}, false); add(8, {36.7, 120.25}, {.15, .2}, true);
  add(1, {63.5, 250., 333.}, {.5, .6, -.7}, false); add(11, {63.5, 333.}, {.1, .12}, false); add(9, {63.5, 250.}, {.15, .16}, true);
  add(2, {}, {}, false);
  return d;
}
static rm::ResonanceTable table_for(const std::vector<rm::ParticleChannel>& c, double f) {
  std::vector<rm::ChannelID> ids; for (auto& x : c) ids.push_back(std::visit([](auto& y) { return y.channelID(); }, x));
  std::vector<rm::Resonance> rs;
  for (int k = 0; k < 4; ++k) { std::vector<RW> w; for (size_t i = 0; i < c.size(); ++i) w.push_back(rw((i + 1) * .17 * f * (k % 2 ? -1 : 1) + .01 * k)); rs.emplace_back(eV(5.5 + 115 * k), std::move(w), rw(.15)); }
  return rm::ResonanceTable(std::move(ids), std::move(rs));
}
template <class B> static rm::SpinGroup<RM, B> spin_group(std::vector<rm::ParticleChannel> c, double f) { auto t = table_for(c, f); return rm::SpinGroup<RM, B>(std::move(c), std::move(t)); }
struct Radius : IRadius { rm::ChannelRadiusTable t; explicit Radius(rm::ChannelRadiusTable&& x) : t(std::move(x)) {} };
struct Chan : IChan { rm::ParticleChannel c; explicit Chan(rm::ParticleChannel&& x) : c(std::move(x)) {} void read(double a, Outcome& o) const override { read_channel(c, a, o); } IChan* clone() const override { return new Chan(rm::ParticleChannel(c)); } };
bool direct_available(int k) { return k == K_DESC ? HAVE_DESC : true; }
IRadius* direct_radius() { return new Radius(make_radius(1)); }
IChan* direct_channel(int c, const IRadius* r) {
  Pairs P = make_pairs(1); rm::ChannelRadiusTable t = r ? static_cast<const Radius*>(r)->t : make_radius(1);
  return new Chan(make_channel(c, P, &t, 1));
}
ISys* direct_build(int def, int var, const IRadius* r) {
  double f = 1 + .07 * var;
  // the channels of these share one table of radii, the caller's or their own
  rm::ChannelRadiusTable t = r && var == 0 ? static_cast<const Radius*>(r)->t : make_radius(f);
  Pairs P = make_pairs(1.);
  switch (def) {
    case 13: return new Sys<rm::CompoundSystem<RM, rm::ShiftFactor>>(rm::CompoundSystem<RM, rm::ShiftFactor>(channel_data(f, &t, P)));
    case 14: return new Sys<rm::CompoundSystem<RM, rm::Constant>>(rm::CompoundSystem<RM, rm::Constant>(channel_data(f, &t, P)));
    case 15: {
      std::vector<rm::SpinGroup<RM, rm::ShiftFactor>> g;
      g.push_back(spin_group<rm::ShiftFactor>({make_channel(0, P, &t, f), make_channel(5, P, &t, f), make_channel(10, P, &t, f)}, f));
      g.push_back(spin_group<rm::ShiftFactor>({make_channel(1, P, &t, f)}, f));
      g.push_back(spin_group<rm::ShiftFactor>({make_channel(2, P, &t, f)}, f));
      return new Sys<rm::CompoundSystem<RM, rm::ShiftFactor>>(rm::CompoundSystem<RM, rm::ShiftFactor>(std::move(g)));
    }
    case 16: {
      std::vector<rm::SpinGroup<RM, rm::Constant>> g;
      g.push_back(spin_group<rm::Constant>({make_channel(1, P, &t, f), make_channel(6, P, &t, f)}, f));
      g.push_back(spin_group<rm::Constant>({make_channel(0, P, &t, f)}, f));
      return new Sys<rm::CompoundSystem<RM, rm::Constant>>(rm::CompoundSystem<RM, rm::Constant>(std::move(g)));
    }
  }
  throw std::logic_error("harness: unknown definition");
}
void direct_case(int c, Outcome& o) {
  double f = 1;
    rm::ChannelRadiusTable t = make_radius(f); Pairs P = make_pairs(f);
    auto C = [&](int i) { return make_channel(i, P, &t, f); };
    using G = rm::SpinGroup<RM, rm::ShiftFactor>;
    switch (c) {
      case 0: { rm::Particle p("n", neutronMass, e0, .5, +1); puts_(o, p.particleID().symbol()); putq(o, p.mass()); putq(o, p.charge()); putd(o, p.spin()); putd(o, p.parity()); return; }
      case 1: { rm::Particle p("n", -1. * neutronMass, e0, .5, +1); return; }
      case 2: { rm::Particle p("n", neutronMass, -1. * e0, .5, +1); return; }
      case 3: { std::vector<RW> w{rw(1)}; std::vector<rm::Resonance> r; r.emplace_back(eV(5), std::move(w), rw(.1)); rm::ResonanceTable x({"a", "b"}, std::move(r)); return; }
      case 4: { rm::ParticleChannelData x(C(0), {eV(1), eV(2)}, {rw(1)}); return; }
      case 5: { std::vector<rm::ParticleChannel> v; rm::ResonanceTable x({}, {}); G g(std::move(v), std::move(x)); return; }
      case 6: { auto g = spin_group<rm::ShiftFactor>({C(0), C(0)}, f); return; }
      case 7: { auto g = spin_group<rm::ShiftFactor>({C(0), C(1)}, f); return; }
      case 8: { auto g = spin_group<rm::ShiftFactor>({C(2), C(7)}, f); return; }
      case 9: { auto g = spin_group<rm::ShiftFactor>({C(5), C(10)}, f); return; }
      case 10: { std::vector<rm::ParticleChannel> a{C(0), C(5)}, b{C(5), C(0)}; auto x = table_for(b, f); G g(std::move(a), std::move(x)); return; }
      case 11: { std::vector<rm::ParticleChannel> a{C(0), C(5)}, b{C(0)}; auto x = table_for(b, f); G g(std::move(a), std::move(x)); return; }
      case 12: { std::vector<G> v; rm::CompoundSystem<RM, rm::ShiftFactor> s(std::move(v)); return; }
      case 13: { std::vector<G> v; v.push_back(spin_group<rm::ShiftFactor>({C(0)}, f)); v.push_back(spin_group<rm::ShiftFactor>({C(0), C(5)}, f)); rm::CompoundSystem<RM, rm::ShiftFactor> s(std::move(v)); return; }
      case 14: {
#if HAVE_DESC
        for (const auto& x : channel_data(f, &t, P)) { puts_(o, x.channelID()); puts_(o, x.reactionID().symbol()); puts_(o, x.quantumNumbers().toString()); puts_(o, x.incidentParticlePair().pairID().symbol()); puts_(o, x.particlePair().pairID().symbol()); putq(o, x.radii().phaseShiftRadius(eV(50))); putq(o, x.Q()); putd(o, x.boundaryCondition()); putd(o, x.isIncidentChannel()); putd(o, x.isEliminatedChannel()); for (const auto& e : x.energies()) putq(o, e); for (const auto& w : x.widths()) putq(o, w); }
#endif
        rm::CompoundSystem<RM, rm::ShiftFactor> s(channel_data(f, &t, P)); put_grid(s.grid(), o); return; }
      case 15: { auto d = channel_data(f, &t, P); d.emplace_back(rm::Channel<rm::Photon>(P.in, P.g, "other", eV(7.8e6), rm::ChannelQuantumNumbers(0, .5, .5, +1), rm::ChannelRadii(.5 * rr::rootBarn)), std::vector<rr::Energy>{eV(5)}, std::vector<RW>{rw(.1)}, true); rm::CompoundSystem<RM, rm::ShiftFactor> s(std::move(d)); return; }
      case 16: { std::vector<rm::ParticleChannelData> d; rm::CompoundSystem<RM, rm::ShiftFactor> s(std::move(d)); return; }
      case 17: { std::vector<lg::resolved::SpinGroup<rm::SingleLevelBreitWigner>> g; lg::resolved::CompoundSystem<rm::SingleLevelBreitWigner> s(std::move(g)); return; }
      case 18: { std::vector<lg::unresolved::SpinGroup> g; lg::unresolved::CompoundSystem s(std::move(g)); return; }
      case 19: { rm::Channel<rm::Neutron> x = std::get<rm::Channel<rm::Neutron>>(C(0)); std::vector<lg::unresolved::Resonance> r; r.emplace_back(eV(1), eV(1), rw(1), eV(1), eV(0), eV(0)); lg::unresolved::ResonanceTable q(std::move(r), {1, 0, 0, 0}); return; }
      case 20: { std::vector<lg::unresolved::Resonance> r; for (double e : {1., 50., 500.}) r.emplace_back(eV(e), eV(10), rw(.02), eV(.3), eV(.1), eV(0)); lg::unresolved::ResonanceTable q(std::move(r), {1, 0, 2, 0});
                 lg::unresolved::SpinGroup g(std::get<rm::Channel<rm::Neutron>>(C(0)), std::move(q)); describe_system(lg::unresolved::CompoundSystem({g}), 10, o); return; }
      case 21: { std::vector<lg::unresolved::Resonance> r; for (double e : {1., 500.}) r.emplace_back(eV(e), eV(10), rw(.02), eV(.3), eV(.1), eV(0)); lg::unresolved::ResonanceTable q(std::move(r), {1, 0, 2, 0});
                 lg::unresolved::SpinGroup g(std::get<rm::Channel<rm::Neutron>>(C(0)), std::move(q)); lg::unresolved::CompoundSystem s({g, g}); return; }
      case 22: { std::vector<rm::ParticleChannel> v; v.push_back(C(0)); v.push_back(C(10)); v.push_back(C(5)); auto g = spin_group<rm::Constant>(v, f); put_grid(g.grid(), o); return; }
      case 23: { lg::resolved::Resonance r(eV(5), eV(.1), eV(.2), eV(.3), eV(.4), .5, .25, -1.);
#if HAVE_DESC
                 describe_resonance(r, o);
#endif
                 return; }
      // the fault is not in the first two of what is given
      case 60: { auto g = spin_group<rm::ShiftFactor>({C(0), C(10), C(0)}, f); return; }
      case 61: { auto g = spin_group<rm::ShiftFactor>({C(10), C(5), C(0), C(5)}, f); return; }
      case 62: { auto g = spin_group<rm::ShiftFactor>({C(0), C(5), C(1)}, f); return; }
      case 63: { auto g = spin_group<rm::ShiftFactor>({C(0), C(10), C(2)}, f); return; }
      case 64: { auto g = spin_group<rm::ShiftFactor>({C(0), C(10), rm::Channel<rm::ChargedParticle>(P.p, P.p, eV(0), rm::ChannelQuantumNumbers(0, .5, .5, +1), rm::ChannelRadii(.5 * rr::rootBarn))}, f); return; }
      case 65: { std::vector<rm::ParticleChannel> a{C(0), C(5), C(10)}, b{C(0), C(5), C(8)}; auto x = table_for(b, f); G g(std::move(a), std::move(x)); return; }
      case 66: case 67: { std::vector<rm::Resonance> r; for (size_t k = 0; k < 4; ++k) { std::vector<RW> w(k < 3 ? 2 : c == 66 ? 1 : 3, rw(.1)); r.emplace_back(eV(5 + k), std::move(w), rw(.1)); } rm::ResonanceTable x({"a", "b"}, std::move(r)); return; }
      case 68: { std::vector<G> v; v.push_back(spin_group<rm::ShiftFactor>({C(0)}, f)); v.push_back(spin_group<rm::ShiftFactor>({C(1)}, f)); v.push_back(spin_group<rm::ShiftFactor>({C(0), C(5)}, f)); rm::CompoundSystem<RM, rm::ShiftFactor> s(std::move(v)); return; }
      case 69: { rm::ParticleChannelData x(C(0), {eV(1), eV(2)}, {rw(1), rw(2), rw(3)}); return; }
      case 70: case 71: case 72: case 73: { std::vector<lg::unresolved::Resonance> r; for (double e : {1., 500.}) r.emplace_back(eV(e), eV(10), rw(.02), eV(.3), eV(.1), eV(0)); lg::unresolved::ResonanceTable q(std::move(r), {c == 70 ? 5u : 1u, c == 71 ? 5u : 0u, c == 72 ? 5u : 1u, c == 73 ? 5u : 0u}); return; }
      case 74: { auto d = channel_data(f, &t, P); d.emplace_back(rm::Channel<rm::Photon>(P.in, P.g, "other", eV(7.8e6), rm::ChannelQuantumNumbers(1, .5, .5, -1), rm::ChannelRadii(.5 * rr::rootBarn)), std::vector<rr::Energy>{eV(5)}, std::vector<RW>{rw(.1)}, true); rm::CompoundSystem<RM, rm::Constant> s(std::move(d)); return; }
      case 75: { rm::Particle p("n", neutronMass, -1e-30 * e0, .5, +1); return; }
      case 76: { auto g = [&](int k) { std::vector<lg::unresolved::Resonance> r; for (double e : {1., 500.}) r.emplace_back(eV(e), eV(10), rw(.02), eV(.3), eV(.1), eV(0)); lg::unresolved::ResonanceTable q(std::move(r), {1, 0, 2, 0}); return lg::unresolved::SpinGroup(std::get<rm::Channel<rm::Neutron>>(C(k)), std::move(q)); };
                 lg::unresolved::CompoundSystem s({g(0), g(1), g(0)}); return; }
      case 77: { auto g = [&](int k) { std::vector<lg::resolved::Resonance> r; r.emplace_back(eV(5), eV(.1), eV(.2), eV(.3), eV(.4), .5, .25, -1.); return lg::resolved::SpinGroup<rm::MultiLevelBreitWigner>(std::get<rm::Channel<rm::Neutron>>(C(k)), lg::resolved::ResonanceTable(std::move(r)), eV(0)); };
                 std::vector<lg::resolved::SpinGroup<rm::MultiLevelBreitWigner>> v; v.push_back(g(0)); v.push_back(g(1)); v.push_back(g(2)); v.push_back(g(1)); lg::resolved::CompoundSystem<rm::MultiLevelBreitWigner> s(std::move(v)); return; }
      case 78: { auto g = spin_group<rm::ShiftFactor>({C(5), C(10), C(8)}, f); return; }
      case 88: case 89: { auto ch = [&](double j, int l) { return rm::Channel<rm::Neutron>(P.in, P.in, eV(0), rm::ChannelQuantumNumbers(l, 1, j, l % 2 ? -1 : +1), rm::ChannelRadii(.5 * rr::rootBarn)); };
                 std::vector<G> v; v.push_back(spin_group<rm::ShiftFactor>({ch(1, 0)}, f)); v.push_back(spin_group<rm::ShiftFactor>({ch(2, 1)}, f)); v.push_back(spin_group<rm::ShiftFactor>({ch(c == 88 ? 2 : 1, 1)}, f)); rm::CompoundSystem<RM, rm::ShiftFactor> s(std::move(v)); put_grid(s.grid(), o); return; }
      case 90: { rm::ChannelRadiusTable a = make_radius(1.), b = make_radius(1.07), d = a; a = b; b = std::move(d); putq(o, a(eV(50))); putq(o, b(eV(50))); return; }
      case 79: { auto g = spin_group<rm::ShiftFactor>({C(5), C(10), C(0)}, f); put_grid(g.grid(), o); std::map<rm::ReactionID, rr::CrossSection> m; g.evaluate(eV(5), m); put_map(m, o); return; }
    }
}

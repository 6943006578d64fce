// Systems seen through ISys.
#pragma once
#include "full_common.h"
namespace rm = njoy::resonanceReconstruction::rmatrix;
namespace lg = njoy::resonanceReconstruction::rmatrix::legacy;
constexpr auto rootEV = rr::rootElectronVolt;
using RW = rr::ReducedWidth;
static RW rw(double v) { return v * rootEV; }
static rr::Energy eV(double v) { return v * electronVolts; }
template <class M> static void put_map(const M& m, Outcome& o) {
  double n = m.size(); putd(o, n);
  for (auto& e : m) { puts_(o, e.first.symbol()); putq(o, e.second); }
}
template <class M> static void put_tmap(const M& m, Outcome& o) {
  double n = m.size(); putd(o, n);
  for (auto& e : m) { puts_(o, e.first); putd(o, e.second.real()); putd(o, e.second.imag()); }
}
template <class G> static void put_grid(const G& g, Outcome& o) { double n = g.size(); putd(o, n); for (auto& e : g) putq(o, e); }
template <class S, class = void> struct HasT : std::false_type {};
template <class S> struct HasT<S, std::void_t<decltype(std::declval<S&>().evaluateTMatrix(std::declval<const rr::Energy&>(), std::declval<std::map<rm::ReactionChannelID, std::complex<double>>&>()))>> : std::true_type {};
template <class S> static void tmatrix(S& s, double a, Outcome& o) {
  std::map<rm::ReactionChannelID, std::complex<double>> m;
  if constexpr (HasT<S>::value) s.evaluateTMatrix(eV(a), m);
  put_tmap(m, o);
}
#if HAVE_DESC
template <class F, class B> static void describe(const rm::SpinGroup<F, B>& g, double a, Outcome& o) {
  for (const auto& c : g.channels()) std::visit([&](const auto& x) {
    puts_(o, x.channelID()); puts_(o, x.reactionID().symbol()); putq(o, x.Q()); putd(o, x.boundaryCondition()); putq(o, x.radii().phaseShiftRadius(eV(a))); putd(o, x.statisticalSpinFactor()); }, c);
  for (const auto& id : g.channelIDs()) puts_(o, id);
  for (const auto& id : g.reactionIDs()) puts_(o, id.symbol());
  for (const auto& c : g.incidentChannels()) std::visit([&](const auto& x) { puts_(o, x.channelID()); }, c);
  puts_(o, g.incidentPair().pairID().symbol());
  const auto& t = g.resonanceTable(); putd(o, t.numberChannels()); putd(o, t.numberResonances());
  for (const auto& id : t.channels()) puts_(o, id);
  for (const auto& r : t.resonances()) { putq(o, r.energy()); putq(o, r.eliminatedWidth()); for (const auto& w : r.widths()) putq(o, w); }
  for (const auto& e : t.energies()) putq(o, e);
}
static void describe_resonance(const lg::resolved::Resonance& r, Outcome& o) {
  putq(o, r.energy()); putq(o, r.elastic()); putq(o, r.capture()); putq(o, r.fission()); putq(o, r.competition()); putq(o, r.total());
  putd(o, r.penetrability()); putd(o, r.shiftfactor()); putq(o, r.elastic(.5)); putq(o, r.competition(.5)); putq(o, r.total(.5, .25)); 
}
static void describe_resonance(const lg::unresolved::Resonance& r, Outcome& o) {
  putq(o, r.energy()); putq(o, r.levelSpacing()); putq(o, r.elastic()); putq(o, r.capture()); putq(o, r.fission()); putq(o, r.competition());
}
template <class G> static void describe(const G& g, double a, Outcome& o) {
  const auto& x = g.incidentChannel();
  puts_(o, x.channelID()); puts_(o, x.reactionID().symbol()); putd(o, x.statisticalSpinFactor()); putq(o, x.radii().phaseShiftRadius(eV(a)));
  putd(o, g.orbitalAngularMomentum()); putd(o, g.totalAngularMomentum());
  const auto& t = g.resonanceTable(); putd(o, t.numberResonances());
  for (const auto& r : t.resonances()) describe_resonance(r, o);
  for (const auto& e : t.energies()) putq(o, e);
}
#endif
template <class S> static void describe_system(const S& s, double a, Outcome& o) {
#if HAVE_DESC
  for (const auto& g : s.spinGroups()) describe(g, a, o);
#endif
}
// T may be a reference, if that is what the library hands over
template <class T> struct Kept : IKept {
  T v;
  template <class F> explicit Kept(F&& f) : v(f()) {}
  using C = std::decay_t<T>;
  template <class X> static void put(const std::vector<X>& g, Outcome& o) { put_grid(g, o); }
  static void put(const std::map<rm::ReactionID, rr::CrossSection>& m, Outcome& o) { put_map(m, o); }
  static void put(const std::map<rm::ReactionChannelID, std::complex<double>>& m, Outcome& o) { put_tmap(m, o); }
  void read(Outcome& o) const override { put(v, o); }
  void modify() override {
    if constexpr (!std::is_const_v<std::remove_reference_t<T>>) {
      if constexpr (std::is_same_v<C, std::vector<rr::Energy>>) { for (auto& x : v) x = x * 1.5; if (!v.empty()) v.pop_back(); }
      else { for (auto& e : v) e.second = e.second * 1.5; if (!v.empty()) v.erase(v.begin()); }
    }
  }
};
template <class T> struct Filled : Kept<T> {             // handed to the library to be filled
  template <class F> explicit Filled(F&& f) : Kept<T>([] { return T(); }) { f(this->v); }
};
template <class G> struct Groups : IKept {
  std::vector<G> v; double a;
  template <class S> Groups(const S& s, double a) : a(a) { for (const auto& g : s.spinGroups()) v.push_back(g); }
#if HAVE_DESC
  void read(Outcome& o) const override { for (auto& g : v) describe(g, a, o); }
#else
  void read(Outcome& o) const override {}
#endif
#ifndef NO_ASSIGN
  void modify() override { if (v.size() > 1) { v.front() = v.back(); v.pop_back(); } }
#else
  void modify() override {}
#endif
};
template <class S> static IKept* keep_tmatrix(S& s, double a) {
  return new Filled<std::map<rm::ReactionChannelID, std::complex<double>>>([&](auto& m) { if constexpr (HasT<S>::value) s.evaluateTMatrix(eV(a), m); });
}
template <class S> static IKept* keep_groups(const S& s, double a) {
#ifdef NO_COPY
  throw Skip{};
#else
  using G = std::decay_t<decltype(*std::begin(std::declval<const S&>().spinGroups()))>;
  return new Groups<G>(s, a);
#endif
}
template <class D> struct Base : ISys {
  D d;
  IKept* keep_grid() const { return new Kept<decltype(std::declval<const D&>().grid())>([&]() -> decltype(auto) { return d.grid(); }); }
  explicit Base(D&& x) : d(std::move(x)) {}
#ifndef NO_ASSIGN
  void assign(const ISys& o) override { d = static_cast<const Base&>(o).d; }
  void take(ISys& o) override { d = std::move(static_cast<Base&>(o).d); }
#else
  void assign(const ISys&) override { throw Skip{}; }
  void take(ISys&) override { throw Skip{}; }
#endif
  void grid(Outcome& o) const override { put_grid(d.grid(), o); }
};

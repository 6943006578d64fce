// Stand-in for njoy's ENDFtk: the resonance parameters of an ENDF file (MF 2, MT 151) as plain data.
// Only what njoy/resonanceReconstruction uses; nothing is parsed.
#pragma once
#include <memory>
#include <optional>
#include <utility>
#include <variant>
#include <vector>
namespace njoy { namespace ENDFtk { namespace section {
template <int MF, int MT> class Type;
template <> class Type<2, 151> {
public:
  using V = std::vector<double>;
  using I = std::vector<int>;
  struct ScatteringRadius {
    std::vector<std::pair<V, V>> regions_; I interpolants_;
    const std::vector<std::pair<V, V>>& regions() const { return regions_; }
    const I& interpolants() const { return interpolants_; }
  };
  struct BreitWignerLValue {
    template <class Range = void> struct Resonance {
      double er, aj, gt, gn, gg, gf;
      double ER() const { return er; } double AJ() const { return aj; } double GN() const { return gn; }
      double GG() const { return gg; } double GF() const { return gf; } double GX() const { return gt - gn - gg - gf; }
      double resonanceEnergy() const { return er; } double spin() const { return aj; } double neutronWidth() const { return gn; }
      double gammaWidth() const { return gg; } double fissionWidth() const { return gf; } double competitiveWidth() const { return GX(); }
    };
    double awri, qx; int l; bool lrx; std::vector<Resonance<>> resonances_;
    double AWRI() const { return awri; } double atomicWeightRatio() const { return awri; }
    double QX() const { return qx; } int L() const { return l; } int orbitalMomentum() const { return l; }
    bool LRX() const { return lrx; } bool competitiveWidthFlag() const { return lrx; }
    V spinValues() const { V v; for (auto& r : resonances_) v.push_back(r.aj); return v; }
    const std::vector<Resonance<>>& resonances() const { return resonances_; }
  };
  struct BreitWignerBase {
    using LValue = BreitWignerLValue;
    double spi, ap; std::vector<LValue> lvalues;
    double SPI() const { return spi; } double spin() const { return spi; }
    double AP() const { return ap; } double scatteringRadius() const { return ap; }
    int numberLValues() const { return lvalues.size(); }
    const std::vector<LValue>& lValues() const { return lvalues; }
  };
  struct SingleLevelBreitWigner : BreitWignerBase {};
  struct MultiLevelBreitWigner : BreitWignerBase {};
  struct ReichMooreLValue {
    template <class Range = void> struct Resonance {
      double er, aj, gn, gg, gfa, gfb;
      double ER() const { return er; } double AJ() const { return aj; } double GN() const { return gn; }
      double GG() const { return gg; } double GFA() const { return gfa; } double GFB() const { return gfb; }
      double resonanceEnergy() const { return er; } double spin() const { return aj; } double neutronWidth() const { return gn; }
      double gammaWidth() const { return gg; } double firstFissionWidth() const { return gfa; } double secondFissionWidth() const { return gfb; }
    };
    double awri, apl; int l; std::vector<Resonance<>> resonances_;
    double AWRI() const { return awri; } double atomicWeightRatio() const { return awri; }
    double APL() const { return apl; } double lDependentScatteringRadius() const { return apl; }
    int L() const { return l; } int orbitalMomentum() const { return l; }
    V spinValues() const { V v; for (auto& r : resonances_) v.push_back(r.aj); return v; }
    const std::vector<Resonance<>>& resonances() const { return resonances_; }
  };
  struct ReichMoore {
    using LValue = ReichMooreLValue;
    double spi, ap; int nlsc; std::vector<LValue> lvalues;
    double SPI() const { return spi; } double spin() const { return spi; }
    double AP() const { return ap; } double scatteringRadius() const { return ap; }
    int numberLValues() const { return lvalues.size(); }
    int numberLValuesForConvergence() const { return nlsc; }
    const std::vector<LValue>& lValues() const { return lvalues; }
  };
  struct RMatrixLimited {
    struct ParticlePairs {
      V ma, mb, za, zb, ia, ib, q; I pa, pb, shf, mt;
      const V& massParticleA() const { return ma; } const V& massParticleB() const { return mb; }
      const V& chargeParticleA() const { return za; } const V& chargeParticleB() const { return zb; }
      const V& spinParticleA() const { return ia; } const V& spinParticleB() const { return ib; }
      const I& parityParticleA() const { return pa; } const I& parityParticleB() const { return pb; }
      const V& Q() const { return q; } const I& shiftFactorFlag() const { return shf; } const I& MT() const { return mt; }
    };
    struct ResonanceChannels {
      double aj; int pj; I ppi, l; V sch, bnd, ape, apt;
      double spin() const { return aj; } int parity() const { return pj; }
      const I& particlePairNumbers() const { return ppi; } const I& orbitalMomentumValues() const { return l; }
      const V& channelSpinValues() const { return sch; } const V& boundaryConditionValues() const { return bnd; }
      const V& effectiveChannelRadii() const { return ape; } const V& trueChannelRadii() const { return apt; }
    };
    struct ResonanceParameters {
      V er; std::vector<V> gam;
      int numberResonances() const { return er.size(); }
      const V& resonanceEnergies() const { return er; } const std::vector<V>& resonanceParameters() const { return gam; }
    };
    struct SpinGroup {
      ResonanceChannels c; ResonanceParameters p;
      const ResonanceChannels& channels() const { return c; } const ResonanceParameters& parameters() const { return p; }
    };
    int krm, ifg; ParticlePairs pairs; std::vector<SpinGroup> groups;
    int formalism() const { return krm; } int reducedWidths() const { return ifg; }
    const ParticlePairs& particlePairs() const { return pairs; } const std::vector<SpinGroup>& spinGroups() const { return groups; }
  };
  struct SpecialCase { double spi, ap; };
  template <class LV> struct UnresolvedBase {
    using LValue = LV;
    double spi, ap; std::vector<LV> lvalues;
    int NLS() const { return lvalues.size(); }
    double spin() const { return spi; } double scatteringRadius() const { return ap; }
    const std::vector<LV>& lValues() const { return lvalues; }
  };
  template <class JV> struct UnresolvedLValue {
    double awri; int l; std::vector<JV> j;
    double atomicWeightRatio() const { return awri; } int orbitalMomentum() const { return l; }
    int numberSpinValues() const { return j.size(); } const std::vector<JV>& jValues() const { return j; }
  };
  struct Dof {
    int amun, amug, amuf, amux;
    int neutronWidthDegreesFreedom() const { return amun; } int gammaWidthDegreesFreedom() const { return amug; }
    int fissionWidthDegreesFreedom() const { return amuf; } int competitiveWidthDegreesFreedom() const { return amux; }
  };
  struct UnresolvedEnergyIndependent_ {
    template <class Range = void> struct JValue : Dof {
      double aj, d, gn, gg, gf, gx;
      double spin() const { return aj; } double averageLevelSpacing() const { return d; }
      double averageNeutronWidth() const { return gn; } double averageGammaWidth() const { return gg; }
      double averageFissionWidth() const { return gf; } double averageCompetitiveWidth() const { return gx; }
    };
  };
  struct UnresolvedEnergyIndependent : UnresolvedBase<UnresolvedLValue<UnresolvedEnergyIndependent_::JValue<>>> {
    template <class Range = void> using JValue = UnresolvedEnergyIndependent_::JValue<Range>;
  };
  struct UnresolvedEnergyDependentFissionWidths_ {
    struct JValue : Dof {
      double aj, d, gn, gg, gx; V gf;
      double spin() const { return aj; } double averageLevelSpacing() const { return d; }
      double averageNeutronWidth() const { return gn; } double averageGammaWidth() const { return gg; }
      double averageCompetitiveWidth() const { return gx; } const V& averageFissionWidths() const { return gf; }
    };
  };
  struct UnresolvedEnergyDependentFissionWidths : UnresolvedBase<UnresolvedLValue<UnresolvedEnergyDependentFissionWidths_::JValue>> {
    using JValue = UnresolvedEnergyDependentFissionWidths_::JValue;
    V es;
    const V& energies() const { return es; }
  };
  struct UnresolvedEnergyDependent_ {
    struct JValue : Dof {
      double aj; V es, d, gn, gg, gf, gx;
      double spin() const { return aj; } const V& energies() const { return es; }
      const V& averageLevelSpacings() const { return d; } const V& averageNeutronWidths() const { return gn; }
      const V& averageGammaWidths() const { return gg; } const V& averageFissionWidths() const { return gf; }
      const V& averageCompetitiveWidths() const { return gx; }
    };
  };
  struct UnresolvedEnergyDependent : UnresolvedBase<UnresolvedLValue<UnresolvedEnergyDependent_::JValue>> {
    using JValue = UnresolvedEnergyDependent_::JValue;
  };
  struct ResonanceRange {
    using Parameters = std::variant<SpecialCase, SingleLevelBreitWigner, MultiLevelBreitWigner, ReichMoore, RMatrixLimited,
      UnresolvedEnergyIndependent, UnresolvedEnergyDependentFissionWidths, UnresolvedEnergyDependent>;
    double el, eh; int lru, lrf, nro, naps; std::optional<ScatteringRadius> sr; Parameters par;
    double EL() const { return el; } double EH() const { return eh; }
    double lowerEnergy() const { return el; } double upperEnergy() const { return eh; }
    int type() const { return lru; } int representation() const { return lrf; }
    int NRO() const { return nro; } int NAPS() const { return naps; } int scatteringRadiusCalculationOption() const { return naps; }
    const std::optional<ScatteringRadius>& scatteringRadius() const { return sr; }
    const Parameters& parameters() const { return par; }
  };
};
} } }

// Stand-in for njoy's elementary: identifiers of particles, pairs of particles and reactions.
// Only what njoy/resonanceReconstruction uses; identifiers are plain symbols.  An identifier that has been
// moved from is unchanged (elementary's identifiers are numbers).
#pragma once
#include <cstdlib>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>
#include "Log.hpp"
namespace njoy { namespace elementary {
#define ELEMENTARY_COMPARE(T) \
  friend bool operator==(const T& a, const T& b) { return a.s_ == b.s_; } \
  friend bool operator!=(const T& a, const T& b) { return a.s_ != b.s_; } \
  friend bool operator<(const T& a, const T& b) { return a.s_ < b.s_; } \
  friend std::ostream& operator<<(std::ostream& o, const T& a) { return o << a.s_; }
class ParticleID {
  std::string s_;
public:
  ParticleID(const std::string& s) : s_(s) {
    if (s == "neutron") s_ = "n"; else if (s == "g" || s == "gamma") s_ = "photon";
    const auto n = s_.size();
    if (n > 3 && s_.compare(n - 3, 3, "_e0") == 0) s_.erase(n - 3);        // the ground state
  }
  ParticleID(const char* s) : ParticleID(std::string(s)) {}
  const std::string& symbol() const { return s_; }
  ParticleID(const ParticleID&) = default; ParticleID& operator=(const ParticleID&) = default;
  ELEMENTARY_COMPARE(ParticleID)
};
class ReactionType {
  std::string s_;
public:
  ReactionType(const std::string& s) : s_(s) {}
  ReactionType(const char* s) : s_(s) {}
  ReactionType(int mt) : s_(mt == 2 ? "elastic" : mt == 18 ? "fission" : mt == 102 ? "capture" : "mt" + std::to_string(mt)) {}
  const std::string& symbol() const { return s_; }
  std::vector<ParticleID> particles() const {
    if (s_ == "elastic") return {"n"};
    if (s_ == "capture") return {"g"};
    if (s_.size() > 2 && s_[0] == 'm') {
      int mt = std::atoi(s_.c_str() + 2);
      if (mt >= 50 && mt < 92) return {"n"};
      if (mt == 103 || (mt >= 600 && mt < 650)) return {"p"};
      if (mt == 107 || (mt >= 800 && mt < 850)) return {"a"};
    }
    throw std::invalid_argument("reaction type");
  }
  ReactionType(const ReactionType&) = default; ReactionType& operator=(const ReactionType&) = default;
  ELEMENTARY_COMPARE(ReactionType)
};
class ParticlePairID {
  ParticleID a_, b_; std::string s_;
public:
  ParticlePairID(const ParticleID& a, const ParticleID& b) : a_(a), b_(b), s_(a.symbol() + "," + b.symbol()) {}
  ParticlePairID(const std::string& s) : a_(s), b_(s), s_(s) {
    auto c = s.find(',');
    if (c != std::string::npos) { a_ = ParticleID(s.substr(0, c)); b_ = ParticleID(s.substr(c + 1)); s_ = a_.symbol() + "," + b_.symbol(); }
  }
  ParticlePairID(const char* s) : ParticlePairID(std::string(s)) {}
  const ParticleID& particle() const { return a_; }
  const ParticleID& residual() const { return b_; }
  const std::string& symbol() const { return s_; }
  ParticlePairID(const ParticlePairID&) = default; ParticlePairID& operator=(const ParticlePairID&) = default;
  ELEMENTARY_COMPARE(ParticlePairID)
};
class ReactionID {
  std::string s_;
public:
  ReactionID(const std::string& s) : s_(s) {}
  ReactionID(const char* s) : s_(s) {}
  ReactionID(const ParticleID& a, const ParticleID& b, const ReactionType& t) : s_(a.symbol() + "," + b.symbol() + "->" + t.symbol()) {
    if (t.symbol() == "elastic") s_ = a.symbol() + "," + b.symbol() + "->" + a.symbol() + "," + b.symbol();
  }
  ReactionID(const ParticlePairID& in, const ParticlePairID& out) : s_(in.symbol() + "->" + out.symbol()) {}
  const std::string& symbol() const { return s_; }
  ReactionID(const ReactionID&) = default; ReactionID& operator=(const ReactionID&) = default;
  ELEMENTARY_COMPARE(ReactionID)
};
inline ParticleID resolve(const ParticleID& in, const ParticleID& target, const ReactionType& t) {
  if (t.symbol() == "elastic") return target;
  return ParticleID(in.symbol() + "+" + target.symbol() + "-" + t.symbol());
}
} }

// The const Breit-Wigner evaluators.
#include "full_old.h"
static IOld* apply_slbw(const Range& r) { return rr::breitWigner::singleLevel::Apply()(r, Holder<true>()); }
static IOld* apply_mlbw(const Range& r) { return rr::breitWigner::multiLevel::Apply()(r, Holder<true>()); }
bool oldbw_available() { return true; }
IOld* oldbw_build(int def, int var) {                    // 0..4 single level, 5..9 multi level
  double f = 1 + .07 * var; Range r = old_range(def % 5, f);
  if (def < 5) { r.par = breit_wigner<MT151::SingleLevelBreitWigner>(r.nro ? 2 : 1, f); return apply_slbw(r); }
  r.par = breit_wigner<MT151::MultiLevelBreitWigner>(r.nro ? 2 : 3, f); r.lrf = 2; return apply_mlbw(r);
}
void oldbw_case(int c, Outcome& o) {
  Range r; std::unique_ptr<IOld> e;
  switch (c) {
      case 44: r = make_range(3, 0); e.reset(apply_slbw(r)); break;
      case 45: r = make_range(0, 0); e.reset(apply_mlbw(r)); break;
      case 47: r = make_range(1, 0); r.nro = 1; e.reset(apply_slbw(r)); break;             // no radius table
      case 48: r = make_range(3, 0); r.nro = 1; e.reset(apply_mlbw(r)); break;
      case 50: r = make_range(1, 0); r.naps = 2; e.reset(apply_slbw(r)); break;            // unsupported
      case 51: r = make_range(3, 0); r.naps = 2; e.reset(apply_mlbw(r)); break;
      case 53: r = make_range(2, 0); r.naps = 3; e.reset(apply_slbw(r)); break;
      case 54: r = make_range(4, 0); r.naps = 3; e.reset(apply_mlbw(r)); break;
      case 56: r = make_range(1, 0); std::get<MT151::SingleLevelBreitWigner>(r.par).lvalues[1].l = 5; e.reset(apply_slbw(r)); break;
      case 57: r = make_range(3, 0); std::get<MT151::MultiLevelBreitWigner>(r.par).lvalues[1].l = 5; e.reset(apply_mlbw(r)); break;
      case 59: r = make_range(2, 0); r.sr->interpolants_[0] = 9; e.reset(apply_slbw(r)); break;
  }
  if (e) e->eval(50, o);
}

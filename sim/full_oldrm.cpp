// The const Reich-Moore evaluators.
#include "full_old.h"
static IOld* apply_rm(const Range& r) { return rr::reichMoore::Apply()(r, Holder<false>()); }
bool oldrm_available() { return true; }
IOld* oldrm_build(int def, int var) {                    // 10..14
  double f = 1 + .07 * var; Range r = old_range(def % 5, f);
  r.par = reich_moore(r.nro ? 6 : 5, f); r.lrf = 3;
  if (def % 5 == 1) { auto& m = std::get<MT151::ReichMoore>(r.par); for (int l = 3; l < 5; ++l) { auto s = m.lvalues[1]; s.l = l; for (auto& x : s.resonances_) x.er += 100 * l, x.aj = l; m.lvalues.push_back(s); } }
  return apply_rm(r);
}
void oldrm_case(int c, Outcome& o) {
  Range r; std::unique_ptr<IOld> e;
  switch (c) {
      case 46: r = make_range(0, 0); e.reset(apply_rm(r)); break;
      case 49: r = make_range(5, 0); r.nro = 1; e.reset(apply_rm(r)); break;
      case 52: r = make_range(5, 0); r.naps = 2; e.reset(apply_rm(r)); break;
      case 55: r = make_range(6, 0); r.naps = 3; e.reset(apply_rm(r)); break;
      case 58: r = make_range(5, 0); std::get<MT151::ReichMoore>(r.par).lvalues[1].l = 5; e.reset(apply_rm(r)); break;
  }
  if (e) e->eval(50, o);
}

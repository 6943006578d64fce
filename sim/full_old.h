// Evaluators behind one interface.
#pragma once
#include "full_common.h"
template <class E, bool COPY> struct Old : IOld {
  E e;
  explicit Old(E&& x) : e(std::move(x)) {}
  IOld* clone() const override { if constexpr (COPY) return new Old(E(e)); else throw Skip{}; }
  void eval(double a, Outcome& o) const override { auto x = e(a * electronVolts); putq(o, x.elastic); putq(o, x.capture); putq(o, x.fission); }
};
template <bool COPY> struct Holder { template <class E> IOld* operator()(E&& e) const { return new Old<std::decay_t<E>, COPY>(std::move(e)); } };
// {NRO,NAPS}
static const int NN[5][2] = {{0, 0}, {0, 1}, {1, 1}, {1, 2}, {1, 0}};
static Range old_range(int k, double f) { Range r; r.el = 1e-5; r.eh = 1000; r.lru = 1; r.lrf = 1; r.nro = NN[k][0]; r.naps = NN[k][1]; if (r.nro) r.sr = radius_table(f, 600, k == 4 ? 3 : k == 3 ? 5 : 2); return r; }

// Stand-in for njoy's interpolation: tables over one variable with the five ENDF interpolation laws.
// Only what njoy/resonanceReconstruction uses.
#pragma once
#include <algorithm>
#include <cmath>
#include <stdexcept>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>
#include "Log.hpp"
namespace njoy { namespace interpolation {
struct Histogram { template <class X, class Y> static Y apply(X, X, X, Y yl, Y) { return yl; } };
struct LinearLinear { template <class X, class Y> static Y apply(X x, X xl, X xr, Y yl, Y yr) { return yl + (yr - yl) * ((x - xl) / (xr - xl)); } };
struct LinearLogarithmic { template <class X, class Y> static Y apply(X x, X xl, X xr, Y yl, Y yr) { return yl + (yr - yl) * (std::log(x / xl) / std::log(xr / xl)); } };
struct LogarithmicLinear { template <class X, class Y> static Y apply(X x, X xl, X xr, Y yl, Y yr) { return yl * std::exp((x - xl) / (xr - xl) * std::log(yr / yl)); } };
struct LogarithmicLogarithmic { template <class X, class Y> static Y apply(X x, X xl, X xr, Y yl, Y yr) { return yl * std::exp(std::log(x / xl) / std::log(xr / xl) * std::log(yr / yl)); } };
namespace table {
  namespace search { struct Binary {}; }
  namespace discontinuity { struct TakeLeft {}; }
  namespace left { namespace interval { struct Throws {}; } }
  namespace right { namespace interval { struct Throws {}; } }
  template <class Law, class Search, class Disc, class XS, class YS> class Type {
    XS xs_; YS ys_;
  public:
    using X = std::decay_t<decltype(std::declval<const XS&>()[0])>;
    using Y = std::decay_t<decltype(std::declval<const YS&>()[0])>;
    Type(XS&& xs, YS&& ys) : xs_(std::move(xs)), ys_(std::move(ys)) {
      if (xs_.size() != ys_.size() || xs_.size() < 2 || !std::is_sorted(xs_.begin(), xs_.end())) throw std::invalid_argument("interpolation table");
    }
    Y operator()(const X& x) const {
      if (!(x >= xs_.front() && x <= xs_.back())) throw std::domain_error("outside of the table");
      auto i = std::lower_bound(xs_.begin(), xs_.end(), x) - xs_.begin();
      if (xs_[i] == x) return ys_[i];
      return Law::apply(x, xs_[i - 1], xs_[i], ys_[i - 1], ys_[i]);
    }
    const XS& x() const { return xs_; }
    const YS& y() const { return ys_; }
    auto tableMin() const { return xs_.front(); }
    auto tableMax() const { return xs_.back(); }
  };
  template <class... T> class Variant {
    std::variant<T...> v_;
  public:
    template <class U, class = std::enable_if_t<(std::is_same_v<std::decay_t<U>, T> || ...)>> Variant(U&& u) : v_(std::forward<U>(u)) {}
    template <class X> auto operator()(const X& x) const { return std::visit([&](const auto& t) { return t(x); }, v_); }
    auto tableMin() const { return std::visit([](const auto& t) { return t.tableMin(); }, v_); }
    auto tableMax() const { return std::visit([](const auto& t) { return t.tableMax(); }, v_); }
  };
  template <class T> class Vector {
    std::vector<T> v_;
  public:
    Vector(std::vector<T>&& v) : v_(std::move(v)) { if (v_.empty()) throw std::invalid_argument("no tables"); }
    template <class X> auto operator()(const X& x) const {
      for (const auto& t : v_) if (x <= t.tableMax()) return t(x);
      return v_.back()(x);
    }
    auto tableMin() const { return v_.front().tableMin(); }
    auto tableMax() const { return v_.back().tableMax(); }
  };
}
template <class Core, class... Policies> class Table : public Core {
public:
  using Core::Core;
};
namespace table {
  template <class Law, class X, class Y> struct Made : Type<Law, search::Binary, discontinuity::TakeLeft, std::vector<X>, std::vector<Y>> {
    using P = Type<Law, search::Binary, discontinuity::TakeLeft, std::vector<X>, std::vector<Y>>;
    template <class A, class B> Made(A&& a, B&& b) : P(std::vector<X>(a.begin(), a.end()), std::vector<Y>(b.begin(), b.end())) {}
  };
  template <class Law, class XR, class YR> auto make(XR&& xr, YR&& yr) {
    return Made<Law, std::decay_t<decltype(*xr.begin())>, std::decay_t<decltype(*yr.begin())>>(std::forward<XR>(xr), std::forward<YR>(yr));
  }
}
} }

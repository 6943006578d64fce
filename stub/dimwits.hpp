// Stand-in for njoy's dimwits (not available here): quantities with units that are checked and
// converted at compile time.  Only what njoy/resonanceReconstruction uses.
#pragma once
#include <cmath>
#include <ostream>
#include <ratio>
#include <type_traits>
namespace dimwits {

// base units: 0 eV, 1 barn, 2 dalton, 3 coulomb, 4 meter, 5 second, 6 farad, 7 centimeter, 8 kilogram, 9 kelvin
// exponents are given in quarters
template <int... E> struct Unit { static constexpr int n = sizeof...(E); };
namespace detail {
  constexpr int N = 10;
  constexpr double qe = 1.6021766208e-19, u = 1.660539040e-27;
  struct Base { double si; int m, kg, s, A, K; };
  constexpr Base base[N] = { {qe, 2, 1, -2, 0, 0}, {1e-28, 2, 0, 0, 0, 0}, {u, 0, 1, 0, 0, 0},
    {1, 0, 0, 1, 1, 0}, {1, 1, 0, 0, 0, 0}, {1, 0, 0, 1, 0, 0}, {1, -2, -1, 4, 2, 0},
    {1e-2, 1, 0, 0, 0, 0}, {1, 0, 1, 0, 0, 0}, {1, 0, 0, 0, 0, 1} };
  constexpr double root(double x) {                     // long double Newton iteration, at compile time
    if (x == 0) return 0;
    long double s = 1, y = x;
    while (y > 4) { y /= 4; s *= 2; }
    while (y < 1) { y *= 4; s /= 2; }
    long double g = 1.5L;
    for (int i = 0; i < 60; ++i) g = 0.5L * (g + y / g);
    return static_cast<double>(g * s);
  }
  constexpr double ipow(double x, int n) { double r = 1; for (int i = 0; i < (n < 0 ? -n : n); ++i) r *= x; return n < 0 ? 1 / r : r; }
  constexpr double qpow(double x, int q) { return q % 4 == 0 ? ipow(x, q / 4) : q % 2 == 0 ? ipow(root(x), q / 2) : ipow(root(root(x)), q); }
  struct Dim { int m, kg, s, A, K; };
  constexpr bool same(Dim a, Dim b) { return a.m == b.m && a.kg == b.kg && a.s == b.s && a.A == b.A && a.K == b.K; }
  template <class U> struct Info;
  template <int... E> struct Info<Unit<E...>> {
    static constexpr int e[N] = {E...};
    static constexpr Dim dim() { Dim d{0, 0, 0, 0, 0}; for (int i = 0; i < N; ++i) { d.m += e[i] * base[i].m; d.kg += e[i] * base[i].kg; d.s += e[i] * base[i].s; d.A += e[i] * base[i].A; d.K += e[i] * base[i].K; } return d; }
    static constexpr bool none() { for (int i = 0; i < N; ++i) if (e[i]) return false; return true; }
  };
  // factor from unit U to unit V: only the exponents that differ count
  template <class U, class V> constexpr double factor() {
    double f = 1;
    for (int i = 0; i < N; ++i) { int d = Info<U>::e[i] - Info<V>::e[i]; if (d) f *= qpow(base[i].si, d); }
    return f;
  }
  template <class U, class V> struct Mul; template <class U, class V> struct Div; template <class U, int P, int Q> struct Pow;
  template <int... A, int... B> struct Mul<Unit<A...>, Unit<B...>> { using type = Unit<(A + B)...>; };
  template <int... A, int... B> struct Div<Unit<A...>, Unit<B...>> { using type = Unit<(A - B)...>; };
  template <int... A, int P, int Q> struct Pow<Unit<A...>, P, Q> { static_assert(((A * P % Q == 0) && ...)); using type = Unit<(A * P / Q)...>; };
  template <class U> struct IsUnit : std::false_type {};
  template <int... E> struct IsUnit<Unit<E...>> : std::true_type {};
}
template <class U> struct Quantity {
  using Units = U;
  double value;
  constexpr Quantity() : value(0) {}
  template <class V, class = std::enable_if_t<!std::is_same_v<U, V> && detail::same(detail::Info<U>::dim(), detail::Info<V>::dim())>>
  constexpr Quantity(const Quantity<V>& o) : value(o.value * detail::factor<V, U>()) {}
  template <class V, class = std::enable_if_t<detail::IsUnit<V>::value && detail::same(detail::Info<U>::dim(), detail::Info<V>::dim())>, class = void>
  constexpr Quantity(const V&) : value(detail::factor<V, U>()) {}
  template <class D, class = std::enable_if_t<std::is_same_v<D, double> && detail::same(detail::Info<U>::dim(), detail::Dim{0, 0, 0, 0, 0})>>
  constexpr operator D() const { double f = 1; for (int i = 0; i < detail::N; ++i) f *= detail::qpow(detail::base[i].si, detail::Info<U>::e[i]); return value * f; }
  static constexpr Quantity of(double v) { Quantity q{}; q.value = v; return q; }
  constexpr Quantity operator-() const { return of(-value); }
  constexpr Quantity operator+() const { return *this; }
  constexpr Quantity& operator+=(const Quantity& o) { value += o.value; return *this; }
  constexpr Quantity& operator-=(const Quantity& o) { value -= o.value; return *this; }
  constexpr Quantity& operator*=(double f) { value *= f; return *this; }
  constexpr Quantity& operator/=(double f) { value /= f; return *this; }
  friend constexpr Quantity operator+(const Quantity& a, const Quantity& b) { return of(a.value + b.value); }
  friend constexpr Quantity operator-(const Quantity& a, const Quantity& b) { return of(a.value - b.value); }
  friend constexpr bool operator==(const Quantity& a, const Quantity& b) { return a.value == b.value; }
  friend constexpr bool operator!=(const Quantity& a, const Quantity& b) { return a.value != b.value; }
  friend constexpr bool operator<(const Quantity& a, const Quantity& b) { return a.value < b.value; }
  friend constexpr bool operator>(const Quantity& a, const Quantity& b) { return a.value > b.value; }
  friend constexpr bool operator<=(const Quantity& a, const Quantity& b) { return a.value <= b.value; }
  friend constexpr bool operator>=(const Quantity& a, const Quantity& b) { return a.value >= b.value; }
  friend constexpr Quantity operator*(const Quantity& a, double f) { return of(a.value * f); }
  friend constexpr Quantity operator*(double f, const Quantity& a) { return of(f * a.value); }
  friend constexpr Quantity operator/(const Quantity& a, double f) { return of(a.value / f); }
  friend constexpr auto operator/(double f, const Quantity& a) {
    using R = typename detail::Pow<U, -1, 1>::type;
    return Quantity<R>::of(f / a.value);
  }
};
namespace detail {
  template <class R> constexpr auto result(double v) { if constexpr (Info<R>::none()) return v; else return Quantity<R>::of(v); }
}
template <class U, class V> constexpr auto operator*(const Quantity<U>& a, const Quantity<V>& b) { return detail::result<typename detail::Mul<U, V>::type>(a.value * b.value); }
template <class U, class V> constexpr auto operator/(const Quantity<U>& a, const Quantity<V>& b) { return detail::result<typename detail::Div<U, V>::type>(a.value / b.value); }
template <int... A> constexpr auto operator*(double f, const Unit<A...>&) { return Quantity<Unit<A...>>::of(f); }
template <int... A> constexpr auto operator/(double f, const Unit<A...>&) { return Quantity<typename detail::Pow<Unit<A...>, -1, 1>::type>::of(f); }
template <class U, int... A> constexpr auto operator*(const Quantity<U>& q, const Unit<A...>&) { return detail::result<typename detail::Mul<U, Unit<A...>>::type>(q.value); }
template <class U, int... A> constexpr auto operator/(const Quantity<U>& q, const Unit<A...>&) { return detail::result<typename detail::Div<U, Unit<A...>>::type>(q.value); }
template <int... A, int... B> constexpr auto operator*(Unit<A...>, Unit<B...>) { return typename detail::Mul<Unit<A...>, Unit<B...>>::type{}; }
template <int... A, int... B> constexpr auto operator/(Unit<A...>, Unit<B...>) { return typename detail::Div<Unit<A...>, Unit<B...>>::type{}; }

template <std::intmax_t P, std::intmax_t Q = 1> constexpr std::ratio<P, Q> Ratio{};
template <int... A, std::intmax_t P, std::intmax_t Q> constexpr auto pow(Unit<A...>, std::ratio<P, Q>) { return typename detail::Pow<Unit<A...>, P, Q>::type{}; }
template <class U, std::intmax_t P, std::intmax_t Q> auto pow(const Quantity<U>& q, std::ratio<P, Q>) { return Quantity<typename detail::Pow<U, P, Q>::type>::of(std::pow(q.value, double(P) / Q)); }
template <class U> auto sqrt(const Quantity<U>& q) { return Quantity<typename detail::Pow<U, 1, 2>::type>::of(std::sqrt(q.value)); }
template <class U> std::ostream& operator<<(std::ostream& o, const Quantity<U>& q) { return o << q.value; }
namespace unit { template <int... A> constexpr auto sqrt(Unit<A...>) { return typename detail::Pow<Unit<A...>, 1, 2>::type{}; } }

using ElectronVolt = Unit<4, 0, 0, 0, 0, 0, 0, 0, 0, 0>; using ElectronVolts = ElectronVolt;
using Barn = Unit<0, 4, 0, 0, 0, 0, 0, 0, 0, 0>;         using Barns = Barn;
using Dalton = Unit<0, 0, 4, 0, 0, 0, 0, 0, 0, 0>;       using Daltons = Dalton;
using Coulomb = Unit<0, 0, 0, 4, 0, 0, 0, 0, 0, 0>;      using Coulombs = Coulomb;
using Meter = Unit<0, 0, 0, 0, 4, 0, 0, 0, 0, 0>;        using Meters = Meter;
using Second = Unit<0, 0, 0, 0, 0, 4, 0, 0, 0, 0>;       using Seconds = Second;
using Farad = Unit<0, 0, 0, 0, 0, 0, 4, 0, 0, 0>;        using Farads = Farad;
using Centimeter = Unit<0, 0, 0, 0, 0, 0, 0, 4, 0, 0>;
using Kilogram = Unit<0, 0, 0, 0, 0, 0, 0, 0, 4, 0>;
using Kelvin = Unit<0, 0, 0, 0, 0, 0, 0, 0, 0, 4>;
struct Grams {};
constexpr ElectronVolt electronVolt{}, electronVolts{};
constexpr Barn barn{}, barns{};
constexpr Dalton dalton{}, daltons{};
constexpr Coulomb coulomb{}, coulombs{};
constexpr Meter meter{}, meters{};
constexpr Second second{}, seconds{};
constexpr Farad farad{}, farads{};
constexpr Kelvin kelvin{};
constexpr Grams grams{}, gram{};
constexpr Centimeter centi(Meter) { return {}; }
constexpr Kilogram kilo(Grams) { return {}; }
namespace constant {
  // hbar in J s, given in kg m2 / s
  constexpr auto dirac = Quantity<Unit<0, 0, 0, 0, 8, -4, 0, 0, 4, 0>>::of(1.054571800e-34);
  constexpr auto elementaryCharge = Quantity<Coulomb>::of(detail::qe);
}
}
namespace std {
  template <class U> constexpr dimwits::Quantity<U> abs(const dimwits::Quantity<U>& q) { return q.value < 0 ? -q : q; }
  template <class U> auto sqrt(const dimwits::Quantity<U>& q) { return dimwits::sqrt(q); }
}

// C26: root finders, minimizers, Hermite interpolation.
#include <algorithm>

#include "geometry/barycentre_calculator.hpp"
#include "geometry/grassmann.hpp"
#include "harness/principia.h"
#include "numerics/hermite2.hpp"
#include "numerics/hermite3.hpp"
#include "numerics/root_finders.hpp"
#include "serialization/geometry.pb.h"

using namespace principia::geometry::_grassmann;
using namespace principia::numerics::_hermite2;
using namespace principia::numerics::_hermite3;
using namespace principia::numerics::_root_finders;
using seq::Notes;

namespace {
using World = Frame<serialization::Frame::TestTag, Inertial,
                    Handedness::Right, serialization::Frame::TEST>;

double Ulps(double const x, int n) {
  double y = x;
  for (; n > 0; --n) y = std::nextafter(y, 1e300);
  for (; n < 0; ++n) y = std::nextafter(y, -1e300);
  return y;
}

// A function whose values are chosen when it's evaluated.
struct Lazy {
  std::vector<double> values;
  double lo, hi;
  std::map<double, double> known = {};
  int evaluations = 0;
  double operator()(double const x) {
    Check(lo <= x && x <= hi, "evaluation out of bounds at ", x);
    Check(++evaluations < 1000, "does not converge");
    auto const it = known.find(x);
    if (it != known.end()) return it->second;
    double const v = values[Choose(values.size())];
    Notes("f(", x, ") = ", v);
    return known[x] = v;
  }
};

double ChooseStart() {
  // Across a binade, across 0, etc.
  switch (Choose(4)) {
    case 0: return 1;
    case 1: return Ulps(1, -3);
    case 2: return Ulps(0, -3);
    default: return -7.3;
  }
}

template<typename F>
void CheckIsRoot(double const x, double const tolerance, Lazy const& f,
                 F const& what) {
  Check(f.lo <= x && x <= f.hi, what, " out of bounds: ", x);
  // Two points close to x, or x and another one, where the signs differ.
  bool below = false, above = false, zero = false;
  double closest_lo = -1e300, closest_hi = 1e300;
  for (auto const& [y, v] : f.known) {
    if (std::abs(y - x) <= tolerance) {
      zero |= v == 0;
      below |= v < 0;
      above |= v > 0;
    }
    if (y < x) closest_lo = std::max(closest_lo, y);
    if (y > x) closest_hi = std::min(closest_hi, y);
  }
  Check(zero || (below && above), what, ": no root close to ", x);
}
}  // namespace

SEQ_HARNESS(bisect, .split = 5) {
  double const lo = ChooseStart();
  int const width = Choose(60) + 1;
  double const hi = Ulps(lo, width);
  Lazy f{{-1, 1, 0}, lo, hi};
  double const f_lo = f(lo);
  double const f_hi = f(hi);
  if ((f_lo < 0 && f_hi < 0) || (f_lo > 0 && f_hi > 0)) {
    Check(seq::Dies([&] { Bisect([&](double x) { return f(x); }, lo, hi); }),
          "signs should be opposite");
  } else {
    double const x = Bisect([&](double x) { return f(x); }, lo, hi);
    double const ulp = std::max(std::abs(Ulps(x, 1) - x),
                                std::abs(Ulps(x, -1) - x));
    CheckIsRoot(x, ulp, f, "bisection");
  }
  seq::Step();
}

SEQ_HARNESS(brent_zero, .split = 5) {
  double const lo = ChooseStart();
  int const width = Choose(seq::Thorough() ? 12 : 9) + 1;
  double const hi = Ulps(lo, width);
  Lazy f{{-1, 0.125, -0.125, 1, 0, 1e-300}, lo, hi};
  double const f_lo = f(lo);
  double const f_hi = f(hi);
  if ((f_lo < 0 && f_hi < 0) || (f_lo > 0 && f_hi > 0)) {
    Check(seq::Dies([&] { Brent([&](double x) { return f(x); }, lo, hi); }),
          "signs should be opposite");
  } else {
    // The tolerance is 4 ε, with ε half an ULP of 1.
    double const x = Brent([&](double x) { return f(x); }, lo, hi);
    CheckIsRoot(x, std::max(0x1p-1074, 2 * 0x1p-52 * std::abs(x)), f, "Brent");
    // The result is the best of the bracket.
  }
  seq::Step();
}

namespace {
constexpr int family_size = 12;
// Increasing functions with a single root at r.
double Increasing(int const which, double const r, double const x) {
  double const d = x - r;
  double const s = d < 0 ? -1 : d > 0 ? 1 : 0;
  switch (which) {
    case 0: return d;
    case 1: return d * d * d;
    case 2: return s;
    case 3: return s * std::sqrt(std::abs(d));
    case 4: return std::expm1(20 * d);
    case 5: return std::tanh(1000 * d);
    case 6: return d * 1e-300;
    case 7: return d < 0 ? d * 1e-12 : d * 1e12;
    case 8: return std::pow(d, 19);
    case 9: return s * (std::abs(d) < 1e-5 ? 1e-200 : 1);
    case 10: return d == 0 ? 0 : s * std::exp(-1 / (d * d));
    default: return std::atan(d) + 0.1 * d;
  }
}
constexpr double roots[] = {0, 0.25, 1.0 / 3, 1, -1, 0.9999, -0.3, 1e-17, 5e-10};
}  // namespace

SEQ_HARNESS(monotonic, .split = 3) {
  int const which = Choose(family_size);
  double const r = seq::Of(roots);
  double const sign = Choose(2) == 0 ? 1 : -1;
  static constexpr double bounds[] = {0, 1, 2, 1e6, -1e-3};
  double const lo = r - 1 - seq::Of(bounds) - (which == 4 ? 0 : 0.3);
  double const hi = r + 1 + seq::Of(bounds);
  if (which == 4 && hi > 30) seq::Prune();  // Overflow.
  double const origin = Choose(2) == 0 ? 0 : 1000;
  int evaluations = 0;
  Instant const t0 = Instant() + origin * Second;
  auto const f = [&](Instant const& t) {
    ++evaluations;
    Check(t0 + lo * Second <= t && t <= t0 + hi * Second, "out of bounds");
    return sign * Increasing(which, r, (t - t0) / Second) * Metre;
  };
  auto const test = [&](Instant const& t, char const* const what,
                        double const ulps, int const max_evaluations) {
    Time const ulp = 0x1p-52 * (Abs(t - Instant()) + 1e-300 * Second);
    Length const before = sign * f(std::max(t - ulps * ulp, t0 + lo * Second));
    Length const after = sign * f(std::min(t + ulps * ulp, t0 + hi * Second));
    Check(before <= 0 * Metre && after >= 0 * Metre, what, " yields ",
          (t - t0), " for a root at ", r);
    Check(evaluations <= max_evaluations, what, " takes ", evaluations,
          " evaluations");
  };
  Notes("function ", which, " root ", r, " sign ", sign, " origin ", origin,
        " [", lo, ", ", hi, "]");
  Instant t = Bisect(f, t0 + lo * Second, t0 + hi * Second);
  // With a root at zero all the exponents get explored.
  test(t, "bisection", 2, 1200);
  evaluations = 0;
  t = Brent(f, t0 + lo * Second, t0 + hi * Second);
  test(t, "Brent", 4, 2500);
  seq::Step();
}

SEQ_HARNESS(minimum, .split = 4) {
  int const which = Choose(10);
  double const r = seq::Of(roots);
  static constexpr double bounds[] = {0, 1, 2, 100};
  double const lo = r - 1 - seq::Of(bounds);
  double const hi = r + 1 + seq::Of(bounds);
  bool const at_bound = Choose(2) == 1;  // Restrict to a monotonic part.
  double const a = at_bound ? r + (hi - r) / 8 : lo;
  bool const maximum = Choose(2) == 0;
  double const sign = maximum ? -1 : 1;
  int evaluations = 0;
  auto const f = [&](double const x) {
    Check(a <= x && x <= hi, "out of bounds");
    Check(++evaluations < 10000, "does not converge");
    double const d = x - r;
    switch (which) {
      case 0: return sign * d * d;
      case 1: return sign * std::abs(d);
      case 2: return sign * std::sqrt(std::abs(d));
      case 3: return sign * d * d * d * d;
      case 4: return sign * (d < 0 ? -10 * d : d / 10);
      case 5: return sign * (std::exp(d) - 1 - d);
      case 6: return sign * -std::cos(d / 100);
      case 7: return sign * (d * d * 1e100 + 1e90);
      case 8: return sign * (d < 0 ? -1e-3 * d : d * d + 0.5);
      default: return sign * -std::exp(-d * d);
    }
  };
  double const best = at_bound ? a : r;
  // Accuracy of the location of the minimum of f due to rounding errors on f;
  // large where f is flat.
  double accuracy = 3e-7 * (1 + std::abs(r));
  if (which == 3) accuracy = 2e-2;
  if (which == 6) accuracy = 3e-5;
  if (which == 7) accuracy = 3e-7 * std::max(1 + std::abs(r), hi - lo);
  if (which == 9 && hi - lo > 30) seq::Prune();  // Flat at 0.
  if (which == 6 && hi - lo > 300) seq::Prune();
  for (int method = 0; method < 3; ++method) {
    evaluations = 0;
    double x;
    if (method == 0) {
      x = maximum ? GoldenSectionSearch(f, a, hi, std::greater<>())
                  : GoldenSectionSearch(f, a, hi, std::less<>());
    } else if (method == 1) {
      x = maximum ? Brent(f, a, hi, std::greater<>())
                  : Brent(f, a, hi, std::less<>());
    } else {
      x = maximum ? Brent(f, a, hi, std::greater<>(), 0)
                  : Brent(f, a, hi, std::less<>(), 0);
    }
    Notes("method ", method, " function ", which, " [", a, ", ", hi, "]: ", x,
          " should be ", best);
    Check(a <= x && x <= hi, "result out of bounds: ", x);
    Check(std::abs(x - best) <= accuracy, "method ", method, " yields ", x,
          " instead of ", best);
  }
  seq::Step();
}

SEQ_HARNESS(lazy_minimum, .split = 4) {
  // No assumption on the function.
  double const lo = ChooseStart();
  int const width = Choose(seq::Thorough() ? 12 : 8) + 2;
  double const hi = Ulps(lo, width);
  bool const maximum = Choose(2) == 0;
  bool const brent = Choose(2) == 0;
  Lazy f{{0, 1, -2}, lo, hi};
  auto const g = [&](double const x) { return f(x); };
  double const x =
      brent ? (maximum ? Brent(g, lo, hi, std::greater<>(), 0)
                       : Brent(g, lo, hi, std::less<>(), 0))
            : (maximum ? GoldenSectionSearch(g, lo, hi, std::greater<>())
                       : GoldenSectionSearch(g, lo, hi, std::less<>()));
  Check(lo <= x && x <= hi, "out of bounds");
  if (brent) {
    auto const it = f.known.find(x);
    Check(it != f.known.end(), "not evaluated");
    for (auto const& [y, v] : f.known) {
      Check(maximum ? v <= it->second : v >= it->second, "there is better than ",
            x, " at ", y);
    }
  }
  seq::Step();
}

SEQ_HARNESS(double_brent, .split = 4) {
  // Polynomials with 0 to 3 simple roots.
  static constexpr double values[] = {-2.5, -1, 0.125, 0.5, 2, 3.5, 4, 7};
  int const n = Choose(4);
  double const scale = Choose(2) == 0 ? 1 : -1e-3;
  std::vector<double> rs;
  int at = 0;
  for (int i = 0; i < n; ++i) {
    if (at >= 8) seq::Prune();
    at += Choose(8 - at);
    rs.push_back(values[at++]);
  }
  bool const constant_factor = Choose(2) == 0;
  double const lo = -3;
  double const hi = Choose(2) == 0 ? 8 : 4;
  auto const f = [&](double const x) {
    double r = scale * (constant_factor ? 1 : x * x + 1);
    for (double const y : rs) r *= x - y;
    return r;
  };
  auto const zeroes = DoubleBrent(f, lo, hi);
  std::vector<double> expected;
  for (double const r : rs) {
    if (r <= hi) expected.push_back(r);
  }
  for (double const z : zeroes) {
    Check(std::any_of(expected.begin(), expected.end(),
                      [&](double const e) { return std::abs(z - e) < 1e-6; }),
          "spurious zero ", z);
  }
  // A pair of zeroes may be missed if the search for an extremum finds another
  // one.
  for (double const e : expected) {
    if (expected.size() > 2 || n > 2) break;
    Check(std::any_of(zeroes.begin(), zeroes.end(),
                      [&](double const z) { return std::abs(z - e) < 1e-6; }),
          "missing zero ", e);
  }
  Check(expected.size() % 2 == 0 || !zeroes.empty(), "no zero found");
  seq::Step();
}

SEQ_HARNESS(quadratic, .split = 3) {
  // a₂ (x - p) (x - q), where everything is exact.
  static constexpr double values[] = {0, 1, -1, 3, 0x1p-20, 0x1p20, -7,
                                      1 + 0x1p-20, 1 - 0x1p-20, 0x1p-40,
                                      3 + 0x1p-19};
  static constexpr double leading[] = {1, -1, 3, 0x1p-30, -0x1p30, 5};
  double const p = seq::Of(values);
  double const q = seq::Of(values);
  double const a2 = seq::Of(leading);
  static constexpr double origins[] = {0, 16};
  double const origin = seq::Of(origins);
  double const perturbation = Choose(3) - 1;
  __int128 const unit = static_cast<__int128>(1) << 62;
  double const a1 = -a2 * (p + q);
  double a0 = a2 * p * q;
  if (a0 / a2 / (p == 0 ? 1 : p) != (p == 0 ? 0 : q)) seq::Prune();
  if (perturbation != 0) {
    if (a0 == 0 || p != q) seq::Prune();
    a0 = Ulps(a0, perturbation);
  }
  auto const solutions = SolveQuadraticEquation(
      Instant() + origin * Second, a0 * Metre, a1 * Metre / Second,
      a2 * Metre / Second / Second);
  std::vector<double> x;
  for (auto const& s : solutions) x.push_back((s - Instant()) / Second);
  (void)unit;
  if (perturbation != 0) {
    // A double root splits or disappears.
    bool const none = (a0 / a2 > p * q);
    CheckEq(static_cast<int>(x.size()), none ? 0 : 2, "perturbed double root");
    for (double const y : x) {
      Check(std::abs(y - origin - p) <= 1e-7 * std::abs(p) +
                                            4e-15 * std::abs(origin),
            "perturbed double root ", y);
    }
  } else {
    // Not all the products above may be exact.
    double const lo = std::min(p, q);
    double const hi = std::max(p, q);
    if (p + q - q != p || p + q - p != q) seq::Prune();
    CheckEq(static_cast<int>(x.size()), lo == hi ? 1 : 2, "number of solutions");
    auto const near = [&](double const y, double const r) {
      Check(std::abs(y - (r + origin)) <= 1e-15 * (std::abs(r) + origin),
            "solution ", y, " should be ", r, " + ", origin);
    };
    near(x.front(), lo);
    near(x.back(), hi);
    Check(std::is_sorted(x.begin(), x.end()), "not sorted");
  }
  seq::Step();
}

SEQ_HARNESS(no_solution, .split = 3) {
  int const a0 = Choose(13) - 6;
  int const a1 = Choose(13) - 6;
  int const a2 = Choose(13) - 6;
  if (a2 == 0) seq::Prune();
  auto const solutions = SolveQuadraticEquation<double, double>(0, a0, a1, a2);
  int const discriminant = a1 * a1 - 4 * a0 * a2;
  CheckEq(static_cast<int>(solutions.size()),
          discriminant < 0 ? 0 : discriminant == 0 ? 1 : 2, "solutions");
  double previous = -1e300;
  for (double const x : solutions) {
    Check(x > previous, "order");
    previous = x;
    Check(std::abs((a2 * x + a1) * x + a0) <= 1e-13 * (1 + x * x), "at ", x);
  }
  seq::Step();
}

namespace {
// The maximum of |p| over a fine grid.
template<typename F>
double GridMaximum(F const& f, double const lo, double const hi) {
  double m = 0;
  for (int i = 0; i <= 256; ++i) m = std::max(m, f(lo + (hi - lo) * i / 256));
  return m;
}
}  // namespace

SEQ_HARNESS(hermite, .split = 4) {
  double const lo = Choose(2) == 0 ? 0 : -3;
  double const Δ = Choose(2) == 0 ? 1 : 4;
  double const hi = lo + Δ;
  double const v0 = Choose(5) - 2, v1 = Choose(5) - 2;
  double const d0 = Choose(5) - 2, d1 = Choose(7) - 3;
  Instant const t0;
  auto const at = [&](double const t) { return t0 + t * Second; };
  {
    Hermite3<Length, Instant> const h(
        {at(lo), at(hi)}, {v0 * Metre, v1 * Metre},
        {d0 * Metre / Second, d1 * Metre / Second});
    Check(h(at(lo)) == v0 * Metre, "lower value");
    Check(Abs(h(at(hi)) - v1 * Metre) <= 1e-14 * Metre, "upper value ",
          h(at(hi)));
    Check(h.EvaluateDerivative(at(lo)) == d0 * Metre / Second, "derivative");
    Check(Abs(h.EvaluateDerivative(at(hi)) - d1 * Metre / Second) <=
              1e-14 * Metre / Second,
          "upper derivative");
    // The cubic.
    double const s = (v1 - v0) / Δ;
    double const a2 = (3 * s - 2 * d0 - d1) / Δ;
    double const a3 = (d0 + d1 - 2 * s) / (Δ * Δ);
    auto const value = [&](double const t) {
      double const u = t - lo;
      return v0 + u * (d0 + u * (a2 + u * a3));
    };
    auto const derivative = [&](double const t) {
      double const u = t - lo;
      return d0 + u * (2 * a2 + u * 3 * a3);
    };
    std::vector<std::pair<Instant, Length>> samples;
    double worst = 0;
    for (int i = 0; i <= 8; ++i) {
      double const t = lo + Δ * i / 8;
      Length v;
      Speed d;
      h.EvaluateWithDerivative(at(t), v, d);
      Check(Abs(v - value(t) * Metre) <= 1e-13 * Metre, "value at ", t);
      Check(Abs(d - derivative(t) * Metre / Second) <= 1e-13 * Metre / Second,
            "derivative at ", t);
      Check(h(at(t)) == v && h.EvaluateDerivative(at(t)) == d);
      samples.emplace_back(at(t), value(t) * Metre + (i % 3 - 1) * i * Metre);
      worst = std::max<double>(worst, std::abs((i % 3 - 1) * i));
    }
    using Sample = std::pair<Instant, Length>;
    std::function<Instant const&(Sample const&)> const get_argument =
        [](Sample const& s) -> Instant const& { return s.first; };
    std::function<Length const&(Sample const&)> const get_value =
        [](Sample const& s) -> Length const& { return s.second; };
    Length const error = h.LInfinityL₂Error(samples, get_argument, get_value);
    Check(Abs(error - worst * Metre) <= 1e-12 * Metre, "error ", error,
          " should be ", worst);
    Check(h.LInfinityL₂ErrorIsWithin(samples, get_argument, get_value,
                                     worst * Metre + 1e-9 * Metre),
          "within");
    Check(!h.LInfinityL₂ErrorIsWithin(samples, get_argument, get_value,
                                      worst * Metre - 1e-9 * Metre),
          "not within");

    // The extrema: changes of the sign of the derivative over a grid.
    auto const extrema = h.FindExtrema();
    Instant previous = at(lo - 1);
    double largest = 0;
    for (auto const& e : extrema) {
      Check(at(lo) <= e && e <= at(hi), "extremum out of bounds ", e);
      Check(e >= previous, "extrema not sorted");
      previous = e;
      double const x = (e - t0) / Second;
      Check(std::abs(derivative(x)) <= 1e-7, "not an extremum: ", x);
      largest = std::max(largest, std::abs(value(x)));
    }
    int changes = 0;
    double last = derivative(lo);
    for (int i = 1; i <= 997; ++i) {
      double const t = lo + Δ * i / 997;
      double const d = derivative(t);
      if (last * d < 0 && std::abs(last) > 1e-9 && std::abs(d) > 1e-9) {
        ++changes;
        Check(std::any_of(extrema.begin(), extrema.end(),
                          [&](Instant const& e) {
                            return at(t - Δ / 800) <= e && e <= at(t + Δ / 800);
                          }),
              "missing extremum around ", t);
      }
      if (std::abs(d) > 1e-9) last = d;
    }
    double const maximum =
        GridMaximum([&](double const t) { return std::abs(value(t)); }, lo, hi);
    double const bound = h.LInfinityL₁NormUpperBound() / Metre;
    Check(bound >= largest - 1e-9, "bound ", bound);
    seq::CheckUnlessKnown("hermite3-bound-ends", bound >= maximum - 1e-9,
                          "the upper bound of the norm is ", bound,
                          " but the norm reaches ", maximum);
    Check(bound <= maximum + 0.01 * Δ, "bound ", bound, " too large for ",
          maximum);
    // Arithmetic.
    Hermite3<Length, Instant> const g(
        {at(lo), at(hi - Δ / 2)}, {1 * Metre, -2 * Metre},
        {3 * Metre / Second, 0 * Metre / Second});
    for (double const t : {lo, lo + Δ / 4, lo + Δ / 2}) {
      Check(Abs((h + g)(at(t)) - h(at(t)) - g(at(t))) <= 1e-12 * Metre);
      Check(Abs((h - g)(at(t)) - h(at(t)) + g(at(t))) <= 1e-12 * Metre);
      Check(Abs((g - h)(at(t)) + h(at(t)) - g(at(t))) <= 1e-12 * Metre);
      Check((-h)(at(t)) == -h(at(t)) && (+h)(at(t)) == h(at(t)));
    }
    for (auto const& e : (h + g).FindExtrema()) {
      Check(e <= at(hi - Δ / 2), "extremum beyond the bounds of the sum");
    }
  }
  if (v0 == 0 && d0 == 0) {
    // A vector-valued polynomial with a double root.
    for (double const w : {0.0, 1.0, -5.0}) {
      for (double const z : {0.0, -4.0}) {
        Hermite3<Displacement<World>, Instant> const h(
            {at(lo), at(hi)},
            {Displacement<World>{},
             Displacement<World>({v1 * Metre, w * Metre, 0 * Metre})},
            {Velocity<World>{},
             Velocity<World>({d1 * Metre / Second, 0 * Metre / Second,
                              z * Metre / Second})});
        double const maximum = GridMaximum(
            [&](double const t) { return h(at(t)).Norm() / Metre; }, lo, hi);
        double const norm = h.LInfinityL₂Norm() / Metre;
        Check(norm >= maximum - 1e-12, "norm ", norm, " < ", maximum);
        Check(norm <= maximum * 1.0001 + 1e-12, "norm ", norm, " ≫ ", maximum);
      }
    }
  }
  {
    // Second degree, with the derivative at either end.
    for (bool const backward : {false, true}) {
      double const first = backward ? hi : lo;
      double const second = backward ? lo : hi;
      Hermite2<Length, Instant> const h({at(first), at(second)},
                                        {v0 * Metre, v1 * Metre},
                                        d0 * Metre / Second);
      Check(h.Evaluate(at(first)) == v0 * Metre, "value");
      Check(Abs(h.Evaluate(at(second)) - v1 * Metre) <= 1e-14 * Metre, "value");
      Check(h.EvaluateDerivative(at(first)) == d0 * Metre / Second);
      // Exactly quadratic.
      Check(Abs(h.Evaluate(at((first + second) / 2)) -
                (v0 + v1) / 2 * Metre -
                (d0 * (second - first) - (v1 - v0)) / 4 * Metre) <=
                1e-13 * Metre,
            "middle value");
      if (d0 * (second - first) != v1 - v0) {
        Instant const e = h.FindExtremum();
        Check(Abs(h.EvaluateDerivative(e)) <= 1e-13 * Metre / Second,
              "extremum");
      }
    }
  }
  seq::Step();
}

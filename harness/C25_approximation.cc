// C25: interpolation and Newhall approximation in the Чебышёв basis.
#include "geometry/barycentre_calculator.hpp"
#include "geometry/direct_sum.hpp"
#include "geometry/grassmann.hpp"
#include "harness/dense.h"
#include "harness/principia.h"
#include "numerics/approximation.hpp"
#include "numerics/newhall.hpp"
#include "numerics/polynomial_evaluators.hpp"
#include "numerics/polynomial_in_monomial_basis.hpp"
#include "numerics/polynomial_in_чебышёв_basis.hpp"
#include "numerics/чебышёв_lobatto.hpp"
#include "serialization/geometry.pb.h"

using namespace dense;
using namespace principia::geometry::_direct_sum;
using namespace principia::geometry::_grassmann;
using namespace principia::numerics::_approximation;
using namespace principia::numerics::_newhall;
using namespace principia::numerics::_polynomial;
using namespace principia::numerics::_polynomial_evaluators;
using namespace principia::numerics::_polynomial_in_monomial_basis;
using namespace principia::numerics::_polynomial_in_чебышёв_basis;
using namespace principia::numerics::_чебышёв_lobatto;
using seq::Notes;

namespace {
using World = Frame<serialization::Frame::TestTag, Inertial,
                    Handedness::Right, serialization::Frame::TEST>;

template<int N>
void TestLobatto() {
  long double const π = 3.141592653589793238462643383279502884L;
  for (int k = 1; k <= N; k += 2) {
    long double const expected = std::cos(π * k / N);
    double const actual = ЧебышёвLobattoPoint<N>(k);
    // The angle is rounded.
    Check(std::abs(actual - expected) <= 6e-16L, "point ", k, " of ", N, ": ",
          actual, " should be ", static_cast<double>(expected));
  }
  seq::Step();
}

// Functions with various degrees of smoothness.
double F(int const which, double const x) {
  switch (which) {
    case 0: return 3;
    case 1: return 2 * x - 1;
    case 2: return x * x + x - 3;
    case 3: return x * x * x - 2 * x * x + 5;
    case 4: return std::sin(3 * x);
    case 5: return std::exp(x);
    case 6: return std::abs(x - 0.3);
    case 7: return 1 / (1 + 25 * x * x);
    case 8: return ((8 * x * x * x - 4) * x + x * x) * x - 1;  // Degree 5.
    default: return x < 0.1 ? -1 : 1;
  }
}

template<int max_degree>
void TestInterpolant() {
  int const which = Choose(10);
  static constexpr double errors[] = {1e-14, 1e-9, 1e-4, 0.1, 10};
  double const max_error = seq::Of(errors);
  double const lo = Choose(2) == 0 ? -1 : -0.7;
  double const hi = Choose(2) == 0 ? 1 : 2.3;
  Instant const t0;
  Instant const a = t0 + lo * Second;
  Instant const b = t0 + hi * Second;
  std::set<Instant> evaluated;
  auto const f = [&](Instant const& t) {
    Check(a - 1e-15 * Second <= t && t <= b + 1e-15 * Second,
          "evaluation out of bounds");
    evaluated.insert(t);
    return F(which, (t - t0) / Second) * Metre;
  };
  Length error = -1 * Metre;
  auto const p = ЧебышёвPolynomialInterpolant<max_degree>(
      f, a, b, max_error * Metre, &error);
  int const degree = p->degree();
  Notes("function ", which, " error ", max_error, " in [", lo, ", ", hi,
        "], degree ", degree, ", estimate ", error);
  Check(p->lower_bound() == a && p->upper_bound() == b, "bounds");
  Check(error >= 0 * Metre, "error");
  Check(error <= max_error * Metre || 2 * degree > max_degree,
        "error too large");
  Check((degree & (degree - 1)) == 0 && degree <= max_degree, "degree");
  // The polynomial interpolates at the points of its degree, and is within the
  // error estimate at those of twice the degree.
  double const ε = 1e-13 * (1 + degree);
  for (int k = 0; k <= 2 * degree; ++k) {
    Instant const t = t0 + ((hi + lo) / 2 + (hi - lo) / 2 *
                                                std::cos(M_PI * k /
                                                         (2 * degree))) *
                               Second;
    Length const expected = F(which, (t - t0) / Second) * Metre;
    Check(Abs((*p)(t) - expected) <= error + ε * Metre, "error at ", k, ": ",
          (*p)(t), " vs. ", expected);
    // Not close to the discontinuity.
    if (k % 2 == 0 && which != 9) {
      Check(Abs((*p)(t) - expected) <= ε * Metre, "no interpolation at ", k,
            ": ", (*p)(t), " vs. ", expected);
    }
  }
  CheckEq(static_cast<int>(evaluated.size()), 2 * degree + 1, "evaluations");
  // No estimate is requested.
  auto const q = ЧебышёвPolynomialInterpolant<max_degree>(f, a, b,
                                                          max_error * Metre);
  CheckEq(q->degree(), degree);
  CheckEq((*q)(a), (*p)(a));
  // A polynomial is exactly represented if the degree and error permit.
  static constexpr int degrees[] = {0, 1, 2, 3, -1, -1, -1, -1, 5, -1};
  if (degrees[which] >= 0 && max_error < 1e-3) {
    if (degree >= degrees[which]) {
      for (int k = 0; k <= 100; ++k) {
        Instant const t = a + k / 100.0 * (b - a);
        Check(Abs((*p)(t) - F(which, (t - t0) / Second) * Metre) <=
                  2 * max_error * Metre + ε * Metre,
              "polynomial at ", k);
      }
    }
  }
  seq::Step();
}

template<int max_degree>
void TestAdaptive() {
  static constexpr int functions[] = {1, 3, 4, 6, 7, 9};
  int const which = seq::Of(functions);
  double const max_error = Choose(2) == 0 ? 1e-6 : 1e-2;
  int const stop_at = Choose(4);  // 3 to never stop.
  bool const streaming = stop_at < 3 || Choose(2) == 0;
  bool const with_estimate = Choose(2) == 0;
  double const lo = -1;
  double const hi = 2;
  struct Interval {
    double lo, hi, error;
    bool subdivided = false;
  };
  int decisions = 0;
  int const max_decisions = seq::Thorough() ? 7 : 5;
  std::vector<Interval> asked;
  auto const subdivide = [&](auto const& interpolant, double const& error) {
    asked.push_back(
        {interpolant.lower_bound(), interpolant.upper_bound(), error});
    Check(error > max_error, "subdivide called but error ", error);
    ++decisions;
    // All the decisions for the first intervals, then no subdivision.
    asked.back().subdivided = decisions <= max_decisions && Choose(2) == 0;
    return asked.back().subdivided;
  };
  std::vector<Interval> produced;
  auto const record = [&](auto const& p) {
    double const lo = p.lower_bound();
    double const hi = p.upper_bound();
    double error = -1;
    ЧебышёвPolynomialInterpolant<max_degree>(
        [&](double const x) { return F(which, x); }, lo, hi, max_error, &error);
    produced.push_back({lo, hi, error});
    double const ε = 1e-12 * (1 + p.degree());
    for (int k = 0; k <= p.degree(); ++k) {
      double const x = std::clamp(
          (hi + lo) / 2 + (hi - lo) / 2 * std::cos(M_PI * k / p.degree()), lo,
          hi);
      if (which != 9) {
        Check(std::abs(p(x) - F(which, x)) <= ε, "interpolation at ", x);
      }
    }
  };
  auto const f = [&](double const x) {
    Check(lo <= x && x <= hi, "evaluation out of bounds");
    return F(which, x);
  };
  double estimate = -1;
  bool stopped = false;
  if (streaming) {
    StreamingAdaptiveЧебышёвPolynomialInterpolant<max_degree>(
        f, lo, hi, max_error,
        SubdivisionPredicate<double, double>(subdivide),
        TerminationPredicate<double, double>([&](auto interpolant) {
          Check(!stopped, "production continues after stop");
          record(*interpolant);
          stopped = static_cast<int>(produced.size()) == stop_at + 1 &&
                    stop_at < 3;
          return stopped;
        }),
        with_estimate ? &estimate : nullptr);
  } else {
    auto const interpolants = AdaptiveЧебышёвPolynomialInterpolant<max_degree>(
        f, lo, hi, max_error, SubdivisionPredicate<double, double>(subdivide),
        with_estimate ? &estimate : nullptr);
    for (auto const& p : interpolants) record(*p);
  }
  Check(!produced.empty(), "nothing produced");
  double at = lo;
  double worst = 0;
  for (auto const& i : produced) {
    CheckEq(i.lo, at, "not contiguous");
    Check(i.hi > i.lo, "empty");
    at = i.hi;
    worst = std::max(worst, i.error);
    // Either it's accurate, or the user doesn't want it to be divided.
    bool refused = false;
    for (auto const& a : asked) {
      if (a.lo == i.lo && a.hi == i.hi) {
        Check(!a.subdivided, "should have been subdivided");
        refused = true;
      }
    }
    Check(i.error <= max_error || refused, "error ", i.error);
  }
  if (!stopped) CheckEq(at, hi, "does not cover the interval");
  if (with_estimate && !stopped) CheckEq(estimate, worst, "error estimate");
  if (with_estimate && stopped) {
    Check(std::any_of(produced.begin(), produced.end(), [&](auto const& i) {
      return i.error == estimate;
    }), "error estimate");
  }
  // The midpoints of the subdivided intervals are bounds.
  for (auto const& a : asked) {
    if (a.subdivided && !stopped) {
      Check(std::any_of(produced.begin(), produced.end(), [&](auto const& i) {
        return i.lo == (a.lo + a.hi) / 2;
      }), "not subdivided");
    }
  }
  seq::Step();
}

template<int degree>
void TestNewhall() {
  static constexpr double centres[] = {0, 100, -3};
  static constexpr double half_widths[] = {1, 4, 0.125};
  double const centre = seq::Of(centres);
  double const h = seq::Of(half_widths);
  using V = Vector<Length, World>;
  V const unit({2 * Metre, -1 * Metre, 3 * Metre});
  // The monomials ((t - centre) / h)^k, and a dense polynomial; beyond `degree`
  // only the matching of the ends is required.
  int const k = Choose(20);
  Vec p(18);
  if (k < 18) {
    p[k] = 1;
  } else if (k == 18) {
    for (int i = 0; i <= degree; ++i) p[i] = 1.0 / (1 + i) - 0.3;
  } else {
    for (int i = 0; i < degree; ++i) p[i] = i % 3 - 1;
  }
  Vec d;
  for (int i = 1; i < 18; ++i) d.push_back(i * p[i]);
  bool const exact = k <= degree || k >= 18;
  Instant const t_mid = Instant() + centre * Second;
  Instant const t_min = t_mid - h * Second;
  Instant const t_max = t_mid + h * Second;
  std::vector<DirectSum<V, Velocity<World>>> qvs;
  for (int i = 0; i <= 8; ++i) {
    double const x = -1 + i / 4.0;
    qvs.push_back({Evaluate(p, x) * unit,
                   Evaluate(d, x) * unit / (h * Second)});
  }
  V error({17 * Metre, 17 * Metre, 17 * Metre});
  auto const c = NewhallApproximationInЧебышёвBasis<V, degree>(
      qvs, t_min, t_max, error);
  V error_m = -2 * error;
  auto const m =
      NewhallApproximationInMonomialBasis<V, degree, Horner>(qvs, t_min, t_max,
                                                             error_m);
  V error_c2 = -2 * error;
  auto const c2 = NewhallApproximationInЧебышёвBasis<V>(degree, qvs, t_min,
                                                        t_max, error_c2);
  V error_m2 = -2 * error;
  auto const m2 = NewhallApproximationInMonomialBasis<V>(
      degree, qvs, t_min, t_max, Policy::AlwaysEstrin(), error_m2);
  Check(c.lower_bound() == t_min && c.upper_bound() == t_max, "bounds");
  CheckEq(m.origin(), t_mid);
  Check(error_c2 == error && error_m2 == error_m, "dynamic degree");
  CheckEq(c2->degree(), degree);
  CheckEq(m2->degree(), degree);
  // The matrices of higher degrees have larger elements.
  double const tolerance = degree <= 12 ? 1e-11 : 1e-9;
  auto const check = [&](V const& actual, V const& expected,
                         char const* const what, double const x) {
    Check((actual - expected).Norm() <= tolerance * Metre, what, " degree ",
          degree, " polynomial ", k, " at ", x, ": ", actual, " should be ",
          expected);
  };
  for (int i = 0; i <= 32; ++i) {
    double const x = -1 + i / 16.0;
    Instant const t = t_mid + h * x * Second;
    Time const s = h * Second;
    V const value = Evaluate(p, x) * unit;
    V const derivative = Evaluate(d, x) * unit;
    if (exact || i == 0 || i == 32) {
      check(c(t), value, "value, Чебышёв", x);
      check(c.EvaluateDerivative(t) * s / 32, derivative / 32,
            "derivative, Чебышёв", x);
    }
    check(m(t), c(t), "value, monomial", x);
    check(m.EvaluateDerivative(t) * s / 32, c.EvaluateDerivative(t) * s / 32,
          "derivative, monomial", x);
    Check((*c2)(t) == c(t), "dynamic degree, Чебышёв");
    check((*m2)(t), m(t), "dynamic degree, monomial", x);
  }
  // The error estimate is the last coefficient.
  if (exact) {
    V const last = k == 19 || k < degree ? V{}
                                         : p[degree] / std::pow(2, degree - 1) *
                                               unit;
    check(error, last, "error estimate, Чебышёв", 0);
    check(error_m, last, "error estimate, monomial", 0);
  }
  check(error_m, error, "error estimates", 0);
  seq::Step();
}
}  // namespace

SEQ_HARNESS(lobatto, .split = 1) {
  switch (Choose(9)) {
    case 0: TestLobatto<2>(); break;
    case 1: TestLobatto<4>(); break;
    case 2: TestLobatto<8>(); break;
    case 3: TestLobatto<16>(); break;
    case 4: TestLobatto<32>(); break;
    case 5: TestLobatto<64>(); break;
    case 6: TestLobatto<128>(); break;
    case 7: TestLobatto<256>(); break;
    case 8: TestLobatto<512>(); break;
  }
}
SEQ_HARNESS(interpolant, .split = 2) {
  switch (Choose(4)) {
    case 0: TestInterpolant<4>(); break;
    case 1: TestInterpolant<8>(); break;
    case 2: TestInterpolant<16>(); break;
    case 3: TestInterpolant<64>(); break;
  }
}
SEQ_HARNESS(adaptive, .split = 4) {
  switch (Choose(2)) {
    case 0: TestAdaptive<4>(); break;
    case 1: TestAdaptive<8>(); break;
  }
}
SEQ_HARNESS(newhall, .split = 2) {
  switch (Choose(15)) {
    case 0: TestNewhall<3>(); break;
    case 1: TestNewhall<4>(); break;
    case 2: TestNewhall<5>(); break;
    case 3: TestNewhall<6>(); break;
    case 4: TestNewhall<7>(); break;
    case 5: TestNewhall<8>(); break;
    case 6: TestNewhall<9>(); break;
    case 7: TestNewhall<10>(); break;
    case 8: TestNewhall<11>(); break;
    case 9: TestNewhall<12>(); break;
    case 10: TestNewhall<13>(); break;
    case 11: TestNewhall<14>(); break;
    case 12: TestNewhall<15>(); break;
    case 13: TestNewhall<16>(); break;
    case 14: TestNewhall<17>(); break;
  }
}

// C25: polynomials in the Чебышёв basis.
#include "geometry/barycentre_calculator.hpp"
#include "geometry/grassmann.hpp"
#include "harness/dense.h"
#include "harness/principia.h"
#include "numerics/polynomial.hpp"
#include "numerics/polynomial_in_чебышёв_basis.hpp"
#include "serialization/geometry.pb.h"
#include "serialization/numerics.pb.h"

using namespace principia::geometry::_grassmann;
using namespace principia::numerics::_polynomial;
using namespace principia::numerics::_polynomial_in_чебышёв_basis;
using namespace dense;
using seq::Notes;

namespace {
using World = Frame<serialization::Frame::TestTag, Inertial,
                    Handedness::Right, serialization::Frame::TEST>;

// The coefficients of Tₖ in the monomial basis.
Vec BasisPolynomial(int const k) {
  Vec a = {1}, b = {0, 1};
  for (int i = 0; i < k; ++i) {
    Vec c(b.size() + 1);
    for (std::size_t j = 0; j < b.size(); ++j) c[j + 1] = 2 * b[j];
    for (std::size_t j = 0; j < a.size(); ++j) c[j] -= a[j];
    a = b;
    b = c;
  }
  return a;
}
Vec Monomials(Vec const& чебышёв) {
  Vec r(чебышёв.size());
  for (std::size_t k = 0; k < чебышёв.size(); ++k) {
    Vec const t = BasisPolynomial(k);
    for (std::size_t j = 0; j < t.size(); ++j) r[j] += чебышёв[k] * t[j];
  }
  return r;
}
Vec Diff(Vec const& p) {
  Vec r;
  for (std::size_t i = 1; i < p.size(); ++i) r.push_back(i * p[i]);
  if (r.empty()) r.push_back(0);
  return r;
}

template<typename Value, typename Argument, int degree>
auto Make(Vec const& c, Value const& unit, Argument const& a,
          Argument const& b) {
  using P = PolynomialInЧебышёвBasis<Value, Argument, degree>;
  typename P::Coefficients coefficients;
  for (int i = 0; i <= degree; ++i) coefficients[i] = c[i] * unit;
  return P(coefficients, a, b);
}

template<typename P>
void ReadOld(P const& p, serialization::Polynomial const& message) {
  using Value = typename P::Value;
  using Argument = typename P::Argument;
  if constexpr (std::is_same_v<Argument, Instant>) {
    serialization::ЧебышёвSeries old;
    auto const& extension = message.GetExtension(
        serialization::PolynomialInЧебышёвBasis::extension);
    for (auto const& c : extension.coefficient()) {
      auto* const o = old.add_coefficient();
      if (c.has_double_()) o->set_double_(c.double_());
      if (c.has_quantity()) *o->mutable_quantity() = c.quantity();
      if (c.has_multivector()) *o->mutable_multivector() = c.multivector();
    }
    *old.mutable_lower_bound() = extension.lower_bound().point();
    *old.mutable_upper_bound() = extension.upper_bound().point();
    auto const q = PolynomialInЧебышёвBasis<Value, Argument>::ReadFromMessage(
        old);
    Check(dynamic_cast<P const&>(*q) == p, "old message");
  }
}

template<typename Value, typename Argument, int degree>
void TestEvaluation(Value const& unit, Argument const& a, Argument const& b) {
  Vec c(degree + 1);
  int const k = Choose(degree + 2);
  if (k == 0) {
    static constexpr double values[] = {3, -1, 4, 2, -5, 9, -2, 6};
    for (int i = 0; i <= degree; ++i) c[i] = values[i % 8];
  } else {
    c[k - 1] = 3;
  }
  auto const p = Make<Value, Argument, degree>(c, unit, a, b);
  Vec const m = Monomials(c);
  auto const width = b - a;
  Polynomial<Value, Argument> const& base = p;
  auto const norm = [](auto const& v) {
    if constexpr (requires { v.Norm(); }) {
      return v.Norm();
    } else {
      return Abs(v);
    }
  };
  double size = 0;
  for (double const x : c) size += std::abs(x);
  for (int i = 0; i <= 16; ++i) {
    double const x = -1 + i / 8.0;
    Argument const t = a + (i / 16.0) * width;
    Value const value = Evaluate(m, x) * unit;
    auto const derivative = Evaluate(Diff(m), x) * 2 * unit / width;
    // Rounding errors grow linearly for the value and cubically for the
    // derivative; for large degrees the oracle itself, with coefficients up to
    // 2^degree, is not exact except at a few points.
    double const ε = degree <= 8 ? 1e-14 * (degree + 1) : 1e-12 * degree;
    auto const tolerance = ε * size * norm(unit);
    auto const derivative_tolerance =
        ε * (1 + degree * degree) * size * norm(unit / width);
    auto const check = [&](Value const& v, char const* const what) {
      Check(norm(v - value) <= tolerance, what, ": degree ", degree,
            " coefficient ", k, " at ", x, ": ", v, " should be ", value);
    };
    auto const check_derivative = [&](auto const& v, char const* const what) {
      Check(norm(v - derivative) <= derivative_tolerance, what, ": degree ",
            degree, " coefficient ", k, " at ", x, ": ", v, " should be ",
            derivative);
    };
    check(p(t), "value");
    check(base(t), "virtual value");
    check_derivative(p.EvaluateDerivative(t), "derivative");
    check_derivative(base.EvaluateDerivative(t), "virtual derivative");
    Value v = 17 * unit;
    auto d = 17 * unit / width;
    p.EvaluateWithDerivative(t, v, d);
    check(v, "value with derivative");
    check_derivative(d, "derivative with value");
    v = 17 * unit;
    d = 17 * unit / width;
    base.EvaluateWithDerivative(t, v, d);
    check(v, "virtual value with derivative");
    check_derivative(d, "virtual derivative with value");
  }
  CheckEq(base.degree(), degree);
  Check(!base.is_zero());
  Check((Make<Value, Argument, degree>(Vec(degree + 1), unit, a, b).is_zero()));
  Check(p.lower_bound() == a && p.upper_bound() == b, "bounds");

  serialization::Polynomial message;
  base.WriteToMessage(&message);
  serialization::Polynomial parsed;
  Check(parsed.ParseFromString(message.SerializeAsString()));
  using P = std::remove_const_t<decltype(p)>;
  Check(P::ReadFromMessage(parsed) == p, "different after serialization");
  auto other = c;
  other[degree] += 1;
  Check((Make<Value, Argument, degree>(other, unit, a, b) != p));
  Check((Make<Value, Argument, degree>(c, unit, a, b + width) != p));
  ReadOld(p, parsed);
  seq::Step();
}

template<int degree>
void TestType() {
  switch (Choose(4)) {
    case 0: {
      TestEvaluation<double, double, degree>(1, -1, 1);
      break;
    }
    case 1: {
      TestEvaluation<Length, Time, degree>(2 * Metre, 3 * Second, 11 * Second);
      break;
    }
    case 2: {
      TestEvaluation<Length, Instant, degree>(
          2 * Metre, Instant() - 16 * Second, Instant() + 48 * Second);
      break;
    }
    case 3: {
      TestEvaluation<Vector<Length, World>, Instant, degree>(
          Vector<Length, World>({1 * Metre, -2 * Metre, 2 * Metre}),
          Instant() + 16 * Second, Instant() + 20 * Second);
      break;
    }
  }
}

// All the roots of p (which is squarefree) in [-1, 1].
std::vector<double> TrueRoots(Vec const& p) {
  // The roots of the derivative separate those of p.
  if (p.size() == 1) return {};
  Vec d = Diff(p);
  std::vector<double> points = {-1};
  for (double const x : TrueRoots(d)) points.push_back(x);
  points.push_back(1);
  std::vector<double> roots;
  for (std::size_t i = 0; i + 1 < points.size(); ++i) {
    double lo = points[i], hi = points[i + 1];
    double const f = Evaluate(p, lo);
    double const g = Evaluate(p, hi);
    if (f == 0 && (roots.empty() || roots.back() != lo)) roots.push_back(lo);
    if (g == 0) {
      if (hi != lo) roots.push_back(hi);
      continue;
    }
    if (f == 0 || (f < 0) == (g < 0)) continue;
    for (int j = 0; j < 80; ++j) {
      double const m = (lo + hi) / 2;
      ((Evaluate(p, m) < 0) == (f < 0) ? lo : hi) = m;
    }
    roots.push_back((lo + hi) / 2);
  }
  return roots;
}

template<int degree>
void TestRoots() {
  Vec c(degree + 1);
  int const r = degree <= 4 ? 3 : seq::Thorough() ? 2 : 1;
  bool zero = true;
  for (double& x : c) {
    x = Choose(2 * r + 1) - r;
    zero &= x == 0;
  }
  if (zero) seq::Prune();
  double const lo = Choose(2) == 0 ? -1 : 6;
  double const hi = lo == -1 ? 1 : 14;
  auto const p = Make<double, double, degree>(c, 1, lo, hi);
  Vec m = Monomials(c);
  while (m.back() == 0) m.pop_back();
  int const count = m.size() == 1 ? 0 : RealRoots(m);
  auto const unscaled = [&](double const x) {
    return (2 * x - lo - hi) / (hi - lo);
  };
  auto const roots = p.RealRoots(0x1p-50);
  for (double const x : roots) {
    Check(lo <= x && x <= hi, "root ", x, " out of bounds");
    Check(std::abs(Evaluate(m, unscaled(x))) <= 1e-6, x, " is not a root: ",
          p(x));
  }
  if (count >= 0) {
    std::vector<double> const expected = TrueRoots(m);
    int found = 0;
    for (double const e : expected) {
      int close = 0;
      for (double const x : roots) {
        close += std::abs(unscaled(x) - e) <= 1e-9;
      }
      // Roots at the very bounds may be missed because of rounding.
      Check(close == 1 || (std::abs(e) > 1 - 1e-12 && close == 0),
            "root ", e, " found ", close, " times");
      found += close;
    }
    CheckEq(static_cast<int>(roots.size()), found, "spurious root");
    for (double const error : {0.0, 0.5, 2.0}) {
      bool exists = !expected.empty();
      for (int i = 0; i <= 64; ++i) {
        exists |= std::abs(Evaluate(m, -1 + i / 32.0)) <= error;
      }
      bool const may = p.MayHaveRealRoots(error);
      Check(!exists || may, "should have roots, error ", error);
      double sum = 0;
      for (int i = 1; i <= degree; ++i) sum += std::abs(c[i]);
      Check(may || std::abs(c[0]) > sum + error, "error ", error);
    }
  }
  seq::Step();
}
}  // namespace

SEQ_HARNESS(evaluation, .split = 2) {
  switch (Choose(8)) {
    case 0: TestType<0>(); break;
    case 1: TestType<1>(); break;
    case 2: TestType<2>(); break;
    case 3: TestType<3>(); break;
    case 4: TestType<5>(); break;
    case 5: TestType<8>(); break;
    case 6: TestType<11>(); break;
    case 7: TestType<17>(); break;
  }
}

SEQ_HARNESS(roots, .split = 3, .hang_s = 20) {
  switch (Choose(6)) {
    case 0: TestRoots<1>(); break;
    case 1: TestRoots<2>(); break;
    case 2: TestRoots<3>(); break;
    case 3: TestRoots<4>(); break;
    case 4: TestRoots<5>(); break;
    case 5: TestRoots<6>(); break;
  }
}

// A model of polynomials.
#pragma once

#include <numeric>

#include "geometry/barycentre_calculator.hpp"
#include "geometry/direct_sum.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/r3_element.hpp"
#include "harness/principia.h"
#include "numerics/polynomial.hpp"
#include "numerics/polynomial_evaluators.hpp"
#include "numerics/polynomial_in_monomial_basis.hpp"
#include "quantities/tuples.hpp"
#include "serialization/geometry.pb.h"
#include "serialization/numerics.pb.h"

using namespace principia::geometry::_grassmann;
using namespace principia::numerics::_polynomial;
using namespace principia::numerics::_polynomial_evaluators;
using namespace principia::numerics::_polynomial_in_monomial_basis;
using namespace principia::geometry::_direct_sum;
using namespace principia::geometry::_r3_element;
using seq::Notes;

namespace {  // NOLINT
using World = Frame<serialization::Frame::TestTag, Inertial,
                    Handedness::Right, serialization::Frame::TEST>;
using P = std::vector<double>;  // The model.

double At(P const& p, double const x) {
  double r = 0;
  for (int i = p.size() - 1; i >= 0; --i) r = r * x + p[i];
  return r;
}
P Diff(P const& p) {
  P r;
  for (std::size_t i = 1; i < p.size(); ++i) r.push_back(i * p[i]);
  if (r.empty()) r.push_back(0);
  return r;
}
P Times(P const& a, P const& b) {
  P r(a.size() + b.size() - 1);
  for (std::size_t i = 0; i < a.size(); ++i)
    for (std::size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j];
  return r;
}
P Plus(P a, P const& b, double const sign = 1) {
  a.resize(std::max(a.size(), b.size()));
  for (std::size_t i = 0; i < b.size(); ++i) a[i] += sign * b[i];
  return a;
}
P Compose(P const& a, P const& b) {
  P r = {0};
  for (int i = a.size() - 1; i >= 0; --i) {
    r = Times(r, b);
    r[0] += a[i];
  }
  return r;
}

template<typename C, std::size_t... i>
C MakeImpl(P const& p, std::index_sequence<i...>) {
  C c;
  ((get<i>(c) = p[i]), ...);
  return c;
}
template<int degree, template<typename, typename, int> typename E>
using Poly = PolynomialInMonomialBasis<double, double, degree, E>;
template<int degree, template<typename, typename, int> typename E>
Poly<degree, E> Make(P const& p, double const origin) {
  using C = typename Poly<degree, E>::Coefficients;
  return Poly<degree, E>(
      MakeImpl<C>(p, std::make_index_sequence<degree + 1>()), origin);
}
template<typename C, std::size_t... i>
P ModelImpl(C const& c, std::index_sequence<i...>) {
  return {get<i>(c)...};
}
template<int degree, template<typename, typename, int> typename E>
P Model(Poly<degree, E> const& p) {
  return ModelImpl(p.coefficients(), std::make_index_sequence<degree + 1>());
}
template<int degree, template<typename, typename, int> typename E>
void Same(Poly<degree, E> const& actual, P expected, double const origin,
          char const* what, double const ε = 0) {
  P const a = Model(actual);
  while (expected.size() > a.size()) {
    CheckEq(expected.back(), 0.0, what, ": degree is too small");
    expected.pop_back();
  }
  expected.resize(a.size());
  for (std::size_t i = 0; i < a.size(); ++i) {
    Check(std::abs(a[i] - expected[i]) <= ε * std::abs(expected[i]), what,
          ", degree ", i, ": ", a[i], " should be ", expected[i]);
  }
  CheckEq(actual.origin(), origin, what, ", origin");
  CheckEq(actual.degree(), degree, what);
}

// A full polynomial or one with a single coefficient.
P ChoosePolynomial(int const degree) {
  static constexpr double values[] = {3, -1, 4, 2, -5, 9, -2, 6};
  P p(degree + 1);
  int const k = Choose(degree + 3);
  if (k < 2) {
    for (int i = 0; i <= degree; ++i) p[i] = values[(i * (2 * k + 1) + k) % 8];
  } else {
    p[k - 2] = 3;
  }
  return p;
}

}  // namespace

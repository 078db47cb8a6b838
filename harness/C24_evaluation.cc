// C24: evaluation of polynomials in the monomial basis.
#include "harness/polynomials.h"

namespace {
template<int degree, template<typename, typename, int> typename E>
void TestEvaluation() {
  P const p = ChoosePolynomial(degree);
  static constexpr double origins[] = {0, 2, -5};
  double const origin = seq::Of(origins);
  double const t = Choose(9) - 4;  // Exact in binary64 up to 4^15 * 9.
  double const x = origin + t;
  auto const polynomial = Make<degree, E>(p, origin);
  double const value = At(p, t);
  double const derivative = At(Diff(p), t);
  Notes("degree ", degree, " at ", t, " origin ", origin);
  Same(polynomial, p, origin, "coefficients");
  CheckEq(polynomial(x), value, "value");
  CheckEq(polynomial.EvaluateDerivative(x), derivative, "derivative");
  double v = std::numeric_limits<double>::quiet_NaN();
  double d = v;
  polynomial.EvaluateWithDerivative(x, v, d);
  CheckEq(v, value, "value with derivative");
  CheckEq(d, derivative, "derivative with value");
  Polynomial<double, double> const& base = polynomial;
  CheckEq(base(x), value, "virtual value");
  CheckEq(base.EvaluateDerivative(x), derivative, "virtual derivative");
  v = d = std::numeric_limits<double>::quiet_NaN();
  base.EvaluateWithDerivative(x, v, d);
  CheckEq(v, value, "virtual value with derivative");
  CheckEq(d, derivative, "virtual derivative with value");
  CheckEq(base.degree(), degree);
  CheckEq(base.is_zero(),
          std::all_of(p.begin(), p.end(), [](double e) { return e == 0; }));
  // Other evaluators.
  if constexpr (degree < 7) {
  for (auto const& policy :
       {Policy::AlwaysEstrin(), Policy::AlwaysEstrinWithoutFMA()}) {
    serialization::PolynomialInMonomialBasis::Policy message;
    policy.WriteToMessage(&message);
    auto copy = polynomial;
    auto const other =
        Policy::ReadFromMessage(message).WithEvaluator(std::move(copy));
    CheckEq((*other)(x), value, "value with another evaluator");
    CheckEq(other->EvaluateDerivative(x), derivative);
  }
  }
  if constexpr (degree < 7) {
    auto const higher = Poly<degree + 3, E>(polynomial);
    Same(higher, p, origin, "higher degree");
    CheckEq(higher(x), value, "higher degree");
    auto const horner = Poly<degree, HornerWithoutFMA>(polynomial);
    Same(horner, p, origin, "other evaluator");
  }
  seq::Step();
}

template<template<typename, typename, int> typename E, typename F>
void ForDegree(int const degree, F const& f) {
  [&]<int... d>(std::integer_sequence<int, d...>) {
    ((degree == d ? f.template operator()<d, E>() : void()), ...);
  }(std::make_integer_sequence<int, 17>());
}
template<typename F>
void ForEvaluator(int const degree, int const evaluator, F const& f) {
  switch (evaluator) {
    case 0: ForDegree<Horner>(degree, f); break;
    case 1: ForDegree<HornerWithoutFMA>(degree, f); break;
    case 2: ForDegree<Estrin>(degree, f); break;
    case 3: ForDegree<EstrinWithoutFMA>(degree, f); break;
  }
}
}  // namespace

SEQ_HARNESS(evaluation, .split = 2) {
  int const degree = Choose(17);
  int const evaluator = Choose(4);
  ForEvaluator(degree, evaluator,
               []<int d, template<typename, typename, int> typename E>() {
                 TestEvaluation<d, E>();
               });
}


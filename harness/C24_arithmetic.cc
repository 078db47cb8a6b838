// C24: the algebra of polynomials in the monomial basis.
#include "harness/polynomials.h"

namespace {
P ChooseCoefficients(int const degree) {
  static constexpr double values[] = {0, 1, -2};
  P p(degree + 1);
  for (double& x : p) x = seq::Of(values);
  return p;
}

template<int l, int r>
void TestArithmetic() {
  P const a = ChooseCoefficients(l);
  P const b = ChooseCoefficients(r);
  double const origin = Choose(2) == 0 ? 0 : 3;
  auto const A = Make<l, Horner>(a, origin);
  auto const B = Make<r, Horner>(b, origin);
  Same(A + B, Plus(a, b), origin, "A + B");
  Same(A - B, Plus(a, b, -1), origin, "A - B");
  Same(A * B, Times(a, b), origin, "A * B");
  Same(-A, Plus({}, a, -1), origin, "-A");
  Same(+A, a, origin, "+A");
  Same(A * 3.0, Times(a, {3}), origin, "A * 3");
  Same(3.0 * A, Times(a, {3}), origin, "3 * A");
  Same(A / 4.0, Times(a, {0.25}), origin, "A / 4");
  Same(A + 5.0, Plus(a, {5}), origin, "A + 5");
  Same(5.0 + A, Plus(a, {5}), origin, "5 + A");
  Same(A - 5.0, Plus(a, {-5}), origin, "A - 5");
  Same(5.0 - A, Plus({5}, a, -1), origin, "5 - A");
  {
    auto C = A;
    C *= 3.0;
    Same(C, Times(a, {3}), origin, "*=");
    C = A;
    C /= 4.0;
    Same(C, Times(a, {0.25}), origin, "/=");
    if constexpr (l == r) {
      C = A;
      C += B;
      Same(C, Plus(a, b), origin, "+=");
      C = A;
      C -= B;
      Same(C, Plus(a, b, -1), origin, "-=");
      Check((A == B) == (a == b), "==");
      Check((A != B) == (a != b), "!=");
    }
  }
  // The composition: the values of B are arguments for A.
  {
    P const shifted = Plus(b, {-origin});
    auto const C = Compose(A, B);
    Same(C, ::Compose(a, shifted), origin, "composition");
  }
  seq::Step();
}

template<int d>
void TestCalculus() {
  P const a = ChooseCoefficients(d);
  double const origin = Choose(2) == 0 ? 0 : 3;
  auto const A = Make<d, Estrin>(a, origin);
  Same(A.template Derivative<0>(), a, origin, "derivative 0");
  if constexpr (d >= 1) {
    Same(A.Derivative(), Diff(a), origin, "derivative");
  }
  if constexpr (d >= 2) {
    Same(A.template Derivative<2>(), Diff(Diff(a)), origin, "derivative 2");
  }
  if constexpr (d >= 3) {
    Same(A.template Derivative<3>(), Diff(Diff(Diff(a))), origin,
         "derivative 3");
  }
  P primitive = {0};
  for (int i = 0; i <= d; ++i) primitive.push_back(a[i] / (i + 1));
  Same(A.Primitive(), primitive, origin, "primitive", 1e-15);
  for (double lower = -2; lower <= 2; ++lower) {
    for (double upper = -2; upper <= 2; ++upper) {
      double const expected = At(primitive, upper) - At(primitive, lower);
      double const actual = A.Integrate(origin + lower, origin + upper);
      Check(std::abs(actual - expected) <= 1e-12, "integral from ", lower,
            " to ", upper, ": ", actual, " should be ", expected);
    }
  }
  for (double shift = -3; shift <= 3; ++shift) {
    Same(A.AtOrigin(origin + shift), ::Compose(a, {shift, 1}), origin + shift,
         "at another origin");
  }
  seq::Step();
}

template<typename F>
void ForDegrees(int const l, int const r, F const& f) {
#define ROW(L)                                              \
  case L:                                                   \
    switch (r) {                                            \
      case 0: f.template operator()<L, 0>(); break;         \
      case 1: f.template operator()<L, 1>(); break;         \
      case 2: f.template operator()<L, 2>(); break;         \
      case 3: f.template operator()<L, 3>(); break;         \
    }                                                       \
    break;
  switch (l) {
    ROW(0)
    ROW(1)
    ROW(2)
    ROW(3)
    case 4:
      f.template operator()<4, 2>();
  }
#undef ROW
}
}  // namespace

SEQ_HARNESS(arithmetic, .split = 4) {
  int const l = Choose(5);
  int const r = l == 4 ? 2 : Choose(4);
  ForDegrees(l, r, []<int i, int j>() { TestArithmetic<i, j>(); });
}

SEQ_HARNESS(calculus, .split = 4) {
  switch (Choose(6)) {
    case 0: TestCalculus<0>(); break;
    case 1: TestCalculus<1>(); break;
    case 2: TestCalculus<2>(); break;
    case 3: TestCalculus<3>(); break;
    case 4: TestCalculus<5>(); break;
    case 5: TestCalculus<8>(); break;
  }
}

SEQ_HARNESS(inner_product, .split = 3) {
  using V = Vector<double, World>;
  using L = PolynomialInMonomialBasis<V, double, 2, Horner>;
  using R = PolynomialInMonomialBasis<V, double, 1, Horner>;
  auto const vector = [] {
    return R3Element<double>(Choose(2), Choose(3) - 1, Choose(2));
  };
  R3Element<double> const l[] = {vector(), vector(), vector()};
  R3Element<double> const r[] = {vector(), vector()};
  L const left({V(l[0]), V(l[1]), V(l[2])}, 3);
  R const right({V(r[0]), V(r[1])}, 3);
  P expected(4);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 2; ++j) expected[i + j] += Dot(l[i], r[j]);
  Same(PointwiseInnerProduct(left, right), expected, 3, "inner product");
  seq::Step();
}

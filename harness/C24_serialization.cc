// C24: serialization of polynomials in the monomial basis, vector and affine
// values.
#include "harness/polynomials.h"

namespace {
template<int degree, template<typename, typename, int> typename E>
void TestSerialization() {
  if constexpr (degree > 0) {
    P const p = ChoosePolynomial(degree);
    using V = Vector<Length, World>;
    static constexpr auto factor = [](int const i) { return i + 1.5; };
    V const v({1 * Metre, -2 * Metre, 5 * Metre});
    using Q = PolynomialInMonomialBasis<V, Instant, degree, E>;
    Instant const origin = Instant() + 3 * Second;
    auto const q = [&]<std::size_t... i>(std::index_sequence<i...>) {
      typename Q::Coefficients c;
      ((get<i>(c) = p[i] * factor(i) * v / Pow<i>(Second)), ...);
      return Q(c, origin);
    }(std::make_index_sequence<degree + 1>());
    serialization::Polynomial message;
    q.WriteToMessage(&message);
    serialization::Polynomial parsed;
    Check(parsed.ParseFromString(message.SerializeAsString()));
    auto const r = Q::ReadFromMessage(parsed);
    Check(q == r, "different after serialization");
    auto const s = Polynomial<V, Instant>::ReadFromMessage(parsed);
    P r1(degree + 1);
    for (int i = 0; i <= degree; ++i) r1[i] = p[i] * factor(i);
    for (double t = -2; t <= 2; ++t) {
      Instant const at = origin + t * Second;
      V const expected = At(r1, t) * v;
      V const derivative = At(Diff(r1), t) * v;
      Check((*s)(at) == expected, "deserialized at ", t);
      Check(q(at) == expected, "vector value at ", t);
      Check(s->EvaluateDerivative(at) == derivative / Second);
      Check(q.EvaluateDerivative(at) == derivative / Second);
    }
    CheckEq(s->degree(), degree);
    serialization::Polynomial again;
    s->WriteToMessage(&again);
    CheckEq(again.SerializeAsString(), message.SerializeAsString());
    // An affine-valued polynomial.
    using A = PolynomialInMonomialBasis<Position<World>, Instant, degree, E>;
    auto const a = q + World::origin;
    static_assert(std::is_same_v<decltype(a), A const>);
    for (double t = -2; t <= 2; ++t) {
      Instant const at = origin + t * Second;
      Check(a(at) == World::origin + At(r1, t) * v, "affine value");
      Check(a.EvaluateDerivative(at) == At(Diff(r1), t) * v / Second);
      Check((a - World::origin)(at) == At(r1, t) * v, "difference");
      Check((World::origin - a)(at) == -(At(r1, t) * v), "difference");
    }
    serialization::Polynomial am;
    a.WriteToMessage(&am);
    Check(A::ReadFromMessage(am) == a);
  }
  seq::Step();
}

}  // namespace

SEQ_HARNESS(serialization, .split = 2) {
  static constexpr int degrees[] = {1, 2, 3, 6, 11, 16};
  int const degree = seq::Of(degrees);
  auto const f = []<int d, template<typename, typename, int> typename E>() {
    TestSerialization<d, E>();
  };
  auto const g = [&]<template<typename, typename, int> typename E>() {
    switch (degree) {
      case 1: f.template operator()<1, E>(); break;
      case 2: f.template operator()<2, E>(); break;
      case 3: f.template operator()<3, E>(); break;
      case 6: f.template operator()<6, E>(); break;
      case 11: f.template operator()<11, E>(); break;
      case 16: f.template operator()<16, E>(); break;
    }
  };
  switch (Choose(4)) {
    case 0: g.template operator()<Horner>(); break;
    case 1: g.template operator()<HornerWithoutFMA>(); break;
    case 2: g.template operator()<Estrin>(); break;
    case 3: g.template operator()<EstrinWithoutFMA>(); break;
  }
}


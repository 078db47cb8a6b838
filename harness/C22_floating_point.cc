// C22: floating-point primitives, double-double arithmetic, angle reduction.
#include <array>
#include <bit>
#include <cfloat>

#include "harness/principia.h"
#include "numerics/angle_reduction.hpp"
#include "numerics/double_precision.hpp"
#include "numerics/fma.hpp"
#include "numerics/log_b.hpp"
#include "numerics/next.hpp"
#include "numerics/scale_b.hpp"
#include "numerics/ulp_distance.hpp"
#include "serialization/numerics.pb.h"

using namespace principia::numerics::_angle_reduction;
using namespace principia::numerics::_double_precision;
using namespace principia::numerics::_log_b;
using namespace principia::numerics::_scale_b;
using namespace principia::numerics::_ulp_distance;
namespace nxt = principia::numerics::_next;
namespace fma_ = principia::numerics::_fma;

namespace {
using Q = __float128;

template<typename T, typename U>
T Bits(U const bits) { return std::bit_cast<T>(bits); }

template<typename T>
bool Same(T const x, T const y) {
  return (x != x && y != y) ||
         (x == y && std::signbit(x) == std::signbit(y));
}

template<typename T>
void CheckOne(T const x) {
  T const up = nxt::NextUp(x);
  T const down = nxt::NextDown(x);
  T expected_up = std::nextafter(x, std::numeric_limits<T>::infinity());
  T expected_down = std::nextafter(x, -std::numeric_limits<T>::infinity());
  if (!Same(up, expected_up)) [[unlikely]] {
    Check(false, "NextUp(", x, ") = ", up, " should be ", expected_up);
  }
  if (!Same(down, expected_down)) [[unlikely]] {
    Check(false, "NextDown(", x, ") = ", down, " should be ", expected_down);
  }
  if (!Same(LogB(x), std::logb(x))) [[unlikely]] {
    Check(false, "LogB(", x, ") = ", LogB(x), " should be ", std::logb(x));
  }
}

// Structured 53-bit mantissas.
constexpr std::int64_t mantissas[] = {
    0x10000000000000, 0x1FFFFFFFFFFFFF, 0x10000000000001, 0x15555555555555,
    0x1FFFFFFC000000, 0x10000004000001, 0x19C3A5F0E1D2B7, 0x18000000000000};

double Value(int const mantissas_count, int const exponents, int const step) {
  std::int64_t const m = mantissas[Choose(mantissas_count)];
  int const e = step * (Choose(exponents) - exponents / 2);
  double const sign = Choose(2) == 0 ? 1 : -1;
  return sign * std::ldexp(static_cast<double>(m), e - 52);
}

// A double-double, normalized.
DoublePrecision<double> Pair(int const mantissas_count, int const exponents,
                             int const step) {
  DoublePrecision<double> result(Value(mantissas_count, exponents, step));
  int e;
  std::frexp(result.value, &e);
  double const ulp = std::ldexp(1, e - 53);
  switch (Choose(4)) {
    case 0: break;
    case 1: result.error = 0.5 * ulp * 0x1.FFFFFFFFFFFFFp-1; break;
    case 2: result.error = -ulp / 5; break;
    case 3: result.error = ulp * 0x1.23456789ABCDEp-30; break;
  }
  if (std::abs(result.value) == std::ldexp(1, e - 1) && result.error * result.value < 0) {
    result.error /= 2;
  }
  if (result.value + result.error != result.value) { seq::Prune(); }
  return result;
}

template<typename T>
Q Exact(DoublePrecision<T> const& a) {
  return static_cast<Q>(a.value) + static_cast<Q>(a.error);
}
constexpr Q u2 = static_cast<Q>(0x1p-106);
void CheckRelative(DoublePrecision<double> const& actual, Q const expected,
                   double const tolerance, char const* const what) {
  Q error = Exact(actual) - expected;
  if (error < 0) { error = -error; }
  Q const magnitude = expected < 0 ? -expected : expected;
  if (!(error <= tolerance * u2 * magnitude)) [[unlikely]] {
    Check(false, what, " = ", actual.value, " + ", actual.error, " error ",
          static_cast<double>(error / (u2 * (magnitude == 0 ? 1 : magnitude))),
          " u²");
  }
  Check(actual.value + actual.error == actual.value, what, " not normalized: ",
        actual.value, " + ", actual.error);
}
void CheckExact(DoublePrecision<double> const& actual, Q const expected,
                char const* const what) {
  CheckRelative(actual, expected, 0, what);
}
}  // namespace

// All the floats (thorough), or all those with few significant bits in the
// upper part of the mantissa and all the tails close to the next binade.
SEQ_HARNESS(floats, .split = 1) {
  std::uint32_t const high = Choose(512);
  if (seq::Thorough()) {
    for (std::uint32_t low = 0; low < 1 << 23; ++low) {
      CheckOne(Bits<float>((high << 23) | low));
    }
    seq::Step(1 << 23);
  } else {
    for (std::uint32_t low = 0; low < 1 << 9; ++low) {
      CheckOne(Bits<float>((high << 23) | (low << 14)));
      CheckOne(Bits<float>((high << 23) | low));
      CheckOne(Bits<float>((high << 23) | ((1 << 23) - 1 - low)));
    }
    seq::Step(3 << 9);
  }
}

// All the exponents of binary64.
SEQ_HARNESS(doubles, .split = 1) {
  std::uint64_t const high = Choose(4096);
  for (std::uint64_t low = 0; low < 16; ++low) {
    for (int s = 0; s < 52; s += 3) {
      CheckOne(Bits<double>((high << 52) | (low << s)));
    }
    CheckOne(Bits<double>((high << 52) | ((1LL << 52) - 1 - low)));
  }
  double const x = Bits<double>((high << 52) | 0x23456789ABCDE);
  if (x == x) {
    for (int n = -2200; n <= 2200; n += seq::Thorough() ? 1 : 11) {
      for (double const y : {x, Bits<double>(high << 52)}) {
        double const actual = ScaleB(y, n);
        double const expected = std::scalbn(y, n);
        if (!Same(actual, expected)) [[unlikely]] {
          Check(false, "ScaleB(", y, ", ", n, ") = ", actual, " should be ",
                expected);
        }
      }
    }
  }
  seq::Step(500);
}

// ULP distances between values a few steps apart, and all pairs of a set.
SEQ_HARNESS(distances, .split = 2) {
  double const special[] = {0.0, -0.0, DBL_TRUE_MIN, DBL_MIN, 1, 2, 3.7e100,
                            DBL_MAX, -1, -DBL_MIN, -DBL_MAX, 1 - 0x1p-53};
  double const x = seq::Of(special);
  int const n = Choose(20);
  double y = x;
  int steps = 0;
  for (; steps < n && y != std::numeric_limits<double>::infinity(); ++steps) {
    y = std::nextafter(y, std::numeric_limits<double>::infinity());
  }
  CheckEq(ULPDistance(x, y), steps, "ULPDistance(", x, ", ", y, ")");
  CheckEq(ULPDistance(y, x), steps, "ULPDistance(", y, ", ", x, ")");
  double const z = seq::Of(special);
  auto const index = [](double const x) -> __int128 {
    std::int64_t const b = std::bit_cast<std::int64_t>(std::abs(x));
    return std::signbit(x) ? -static_cast<__int128>(b) : b;
  };
  __int128 d = index(y) - index(z);
  if (d < 0) { d = -d; }
  std::int64_t const expected =
      d > std::numeric_limits<std::int64_t>::max()
          ? std::numeric_limits<std::int64_t>::max()
          : static_cast<std::int64_t>(d);
  CheckEq(ULPDistance(y, z), expected, "ULPDistance(", y, ", ", z, ")");
  seq::Step(3);
}

// Error-free transformations.
SEQ_HARNESS(exact, .split = 3) {
  double const a = Value(8, seq::Thorough() ? 59 : 15, 1);
  double const b = Value(8, 59, seq::Thorough() ? 1 : 2);
  Q const qa = a;
  Q const qb = b;
  CheckExact(TwoSum(a, b), qa + qb, "TwoSum");
  CheckExact(TwoDifference(a, b), qa - qb, "TwoDifference");
  CheckExact(TwoProduct<fma_::FMAPresence::Absent>(a, b), qa * qb,
             "TwoProduct");
  CheckExact(TwoProduct<fma_::FMAPresence::Unknown>(a, b), qa * qb,
             "TwoProduct");
  CheckExact(VeltkampDekkerProduct(a, b), qa * qb, "VeltkampDekkerProduct");
  if constexpr (fma_::CanEmitFMAInstructions) {
    CheckExact(TwoProduct<fma_::FMAPresence::Present>(a, b), qa * qb,
               "TwoProduct");
    double const c = 0x1.23456789ABCDEp3;
    CheckEq(fma_::FusedMultiplyAdd(a, b, c), std::fma(a, b, c));
    CheckEq(fma_::FusedMultiplySubtract(a, b, c), std::fma(a, b, -c));
    CheckEq(fma_::FusedNegatedMultiplyAdd(a, b, c), std::fma(-a, b, c));
    CheckEq(fma_::FusedNegatedMultiplySubtract(a, b, c), std::fma(-a, b, -c));
  }
  if (std::abs(a) >= std::abs(b)) {
    CheckExact(QuickTwoSum(a, b), qa + qb, "QuickTwoSum");
    CheckExact(QuickTwoDifference(a, b), qa - qb, "QuickTwoDifference");
    // Compensated summation keeps what it drops.
    DoublePrecision<double> d(a);
    d.Increment(b);
    CheckExact(d, qa + qb, "Increment");
    DoublePrecision<double> e(a);
    e.Decrement(b);
    CheckExact(e, qa - qb, "Decrement");
  }
  double ah, al;
  VeltkampSplitting<26>(a, ah, al);
  Check(ah + al == a && std::abs(al) <= std::ldexp(std::abs(a), -26),
        "VeltkampSplitting");
  // On points.
  Instant const ia = Instant() + a * Second;
  Instant const ib = Instant() + b * Second;
  auto const si = TwoSum(ia, b * Second);
  CheckExact(DoublePrecision<double>(TwoSum(a, b)),
             static_cast<Q>((si.value - Instant()) / Second) +
                 static_cast<Q>(si.error / Second), "TwoSum of an instant");
  auto const di = TwoDifference(ia, ib);
  Check(static_cast<Q>(di.value / Second) + static_cast<Q>(di.error / Second) ==
            qa - qb, "TwoDifference of instants");
  auto const dv = TwoDifference(ia, b * Second);
  Check(static_cast<Q>((dv.value - Instant()) / Second) +
                static_cast<Q>(dv.error / Second) == qa - qb,
        "TwoDifference of an instant and a time");
  seq::Step(12);
}

// Double-double operations, with the error bounds of the literature.
SEQ_HARNESS(double_double, .split = 3) {
  auto const a = Pair(8, seq::Thorough() ? 21 : 7, 1);
  auto const b = Pair(8, seq::Thorough() ? 21 : 7, seq::Thorough() ? 1 : 3);
  Q const qa = Exact(a);
  Q const qb = Exact(b);
  Q const sum = (static_cast<Q>(a.value) + static_cast<Q>(b.value)) +
                (static_cast<Q>(a.error) + static_cast<Q>(b.error));
  Q const difference = (static_cast<Q>(a.value) - static_cast<Q>(b.value)) +
                       (static_cast<Q>(a.error) - static_cast<Q>(b.error));
  CheckRelative(a + b, sum, 3.1, "a + b");
  CheckRelative(a - b, difference, 3.1, "a - b");
  CheckRelative(-a, -qa, 0, "-a");
  CheckRelative(a * b, qa * qb, 8, "a * b");
  CheckRelative(a / b, qa / qb, 16, "a / b");
  double const c = b.value;
  CheckRelative(a + c, (static_cast<Q>(a.value) + c) + static_cast<Q>(a.error),
                2.1, "a + c");
  CheckRelative(c + a, (static_cast<Q>(a.value) + c) + static_cast<Q>(a.error),
                2.1, "c + a");
  CheckRelative(a - c, (static_cast<Q>(a.value) - c) + static_cast<Q>(a.error),
                2.1, "a - c");
  CheckRelative(c - a, (c - static_cast<Q>(a.value)) - static_cast<Q>(a.error),
                2.1, "c - a");
  CheckRelative(a * c, qa * c, 8, "a * c");
  CheckRelative(c * a, qa * c, 8, "c * a");
  CheckRelative(a / c, qa / c, 16, "a / c");
  CheckRelative(c / a, c / qa, 16, "c / a");
  auto d = a;
  d += b;
  CheckRelative(d, sum, 3.1, "a += b");
  d = a;
  d -= b;
  CheckRelative(d, difference, 3.1, "a -= b");
  d = a;
  d *= b;
  CheckRelative(d, qa * qb, 8, "a *= b");
  d = a;
  d /= b;
  CheckRelative(d, qa / qb, 16, "a /= b");
  Check((a < b) == (qa < qb) && (a == b) == (qa == qb) && (a > b) == (qa > qb),
        "comparison");
  CheckRelative(Scale(0.25, a), qa / 4, 0, "Scale");
  serialization::DoublePrecision message;
  a.WriteToMessage(&message);
  Check(DoublePrecision<double>::ReadFromMessage(message) == a,
        "serialization");
  seq::Step(19);
}

SEQ_HARNESS(trunc, .split = 2) {
  // Around the integers and the halves, near powers of two and above 2⁵³.
  double const bases[] = {1, 2, 2.5, 2.7, 3, 4, 7.75, 8, 1024, 0x1p52, 0x1p53,
                          0x1p54, 1e20, 0x1.8p60};
  double v = seq::Of(bases);
  int const nudge = Choose(3);
  if (nudge == 1) { v = std::nextafter(v, 0); }
  if (nudge == 2) { v = std::nextafter(v, 1e300); }
  if (Choose(2) == 1) { v = -v; }
  double const errors[] = {0, 0x1p-60, -0x1p-60, 0.25, -0.25, 1, -1, 1.5, -1.5,
                           2, 100.75, -100.75};
  double const e = seq::Of(errors);
  if (v + e != v) { seq::Prune(); }
  DoublePrecision<double> a(v);
  a.error = e;
  // All exact: the sum of `v` and `e` needs not be representable.
  Q expected_t = static_cast<__int128>(static_cast<Q>(v) + e);  // Truncates.
  Q expected_f = static_cast<Q>(v) + e - expected_t;
  if (v == std::trunc(v)) {
    double const t = v > 0 ? std::floor(e) : std::ceil(e);
    expected_t = static_cast<Q>(v) + t;
    expected_f = static_cast<Q>(e) - t;
  }
  auto const t = Trunc(a);
  Check(Exact(t) == expected_t, "Trunc(", v, " + ", e, ") = ", t.value, " + ",
        t.error);
  auto const f = Frac(a);
  Check(Exact(f) == expected_f, "Frac(", v, " + ", e, ") = ", f.value, " + ",
        f.error);
  seq::Step(2);
}

namespace {
void CheckAngle(double const θ) {
  Q const twoπ = 2 * 3.14159265358979323846264338327950288Q;
  auto const check = [&](char const* const what, Angle const& fractional_part,
                         double const integer_part, double const lower,
                         double const upper, Q const period) {
    double const f = fractional_part / Radian;
    if (!(lower <= f && f <= upper)) [[unlikely]] {
      Check(false, what, " of ", θ, " is ", f);
    }
    // The same angle: compare the trigonometric functions of the argument,
    // which glibc reduces exactly.  For a period of π, up to sign.
    long double const s = sinl(θ);
    long double const c = cosl(θ);
    long double sf = sinl(f);
    long double cf = cosl(f);
    if (period < twoπ && sf * s + cf * c < 0) {
      sf = -sf;
      cf = -cf;
    }
    long double const error = std::hypot(s - sf, c - cf);
    if (!(error < 1.2e-15)) [[unlikely]] {
      Check(false, what, " of ", θ, " is ", f, " off by ",
            static_cast<double>(error));
    }
    if (std::abs(θ) < 1e15) {
      Q const e = f + integer_part * period - θ;
      if (!((e < 0 ? -e : e) < 1e-15Q + 1e-15Q * std::abs(θ)) ||
          integer_part != std::round(integer_part)) [[unlikely]] {
        Check(false, what, " of ", θ, " is ", f, " and ", integer_part);
      }
    }
  };
  Angle f;
  double i;
  ReduceAngle<-π / 2, π / 2>(θ * Radian, f, i);
  Check(f == (ReduceAngle<-π / 2, π / 2>(θ * Radian)), "ReduceAngle");
  check("[-π/2, π/2]", f, i, -π / 2, π / 2, twoπ / 2);
  ReduceAngle<-π, π>(θ * Radian, f, i);
  Check(f == (ReduceAngle<-π, π>(θ * Radian)), "ReduceAngle");
  check("[-π, π]", f, i, -π, π, twoπ);
  ReduceAngle<0.0, 2 * π>(θ * Radian, f, i);
  Check(f == (ReduceAngle<0.0, 2 * π>(θ * Radian)), "ReduceAngle");
  check("[0, 2π]", f, i, 0, 2 * π, twoπ);
  // Unwinding.
  if (std::abs(θ) < 1e6) {
    for (double const previous : {0.0, 3.0, -20.0, 1000.0}) {
      double const u = UnwindFrom(previous * Radian, θ * Radian) / Radian;
      Q const turns = (static_cast<Q>(u) - θ) / twoπ;
      double const n = std::round(static_cast<double>(turns));
      Q const e = turns - n;
      Check((e < 0 ? -e : e) < 1e-9Q && std::abs(u - previous) <= π + 1e-9,
            "UnwindFrom(", previous, ", ", θ, ") = ", u);
    }
  }
  seq::Step(4);
}
}  // namespace

// The neighbours of the multiples of π/4.
SEQ_HARNESS(quadrants, .split = 1) {
  int const k = Choose(seq::Thorough() ? 20'000 : 2'000);
  for (double const scale : {1.0, 1e3, 1e6, 1e9}) {
    double θ = k * scale * π / 4;
    for (int i = 0; i < 4; ++i) { θ = std::nextafter(θ, -1e300); }
    for (int i = -4; i <= 4; ++i) {
      CheckAngle(θ);
      CheckAngle(-θ);
      θ = std::nextafter(θ, 1e300);
    }
  }
}
// All the exponents.
SEQ_HARNESS(magnitudes, .split = 1) {
  int const e = Choose(1320) - 300;
  for (std::int64_t const m : mantissas) {
    double const θ = std::ldexp(static_cast<double>(m), e - 52);
    CheckAngle(θ);
    CheckAngle(-θ);
  }
}

// C21: the sine and cosine are correctly rounded.
#include <bit>
#include <cmath>
#include <cstdint>
#include <limits>

#include "numerics/elementary_functions.hpp"
#include "numerics/sin_cos.hpp"
#include "numerics/elementary_functions.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"
#include "seq/seq.h"
#include "shim/sin_cos_oracle.h"

using namespace principia::numerics::_fma;
using principia_verif::Oracle;
using principia_verif::half_π;
using seq::Check;
using seq::Choose;

namespace {

#if PRINCIPIA_REQUIRES_FMA
constexpr FMAPresence presence = FMAPresence::Present;
#else
constexpr FMAPresence presence = FMAPresence::Absent;
#endif
namespace sc = principia::numerics::_sin_cos::internal;

// Whether r is q rounded to nearest; q has 60 more bits than a double, and we
// accept both roundings if it is too close to a tie.
bool Correct(__float128 const q, double const r) {
  double const d = static_cast<double>(q);
  if (d == r) [[likely]] {
    return true;
  }
  if (d != d || r != r) {
    return false;
  }
  __float128 const ε = q * 0x1p-104 < 0 ? -(q * 0x1p-104) : q * 0x1p-104;
  return r == static_cast<double>(q - ε) || r == static_cast<double>(q + ε);
}

void Test(double const x) {
  __float128 s, c;
  Oracle(x, s, c);
  double const sin = sc::Sin<presence>(x);
  double const cos = sc::Cos<presence>(x);
  Check(Correct(s, sin), "Sin(", x, ") = ", sin, " is not correctly rounded");
  Check(Correct(c, cos), "Cos(", x, ") = ", cos, " is not correctly rounded");
  auto const both = sc::SinCos<presence>(x);
  Check(both.sin == sin && both.cos == cos, "SinCos(", x, ") = ", both.sin, " ",
        both.cos);
  Check(sc::Sin<presence>(-x) == -sin, "Sin isn't odd at ", x);
  Check(sc::Cos<presence>(-x) == cos, "Cos isn't even at ", x);
  auto const minus = sc::SinCos<presence>(-x);
  Check(minus.sin == -sin && minus.cos == cos, "SinCos(", -x, ")");
}

void TestAround(double const x, int const n) {
  if (x == 0 || x != x) { return; }
  std::uint64_t const b = std::bit_cast<std::uint64_t>(x);
  for (int d = -n; d <= n; ++d) {
    double const y = std::bit_cast<double>(b + d);
    if (std::isfinite(y)) { Test(y); }
  }
  seq::Step(2 * n + 1);
}

// Blocks of consecutive numbers, in all the regimes.
SEQ_HARNESS(consecutive, .split = 2) {
  double const base = seq::Of(
      {0.00119, 0.0011, 0.1, 0.5, 0.785398, 1.0, 1.5, 1.5707963, 2.0,
       3.1415926, 100.25, 402.12, 1000.0, 411774.0, 500000.0, 1e7, 1e10, 1e22,
       1e100, 0x1.921FB54442D18p0, 1e-4, 1e-9});
  int const block = Choose(seq::Thorough() ? 1024 : 128);
  std::uint64_t const b =
      std::bit_cast<std::uint64_t>(base) + (std::int64_t{block} << 11);
  for (int i = 0; i < 2048; ++i) { Test(std::bit_cast<double>(b + i)); }
  seq::Step(2048);
  seq::State(b);
}

// Around all the bounds of the intervals of the table, and around the bounds of
// the reduced interval.
SEQ_HARNESS(table, .split = 1) {
  int const k = Choose(2048);
  TestAround(k / 1024.0, seq::Thorough() ? 2000 : 100);
  TestAround(k / 1024.0 + 1e-3 / 7, 50);
  for (int i = 0; i < 16; ++i) { TestAround((k * 16 + i) / 16384.0, 5); }
  seq::State(k);
}

// Near the multiples of π/4: the reductions lose the most precision; in each
// binade there are some multiples for which the cancellation is worse.
SEQ_HARNESS(multiples, .split = 1) {
  int const k = Choose(2048);
  auto const test = [](std::uint64_t const n) {
    for (int eighths : {0, 1, 2, 4, 7}) {
      double const x = static_cast<double>(
          (static_cast<__float128>(n) + eighths / __float128{8}) * half_π);
      TestAround(x, eighths % 4 == 0 ? 3 : 1);
    }
  };
  for (int i = 0; i < (seq::Thorough() ? 256 : 16); ++i) {
    test(k * 256 + i);
    test(k * 256 + 255 - i);
  }
  for (int e = 4; e < 62; ++e) {
    test((1ull << e) + k);
    test((1ull << e) - k);
    test(std::uint64_t{static_cast<unsigned>(k)} << e % 50);
  }
  seq::State(k);
}

// All the exponents, with many patterns.
SEQ_HARNESS(exponents, .split = 1) {
  int const exponent = Choose(2047);
  std::uint64_t const e = static_cast<std::uint64_t>(exponent) << 52;
  auto const test = [e](std::uint64_t const m) {
    Test(std::bit_cast<double>(e | (m & 0xF'FFFF'FFFF'FFFF)));
    seq::Step();
  };
  for (int i = 0; i < 52; ++i) {
    for (int d = -1; d <= 1; ++d) {
      test((1ull << i) + d);
      test(-(1ull << i) + d);
    }
  }
  int const n = exponent < 1023 - 30 || exponent > 1023 + 40 ? 1000 : 10000;
  for (int i = 0; i < (seq::Thorough() ? 100 * n : n); ++i) {
    test(i * 0x9E37'79B9'7F4A'7C15ull >> 12);
  }
  seq::State(exponent);
}

// The numbers that are the hardest to reduce in double precision.
SEQ_HARNESS(special) {
  for (double const x :
       {0x1.6AC5B262CA1FFp+849, 6381956970095103 * 0x1p797, 0x1.7834F2B1B9F46p5,
        5.706674932067741, 0x1.921FB54442D18p+0, 0x1.921FB54442D18p+1}) {
    TestAround(x, 100);
  }
  Test(0.0);
  Check(!std::signbit(sc::Sin<presence>(0.0)), "Sin(+0)");
  Check(sc::Sin<presence>(-0.0) == 0, "Sin(-0)");
  Check(sc::Cos<presence>(0.0) == 1, "Cos(0)");
  double const nan = std::numeric_limits<double>::quiet_NaN();
  double const inf = std::numeric_limits<double>::infinity();
  for (double const x : {nan, inf, -inf}) {
    Check(std::isnan(sc::Sin<presence>(x)), "Sin(", x, ")");
    Check(std::isnan(sc::Cos<presence>(x)), "Cos(", x, ")");
  }
  seq::Step(6);
  seq::State(0);
}

// The dispatching functions used by everybody.
SEQ_HARNESS(public_functions, .split = 1) {
  int const k = Choose(64);
  namespace nf = principia::numerics::_elementary_functions;
  
  namespace si = principia::quantities::_si;
  nf::ConfigureElementaryFunctions(/*uses_correct_sin_cos=*/true);
  for (int i = -500; i < 500; ++i) {
    double const x = (i + k / 64.0) * 0.731;
    __float128 s, c;
    Oracle(x, s, c);
    Check(Correct(s, nf::Sin(x * si::Radian)), "Sin(", x, " rad)");
    Check(Correct(c, nf::Cos(x * si::Radian)), "Cos(", x, " rad)");
    auto const sc = nf::SinCos(x * si::Radian);
    Check(Correct(s, sc.sin) && Correct(c, sc.cos), "SinCos(", x, " rad)");
    seq::Step(3);
  }
  seq::State(k);
}
}  // namespace

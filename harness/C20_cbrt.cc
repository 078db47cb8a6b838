// C20: the cube root is correctly rounded.
#include <bit>
#include <cmath>
#include <cstdint>
#include <limits>

#include "numerics/cbrt.hpp"
#include "numerics/elementary_functions.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"
#include "seq/seq.h"

using principia::numerics::_cbrt::Cbrt;
using seq::Check;
using seq::Choose;

namespace {
using U = unsigned _BitInt(256);

// The integral significand in [2⁵², 2⁵³[ and exponent of a positive number.
void Decompose(double const x, std::uint64_t& m, int& e) {
  std::uint64_t const bits = std::bit_cast<std::uint64_t>(x);
  m = bits & 0xF'FFFF'FFFF'FFFF;
  e = static_cast<int>(bits >> 52);
  if (e == 0) {
    e = 1;
    while (m < (1ull << 52)) { m <<= 1; --e; }
  } else {
    m |= 1ull << 52;
  }
  e -= 1075;
}

// Whether r = ∛y correctly rounded to nearest; exact.
bool Correct(double const y, double const r) {
  if (!(r > 0) || !(r < std::numeric_limits<double>::infinity())) {
    return false;
  }
  std::uint64_t m, rm;
  int e, re;
  Decompose(y, m, e);
  Decompose(r, rm, re);
  // y = m 2^e must be between the cubes of the bounds (4rm ± 2) 2^(re - 2),
  // except that the lower bound is closer at a power of 2.
  U const low = 4 * static_cast<U>(rm) - (rm == 1ull << 52 ? 1 : 2);
  U const high = 4 * static_cast<U>(rm) + 2;
  int const shift = e - 3 * (re - 2);
  if (shift < 0 || shift > 202) {
    return false;
  }
  U const y2 = static_cast<U>(m) << shift;
  // No ties are possible (the cube of a 54-bit odd number has more bits).
  return low * low * low < y2 && y2 < high * high * high;
}

void Test(double const y) {
  double const r = Cbrt(y);
  double const s = Cbrt(-y);
  Check(Correct(y, r), "Cbrt(", y, ") = ", r, " is not correctly rounded");
  Check(Correct(y, -s), "Cbrt(", -y, ") = ", s, " is not correctly rounded");
}

// Blocks of consecutive numbers.
SEQ_HARNESS(consecutive, .split = 2) {
  double const base =
      seq::Of({1.0, 2.5, 5.123, 1e100, 7.0e-300, 0.3, 63.9, 1.7e308});
  int const block = Choose(seq::Thorough() ? 16384 : 2048);
  std::uint64_t const b =
      std::bit_cast<std::uint64_t>(base) + (std::int64_t{block} << 12);
  for (int i = 0; i < 4096; ++i) {
    double const y = std::bit_cast<double>(b + i);
    if (y < std::numeric_limits<double>::infinity()) {
      Test(y);
    }
  }
  seq::Step(2 * 4096);
  seq::State(b);
}

// All the exponents (subnormal ones included), with many patterns.
SEQ_HARNESS(exponents, .split = 1) {
  int const exponent = Choose(2047);
  std::uint64_t const e = static_cast<std::uint64_t>(exponent) << 52;
  auto const test = [e](std::uint64_t const m) {
    double const y = std::bit_cast<double>(e | (m & 0xF'FFFF'FFFF'FFFF));
    if (y != 0) {
      Test(y);
      seq::Step(2);
    }
  };
  for (int i = 0; i < 52; ++i) {
    for (int d = -4; d <= 4; ++d) {
      test((1ull << i) + d);
      test(-(1ull << i) + d);
      for (int j = 0; j < i; ++j) { test((1ull << i) + (1ull << j) + d); }
    }
  }
  // An equidistributed sequence of significands.
  for (int i = 0; i < (seq::Thorough() ? 200'000 : 10000); ++i) {
    test(i * 0x9E37'79B9'7F4A'7C15ull >> 12);
  }
  seq::State(exponent);
}

// Neighbourhoods of the cubes of short numbers, which are exact, and of the
// cubes of the midpoints.
SEQ_HARNESS(cubes, .split = 1) {
  int const top = Choose(256);
  for (int k = top * 512 + 1; k <= top * 512 + 512; ++k) {
    double const cube = static_cast<double>(k) * k * k;
    for (int e = -300; e <= 300; e += 37) {
      double const y = std::ldexp(cube, 3 * e);
      Check(Cbrt(y) == std::ldexp(static_cast<double>(k), e), "Cbrt(", y, ")");
      Check(Cbrt(-y) == -std::ldexp(static_cast<double>(k), e), "Cbrt(", -y,
            ")");
      std::uint64_t const b = std::bit_cast<std::uint64_t>(y);
      Test(std::bit_cast<double>(b - 1));
      Test(std::bit_cast<double>(b + 1));
    }
  }
  // (k + ½) with 53 significant bits before the ½.
  for (int k = 0; k < 4096; ++k) {
    std::uint64_t const r = (1ull << 52) + 1 +
        (top * 4096ull + k) * 0xFFFF'FFFFull % (1ull << 52);
    long double const h = static_cast<long double>(r) + 0.5L;
    double const y = static_cast<double>(h * h * h);
    std::uint64_t const b = std::bit_cast<std::uint64_t>(y);
    for (int d = -2; d <= 2; ++d) { Test(std::bit_cast<double>(b + d)); }
  }
  seq::Step(512 * 17 * 6 + 4096 * 10);
  seq::State(top);
}

SEQ_HARNESS(special) {
  constexpr double inf = std::numeric_limits<double>::infinity();
  Check(Cbrt(0.0) == 0 && !std::signbit(Cbrt(0.0)), "Cbrt(+0)");
  Check(Cbrt(-0.0) == 0 && std::signbit(Cbrt(-0.0)), "Cbrt(-0)");
  Check(Cbrt(inf) == inf, "Cbrt(inf)");
  Check(Cbrt(-inf) == -inf, "Cbrt(-inf)");
  Check(std::isnan(Cbrt(std::numeric_limits<double>::quiet_NaN())), "Cbrt(NaN)");
  using namespace principia::numerics::_elementary_functions;
  using namespace principia::quantities::_si;
  using namespace principia::quantities::_quantities;
  for (int i = 1; i < 1000; ++i) {
    double const y = std::bit_cast<double>(
        (1023ull << 52) + i * 0x9E37'79B9'7F4A'7C15ull % (3ull << 53));
    Check(principia::numerics::_elementary_functions::Cbrt(
              y * Metre * Metre * Metre) == Cbrt(y) * Metre,
          "Cbrt of a volume");
    seq::Step();
  }
  seq::State(0);
}
}  // namespace

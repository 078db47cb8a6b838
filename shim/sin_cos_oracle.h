// Very accurate sine and cosine.
#pragma once
#include <bit>
#include <cstdint>

extern "C" void sincosq(__float128, __float128*, __float128*);

namespace principia_verif {

// The bits of 2/π.
constexpr std::uint64_t two_over_π[] = {
    0xa2f9836e4e441529ull, 0xfc2757d1f534ddc0ull, 0xdb6295993c439041ull,
    0xfe5163abdebbc561ull, 0xb7246e3a424dd2e0ull, 0x06492eea09d1921cull,
    0xfe1deb1cb129a73eull, 0xe88235f52ebb4484ull, 0xe99c7026b45f7e41ull,
    0x3991d639835339f4ull, 0x9c845f8bbdf9283bull, 0x1ff897ffde05980full,
    0xef2f118b5a0a6d1full, 0x6d367ecf27cb09b7ull, 0x4f463f669e5fea2dull,
    0x7527bac7ebe5f17bull, 0x3d0739f78a5292eaull, 0x6bfb5fb11f8d5d08ull,
    0x56033046fc7b6babull, 0xf0cfbc209af4361dull, 0xa9e391615ee61b08ull,
    0x6599855f14a06840ull, 0x8dffd8804d732731ull};
constexpr __float128 half_π =
    1.5707963267948966192313216916397514420985846996875529Q;

// The sine and cosine with a relative error less than 2^-108: an exact argument
// reduction in fixed point (libquadmath's loses relative accuracy near the
// multiples of π/2), followed by libquadmath on the reduced argument.
inline void Oracle(double const x, __float128& s, __float128& c) {
  using U = unsigned _BitInt(512);
  std::uint64_t const bits = std::bit_cast<std::uint64_t>(x);
  int const e = static_cast<int>(bits >> 52 & 0x7FF) - 1075;
  if (e < -53) {  // |x| < 1/2.
    sincosq(x, &s, &c);
    return;
  }
  std::uint64_t const m = (bits & 0xF'FFFF'FFFF'FFFF) | 1ull << 52;
  // The words before `first` contribute multiples of 4.
  int const first = e < 2 ? 0 : (e - 2) / 64;
  U w = 0;
  for (int i = first; i < first + 6; ++i) { w = w << 64 | two_over_π[i]; }
  U const p = w * m;
  int const shift = 64 * (first + 6) - e;
  U n = p >> shift;
  U f = p - (n << shift);
  bool const negative = (f >> (shift - 1)) != 0;
  if (negative) {
    f = (static_cast<U>(1) << shift) - f;
    ++n;
  }
  // Convert the fraction.
  __float128 r = 0;
  int exponent = -shift;
  while (f >> 112 != 0) { f >>= 1; ++exponent; }
  r = static_cast<__float128>(static_cast<unsigned __int128>(f));
  for (; exponent <= -64; exponent += 64) { r *= 0x1p-64; }
  for (; exponent < 0; ++exponent) { r /= 2; }
  for (; exponent > 0; --exponent) { r *= 2; }
  r *= half_π;
  if (negative) { r = -r; }
  __float128 sr, cr;
  sincosq(r, &sr, &cr);
  switch (static_cast<unsigned>(n & 3)) {
    case 0: s = sr; c = cr; break;
    case 1: s = cr; c = -sr; break;
    case 2: s = -sr; c = -cr; break;
    default: s = -cr; c = sr; break;
  }
  if (x < 0) { s = -s; }
}

}  // namespace principia_verif

// C28: quadratures, Fourier transforms and finite differences.
#include <array>
#include <complex>
#include <utility>

#include "geometry/grassmann.hpp"
#include "harness/principia.h"
#include "numerics/fast_fourier_transform.hpp"
#include "numerics/finite_difference.hpp"
#include "numerics/quadrature.hpp"
#include "serialization/geometry.pb.h"

using namespace principia::geometry::_grassmann;
using namespace principia::numerics::_fast_fourier_transform;
using namespace principia::numerics::_finite_difference;
using namespace principia::numerics::_quadrature;
using seq::Notes;
using seq::Of;

namespace {
using Real = long double;
using World = Frame<serialization::Frame::TestTag, Inertial,
                    Handedness::Right, serialization::Frame::TEST>;
using V = Vector<double, World>;
constexpr Real pi = 3.14159265358979323846264338327950288L;

struct Bounds {
  double lower, upper;
};
constexpr Bounds all_bounds[] = {
    {-1, 1}, {0, 1}, {1, 0}, {-1, 1.5}, {0.5, 0.75}, {-1, -1}};

// A Chebyshev polynomial of the variable scaled to the bounds, so that
// everything is well-conditioned.
Real Chebyshev(int const degree, Real const x) {
  Real t0 = 1, t1 = x;
  if (degree == 0) return 1;
  for (int i = 1; i < degree; ++i) std::tie(t0, t1) = std::pair(t1, 2 * x * t1 - t0);
  return t1;
}

Real ChebyshevIntegral(int const degree) {
  return degree % 2 == 1 ? 0 : 2 / (1 - Real(degree) * degree);
}

struct Problem {
  Bounds bounds;
  int degree;
  mutable int evaluations = 0;
  mutable std::set<double> arguments;

  double operator()(double const x) const {
    ++evaluations;
    arguments.insert(x);
    double const lo = std::min(bounds.lower, bounds.upper);
    double const hi = std::max(bounds.lower, bounds.upper);
    Check(lo - 1e-15 <= x && x <= hi + 1e-15, "evaluated at ", x);
    if (lo == hi) return 1;
    return static_cast<double>(
        Chebyshev(degree, (2 * Real(x) - bounds.lower - bounds.upper) /
                              (Real(bounds.upper) - bounds.lower)));
  }
  double Integral() const {
    return static_cast<double>(ChebyshevIntegral(degree) *
                               (Real(bounds.upper) - bounds.lower) / 2);
  }
  // The effect of the rounding of the argument, for all points.
  double Tolerance() const {
    return (degree * degree + 4) * 0x1p-50 *
           std::abs(bounds.upper - bounds.lower) *
           std::max({std::abs(bounds.lower), std::abs(bounds.upper),
                     std::abs(bounds.upper - bounds.lower)}) /
           std::max(std::abs(bounds.upper - bounds.lower), 1e-300);
  }
};

// Gauss-Legendre is exact up to degree 2 n - 1.
template<int points>
void Gauss() {
  for (Bounds const& bounds : all_bounds) {
    for (int degree = 0; degree < 2 * points; ++degree) {
      seq::Step();
      Problem const f{bounds, degree};
      double const actual =
          GaussLegendre<points>(f, bounds.lower, bounds.upper);
      CheckEq(f.evaluations, points, "evaluations");
      if (bounds.lower == bounds.upper) {
        CheckEq(actual, 0.0, "empty");
        continue;
      }
      CheckEq(int(f.arguments.size()), points, "distinct points");
      Check(std::abs(actual - f.Integral()) <= f.Tolerance(), "degree ", degree,
            " from ", bounds.lower, " to ", bounds.upper, ": ", actual,
            " instead of ", f.Integral());
    }
    // But not for the square of the polynomial that vanishes at all the points.
    if (bounds.lower != bounds.upper) {
      Problem const f{bounds, 2 * points};
      double const actual =
          GaussLegendre<points>(f, bounds.lower, bounds.upper);
      Check(std::abs(actual - f.Integral()) > f.Tolerance(),
            "too good to be true");
    }
  }
}

template<int... points>
void AllGauss(std::integer_sequence<int, points...>) {
  int const which = Choose(sizeof...(points));
  ((which == points ? Gauss<points + 1>() : void()), ...);
}

// Exact up to degree n - 1.  Without a tolerance, it goes on until there are
// that many points.
template<int initial_points>
void ClenshawCurtis(int const max_max_points) {
  Bounds const bounds = all_bounds[Choose(5)];
  int const max_points = Choose(max_max_points) + 1;
  int points = 2 * initial_points - 1;
  while (points < max_points) points = 2 * points - 1;
  Notes("from ", initial_points, " to ", max_points, " points");
  for (int degree = 0; degree <= points + 1; ++degree) {
    seq::Step();
    Problem const f{bounds, degree};
    double const actual = AutomaticClenshawCurtis<initial_points>(
        f, bounds.lower, bounds.upper, std::nullopt, max_points);
    CheckEq(f.evaluations, points, "evaluations");
    CheckEq(int(f.arguments.size()), points, "distinct points");
    if (degree <= points) {
      Check(std::abs(actual - f.Integral()) <= f.Tolerance(), "degree ", degree,
            ": ", actual, " instead of ", f.Integral());
    } else {
      Check(std::abs(actual - f.Integral()) > f.Tolerance(),
            "too good to be true");
    }
  }
}

// With a tolerance, it stops as soon as two successive estimates agree, which
// they do when there are enough points for the degree.
template<int initial_points>
void ClenshawCurtisTolerance() {
  Bounds const bounds = all_bounds[Choose(5)];
  int const degree = 2 * Choose(65);
  bool const limit = Choose(2) == 1;
  auto const max_points = limit ? std::optional<int>(33) : std::nullopt;
  Problem const f{bounds, degree};
  double const actual = AutomaticClenshawCurtis<initial_points>(
      f, bounds.lower, bounds.upper, 1e-9, max_points);
  // The estimates for each number of points, as seen without a tolerance.
  double previous = 0;
  for (int points = initial_points;; points = 2 * points - 1) {
    Check(points < 1000, "no convergence");
    // The coefficient of aliasing: T_d is T_|d-2kN| at the points.
    int const N = points - 1;
    int r = degree % (2 * N);
    r = std::min(r, 2 * N - r);
    Real const estimate = ChebyshevIntegral(r) *
                          (Real(bounds.upper) - bounds.lower) / 2;
    if (points > initial_points) {
      bool const stop =
          std::abs(previous - estimate) <= 1e-9 * std::abs(estimate) ||
          (limit && points >= 33);
      if (stop) {
        CheckEq(f.evaluations, points, "evaluations");
        Check(std::abs(actual - estimate) <= f.Tolerance(), "estimate ", actual,
              " instead of ", static_cast<double>(estimate));
        break;
      }
    }
    previous = estimate;
  }
}

void Heuristics() {
  double const ω = Of({0.0, 1e-3, 0.5, 1.0, 17.0});
  double const Δt = Of({0.25, 1.0, 100.0});
  int const min = Of({1, 2, 33, 1000});
  int const per_period = Of({1, 4, 10});
  auto const actual = MaxPointsHeuristicsForAutomaticClenshawCurtis(
      ω * Radian / Second, Δt * Second, min, per_period);
  CheckEq(actual.has_value(), ω != 0, "no limit");
  if (ω != 0) {
    CheckEq(*actual, std::max(min, int(per_period * Δt * ω / double(2 * pi))),
            "limit");
  }
}

// The midpoint rule is the sum of the values in the middle.
void MidpointRule() {
  Bounds const bounds = all_bounds[Choose(6)];
  int const degree = Choose(8);
  int const intervals = Choose(20) + 1;
  Problem const f{bounds, degree};
  double const actual = Midpoint(f, bounds.lower, bounds.upper, intervals);
  CheckEq(f.evaluations, intervals, "evaluations");
  if (bounds.lower == bounds.upper) {
    CheckEq(actual, 0.0, "empty");
    return;
  }
  Real expected = 0;
  Real const h = (Real(bounds.upper) - bounds.lower) / intervals;
  for (int i = 0; i < intervals; ++i) {
    expected += h * Chebyshev(degree, (2 * i + 1) / Real(intervals) - 1);
  }
  Check(std::abs(actual - expected) <= f.Tolerance(), "midpoint");
  if (degree <= 1) {
    Check(std::abs(actual - f.Integral()) <= f.Tolerance(), "exact");
  }
}

// Fourier transforms.
using Complex = std::complex<Real>;

template<int size>
void CheckTransform(std::array<double, size> const& u) {
  Time const Δt = Of({1.0, 0.125}) * Second;
  bool const as_iterators = Choose(2) == 1;
  std::vector<double> const v(u.begin(), u.end());
  using FFT = FastFourierTransform<double, Instant, size>;
  auto const fft = as_iterators
                       ? std::make_unique<FFT>(v.begin(), v.end(), Δt)
                       : std::make_unique<FFT>(u, Δt);
  auto const spectrum = fft->PowerSpectrum();
  CheckEq(int(spectrum.size()), size, "size of the spectrum");
  double norm = 0;
  for (double const x : u) norm += std::abs(x);
  double const tolerance = norm * 0x1p-48;
  auto it = spectrum.begin();
  std::vector<Real> powers;
  for (int s = 0; s < size; ++s, ++it) {
    Complex expected = 0;
    for (int r = 0; r < size; ++r) {
      if (u[r] != 0) {
        expected += Real(u[r]) *
                    std::polar(Real(1), -2 * pi * (Real(r) * s / size));
      }
    }
    auto const& actual = (*fft)[s];
    Check(std::abs(actual.real_part() - expected.real()) <= tolerance &&
              std::abs(actual.imaginary_part() - expected.imag()) <= tolerance,
          "coefficient ", s, ": ", actual.real_part(), " ",
          actual.imaginary_part());
    Check(it->first == fft->frequency(s), "order of the spectrum");
    Check(std::abs(fft->frequency(s) / (Radian / Second) -
                   double(2 * pi) * s / (size * (Δt / Second))) <=
              1e-13 * (s + 1) / (Δt / Second),
          "frequency ", s);
    Check(std::abs(it->second - std::norm(expected)) <=
              tolerance * (2 * norm + 1),
          "power ", s);
    powers.push_back(it->second);
  }
  // The mode, for all the ranges.
  if constexpr (size >= 4 && size <= 16) {
    for (int min = 0; min <= size / 2; ++min) {
      for (int max = min; max <= size / 2 + 1; ++max) {
        int best = min;
        for (int s = min; s <= std::min(max, size / 2); ++s) {
          if (powers[s] > powers[best]) best = s;
        }
        auto const frequency = [&](double const s) {
          return 2 * double(pi) * Radian / (size * Δt) * s;
        };
        auto const interval =
            fft->Mode(frequency(min - 0.25), frequency(max + 0.25));
        Check(interval.min == fft->frequency(std::max(best - 1, 0)) &&
                  interval.max == fft->frequency(best + 1),
              "mode between ", min, " and ", max, " is around ", best);
      }
    }
  }
}

// All the signals with values among -1, 0, 1, up to size 8; impulses, and sums
// of two impulses, for larger sizes.
template<int size>
void Signals() {
  std::array<double, size> u{};
  if constexpr (size <= 8) {
    for (double& x : u) x = Choose(3) - 1;
  } else {
    int const i = Choose(size);
    int const j = size <= 64 ? Choose(size) : size - 1 - i;
    u[i] += 1;
    u[j] += 0.75;
  }
  CheckTransform<size>(u);
}

// A transform of vectors is made of the transforms of the coordinates.
void Vectors() {
  constexpr int size = 8;
  std::array<V, size> u;
  std::array<std::array<double, size>, 3> c{};
  for (int k = 0; k < 3; ++k) c[k][Choose(size)] = k + 1;
  for (int r = 0; r < size; ++r) u[r] = V({c[0][r], c[1][r], c[2][r]});
  FastFourierTransform<V, Instant, size> const fft(u, 1 * Second);
  for (int s = 0; s < size; ++s) {
    for (int k = 0; k < 3; ++k) {
      FastFourierTransform<double, Instant, size> const expected(c[k],
                                                                 1 * Second);
      auto const get = [k](V const& v) {
        auto const& x = v.coordinates();
        return k == 0 ? x.x : k == 1 ? x.y : x.z;
      };
      CheckEq(get(fft[s].real_part()), expected[s].real_part(), "real");
      CheckEq(get(fft[s].imaginary_part()), expected[s].imaginary_part(),
              "imaginary");
    }
  }
}

// Finite differences of polynomials of degree less than the number of values.
template<int n>
void Differences() {
  int const offset = Choose(n);
  double const step = Of({1.0, -0.5, 0.1, 1e6});
  for (int degree = 0; degree < n; ++degree) {
    for (double const shift : {0.0, 1.0, -3.5}) {
      seq::Step();
      // In the variable with unit step, centred at the offset.
      std::array<double, n> values;
      double scale = 0;
      for (int i = 0; i < n; ++i) {
        Real v = 1;
        for (int k = 0; k < degree; ++k) v *= (i - offset + shift) / n;
        values[i] = static_cast<double>(v);
        scale = std::max(scale, std::abs(values[i]));
      }
      Real expected = degree == 0 ? 0 : Real(degree) / n;
      for (int k = 1; k < degree; ++k) expected *= shift / n;
      double const actual = FiniteDifference(values, step, offset);
      // The condition number is less than 4ⁿ.
      double const tolerance =
          std::ldexp(scale, (offset == (n - 1) / 2 ? n / 2 : 3 * n / 2) - 49);
      Check(std::abs(actual * step - expected) <= tolerance, n,
            " values, offset ", offset, ", degree ", degree, ": ",
            actual * step, " instead of ", static_cast<double>(expected));
    }
  }
}

template<int... n>
void AllDifferences(std::integer_sequence<int, n...>) {
  int const which = Choose(sizeof...(n));
  ((which == n ? Differences<n + 1>() : void()), ...);
}
}  // namespace

SEQ_HARNESS(gauss_legendre) {
  AllGauss(std::make_integer_sequence<int, 50>());
}
SEQ_HARNESS(clenshaw_curtis, .split = 1) {
  int const max = seq::Thorough() ? 140 : 70;
  switch (Choose(4)) {
    case 0: return ClenshawCurtis<2>(max);
    case 1: return ClenshawCurtis<3>(max);
    case 2: return ClenshawCurtis<5>(max);
    default: return ClenshawCurtis<9>(max);
  }
}
SEQ_HARNESS(clenshaw_curtis_tolerance, .split = 1) {
  switch (Choose(3)) {
    case 0: return ClenshawCurtisTolerance<2>();
    case 1: return ClenshawCurtisTolerance<3>();
    default: return ClenshawCurtisTolerance<9>();
  }
}
SEQ_HARNESS(heuristics) { Heuristics(); }
SEQ_HARNESS(midpoint) { MidpointRule(); }
SEQ_HARNESS(fourier_small, .split = 3) {
  switch (Choose(3)) {
    case 0: return Signals<2>();
    case 1: return Signals<4>();
    default: return Signals<8>();
  }
}
SEQ_HARNESS(fourier_large, .split = 2) {
  switch (Choose(seq::Thorough() ? 6 : 5)) {
    case 0: return Signals<16>();
    case 1: return Signals<32>();
    case 2: return Signals<64>();
    case 3: return Signals<128>();
    case 4: return Signals<256>();
    default: return Signals<1024>();
  }
}
SEQ_HARNESS(fourier_vectors) { Vectors(); }
SEQ_HARNESS(finite_differences) {
  AllDifferences(std::make_integer_sequence<int, 9>());
}

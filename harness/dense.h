// A naïve model of matrices.
#pragma once

#include <array>
#include <cstdint>
#include <numeric>
#include <utility>
#include <vector>

#include "harness/principia.h"

namespace dense {
using Vec = std::vector<double>;
struct Mat {
  int r, c;
  Vec d;
  Mat(int r, int c) : r(r), c(c), d(r * c) {}
  double& operator()(int i, int j) { return d[i * c + j]; }
  double operator()(int i, int j) const { return d[i * c + j]; }
  static Mat Identity(int n) {
    Mat m(n, n);
    for (int i = 0; i < n; ++i) m(i, i) = 1;
    return m;
  }
};
inline Mat operator*(Mat const& a, Mat const& b) {
  Mat m(a.r, b.c);
  for (int i = 0; i < a.r; ++i)
    for (int j = 0; j < b.c; ++j)
      for (int k = 0; k < a.c; ++k) m(i, j) += a(i, k) * b(k, j);
  return m;
}
inline Vec operator*(Mat const& a, Vec const& b) {
  Vec v(a.r);
  for (int i = 0; i < a.r; ++i)
    for (int k = 0; k < a.c; ++k) v[i] += a(i, k) * b[k];
  return v;
}
inline Mat T(Mat const& a) {
  Mat m(a.c, a.r);
  for (int i = 0; i < a.r; ++i)
    for (int j = 0; j < a.c; ++j) m(j, i) = a(i, j);
  return m;
}
template<typename Matrix>
Mat FromMatrix(Matrix const& m) {
  Mat r(m.rows(), m.columns());
  for (int i = 0; i < r.r; ++i)
    for (int j = 0; j < r.c; ++j) r(i, j) = static_cast<double>(m(i, j));
  return r;
}
// By Gauss-Bareiss elimination, exact for small integers.
inline double Determinant(Mat a) {
  int const n = a.r;
  double sign = 1;
  double previous = 1;
  for (int k = 0; k < n - 1; ++k) {
    int p = k;
    while (p < n && a(p, k) == 0) ++p;
    if (p == n) return 0;
    if (p != k) {
      for (int j = 0; j < n; ++j) std::swap(a(p, j), a(k, j));
      sign = -sign;
    }
    for (int i = k + 1; i < n; ++i)
      for (int j = k + 1; j < n; ++j)
        a(i, j) = (a(i, j) * a(k, k) - a(i, k) * a(k, j)) / previous;
    previous = a(k, k);
  }
  return sign * a(n - 1, n - 1);
}
// The coefficients of det(λ - A), constant term first.
inline Vec Characteristic(Mat const& a) {
  int const n = a.r;
  Vec c(n + 1);
  c[n] = 1;
  Mat m(n, n);
  for (int k = 1; k <= n; ++k) {
    Mat am = a * m;
    for (int i = 0; i < n; ++i) am(i, i) += c[n - k + 1];
    m = am;
    Mat const p = a * m;
    double t = 0;
    for (int i = 0; i < n; ++i) t += p(i, i);
    c[n - k] = -t / k;
  }
  return c;
}
inline double Evaluate(Vec const& p, double const x) {
  double r = 0;
  for (int i = p.size() - 1; i >= 0; --i) r = r * x + p[i];
  return r;
}
// Number of distinct real roots, or -1 if there are multiple roots.  The
// coefficients must be small integers.
inline int RealRoots(Vec const& p) {
  using I = __int128;
  using P = std::vector<I>;
  auto const trim = [](P& q) {
    while (!q.empty() && q.back() == 0) q.pop_back();
    I g = 0;
    for (I x : q) {
      x = x < 0 ? -x : x;
      while (x != 0) {
        I const t = g % x;
        g = x;
        x = t;
      }
    }
    for (I& x : q) x /= g;
  };
  std::vector<P> s(2);
  for (double const x : p) s[0].push_back(static_cast<I>(x));
  for (std::size_t i = 1; i < p.size(); ++i) {
    s[1].push_back(static_cast<I>(p[i]) * static_cast<I>(i));
  }
  trim(s[0]);
  trim(s[1]);
  for (;;) {
    P a = s[s.size() - 2];
    P const& b = s.back();
    while (a.size() >= b.size()) {
      I const f = a.back();
      I const lead = b.back();
      I const sign = lead < 0 ? -1 : 1;
      std::size_t const shift = a.size() - b.size();
      for (I& x : a) x *= lead * sign;
      for (std::size_t i = 0; i < b.size(); ++i) {
        a[i + shift] -= b[i] * f * sign;
      }
      a.pop_back();
    }
    for (I& x : a) x = -x;
    trim(a);
    if (a.empty()) break;
    s.push_back(a);
  }
  if (s.back().size() > 1) return -1;
  auto const variations = [&](bool const minus) {
    int v = 0;
    int last = 0;
    for (P const& q : s) {
      int sign = q.back() > 0 ? 1 : -1;
      if (minus && q.size() % 2 == 0) sign = -sign;
      if (last != 0 && sign != last) ++v;
      last = sign;
    }
    return v;
  };
  return variations(true) - variations(false);
}
}  // namespace dense

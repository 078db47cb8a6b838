// C23: vectors, matrices, and their views.
#include <malloc.h>

#include "harness/dense.h"
#include "base/tags.hpp"
#include "numerics/fixed_arrays.hpp"
#include "numerics/matrix_views.hpp"
#include "numerics/transposed_view.hpp"
#include "numerics/unbounded_arrays.hpp"

using namespace principia::base::_tags;
using namespace principia::numerics::_fixed_arrays;
using namespace principia::numerics::_matrix_views;
using namespace principia::numerics::_transposed_view;
using namespace principia::numerics::_unbounded_arrays;
using dense::Mat;
using dense::Vec;

using seq::Notes;

namespace {
// Entries of memory that are not initialized are noticed.
[[maybe_unused]] int const perturb = mallopt(M_PERTURB, 0x5a);

Mat Sample(int const r, int const c, int const seed) {
  static constexpr double values[] = {3, -1, 4, 0, -5, 9, -2, 6, 5, -3,
                                      7, 2, -8, 1, -7, 8};
  Mat m(r, c);
  for (int i = 0; i < r * c; ++i) {
    m.d[i] = values[(i * (2 * seed + 1) + seed) % 16];
  }
  return m;
}
// One of two full matrices, or one with a single nonzero element.
Mat ChooseMatrix(int const r, int const c, int const seed) {
  int const k = Choose(r * c + 2);
  if (k < 2) return Sample(r, c, k + seed);
  Mat m(r, c);
  m.d[k - 2] = seed + 2;
  return m;
}
template<typename A>
A&& Fill(A&& a, Mat const& m) {
  for (int i = 0; i < m.r; ++i)
    for (int j = 0; j < m.c; ++j) a(i, j) = m(i, j);
  return std::forward<A>(a);
}
template<typename A>
A&& Fill(A&& a, Vec const& v) {
  for (std::size_t i = 0; i < v.size(); ++i) a[i] = v[i];
  return std::forward<A>(a);
}
template<typename A>
void Same(A const& a, Mat const& m, char const* what) {
  CheckEq(static_cast<int>(a.rows()), m.r, what, " rows");
  CheckEq(static_cast<int>(a.columns()), m.c, what, " columns");
  for (int i = 0; i < m.r; ++i)
    for (int j = 0; j < m.c; ++j)
      Check(a(i, j) == m(i, j), what, " (", i, ", ", j, "): ", a(i, j),
            " should be ", m(i, j));
}
template<typename A>
void Same(A const& a, Vec const& v, char const* what) {
  CheckEq(static_cast<std::size_t>(a.size()), v.size(), what, " size");
  for (std::size_t i = 0; i < v.size(); ++i)
    Check(a[i] == v[i], what, " [", i, "]: ", a[i], " should be ", v[i]);
}
void Same(double const a, double const b, char const* what) {
  Check(a == b, what, ": ", a, " should be ", b);
}

template<typename F>
Mat Map(Mat a, Mat const& b, F const& f) {
  for (std::size_t i = 0; i < a.d.size(); ++i) a.d[i] = f(a.d[i], b.d[i]);
  return a;
}
double Dot(Vec const& a, Vec const& b) {
  double s = 0;
  for (std::size_t i = 0; i < a.size(); ++i) s += a[i] * b[i];
  return s;
}

struct FixedTypes {
  template<int r, int c> using M = FixedMatrix<double, r, c>;
  template<int n> using V = FixedVector<double, n>;
  template<int r, int c> static M<r, c> Matrix() { return M<r, c>(); }
  template<int n> static V<n> Vector() { return V<n>(); }
  template<int r, int c> static M<r, c> RawMatrix() {
    return M<r, c>(uninitialized);
  }
};
struct HeapTypes {
  template<int r, int c> using M = FixedMatrix<double, r, c, true>;
  template<int n> using V = FixedVector<double, n, true>;
  template<int r, int c> static M<r, c> Matrix() { return M<r, c>(); }
  template<int n> static V<n> Vector() { return V<n>(); }
  template<int r, int c> static M<r, c> RawMatrix() {
    return M<r, c>(uninitialized);
  }
};
struct UnboundedTypes {
  template<int r, int c> using M = UnboundedMatrix<double>;
  template<int n> using V = UnboundedVector<double>;
  template<int r, int c> static M<r, c> Matrix() { return M<r, c>(r, c); }
  template<int n> static V<n> Vector() { return V<n>(n); }
  template<int r, int c> static M<r, c> RawMatrix() {
    return M<r, c>(r, c, uninitialized);
  }
};

template<typename T>
constexpr bool is_unbounded = std::is_same_v<T, UnboundedTypes>;

template<typename T>
void TestMatrices() {
  Mat const a = ChooseMatrix(2, 3, 0);
  Mat const b = ChooseMatrix(2, 3, 3);
  Mat const c = Sample(3, 2, 5);
  static constexpr double scalars[] = {2, -0.5, 0};
  double const s = scalars[Choose(3)];
  using M = typename T::template M<2, 3>;
  Same(T::template Matrix<2, 3>(), Mat(2, 3), "zero");
  M const A = Fill(T::template RawMatrix<2, 3>(), a);
  M const B = Fill(T::template Matrix<2, 3>(), b);
  auto const C = Fill(T::template Matrix<3, 2>(), c);
  Same(A, a, "matrix");
  auto const add = [](double x, double y) { return x + y; };
  auto const subtract = [](double x, double y) { return x - y; };
  auto const times = [s](double x, double) { return x * s; };
  auto const over = [](double x, double) { return x / 4; };
  auto const minus = [](double x, double) { return -x; };
  Same(A + B, Map(a, b, add), "A + B");
  Same(A - B, Map(a, b, subtract), "A - B");
  Same(+A, a, "+A");
  Same(-A, Map(a, a, minus), "-A");
  Same(s * A, Map(a, a, times), "s * A");
  Same(A * s, Map(a, a, times), "A * s");
  Same(A / 4.0, Map(a, a, over), "A / 4");
  Same(A * C, a * c, "A * C");
  {
    M x = A;
    x += B;
    Same(x, Map(a, b, add), "+=");
    x = A;
    x -= B;
    Same(x, Map(a, b, subtract), "-=");
    x = A;
    x *= s;
    Same(x, Map(a, a, times), "*=");
    x = A;
    x /= 4;
    Same(x, Map(a, a, over), "/=");
    M y = std::move(x);
    Same(y, Map(a, a, over), "move");
    y = B;
    Same(y, b, "assignment");
    Same(B, b, "right operand");
    Check((A == B) == (a.d == b.d), "==");
    Check((A != B) == (a.d != b.d), "!=");
    double f = 0;
    for (double const e : a.d) f += e * e;
    Check(std::abs(A.FrobeniusNorm() - std::sqrt(f)) <= 1e-15 * std::sqrt(f),
          "Frobenius norm");
  }
  {
    auto x = Fill(T::template Matrix<2, 2>(), Sample(2, 2, 1));
    auto const y = Fill(T::template Matrix<2, 2>(), Sample(2, 2, 2));
    x *= y;
    Same(x, Sample(2, 2, 1) * Sample(2, 2, 2), "matrix *=");
  }
  Vec const u2 = Sample(1, 2, 3).d;
  Vec const u3 = Sample(1, 3, 2).d;
  auto const U2 = Fill(T::template Vector<2>(), u2);
  auto const U3 = Fill(T::template Vector<3>(), u3);
  Same(A * U3, a * u3, "A * v");
  Same(TransposedView{A} * U2, dense::T(a) * u2, "tA * v");  // NOLINT
  Vec const w3 = Sample(1, 3, 6).d;
  auto const Q = Fill(T::template Matrix<3, 3>(), Sample(3, 3, 4));
  Same(Q(Fill(T::template Vector<3>(), w3), U3),
       Dot(w3, Sample(3, 3, 4) * u3), "bilinear form");
  {
    TransposedView<M> const t{A};
    Same(t, dense::T(a), "transposed view");
    auto const tt = typename T::template M<3, 2>(t);
    Same(tt, dense::T(a), "transposed");
  }
  if constexpr (is_unbounded<T>) {
    Same(UnboundedMatrix<double>::Identity(3, 3), Mat::Identity(3), "identity");
    Same(UnboundedMatrix<double>({1, 2, 3, 4}),
         [] { Mat m(2, 2); m.d = {1, 2, 3, 4}; return m; }(), "list");
    Same(UnboundedMatrix<double>(3, 2, {1, 2, 3, 4, 5, 6}),
         [] { Mat m(3, 2); m.d = {1, 2, 3, 4, 5, 6}; return m; }(), "list");
  } else {
    Same(T::template M<3, 3>::Identity(), Mat::Identity(3), "identity");
    Same(typename T::template M<3, 2>({1, 2, 3, 4, 5, 6}),
         [] { Mat m(3, 2); m.d = {1, 2, 3, 4, 5, 6}; return m; }(), "array");
    for (int i = 0; i < 2; ++i) {
      auto const* const row = A.row(i);
      for (int j = 0; j < 3; ++j) Same(row[j], a(i, j), "row");
      Same(row * U3, Dot({a(i, 0), a(i, 1), a(i, 2)}, u3), "row * v");
    }
  }
  seq::Step();
}

template<typename T>
void TestVectors() {
  Mat const ma = ChooseMatrix(1, 4, 0);
  Mat const mb = ChooseMatrix(1, 4, 3);
  Vec const a = ma.d;
  Vec const b = mb.d;
  static constexpr double scalars[] = {2, -0.5, 0};
  double const s = scalars[Choose(3)];
  using V = typename T::template V<4>;
  V const A = Fill(T::template Vector<4>(), a);
  V const B = Fill(T::template Vector<4>(), b);
  Same(T::template Vector<4>(), Vec(4), "zero");
  auto const map = [&](auto const& f) {
    Vec r(4);
    for (int i = 0; i < 4; ++i) r[i] = f(a[i], b[i]);
    return r;
  };
  Vec const sum = map([](double x, double y) { return x + y; });
  Vec const difference = map([](double x, double y) { return x - y; });
  Vec const product = map([s](double x, double y) { return x * s; });
  Vec const quotient = map([](double x, double y) { return x / 4; });
  Same(A + B, sum, "A + B");
  Same(A - B, difference, "A - B");
  Same(+A, a, "+A");
  Same(-A, map([](double x, double y) { return -x; }), "-A");
  Same(s * A, product, "s * A");
  Same(A * s, product, "A * s");
  Same(A / 4.0, quotient, "A / 4");
  V x = A;
  x += B;
  Same(x, sum, "+=");
  x = A;
  x -= B;
  Same(x, difference, "-=");
  x = A;
  x *= s;
  Same(x, product, "*=");
  x = A;
  x /= 4;
  Same(x, quotient, "/=");
  V y = std::move(x);
  Same(y, quotient, "move");
  Check((A == B) == (a == b), "==");
  Check((A != B) == (a != b), "!=");
  Same(TransposedView{A} * B, Dot(a, b), "tA * B");  // NOLINT
  Same(InnerProduct(A, B), Dot(a, b), "InnerProduct");
  Same(A.Norm²(), Dot(a, a), "Norm²");
  double const norm = std::sqrt(Dot(a, a));
  Check(std::abs(A.Norm() - norm) <= 1e-15 * norm, "Norm");
  {
    Vec const c = {2, -3, 5};
    auto const C = Fill(T::template Vector<3>(), c);
    Mat m(4, 3);
    for (int i = 0; i < 4; ++i)
      for (int j = 0; j < 3; ++j) m(i, j) = a[i] * c[j];
    auto const p = A * TransposedView{C};  // NOLINT
    Same(p, m, "A * tC");
  }
  {
    Mat m(4, 4);
    Mat q(4, 4);
    for (int i = 0; i < 4; ++i) {
      for (int j = 0; j < 4; ++j) {
        m(i, j) = 0.5 * (a[i] * b[j] + a[j] * b[i]);
        q(i, j) = a[i] * a[j];
      }
    }
    Same(SymmetricProduct(A, B), m, "SymmetricProduct");
    Same(SymmetricSquare(A), q, "SymmetricSquare");
  }
  if (norm > 0) {
    auto const n1 = A.Normalize();
    auto const n2 = Normalize(A);
    for (int i = 0; i < 4; ++i) {
      Check(std::abs(n1[i] - a[i] / norm) <= 1e-15, "Normalize");
      Check(std::abs(n2[i] - a[i] / norm) <= 1e-15, "Normalize");
    }
  }
  if constexpr (!is_unbounded<T>) {
    int i = 0;
    for (double const e : A) Same(e, a[i++], "iterator");
    CheckEq(i, 4);
  }
  seq::Step();
}

template<typename M, typename V>
void TestViews(M const& zero, V const& zero3) {
  Mat a = Sample(4, 4, Choose(3));
  M A = Fill(M(zero), a);
  // A block.
  int const first_row = Choose(4);
  int const last_row = first_row + Choose(4 - first_row);
  int const first_column = Choose(4);
  int const last_column = first_column + Choose(4 - first_column);
  int const op = Choose(8);
  Notes("rows ", first_row, "-", last_row, ", columns ", first_column, "-",
        last_column, ", op ", op);
  int const r = last_row - first_row + 1;
  int const c = last_column - first_column + 1;
  {
    BlockView<M> block{A, first_row, last_row, first_column, last_column};
    CheckEq(block.rows(), r);
    CheckEq(block.columns(), c);
    Mat const m = Sample(r, c, 7);
    UnboundedMatrix<double> const other =
        Fill(UnboundedMatrix<double>(r, c), m);
    for (int i = 0; i < r; ++i) {
      for (int j = 0; j < c; ++j) {
        double& e = a(first_row + i, first_column + j);
        CheckEq(std::as_const(block)(i, j), e, "block");
        switch (op) {
          case 0: e = m(i, j); break;
          case 1: e += m(i, j); break;
          case 2: e -= m(i, j); break;
          case 3: e *= 3; break;
          case 4: e /= 4; break;
          case 5: e = 10 * i + j; break;
        }
      }
    }
    switch (op) {
      case 0: block = other; break;
      case 1: block += other; break;
      case 2: block -= other; break;
      case 3: block *= 3; break;
      case 4: block /= 4; break;
      case 5:
        for (int i = 0; i < r; ++i)
          for (int j = 0; j < c; ++j) block(i, j) = 10 * i + j;
        break;
      case 6: {
        M const copy = A;
        Check(block == BlockView<M const>{copy, first_row, last_row,
                                          first_column, last_column});
        break;
      }
      case 7: {
        // Product by a vector.
        break;
      }
    }
    Same(A, a, "after the operation on a block");
  }
  // A column, and another.
  if (c <= 2) {
    int const j = first_column;
    int const k = last_column;
    ColumnView<M> column{A, first_row, last_row, j};
    CheckEq(column.size(), r);
    double n = 0;
    for (int i = 0; i < r; ++i) {
      CheckEq(column[i], a(first_row + i, j));
      n += column[i] * column[i];
    }
    CheckEq(column.Norm²(), n);
    Check(std::abs(column.Norm() - std::sqrt(n)) <= 1e-15 * std::sqrt(n));
    UnboundedVector<double> const copy(column);
    ColumnView<M> other{A, first_row, last_row, k};
    Vec values(r);
    for (int i = 0; i < r; ++i) values[i] = a(first_row + i, j);
    Same(copy, values, "vector from a column");
    double dot = 0;
    for (int i = 0; i < r; ++i) {
      dot += a(first_row + i, j) * a(first_row + i, k);
    }
    CheckEq(TransposedView{column} * other, dot, "product");  // NOLINT
    Mat const m = Sample(r, 1, 7);
    UnboundedVector<double> const w = Fill(UnboundedVector<double>(r), m.d);
    for (int i = 0; i < r; ++i) {
      double& e = a(first_row + i, j);
      double& f = a(first_row + i, k);
      switch (op) {
        case 0: e = m(i, 0); break;
        case 1: e += m(i, 0); break;
        case 2: e -= m(i, 0); break;
        case 3: e *= 3; break;
        case 4: e /= 4; break;
        case 5: std::swap(e, f); break;
        case 6: e = f; break;
        case 7: e += f; break;
      }
    }
    switch (op) {
      case 0: column = w; break;
      case 1: column += w; break;
      case 2: column -= w; break;
      case 3: column *= 3; break;
      case 4: column /= 4; break;
      case 5: SwapColumns(column, other); break;
      case 6: column = other; break;
      case 7: column += other; break;
    }
    Same(A, a, "after the operation on a column");
  }
  (void)zero3;
  seq::Step();
}

// Triangular matrices.  `in` tells which elements exist.
template<typename T, typename In>
void TestTriangular(T const& zero, In const& in, std::vector<double> list) {
  int const n = zero.rows();
  CheckEq(static_cast<int>(zero.columns()), n);
  Mat m(n, n);
  T t = zero;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (in(i, j)) CheckEq(t(i, j), 0.0, "zero");
  // Elements are independent.
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (in(i, j)) t(i, j) = m(i, j) = 10 * i + j + 1;
  auto const same = [&](T const& t, char const* what) {
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        if (in(i, j)) Same(t(i, j), m(i, j), what);
  };
  same(t, "elements");
  T copy = t;
  same(copy, "copy");
  Check(copy == t);
  Check(!(copy == zero));
  T moved = std::move(copy);
  same(moved, "move");
  moved = zero;
  moved = t;
  same(moved, "assignment");
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) {
      if (in(i, j)) {
        T other = t;
        other(i, j) = -1;
        Check(!(other == t), "equality ignores ", i, ", ", j);
      }
    }
  }
}
template<typename Full, typename T, typename In>
void TestConversion(T const& zero, In const& in) {
  int const n = zero.rows();
  T t = zero;
  Mat m(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (in(i, j)) t(i, j) = m(i, j) = 10 * i + j + 1;
  Same(static_cast<Full>(t), m, "conversion to a full matrix");
}
template<typename To, typename From, typename In>
void TestTransposition(From const& zero, In const& in) {
  int const n = zero.rows();
  From from = zero;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (in(i, j)) from(i, j) = 10 * i + j + 1;
  To const to{TransposedView<From>{from}};
  CheckEq(static_cast<int>(to.rows()), n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (in(i, j) && (i != j || requires { to(j, i); }))
        CheckEq(to(j, i), from(i, j), "transposition");
}
bool Lower(int i, int j) { return j <= i; }
bool StrictlyLower(int i, int j) { return j < i; }
bool UpperT(int i, int j) { return i <= j; }
bool StrictlyUpper(int i, int j) { return i < j; }

template<int n, bool h>
void TestFixedTriangular() {
  using L = FixedLowerTriangularMatrix<double, n, h>;
  using SL = FixedStrictlyLowerTriangularMatrix<double, n, h>;
  using U = FixedUpperTriangularMatrix<double, n, h>;
  using SU = FixedStrictlyUpperTriangularMatrix<double, n, h>;
  using M = FixedMatrix<double, n, n, h>;
  TestTriangular(L(), Lower, {});
  TestTriangular(SL(), StrictlyLower, {});
  TestTriangular(U(), UpperT, {});
  TestTriangular(SU(), StrictlyUpper, {});
  TestConversion<M>(L(), Lower);
  TestConversion<M>(SL(), StrictlyLower);
  TestConversion<M>(U(), UpperT);
  TestConversion<M>(SU(), StrictlyUpper);
  TestTransposition<U>(L(), Lower);
  TestTransposition<L>(U(), UpperT);
  if constexpr (n == 4) {
    L const l({11, 21, 22, 31, 32, 33, 41, 42, 43, 44});
    SL const sl({21, 31, 32, 41, 42, 43});
    U const u({11, 12, 13, 14, 22, 23, 24, 33, 34, 44});
    SU const su({12, 13, 14, 23, 24, 34});
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < n; ++j) {
        double const e = 10 * (i + 1) + j + 1;
        if (Lower(i, j)) CheckEq(l(i, j), e);
        if (StrictlyLower(i, j)) CheckEq(sl(i, j), e);
        if (StrictlyLower(i, j)) CheckEq(sl.row(i)[j], e);
        if (UpperT(i, j)) CheckEq(u(i, j), e);
        if (StrictlyUpper(i, j)) CheckEq(su(i, j), e);
      }
    }
  }
}
template<int n>
void TestUnboundedTriangular() {
  using L = UnboundedLowerTriangularMatrix<double>;
  using U = UnboundedUpperTriangularMatrix<double>;
  using SU = UnboundedStrictlyUpperTriangularMatrix<double>;
  using M = UnboundedMatrix<double>;
  TestTriangular(L(n), Lower, {});
  TestTriangular(U(n), UpperT, {});
  TestTriangular(SU(n), StrictlyUpper, {});
  TestConversion<M>(L(n), Lower);
  TestConversion<M>(U(n), UpperT);
  TestConversion<M>(SU(n), StrictlyUpper);
  TestTransposition<U>(L(n), Lower);
  TestTransposition<L>(U(n), UpperT);
}
}  // namespace

SEQ_HARNESS(matrices, .split = 2) {
  switch (Choose(3)) {
    case 0: TestMatrices<FixedTypes>(); break;
    case 1: TestMatrices<HeapTypes>(); break;
    case 2: TestMatrices<UnboundedTypes>(); break;
  }
}

SEQ_HARNESS(vectors, .split = 2) {
  switch (Choose(3)) {
    case 0: TestVectors<FixedTypes>(); break;
    case 1: TestVectors<HeapTypes>(); break;
    case 2: TestVectors<UnboundedTypes>(); break;
  }
}

SEQ_HARNESS(views, .split = 3) {
  if (Choose(2) == 0) {
    TestViews(FixedMatrix<double, 4, 4>(), FixedVector<double, 3>());
  } else {
    TestViews(UnboundedMatrix<double>(4, 4), UnboundedVector<double>(3));
  }
}

SEQ_HARNESS(triangular, .split = 1) {
  switch (Choose(8)) {
    case 0: TestFixedTriangular<2, false>(); break;
    case 1: TestFixedTriangular<3, true>(); break;
    case 2: TestFixedTriangular<4, false>(); break;
    case 3: TestFixedTriangular<4, true>(); break;
    case 4: TestFixedTriangular<5, false>(); break;
    case 5: TestUnboundedTriangular<2>(); break;
    case 6: TestUnboundedTriangular<4>(); break;
    case 7: TestUnboundedTriangular<5>(); break;
  }
  seq::Step();
}

namespace {
// Sequences of extensions and truncations.
template<typename T>
void TestExtensions(auto const& in, auto const& rows_first) {
  using P = std::pair<int, int>;
  std::map<P, double> model;
  int n = 1 + Choose(2);
  T t(n);
  double next = 1;
  auto const check = [&] {
    CheckEq(static_cast<int>(t.rows()), n);
    CheckEq(static_cast<int>(t.columns()), n);
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < n; ++j) {
        if (in(i, j)) {
          Check(t(i, j) == model[P(i, j)], "element ", i, ", ", j, ": ",
                t(i, j), " should be ", model[P(i, j)]);
        }
      }
    }
    Mat m(n, n);
    for (auto const& [p, x] : model) {
      if (p.first < n && p.second < n) m(p.first, p.second) = x;
    }
    Same(static_cast<UnboundedMatrix<double>>(t), m, "full matrix");
  };
  check();
  int const depth = seq::Thorough() ? 5 : 4;
  for (int d = 0; d < depth; ++d) {
    switch (Choose(5)) {
      case 0: {
        int const extra = 1 + Choose(2);
        Notes("Extend ", extra);
        t.Extend(extra);
        n += extra;
        break;
      }
      case 1: {
        int const extra = 1 + Choose(2);
        Notes("Extend uninitialized ", extra);
        t.Extend(extra, uninitialized);
        int const old = n;
        n += extra;
        for (int i = 0; i < n; ++i)
          for (int j = 0; j < n; ++j)
            if (in(i, j) && (i >= old || j >= old))
              t(i, j) = model[P(i, j)] = next++;
        break;
      }
      case 2: {
        if (n > 5) seq::Prune();
        bool const two = Choose(2) == 1;
        int const extra = two ? 2 : 1;
        Notes("Extend with a list, ", extra);
        int const old = n;
        n += extra;
        std::vector<double> list;
        for (int i = 0; i < n; ++i) {
          for (int j = 0; j < n; ++j) {
            if (in(i, j) && (i >= old || j >= old)) {
              list.push_back(model[P(i, j)] = next++);
            }
          }
        }
        switch (list.size()) {
#define L1(k) list[k]
#define L2(k) L1(k), L1(k + 1)
#define L4(k) L2(k), L2(k + 2)
#define L8(k) L4(k), L4(k + 4)
          case 1: t.Extend({L1(0)}); break;
          case 2: t.Extend({L2(0)}); break;
          case 3: t.Extend({L2(0), L1(2)}); break;
          case 4: t.Extend({L4(0)}); break;
          case 5: t.Extend({L4(0), L1(4)}); break;
          case 6: t.Extend({L4(0), L2(4)}); break;
          case 7: t.Extend({L4(0), L2(4), L1(6)}); break;
          case 8: t.Extend({L8(0)}); break;
          case 9: t.Extend({L8(0), L1(8)}); break;
          case 10: t.Extend({L8(0), L2(8)}); break;
          case 11: t.Extend({L8(0), L2(8), L1(10)}); break;
          case 12: t.Extend({L8(0), L4(8)}); break;
          case 13: t.Extend({L8(0), L4(8), L1(12)}); break;
          case 14: t.Extend({L8(0), L4(8), L2(12)}); break;
          default: seq::Prune();
        }
        break;
      }
      case 3: {
        int const k = Choose(n + 1);
        if (k == 0) seq::Prune();
        Notes("EraseToEnd ", k);
        t.EraseToEnd(k);
        n = k;
        std::erase_if(model, [k](auto const& e) {
          return e.first.first >= k || e.first.second >= k;
        });
        break;
      }
      case 4: {
        int const i = Choose(n);
        int const j = Choose(n);
        if (!in(i, j)) seq::Prune();
        Notes("write ", i, ", ", j);
        t(i, j) = model[P(i, j)] = next++;
        break;
      }
    }
    seq::Step();
    check();
  }
  (void)rows_first;
}
}  // namespace

SEQ_HARNESS(extensions, .split = 4) {
  switch (Choose(4)) {
    case 0:
      TestExtensions<UnboundedLowerTriangularMatrix<double>>(Lower, true);
      break;
    case 1:
      TestExtensions<UnboundedUpperTriangularMatrix<double>>(UpperT, false);
      break;
    case 2:
      TestExtensions<UnboundedStrictlyUpperTriangularMatrix<double>>(
          StrictlyUpper, false);
      break;
    case 3: {
      Vec model(1 + Choose(2));
      UnboundedVector<double> v(model.size());
      double next = 1;
      int const depth = seq::Thorough() ? 7 : 5;
      for (int d = 0; d < depth; ++d) {
        switch (Choose(5)) {
          case 0: {
            int const extra = Choose(3);
            v.Extend(extra);
            model.resize(model.size() + extra);
            break;
          }
          case 1: {
            int const extra = 1 + Choose(2);
            v.Extend(extra, uninitialized);
            for (int i = 0; i < extra; ++i) {
              v[model.size()] = next;
              model.push_back(next++);
            }
            break;
          }
          case 2:
            v.Extend({next, next + 1, next + 2});
            for (int i = 0; i < 3; ++i) model.push_back(next++);
            break;
          case 3: {
            int const k = Choose(model.size() + 1);
            v.EraseToEnd(k);
            model.resize(k);
            break;
          }
          case 4: {
            if (model.empty()) seq::Prune();
            int const k = Choose(model.size());
            v[k] = model[k] = next++;
            break;
          }
        }
        seq::Step();
        Same(v, model, "vector");
      }
    }
  }
}

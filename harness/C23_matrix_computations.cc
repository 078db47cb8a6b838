// C23: matrix computations.
#include "base/multiprecision.hpp"
#include "harness/dense.h"
#include "numerics/fixed_arrays.hpp"
#include "numerics/matrix_computations.hpp"
#include "numerics/matrix_views.hpp"
#include "numerics/transposed_view.hpp"
#include "numerics/unbounded_arrays.hpp"

using namespace principia::base::_multiprecision;
using namespace principia::numerics::_fixed_arrays;
using namespace principia::numerics::_matrix_computations;
using namespace principia::numerics::_matrix_views;
using namespace principia::numerics::_transposed_view;
using namespace principia::numerics::_unbounded_arrays;
using dense::Mat;
using dense::Vec;

namespace {
Mat ChooseMatrix(int const r, int const c, int const lo, int const hi) {
  Mat m(r, c);
  for (double& x : m.d) x = lo + Choose(hi - lo + 1);
  return m;
}
Mat ChooseSymmetric(int const n, int const lo, int const hi) {
  Mat m(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = i; j < n; ++j) m(i, j) = m(j, i) = lo + Choose(hi - lo + 1);
  return m;
}
void Show(Mat const& m) {
  if (seq::Noting()) {
    for (int i = 0; i < m.r; ++i) {
      std::string s;
      for (int j = 0; j < m.c; ++j) s += std::to_string(m(i, j)) + " ";
      seq::Note(s);
    }
  }
}
template<typename A>
void Fill(A& a, Mat const& m) {
  for (int i = 0; i < m.r; ++i)
    for (int j = 0; j < m.c; ++j) a(i, j) = m(i, j);
}
template<typename A>
void FillUpper(A& a, Mat const& m) {
  for (int i = 0; i < m.r; ++i)
    for (int j = i; j < m.c; ++j) a(i, j) = m(i, j);
}
template<typename A>
void FillLower(A& a, Mat const& m) {
  for (int i = 0; i < m.r; ++i)
    for (int j = 0; j <= i; ++j) a(i, j) = m(i, j);
}
template<typename A>
Mat Upper(A const& a, int const n) {
  Mat m(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = i; j < n; ++j) m(i, j) = a(i, j);
  return m;
}
void Near(Mat const& actual, Mat const& expected, double const ε,
          char const* what) {
  for (int i = 0; i < actual.r; ++i) {
    for (int j = 0; j < actual.c; ++j) {
      Check(std::abs(actual(i, j) - expected(i, j)) <= ε, what, " (", i, ", ",
            j, "): ", actual(i, j), " should be ", expected(i, j));
    }
  }
}

template<typename M, typename V>
void TestSolve(Mat const& a, M& A, V& b) {
  int const n = a.r;
  static constexpr double x₀[] = {3, -1, 2, 5};
  Vec const bb = a * Vec(x₀, x₀ + n);
  Fill(A, a);
  for (int i = 0; i < n; ++i) b[i] = bb[i];
  auto const x = Solve(A, b);
  for (int i = 0; i < n; ++i) {
    Check(std::abs(x[i] - x₀[i]) <= 1e-13, "Solve, coordinate ", i, ": ", x[i],
          " should be ", x₀[i]);
    Check(b[i] == bb[i], "Solve changes its argument");
  }
}

template<typename M>
void TestGramSchmidt(Mat const& a, M& A) {
  int const n = a.r;
  Fill(A, a);
  auto const result = ClassicalGramSchmidt(A);
  Mat const Q = dense::FromMatrix(result.Q);
  Mat const R = Upper(result.R, n);
  Near(Q * R, a, 1e-14, "Q R");
  Near(dense::T(Q) * Q, Mat::Identity(n), 1e-13, "tQ Q");
}

template<typename M>
void TestEigenvalues(Mat const& a, M& A) {
  int const n = a.r;
  Fill(A, a);
  Vec const p = dense::Characteristic(a);
  double frobenius = 0;
  for (double const x : a.d) frobenius += x * x;
  {
    Mat const H = dense::FromMatrix(HessenbergDecomposition(A).H);
    double h = 0;
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < n; ++j) {
        h += H(i, j) * H(i, j);
        if (j < i - 1) {
          Check(std::abs(H(i, j)) <= 1e-14, "not Hessenberg: ", H(i, j));
        }
      }
    }
    Check(std::abs(h - frobenius) <= 1e-12, "the norm of H is ", h, " not ",
          frobenius);
    Vec const q = dense::Characteristic(H);
    for (int i = 0; i <= n; ++i) {
      Check(std::abs(p[i] - q[i]) <= 1e-12, "characteristic polynomial of H, ",
            i, ": ", q[i], " should be ", p[i]);
    }
  }
  {
    auto const schur = RealSchurDecomposition(A, 1e-15);
    Mat const T = dense::FromMatrix(schur.T);
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < n; ++j) {
        if (j < i - 1) {
          Check(std::abs(T(i, j)) <= 1e-13, "not quasi-triangular: ", T(i, j));
        }
      }
    }
    for (int i = 0; i < n - 2; ++i) {
      Check(T(i + 1, i) == 0 || T(i + 2, i + 1) == 0,
            "not quasi-triangular at ", i);
    }
    Vec const q = dense::Characteristic(T);
    for (int i = 0; i <= n; ++i) {
      Check(std::abs(p[i] - q[i]) <= 1e-12, "characteristic polynomial of T, ",
            i, ": ", q[i], " should be ", p[i]);
    }
    for (double const λ : schur.real_eigenvalues) {
      double const residual = dense::Evaluate(p, λ);
      Check(std::abs(residual) <= 1e-12, λ, " is not an eigenvalue: ",
            residual);
    }
    int const count = dense::RealRoots(p);
    if (count >= 0) {
      Check(count == static_cast<int>(schur.real_eigenvalues.size()),
            schur.real_eigenvalues.size(), " eigenvalues, should be ", count);
      double previous = -std::numeric_limits<double>::infinity();
      for (double const λ : schur.real_eigenvalues) {
        Check(λ > previous + 1e-6, "eigenvalues too close: ", λ);
        previous = λ;
      }
    }
  }
}

template<typename M>
void TestJacobi(Mat const& a, M& A, int const iterations) {
  int const n = a.r;
  Fill(A, a);
  auto const jacobi = ClassicalJacobi(A, iterations);
  Mat const V = dense::FromMatrix(jacobi.rotation);
  Near(dense::T(V) * V, Mat::Identity(n), 1e-14, "tV V");
  double determinant;
  if (n == 3) {
    determinant = V(0, 0) * (V(1, 1) * V(2, 2) - V(1, 2) * V(2, 1)) -
                  V(0, 1) * (V(1, 0) * V(2, 2) - V(1, 2) * V(2, 0)) +
                  V(0, 2) * (V(1, 0) * V(2, 1) - V(1, 1) * V(2, 0));
    Check(std::abs(determinant - 1) <= 1e-14, "determinant: ", determinant);
  }
  Mat D(n, n);
  for (int i = 0; i < n; ++i) D(i, i) = jacobi.eigenvalues[i];
  Near(a * V, V * D, 1e-14, "A V");
}

template<typename M, typename V>
void TestRayleigh(Mat const& a, M& A, V& x) {
  int const n = a.r;
  Fill(A, a);
  static constexpr double xs[] = {3, -1, 2, 5};
  for (int i = 0; i < n; ++i) x[i] = xs[i];
  Vec const y = a * Vec(xs, xs + n);
  double num = 0;
  double den = 0;
  for (int i = 0; i < n; ++i) {
    num += xs[i] * y[i];
    den += xs[i] * xs[i];
  }
  double const quotient = RayleighQuotient(A, x);
  Check(std::abs(quotient - num / den) <= 1e-14, "Rayleigh quotient");
  auto const jacobi = ClassicalJacobi(A, 60);
  for (int k = 0; k < n; ++k) {
    double gap = std::numeric_limits<double>::infinity();
    for (int l = 0; l < n; ++l) {
      if (l != k) {
        gap = std::min(gap, std::abs(jacobi.eigenvalues[k] -
                                     jacobi.eigenvalues[l]));
      }
    }
    if (gap < 0.3) continue;
    // All the perturbations of the eigenvector.
    for (double const δ : {0.0, 1e-12, 1e-3, 0.02}) {
      for (int l = 0; l < n; ++l) {
        for (int i = 0; i < n; ++i) x[i] = jacobi.rotation(i, k) * 7;
        x[l] += δ * 7;
        auto const e = RayleighQuotientIteration(A, x);
        Check(std::abs(e.eigenvalue - jacobi.eigenvalues[k]) <= 1e-14,
              "Rayleigh quotient iteration from eigenvector ", k, " with ", l,
              " off by ", δ, ": ", e.eigenvalue, " should be ",
              jacobi.eigenvalues[k]);
        double dot = 0;
        for (int i = 0; i < n; ++i) {
          dot += e.eigenvector[i] * jacobi.rotation(i, k);
        }
        Check(std::abs(std::abs(dot) - 1) <= 1e-14,
              "Rayleigh quotient iteration from eigenvector ", k, " with ", l,
              " off by ", δ, ": eigenvector");
      }
    }
  }
}

template<typename U, typename L, typename V>
void TestSymmetric(Mat const& a, U& u, L& lower, V& b) {
  int const n = a.r;
  FillUpper(u, a);
  bool positive = true;
  bool regular = true;
  for (int k = 1; k <= n; ++k) {
    Mat minor(k, k);
    for (int i = 0; i < k; ++i)
      for (int j = 0; j < k; ++j) minor(i, j) = a(i, j);
    double const d = dense::Determinant(minor);
    positive &= d > 0;
    regular &= d != 0;
  }
  if (positive) {
    Mat const R = Upper(CholeskyDecomposition(u), n);
    Near(dense::T(R) * R, a, 1e-14, "tR R");
    for (int i = 0; i < n; ++i) Check(R(i, i) > 0, "diagonal of R");
  }
  if (regular) {
    auto const rdr = ᵗRDRDecomposition<V>(u);
    Mat const R = Upper(rdr.R, n);
    Mat D(n, n);
    for (int i = 0; i < n; ++i) {
      D(i, i) = rdr.D[i];
      Check(R(i, i) == 1, "diagonal of R");
    }
    Near(dense::T(R) * (D * R), a, 1e-13, "tR D R");
  }
  bool diagonal = true;
  for (int i = 0; i < n; ++i) diagonal &= a(i, i) != 0;
  if (diagonal) {
    static constexpr double x₀[] = {3, -1, 2, 5};
    for (int i = 0; i < n; ++i) {
      b[i] = 0;
      for (int j = i; j < n; ++j) b[i] += a(i, j) * x₀[j];
    }
    auto const x = BackSubstitution(u, b);
    FillLower(lower, a);
    for (int i = 0; i < n; ++i) {
      b[i] = 0;
      for (int j = 0; j <= i; ++j) b[i] += a(i, j) * x₀[j];
    }
    auto const y = ForwardSubstitution(lower, b);
    for (int i = 0; i < n; ++i) {
      Check(std::abs(x[i] - x₀[i]) <= 1e-13, "BackSubstitution ", i, ": ",
            x[i], " should be ", x₀[i]);
      Check(std::abs(y[i] - x₀[i]) <= 1e-13, "ForwardSubstitution ", i, ": ",
            y[i], " should be ", x₀[i]);
    }
  }
}

void TestAll(Mat const& a, bool const fixed) {
  bool const regular = dense::Determinant(a) != 0;
  if (fixed) {
    CHECK_EQ(a.r, 3);
    FixedMatrix<double, 3, 3> A;
    FixedVector<double, 3> b;
    if (regular) {
      TestSolve(a, A, b);
      TestGramSchmidt(a, A);
    }
    TestEigenvalues(a, A);
  } else {
    UnboundedMatrix<double> A(a.r, a.r);
    UnboundedVector<double> b(a.r);
    if (regular) {
      TestSolve(a, A, b);
      TestGramSchmidt(a, A);
    }
    TestEigenvalues(a, A);
  }
  seq::Step();
}
}  // namespace

SEQ_HARNESS(square3, .split = 4) {
  Mat const a = ChooseMatrix(3, 3, seq::Thorough() ? -3 : -2, 2);
  Show(a);
  TestAll(a, /*fixed=*/true);
  TestAll(a, /*fixed=*/false);
}

SEQ_HARNESS(square4, .split = 6) {
  Mat a(4, 4);
  for (int i = 0; i < 4; ++i) {
    for (int j = 0; j < 4; ++j) {
      a(i, j) = seq::Thorough() || i == 0 || j == 0 ? Choose(3) - 1 : Choose(2);
    }
  }
  Show(a);
  TestAll(a, /*fixed=*/false);
}

SEQ_HARNESS(symmetric3, .split = 4) {
  Mat const a = ChooseSymmetric(3, seq::Thorough() ? -5 : -3, seq::Thorough() ? 6 : 3);
  Show(a);
  {
    FixedMatrix<double, 3, 3> A;
    FixedVector<double, 3> b;
    FixedUpperTriangularMatrix<double, 3> u;
    FixedLowerTriangularMatrix<double, 3> l;
    TestJacobi(a, A, 16);
    TestRayleigh(a, A, b);
    TestSymmetric(a, u, l, b);
  }
  {
    UnboundedMatrix<double> A(3, 3);
    UnboundedVector<double> b(3);
    UnboundedUpperTriangularMatrix<double> u(3);
    UnboundedLowerTriangularMatrix<double> l(3);
    TestJacobi(a, A, 16);
    TestRayleigh(a, A, b);
    TestSymmetric(a, u, l, b);
  }
  seq::Step();
}

SEQ_HARNESS(symmetric4, .split = 4) {
  Mat const a = ChooseSymmetric(4, -1, seq::Thorough() ? 2 : 1);
  Show(a);
  UnboundedMatrix<double> A(4, 4);
  UnboundedVector<double> b(4);
  UnboundedUpperTriangularMatrix<double> u(4);
  UnboundedLowerTriangularMatrix<double> l(4);
  TestJacobi(a, A, 60);
  TestRayleigh(a, A, b);
  TestSymmetric(a, u, l, b);
  seq::Step();
}

// Exact.
SEQ_HARNESS(unitriangular, .split = 4) {
  auto const test = [](auto rows, auto columns) {
    constexpr int r = rows;
    constexpr int c = columns;
    Mat const a = ChooseMatrix(r, c, -1, 1);
    Show(a);
    FixedMatrix<cpp_int, r, c> A;
    FixedMatrix<cpp_rational, r, c> B;
    FixedMatrix<double, r, c> C;
    UnboundedMatrix<double> D(r, c);
    for (int i = 0; i < r; ++i) {
      for (int j = 0; j < c; ++j) {
        A(i, j) = static_cast<int>(a(i, j));
        B(i, j) = static_cast<int>(a(i, j));
        C(i, j) = a(i, j);
        D(i, j) = a(i, j);
      }
    }
    auto const exact = [&](auto const& gs) {
      for (int j = 0; j < c; ++j) {
        Check(gs.R(j, j) == 1, "R is not unitriangular");
        for (int i = 0; i < r; ++i) {
          cpp_rational sum = 0;
          for (int k = 0; k <= j; ++k) sum += gs.Q(i, k) * gs.R(k, j);
          Check(sum == static_cast<int>(a(i, j)), "Q R, ", i, ", ", j);
        }
        for (int k = 0; k < j; ++k) {
          cpp_rational sum = 0;
          for (int i = 0; i < r; ++i) sum += gs.Q(i, k) * gs.Q(i, j);
          Check(sum == 0, "columns ", k, " and ", j, " are not orthogonal");
        }
      }
    };
    exact(UnitriangularGramSchmidt(A));
    exact(UnitriangularGramSchmidt(B));
    auto const approximate = [&](auto const& gs) {
      for (int j = 0; j < c; ++j) {
        Check(gs.R(j, j) == 1, "R is not unitriangular");
        for (int i = 0; i < r; ++i) {
          double sum = 0;
          for (int k = 0; k <= j; ++k) sum += gs.Q(i, k) * gs.R(k, j);
          Check(std::abs(sum - a(i, j)) <= 1e-14, "Q R, ", i, ", ", j);
        }
      }
    };
    // Linearly dependent vectors are best handled exactly.
    auto const g = UnitriangularGramSchmidt(C);
    auto const h = UnitriangularGramSchmidt(D);
    approximate(g);
    approximate(h);
    for (int j = 0; j < c; ++j) {
      double const norm =
          ColumnView<FixedMatrix<double, r, c> const>{g.Q, 0, r - 1, j}.Norm();
      if (norm < 1e-10) return;
      for (int k = 0; k < j; ++k) {
        double sum = 0;
        double sum2 = 0;
        for (int i = 0; i < r; ++i) {
          sum += g.Q(i, k) * g.Q(i, j);
          sum2 += h.Q(i, k) * h.Q(i, j);
        }
        Check(std::abs(sum) <= 1e-14, "columns ", k, " and ", j,
              " are not orthogonal");
        Check(std::abs(sum2) <= 1e-14, "columns ", k, " and ", j,
              " are not orthogonal");
      }
    }
  };
  if (Choose(2) == 0) {
    test(std::integral_constant<int, 3>(), std::integral_constant<int, 3>());
  } else {
    test(std::integral_constant<int, 4>(), std::integral_constant<int, 2>());
  }
  seq::Step();
}

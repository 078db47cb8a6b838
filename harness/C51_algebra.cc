// C51: the exterior algebra, matrices, bilinear forms, quaternions.
#include <array>

#include "geometry/frame.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/quaternion.hpp"
#include "geometry/r3_element.hpp"
#include "geometry/r3x3_matrix.hpp"
#include "geometry/rotation.hpp"
#include "geometry/symmetric_bilinear_form.hpp"
#include "harness/principia.h"
#include "numerics/fma.hpp"
#include "serialization/geometry.pb.h"

using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_quaternion;
using namespace principia::geometry::_r3_element;
using namespace principia::geometry::_r3x3_matrix;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_symmetric_bilinear_form;

namespace {
using World = Frame<serialization::Frame::TestTag, Inertial,
                    Handedness::Right, serialization::Frame::TEST>;
using Eigenframe = Frame<serialization::Frame::TestTag, Inertial,
                         Handedness::Right, serialization::Frame::TEST1>;

using V = std::array<double, 3>;
using M = std::array<V, 3>;

V cross(V const& a, V const& b) {
  return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
          a[0] * b[1] - a[1] * b[0]};
}
double dot(V const& a, V const& b) {
  return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
double norm(V const& a) { return std::sqrt(dot(a, a)); }

R3Element<double> R3(V const& v) { return {v[0], v[1], v[2]}; }
template<typename E>
void Exact(E const& actual, V const& expected, char const* what) {
  for (int i = 0; i < 3; ++i) {
    Check(actual[i] == expected[i], what, " coordinate ", i, ": ", actual[i],
          " should be ", expected[i]);
  }
}
template<typename E>
void Close(E const& actual, V const& expected, double const ε,
           char const* what) {
  for (int i = 0; i < 3; ++i) {
    Check(std::abs(actual[i] - expected[i]) <= ε, what, " coordinate ", i, ": ",
          actual[i], " should be ", expected[i]);
  }
}
void Near(double const actual, double const expected, double const ε,
          char const* what) {
  Check(std::abs(actual - expected) <= ε, what, ": ", actual, " should be ",
        expected);
}

V ChooseVector(int const n) {
  return {1.0 * Choose(2 * n + 1) - n, 1.0 * Choose(2 * n + 1) - n,
          1.0 * Choose(2 * n + 1) - n};
}

template<typename T, typename Message>
T RoundTrip(T const& t) {
  Message message;
  t.WriteToMessage(&message);
  Message parsed;
  Check(parsed.ParseFromString(message.SerializeAsString()));
  return T::ReadFromMessage(parsed);
}
}  // namespace

SEQ_HARNESS(exterior, .split = 3) {
  int const n = seq::Thorough() ? 3 : 2;
  V const a = ChooseVector(n);
  V const b = ChooseVector(n);
  using VL = Vector<Length, World>;
  using VD = Vector<double, World>;
  using BL = Bivector<Length, World>;
  using BD = Bivector<double, World>;
  using TD = Trivector<double, World>;
  using TL = Trivector<Length, World>;
  VL const va(R3(a) * Metre);
  VD const vb(R3(b));
  BL const ba(R3(a) * Metre);
  BD const bb(R3(b));
  V const c = cross(a, b);
  double const d = dot(a, b);
  Exact((Wedge(va, vb) / Metre).coordinates(), c, "v ∧ w");
  static_assert(std::is_same_v<decltype(Wedge(va, vb)), BL>);
  Exact((Commutator(ba, bb) / Metre).coordinates(), c, "[a, b]");
  Exact((ba * vb / Metre).coordinates(), c, "a * w");
  Exact((va * bb / Metre).coordinates(), c, "v * b");
  static_assert(std::is_same_v<decltype(ba * vb), VL>);
  Check(Wedge(va, bb) == TL(d * Metre), "v ∧ b");
  Check(Wedge(ba, vb) == TL(d * Metre), "a ∧ w");
  Check(InnerProduct(va, vb) == d * Metre, "<v, w>");
  Check(InnerProduct(ba, bb) == d * Metre, "<a, b>");
  double const t = 2.5;
  TL const tt(t * Metre);
  V const tb = {t * b[0], t * b[1], t * b[2]};
  Exact((bb * tt / Metre).coordinates(), tb, "b * t");
  Exact((tt * bb / Metre).coordinates(), tb, "t * b");
  Exact((vb * tt / Metre).coordinates(), tb, "w * t");
  Exact((tt * vb / Metre).coordinates(), tb, "t * w");
  static_assert(std::is_same_v<decltype(bb * tt), VL>);
  static_assert(std::is_same_v<decltype(vb * tt), BL>);
  Check(InnerProduct(tt, TD(d)) == t * d * Metre, "<s, t>");
  Check(tt.Norm() == t * Metre && tt.Norm²() == t * t * Metre * Metre, "|t|");
  // Vector space.
  auto const space = [&](auto const& x, auto const& y) {
    V const sum = {a[0] + b[0], a[1] + b[1], a[2] + b[2]};
    V const difference = {a[0] - b[0], a[1] - b[1], a[2] - b[2]};
    V const fma = {3 * a[0] + b[0], 3 * a[1] + b[1], 3 * a[2] + b[2]};
    V const fms = {3 * a[0] - b[0], 3 * a[1] - b[1], 3 * a[2] - b[2]};
    V const nma = {-fms[0], -fms[1], -fms[2]};
    V const nms = {-fma[0], -fma[1], -fma[2]};
    Exact((x + y).coordinates(), sum, "+");
    Exact((x - y).coordinates(), difference, "-");
    Exact((-x).coordinates(), {-a[0], -a[1], -a[2]}, "unary -");
    Exact((+x).coordinates(), a, "unary +");
    auto z = x;
    z += y;
    Exact(z.coordinates(), sum, "+=");
    z -= y;
    Exact(z.coordinates(), a, "-=");
    z *= 3;
    Exact(z.coordinates(), {3 * a[0], 3 * a[1], 3 * a[2]}, "*=");
    z /= 4;
    Exact(z.coordinates(), {3 * a[0] / 4, 3 * a[1] / 4, 3 * a[2] / 4}, "/=");
    if constexpr (principia::numerics::_fma::CanEmitFMAInstructions) {
      Exact(FusedMultiplyAdd(x, 3.0, y).coordinates(), fma, "fma");
      Exact(FusedMultiplyAdd(3.0, x, y).coordinates(), fma, "fma");
      Exact(FusedMultiplySubtract(x, 3.0, y).coordinates(), fms, "fms");
      Exact(FusedMultiplySubtract(3.0, x, y).coordinates(), fms, "fms");
      Exact(FusedNegatedMultiplyAdd(x, 3.0, y).coordinates(), nma, "fnma");
      Exact(FusedNegatedMultiplyAdd(3.0, x, y).coordinates(), nma, "fnma");
      Exact(FusedNegatedMultiplySubtract(x, 3.0, y).coordinates(), nms, "fnms");
      Exact(FusedNegatedMultiplySubtract(3.0, x, y).coordinates(), nms, "fnms");
    }
    Check((x == y) == (a == b) && (x != y) == (a != b), "==");
    double const n = norm(a);
    Check(x.Norm²() == dot(a, a), "Norm²");
    Near(x.Norm(), n, 1e-15 * n, "Norm");
    if (n != 0) {
      Close(Normalize(x).coordinates(), {a[0] / n, a[1] / n, a[2] / n}, 1e-15,
            "Normalize");
    }
    Close(NormalizeOrZero(x).coordinates(),
          n == 0 ? V{} : V{a[0] / n, a[1] / n, a[2] / n}, 1e-15,
          "NormalizeOrZero");
    if (norm(b) != 0) {
      double const s = d / dot(b, b);
      Close(x.OrthogonalizationAgainst(y).coordinates(),
            {a[0] - s * b[0], a[1] - s * b[1], a[2] - s * b[2]}, 4e-15,
            "OrthogonalizationAgainst");
      if (n != 0) {
        double const angle = std::atan2(norm(c), d);
        Near(AngleBetween(x, y) / Radian, angle, 1e-15, "AngleBetween");
        BD const positive(R3({1, 3, -7}));
        double const p = dot(c, {1, 3, -7});
        if (p != 0) {
          Near(OrientedAngleBetween(x, y, positive) / Radian,
               p > 0 ? angle : -angle, 1e-15, "OrientedAngleBetween");
        }
      }
    }
    Check(RoundTrip<std::remove_cvref_t<decltype(x)>,
                    serialization::Multivector>(x) == x, "serialization");
  };
  space(VD(R3(a)), vb);
  space(BD(R3(a)), bb);
  Check(RoundTrip<TL, serialization::Multivector>(tt) == tt, "serialization");
  // Spherical coordinates.
  auto const spherical = (R3(a) * Metre).ToSpherical();
  double const r = norm(a);
  Near(spherical.radius / Metre, r, 1e-15 * r, "radius");
  if (r != 0) {
    Near(spherical.latitude / Radian, std::atan2(a[2], std::hypot(a[0], a[1])),
         1e-15, "latitude");
    if (a[0] != 0 || a[1] != 0) {
      Near(spherical.longitude / Radian, std::atan2(a[1], a[0]), 1e-15,
           "longitude");
    }
    Close(spherical.ToCartesian() / Metre, a, 2e-15 * r, "spherical");
  }
  seq::Step(40);
}

SEQ_HARNESS(matrices, .split = 4) {
  M m;
  int const n = seq::Thorough() ? 5 : 3;
  for (int i = 0; i < 3; ++i) {
    // The last line takes fewer values in the thorough tier.
    int const k = i == 2 ? 3 : n;
    for (int j = 0; j < 3; ++j) { m[i][j] = Choose(k) - k / 2; }
  }
  R3x3Matrix<double> const a(R3(m[0]), R3(m[1]), R3(m[2]));
  V const columns[3] = {{m[0][0], m[1][0], m[2][0]},
                        {m[0][1], m[1][1], m[2][1]},
                        {m[0][2], m[1][2], m[2][2]}};
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) { CheckEq(a(i, j), m[i][j]); }
  }
  Exact(a.row_x(), m[0], "row_x");
  Exact(a.row_y(), m[1], "row_y");
  Exact(a.row_z(), m[2], "row_z");
  double const det = dot(m[0], cross(m[1], m[2]));
  CheckEq(a.Determinant(), det, "Determinant");
  CheckEq(a.Trace(), m[0][0] + m[1][1] + m[2][2], "Trace");
  Exact(a.Diagonal(), {m[0][0], m[1][1], m[2][2]}, "Diagonal");
  bool const diagonal = m[0][1] == 0 && m[0][2] == 0 && m[1][0] == 0 &&
                        m[1][2] == 0 && m[2][0] == 0 && m[2][1] == 0;
  CheckEq(a.IsDiagonalMatrix(), diagonal, "IsDiagonalMatrix");
  double const f = std::sqrt(dot(m[0], m[0]) + dot(m[1], m[1]) +
                             dot(m[2], m[2]));
  Near(a.FrobeniusNorm(), f, 1e-15 * f, "FrobeniusNorm");
  auto const t = a.Transpose();
  V const x = {3, -5, 7};
  Exact(a * R3(x), {dot(m[0], x), dot(m[1], x), dot(m[2], x)}, "A * v");
  V const xa = {dot(columns[0], x), dot(columns[1], x), dot(columns[2], x)};
  Exact(R3(x) * a, xa, "v * A");
  Exact(t * R3(x), xa, "ᵗA * v");
  R3x3Matrix<double> const b(R3({1, 2, -3}), R3({4, -5, 6}), R3({7, 8, 9}));
  M const mb = {{{1, 2, -3}, {4, -5, 6}, {7, 8, 9}}};
  auto const ab = a * b;
  auto const ba = b * a;
  auto aa = a;
  aa *= b;
  auto const sum = a + b;
  auto const difference = a - b;
  auto const scaled = 2.0 * a;
  auto const kronecker = KroneckerProduct(R3(m[0]), R3(m[1]));
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      CheckEq(ab(i, j), dot(m[i], {mb[0][j], mb[1][j], mb[2][j]}), "A * B");
      CheckEq(aa(i, j), ab(i, j), "A *= B");
      CheckEq(ba(i, j), dot(mb[i], columns[j]), "B * A");
      CheckEq(sum(i, j), m[i][j] + mb[i][j], "+");
      CheckEq(difference(i, j), m[i][j] - mb[i][j], "-");
      CheckEq(scaled(i, j), 2 * m[i][j], "*");
      CheckEq((a / 2.0)(i, j), m[i][j] / 2, "/");
      CheckEq((-a)(i, j), -m[i][j], "unary -");
      CheckEq(kronecker(i, j), m[0][i] * m[1][j], "KroneckerProduct");
    }
  }
  Check((RoundTrip<R3x3Matrix<double>, serialization::R3x3Matrix>(a) == a),
        "serialization");
  if (det != 0) {
    auto const y = a.Solve(R3(x));
    Close(a * y, x, 2e-13, "Solve");
    R3x3Matrix<double> q, r;
    a.QRDecomposition(q, r);
    auto const qr = q * r;
    auto const qq = q.Transpose() * q;
    for (int i = 0; i < 3; ++i) {
      for (int j = 0; j < 3; ++j) {
        Near(qr(i, j), m[i][j], 1e-14, "Q * R");
        Near(qq(i, j), i == j, 4e-15, "Q orthogonal");
        if (i > j) { CheckEq(r(i, j), 0, "R triangular"); }
      }
    }
  }
  seq::Step(20);
}

SEQ_HARNESS(forms, .split = 3) {
  int const n = 5;
  auto const c = [&] { return Choose(n) - n / 2.0 + 0.5; };
  double const scales[] = {1, 1e-3, 1e-10, 1e150};
  // The largest scale applies to everything, the others to the last row.
  double const scale = seq::Of(scales);
  double const s = scale > 1 ? 1 : scale;
  double const g = scale > 1 ? scale : 1;
  double const xx = g * c();
  double const xy = g * c();
  double const xz = g * s * c();
  double const yy = g * c();
  double const yz = g * s * c();
  double const zz = g * s * c();
  M const m = {{{xx, xy, xz}, {xy, yy, yz}, {xz, yz, zz}}};
  R3x3Matrix<double> const matrix(R3(m[0]), R3(m[1]), R3(m[2]));
  using FV = SymmetricBilinearForm<double, World, Vector>;
  using FB = SymmetricBilinearForm<double, World, Bivector>;
  FV const f(matrix);
  FB const h(matrix);
  double const norm = matrix.FrobeniusNorm();
  double const ε = 1e-14 * norm;
  V const v = {1, -2, 0.5};
  V const w = {-1, 3, 4};
  V const fw = {dot(m[0], w), dot(m[1], w), dot(m[2], w)};
  Vector<double, World> const vv(R3(v));
  Vector<double, World> const vw(R3(w));
  Bivector<double, World> const bv(R3(v));
  Bivector<double, World> const bw(R3(w));
  Near(f(vv, vw), dot(v, fw), 4 * ε, "f(v, w)");
  Near(f(vw, vv), dot(v, fw), 4 * ε, "f(w, v)");
  Close((f * vw).coordinates(), fw, ε, "f * v");
  Close((vw * f).coordinates(), fw, ε, "v * f");
  Close((h * bw).coordinates(), fw, ε, "f * b");
  // Definition of the anticommutator: {F, v ∧ w} = F v ∧ w + v ∧ F w.
  V const fv = {dot(m[0], v), dot(m[1], v), dot(m[2], v)};
  V const c1 = cross(fv, w);
  V const c2 = cross(v, fw);
  V const anticommutator = {c1[0] + c2[0], c1[1] + c2[1], c1[2] + c2[2]};
  Close(Anticommutator(f, Wedge(vv, vw)).coordinates(), anticommutator, 20 * ε,
        "Anticommutator");
  Close((f.Anticommutator() * Wedge(vv, vw)).coordinates(), anticommutator,
        20 * ε, "Anticommutator");
  auto const identity = f.Anticommutator().AnticommutatorInverse();
  auto const identity2 = h.AnticommutatorInverse().Anticommutator();
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      Near(identity.coordinates()(i, j), m[i][j], ε, "AnticommutatorInverse");
      Near(identity2.coordinates()(i, j), m[i][j], ε, "AnticommutatorInverse");
    }
  }
  if (scale == 1) {
    auto const product = SymmetricProduct(vv, vw);
    Near(product(vv, vw), (dot(v, v) * dot(w, w) + dot(v, w) * dot(v, w)) / 2,
         1e-12, "SymmetricProduct");
    Check(SymmetricSquare(vv) == SymmetricProduct(vv, vv), "SymmetricSquare");
    double const det = dot(m[0], cross(m[1], m[2]));
    if (det != 0) {
      Close((f * (vw / f)).coordinates(), w, 1e-13, "v / f");
    }
    Check((RoundTrip<FV, serialization::SymmetricBilinearForm>(f) == f),
          "serialization");
    Check((f + f) == 2 * f && (f - f) == 0 * f && -f == f * -1 &&
              (f + f) / 2 == f && +f == f, "vector space");
    Check((InnerProductForm<World, Vector>()(vv, vw)) == dot(v, w),
          "InnerProductForm");
  }
  // Diagonalization.
  auto const system = f.Diagonalize<Eigenframe>();
  auto const& d = system.form.coordinates();
  Check(system.form.IsDiagonalized(), "IsDiagonalized");
  Check(d(0, 0) <= d(1, 1) && d(1, 1) <= d(2, 2), "sorted");
  CheckEq(f.IsDiagonalized(),
          xy == 0 && xz == 0 && yz == 0 && xx <= yy && yy <= zz,
          "IsDiagonalized");
  auto const back = system.rotation(system.form).coordinates();
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      Near(back(i, j), m[i][j], 4e-15 * norm, "Diagonalize");
    }
  }
  Vector<double, Eigenframe> const ex({1, 0, 0});
  Vector<double, Eigenframe> const ey({0, 1, 0});
  auto const rx = system.rotation(ex);
  auto const ry = system.rotation(ey);
  Near(rx.Norm(), 1, 4e-15, "eigenvector");
  Near(ry.Norm(), 1, 4e-15, "eigenvector");
  Near(InnerProduct(rx, ry), 0, 4e-15, "eigenvectors");
  seq::Step(20);
}

SEQ_HARNESS(quaternions, .split = 4) {
  int const n = seq::Thorough() ? 2 : 1;
  double const aw = Choose(2 * n + 1) - n;
  V const av = ChooseVector(n);
  double const bw = Choose(5) - 2;
  V const bv = ChooseVector(2);
  Quaternion const a(aw, R3(av));
  Quaternion const b(bw, R3(bv));
  auto const exact = [](Quaternion const& q, double const w, V const& v,
                        char const* const what) {
    CheckEq(q.real_part(), w, what);
    Exact(q.imaginary_part(), v, what);
  };
  double const pw = aw * bw - dot(av, bv);
  V const c = cross(av, bv);
  V const pv = {aw * bv[0] + bw * av[0] + c[0], aw * bv[1] + bw * av[1] + c[1],
                aw * bv[2] + bw * av[2] + c[2]};
  exact(a * b, pw, pv, "a * b");
  auto q = a;
  q *= b;
  exact(q, pw, pv, "a *= b");
  exact(a.Conjugate(), aw, {-av[0], -av[1], -av[2]}, "Conjugate");
  exact(a + b, aw + bw, {av[0] + bv[0], av[1] + bv[1], av[2] + bv[2]}, "+");
  exact(a - b, aw - bw, {av[0] - bv[0], av[1] - bv[1], av[2] - bv[2]}, "-");
  exact(-a, -aw, {-av[0], -av[1], -av[2]}, "-");
  exact(2.0 * a, 2 * aw, {2 * av[0], 2 * av[1], 2 * av[2]}, "2 * a");
  exact(a / 2, aw / 2, {av[0] / 2, av[1] / 2, av[2] / 2}, "a / 2");
  double const n2 = aw * aw + dot(av, av);
  CheckEq(a.Norm²(), n2, "Norm²");
  Near(a.Norm(), std::sqrt(n2), 1e-15 * n2, "Norm");
  Check((a == b) == (aw == bw && av == bv), "==");
  auto const close = [](Quaternion const& q, Quaternion const& r,
                        char const* const what) {
    Check((q - r).Norm() < 2e-14, what);
  };
  if (bw != 0 || norm(bv) != 0) {
    close(b * b.Inverse(), Quaternion(1), "Inverse");
    close((a / b) * b, a, "a / b");
    auto r = a;
    r /= b;
    close(r, a / b, "a /= b");
    close(Normalize(b) * b.Norm(), b, "Normalize");
    Near(Normalize(b).Norm(), 1, 4e-16, "Normalize");
  }
  Check((RoundTrip<Quaternion, serialization::Quaternion>(a) == a),
        "serialization");
  seq::Step(10);
}

// C50: linear maps between frames, against matrices.
#include <array>

#include "geometry/affine_map.hpp"
#include "geometry/conformal_map.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/homothecy.hpp"
#include "geometry/identity.hpp"
#include "geometry/orthogonal_map.hpp"
#include "geometry/permutation.hpp"
#include "geometry/point.hpp"
#include "geometry/r3x3_matrix.hpp"
#include "geometry/rotation.hpp"
#include "geometry/sign.hpp"
#include "geometry/signature.hpp"
#include "geometry/symmetric_bilinear_form.hpp"
#include "harness/principia.h"
#include "serialization/geometry.pb.h"

using namespace principia::geometry::_affine_map;
using namespace principia::geometry::_conformal_map;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_homothecy;
using namespace principia::geometry::_identity;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_permutation;
using namespace principia::geometry::_point;
using namespace principia::geometry::_quaternion;
using namespace principia::geometry::_r3_element;
using namespace principia::geometry::_r3x3_matrix;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_sign;
using namespace principia::geometry::_signature;
using namespace principia::geometry::_symmetric_bilinear_form;

namespace {
using F = serialization::Frame;
using R0 = Frame<F::TestTag, Inertial, Handedness::Right, F::TEST>;
using R1 = Frame<F::TestTag, Inertial, Handedness::Right, F::TEST1>;
using R2 = Frame<F::TestTag, Inertial, Handedness::Right, F::TEST2>;
using L0 = Frame<F::TestTag, Inertial, Handedness::Left, F::TEST3>;
using L1 = Frame<F::PhysicsTag, Inertial, Handedness::Left, F::FRENET>;

using M = std::array<std::array<double, 3>, 3>;
using V = std::array<double, 3>;

M const I = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}};

M operator*(M const& a, M const& b) {
  M r{};
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      for (int k = 0; k < 3; ++k) { r[i][j] += a[i][k] * b[k][j]; }
    }
  }
  return r;
}
V operator*(M const& a, V const& v) {
  V r{};
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) { r[i] += a[i][j] * v[j]; }
  }
  return r;
}
M T(M const& a) {
  M r;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) { r[i][j] = a[j][i]; }
  }
  return r;
}
M Scale(double const s, M const& a) {
  M r = a;
  for (auto& row : r) {
    for (auto& x : row) { x *= s; }
  }
  return r;
}

// The rotation by θ around `axis` (Rodrigues), and elementary ones.
M Rodrigues(V u, double const θ) {
  double const n = std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]);
  for (auto& x : u) { x /= n; }
  M const K = {{{0, -u[2], u[1]}, {u[2], 0, -u[0]}, {-u[1], u[0], 0}}};
  M const K2 = K * K;
  M r = I;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      r[i][j] += std::sin(θ) * K[i][j] + (1 - std::cos(θ)) * K2[i][j];
    }
  }
  return r;
}
M Axis(int const axis, double const θ) {
  V u{};
  u[axis] = 1;
  return Rodrigues(u, θ);
}

R3Element<double> R3(V const& v) { return {v[0], v[1], v[2]}; }
constexpr V vectors[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0.3, -2, 0.7}};

template<typename E>
void CheckClose(E const& actual, V const& expected, double const scale,
                char const* what, int const kind) {
  for (int i = 0; i < 3; ++i) {
    Check(std::abs(actual[i] - expected[i]) < 4e-15 * scale, what, " of kind ",
          kind, " coordinate ", i, ": ", actual[i], " should be ",
          expected[i]);
  }
}

// Applies a map to everything.
template<typename From, typename To, typename Map>
void CheckVectors(Map const& map, M const& m, int const kind,
                  double const scale = 1) {
  for (auto const& v : vectors) {
    CheckClose((map(Vector<Length, From>(R3(v) * Metre)) / Metre)
                   .coordinates(),
               m * v, 3 * scale, "vector", kind);
  }
  seq::Step();
}
template<typename From, typename To, typename Map>
void CheckOrthogonal(Map const& map, M const& m, int const kind) {
  CheckVectors<From, To>(map, m, kind);
  constexpr double det = From::handedness == To::handedness ? 1 : -1;
  M const b = Scale(det, m);
  for (auto const& v : vectors) {
    CheckClose((map(Bivector<Length, From>(R3(v) * Metre)) / Metre)
                   .coordinates(),
               b * v, 3, "bivector", kind);
  }
  Check((map(Trivector<double, From>(2.5)) == Trivector<double, To>(det * 2.5)),
        "trivector of kind ", kind);
  CheckEq(static_cast<int>(map.Determinant()), det, "Determinant of kind ",
          kind);
}
template<typename From, typename To, typename Map>
void CheckForms(Map const& map, M const& m, int const kind) {
  M const f = {{{1, 2, 3}, {2, -4, 5}, {3, 5, 0.5}}};
  M const expected = m * f * T(m);
  SymmetricBilinearForm<double, From, Vector> const form(
      R3x3Matrix<double>(R3(f[0]), R3(f[1]), R3(f[2])));
  auto const actual = map(form).coordinates();
  SymmetricBilinearForm<double, From, Bivector> const form2(
      R3x3Matrix<double>(R3(f[0]), R3(f[1]), R3(f[2])));
  auto const actual2 = map(form2).coordinates();
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      Check(std::abs(actual(i, j) - expected[i][j]) < 4e-14, "form of kind ",
            kind);
      Check(std::abs(actual2(i, j) - expected[i][j]) < 4e-14,
            "form on bivectors of kind ", kind);
    }
  }
}

template<typename Map>
Map RoundTrip(Map const& map) {
  serialization::LinearMap message;
  map.WriteToMessage(&message);
  serialization::LinearMap parsed;
  Check(parsed.ParseFromString(message.SerializeAsString()));
  return Map::ReadFromMessage(parsed);
}

Quaternion Q(double const w, double const x, double const y, double const z) {
  double const n = std::sqrt(w * w + x * x + y * y + z * z);
  return Quaternion(w / n, R3Element<double>(x / n, y / n, z / n));
}

double const angles[] = {0, π / 6, π / 2, π, -2.5, 3, 5};
V const axes[] = {{1, 0, 0}, {0, 2, 0}, {0, 0, -1}, {1, 1, 1}, {-3, 0.5, 2}};

// Some maps only exist between frames of the same handedness.
template<typename From, typename To,
         bool same = From::handedness == To::handedness>
struct Proper {
  std::optional<Identity<From, To>> identity;
  std::optional<Rotation<From, To>> rotation;
};
template<typename From, typename To>
struct Proper<From, To, false> {};

template<typename From, typename To>
struct Any : Proper<From, To> {
  int kind;
  M m;
  std::optional<Permutation<From, To>> permutation;
  std::optional<Signature<From, To>> signature;
  std::optional<OrthogonalMap<From, To>> orthogonal;
};

std::array<int, 3> const permutations[] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1},
                                           {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};

template<typename From, typename To>
void Elementary(Any<From, To>& any, int const level) {
  constexpr bool same = From::handedness == To::handedness;
  int const kinds = same ? 10 : 2;
  any.kind = Choose(kinds);
  switch (any.kind) {
    case 0: {
      int const p = Choose(3) + (same ? 0 : 3);
      using P = typename Permutation<From, To>::CoordinatePermutation;
      P value;
      if constexpr (same) {
        value = p == 0 ? P::XYZ : p == 1 ? P::YZX : P::ZXY;
      } else {
        value = p == 3 ? P::XZY : p == 4 ? P::ZYX : P::YXZ;
      }
      any.permutation.emplace(value);
      any.m = {};
      for (int i = 0; i < 3; ++i) { any.m[i][permutations[p][i]] = 1; }
      break;
    }
    case 1: {
      int const deduced = Choose(3);
      bool const s1 = Choose(2);
      bool const s2 = Choose(2);
      Sign const sign1 = s1 ? Sign::Positive() : Sign::Negative();
      Sign const sign2 = s2 ? Sign::Positive() : Sign::Negative();
      using D = typename Signature<From, To>::DeduceSign;
      double const d1 = s1 ? 1 : -1;
      double const d2 = s2 ? 1 : -1;
      double const d3 = d1 * d2 * (same ? 1 : -1);
      V d;
      switch (deduced) {
        case 0:
          any.signature.emplace(D(), sign1, sign2);
          d = {d3, d1, d2};
          break;
        case 1:
          any.signature.emplace(sign1, D(), sign2);
          d = {d1, d3, d2};
          break;
        case 2:
          any.signature.emplace(sign1, sign2, D());
          d = {d1, d2, d3};
          break;
      }
      any.m = {};
      for (int i = 0; i < 3; ++i) { any.m[i][i] = d[i]; }
      break;
    }
  }
  if constexpr (same) {
    auto const angle = [&] {
      return level == 0 ? seq::Of(angles) : seq::Of({-2.5, π / 2});
    };
    switch (any.kind) {
      case 2:
        any.identity.emplace();
        any.m = I;
        break;
      case 3:
      case 4: {
        V const& u = axes[level == 0 ? Choose(5) : 3 + Choose(2)];
        double const θ = angle();
        M const active = Rodrigues(u, θ);
        if (any.kind == 3) {
          any.rotation.emplace(θ * Radian, Bivector<Length, From>(R3(u) * Metre),
                               DefinesFrame<To>());
          any.m = T(active);
        } else {
          any.rotation.emplace(θ * Radian, Bivector<double, To>(R3(u)),
                               DefinesFrame<From>());
          any.m = active;
        }
        break;
      }
      case 5:
      case 6: {
        int const which = Choose(12);
        double const α = level == 0 ? seq::Of(angles) : 0.4;
        double const β = angle();
        double const γ = angle();
        std::array<int, 3> const axes = std::array<std::array<int, 3>, 12>{{
            {2, 0, 2}, {0, 1, 0}, {1, 2, 1}, {2, 1, 2}, {0, 2, 0}, {1, 0, 1},
            {0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0},
            {1, 0, 2}}}[which];
        M const active =
            Axis(axes[0], α) * Axis(axes[1], β) * Axis(axes[2], γ);
        std::array<EulerAngles, 6> const euler{
            EulerAngles::ZXZ, EulerAngles::XYX, EulerAngles::YZY,
            EulerAngles::ZYZ, EulerAngles::XZX, EulerAngles::YXY};
        std::array<CardanoAngles, 6> const cardano{
            CardanoAngles::XYZ, CardanoAngles::YZX, CardanoAngles::ZXY,
            CardanoAngles::XZY, CardanoAngles::ZYX, CardanoAngles::YXZ};
        auto const make = [&](auto const tag) {
          if (which < 6) {
            any.rotation.emplace(α * Radian, β * Radian, γ * Radian,
                                 euler[which], tag);
          } else {
            any.rotation.emplace(α * Radian, β * Radian, γ * Radian,
                                 cardano[which - 6], tag);
          }
        };
        if (any.kind == 5) {
          make(DefinesFrame<To>());
          any.m = T(active);
        } else {
          make(DefinesFrame<From>());
          any.m = active;
        }
        break;
      }
      case 7:
      case 8: {
        V const& u = axes[level == 0 ? Choose(5) : 3];
        M const active = Rodrigues(u, angle());
        M const columns = T(active);
        int const ranks = Choose(3);
        // The rank of the arguments doesn't matter.
        auto const make = [&]<typename G>(G*) {
          Vector<double, G> const vx(R3(columns[0]));
          Vector<double, G> const vy(R3(columns[1]));
          Vector<double, G> const vz(R3(columns[2]));
          Bivector<double, G> const bx(R3(columns[0]));
          Bivector<double, G> const by(R3(columns[1]));
          Bivector<double, G> const bz(R3(columns[2]));
          if (ranks == 0) {
            any.rotation.emplace(vx, vy, bz);
          } else if (ranks == 1) {
            any.rotation.emplace(vx, by, vz);
          } else {
            any.rotation.emplace(bx, by, bz);
          }
        };
        if (any.kind == 7) {
          make(static_cast<From*>(nullptr));
          any.m = T(active);
        } else {
          make(static_cast<To*>(nullptr));
          any.m = active;
        }
        break;
      }
      case 9: {
        // All the quaternions with small coordinates.
        int const n = level == 0 ? 3 : 2;
        double const w = Choose(n);
        double const x = Choose(n) - n / 2;
        double const y = Choose(n) - n / 2;
        double const z = Choose(n) - n / 2;
        if (w == 0 && x == 0 && y == 0 && z == 0) { seq::Prune(); }
        double const n2 = w * w + x * x + y * y + z * z;
        any.rotation.emplace(Q(w, x, y, z));
        any.m = Scale(
            1 / n2,
            {{{w * w + x * x - y * y - z * z, 2 * (x * y - w * z),
               2 * (x * z + w * y)},
              {2 * (x * y + w * z), w * w - x * x + y * y - z * z,
               2 * (y * z - w * x)},
              {2 * (x * z - w * y), 2 * (y * z + w * x),
               w * w - x * x - y * y + z * z}}});
        break;
      }
    }
  }
}

template<typename From, typename To, typename Map>
void Check1(Map const& map, M const& m, int const kind) {
  CheckOrthogonal<From, To>(map, m, kind);
  auto const inverse = map.Inverse();
  CheckOrthogonal<To, From>(inverse, T(m), kind);
  CheckOrthogonal<From, To>(RoundTrip(map), m, kind);
  auto const orthogonal = [&] {
    if constexpr (requires { map.template Forget<OrthogonalMap>(); }) {
      return map.template Forget<OrthogonalMap>();
    } else {
      return map;
    }
  }();
  CheckOrthogonal<From, To>(orthogonal, m, kind);
  CheckOrthogonal<From, To>(RoundTrip(orthogonal), m, kind);
  CheckOrthogonal<To, From>(orthogonal.Inverse(), T(m), kind);
  CheckForms<From, To>(orthogonal, m, kind);
  auto const conformal = map.template Forget<ConformalMap>();
  CheckVectors<From, To>(conformal, m, kind);
  Check(std::abs(conformal.scale() - 1) < 1e-14, "Scale of kind ", kind);
  CheckVectors<From, To>(RoundTrip(conformal), m, kind);
  CheckVectors<To, From>(conformal.Inverse(), T(m), kind);
  CheckOrthogonal<From, To>(conformal.orthogonal_map¹₁(), m, kind);
  if constexpr (From::handedness == To::handedness) {
    CheckOrthogonal<From, To>(orthogonal.AsRotation(), m, kind);
  }
  // Affine maps.
  using D = Displacement<From>;
  Point<D> const p = Point<D>() + D(R3({1, 2, -1}) * Metre);
  using E = Displacement<To>;
  Point<E> const q = Point<E>() + E(R3({0.5, -1, 2}) * Metre);
  AffineMap<From, To, Length, OrthogonalMap> const affine(p, q, orthogonal);
  auto const check_affine = [&](auto const& affine, auto const& p,
                                auto const& q, M const& m) {
    using D = std::remove_cvref_t<decltype(p - p)>;
    for (auto const& v : vectors) {
      CheckClose(((affine(p + D(R3(v) * Metre)) - q) / Metre).coordinates(),
                 m * v, 8, "affine map", kind);
    }
  };
  check_affine(affine, p, q, m);
  check_affine(affine.Inverse(), q, p, T(m));
  {
    serialization::AffineMap message;
    affine.WriteToMessage(&message);
    check_affine(AffineMap<From, To, Length, OrthogonalMap>::ReadFromMessage(
                     message), p, q, m);
  }
}

template<typename From, typename To>
void CheckAny(Any<From, To>& any) {
  auto const check = [&](auto const& map) {
    Check1<From, To>(map, any.m, any.kind);
    any.orthogonal = map.template Forget<OrthogonalMap>();
  };
  if constexpr (From::handedness == To::handedness) {
    if (any.identity) {
      check(*any.identity);
      CheckForms<From, To>(*any.identity, any.m, any.kind);
    }
    if (any.rotation) {
      check(*any.rotation);
      CheckForms<From, To>(*any.rotation, any.m, any.kind);
    }
  }
  if (any.permutation) { check(*any.permutation); }
  if (any.signature) {
    check(*any.signature);
    CheckForms<From, To>(*any.signature, any.m, any.kind);
  }
}

template<typename From, typename To>
void Single() {
  Any<From, To> any;
  Elementary(any, 0);
  CheckAny(any);
}

template<typename A, typename B, typename C>
void Double() {
  Any<A, B> right;
  Elementary(right, 1);
  Any<B, C> left;
  Elementary(left, 1);
  auto const forget = [](auto& any) {
    auto const f = [&](auto const& map) {
      any.orthogonal = map.template Forget<OrthogonalMap>();
    };
    if constexpr (requires { any.identity; }) {
      if (any.identity) { f(*any.identity); }
      if (any.rotation) { f(*any.rotation); }
    }
    if (any.permutation) { f(*any.permutation); }
    if (any.signature) { f(*any.signature); }
  };
  forget(right);
  forget(left);
  M const m = left.m * right.m;
  int const kind = 100 * left.kind + right.kind;
  auto const product = *left.orthogonal * *right.orthogonal;
  CheckOrthogonal<A, C>(product, m, kind);
  CheckOrthogonal<C, A>(product.Inverse(), T(m), kind);
  if (left.permutation && right.permutation) {
    CheckOrthogonal<A, C>(*left.permutation * *right.permutation, m, kind);
  }
  if (left.signature && right.signature) {
    CheckOrthogonal<A, C>(*left.signature * *right.signature, m, kind);
  }
  if constexpr (A::handedness == B::handedness &&
                B::handedness == C::handedness) {
    if (left.rotation && right.rotation) {
      CheckOrthogonal<A, C>(*left.rotation * *right.rotation, m, kind);
    }
    if (left.identity && right.identity) {
      CheckOrthogonal<A, C>(*left.identity * *right.identity, m, kind);
    }
  }
  // With a homothecy.
  double const λ = seq::Of({0.25, 3.0});
  using H = Homothecy<double, B, B>;
  auto const conformal =
      left.orthogonal->template Forget<ConformalMap>() *
      H(λ).template Forget<ConformalMap>() *
      right.orthogonal->template Forget<ConformalMap>();
  CheckVectors<A, C>(conformal, Scale(λ, m), kind, λ);
  CheckVectors<C, A>(conformal.Inverse(), Scale(1 / λ, T(m)), kind, 1 / λ);
  Check(std::abs(conformal.scale() - λ) < 1e-14 * λ, "scale");
  // The library, and its tests, only look at the scale here.
  Check(std::abs(std::abs(conformal.Determinant()) - λ * λ * λ) <
            1e-13 * λ * λ * λ, "determinant");
  CheckVectors<A, C>(RoundTrip(conformal), Scale(λ, m), kind, λ);
  CheckOrthogonal<A, C>(conformal.orthogonal_map¹₁(), m, kind);
  Homothecy<Length, B, B> const h(λ * Metre);
  CheckClose((RoundTrip(h)(Vector<double, B>(R3(vectors[3]))) / Metre)
                 .coordinates(),
             Scale(λ, I) * vectors[3], 3 * λ, "homothecy", kind);
  CheckVectors<B, B>(H(λ).Inverse() * H(3), Scale(3 / λ, I), kind, 3 / λ);
  // Affine maps.
  using DA = Displacement<A>;
  using DB = Displacement<B>;
  using DC = Displacement<C>;
  auto const pa = Point<DA>() + DA(R3({1, 2, -1}) * Metre);
  auto const pb = Point<DB>() + DB(R3({0.5, -1, 2}) * Metre);
  auto const pb2 = Point<DB>() + DB(R3({-3, -1, 0}) * Metre);
  auto const pc = Point<DC>() + DC(R3({2, 4, 0.25}) * Metre);
  AffineMap<A, B, Length, OrthogonalMap> const r(pa, pb, *right.orthogonal);
  AffineMap<B, C, Length, OrthogonalMap> const l(pb2, pc, *left.orthogonal);
  auto const lr = l * r;
  for (auto const& v : vectors) {
    CheckClose(((lr(pa + DA(R3(v) * Metre)) - l(r(pa))) / Metre).coordinates(),
               m * v, 20, "affine product", kind);
    V const b = {3.5, 0, 2};
    CheckClose(((lr(pa) - pc) / Metre).coordinates(), left.m * b, 20,
               "affine product", kind);
  }
  seq::State(kind);
}
}  // namespace

SEQ_HARNESS(single, .split = 2) {
  switch (Choose(3)) {
    case 0: return Single<R0, R1>();
    case 1: return Single<R0, L0>();
    case 2: return Single<L0, R1>();
  }
}
SEQ_HARNESS(product, .split = 3) {
  switch (Choose(6)) {
    case 0: return Double<R0, R1, R2>();
    case 1: return Double<R0, R1, L0>();
    case 2: return Double<R0, L0, R1>();
    case 3: return Double<R0, L0, L1>();
    case 4: return Double<L0, R0, R1>();
    case 5: return Double<L0, R0, L1>();
  }
}

// Active rotations.
SEQ_HARNESS(active, .split = 2) {
  V const& u = seq::Pick(axes);
  double const θ = seq::Of(angles);
  Rotation<R0, R0> const r(θ * Radian, Bivector<Length, R0>(R3(u) * Metre));
  M const m = Rodrigues(u, θ);
  CheckOrthogonal<R0, R0>(r, m, 0);
  CheckOrthogonal<R0, R0>(r.Inverse(), T(m), 1);
  // The angle, in [-π, π], and the axis together define the rotation.
  double const ω = r.RotationAngle() / Radian;
  Check(std::abs(std::abs(ω) - std::abs(std::remainder(θ, 2 * π))) < 1e-14,
        "RotationAngle ", ω, " for ", θ);
  if (θ != 0) {
    auto const axis = r.RotationAxis().coordinates();
    Check(std::abs(axis.Norm() - 1) < 1e-14, "axis");
    CheckOrthogonal<R0, R0>(r, Rodrigues({axis.x, axis.y, axis.z}, ω), 3);
  }
  // Products with another one.
  V const& u2 = seq::Pick(axes);
  double const θ2 = seq::Of(angles);
  Rotation<R0, R0> const r2(θ2 * Radian, Bivector<double, R0>(R3(u2)));
  CheckOrthogonal<R0, R0>(r2 * r, Rodrigues(u2, θ2) * m, 2);
  CheckOrthogonal<R0, R0>(Rotation<R0, R0>::Identity() * r, m, 2);
}

// C42: rigid and similar motions, against moving affine maps.
#include <array>
#include <sstream>

#include "geometry/conformal_map.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/homothecy.hpp"
#include "geometry/identity.hpp"
#include "geometry/orthogonal_map.hpp"
#include "geometry/permutation.hpp"
#include "geometry/quaternion.hpp"
#include "geometry/rotation.hpp"
#include "geometry/signature.hpp"
#include "geometry/space_transformations.hpp"
#include "harness/dense.h"
#include "harness/principia.h"
#include "physics/degrees_of_freedom.hpp"
#include "physics/rigid_motion.hpp"
#include "physics/similar_motion.hpp"
#include "serialization/geometry.pb.h"
#include "serialization/physics.pb.h"

using namespace principia::geometry::_conformal_map;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_homothecy;
using namespace principia::geometry::_identity;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_permutation;
using namespace principia::geometry::_quaternion;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_sign;
using namespace principia::geometry::_signature;
using namespace principia::geometry::_space_transformations;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_rigid_motion;
using namespace principia::physics::_similar_motion;
using dense::Mat;
using dense::Vec;
using seq::Notes;
using seq::Of;

namespace {
using F = serialization::Frame;
using A = Frame<F::TestTag, Inertial, Handedness::Right, F::TEST>;
using B = Frame<F::TestTag, Arbitrary, Handedness::Right, F::TEST1>;
using L = Frame<F::TestTag, Arbitrary, Handedness::Left, F::TEST2>;
using C = Frame<F::TestTag, Arbitrary, Handedness::Right, F::TEST3>;

Vec operator+(Vec a, Vec const& b) {
  for (int i = 0; i < 3; ++i) a[i] += b[i];
  return a;
}
Vec operator-(Vec a, Vec const& b) {
  for (int i = 0; i < 3; ++i) a[i] -= b[i];
  return a;
}
Vec operator*(double const s, Vec a) {
  for (auto& x : a) x *= s;
  return a;
}
Mat operator+(Mat a, Mat const& b) {
  for (int i = 0; i < 9; ++i) a.d[i] += b.d[i];
  return a;
}
Mat operator*(double const s, Mat a) {
  for (auto& x : a.d) x *= s;
  return a;
}
Mat Inv(Mat const& m) {
  Mat r(3, 3);
  double const d = dense::Determinant(m);
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      int const i1 = (i + 1) % 3, i2 = (i + 2) % 3;
      int const j1 = (j + 1) % 3, j2 = (j + 2) % 3;
      r(j, i) = (m(i1, j1) * m(i2, j2) - m(i1, j2) * m(i2, j1)) / d;
    }
  }
  return r;
}
Mat Cross(Vec const& w) {
  Mat m(3, 3);
  m(0, 1) = -w[2];
  m(0, 2) = w[1];
  m(1, 0) = w[2];
  m(1, 2) = -w[0];
  m(2, 0) = -w[1];
  m(2, 1) = w[0];
  return m;
}

// The map x ↦ a x + b and its derivative with respect to time.
struct Moving {
  Mat a{3, 3};
  Vec b = Vec(3);
  Mat 𝛛a{3, 3};
  Vec 𝛛b = Vec(3);
};

Moving operator*(Moving const& l, Moving const& r) {
  return {l.a * r.a, l.a * r.b + l.b, l.𝛛a * r.a + l.a * r.𝛛a,
          l.𝛛a * r.b + l.a * r.𝛛b + l.𝛛b};
}
Moving Inverse(Moving const& m) {
  Moving r;
  r.a = Inv(m.a);
  r.b = -1 * (r.a * m.b);
  r.𝛛a = -1 * (r.a * m.𝛛a * r.a);
  r.𝛛b = -1 * (r.𝛛a * m.b + r.a * m.𝛛b);
  return r;
}

template<typename Fr>
Displacement<Fr> D(Vec const& v) {
  return Displacement<Fr>({v[0] * Metre, v[1] * Metre, v[2] * Metre});
}
template<typename Fr>
Velocity<Fr> V(Vec const& v) {
  return Velocity<Fr>({v[0] * Metre / Second, v[1] * Metre / Second,
                       v[2] * Metre / Second});
}
template<typename Fr>
AngularVelocity<Fr> W(Vec const& v) {
  return AngularVelocity<Fr>({v[0] * Radian / Second, v[1] * Radian / Second,
                              v[2] * Radian / Second});
}
template<typename Fr>
Vec Coordinates(Displacement<Fr> const& d) {
  auto const& c = d.coordinates();
  return {c.x / Metre, c.y / Metre, c.z / Metre};
}
template<typename Fr>
Vec Coordinates(Velocity<Fr> const& d) {
  auto const& c = d.coordinates();
  return {c.x / (Metre / Second), c.y / (Metre / Second),
          c.z / (Metre / Second)};
}
template<typename Fr>
Vec Coordinates(AngularVelocity<Fr> const& d) {
  auto const& c = d.coordinates();
  return {c.x / (Radian / Second), c.y / (Radian / Second),
          c.z / (Radian / Second)};
}

std::string Show(Vec const& v) {
  std::ostringstream o;
  o.precision(17);
  o << "{" << v[0] << ", " << v[1] << ", " << v[2] << "}";
  return o.str();
}

template<typename... M>
void Near(Vec const& actual, Vec const& expected, double const scale,
          M const&... m) {
  for (int i = 0; i < 3; ++i) {
    Check(std::abs(actual[i] - expected[i]) <= 1e-13 * scale, m..., " is ",
          Show(actual), ", expected ", Show(expected));
  }
}

constexpr double scale = 2000;
std::vector<Vec> const positions{{0, 0, 0}, {1, -2, 5}, {-3, 7, 0.5}};
std::vector<Vec> const velocities{{0, 0, 0}, {2, 3, -1}};

// Rotational part of 𝛛a a⁻¹, i.e., the angular velocity of From seen from To.
Vec Rotational(Moving const& m) {
  Mat const r = m.𝛛a * Inv(m.a);
  return {(r(2, 1) - r(1, 2)) / 2, (r(0, 2) - r(2, 0)) / 2,
          (r(1, 0) - r(0, 1)) / 2};
}

template<typename Motion, typename From, typename To>
void CheckMotion(Motion const& motion, Moving const& expected,
                 std::string const& what) {
  seq::Step();
  for (auto const& q : positions) {
    for (auto const& v : velocities) {
      DegreesOfFreedom<To> const actual =
          motion({From::origin + D<From>(q), V<From>(v)});
      Near(Coordinates<To>(actual.position() - To::origin),
           expected.a * q + expected.b, scale, what, ": position of ",
           Show(q));
      Near(Coordinates<To>(actual.velocity()),
           expected.𝛛a * q + expected.a * v + expected.𝛛b, scale * 10,
           what, ": velocity at ", Show(q), " ", Show(v));
    }
  }
  Near(Coordinates<To>(motion.template angular_velocity_of<From>()),
       Rotational(expected), scale, what, ": angular velocity of the source");
  Moving const inverse = Inverse(expected);
  Near(Coordinates<From>(motion.template angular_velocity_of<To>()),
       Rotational(inverse), scale, what, ": angular velocity of the target");
  Near(Coordinates<To>(motion.template velocity_of_origin_of<From>()),
       expected.𝛛b, scale * 10, what, ": velocity of the origin of the source");
  Near(Coordinates<From>(motion.template velocity_of_origin_of<To>()),
       inverse.𝛛b, scale * 10, what, ": velocity of the origin of the target");
}

template<typename From, typename To>
void CheckRigid(RigidMotion<From, To> const& motion, Moving const& expected,
                std::string const& what) {
  CheckMotion<RigidMotion<From, To>, From, To>(motion, expected, what);
  // The parts.
  Near(Coordinates<To>(motion.rigid_transformation()(From::origin +
                                                     D<From>(positions[1])) -
                       To::origin),
       expected.a * positions[1] + expected.b, scale, what, ": position");
  Near(Coordinates<To>(motion.orthogonal_map()(D<From>(positions[1]))),
       expected.a * positions[1], scale, what, ": linear part");
  Check(IsFinite(motion), "finite");
}

template<typename From, typename To>
void CheckSimilar(SimilarMotion<From, To> const& motion, Moving const& expected,
                  std::string const& what) {
  CheckMotion<SimilarMotion<From, To>, From, To>(motion, expected, what);
  Near(Coordinates<To>(motion.similarity()(From::origin +
                                           D<From>(positions[1])) -
                       To::origin),
       expected.a * positions[1] + expected.b, scale, what, ": position");
  Near(Coordinates<To>(motion.conformal_map()(D<From>(positions[1]))),
       expected.a * positions[1], scale, what, ": linear part");
}

template<typename From, typename To>
Mat Matrix(OrthogonalMap<From, To> const& map) {
  Mat m(3, 3);
  for (int j = 0; j < 3; ++j) {
    Vec e(3);
    e[j] = 1;
    Vec const image = Coordinates<To>(map(D<From>(e)));
    for (int i = 0; i < 3; ++i) m(i, j) = image[i];
  }
  return m;
}

template<typename From, typename To>
OrthogonalMap<From, To> ChooseMap(int const kinds) {
  static double const quaternions[][4] = {
      {1, 0, 0, 0}, {1, 2, -3, 1}, {1, 1, 1, 1}, {0, 0, 1, 0}, {3, 0, 0, -2}};
  auto const& c = quaternions[Choose(kinds)];
  Quaternion q(c[0], {c[1], c[2], c[3]});
  q = q / q.Norm();
  if constexpr (From::handedness == To::handedness) {
    return Rotation<From, To>(q).template Forget<OrthogonalMap>();
  } else {
    using Through = Frame<struct ThroughTag, Arbitrary, From::handedness>;
    return Signature<Through, To>(Sign::Positive(), Sign::Negative(),
                                  typename Signature<Through, To>::DeduceSign())
               .template Forget<OrthogonalMap>() *
           Rotation<From, Through>(q).template Forget<OrthogonalMap>();
  }
}

std::vector<Vec> const origins{{0, 0, 0}, {2, -1, 4}, {-5, 3, 1}};
std::vector<Vec> const spins{{0, 0, 0}, {0, 0, 2}, {1, -3, 0.5}};
std::vector<Vec> const drifts{{0, 0, 0}, {-1, 4, 2}};

template<typename From, typename To>
struct Rigid {
  RigidMotion<From, To> motion;
  Moving model;
};

// A motion given in terms of either frame.  With `size` < 2 only a few.
template<typename From, typename To>
Rigid<From, To> ChooseRigid(int const size) {
  auto const map = ChooseMap<From, To>(size == 2 ? 5 : size == 1 ? 3 : 2);
  Mat const r = Matrix(map);
  // `from` goes to `to`.
  Vec const from = origins[size == 2 ? Choose(3) : size == 1 ? Choose(2) : 1];
  Vec const to = origins[size == 2 ? Choose(3) : 2];
  Vec const spin = spins[size >= 1 ? Choose(3) : 2];
  Vec const drift = drifts[size >= 1 ? Choose(2) : 1];
  RigidTransformation<From, To> const transformation(
      From::origin + D<From>(from), To::origin + D<To>(to), map);
  Moving model;
  model.a = r;
  model.b = to - r * from;
  if (Choose(2)) {
    // The motion of To in From.
    // y = r (x - o).
    Vec const o = -1 * (Inv(r) * model.b);
    model.𝛛a = -1 * (r * Cross(spin));
    model.𝛛b = -1 * (model.𝛛a * o + r * drift);
    return {RigidMotion<From, To>(transformation, W<From>(spin),
                                  V<From>(drift)), model};
  } else {
    // The motion of From in To.
    model.𝛛a = Cross(spin) * r;
    model.𝛛b = drift;
    return {RigidMotion<From, To>(transformation, W<To>(spin), V<To>(drift)),
            model};
  }
}

template<typename From, typename To>
void RigidAlone() {
  auto const m = ChooseRigid<From, To>(2);
  CheckRigid(m.motion, m.model, "motion");
  CheckRigid(m.motion.Inverse(), Inverse(m.model), "inverse");
  CheckRigid(m.motion.Inverse().Inverse(), m.model, "inverse of the inverse");
  CheckSimilar(m.motion.template Forget<SimilarMotion>(), m.model, "forgotten");
  serialization::RigidMotion message;
  m.motion.WriteToMessage(&message);
  CheckRigid(RigidMotion<From, To>::ReadFromMessage(message), m.model,
             "deserialized");
  // With a second derivative.
  Vector<Acceleration, From> const acceleration(
      {1 * Metre / Second / Second, 2 * Metre / Second / Second,
       3 * Metre / Second / Second});
  Bivector<AngularAcceleration, From> const angular_acceleration(
      {4 * Radian / Second / Second, 5 * Radian / Second / Second,
       6 * Radian / Second / Second});
  AcceleratedRigidMotion<From, To> const accelerated(
      m.motion, angular_acceleration, acceleration);
  CheckRigid(accelerated.rigid_motion(), m.model, "accelerated");
  Check(accelerated.template acceleration_of_origin_of<To>() == acceleration,
        "acceleration");
  Check(accelerated.template angular_acceleration_of<To>() ==
            angular_acceleration,
        "angular acceleration");
  Check(IsFinite(accelerated), "finite");
}

template<typename From, typename Through, typename To>
void RigidPair() {
  auto const r = ChooseRigid<From, Through>(1);
  auto const l = ChooseRigid<Through, To>(1);
  CheckRigid(l.motion * r.motion, l.model * r.model, "product");
  CheckRigid((l.motion * r.motion).Inverse(), Inverse(l.model * r.model),
             "inverse of a product");
  CheckRigid(r.motion.Inverse() * l.motion.Inverse(),
             Inverse(l.model * r.model), "product of inverses");
}

template<typename From, typename To>
struct Similar {
  SimilarMotion<From, To> motion;
  Moving model;
};

// A dilatation after a rigid motion, or before it.
template<typename From, typename To>
Similar<From, To> ChooseSimilar(int const size) {
  double const factor = Of({1.0, 2.5, 0.125});
  double const rate = size >= 1 ? Of({0.0, 0.5, -3.0}) : 0.5;
  Moving dilatation;
  dilatation.a = factor * Mat::Identity(3);
  dilatation.𝛛a = factor * rate * Mat::Identity(3);
  if (Choose(2)) {
    using Through = Frame<struct ThroughTag, Arbitrary, To::handedness>;
    auto const rigid = ChooseRigid<From, Through>(size);
    return {SimilarMotion<Through, To>::DilatationAboutOrigin(
                Homothecy<double, Through, To>(factor), rate / Second) *
                rigid.motion.template Forget<SimilarMotion>(),
            dilatation * rigid.model};
  } else {
    using Through = Frame<struct ThroughTag, Arbitrary, From::handedness>;
    auto const rigid = ChooseRigid<Through, To>(size);
    return {rigid.motion.template Forget<SimilarMotion>() *
                SimilarMotion<From, Through>::DilatationAboutOrigin(
                    Homothecy<double, From, Through>(factor), rate / Second),
            rigid.model * dilatation};
  }
}

template<typename From, typename To>
void SimilarAlone() {
  auto const m = ChooseSimilar<From, To>(1);
  CheckSimilar(m.motion, m.model, "motion");
  CheckSimilar(m.motion.Inverse(), Inverse(m.model), "inverse");
  CheckSimilar(m.motion.Inverse().Inverse(), m.model, "inverse of the inverse");
}

template<typename From, typename Through, typename To>
void SimilarPair() {
  auto const r = ChooseSimilar<From, Through>(0);
  auto const l = ChooseSimilar<Through, To>(0);
  CheckSimilar(l.motion * r.motion, l.model * r.model, "product");
  CheckSimilar((l.motion * r.motion).Inverse(), Inverse(l.model * r.model),
               "inverse of a product");
  CheckSimilar(r.motion.Inverse() * l.motion.Inverse(),
               Inverse(l.model * r.model), "product of inverses");
}

}  // namespace

SEQ_HARNESS(RigidMotions) {
  if (Choose(2)) {
    RigidAlone<A, B>();
  } else {
    RigidAlone<B, L>();
  }
}

SEQ_HARNESS(RigidProducts) {
  switch (Choose(3)) {
    case 0: RigidPair<A, B, C>(); break;
    case 1: RigidPair<A, L, B>(); break;
    case 2: RigidPair<L, B, C>(); break;
  }
}

SEQ_HARNESS(SimilarMotions) {
  if (Choose(2)) {
    SimilarAlone<A, B>();
  } else {
    SimilarAlone<B, L>();
  }
}

SEQ_HARNESS(SimilarProducts) {
  switch (Choose(3)) {
    case 0: SimilarPair<A, B, C>(); break;
    case 1: SimilarPair<A, L, B>(); break;
    case 2: SimilarPair<L, B, C>(); break;
  }
}

SEQ_HARNESS(Special) {
  Moving identity;
  identity.a = Mat::Identity(3);
  CheckRigid(RigidMotion<A, B>::Identity(), identity, "identity");
  CheckSimilar(SimilarMotion<A, B>::Identity(), identity, "identity");
  Vec const q = positions[Choose(3)];
  Vec const v = velocities[Choose(2)];
  Moving nonrotating = identity;
  nonrotating.b = q;
  nonrotating.𝛛b = v;
  CheckRigid(RigidMotion<A, B>::MakeNonRotatingMotion(
                 {B::origin + D<B>(q), V<B>(v)}),
             nonrotating, "nonrotating motion");
  // With different handedness, exchanging y and z.
  nonrotating.a = Mat(3, 3);
  nonrotating.a(0, 0) = nonrotating.a(1, 2) = nonrotating.a(2, 1) = 1;
  CheckRigid(RigidMotion<B, L>::MakeNonRotatingMotion(
                 {L::origin + D<L>(q), V<L>(v)}),
             nonrotating, "nonrotating motion between handednesses");
}

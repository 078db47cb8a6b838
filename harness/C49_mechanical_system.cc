// C49: the overall properties of mechanical systems, against point masses.
#include <array>

#include "geometry/grassmann.hpp"
#include "geometry/orthogonal_map.hpp"
#include "geometry/quaternion.hpp"
#include "geometry/r3_element.hpp"
#include "geometry/r3x3_matrix.hpp"
#include "geometry/rotation.hpp"
#include "geometry/space_transformations.hpp"
#include "harness/principia.h"
#include "physics/degrees_of_freedom.hpp"
#include "physics/mechanical_system.hpp"
#include "physics/rigid_motion.hpp"
#include "physics/tensors.hpp"
#include "serialization/geometry.pb.h"

using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_quaternion;
using namespace principia::geometry::_r3_element;
using namespace principia::geometry::_r3x3_matrix;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_space_transformations;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_mechanical_system;
using namespace principia::physics::_rigid_motion;
using namespace principia::physics::_tensors;
using seq::Notes;

namespace {
using F = serialization::Frame;
using In = Frame<F::TestTag, Inertial, Handedness::Right, F::TEST>;
using Part = Frame<F::TestTag, Arbitrary, Handedness::Right, F::TEST1>;
using System = Frame<F::TestTag, NonRotating, Handedness::Right, F::TEST2>;
using V3 = std::array<double, 3>;

// A body is made of point masses, on its axes; its inertia tensor is written in
// axes that are turned by `turn` about its third axis.
struct Body {
  double mass;
  V3 half_lengths;
  Quaternion attitude;
  V3 position;
  V3 velocity;
  V3 angular_velocity;
};

struct Point {
  double mass;
  V3 r;
  V3 v;
};

V3 Cross(V3 const& a, V3 const& b) {
  return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
          a[0] * b[1] - a[1] * b[0]};
}

std::vector<Body> Palette() {
  double const r = std::sqrt(0.5);
  std::vector<Body> b{
      {1, {1, 2, 3}, Quaternion(1), {0, 0, 0}, {0, 0, 0}, {0, 0, 0}},
      {2, {1, 1, 1}, Quaternion(0, {1, 0, 0}), {1, 2, -3}, {1, 0, 2},
       {0, 0, 1}},
      {0.5, {0.1, 0.5, 2}, Quaternion(r, {0, r, 0}), {-4, 0, 1}, {0, -5, 1},
       {1, -2, 3}},
      {8, {0, 1, 2}, Quaternion(0.5, {0.5, 0.5, 0.5}), {0, 7, 0}, {-1, 0, 0},
       {-1, 1, 0.5}},
      {3, {2, 0, 0}, Quaternion(0.5, {0.1, -0.7, 0.5}), {2, -1, 0.25},
       {3, 3, -3}, {0, 4, 0}}};
  if (seq::Thorough()) {
    b.push_back({1000, {3, 1, 2}, Quaternion(0.1, {0.9, -0.3, 0.3}),
                 {1e4, -1e4, 5e3}, {100, 0, -50}, {0.01, 0, 2}});
    b.push_back({1e-3, {0, 0, 0}, Quaternion(1), {1, 0, 0}, {0, 1, 0},
                 {0, 0, 5}});
  }
  return b;
}

constexpr MomentOfInertia kI = Kilogram * Metre * Metre;
}  // namespace

SEQ_HARNESS(mechanical_systems, .split = 2) {
  auto const palette = Palette();
  int const n = 1 + Choose(3);
  std::vector<Point> points;
  MechanicalSystem<In, System> system;
  double size = 0;
  for (int k = 0; k < n; ++k) {
    int const which = Choose(palette.size());
    Notes("body ", which);
    Body const b = palette[which];
    double const norm = b.attitude.Norm();
    Rotation<Part, In> const rotation(
        Quaternion(b.attitude.real_part() / norm,
                   b.attitude.imaginary_part() / norm));
    RigidMotion<Part, In> const motion(
        RigidTransformation<Part, In>(
            Part::origin,
            In::origin + Displacement<In>({b.position[0] * Metre,
                                           b.position[1] * Metre,
                                           b.position[2] * Metre}),
            rotation.Forget<OrthogonalMap>()),
        AngularVelocity<In>({b.angular_velocity[0] * Radian / Second,
                             b.angular_velocity[1] * Radian / Second,
                             b.angular_velocity[2] * Radian / Second}),
        Velocity<In>({b.velocity[0] * Metre / Second,
                      b.velocity[1] * Metre / Second,
                      b.velocity[2] * Metre / Second}));
    // Along lines that are not the axes, so that the tensor isn't diagonal.
    double const c = 0.6;
    double const s = 0.8;
    std::array<V3, 3> const lines{{{c, s, 0}, {-s, c, 0}, {0, 0, 1}}};
    std::array<V3, 3> form{};
    for (int a = 0; a < 3; ++a) {
      for (double const sign : {-1.0, 1.0}) {
        double const l = sign * b.half_lengths[a];
        V3 const x{l * lines[a][0], l * lines[a][1], l * lines[a][2]};
        double const mass = b.mass / 6;
        double const x2 = l * l;
        for (int i = 0; i < 3; ++i) {
          for (int j = 0; j < 3; ++j) {
            form[i][j] += mass * ((i == j ? x2 : 0) - x[i] * x[j]);
          }
        }
        auto const moved =
            rotation(Displacement<Part>({x[0] * Metre, x[1] * Metre,
                                         x[2] * Metre}))
                .coordinates();
        V3 const offset{moved.x / Metre, moved.y / Metre, moved.z / Metre};
        V3 const spin = Cross(b.angular_velocity, offset);
        Point p{mass, b.position, b.velocity};
        for (int i = 0; i < 3; ++i) {
          p.r[i] += offset[i];
          p.v[i] += spin[i];
          size = std::max({size, std::abs(p.r[i]), std::abs(p.v[i])});
        }
        points.push_back(p);
      }
    }
    system.AddRigidBody(
        motion, b.mass * Kilogram,
        InertiaTensor<Part>(R3x3Matrix<MomentOfInertia>(
            {form[0][0] * kI, form[0][1] * kI, form[0][2] * kI},
            {form[1][0] * kI, form[1][1] * kI, form[1][2] * kI},
            {form[2][0] * kI, form[2][1] * kI, form[2][2] * kI})));
    seq::Step();
  }

  double mass = 0;
  V3 r{};
  V3 v{};
  for (auto const& p : points) {
    mass += p.mass;
    for (int i = 0; i < 3; ++i) {
      r[i] += p.mass * p.r[i];
      v[i] += p.mass * p.v[i];
    }
  }
  for (int i = 0; i < 3; ++i) {
    r[i] /= mass;
    v[i] /= mass;
  }
  V3 momentum{};
  std::array<V3, 3> inertia{};
  for (auto const& p : points) {
    V3 x;
    V3 u;
    for (int i = 0; i < 3; ++i) {
      x[i] = p.r[i] - r[i];
      u[i] = p.v[i] - v[i];
    }
    V3 const l = Cross(x, u);
    double const x2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2];
    for (int i = 0; i < 3; ++i) {
      momentum[i] += p.mass * l[i];
      for (int j = 0; j < 3; ++j) {
        inertia[i][j] += p.mass * ((i == j ? x2 : 0) - x[i] * x[j]);
      }
    }
  }
  double const ε = 1e-13 * (1 + size);
  Check(std::abs(system.mass() / Kilogram - mass) < 1e-14 * mass, "mass");
  auto const near = [ε](R3Element<double> const& l, V3 const& r,
                        double const scale, char const* const message) {
    Check(std::abs(l.x - r[0]) <= ε * scale &&
              std::abs(l.y - r[1]) <= ε * scale &&
              std::abs(l.z - r[2]) <= ε * scale,
          message, ": ", l, " vs. ", r[0], ", ", r[1], ", ", r[2]);
  };
  auto const centre = system.centre_of_mass();
  near((centre.position() - In::origin).coordinates() / Metre, r, 1, "centre");
  near(centre.velocity().coordinates() / (Metre / Second), v, 1, "velocity");
  near(system.AngularMomentum().coordinates() / (kI * Radian / Second),
       momentum, mass * (1 + size), "angular momentum");
  auto const tensor = system.InertiaTensor().coordinates();
  near(tensor.row_x() / kI, inertia[0], mass * (1 + size), "inertia x");
  near(tensor.row_y() / kI, inertia[1], mass * (1 + size), "inertia y");
  near(tensor.row_z() / kI, inertia[2], mass * (1 + size), "inertia z");

  // The motion of the frame of the system.
  auto const linear = system.LinearMotion();
  auto const origin =
      linear(DegreesOfFreedom<System>(System::origin, System::unmoving));
  near((origin.position() - In::origin).coordinates() / Metre, r, 1, "origin");
  near(origin.velocity().coordinates() / (Metre / Second), v, 1,
       "velocity of the origin");
  CheckEq(linear.angular_velocity_of<System>(), AngularVelocity<In>(),
          "nonrotating");
  auto const axis = linear.orthogonal_map()(Vector<double, System>({1, 2, 3}));
  CheckEq(axis, (Vector<double, In>({1, 2, 3})), "axes");
}

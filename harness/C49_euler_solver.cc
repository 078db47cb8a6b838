// C49: the motion of a free rigid body, against an integration of Euler's
// equations.
#include <algorithm>
#include <array>

#include "geometry/frame.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/quaternion.hpp"
#include "geometry/r3_element.hpp"
#include "geometry/r3x3_matrix.hpp"
#include "geometry/rotation.hpp"
#include "geometry/space.hpp"
#include "geometry/space_transformations.hpp"
#include "harness/principia.h"
#include "physics/degrees_of_freedom.hpp"
#include "physics/euler_solver.hpp"
#include "physics/tensors.hpp"
#include "serialization/geometry.pb.h"
#include "serialization/physics.pb.h"

using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_quaternion;
using namespace principia::geometry::_r3_element;
using namespace principia::geometry::_r3x3_matrix;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_space_transformations;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_euler_solver;
using namespace principia::physics::_tensors;
using seq::Notes;

namespace {
using F = serialization::Frame;
using In = Frame<F::TestTag, Inertial, Handedness::Right, F::TEST>;
using Axes = Frame<F::TestTag, Arbitrary, Handedness::Right, F::TEST1>;
using Solver = EulerSolver<In, Axes>;
using Attitude = Rotation<Axes, In>;

using R = long double;
using V3 = std::array<R, 3>;
using M3 = std::array<V3, 3>;  // Columns: images of the axes.

constexpr MomentOfInertia kI = Kilogram * Metre * Metre;
constexpr AngularMomentum kL = kI * Radian / Second;

// The state of the body: its angular momentum in its axes, and the quaternion
// that takes its axes to the inertial ones.
struct Body {
  V3 m{};
  std::array<R, 4> q{1, 0, 0, 0};
};

struct Derivative {
  V3 m;
  std::array<R, 4> q;
};

Derivative Euler(Body const& b, V3 const& i) {
  V3 const w{b.m[0] / i[0], b.m[1] / i[1], b.m[2] / i[2]};
  auto const& [q0, q1, q2, q3] = b.q;
  return {{b.m[1] * w[2] - b.m[2] * w[1], b.m[2] * w[0] - b.m[0] * w[2],
           b.m[0] * w[1] - b.m[1] * w[0]},
          {(-q1 * w[0] - q2 * w[1] - q3 * w[2]) / 2,
           (q0 * w[0] + q2 * w[2] - q3 * w[1]) / 2,
           (q0 * w[1] + q3 * w[0] - q1 * w[2]) / 2,
           (q0 * w[2] + q1 * w[1] - q2 * w[0]) / 2}};
}

Body Plus(Body b, R const h, Derivative const& d) {
  for (int i = 0; i < 3; ++i) b.m[i] += h * d.m[i];
  for (int i = 0; i < 4; ++i) b.q[i] += h * d.q[i];
  return b;
}

// Integrates by a duration, with steps of at most `h`.
Body Flow(Body b, V3 const& i, R const duration, R const h) {
  int const n = std::ceil(std::abs(duration) / h);
  R const step = n == 0 ? 0 : duration / n;
  for (int k = 0; k < n; ++k) {
    auto const k1 = Euler(b, i);
    auto const k2 = Euler(Plus(b, step / 2, k1), i);
    auto const k3 = Euler(Plus(b, step / 2, k2), i);
    auto const k4 = Euler(Plus(b, step, k3), i);
    b = Plus(Plus(Plus(Plus(b, step / 6, k1), step / 3, k2), step / 3, k3),
             step / 6, k4);
  }
  return b;
}

M3 Matrix(std::array<R, 4> const& q) {
  R const n = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3];
  auto const [w, x, y, z] = q;
  return {{{(w * w + x * x - y * y - z * z) / n, 2 * (x * y + w * z) / n,
            2 * (x * z - w * y) / n},
           {2 * (x * y - w * z) / n, (w * w - x * x + y * y - z * z) / n,
            2 * (y * z + w * x) / n},
           {2 * (x * z + w * y) / n, 2 * (y * z - w * x) / n,
            (w * w - x * x - y * y + z * z) / n}}};
}

M3 Of3(Attitude const& a) {
  M3 r;
  for (int i = 0; i < 3; ++i) {
    auto const c =
        a(Vector<double, Axes>({i == 0 ? 1.0 : 0.0, i == 1 ? 1.0 : 0.0,
                                i == 2 ? 1.0 : 0.0}))
            .coordinates();
    r[i] = {c.x, c.y, c.z};
  }
  return r;
}

M3 Times(M3 const& l, M3 const& r) {
  M3 s;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      s[i][j] = l[0][j] * r[i][0] + l[1][j] * r[i][1] + l[2][j] * r[i][2];
    }
  }
  return s;
}

R Distance(M3 const& l, M3 const& r) {
  R d = 0;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      R const e = std::abs(l[i][j] - r[i][j]);
      d = e > d || e != e ? e : d;
    }
  }
  return d;
}

R Norm3(V3 const& v) {
  return std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
}

R Distance(V3 const& l, V3 const& r) {
  return Norm3({l[0] - r[0], l[1] - r[1], l[2] - r[2]});
}

template<typename Fr>
V3 Coordinates(Bivector<AngularMomentum, Fr> const& m) {
  auto const& c = m.coordinates();
  return {c.x / kL, c.y / kL, c.z / kL};
}

template<typename Fr>
V3 Coordinates(AngularVelocity<Fr> const& w) {
  auto const& c = w.coordinates();
  return {c.x / (Radian / Second), c.y / (Radian / Second),
          c.z / (Radian / Second)};
}

// Whether the rotation is so close to the separatrix, or to a rotation about
// the second axis, as to lose accuracy.
bool NearSeparatrix(V3 const& m, V3 const& i) {
  R const d1 = m[1] * m[1] * (i[1] - i[0]) / i[1] +
               m[2] * m[2] * (i[2] - i[0]) / i[2];
  R const d2 = m[2] * m[2] * (i[2] - i[1]) / i[2] -
               m[0] * m[0] * (i[1] - i[0]) / i[0];
  R const d3 = -m[0] * m[0] * (i[2] - i[0]) / i[0] -
               m[1] * m[1] * (i[2] - i[1]) / i[1];
  R const n = Norm3(m);
  if (i[0] == i[2] || n == 0) {
    return false;
  }
  if (d2 == 0) {
    R const other = std::hypot(m[0], m[2]) / n;
    return 0 < other && other < 1e-3l;
  }
  R const mc = d2 > 0 ? d2 * (i[2] - i[0]) / (d1 * (i[2] - i[1]))
                      : d2 * (i[2] - i[0]) / (d3 * (i[1] - i[0]));
  // EllipticΠ is also inaccurate for a large negative characteristic.
  R const n_ii = i[2] * (i[1] - i[0]) / (i[0] * (i[2] - i[1]));
  return mc < 1e-4l || (d2 > 0 ? n_ii : 1 / n_ii) * (i[0] / i[2]) > 1e6l;
}

// Moments of inertia, with the axes of revolution that they may have.
std::vector<std::array<double, 3>> Inertias() {
  std::vector<std::array<double, 3>> r{
      {1, 1, 1},          {1, 1, 2},          {1, 2, 2},
      {1, 2, 3},          {3, 4, 6},          {2, 3, 4},
      {1, 1 + 0x1p-40, 2}, {1, 2, 2 + 0x1p-39}, {0.25, 7, 7.125},
      {6, 7, 12.5}};
  if (seq::Thorough()) {
    r.push_back({1, 1 + 0x1p-52, 1 + 0x1p-51});
    r.push_back({1, 1.5, 1.5});
    r.push_back({0.001, 10, 10.0005});
    r.push_back({5, 5.01, 5.02});
    r.push_back({1e-3, 1e-3, 2e-3});
  }
  return r;
}

// Directions of the angular momentum.
std::vector<std::array<double, 3>> Momenta() {
  std::vector<std::array<double, 3>> r;
  for (int x = -1; x <= 1; ++x) {
    for (int y = -1; y <= 1; ++y) {
      for (int z = -1; z <= 1; ++z) {
        r.push_back({x * 1.0, y * 1.0, z * 1.0});
      }
    }
  }
  for (double const d : {0x1p-10, 0x1p-30}) {
    for (int i = 0; i < 3; ++i) {
      for (int j = 1; j < 3; ++j) {
        for (double const s : {-1.0, 1.0}) {
          std::array<double, 3> m{};
          m[i] = s;
          m[(i + j) % 3] = d;
          r.push_back(m);
        }
      }
    }
  }
  r.push_back({1, 0.5, 2});
  r.push_back({-2, 0.25, 1});
  r.push_back({0.5, -2, -0.75});
  r.push_back({1, 4, -1});
  r.push_back({-1, -8, -1});
  r.push_back({1, 100, 1});
  r.push_back({0.0, 1.0, -0.0});
  r.push_back({-0.0, -1.0, 0.0});
  return r;
}

std::vector<Attitude> Attitudes() {
  std::vector<Attitude> r;
  r.push_back(Attitude::Identity());
  for (auto const& q : std::vector<std::array<double, 4>>{
           {0, 1, 0, 0}, {0.5, 0.5, 0.5, -0.5}, {0.5, -0.1, 0.7, -0.5}}) {
    double const n =
        std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
    r.push_back(Attitude(
        Quaternion(q[0] / n, {q[1] / n, q[2] / n, q[3] / n})));
  }
  return r;
}

void Free() {
  auto const inertias = Inertias();
  auto const momenta = Momenta();
  auto const attitudes = Attitudes();
  auto const i = inertias[Choose(inertias.size())];
  auto const d = momenta[Choose(momenta.size())];
  int const which = Choose(attitudes.size());
  auto const attitude = attitudes[which];
  // The spin rate, and the scale of masses.
  double const rate = which == 2 ? 1e-9 : which == 3 ? 1e3 : 1;
  double const scale = which == 1 ? 0x1p60 : which == 3 ? 0x1p-60 : 1;
  Instant const t0 = which == 0 ? Instant() : Instant() + 1234.5 * Second;

  V3 const inertia{i[0], i[1], i[2]};
  // In the units where the spin rate and the scale of masses are 1.
  V3 const m{d[0], d[1], d[2]};
  R const norm = Norm3(m);

  InertiaTensor<Axes> const tensor(R3x3Matrix<MomentOfInertia>::DiagonalMatrix(
      R3Element<MomentOfInertia>(i[0] * scale * kI, i[1] * scale * kI,
                                 i[2] * scale * kI)));
  AngularMomentum const unit = scale * rate * kL;
  Bivector<AngularMomentum, Axes> const m0(
      {d[0] * unit, d[1] * unit, d[2] * unit});
  Bivector<AngularMomentum, In> const momentum = attitude(m0);

  Solver const original(tensor, momentum, attitude, t0);
  serialization::EulerSolver message;
  original.WriteToMessage(&message);
  Solver const read = Solver::ReadFromMessage(message);
  Notes("inertia ", i[0], " ", i[1], " ", i[2], "; momentum ", d[0], " ", d[1],
        " ", d[2], "; attitude ", which);
  Solver const& solver = Choose(2) == 0 ? original : read;

  V3 const inertial{momentum.coordinates().x / unit,
                    momentum.coordinates().y / unit,
                    momentum.coordinates().z / unit};
  bool const near_separatrix = NearSeparatrix(m, inertia);
  // Rounding errors would move a restarted solver off the separatrix.
  bool const on_separatrix =
      near_separatrix || m[2] * m[2] * (inertia[2] - inertia[1]) * inertia[0] ==
                             m[0] * m[0] * (inertia[1] - inertia[0]) *
                                 inertia[2];
  constexpr char kKey[] = "euler-separatrix";
  // The errors near the separatrix are too large for some checks.
  auto const check = [near_separatrix, &kKey](bool const condition,
                                              auto const&... m) {
    if (near_separatrix) {
      seq::CheckUnlessKnown(kKey, condition, m...);
    } else {
      Check(condition, m...);
    }
  };
  R const fastest = norm / inertia[0];
  auto const energy = [&inertia](V3 const& m) {
    R e = 0;
    for (int k = 0; k < 3; ++k) e += m[k] * m[k] / inertia[k] / 2;
    return e;
  };
  CheckEq(solver.moments_of_inertia().x, i[0] * scale * kI, "inertia");
  CheckEq(solver.moments_of_inertia().y, i[1] * scale * kI, "inertia");
  CheckEq(solver.moments_of_inertia().z, i[2] * scale * kI, "inertia");

  // The perturbations of the initial state.
  constexpr R kPerturbation = 1e-7l;
  R const step = norm == 0 ? 1 : 0.02l / fastest;
  std::vector<Body> bodies(4);
  for (int k = 0; k < 4; ++k) {
    bodies[k].m = m;
    if (k < 3) bodies[k].m[k] += kPerturbation * norm;
  }
  auto const initial_bodies = bodies;
  M3 const initial = Of3(attitude);

  // Times in radians for the fastest rotation.
  double last = 0;
  for (double const angle :
       {0.0, 0x1p-20, 0.7, 3.0, 8.0, 20.0, -0.7, -5.0, -17.0}) {
    R const duration = norm == 0 ? angle : angle / fastest;
    // As seen by the solver.
    Instant const t = t0 + static_cast<double>(duration) / rate * Second;
    R const actual = (t - t0) / Second * rate;
    if (angle < 0 && last > 0) {
      bodies = initial_bodies;
      last = 0;
    }
    for (auto& b : bodies) {
      // Always from the initial state, to be sure of the time.
      b = Flow(initial_bodies[&b - bodies.data()], inertia, actual, step);
    }
    seq::Step();
    Notes("angle ", angle);
    auto const m_t = solver.AngularMomentumAt(t);
    auto const a_t = solver.AttitudeAt(t);
    V3 const coordinates{m_t.coordinates().x / unit, m_t.coordinates().y / unit,
                         m_t.coordinates().z / unit};
    M3 const axes = Of3(a_t);

    // The attitude is a rotation, that takes the angular momentum to what it
    // always is.
    M3 identity{};
    for (int k = 0; k < 3; ++k) identity[k][k] = 1;
    M3 gram{};
    for (int k = 0; k < 3; ++k) {
      for (int l = 0; l < 3; ++l) {
        for (int c = 0; c < 3; ++c) gram[k][l] += axes[k][c] * axes[l][c];
      }
    }
    Check(Distance(gram, identity) < 1e-12l, "not a rotation");
    if (norm > 0) {
      check(std::abs(Norm3(coordinates) / norm - 1) < 1e-11l,
            "the angular momentum is not conserved: ",
                static_cast<double>(Norm3(coordinates) / norm - 1));
      check(std::abs(energy(coordinates) / energy(m) - 1) < 1e-11l,
            "the energy is not conserved: ",
            static_cast<double>(energy(coordinates) / energy(m) - 1));
      V3 transformed{};
      for (int c = 0; c < 3; ++c) {
        for (int k = 0; k < 3; ++k) {
          transformed[c] += axes[k][c] * coordinates[k];
        }
      }
      check(Distance(transformed, inertial) / norm < 1e-11l,
            "the angular momentum has turned: ",
            static_cast<double>(Distance(transformed, inertial) / norm));
    } else {
      CheckEq(m_t, (Bivector<AngularMomentum, Axes>()), "still");
    }

    // The integration.
    R sensitivity = 1;
    M3 const expected = Times(initial, Matrix(bodies[3].q));
    for (int k = 0; k < 3 && norm > 0; ++k) {
      sensitivity = std::max(
          {sensitivity,
           Distance(Times(initial, Matrix(bodies[k].q)), expected) /
               kPerturbation,
           Distance(bodies[k].m, bodies[3].m) / norm / kPerturbation});
    }
    // Degenerate directions amplify the errors.
    R const tolerance = 1e-8l + 1e-13l * sensitivity;
    check(Distance(axes, expected) < tolerance,
          "attitude: off by ", static_cast<double>(Distance(axes, expected)),
          " sensitivity ", static_cast<double>(sensitivity));
    if (norm > 0) {
      check(Distance(coordinates, bodies[3].m) / norm < tolerance,
            "angular momentum: off by ",
            static_cast<double>(Distance(coordinates, bodies[3].m) /
                                       norm));
    }
    if (angle == 0) {
      check(Distance(axes, initial) < 1e-12l, "initial attitude");
    }

    // The angular velocity and the motion.
    auto const w_t = solver.AngularVelocityFor(m_t);
    V3 const w = Coordinates(w_t);
    for (int k = 0; k < 3; ++k) {
      R const e = coordinates[k] / inertia[k] * rate;
      Check(std::abs(w[k] - e) <= 1e-14l * std::abs(e), "angular velocity");
    }
    CheckEq(Of3(solver.AttitudeAt(m_t, t)), axes, "attitude with momentum");
    DegreesOfFreedom<In> const linear(
        In::origin + Displacement<In>({1 * Metre, -2 * Metre, 5 * Metre}),
        Velocity<In>({4 * Metre / Second, 1 * Metre / Second,
                      -3 * Metre / Second}));
    auto const motion = solver.MotionAt(t, linear);
    auto const origin = motion(DegreesOfFreedom<Axes>(Axes::origin,
                                                      Axes::unmoving));
    CheckEq(origin.position(), linear.position(), "centre of mass");
    Check((origin.velocity() - linear.velocity()).Norm() <
              1e-14 * (1 + Norm3(w)) * linear.velocity().Norm(),
          "velocity of the centre of mass");
    V3 const turning = Coordinates(motion.angular_velocity_of<Axes>());
    V3 expected_turning{};
    for (int c = 0; c < 3; ++c) {
      for (int k = 0; k < 3; ++k) expected_turning[c] += axes[k][c] * w[k];
    }
    Check(Distance(turning, expected_turning) <=
              1e-13l * (Norm3(w) + 1e-300l),
          "angular velocity of the motion");
    M3 moved;
    for (int k = 0; k < 3; ++k) {
      Displacement<Axes> const e({k == 0 ? 1 * Metre : 0 * Metre,
                                  k == 1 ? 1 * Metre : 0 * Metre,
                                  k == 2 ? 1 * Metre : 0 * Metre});
      auto const c =
          (motion.rigid_transformation()(Axes::origin + e) - linear.position())
              .coordinates();
      moved[k] = {c.x / Metre, c.y / Metre, c.z / Metre};
    }
    Check(Distance(moved, axes) < 1e-13l, "attitude of the motion");

    // What is read is what was written.
    CheckEq(Of3(original.AttitudeAt(t)), Of3(read.AttitudeAt(t)),
            "serialization");
    CheckEq(original.AngularMomentumAt(t), read.AngularMomentumAt(t),
            "serialization");

    // The motion may be restarted at any time.
    if (sensitivity < 1e4l && angle != 0 && !on_separatrix) {
      Solver const restarted(tensor, momentum, a_t, t);
      R const d = Distance(Of3(restarted.AttitudeAt(t0)), initial);
      check(d < tolerance * 10, "restarted: off by ", static_cast<double>(d));
    }
  }
}
}  // namespace

SEQ_HARNESS(free_motion, .split = 2) {
  Free();
}

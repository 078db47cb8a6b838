// C60: pile-ups of parts against a model of Newtonian bodies.
#include <array>
#include <functional>
#include <list>
#include <memory>
#include <utility>
#include <vector>

#include "geometry/grassmann.hpp"
#include "geometry/orthogonal_map.hpp"
#include "geometry/permutation.hpp"
#include "geometry/quaternion.hpp"
#include "geometry/r3x3_matrix.hpp"
#include "geometry/rotation.hpp"
#include "geometry/space_transformations.hpp"
#include "harness/principia.h"
#include "integrators/embedded_explicit_runge_kutta_nyström_integrator.hpp"
#include "integrators/methods.hpp"
#include "integrators/symplectic_runge_kutta_nyström_integrator.hpp"
#include "ksp_plugin/frames.hpp"
#include "ksp_plugin/identification.hpp"
#include "ksp_plugin/integrators.hpp"
#include "ksp_plugin/part.hpp"
#include "ksp_plugin/pile_up.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/ephemeris.hpp"
#include "physics/massive_body.hpp"
#include "physics/rigid_motion.hpp"
#include "physics/tensors.hpp"
#include "serialization/ksp_plugin.pb.h"

using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_permutation;
using namespace principia::geometry::_quaternion;
using namespace principia::geometry::_r3x3_matrix;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_space_transformations;
using namespace principia::integrators::_embedded_explicit_runge_kutta_nyström_integrator;
using namespace principia::integrators::_methods;
using namespace principia::integrators::_symplectic_runge_kutta_nyström_integrator;
using namespace principia::ksp_plugin::_frames;
using namespace principia::ksp_plugin::_identification;
using namespace principia::ksp_plugin::_integrators;
using namespace principia::ksp_plugin::_part;
using namespace principia::ksp_plugin::_pile_up;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_ephemeris;
using namespace principia::physics::_massive_body;
using namespace principia::physics::_rigid_motion;
using namespace principia::physics::_tensors;
namespace serialization = principia::serialization;
using seq::Notes;

namespace {
using R = long double;
using V3 = std::array<R, 3>;
using M3 = std::array<V3, 3>;  // Rows.
using E = Ephemeris<Barycentric>;
using Mid = Frame<serialization::Frame::TestTag, Arbitrary, Handedness::Right,
                  serialization::Frame::TEST>;

V3 operator+(V3 const& a, V3 const& b) {
  return {a[0] + b[0], a[1] + b[1], a[2] + b[2]};
}
V3 operator-(V3 const& a, V3 const& b) {
  return {a[0] - b[0], a[1] - b[1], a[2] - b[2]};
}
V3 operator*(R const s, V3 const& a) { return {s * a[0], s * a[1], s * a[2]}; }
R Dot(V3 const& a, V3 const& b) {
  return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
V3 Cross(V3 const& a, V3 const& b) {
  return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
          a[0] * b[1] - a[1] * b[0]};
}
R Size(V3 const& a) { return std::sqrt(Dot(a, a)); }
V3 operator*(M3 const& m, V3 const& v) {
  return {Dot(m[0], v), Dot(m[1], v), Dot(m[2], v)};
}
M3 Tr(M3 const& m) {
  M3 r;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) r[i][j] = m[j][i];
  }
  return r;
}
M3 operator*(M3 const& a, M3 const& b) {
  M3 const t = Tr(b);
  M3 r;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) r[i][j] = Dot(a[i], t[j]);
  }
  return r;
}
M3 operator+(M3 const& a, M3 const& b) {
  return {a[0] + b[0], a[1] + b[1], a[2] + b[2]};
}
M3 operator*(R const s, M3 const& a) { return {s * a[0], s * a[1], s * a[2]}; }
M3 const kIdentity{V3{1, 0, 0}, V3{0, 1, 0}, V3{0, 0, 1}};

M3 Inv(M3 const& m) {
  V3 const a = Cross(m[1], m[2]);
  V3 const b = Cross(m[2], m[0]);
  V3 const c = Cross(m[0], m[1]);
  return (1 / Dot(m[0], a)) * Tr(M3{a, b, c});
}

// The rotation that is closest to a matrix.
M3 Polar(M3 m) {
  for (int i = 0; i < 60; ++i) {
    m = 0.5L * (m + Tr(Inv(m)));
  }
  return m;
}

M3 Turn(V3 axis, R const angle) {
  axis = (1 / Size(axis)) * axis;
  M3 r;
  for (int j = 0; j < 3; ++j) {
    V3 const e = kIdentity[j];
    V3 const x = std::cos(angle) * e + std::sin(angle) * Cross(axis, e) +
                 ((1 - std::cos(angle)) * Dot(axis, e)) * axis;
    for (int i = 0; i < 3; ++i) r[i][j] = x[i];
  }
  return r;
}

// The inertia of a point mass, without the mass.
M3 Steiner(V3 const& r) {
  M3 m = Dot(r, r) * kIdentity;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) m[i][j] -= r[i] * r[j];
  }
  return m;
}

constexpr Force kN = Newton;
constexpr Torque kNm = Newton * Metre * Radian;
double const kμ = 4e14;

V3 Raw(auto const& v, auto const unit) {
  auto const c = v.coordinates();
  return {c.x / unit, c.y / unit, c.z / unit};
}
Instant At(R const t) { return Instant() + (double)t * Second; }
template<typename Fr>
Velocity<Fr> Vel(V3 const& v) {
  return Velocity<Fr>({(double)v[0] * Metre / Second,
                       (double)v[1] * Metre / Second,
                       (double)v[2] * Metre / Second});
}
template<typename Fr>
AngularVelocity<Fr> Ang(V3 const& v) {
  return AngularVelocity<Fr>({(double)v[0] * Radian / Second,
                              (double)v[1] * Radian / Second,
                              (double)v[2] * Radian / Second});
}
template<typename Fr>
Displacement<Fr> Dis(V3 const& v) {
  return Displacement<Fr>({(double)v[0] * Metre, (double)v[1] * Metre,
                           (double)v[2] * Metre});
}
template<typename Fr>
InertiaTensor<Fr> Tensor(M3 const& m) {
  auto const u = Kilogram * Metre * Metre;
  return InertiaTensor<Fr>(R3x3Matrix<MomentOfInertia>(
      {(double)m[0][0] * u, (double)m[0][1] * u, (double)m[0][2] * u},
      {(double)m[1][0] * u, (double)m[1][1] * u, (double)m[1][2] * u},
      {(double)m[2][0] * u, (double)m[2][1] * u, (double)m[2][2] * u}));
}

Quaternion ToQuaternion(M3 const& m) {
  // The symmetric matrix of which it is an eigenvector, for the eigenvalue 4.
  R const k[4][4] = {{1 + m[0][0] + m[1][1] + m[2][2], m[2][1] - m[1][2],
                      m[0][2] - m[2][0], m[1][0] - m[0][1]},
                     {m[2][1] - m[1][2], 1 + m[0][0] - m[1][1] - m[2][2],
                      m[0][1] + m[1][0], m[0][2] + m[2][0]},
                     {m[0][2] - m[2][0], m[0][1] + m[1][0],
                      1 - m[0][0] + m[1][1] - m[2][2], m[1][2] + m[2][1]},
                     {m[1][0] - m[0][1], m[0][2] + m[2][0], m[1][2] + m[2][1],
                      1 - m[0][0] - m[1][1] + m[2][2]}};
  int best = 0;
  for (int i = 1; i < 4; ++i) {
    if (k[i][i] > k[best][best]) best = i;
  }
  R norm = 0;
  for (R const x : k[best]) norm += x * x;
  norm = std::sqrt(norm);
  auto const& b = k[best];
  return Quaternion((double)(b[0] / norm),
                    {(double)(b[1] / norm), (double)(b[2] / norm),
                     (double)(b[3] / norm)});
}

// A motion whose map is the given orthogonal matrix of determinant -1.
template<typename From, typename To>
RigidMotion<From, To> MotionOf(M3 const& o, V3 const& q, V3 const& v,
                               V3 const& w) {
  // Exchanges y and z first.
  M3 m = o;
  for (int i = 0; i < 3; ++i) std::swap(m[i][1], m[i][2]);
  Rotation<Mid, To> const rotation(ToQuaternion(m));
  return RigidMotion<From, To>(
      RigidTransformation<From, To>(
          From::origin, To::origin + Dis<To>(q),
          rotation.template Forget<OrthogonalMap>() *
              Permutation<From, Mid>(
                  Permutation<From, Mid>::CoordinatePermutation::XZY)
                  .template Forget<OrthogonalMap>()),
      Ang<To>(w), Vel<To>(v));
}

// A body, with respect to the centre of mass of the system or in absolute.
struct Body {
  R m;
  M3 inertia;  // In its axes, per unit of mass.
  M3 o;
  V3 q;
  V3 v;
  V3 w;
};

M3 InertiaOf(Body const& b) { return b.o * (b.m * b.inertia) * Tr(b.o); }

struct Overall {
  R m = 0;
  V3 q{};
  V3 v{};
  V3 l{};
  M3 i{};
};

Overall Of(std::vector<Body> const& bodies) {
  Overall o;
  for (auto const& b : bodies) {
    o.m += b.m;
    o.q = o.q + b.m * b.q;
    o.v = o.v + b.m * b.v;
  }
  o.q = (1 / o.m) * o.q;
  o.v = (1 / o.m) * o.v;
  for (auto const& b : bodies) {
    V3 const r = b.q - o.q;
    o.l = o.l + b.m * Cross(r, b.v - o.v) + InertiaOf(b) * b.w;
    o.i = o.i + b.m * Steiner(r) + InertiaOf(b);
  }
  return o;
}

struct Spin {
  M3 turn;
  V3 w;
};

// The rotation of a free rigid body after a duration.
Spin Free(M3 const& inertia, V3 const& l, R const duration) {
  M3 const inverse = Inv(inertia);
  auto const w = [&](M3 const& a) { return a * (inverse * (Tr(a) * l)); };
  auto const f = [&](M3 const& a) {
    V3 const ω = w(a);
    M3 r;
    for (int j = 0; j < 3; ++j) {
      V3 const c = Cross(ω, V3{a[0][j], a[1][j], a[2][j]});
      for (int i = 0; i < 3; ++i) r[i][j] = c[i];
    }
    return r;
  };
  M3 a = kIdentity;
  int const n = 1 + std::ceil(duration * Size(w(a)) * 200);
  R const h = duration / n;
  for (int i = 0; i < n; ++i) {
    M3 const k1 = f(a);
    M3 const k2 = f(a + (h / 2) * k1);
    M3 const k3 = f(a + (h / 2) * k2);
    M3 const k4 = f(a + h * k3);
    a = a + (h / 6) * (k1 + 2.0L * k2 + 2.0L * k3 + k4);
  }
  a = Polar(a);
  return {a, w(a)};
}

struct Com {
  V3 q;
  V3 v;
};

Com Fall(Com c, V3 const& force_per_mass, R const duration) {
  auto const f = [&](V3 const& q) {
    R const d = Size(q);
    return (-kμ / (d * d * d)) * q + force_per_mass;
  };
  int const n = 1 + std::ceil(duration * 1.5L);
  R const h = duration / n;
  for (int i = 0; i < n; ++i) {
    V3 const a1 = f(c.q);
    V3 const a2 = f(c.q + (h / 2) * c.v);
    V3 const a3 = f(c.q + (h / 2) * c.v + (h * h / 4) * a1);
    V3 const a4 = f(c.q + h * c.v + (h * h / 2) * a2);
    c.q = c.q + h * c.v + (h * h / 6) * (a1 + a2 + a3);
    c.v = c.v + (h / 6) * (a1 + 2.0L * a2 + 2.0L * a3 + a4);
  }
  return c;
}

// A shared ephemeris: a body at rest.
E* Space() {
  static E* const e = [] {
    std::vector<not_null<std::unique_ptr<MassiveBody const>>> bodies;
    bodies.emplace_back(make_not_null_unique<MassiveBody>(
        MassiveBody::Parameters("body", kμ * Pow<3>(Metre) / Pow<2>(Second))));
    auto* const e = new E(
        std::move(bodies),
        {DegreesOfFreedom<Barycentric>(Barycentric::origin,
                                       Barycentric::unmoving)},
        At(-100), E::AccuracyParameters(1 * Milli(Metre), 0),
        E::FixedStepParameters(
            SymplecticRungeKuttaNyströmIntegrator<
                BlanesMoan2002SRKN14A, E::NewtonianMotionEquation>(),
            10 * Second));
    (void)e->Prolong(At(1000));
    return e;
  }();
  return e;
}

struct Live {
  double dt;
  int game;         // How the game turned the vessel.
  bool deformed;
  int force;
  int mass;
};

M3 BodyInertia(int const k) {
  M3 const d{V3{1.0L + 0.5L * k, 0, 0}, V3{0, 2.1L - 0.6L * k, 0},
             V3{0, 0, 2.7L - 0.4L * k}};
  M3 const t = Turn({1, R(k), -1}, 0.4L * (k + 1));
  return 0.3L * (t * d * Tr(t));
}

struct Pile {
  std::vector<std::unique_ptr<Part>> parts;
  std::unique_ptr<PileUp> pile_up;
};

int destroyed = 0;

// Where the vessel is, and how it's moving.
struct Known {
  R t;
  Com com;
};
}  // namespace

SEQ_HARNESS(pile_ups, .split = 3) {
  E* const ephemeris = Space();
  int const n = 1 + Choose(3);
  int const depth = seq::Thorough() ? 5 : 4;
  Notes(n, " parts");
  double const t0 = 3;

  // The model.
  std::vector<Body> bodies;  // With respect to the centre of mass.
  Known now{t0, {}};
  V3 l{};
  std::vector<Known> past;   // To find where the centre of mass was.
  std::vector<V3> thrust;    // Force per mass after each point of the past.

  Pile pile;
  {
    std::vector<Body> absolute;
    for (int k = 0; k < n; ++k) {
      Body b;
      b.m = 1000.0L / (1 + 3 * k);
      b.inertia = BodyInertia(k);
      b.o = Turn({1, 2, R(k)}, 0.7L * k);
      for (int i = 0; i < 3; ++i) b.o[i][0] = -b.o[i][0];
      V3 const eccentricity{0.25L * k, -0.5L, 0.125L};
      V3 const q{7e6L + 4 * k, -3.0L * k, 1 + 2.0L * k * k};
      V3 const v{100 + 0.25L * k, 7500, 20 - 0.5L * k};
      V3 const w{0.0625L * (k + 1), 0.125L - 0.25L * k, 0.1875L};
      V3 const offset = b.o * eccentricity;
      b.q = q + offset;
      b.v = v + Cross(w, offset);
      b.w = w;
      pile.parts.push_back(std::make_unique<Part>(
          PartId(100 + k), "part", (double)b.m * Kilogram,
          EccentricPart::origin + Dis<EccentricPart>(eccentricity),
          Tensor<RigidPart>(b.m * b.inertia),
          MotionOf<EccentricPart, Barycentric>(b.o, q, v, w), nullptr));
      absolute.push_back(b);
    }
    Overall const o = Of(absolute);
    now.com = {o.q, o.v};
    l = o.l;
    bodies = absolute;
    for (auto& b : bodies) {
      b.q = b.q - o.q;
      b.v = b.v - o.v;
    }
  }
  auto const parameters = E::AdaptiveStepParameters(
      EmbeddedExplicitRungeKuttaNyströmIntegrator<
          DormandالمكاوىPrince1986RKN434FM, E::NewtonianMotionEquation>(),
      100'000, 1e-6 * Metre, 1e-6 * Metre / Second);
  auto const list = [&] {
    std::list<not_null<Part*>> result;
    for (auto& p : pile.parts) result.push_back(p.get());
    return result;
  };
  destroyed = 0;
  pile.pile_up = std::make_unique<PileUp>(
      list(), At(t0), parameters, DefaultHistoryParameters(), ephemeris,
      [] { ++destroyed; });
  past.push_back(now);
  thrust.push_back({});
  Overall frozen = Of(bodies);  // The rigid body when warping.
  std::vector<Body> frozen_bodies = bodies;
  R frozen_t = t0;
  // The last authoritative time.
  R history = t0;

  auto const com_at = [&](R const t) {
    int i = past.size() - 1;
    while (i > 0 && past[i].t > t) --i;
    return Fall(past[i].com, thrust[i], t - past[i].t);
  };

  auto const check = [&](std::string const& what) {
    V3 momentum{};
    V3 q{};
    V3 v{};
    R m = 0;
    for (int k = 0; k < n; ++k) {
      Part const& part = *pile.parts[k];
      auto const& motion = part.rigid_motion();
      DegreesOfFreedom<Barycentric> const dof =
          motion({RigidPart::origin, RigidPart::unmoving});
      V3 const pq = Raw(dof.position() - Barycentric::origin, Metre);
      V3 const pv = Raw(dof.velocity(), Metre / Second);
      V3 const pw = Raw(motion.angular_velocity_of<RigidPart>(),
                        Radian / Second);
      Body const& b = bodies[k];
      Check(Size(pq - (now.com.q + b.q)) < 1e-4L, what, ": part ", k, " is at ",
            (double)Size(pq - (now.com.q + b.q)),
            " m from where it should be; with respect to the centre of mass ",
            (double)b.q[0], " ", (double)b.q[1], " ", (double)b.q[2]);
      Check(Size(pv - (now.com.v + b.v)) < 1e-4L, what, ": part ", k,
            " has a velocity off by ", (double)Size(pv - (now.com.v + b.v)));
      Check(Size(pw - b.w) < 2e-5L, what, ": part ", k,
            " has an angular velocity off by ", (double)Size(pw - b.w), " out of ", (double)Size(b.w));
      for (int j = 0; j < 3; ++j) {
        V3 const e = Raw(
            motion.orthogonal_map()(Vector<double, RigidPart>(
                {double(j == 0), double(j == 1), double(j == 2)})),
            1.0);
        V3 const x{b.o[0][j], b.o[1][j], b.o[2][j]};
        Check(Size(e - x) < 2e-5L, what, ": axis ", j, " of part ", k,
              " is off by ", (double)Size(e - x));
      }
      q = q + b.m * pq;
      v = v + b.m * pv;
      m += b.m;
      momentum = momentum +
                 b.m * Cross(pq - now.com.q, pv - now.com.v) +
                 InertiaOf(b) * pw;
    }
    Check(Size((1 / m) * q - now.com.q) < 1e-5L, what, ": centre of mass");
    Check(Size((1 / m) * v - now.com.v) < 1e-5L, what,
          ": velocity of the centre of mass");
    Check(Size(momentum - l) < 1e-2L, what, ": the angular momentum is off by ",
          (double)Size(momentum - l));
  };

  // Checks the trajectories of the parts from `from`.
  auto const check_trajectories = [&](std::vector<R> const& fixed, R const from,
                                      bool const forced) {
    std::vector<std::vector<std::pair<R, Com>>> points(n);
    for (int k = 0; k < n; ++k) {
      Part& part = *pile.parts[k];
      R last = -1e9L;
      bool any = false;
      std::vector<R> seen;
      for (auto it = part.history_begin(); it != part.history_end(); ++it) {
        R const t = (it->time - Instant()) / Second;
        Check(t > last, "history not increasing");
        last = t;
        any = true;
        if (t > from + 1e-3L) {
          seen.push_back(t);
          points[k].push_back(
              {t, {Raw(it->degrees_of_freedom.position() - Barycentric::origin,
                       Metre),
                   Raw(it->degrees_of_freedom.velocity(), Metre / Second)}});
        }
      }
      if (forced) {
        Check(!seen.empty() && std::abs(seen.back() - now.t) < 1e-9L,
              "history ends at ", (double)last, " not at ", (double)now.t);
      } else {
        // A step that ends now, save for the rounding errors.
        bool const tie = !fixed.empty() && fixed.back() > now.t - 1e-9L &&
                         seen.size() == fixed.size() - 1;
        if (tie) history = from + 10 * seen.size();
        Check(tie || seen.size() == fixed.size(), "there are ", seen.size(),
              " new points of history instead of ", fixed.size());
        for (int i = 0; i < seen.size(); ++i) {
          Check(std::abs(seen[i] - fixed[i]) < 1e-9L, "point at ",
                (double)seen[i], " instead of ", (double)fixed[i]);
        }
      }
      R end = last;
      for (auto it = part.psychohistory_begin(); it != part.psychohistory_end();
           ++it) {
        R const t = (it->time - Instant()) / Second;
        if (it != part.psychohistory_begin() || !any) {
          Check(t > end, "psychohistory not increasing");
        }
        end = t;
        if (t > last) {
          points[k].push_back(
              {t, {Raw(it->degrees_of_freedom.position() - Barycentric::origin,
                       Metre),
                   Raw(it->degrees_of_freedom.velocity(), Metre / Second)}});
        }
      }
      Check(std::abs(end - now.t) < 1e-9L, "the trajectory of part ", k,
            " ends at ", (double)end, " instead of ", (double)now.t);
      Check(!points[k].empty(), "no points");
      auto const& [t, c] = points[k].back();
      Check(Size(c.q - (now.com.q + bodies[k].q)) < 1e-4L &&
                Size(c.v - (now.com.v + bodies[k].v)) < 1e-4L,
            "the trajectory of part ", k, " does not lead to it");
    }
    for (int i = 0; i < points[0].size(); ++i) {
      V3 q{};
      V3 v{};
      R m = 0;
      for (int k = 0; k < n; ++k) {
        Check(points[k].size() == points[0].size() &&
                  points[k][i].first == points[0][i].first,
              "parts with different trajectories");
        q = q + bodies[k].m * points[k][i].second.q;
        v = v + bodies[k].m * points[k][i].second.v;
        m += bodies[k].m;
      }
      Com const c = com_at(points[0][i].first);
      Check(Size((1 / m) * q - c.q) < 1e-5L && Size((1 / m) * v - c.v) < 1e-5L,
            "at ", (double)points[0][i].first,
            " the centre of mass of the trajectories is off by ",
            (double)Size((1 / m) * q - c.q), " m and ",
            (double)Size((1 / m) * v - c.v), " m/s");
    }
  };

  static std::vector<Live> const lives{
      {0.02, 0, false, 0, 0}, {0.5, 1, true, 0, 0},  {12, 1, false, 1, 0},
      {3, 2, true, 2, 1},     {0.5, 2, false, 3, 2}, {0.02, 1, true, 1, 2},
      {3, 0, false, 2, 2},    {12, 2, true, 0, 2}};
  static std::vector<double> const warps{0.02, 3, 12, 25};

  check("initially");
  for (int step = 0; step < depth; ++step) {
    int const op = Choose(lives.size() + warps.size() + 3);
    int const first_warp = lives.size();
    int const first_other = first_warp + warps.size();
    if (op >= first_other + 1) {
      if (op == first_other + 1) {
        Notes("save and restore");
        serialization::PileUp message;
        pile.pile_up->WriteToMessage(&message);
        Pile other;
        for (auto const& p : pile.parts) {
          serialization::Part part;
          p->WriteToMessage(&part, [](not_null<PileUp const*>) { return 0; });
          other.parts.push_back(Part::ReadFromMessage(part, nullptr));
        }
        destroyed = 0;
        pile.pile_up.reset();
        Check(destroyed == 1, "deletion callback");
        pile.parts.clear();
        pile.parts = std::move(other.parts);
        pile.pile_up = PileUp::ReadFromMessage(
            message,
            [&](PartId const id) -> not_null<Part*> {
              return pile.parts[id - 100].get();
            },
            ephemeris, [] { ++destroyed; });
        check("after reading");
      } else {
        Notes("advance to the past");
        Check(pile.pile_up->DeformAndAdvanceTime(At(now.t)).ok(), "ok");
        check("after advancing to the present");
        Check(pile.pile_up->DeformAndAdvanceTime(At(now.t - 1)).ok(), "ok");
        check("after advancing to the past");
      }
      continue;
    }
    Live const live = op < first_warp ? lives[op]
                      : op < first_other
                          ? Live{warps[op - first_warp], 0, false, 0, 0}
                          : Live{3, 0, false, 4, 0};
    bool const is_live = op < first_warp;
    Notes(is_live ? "simulate " : "warp ", live.dt, " s, force ", live.force,
          is_live ? ", game " + std::to_string(live.game) + ", mass " +
                        std::to_string(live.mass) +
                        (live.deformed ? ", deformed" : "")
                  : "");
    // The masses.
    V3 change{};
    std::vector<R> old_masses;
    for (int k = 0; k < n; ++k) {
      Part& part = *pile.parts[k];
      bool const is_motor = live.mass == 2 && k == n - 1;
      old_masses.push_back(bodies[k].m);
      if (live.mass != 0 && (k == n - 1 || live.mass == 1)) {
        bodies[k].m *= 0.75L;
      }
      part.set_mass((double)bodies[k].m * Kilogram);
      part.set_inertia_tensor(
          Tensor<RigidPart>(bodies[k].m * bodies[k].inertia));
      part.set_is_solid_rocket_motor(is_motor);
      R const lost = bodies[k].m - old_masses[k];
      if (is_motor) {
        change = change + lost * Cross(bodies[k].q, bodies[k].v) +
                 (lost / bodies[k].m) * (InertiaOf(bodies[k]) * bodies[k].w);
      }
    }
    // The forces and the torques.
    V3 force{};
    V3 torque{};
    for (int k = 0; k < n; ++k) {
      Part& part = *pile.parts[k];
      part.clear_intrinsic_force();
      part.clear_intrinsic_torque();
      auto const push = [&](V3 const& f, V3 const* const arm) {
        Vector<Force, Barycentric> const f1({(double)f[0] * kN,
                                             (double)f[1] * kN,
                                             (double)f[2] * kN});
        if (arm == nullptr) {
          part.apply_intrinsic_force(f1);
        } else {
          part.ApplyIntrinsicForceWithLeverArm(f1, Dis<Barycentric>(*arm));
          torque = torque + Cross(*arm, f);
        }
        force = force + f;
        torque = torque + Cross(bodies[k].q, f);
      };
      if (live.force == 1 && k == 0) {
        push({300, -100, 50}, nullptr);
      } else if (live.force == 2) {
        V3 const arm{0.25L, 0.5L * k, -0.125L};
        push({-200, 100.0L * k, 70}, &arm);
        if (k == 0) push({0, 40, 0}, nullptr);
      } else if (live.force == 3 && k == n - 1) {
        V3 const t{30, -20, 10};
        part.apply_intrinsic_torque(Bivector<Torque, Barycentric>(
            {30 * kNm, -20 * kNm, 10 * kNm}));
        torque = torque + t;
      } else if (live.force == 4 && k == n - 1) {
        push({-400, 10, 300}, nullptr);
      }
    }
    pile.pile_up->RecomputeFromParts();

    R const t1 = now.t + live.dt;
    R m = 0;
    for (auto const& b : bodies) m += b.m;
    if (is_live) {
      std::vector<Body> apparent;
      M3 const g = Turn({1, 2, 2}, live.game == 0   ? 0
                                   : live.game == 1 ? 0.125L
                                                    : 2.5L);
      V3 const place{12, -5, 3};
      V3 const speed{1, 2, -40};
      V3 const turning{0.01L, live.game * 0.5L, -0.03L};
      for (int k = 0; k < n; ++k) {
        Body b = bodies[k];
        M3 const d = live.deformed ? Turn({0, R(k), 1}, 0.2L * k) : kIdentity;
        V3 const shift = live.deformed ? V3{0.25L * k, 0, -0.125L} : V3{};
        b.o = g * (d * b.o);
        V3 const r = g * (b.q + shift);
        b.q = place + r;
        b.v = speed + g * b.v + Cross(turning, r);
        b.w = g * b.w + turning +
              (live.deformed ? V3{0.125L * k, 0.0625L, 0} : V3{});
        apparent.push_back(b);
        pile.pile_up->SetPartApparentRigidMotion(
            pile.parts[k].get(),
            MotionOf<RigidPart, Apparent>(b.o, b.q, b.v, b.w));
      }
      // The rotation of the vessel.
      M3 overall{};
      for (int k = 0; k < n; ++k) {
        overall = overall + bodies[k].m * (apparent[k].o * Tr(bodies[k].o));
      }
      M3 const back = Tr(Polar(overall));
      Overall const a = Of(apparent);
      V3 const ω = Inv(a.i) * a.l;
      l = l + R(live.dt) * torque + change;
      frozen_bodies = apparent;
      for (auto& b : frozen_bodies) {
        V3 const r = b.q - a.q;
        b.v = back * (b.v - a.v - Cross(ω, r));
        b.q = back * r;
        b.o = back * b.o;
        b.w = back * (b.w - ω);
      }
      frozen = Of(frozen_bodies);
      frozen_t = now.t;
      Spin const spin = Free(frozen.i, l, live.dt);
      for (int k = 0; k < n; ++k) {
        Body& b = bodies[k];
        Body const& f = frozen_bodies[k];
        b.q = spin.turn * f.q;
        b.o = spin.turn * f.o;
        b.v = spin.turn * f.v + Cross(spin.w, b.q);
        b.w = spin.turn * f.w + spin.w;
      }
    } else {
      Spin const spin = Free(frozen.i, l, t1 - frozen_t);
      for (int k = 0; k < n; ++k) {
        Body& b = bodies[k];
        Body const& f = frozen_bodies[k];
        b.q = spin.turn * f.q;
        b.o = spin.turn * f.o;
        b.v = Cross(spin.w, b.q);
        b.w = spin.w;
      }
    }
    bool const forced = live.force != 0 && live.force != 3;
    thrust.back() = (1 / m) * force;
    now.com = Fall(now.com, (1 / m) * force, live.dt);
    now.t = t1;
    past.push_back(now);
    thrust.push_back({});
    std::vector<R> fixed;
    R const from = history;
    if (forced) {
      history = t1;
    } else {
      while (history + 10 <= t1 + 1e-9L) {
        history += 10;
        fixed.push_back(history);
      }
    }
    Check(pile.pile_up->DeformAndAdvanceTime(At(t1)).ok(), "ok");
    check("afterwards");
    check_trajectories(fixed, from, forced);
    // As the vessel does.
    for (auto& p : pile.parts) p->ClearHistory();
    seq::Step();
  }
}

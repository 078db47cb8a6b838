// C45: reference frames.
#include "harness/ephemeris.h"

#include <algorithm>

#include "absl/container/flat_hash_set.h"
#include "geometry/grassmann.hpp"
#include "geometry/rotation.hpp"
#include "physics/barycentric_rotating_reference_frame.hpp"
#include "physics/body_centred_body_direction_reference_frame.hpp"
#include "physics/body_centred_non_rotating_reference_frame.hpp"
#include "physics/body_surface_reference_frame.hpp"
#include "physics/reference_frame.hpp"
#include "physics/reference_frame_key.hpp"
#include "physics/rotating_pulsating_reference_frame.hpp"

using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_rotation;
using namespace principia::physics::_barycentric_rotating_reference_frame;
using namespace principia::physics::_body_centred_body_direction_reference_frame;
using namespace principia::physics::_body_centred_non_rotating_reference_frame;
using namespace principia::physics::_body_surface_reference_frame;
using namespace principia::physics::_reference_frame;
using namespace principia::physics::_reference_frame_key;
using namespace principia::physics::_rotating_pulsating_reference_frame;
using seq::Pick;

namespace {
using Nav = Frame<serialization::Frame::TestTag, Arbitrary,
                  Handedness::Right, serialization::Frame::TEST1>;
using RF = ReferenceFrame<World, Nav>;
using NavDof = DegreesOfFreedom<Nav>;

double const t0 = 1024;

Model Rotation_(int const k) {
  static double const rotations[][5] = {{1, 5000, -3e-5, 4, 0.3},
                                        {-2, -1e4, 7.3e-5, 1.5, -1.2},
                                        {0.5, 0, 2e-6, -0.7, 1}};
  auto const& r = rotations[k % 3];
  return Model{{}, r[0], r[1], r[2], r[3], r[4]};
}

// Point masses, rotating bodies, oblate bodies.
Systm NewSystem(std::string const& kinds) {
  static double const qs[][3] = {{1e6, -2e6, 3e5},
                                 {4e7, 1e7, -2e6},
                                 {-3e7, 5e7, 8e6},
                                 {2e7, -6e7, 3e7}};
  static double const vs[][3] = {{-300, -100, 20},
                                 {-500, 2500, 300},
                                 {-2000, -1000, 100},
                                 {1800, 600, -900}};
  static double const μs[] = {4e14, 5e13, 8e13, 6e13};
  Systm result;
  for (int i = 0; i < kinds.size(); ++i) {
    BodySpec spec{.μ = μs[i],
                  .q = {qs[i][0], qs[i][1], qs[i][2]},
                  .v = {vs[i][0], vs[i][1], vs[i][2]}};
    if (kinds[i] != 'P') { spec.oblate = Rotation_(i); }
    if (kinds[i] == 'O') {
      spec.oblate->coefficients = {{2, 0, -1e-2, 0}, {2, 2, 3e-3, -2e-3}};
    }
    result.push_back(spec);
  }
  return result;
}

// The spacecraft on which a frame may be centred.
V3 const vessel_q{-9e6, 3e6, 8e6};
V3 const vessel_v{1000, 5000, 2000};

enum Kind { NonRotating, Surface, Direction, VesselDirection, Barycentric,
            Pulsating };

struct Spec {
  Kind kind;
  std::vector<int> primaries;
  std::vector<int> secondaries;
};

std::string Name(Spec const& spec) {
  std::string result = "kind " + std::to_string(spec.kind) + " of";
  for (int const i : spec.primaries) { result += " " + std::to_string(i); }
  result += " /";
  for (int const i : spec.secondaries) { result += " " + std::to_string(i); }
  return result;
}

struct Universe {
  Systm system;
  std::unique_ptr<E> ephemeris;
  DiscreteTrajectory<World> vessel;
};

Universe const& GetUniverse(std::string const& kinds) {
  static std::map<std::string, std::unique_ptr<Universe>> universes;
  auto& u = universes[kinds];
  if (u == nullptr) {
    u = std::make_unique<Universe>();
    u->system = NewSystem(kinds);
    u->ephemeris = NewEphemeris(
        u->system, t0, 1e-3,
        {SymmetricLinearMultistepIntegrator<QuinlanTremaine1990Order12,
                                            E::NewtonianMotionEquation>(),
         10 * Second});
    Check(u->ephemeris->Prolong(At(t0 + 1000)).ok(), "Prolong failed");
    Check(u->vessel.Append(At(t0), ToDof(vessel_q, vessel_v)).ok(), "Append");
    auto const instance = u->ephemeris->NewInstance(
        {&u->vessel}, E::NoIntrinsicAccelerations,
        {SymplecticRungeKuttaNyströmIntegrator<BlanesMoan2002SRKN14A,
                                               E::NewtonianMotionEquation>(),
         16 * Second});
    Check(u->ephemeris->FlowWithFixedStep(At(t0 + 1000), *instance).ok(),
          "flow");
  }
  return *u;
}

std::unique_ptr<RF> NewFrame(Universe const& u, Spec const& spec) {
  auto const bodies = u.ephemeris->bodies();
  std::vector<not_null<MassiveBody const*>> primaries, secondaries;
  for (int const i : spec.primaries) { primaries.push_back(bodies[i]); }
  for (int const i : spec.secondaries) { secondaries.push_back(bodies[i]); }
  E const* const e = u.ephemeris.get();
  bool const one = primaries.size() == 1 && secondaries.size() == 1;
  switch (spec.kind) {
    case NonRotating:
      return std::make_unique<
          BodyCentredNonRotatingReferenceFrame<World, Nav>>(e, primaries[0]);
    case Surface:
      return std::make_unique<BodySurfaceReferenceFrame<World, Nav>>(
          e, dynamic_cast<RotatingBody<World> const*>(
                 static_cast<MassiveBody const*>(primaries[0])));
    case Direction:
      return std::make_unique<
          BodyCentredBodyDirectionReferenceFrame<World, Nav>>(
          e, primaries[0], secondaries[0]);
    case VesselDirection:
      return std::make_unique<
          BodyCentredBodyDirectionReferenceFrame<World, Nav>>(
          e,
          [&u]() -> principia::physics::_trajectory::Trajectory<World> const& {
            return u.vessel;
          },
          secondaries[0]);
    case Barycentric:
      return one ? std::make_unique<
                       BarycentricRotatingReferenceFrame<World, Nav>>(
                       e, primaries[0], secondaries[0])
                 : std::make_unique<
                       BarycentricRotatingReferenceFrame<World, Nav>>(
                       e, primaries, secondaries);
    case Pulsating:
      return one ? std::make_unique<
                       RotatingPulsatingReferenceFrame<World, Nav>>(
                       e, primaries[0], secondaries[0])
                 : std::make_unique<
                       RotatingPulsatingReferenceFrame<World, Nav>>(
                       e, primaries, secondaries);
  }
  std::abort();
}

V3 Cross(V3 const& a, V3 const& b) {
  return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
          a[0] * b[1] - a[1] * b[0]};
}

V3 ToV3(Position<Nav> const& q) { return ::ToV3(q - Nav::origin); }

// What the frame is, around the time `t`, where the derivatives of the motion
// of the bodies are the ones of gravitation.
class Oracle {
 public:
  Oracle(Universe const& u, Spec const& spec, double const t)
      : u_(u), spec_(spec), t_(t) {
    int const n = u.system.size();
    for (int i = 0; i < n; ++i) {
      auto const dof = u.ephemeris->trajectory(u.ephemeris->bodies()[i])
                           ->EvaluateDegreesOfFreedom(At(t));
      q_.push_back(::ToV3(dof.position()));
      v_.push_back(::ToV3(dof.velocity()));
    }
    for (int i = 0; i < n; ++i) {
      a_.push_back(OnMassive(u.system, t, q_, i));
      j_.push_back(JerkOn(u.system, q_, v_, q_[i], v_[i], i));
    }
    if (spec.kind == VesselDirection) {
      auto const dof = u.vessel.EvaluateDegreesOfFreedom(At(t));
      V3 const q = ::ToV3(dof.position());
      V3 const v = ::ToV3(dof.velocity());
      a_.push_back(OnMassless(u.system, t, q_, q));
      j_.push_back(JerkOn(u.system, q_, v_, q, v, -1));
      q_.push_back(q);
      v_.push_back(v);
    }
  }

  // In `Nav`, at time `t + s`.
  V3 Apply(Real const s, V3 const& x) const {
    auto const [o, axes, scale] = Motion(s);
    V3 result;
    for (int i = 0; i < 3; ++i) { result[i] = Dot(axes[i], x - o) / scale; }
    return result;
  }
  template<typename F>
  static V3 Derivative(F const& f) {
    return (1 / h) * ((4 / 5.0L) * (f(h) - f(-h)) -
                      (1 / 5.0L) * (f(2 * h) - f(-2 * h)) +
                      (4 / 105.0L) * (f(3 * h) - f(-3 * h)) -
                      (1 / 280.0L) * (f(4 * h) - f(-4 * h)));
  }
  template<typename F>
  static V3 Derivative2(F const& f) {
    return (1 / (h * h)) *
           ((-205 / 72.0L) * f(0) + (8 / 5.0L) * (f(h) + f(-h)) -
            (1 / 5.0L) * (f(2 * h) + f(-2 * h)) +
            (8 / 315.0L) * (f(3 * h) + f(-3 * h)) -
            (1 / 560.0L) * (f(4 * h) + f(-4 * h)));
  }
  V3 ApplyVelocity(V3 const& q, V3 const& v) const {
    return Derivative([&](Real const s) { return Apply(s, q + s * v); });
  }
  V3 Unapply(V3 const& p) const {
    auto const [o, axes, scale] = Motion(0);
    return o + scale * (p[0] * axes[0] + p[1] * axes[1] + p[2] * axes[2]);
  }
  V3 UnapplyVelocity(V3 const& p, V3 const& v) const {
    auto const [o, axes, scale] = Motion(0);
    V3 const w = v - ApplyVelocity(Unapply(p), {});
    return scale * (w[0] * axes[0] + w[1] * axes[1] + w[2] * axes[2]);
  }
  // Of the motion in the frame of a particle subject to the acceleration `a`.
  V3 Acceleration(V3 const& p, V3 const& v, V3 const& a) const {
    V3 const q0 = Unapply(p);
    V3 const v0 = UnapplyVelocity(p, v);
    return Derivative2([&](Real const s) {
      return Apply(s, q0 + s * v0 + (s * s / 2) * a);
    });
  }
  V3 Gravity(V3 const& p) const {
    return OnMassless(u_.system, t_, {q_.begin(), q_.begin() + u_.system.size()},
                      Unapply(p));
  }
  V3 FreeFall(V3 const& p, V3 const& v) const {
    return Acceleration(p, v, Gravity(p));
  }
  V3 RotationFree(V3 const& p) const {
    // The part that is not due to gravity is affine.
    Real const L = 1e7 / Scale();
    V3 const constant = Acceleration({}, {}, {});
    std::array<V3, 3> columns;
    for (int i = 0; i < 3; ++i) {
      V3 e{};
      e[i] = L;
      columns[i] = (1 / L) * (Acceleration(e, {}, {}) - constant);
    }
    V3 result = FreeFall(p, {});
    for (int i = 0; i < 3; ++i) {
      for (int j = 0; j < 3; ++j) {
        result[i] -= (columns[j][i] - columns[i][j]) / 2 * p[j];
      }
    }
    return result;
  }
  Real Scale() const { return std::get<2>(Motion(0)); }
  // The position of a body.
  V3 const& q(int const i) const { return q_[i]; }
  V3 const& v(int const i) const { return v_[i]; }

 private:
  static constexpr Real h = 8;

  V3 q(int const i, Real const s) const {
    return q_[i] + s * v_[i] + (s * s / 2) * a_[i] + (s * s * s / 6) * j_[i];
  }
  V3 v(int const i, Real const s) const {
    return v_[i] + s * a_[i] + (s * s / 2) * j_[i];
  }

  // The axes of the equator: z to the pole, y to the node.
  std::array<V3, 3> Celestial() const {
    auto const& model = u_.system[spec_.primaries[0]].oblate;
    if (!model.has_value()) { return {V3{1, 0, 0}, V3{0, 1, 0}, V3{0, 0, 1}}; }
    V3 const y{-std::sin((Real)model->α), std::cos((Real)model->α), 0};
    V3 const z{std::cos((Real)model->δ) * std::cos((Real)model->α),
               std::cos((Real)model->δ) * std::sin((Real)model->α),
               std::sin((Real)model->δ)};
    return {Cross(y, z), y, z};
  }

  std::tuple<V3, std::array<V3, 3>, Real> Motion(Real const s) const {
    switch (spec_.kind) {
      case NonRotating:
        return {q(spec_.primaries[0], s), Celestial(), 1};
      case Surface:
        return {q(spec_.primaries[0], s),
                u_.system[spec_.primaries[0]].oblate->axes((double)(t_ + s)),
                1};
      default:
        break;
    }
    bool const vessel = spec_.kind == VesselDirection;
    auto const barycentre = [&](std::vector<int> const& bodies)
        -> std::tuple<V3, V3, Real> {
      V3 bq{}, bv{};
      Real μ = 0;
      for (int const i : bodies) {
        Real const m = i < u_.system.size() ? u_.system[i].μ : 1;
        bq = bq + m * q(i, s);
        bv = bv + m * v(i, s);
        μ += m;
      }
      return {(1 / μ) * bq, (1 / μ) * bv, μ};
    };
    auto const [q1, v1, μ1] = barycentre(
        vessel ? std::vector<int>{(int)u_.system.size()} : spec_.primaries);
    auto const [q2, v2, μ2] = barycentre(spec_.secondaries);
    V3 const r = q2 - q1;
    V3 const w = v2 - v1;
    V3 const x = (1 / Norm(r)) * r;
    V3 const k = Cross(r, w);
    V3 const z = (1 / Norm(k)) * k;
    V3 const y = Cross(z, x);
    V3 const o = spec_.kind == Direction || vessel
                     ? q1
                     : (1 / (μ1 + μ2)) * (μ1 * q1 + μ2 * q2);
    return {o, {x, y, z}, spec_.kind == Pulsating ? Norm(r) : 1};
  }

  Universe const& u_;
  Spec const& spec_;
  double const t_;
  std::vector<V3> q_, v_, a_, j_;
};

std::vector<Spec> const& Rotatings() {
  static std::vector<Spec> const specs = [] {
    std::vector<Spec> result;
    for (int i = 0; i < 4; ++i) {
      result.push_back({VesselDirection, {}, {i}});
      for (int j = 0; j < 4; ++j) {
        if (i != j) { result.push_back({Direction, {i}, {j}}); }
      }
    }
    // Each body is a primary, a secondary, or neither.
    for (int code = 0; code < 81; ++code) {
      Spec spec;
      for (int i = 0, c = code; i < 4; ++i, c /= 3) {
        if (c % 3 == 1) { spec.primaries.push_back(i); }
        if (c % 3 == 2) { spec.secondaries.push_back(i); }
      }
      if (spec.primaries.empty() || spec.secondaries.empty()) { continue; }
      if (code % 2 == 0) {
        std::reverse(spec.primaries.begin(), spec.primaries.end());
      }
      for (auto const kind : {Barycentric, Pulsating}) {
        spec.kind = kind;
        result.push_back(spec);
      }
    }
    return result;
  }();
  return specs;
}

std::vector<Spec> const& Bodies() {
  static std::vector<Spec> const specs{
      {NonRotating, {0}, {}}, {NonRotating, {1}, {}}, {NonRotating, {2}, {}},
      {NonRotating, {3}, {}}, {Surface, {0}, {}},     {Surface, {1}, {}},
      {Surface, {2}, {}},     {Surface, {3}, {}}};
  return specs;
}

NavDof ToNav(V3 const& q, V3 const& v) {
  return {Nav::origin + Displacement<Nav>({(double)q[0] * Metre,
                                           (double)q[1] * Metre,
                                           (double)q[2] * Metre}),
          Velocity<Nav>({(double)v[0] * Metre / Second,
                         (double)v[1] * Metre / Second,
                         (double)v[2] * Metre / Second})};
}

void Near(V3 const& actual, V3 const& expected, Real const tolerance,
          char const* const what) {
  Check(Norm(actual - expected) <= tolerance, what, " off by ",
        (double)Norm(actual - expected), " tolerance ", (double)tolerance,
        " actual ", (double)actual[0], " ", (double)actual[1], " ",
        (double)actual[2], " expected ", (double)expected[0], " ",
        (double)expected[1], " ", (double)expected[2]);
  seq::Step();
}

std::vector<double> const times{t0, t0 + 5, t0 + 336.25, t0 + 640, t0 + 992};

void CheckFrame(Universe const& u, Spec const& spec, RF const& frame,
                double const t) {
  Oracle const oracle(u, spec, t);
  Real const scale = oracle.Scale();
  auto const to = frame.ToThisFrameAtTimeSimilarly(At(t));
  auto const from = frame.FromThisFrameAtTimeSimilarly(At(t));
  for (int i = 0; i < u.system.size(); ++i) {
    for (V3 const& d : {V3{}, V3{9e6, 0, 0}, V3{-2e6, 1.1e7, 3e6},
                        V3{0, -1e7, -9e6}, V3{-3e8, 1e8, 2e8}}) {
      for (V3 const& w : {V3{}, V3{3000, 1000, -7000}, V3{-20, 6000, 3000}}) {
        // The motions.
        V3 const qw = oracle.q(i) + d;
        Dof const dof = ToDof(qw, oracle.v(i) + w);
        V3 const q = ::ToV3(dof.position());
        V3 const v = ::ToV3(dof.velocity());
        auto const nav = to(dof);
        Real const size = (Norm(q) + 1e8) / scale;
        Real const speed = (Norm(v) + 1e-4 * Norm(q) + 1e4) / scale;
        Near(ToV3(nav.position()), oracle.Apply(0, q), 3e-15L * size,
             "position");
        V3 const velocity = oracle.ApplyVelocity(q, v);
        Near(::ToV3(nav.velocity()), velocity, 1e-13L * speed, "velocity");
        auto const back = from(nav);
        Near(::ToV3(back.position()), q, 3e-15L * size * scale,
             "inverse position");
        Near(::ToV3(back.velocity()), v, 1e-13L * speed * scale,
             "inverse velocity");

        // The dynamics.
        if (d == V3{}) { continue; }
        V3 const p = ToV3(nav.position());
        V3 const pv = ::ToV3(nav.velocity());
        V3 const acceleration = oracle.FreeFall(p, pv);
        Real const ε = (Norm(oracle.Gravity(p)) + 1 + 1e-4 * Norm(v - oracle.v(0)) +
                        1e-8 * Norm(q)) /
                       scale;
        Near(::ToV3(frame.GeometricAcceleration(At(t), nav)), acceleration,
             1e-11L * ε, "acceleration");
        if (Norm(pv) > 0) {
          auto const frenet = frame.FrenetFrame(At(t), nav);
          V3 const tangent = (1 / Norm(pv)) * pv;
          V3 normal = acceleration - Dot(acceleration, tangent) * tangent;
          Real const n = Norm(normal);
          normal = (1 / n) * normal;
          V3 const expected[] = {tangent, normal, Cross(tangent, normal)};
          for (int k = 0; k < 3; ++k) {
            auto const axis = frenet(Vector<double, Frenet<Nav>>(
                {double(k == 0), double(k == 1), double(k == 2)}));
            Near(::ToV3(axis), expected[k], 1e-14L + 1e-11L * ε / n,
                 "Frenet frame");
          }
        }
        if (w == V3{}) {
          V3 const free = oracle.RotationFree(p);
          V3 const actual = ::ToV3(
              frame.RotationFreeGeometricAccelerationAtRest(At(t),
                                                            nav.position()));
          Near(actual, free, 1e-11L * ε, "rotation-free acceleration");
          double const h = (double)(1e4 / scale);
          V3 gradient;
          for (int k = 0; k < 3; ++k) {
            auto const V = [&](double const s) -> Real {
              V3 x = p;
              x[k] += s * h;
              return frame.GeometricPotential(At(t), ToNav(x, {}).position()) /
                     Pow<2>(Metre / Second);
            };
            // With the step that was actually taken.
            Real const step = ((Real)(double)(p[k] + h) -
                               (Real)(double)(p[k] - h)) / 2;
            gradient[k] =
                (8 * (V(1) - V(-1)) - (V(2) - V(-2))) / (12 * step);
          }
          Near(-1 * gradient, free, 1e-8L * ε, "gradient of the potential");
        }
      }
    }
  }
}
}  // namespace

SEQ_HARNESS(rotating, .split = 2) {
  std::string const kinds = Pick(std::vector<std::string>{"RRPR", "PPRP", "PPPP", "RPRR"});
  Spec const spec = Pick(Rotatings());
  double const t = Pick(times);
  Notes(kinds, " ", Name(spec), " at ", t);
  Universe const& u = GetUniverse(kinds);
  auto const frame = NewFrame(u, spec);
  CheckFrame(u, spec, *frame, t);
  Instant const t_max =
      spec.kind == VesselDirection
          ? std::min(u.ephemeris->t_max(), u.vessel.t_max())
          : u.ephemeris->t_max();
  Check(frame->t_min() == At(t0) && frame->t_max() == t_max, "bounds");
}

SEQ_HARNESS(bodies, .split = 2) {
  std::string const kinds =
      Pick(std::vector<std::string>{"RRRR", "OROR", "ROOP", "OOOO"});
  Spec const spec = Pick(Bodies());
  if (spec.kind == Surface && kinds[spec.primaries[0]] == 'P') { seq::Prune(); }
  double const t = Pick(times);
  Notes(kinds, " ", Name(spec), " at ", t);
  Universe const& u = GetUniverse(kinds);
  auto const frame = NewFrame(u, spec);
  CheckFrame(u, spec, *frame, t);
  Check(frame->t_min() == At(t0) && frame->t_max() == u.ephemeris->t_max(),
        "bounds");
}

namespace {
// Everything that the frame says about time `t`.
std::vector<double> Say(RF const& frame, int const what, double const t) {
  std::vector<double> result;
  auto const add = [&result](V3 const& v) {
    for (auto const x : v) { result.push_back((double)x); }
  };
  NavDof const nav = ToNav({0.4, -0.7, 0.3}, {1e-4, 2e-4, -1e-4});
  Dof const dof = ToDof({2e7, -1e7, 5e6}, {1000, 2000, -3000});
  switch (what) {
    case 0: {
      auto const d = frame.ToThisFrameAtTimeSimilarly(At(t))(dof);
      add(ToV3(d.position()));
      add(::ToV3(d.velocity()));
      break;
    }
    case 1: {
      auto const d = frame.FromThisFrameAtTimeSimilarly(At(t))(nav);
      add(::ToV3(d.position()));
      add(::ToV3(d.velocity()));
      break;
    }
    case 2:
      add(::ToV3(frame.GeometricAcceleration(At(t), nav)));
      break;
    case 3:
      add(::ToV3(frame.RotationFreeGeometricAccelerationAtRest(
          At(t), nav.position())));
      break;
    case 4:
      result.push_back(frame.GeometricPotential(At(t), nav.position()) /
                       Pow<2>(Metre / Second));
      break;
    case 5:
      add(::ToV3(frame.FrenetFrame(At(t), nav)(
          Vector<double, Frenet<Nav>>({1, 2, 3}))));
      break;
  }
  return result;
}
}  // namespace

// What a frame says doesn't depend on what it said.
SEQ_HARNESS(order, .split = 2) {
  static std::vector<Spec> const specs{
      {Direction, {2}, {0}},      {Barycentric, {0}, {1}},
      {Barycentric, {0, 1}, {2}}, {Pulsating, {0}, {1, 2}},
      {Surface, {1}, {}},         {VesselDirection, {}, {0}}};
  Spec const spec = Pick(specs);
  Universe const& u = GetUniverse("RRRP");
  auto const frame = NewFrame(u, spec);
  std::string history = Name(spec);
  int const length = seq::Thorough() ? 4 : 3;
  for (int i = 0; i < length; ++i) {
    int const what = Choose(6);
    double const t = Pick(std::vector<double>{t0 + 5, t0 + 640});
    history += " " + std::to_string(what) + "@" + std::to_string(t);
    Notes(history);
    auto const actual = Say(*frame, what, t);
    if (i > 0) {
      Check(actual == Say(*NewFrame(u, spec), what, t),
            "the result depends on the previous ones");
    }
    seq::Step();
  }
}

// Equality, hashing, and serialization.
SEQ_HARNESS(identity) {
  static std::vector<Spec> const more{
      {Barycentric, {1, 0}, {2}}, {Barycentric, {2}, {0, 1}},
      {Pulsating, {1, 0}, {2}},   {Pulsating, {0}, {2, 1}},
      {Direction, {0}, {2}},      {Barycentric, {1}, {0}}};
  auto all = Rotatings();
  all.insert(all.end(), Bodies().begin(), Bodies().end());
  all.insert(all.end(), more.begin(), more.end());
  std::erase_if(all, [](Spec const& s) { return s.kind == VesselDirection; });
  Spec const spec1 = Pick(all);
  Spec const spec2 = Pick(all);
  Notes(Name(spec1), "; ", Name(spec2));
  Universe const& u = GetUniverse("RRRR");
  auto const set = [](std::vector<int> const& v) {
    return std::set<int>(v.begin(), v.end());
  };
  bool const same = spec1.kind == spec2.kind &&
                    set(spec1.primaries) == set(spec2.primaries) &&
                    set(spec1.secondaries) == set(spec2.secondaries);
  auto const frame1 = NewFrame(u, spec1);
  serialization::ReferenceFrame message;
  NewFrame(u, spec2)->WriteToMessage(&message);
  E const* const e = u.ephemeris.get();
  auto const frame2 = RF::ReadFromMessage(message, e);
  serialization::ReferenceFrame again;
  frame2->WriteToMessage(&again);
  CheckEq(again.SerializeAsString(), message.SerializeAsString(), "message");
  CheckEq(*frame1 == *frame2, same, "equality");
  if (same) {
    for (int what = 0; what < 6; ++what) {
      auto const say1 = Say(*NewFrame(u, spec2), what, t0 + 640);
      auto const say2 = Say(*frame2, what, t0 + 640);
      Check(say1 == say2, "reading changes the frame");
    }
  }
  using Key = ReferenceFrameKey<World, Nav>;
  auto const key = [](std::unique_ptr<RF const> frame) {
    return Key(check_not_null(std::move(frame)));
  };
  absl::flat_hash_set<Key> keys;
  keys.insert(key(NewFrame(u, spec1)));
  RF const* const raw = frame2.get();
  CheckEq(keys.contains(not_null<RF const*>(raw)), same,
          "lookup of the second frame");
  CheckEq(keys.contains(not_null<RF const*>(frame1.get())), true,
          "lookup of the first frame");
  keys.insert(key(NewFrame(u, spec2)));
  CheckEq((int)keys.size(), same ? 1 : 2, "number of distinct keys");
}

// C61: flight plans and manœuvres against a model of the rocket equation.
#include <array>
#include <limits>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "geometry/grassmann.hpp"
#include "geometry/permutation.hpp"
#include "harness/principia.h"
#include "integrators/embedded_explicit_generalized_runge_kutta_nyström_integrator.hpp"
#include "integrators/embedded_explicit_runge_kutta_nyström_integrator.hpp"
#include "integrators/methods.hpp"
#include "integrators/symplectic_runge_kutta_nyström_integrator.hpp"
#include "ksp_plugin/flight_plan.hpp"
#include "ksp_plugin/frames.hpp"
#include "physics/body_centred_non_rotating_reference_frame.hpp"
#include "physics/body_surface_reference_frame.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/ephemeris.hpp"
#include "physics/massive_body.hpp"
#include "physics/rotating_body.hpp"
#include "serialization/ksp_plugin.pb.h"

using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_permutation;
using namespace principia::geometry::_r3_element;
using namespace principia::integrators::_embedded_explicit_generalized_runge_kutta_nyström_integrator;
using namespace principia::integrators::_embedded_explicit_runge_kutta_nyström_integrator;
using namespace principia::integrators::_methods;
using namespace principia::integrators::_symplectic_runge_kutta_nyström_integrator;
using namespace principia::ksp_plugin::_flight_plan;
using namespace principia::ksp_plugin::_frames;
using namespace principia::physics::_body_centred_non_rotating_reference_frame;
using namespace principia::physics::_body_surface_reference_frame;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_discrete_trajectory;
using namespace principia::physics::_ephemeris;
using namespace principia::physics::_massive_body;
using namespace principia::physics::_reference_frame;
using namespace principia::physics::_rigid_reference_frame;
using namespace principia::physics::_rotating_body;
namespace serialization = principia::serialization;
using seq::Notes;

namespace {
using R = long double;
using V3 = std::array<R, 3>;
using E = Ephemeris<Barycentric>;
using Permuted = PermutedFrenet<Navigation>;
using FromPermuted = Permutation<Permuted, Frenet<Navigation>>;

V3 operator+(V3 const& a, V3 const& b) {
  return {a[0] + b[0], a[1] + b[1], a[2] + b[2]};
}
V3 operator-(V3 const& a, V3 const& b) {
  return {a[0] - b[0], a[1] - b[1], a[2] - b[2]};
}
V3 operator*(R const s, V3 const& a) { return {s * a[0], s * a[1], s * a[2]}; }
R Dot(V3 const& a, V3 const& b) {
  return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
V3 Cross(V3 const& a, V3 const& b) {
  return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
          a[0] * b[1] - a[1] * b[0]};
}
R Size(V3 const& a) { return std::sqrt(Dot(a, a)); }

Instant At(R const t) { return Instant() + (double)t * Second; }
R Seconds(Instant const& t) { return (t - Instant()) / Second; }
V3 Raw(auto const& v, auto const unit) {
  auto const c = v.coordinates();
  return {c.x / unit, c.y / unit, c.z / unit};
}

// A body at rest that turns about an axis, in natural units.
V3 const kSpin{0.12L, 0, 0.16L};

struct Universe {
  std::unique_ptr<E> ephemeris;
  std::shared_ptr<RigidReferenceFrame<Barycentric, Navigation> const> centred;
  std::shared_ptr<RigidReferenceFrame<Barycentric, Navigation> const> surface;
};

Universe const& TheUniverse() {
  static Universe const* const universe = [] {
    auto* const u = new Universe;
    std::vector<not_null<std::unique_ptr<MassiveBody const>>> bodies;
    bodies.emplace_back(make_not_null_unique<RotatingBody<Barycentric>>(
        MassiveBody::Parameters("body", 1 * Pow<3>(Metre) / Pow<2>(Second)),
        RotatingBody<Barycentric>::Parameters(
            0.01 * Metre, 0 * Radian, Instant(), 0.2 * Radian / Second,
            0 * Radian, std::atan2(0.16, 0.12) * Radian)));
    u->ephemeris = std::make_unique<E>(
        std::move(bodies),
        std::vector<DegreesOfFreedom<Barycentric>>{
            {Barycentric::origin, Barycentric::unmoving}},
        At(-1), E::AccuracyParameters(1 * Milli(Metre), 0),
        E::FixedStepParameters(
            SymplecticRungeKuttaNyströmIntegrator<
                BlanesMoan2002SRKN14A, E::NewtonianMotionEquation>(),
            1 * Second));
    (void)u->ephemeris->Prolong(At(100));
    auto const body = dynamic_cast_not_null<RotatingBody<Barycentric> const*>(
        u->ephemeris->bodies()[0]);
    u->centred = std::make_shared<
        BodyCentredNonRotatingReferenceFrame<Barycentric, Navigation>>(
        u->ephemeris.get(), body);
    u->surface =
        std::make_shared<BodySurfaceReferenceFrame<Barycentric, Navigation>>(
            u->ephemeris.get(), body);
    return u;
  }();
  return *universe;
}

struct BurnSpec {
  V3 Δv;
  R thrust;
  R isp;
  bool half;  // Whether `t` is the time of half Δv.
  R t;
  bool inertial;
  bool surface;
  int spherical = -1;  // The permutation, if any.
};

struct State {
  V3 q;
  V3 v;
};

V3 Gravity(V3 const& q) {
  R const d = Size(q);
  return (-1 / (d * d * d)) * q;
}

// The vector whose coordinates are given in the Frenet frame.
V3 FromFrenet(State const& s, V3 const& d, bool const surface) {
  V3 v = s.v;
  V3 a = Gravity(s.q);
  if (surface) {
    v = v - Cross(kSpin, s.q);
    a = a - 2.0L * Cross(kSpin, v) - Cross(kSpin, Cross(kSpin, s.q));
  }
  V3 const t = (1 / Size(v)) * v;
  V3 n = a - Dot(a, t) * t;
  n = (1 / Size(n)) * n;
  return d[0] * t + d[1] * n + d[2] * Cross(t, n);
}

struct Computed {
  R m0;
  R m1;
  R start;
  R half;
  R end;
};

Computed Compute(R const m0, BurnSpec const& b) {
  Computed c;
  c.m0 = m0;
  c.m1 = m0 * std::exp(-Size(b.Δv) / b.isp);
  R const flow = b.thrust / b.isp;
  R const duration = (c.m0 - c.m1) / flow;
  R const to_half = m0 * (1 - std::exp(-Size(b.Δv) / (2 * b.isp))) / flow;
  c.start = b.half ? b.t - to_half : b.t;
  c.half = c.start + to_half;
  c.end = c.start + duration;
  return c;
}

template<typename A>
State Flow(State s, R const t0, R const t1, A const& acceleration) {
  int const n = 1 + std::ceil((t1 - t0) / 0.01L);
  R const h = (t1 - t0) / n;
  for (int i = 0; i < n; ++i) {
    R const t = t0 + i * h;
    V3 const a1 = acceleration(t, s);
    State const s2{s.q + (h / 2) * s.v, s.v + (h / 2) * a1};
    V3 const a2 = acceleration(t + h / 2, s2);
    State const s3{s.q + (h / 2) * s2.v, s.v + (h / 2) * a2};
    V3 const a3 = acceleration(t + h / 2, s3);
    State const s4{s.q + h * s3.v, s.v + h * a3};
    V3 const a4 = acceleration(t + h, s4);
    s = {s.q + (h / 6) * (s.v + 2.0L * s2.v + 2.0L * s3.v + s4.v),
         s.v + (h / 6) * (a1 + 2.0L * a2 + 2.0L * a3 + a4)};
  }
  return s;
}

State Coast(State const& s, R const t0, R const t1) {
  return Flow(s, t0, t1, [](R, State const& s) { return Gravity(s.q); });
}

State Burn(State const& s, BurnSpec const& b, Computed const& c) {
  R const size = Size(b.Δv);
  V3 const direction = size == 0 ? V3{} : (1 / size) * b.Δv;
  V3 const fixed = FromFrenet(s, direction, b.surface);
  return Flow(s, c.start, c.end, [&](R const t, State const& s) {
    V3 const d = b.inertial ? fixed : FromFrenet(s, direction, b.surface);
    return Gravity(s.q) +
           (b.thrust / (c.m0 - (t - c.start) * b.thrust / b.isp)) * d;
  });
}

FromPermuted PermutationOf(int const k) {
  return FromPermuted(k == 0   ? EvenPermutation::XYZ
                      : k == 1 ? EvenPermutation::YZX
                               : EvenPermutation::ZXY);
}

NavigationManœuvre::Intensity IntensityOf(BurnSpec const& b) {
  auto const u = Metre / Second;
  Velocity<Frenet<Navigation>> const Δv(
      {(double)b.Δv[0] * u, (double)b.Δv[1] * u, (double)b.Δv[2] * u});
  if (b.spherical < 0) return NavigationManœuvre::Intensity(Δv.coordinates());
  auto const p = PermutationOf(b.spherical);
  V3 const c = Raw(p.Inverse()(Δv), u);
  SphericalCoordinates<Speed> s;
  s.radius = (double)Size(c) * u;
  s.latitude =
      (double)std::atan2(c[2], std::sqrt(c[0] * c[0] + c[1] * c[1])) * Radian;
  s.longitude = (double)std::atan2(c[1], c[0]) * Radian;
  return NavigationManœuvre::Intensity(p, s);
}

NavigationManœuvre::Burn BurnOf(BurnSpec const& b) {
  NavigationManœuvre::Timing timing;
  if (b.half) {
    timing.time_of_half_Δv = At(b.t);
  } else {
    timing.initial_time = At(b.t);
  }
  return {IntensityOf(b), timing, (double)b.thrust * Newton,
          (double)b.isp * Newton * Second / Kilogram,
          check_not_null(b.surface ? TheUniverse().surface
                                   : TheUniverse().centred),
          b.inertial};
}

std::vector<BurnSpec> const& Burns() {
  static std::vector<BurnSpec> const burns{
      {{0.05L, 0, 0}, 0.5L, 1, false, 1, true, false},
      {{0, 0.2L, -0.1L}, 0.3L, 0.5L, true, 2, true, true, 1},
      {{-0.3L, 0.1L, 0}, 1, 0.4L, false, 2.4L, false, false},
      {{0.6L, 0, 0.3L}, 0.6L, 1, true, 3, false, true},
      {{0, 0, 0}, 1, 1, false, 0.5L, true, false, 2},
      {{1e200L, 0, 0}, 1, 1, false, 3.5L, true, false}};
  return burns;
}

State const kInitial{{1, 0, 0}, {0, 1, 0.125L}};
R constexpr kTolerance = 2e-6L;

E::AdaptiveStepParameters Adaptive(bool const limited) {
  return E::AdaptiveStepParameters(
      EmbeddedExplicitRungeKuttaNyströmIntegrator<
          DormandالمكاوىPrince1986RKN434FM, E::NewtonianMotionEquation>(),
      limited ? 25 : 100'000, 1e-9 * Metre, 1e-9 * Metre / Second);
}
E::GeneralizedAdaptiveStepParameters Generalized(bool const limited) {
  return E::GeneralizedAdaptiveStepParameters(
      EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<
          Fine1987RKNG34, E::GeneralizedNewtonianMotionEquation>(),
      limited ? 25 : 100'000, 1e-9 * Metre, 1e-9 * Metre / Second);
}

struct Model {
  R initial_mass = 1;
  R desired = 5;
  bool limited = false;
  std::vector<BurnSpec> burns;

  std::vector<Computed> Times() const {
    std::vector<Computed> result;
    R m = initial_mass;
    for (auto const& b : burns) {
      result.push_back(Compute(m, b));
      m = result.back().m1;
    }
    return result;
  }
};

}  // namespace

SEQ_HARNESS(flight_plans, .split = 3) {
  E* const ephemeris = TheUniverse().ephemeris.get();
  int const depth = seq::Thorough() ? 4 : 3;
  Model model;
  auto plan = std::make_unique<FlightPlan>(
      (double)model.initial_mass * Kilogram, At(0),
      DegreesOfFreedom<Barycentric>(
          Barycentric::origin +
              Displacement<Barycentric>({(double)kInitial.q[0] * Metre,
                                         (double)kInitial.q[1] * Metre,
                                         (double)kInitial.q[2] * Metre}),
          Velocity<Barycentric>({(double)kInitial.v[0] * Metre / Second,
                                 (double)kInitial.v[1] * Metre / Second,
                                 (double)kInitial.v[2] * Metre / Second})),
      At(model.desired), ephemeris, Adaptive(false), Generalized(false));
  plan->EnableAnalysis(false);

  auto const check_state = [&](std::string const& what, Instant const& t,
                              DegreesOfFreedom<Barycentric> const& dof,
                              R const expected_t, State const& s) {
    Check(std::abs(Seconds(t) - expected_t) < 1e-9L, what, " (", plan->anomalous_status().ToString(), ") is at ",
          (double)Seconds(t), " instead of ", (double)expected_t);
    V3 const q = Raw(dof.position() - Barycentric::origin, Metre);
    V3 const v = Raw(dof.velocity(), Metre / Second);
    Check(Size(q - s.q) < kTolerance && Size(v - s.v) < kTolerance, what,
          " at ", (double)expected_t, " is off by ", (double)Size(q - s.q),
          " m and ", (double)Size(v - s.v), " m/s");
  };

  // Checks everything; the returned status must be the one of the plan.
  auto const check = [&](absl::Status const* const status) {
    auto const times = model.Times();
    int const n = times.size();
    CheckEq(plan->number_of_manœuvres(), n, "manœuvres");
    for (int i = 0; i < n; ++i) {
      auto const& m = plan->GetManœuvre(i);
      Check(std::abs(m.initial_mass() / Kilogram - times[i].m0) < 1e-12L,
            "manœuvre ", i, " has the initial mass ",
            m.initial_mass() / Kilogram, " instead of ", (double)times[i].m0);
      Check(std::abs(m.final_mass() / Kilogram - times[i].m1) < 1e-12L,
            "manœuvre ", i, " has the final mass ", m.final_mass() / Kilogram,
            " instead of ", (double)times[i].m1);
      Check(std::abs(Seconds(m.initial_time()) - times[i].start) < 1e-12L &&
                std::abs(Seconds(m.time_of_half_Δv()) - times[i].half) <
                    1e-12L &&
                std::abs(Seconds(m.final_time()) - times[i].end) < 1e-12L,
            "manœuvre ", i, " is from ", (double)Seconds(m.initial_time()),
            " to ", (double)Seconds(m.final_time()), " instead of ",
            (double)times[i].start, " to ", (double)times[i].end);
      Check(Size(Raw(m.Δv(), Metre / Second) - model.burns[i].Δv) < 1e-14L,
            "Δv of manœuvre ", i);
    }
    int const segments = 2 * n + 1;
    CheckEq(plan->number_of_segments(), segments, "segments");
    // The first anomalous segment.
    int first = segments;
    State s = kInitial;
    R t = 0;
    for (int i = 0; i < segments; ++i) {
      auto const segment = plan->GetSegment(i);
      std::string const name = "segment " + std::to_string(i);
      Check(segment->size() >= 1, name, " is empty");
      if (first < segments) {
        CheckEq(segment->size(), 1, name, " follows an anomalous one");
        continue;
      }
      check_state("start of " + name, segment->front().time,
                  segment->front().degrees_of_freedom, t, s);
      R end;
      State next;
      if (i % 2 == 1) {
        end = times[i / 2].end;
        next = Burn(s, model.burns[i / 2], times[i / 2]);
      } else if (i / 2 < n) {
        end = times[i / 2].start;
        if (end < t) {
          // The burn doesn't fit anymore because of the masses.
          first = i;
          CheckEq(segment->size(), 1, name, " cannot be flown");
          continue;
        }
        next = Coast(s, t, end);
      } else {
        model.desired = std::max(model.desired, t);
        end = model.desired;
        next = Coast(s, t, end);
      }
      R const actual = Seconds(segment->back().time);
      if (model.limited && actual < end - 1e-6L) {
        first = i;
        continue;
      }
      check_state("end of " + name, segment->back().time,
                  segment->back().degrees_of_freedom, end, next);
      t = end;
      s = next;
    }
    Check(std::abs(Seconds(plan->desired_final_time()) - model.desired) <
              1e-12L,
          "desired final time ", (double)Seconds(plan->desired_final_time()),
          " instead of ", (double)model.desired);
    int const anomalous = segments - first;
    CheckEq(plan->number_of_anomalous_manœuvres(), std::max(anomalous - 1, 0) / 2,
            "anomalous manœuvres");
    CheckEq(plan->anomalous_status().ok(), anomalous == 0, "ok");
    if (status != nullptr) {
      Check(*status == plan->anomalous_status(), "status");
    }
    Check(plan->actual_final_time() ==
              plan->GetSegment(segments - 1)->back().time,
          "actual final time");
    if (anomalous == 0) {
      Check(plan->actual_final_time() == plan->desired_final_time(),
            "final time");
    }
    // All the points, in order.
    R last = -1;
    for (auto const& [time, _] : plan->GetAllSegments()) {
      Check(Seconds(time) > last, "not increasing at ", (double)last);
      last = Seconds(time);
    }
    Check(plan->GetAllSegmentsAvoidingDeadlines().back().time ==
              plan->actual_final_time(),
          "avoiding deadlines");
    Check(plan->initial_time() == At(0), "initial time");
  };

  check(nullptr);
  auto const& burns = Burns();
  for (int step = 0; step < depth; ++step) {
    int const n = model.burns.size();
    auto const times = model.Times();
    // The ones that are not meant to be first.
    int const inserts = burns.size() * (n + 1);
    int const replaces = burns.size() * n;
    int op = Choose(inserts + replaces + n + 4 + 3);
    if (op < inserts) {
      int const index = op / burns.size();
      BurnSpec const b = burns[op % burns.size()];
      Notes("insert burn ", op % (int)burns.size(), " at ", index);
      auto const status = plan->Insert(BurnOf(b), index);
      Computed const c =
          Compute(index == 0 ? model.initial_mass : times[index - 1].m1, b);
      bool const singular = Size(b.Δv) > 1e154L;
      bool const fits =
          c.start > (index == 0 ? 0 : times[index - 1].end) &&
          c.end < (index == n ? model.desired : times[index].start);
      if (singular || !fits) {
        Check(!status.ok() &&
                  status.code() == (singular ? FlightPlan::singular
                                             : FlightPlan::does_not_fit),
              "insertion should fail");
        check(nullptr);
      } else {
        model.burns.insert(model.burns.begin() + index, b);
        check(&status);
      }
      continue;
    }
    op -= inserts;
    if (op < replaces) {
      int const index = op / burns.size();
      BurnSpec const b = burns[op % burns.size()];
      Notes("replace ", index, " by burn ", op % (int)burns.size());
      auto const status = plan->Replace(BurnOf(b), index);
      Computed const c = Compute(times[index].m0, b);
      bool const singular = Size(b.Δv) > 1e154L;
      bool const fits = c.start > (index == 0 ? 0 : times[index - 1].end) &&
                        (index == n - 1 || c.end < times[index + 1].start);
      if (singular || !fits) {
        Check(!status.ok() &&
                  status.code() == (singular ? FlightPlan::singular
                                             : FlightPlan::does_not_fit),
              "replacement should fail");
        check(nullptr);
      } else {
        model.burns[index] = b;
        if (index == n - 1) model.desired = std::max(model.desired, c.end);
        check(&status);
      }
      continue;
    }
    op -= replaces;
    if (op < n) {
      Notes("remove ", op);
      auto const status = plan->Remove(op);
      model.burns.erase(model.burns.begin() + op);
      check(&status);
      continue;
    }
    op -= n;
    if (op < 4) {
      R const final = std::array<R, 4>{7, 4, 2.5L, 1.125L}[op];
      Notes("set the desired final time to ", (double)final);
      auto const status = plan->SetDesiredFinalTime(At(final));
      if (final < (n == 0 ? 0 : times.back().end)) {
        Check(status.code() == FlightPlan::bad_desired_final_time,
              "should be rejected");
        check(nullptr);
      } else {
        model.desired = final;
        check(&status);
      }
      continue;
    }
    op -= 4;
    if (op == 0) {
      model.limited = !model.limited;
      Notes(model.limited ? "limit the steps" : "don't limit the steps");
      auto const status = plan->SetAdaptiveStepParameters(
          Adaptive(model.limited), Generalized(model.limited));
      check(&status);
      CheckEq(plan->adaptive_step_parameters().max_steps(),
              model.limited ? 25 : 100'000, "steps");
    } else if (op == 1) {
      Notes("copy");
      auto const status = plan->anomalous_status();
      plan = std::make_unique<FlightPlan>(*plan);
      check(&status);
    } else {
      Notes("save and read");
      serialization::FlightPlan message;
      plan->WriteToMessage(&message);
      plan = FlightPlan::ReadFromMessage(message, ephemeris);
      plan->EnableAnalysis(false);
      // Only the initial time is saved.
      for (int i = 0; i < n; ++i) {
        model.burns[i].half = false;
        model.burns[i].t = times[i].start;
      }
      check(nullptr);
    }
  }
}

SEQ_HARNESS(manœuvres, .split = 2) {
  static std::vector<V3> const Δvs{{1, 0, 0},  {0, -2, 0},  {0, 0, 3},
                                   {1, 2, -2}, {-1, 0.5L, 4}, {0, 0, 0},
                                   {-0.001L, 0, 0}, {1e-3L, -700, 20}};
  static std::vector<std::array<R, 2>> const engines{
      {1, 1}, {200e3L, 3000}, {0.5L, 50e3L}, {1e3L, 4}};
  static std::vector<R> const masses{1, 12345, 0.25L};
  V3 const Δv = seq::Pick(Δvs);
  auto const engine = seq::Pick(engines);
  R const mass = seq::Pick(masses);
  BurnSpec b{Δv, engine[0], engine[1], Choose(2) == 1, 3, Choose(2) == 1,
             Choose(2) == 1};
  b.spherical = Choose(4) - 1;
  Notes("Δv ", (double)Δv[0], " ", (double)Δv[1], " ", (double)Δv[2],
        " thrust ", (double)b.thrust, " isp ", (double)b.isp, " mass ",
        (double)mass, " permutation ", b.spherical);
  Computed const c = Compute(mass, b);
  R const size = Size(Δv);
  auto const u = Metre / Second;
  NavigationManœuvre original((double)mass * Kilogram, BurnOf(b));
  serialization::Manoeuvre message;
  original.WriteToMessage(&message);
  NavigationManœuvre read = NavigationManœuvre::ReadFromMessage(
      message, TheUniverse().ephemeris.get());
  int which = 0;
  for (NavigationManœuvre* const p : {&original, &read}) {
    NavigationManœuvre& m = *p;
    std::string const what = which++ == 0 ? "" : "read, ";
    R const scale = 1e-13L * (1 + std::abs(c.start) + c.end - c.start);
    auto const near = [&](R const actual, R const expected, R const tolerance,
                          char const* const name) {
      Check(std::abs(actual - expected) <= tolerance, what, name, " is ",
            (double)actual, " instead of ", (double)expected);
    };
    near(m.initial_mass() / Kilogram, c.m0, 0, "initial mass");
    near(m.final_mass() / Kilogram, c.m1, 1e-14L * mass, "final mass");
    near(m.mass_flow() / (Kilogram / Second), b.thrust / b.isp,
         1e-15L * b.thrust / b.isp, "mass flow");
    // The difference of masses is ill-conditioned.
    R const ill = 1e-15L * mass * b.isp / b.thrust;
    near(m.duration() / Second, c.end - c.start, scale + ill, "duration");
    near(m.time_to_half_Δv() / Second, c.half - c.start, scale + ill,
         "time to half Δv");
    near(Seconds(m.initial_time()), c.start, scale + ill, "initial time");
    near(Seconds(m.time_of_half_Δv()), c.half, scale + ill, "half Δv");
    near(Seconds(m.final_time()), c.end, scale + 2 * ill, "final time");
    Check(Size(Raw(m.Δv(), u) - Δv) <= 1e-15L * size, what, "Δv");
    Check(Size(Raw(m.direction(), 1.0) -
               (size == 0 ? V3{} : (1 / size) * Δv)) < 1e-15L,
          what, "direction");
    CheckEq(m.IsSingular(), false, what, "singular");
    CheckEq(m.is_inertially_fixed(), b.inertial, what, "inertially fixed");
    CheckEq(m.frame() == check_not_null(b.surface ? TheUniverse().surface
                                                  : TheUniverse().centred) ||
                which == 2,
            true, "frame");
    Instant const start = m.initial_time();
    Instant const end = m.final_time();
    Time const ε = 1 * Milli(Second);
    CheckEq(m.IsAfter(start - ε), true, what, "is after");
    CheckEq(m.IsAfter(start), false, what, "is after its start");
    CheckEq(m.FitsBetween(start - ε, end + ε), true, what, "fits");
    CheckEq(m.FitsBetween(start, end + ε), false, what, "fits at the start");
    CheckEq(m.FitsBetween(start - ε, end), false, what, "fits at the end");
    // The coordinates.
    auto intensity = m.intensity();
    CheckEq(intensity.has_spherical_coordinates(), b.spherical >= 0, what,
            "spherical");
    for (int pass = 0; pass < 2; ++pass) {
      V3 expected = pass == 0 ? Δv : V3{-2, 5, 0.25L};
      if (pass == 1) {
        intensity.set_Δv(
            Velocity<Frenet<Navigation>>({-2 * u, 5 * u, 0.25 * u}));
      }
      R const tolerance = 1e-15L * (1 + Size(expected));
      V3 const cartesian{intensity.Δv_cartesian_coordinates().x / u,
                         intensity.Δv_cartesian_coordinates().y / u,
                         intensity.Δv_cartesian_coordinates().z / u};
      Check(Size(cartesian - expected) <= tolerance, what, "cartesian");
      Check(Size(Raw(intensity.Δv(), u) - expected) <= tolerance, what, "Δv");
      if (Size(expected) > 0) {
        Check(Size(Raw(intensity.direction(), 1.0) -
                   (1 / Size(expected)) * expected) <= 1e-15L,
              what, "direction");
      }
      auto const s = intensity.Δv_spherical_coordinates();
      R const lat = s.latitude / Radian;
      R const lon = s.longitude / Radian;
      R const r = s.radius / u;
      V3 const v{r * std::cos(lat) * std::cos(lon),
                 r * std::cos(lat) * std::sin(lon), r * std::sin(lat)};
      // The images of the axes of the spherical coordinates.
      V3 w = v;
      if (b.spherical >= 0) {
        V3 const x = Raw(intensity.permutation()(Velocity<Permuted>(
                             {(double)v[0] * u, (double)v[1] * u,
                              (double)v[2] * u})),
                         u);
        w = x;
      }
      Check(Size(w - expected) <= 4 * tolerance, what,
            "spherical coordinates");
    }
    // The acceleration.
    State const s = kInitial;
    DiscreteTrajectory<Barycentric> coast;
    DegreesOfFreedom<Barycentric> const dof(
        Barycentric::origin + Displacement<Barycentric>(
                                  {1 * Metre, 0 * Metre, 0 * Metre}),
        Velocity<Barycentric>({0 * u, 1 * u, 0.125 * u}));
    if (start > At(-0.5) && start < At(90)) {
      (void)coast.Append(start, dof);
      m.set_coasting_trajectory(coast.segments().begin());
      V3 const direction = FromFrenet(
          s, size == 0 ? V3{} : (1 / size) * Δv, b.surface);
      V3 const tangent = FromFrenet(s, {1, 0, 0}, b.surface);
      Check(Size(Raw(m.FrenetFrame()(
                     Vector<double, Frenet<Navigation>>({1, 0, 0})), 1.0) -
                 tangent) < 1e-14L,
            what, "tangent");
      if (b.inertial) {
        Check(Size(Raw(m.InertialDirection(), 1.0) - direction) < 1e-14L, what,
              "inertial direction");
      }
      // At times in the burn and out of it.
      for (R const f : {-0.25L, 0.0L, 0.5L, 0.875L, 1.25L}) {
        R const offset = f * (c.end - c.start);
        if (size == 0 || (f < 0 && offset > -1e-3L)) continue;
        Instant const t = f == 0 ? start : start + (double)offset * Second;
        if (t > At(90) || t < At(-0.5L)) continue;
        auto const a =
            b.inertial ? m.InertialIntrinsicAcceleration()(t)
                       : m.FrenetIntrinsicAcceleration()(t, dof);
        V3 expected{};
        if (f >= 0 && f <= 1) {
          expected =
              (b.thrust / (mass - offset * b.thrust / b.isp)) * direction;
        }
        Check(Size(Raw(a, Metre / Second / Second) - expected) <=
                  1e-8L * Size(expected),
              what, "acceleration at ", (double)f, " of the burn is off by ",
              (double)Size(Raw(a, Metre / Second / Second) - expected));
      }
    }
  }
}

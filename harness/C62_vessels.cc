// C62: vessels: histories, predictions, parts and flight plans.
#include <array>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "geometry/grassmann.hpp"
#include "geometry/permutation.hpp"
#include "harness/principia.h"
#include "integrators/embedded_explicit_generalized_runge_kutta_nyström_integrator.hpp"
#include "integrators/embedded_explicit_runge_kutta_nyström_integrator.hpp"
#include "integrators/methods.hpp"
#include "integrators/symplectic_runge_kutta_nyström_integrator.hpp"
#include "ksp_plugin/celestial.hpp"
#include "ksp_plugin/flight_plan.hpp"
#include "ksp_plugin/frames.hpp"
#include "ksp_plugin/identification.hpp"
#include "ksp_plugin/integrators.hpp"
#include "ksp_plugin/part.hpp"
#include "ksp_plugin/pile_up.hpp"
#include "ksp_plugin/vessel.hpp"
#include "physics/body_centred_non_rotating_reference_frame.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/ephemeris.hpp"
#include "physics/massive_body.hpp"
#include "physics/rigid_motion.hpp"
#include "physics/rotating_body.hpp"
#include "physics/tensors.hpp"
#include "serialization/ksp_plugin.pb.h"

using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_permutation;
using namespace principia::geometry::_r3x3_matrix;
using namespace principia::geometry::_r3_element;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_space_transformations;
using namespace principia::integrators::_embedded_explicit_generalized_runge_kutta_nyström_integrator;
using namespace principia::integrators::_embedded_explicit_runge_kutta_nyström_integrator;
using namespace principia::integrators::_methods;
using namespace principia::integrators::_symplectic_runge_kutta_nyström_integrator;
using namespace principia::ksp_plugin::_celestial;
using namespace principia::ksp_plugin::_flight_plan;
using namespace principia::ksp_plugin::_frames;
using namespace principia::ksp_plugin::_identification;
using namespace principia::ksp_plugin::_integrators;
using namespace principia::ksp_plugin::_part;
using namespace principia::ksp_plugin::_pile_up;
using namespace principia::ksp_plugin::_vessel;
using namespace principia::physics::_body_centred_non_rotating_reference_frame;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_discrete_trajectory_segment;
using namespace principia::physics::_ephemeris;
using namespace principia::physics::_massive_body;
using namespace principia::physics::_reference_frame;
using namespace principia::physics::_rigid_motion;
using namespace principia::physics::_rigid_reference_frame;
using namespace principia::physics::_rotating_body;
using namespace principia::physics::_tensors;
namespace serialization = principia::serialization;
using seq::Notes;

namespace {
using R = long double;
using V3 = std::array<R, 3>;
using E = Ephemeris<Barycentric>;

V3 operator+(V3 const& a, V3 const& b) {
  return {a[0] + b[0], a[1] + b[1], a[2] + b[2]};
}
V3 operator-(V3 const& a, V3 const& b) {
  return {a[0] - b[0], a[1] - b[1], a[2] - b[2]};
}
V3 operator*(R const s, V3 const& a) { return {s * a[0], s * a[1], s * a[2]}; }
R Dot(V3 const& a, V3 const& b) {
  return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
R Size(V3 const& a) { return std::sqrt(Dot(a, a)); }
V3 Raw(auto const& v, auto const unit) {
  auto const c = v.coordinates();
  return {c.x / unit, c.y / unit, c.z / unit};
}
Instant At(R const t) { return Instant() + (double)t * Second; }
R Seconds(Instant const& t) { return (t - Instant()) / Second; }

double const kμ = 4e14;

struct Point {
  R t;
  V3 q;
  V3 v;
};

Point PointOf(Instant const& t, DegreesOfFreedom<Barycentric> const& dof) {
  return {Seconds(t), Raw(dof.position() - Barycentric::origin, Metre),
          Raw(dof.velocity(), Metre / Second)};
}

// The Kepler orbit.
Point Fall(Point const& p, R const t) {
  R const dt = t - p.t;
  R const r = Size(p.q);
  R const a = 1 / (2 / r - Dot(p.v, p.v) / kμ);
  R const n = std::sqrt(kμ / a) / a;
  R const es = Dot(p.q, p.v) / std::sqrt(kμ * a);
  R const ec = 1 - r / a;
  // The change of the eccentric anomaly.
  R x = n * dt;
  for (int i = 0; i < 100; ++i) {
    R const f = x - ec * std::sin(x) + es * (1 - std::cos(x)) - n * dt;
    R const d = f / (1 - ec * std::cos(x) + es * std::sin(x));
    x -= d;
    if (std::abs(d) < 1e-17L * (1 + std::abs(x))) break;
  }
  R const f = 1 - a / r * (1 - std::cos(x));
  R const g = dt - (x - std::sin(x)) / n;
  V3 const q = f * p.q + g * p.v;
  R const r1 = Size(q);
  R const fd = -std::sqrt(kμ * a) / (r1 * r) * std::sin(x);
  R const gd = 1 - a / r1 * (1 - std::cos(x));
  return {t, q, fd * p.q + gd * p.v};
}

struct Space {
  std::unique_ptr<E> ephemeris;
  std::unique_ptr<Celestial> celestial;
  std::shared_ptr<RigidReferenceFrame<Barycentric, Navigation> const> frame;
};

Space& TheSpace() {
  static Space* const space = [] {
    auto* const s = new Space;
    std::vector<not_null<std::unique_ptr<MassiveBody const>>> bodies;
    bodies.emplace_back(make_not_null_unique<RotatingBody<Barycentric>>(
        MassiveBody::Parameters("body", kμ * Pow<3>(Metre) / Pow<2>(Second)),
        RotatingBody<Barycentric>::Parameters(
            1000 * Metre, 0 * Radian, Instant(), 1e-4 * Radian / Second,
            0 * Radian, 1 * Radian)));
    s->ephemeris = std::make_unique<E>(
        std::move(bodies),
        std::vector<DegreesOfFreedom<Barycentric>>{
            {Barycentric::origin, Barycentric::unmoving}},
        At(-1000), E::AccuracyParameters(1 * Milli(Metre), 0),
        E::FixedStepParameters(
            SymplecticRungeKuttaNyströmIntegrator<
                BlanesMoan2002SRKN14A, E::NewtonianMotionEquation>(),
            1000 * Second));
    (void)s->ephemeris->Prolong(At(20'000));
    auto const body = dynamic_cast_not_null<RotatingBody<Barycentric> const*>(
        s->ephemeris->bodies()[0]);
    s->celestial = std::make_unique<Celestial>(body);
    s->celestial->set_trajectory(s->ephemeris->trajectory(body));
    s->frame = std::make_shared<
        BodyCentredNonRotatingReferenceFrame<Barycentric, Navigation>>(
        s->ephemeris.get(), body);
    Vessel::MakeSynchronous();
    return s;
  }();
  return *space;
}

E::AdaptiveStepParameters Adaptive(std::int64_t const max_steps,
                                   double const tolerance) {
  return E::AdaptiveStepParameters(
      EmbeddedExplicitRungeKuttaNyströmIntegrator<
          DormandالمكاوىPrince1986RKN434FM, E::NewtonianMotionEquation>(),
      max_steps, tolerance * Metre, tolerance * Metre / Second);
}

using Downsampling =
    DiscreteTrajectorySegment<Barycentric>::DownsamplingParameters;

std::unique_ptr<Vessel> NewVessel(bool const downsampling) {
  auto v = std::make_unique<Vessel>(
      "guid", "name", TheSpace().celestial.get(), TheSpace().ephemeris.get(),
      Adaptive(50, 1e-3),
      Downsampling{.tolerance = (downsampling ? 10 : 1e-9) * Metre});
  if (!downsampling) v->DisableDownsampling();
  return v;
}

std::unique_ptr<Part> NewPart(PartId const id, R const m, V3 const& q,
                              V3 const& v) {
  auto const u = Kilogram * Metre * Metre;
  return std::make_unique<Part>(
      id, "part" + std::to_string(id), (double)m * Kilogram,
      EccentricPart::origin,
      InertiaTensor<RigidPart>(R3x3Matrix<MomentOfInertia>(
          {(double)m * u, 0 * u, 0 * u}, {0 * u, 2 * (double)m * u, 0 * u},
          {0 * u, 0 * u, 2.5 * (double)m * u})),
      RigidMotion<EccentricPart, Barycentric>::MakeNonRotatingMotion(
          {Barycentric::origin +
               Displacement<Barycentric>({(double)q[0] * Metre,
                                          (double)q[1] * Metre,
                                          (double)q[2] * Metre}),
           Velocity<Barycentric>({(double)v[0] * Metre / Second,
                                  (double)v[1] * Metre / Second,
                                  (double)v[2] * Metre / Second})}),
      nullptr);
}

Point Barycentre(std::vector<std::pair<R, Point>> const& points) {
  R m = 0;
  Point p{points[0].second.t, {}, {}};
  for (auto const& [mass, point] : points) {
    m += mass;
    p.q = p.q + mass * point.q;
    p.v = p.v + mass * point.v;
  }
  p.q = (1 / m) * p.q;
  p.v = (1 / m) * p.v;
  return p;
}

}  // namespace

SEQ_HARNESS(vessel_histories, .split = 3, .hang_s = 20) {
  auto& space = TheSpace();
  E* const ephemeris = space.ephemeris.get();
  bool const downsampling = Choose(2);
  int const depth = seq::Thorough() ? 5 : 4;
  Notes(downsampling ? "with" : "without", " downsampling");
  std::unique_ptr<Vessel> vessel = NewVessel(downsampling);
  std::unique_ptr<Part> other;  // A part of another vessel.
  std::array<R, 2> masses{300, 100};
  V3 const q0{7e6L, 0, 0};
  V3 const v0{0, 7600, 100};
  vessel->AddPart(NewPart(1, masses[0], q0, v0));
  vessel->AddPart(NewPart(2, masses[1], q0 + V3{4, 0, 0}, v0));
  other = NewPart(3, 50, q0 + V3{0, 8, 0}, v0);
  vessel->KeepPart(1);
  vessel->KeepPart(2);
  vessel->FreeParts();
  R now = 0;
  vessel->CreateTrajectoryIfNeeded(At(now));
  bool docked = false;
  int saved = 0;
  bool has_docked = false;

  // The piles.
  struct Piles {
    std::shared_ptr<PileUp> own;
    std::shared_ptr<PileUp> other;
  } piles;
  auto const adaptive = Adaptive(100'000, 1e-3);
  auto const pile = [&] {
    for (PartId const id : {1, 2}) {
      vessel->part(id)->reset_containing_pile_up();
    }
    other->reset_containing_pile_up();
    piles.own = nullptr;
    piles.other = nullptr;
    std::list<not_null<Part*>> parts{vessel->part(1), vessel->part(2)};
    if (docked) parts.push_back(other.get());
    piles.own = std::make_shared<PileUp>(
        std::move(parts), At(now), adaptive, DefaultHistoryParameters(),
        ephemeris, nullptr);
    for (PartId const id : {1, 2}) {
      vessel->part(id)->set_containing_pile_up(check_not_null(piles.own));
    }
    if (!docked) {
      piles.other = std::make_shared<PileUp>(
          std::list<not_null<Part*>>{other.get()}, At(now), adaptive,
          DefaultHistoryParameters(), ephemeris, nullptr);
    }
    other->set_containing_pile_up(
        check_not_null(docked ? piles.own : piles.other));
  };
  pile();

  // Everywhere the vessel has been.
  std::vector<Point> truth{PointOf(
      At(now), vessel->trajectory().back().degrees_of_freedom)};
  int history_size = 1;  // The points of the truth that are not tentative.

  bool is_fresh = true;  // The prediction.
  auto const check = [&](std::string const& what, R const since) {
    auto const& trajectory = vessel->trajectory();
    R const t_min = Seconds(trajectory.front().time);
    if (!saved || since < 0) {
      CheckEq((double)t_min, (double)truth[0].t, what, ": start");
    } else {
      Check(t_min <= since, what, ": starts at ", (double)t_min);
    }
    R last = -1e9L;
    for (auto const& [time, _] : trajectory) {
      Check(Seconds(time) > last, what, ": not increasing");
      last = Seconds(time);
    }
    auto const psychohistory = vessel->psychohistory();
    auto const prediction = vessel->prediction();
    CheckEq((double)Seconds(psychohistory->back().time), (double)now, what,
            ": end of the psychohistory");
    CheckEq((double)Seconds(psychohistory->front().time),
            (double)truth[history_size - 1].t, what,
            ": end of the history");
    CheckEq((double)Seconds(prediction->front().time), (double)now, what,
            ": start of the prediction");
    Check(std::next(psychohistory) == prediction &&
              std::next(prediction) == trajectory.segments().end(),
          what, ": segments after the psychohistory");
    Check(prediction->front().degrees_of_freedom ==
              psychohistory->back().degrees_of_freedom,
          what, ": prediction detached");
    // The points.
    int const n = truth.size();
    R const tolerance = downsampling ? 10.5L + 12 * saved : saved ? 0.05L : 2e-3L;
    for (int i = 0; i < n; ++i) {
      auto const& p = truth[i];
      if (p.t < t_min) continue;
      if (n > 400 && i > 100 && i < n - 100 && i % 61 != 0) continue;
      V3 const q = Raw(trajectory.EvaluatePosition(At(p.t)) -
                           Barycentric::origin,
                       Metre);
      Check(Size(q - p.q) < tolerance, what, ": position at ", (double)p.t,
            " is off by ", (double)Size(q - p.q));
    }
    if (!downsampling && !saved) {
      auto it = trajectory.begin();
      for (int i = 0; i < n; ++i, ++it) {
        Check(it != trajectory.end() && Seconds(it->time) == truth[i].t, what,
              ": no point at ", (double)truth[i].t);
        Point const p = PointOf(it->time, it->degrees_of_freedom);
        Check(Size(p.q - truth[i].q) < 1e-6L &&
                  Size(p.v - truth[i].v) < 1e-6L,
              what, ": point at ", (double)p.t);
      }
    }
    // The prediction.
    Point const p = truth.back();
    int k = 0;
    for (auto const& [time, dof] : *prediction) {
      if (!is_fresh && k > 0) break;
      if (k++ % 7 != 0) continue;
      Point const actual = PointOf(time, dof);
      Point const expected = Fall(p, actual.t);
      Check(Size(actual.q - expected.q) < 2 + 1e-3L * (actual.t - p.t), what,
            ": prediction at ", (double)actual.t, " off by ",
            (double)Size(actual.q - expected.q));
    }
  };

  auto const advance = [&](R const dt, int const force) {
    is_fresh = false;
    vessel->ClearAllIntrinsicForcesAndTorques();
    if (force == 1) {
      vessel->part(1)->apply_intrinsic_force(Vector<Force, Barycentric>(
          {600 * Newton, 200 * Newton, -300 * Newton}));
    } else if (force == 2) {
      vessel->part(2)->apply_intrinsic_torque(Bivector<Torque, Barycentric>(
          {600 * Newton * Metre * Radian, 0 * Newton * Metre * Radian,
           0 * Newton * Metre * Radian}));
    }
    piles.own->RecomputeFromParts();
    if (piles.other != nullptr) piles.other->RecomputeFromParts();
    vessel->DetectCollapsibilityChange();
    now += dt;
    Check(piles.own->DeformAndAdvanceTime(At(now)).ok(), "advance");
    if (piles.other != nullptr) {
      Check(piles.other->DeformAndAdvanceTime(At(now)).ok(), "advance");
    }
    truth.resize(history_size);
    Part& a = *vessel->part(1);
    Part& b = *vessel->part(2);
    auto const append = [&](auto ita, auto const enda, auto itb) {
      R const last = truth.back().t;
      for (; ita != enda; ++ita, ++itb) {
        if (Seconds(ita->time) <= last) continue;
        truth.push_back(
            Barycentre({{masses[0], PointOf(ita->time,
                                            ita->degrees_of_freedom)},
                        {masses[1], PointOf(itb->time,
                                            itb->degrees_of_freedom)}}));
      }
    };
    append(a.history_begin(), a.history_end(), b.history_begin());
    history_size = truth.size();
    append(a.psychohistory_begin(), a.psychohistory_end(),
           b.psychohistory_begin());
    vessel->AdvanceTime();
    other->ClearHistory();
    Check(a.history_begin() == a.history_end() &&
              a.psychohistory_begin() == a.psychohistory_end(),
          "history of the parts");
  };
  check("initially", -1);
  R covered = -1;  // The time at which the trajectory must start.
  bool has_long = false;
  for (int step = 0; step < depth; ++step) {
    int const op = Choose(10);
    if (op < 5) {
      static std::vector<std::tuple<R, int, char const*>> const moves{
          {25, 0, "coast"}, {0.5L, 1, "short burn"}, {200, 1, "long burn"},
          {7, 2, "torque"}, {0, 0, "long coast"}};
      auto [dt, force, name] = moves[op];
      if (op == 4) {
        // Enough for the history not to be saved entirely.
        if (has_long) seq::Prune();
        has_long = true;
        dt = downsampling ? 20'005 : 205'005;
      }
      Notes(name);
      advance(dt, force);
    } else if (op == 5) {
      Notes("save and restore");
      auto const index = [&](not_null<PileUp const*> const p) {
        return p == piles.own.get() ? 0 : 1;
      };
      serialization::Vessel message;
      vessel->WriteToMessage(&message, index);
      serialization::Part part;
      other->WriteToMessage(&part, index);
      std::vector<serialization::PileUp> messages(piles.other ? 2 : 1);
      piles.own->WriteToMessage(&messages[0]);
      if (piles.other) piles.other->WriteToMessage(&messages[1]);
      for (PartId const id : {1, 2}) {
        vessel->part(id)->reset_containing_pile_up();
      }
      other->reset_containing_pile_up();
      piles = {};
      vessel.reset();
      vessel = Vessel::ReadFromMessage(message, space.celestial.get(),
                                       ephemeris, nullptr);
      other = Part::ReadFromMessage(part, nullptr);
      auto const find = [&](PartId const id) -> not_null<Part*> {
        return id == 3 ? check_not_null(other.get()) : vessel->part(id);
      };
      piles.own = PileUp::ReadFromMessage(messages[0], find, ephemeris,
                                          nullptr);
      if (messages.size() == 2) {
        piles.other = PileUp::ReadFromMessage(messages[1], find, ephemeris,
                                              nullptr);
      }
      auto const pile_up = [&](int const index) {
        return check_not_null(index == 0 ? piles.own : piles.other);
      };
      vessel->FillContainingPileUpsFromMessage(message, pile_up);
      other->FillContainingPileUpFromMessage(part, pile_up);
      ++saved;
      CheckEq(vessel->guid(), std::string("guid"), "guid");
      CheckEq(vessel->name(), std::string("name"), "name");
      // The last 20000 points or so.
      covered = downsampling || history_size < 19'000
                    ? covered
                    : truth[history_size - 19'000].t;
    } else if (op == 6) {
      Notes("reanimate everything");
      vessel->AwaitReanimation(At(-1e6L));
      covered = -1;
    } else if (op == 7) {
      Notes("refresh the prediction");
      is_fresh = true;
      vessel->set_prediction_adaptive_step_parameters(Adaptive(50, 1e-3));
      vessel->RefreshPrediction();
      Check(vessel->prediction()->size() > 2, "no prediction");
    } else if (op == 8) {
      Notes("refresh the prediction for 100 s, then one that fails");
      is_fresh = true;
      vessel->set_prediction_adaptive_step_parameters(Adaptive(50, 1e-3));
      vessel->RefreshPrediction(At(now + 100));
      Check(vessel->trajectory().back().time <= At(now + 100),
            "prediction too long");
      check("short prediction", covered);
      vessel->set_prediction_adaptive_step_parameters(Adaptive(50, 1e-300));
      vessel->RefreshPrediction();
    } else {
      docked = !docked;
      Notes(docked ? "dock" : "undock");
      pile();
      has_docked = true;
    }
    check("afterwards", covered);
    seq::Step();
  }
  if (saved) {
    vessel->AwaitReanimation(At(-1e6L));
    check("at the end", -1);
  }
}

SEQ_HARNESS(vessel_parts, .split = 3) {
  std::unique_ptr<Vessel> vessel = NewVessel(false);
  std::set<PartId> parts;
  std::set<PartId> kept;
  V3 const q0{7e6L, 0, 0};
  V3 const v0{0, 7600, 100};
  int const depth = seq::Thorough() ? 7 : 6;
  for (int step = 0; step < depth; ++step) {
    int const op = Choose(7);
    PartId const id = 1 + Choose(op < 4 ? 3 : 1);
    if (op == 0) {
      if (parts.contains(id)) seq::Prune();
      vessel->AddPart(NewPart(id, id, q0, v0));
      parts.insert(id);
    } else if (op == 1) {
      if (!parts.contains(id)) seq::Prune();
      vessel->KeepPart(id);
      kept.insert(id);
    } else if (op == 2) {
      if (!parts.contains(id)) seq::Prune();
      auto const part = vessel->ExtractPart(id);
      CheckEq(part->part_id(), id, "extracted");
      parts.erase(id);
      kept.erase(id);
    } else if (op == 3) {
      if (!parts.contains(id)) seq::Prune();
      vessel->part(id)->apply_intrinsic_force(Vector<Force, Barycentric>(
          {600 * Newton, 200 * Newton, -300 * Newton}));
      vessel->part(id)->apply_intrinsic_torque(Bivector<Torque, Barycentric>(
          {600 * Newton * Metre * Radian, 0 * Newton * Metre * Radian,
           0 * Newton * Metre * Radian}));
    } else if (op == 4) {
      if (kept.empty()) seq::Prune();
      vessel->FreeParts();
      parts = kept;
      kept.clear();
    } else if (op == 5) {
      vessel->ClearAllIntrinsicForcesAndTorques();
      vessel->ForAllParts([](Part& part) {
        Check(part.intrinsic_force() == Vector<Force, Barycentric>{} &&
                  part.intrinsic_torque() == Bivector<Torque, Barycentric>{},
              "forces remain");
      });
    } else {
      if (parts.empty()) seq::Prune();
      bool const had = !vessel->trajectory().empty();
      vessel->CreateTrajectoryIfNeeded(At(step));
      if (!had) {
        std::vector<std::pair<R, Point>> points;
        for (PartId const i : parts) points.push_back({i, {R(step), q0, v0}});
        auto const& last = vessel->trajectory().back();
        Check(Size(PointOf(last.time, last.degrees_of_freedom).q - q0) < 1e-6L,
              "created");
      }
      serialization::Vessel message;
      vessel->WriteToMessage(&message,
                             [](not_null<PileUp const*>) { return 0; });
      vessel = Vessel::ReadFromMessage(message, TheSpace().celestial.get(),
                                       TheSpace().ephemeris.get(), nullptr);
    }
    std::set<PartId> actual;
    vessel->ForAllParts([&](Part& part) {
      Check(actual.insert(part.part_id()).second, "twice the same part");
      Check(vessel->part(part.part_id()) == &part, "part");
    });
    Check(actual == parts, "parts");
    for (PartId id = 1; id <= 3; ++id) {
      CheckEq(vessel->WillKeepPart(id), kept.contains(id), "kept ", id);
    }
    int some = 0;
    if (!parts.empty()) {
      vessel->ForSomePart([&](Part& part) {
        ++some;
        Check(parts.contains(part.part_id()), "some part");
      });
      CheckEq(some, 1, "some part");
    }
  }
}

namespace {
struct BurnSpec {
  R start;
  R Δv;
  R thrust;
  bool half = false;
};
std::vector<BurnSpec> const kBurns{{105, 100, 20},
                                   {160, 60, 15},
                                   {230, 50, 25, true},
                                   {236, 30, 30}};
struct Planned {
  R mass;
  R initial_time;
  R final_time;
  std::vector<BurnSpec> burns;
  // The start and end of the burns.
  std::vector<std::pair<R, R>> Times() const {
    std::vector<std::pair<R, R>> result;
    R m = mass;
    for (auto const& b : burns) result.push_back(One(b, m));
    return result;
  }
  static std::pair<R, R> One(BurnSpec const& b, R& m) {
    R const isp = 1000;
    R const m1 = m * std::exp(-b.Δv / isp);
    R const mh = m * std::exp(-b.Δv / (2 * isp));
    R const flow = b.thrust / isp;
    R const start = b.half ? b.start - (m - mh) / flow : b.start;
    R const end = start + (m - m1) / flow;
    m = m1;
    return {start, end};
  }
  bool Append(BurnSpec const& b) {
    Planned p = *this;
    p.burns.push_back(b);
    auto const t = p.Times();
    R const previous =
        t.size() == 1 ? initial_time : t[t.size() - 2].second;
    if (t.back().first < previous || t.back().second > final_time) return false;
    burns = p.burns;
    return true;
  }
};
}  // namespace

SEQ_HARNESS(vessel_flight_plans, .split = 3) {
  auto& space = TheSpace();
  std::unique_ptr<Vessel> vessel = NewVessel(false);
  Point const p0{0, {7e6L, 0, 0}, {0, 7600, 100}};
  vessel->AddPart(NewPart(1, 20, p0.q, p0.v));
  vessel->KeepPart(1);
  R now = 0;
  vessel->CreateTrajectoryIfNeeded(At(0));
  std::vector<Planned> plans;
  int selected = -1;
  auto const generalized = E::GeneralizedAdaptiveStepParameters(
      EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<
          Fine1987RKNG34, E::GeneralizedNewtonianMotionEquation>(),
      1000, 1 * Metre, 1 * Metre / Second);
  auto const burn = [&](BurnSpec const& b) {
    NavigationManœuvre::Timing timing;
    if (b.half) {
      timing.time_of_half_Δv = At(b.start);
    } else {
      timing.initial_time = At(b.start);
    }
    return NavigationManœuvre::Burn{
        NavigationManœuvre::Intensity(Velocity<Frenet<Navigation>>(
            {(double)b.Δv * Metre / Second, 0 * Metre / Second,
             0 * Metre / Second}).coordinates()),
        timing, (double)b.thrust * Newton,
        1000 * Newton * Second / Kilogram, check_not_null(space.frame), true};
  };
  auto const check = [&] {
    CheckEq(vessel->has_flight_plan(), !plans.empty(), "has");
    CheckEq(vessel->flight_plan_count(), (int)plans.size(), "count");
    CheckEq(vessel->selected_flight_plan_index(), selected, "selected");
    for (int i = 0; i < plans.size(); ++i) {
      vessel->SelectFlightPlan(i);
      vessel->ReadFlightPlanFromMessage();
      FlightPlan& plan = vessel->flight_plan();
      Planned const& model = plans[i];
      Check(plan.initial_time() == At(model.initial_time), "initial time of ",
            i);
      Check(std::abs(Seconds(plan.desired_final_time()) - model.final_time) <
                1e-6L,
            "final time of ", i, ": ",
            (double)Seconds(plan.desired_final_time()), " instead of ",
            (double)model.final_time);
      CheckEq(plan.number_of_manœuvres(), (int)model.burns.size(),
              "manœuvres of ", i);
      auto const times = model.Times();
      for (int k = 0; k < times.size(); ++k) {
        auto const& m = plan.GetManœuvre(k);
        Check(std::abs(m.thrust() / Newton - model.burns[k].thrust) < 1e-9L &&
                  std::abs(Seconds(m.initial_time()) - times[k].first) <
                      1e-6L &&
                  std::abs(Seconds(m.final_time()) - times[k].second) < 1e-6L,
              "manœuvre ", k, " of ", i, " from ",
              (double)Seconds(m.initial_time()), " to ",
              (double)Seconds(m.final_time()), " instead of ",
              (double)times[k].first, " to ", (double)times[k].second);
      }
      auto const& start = plan.GetSegment(0)->front();
      Point const p = Fall(p0, model.initial_time);
      Point const s = PointOf(start.time, start.degrees_of_freedom);
      Check(Size(s.q - p.q) < 1e-2L && Size(s.v - p.v) < 1e-4L,
            "starting point of ", i, " off by ", (double)Size(s.q - p.q));
    }
    if (selected >= 0) vessel->SelectFlightPlan(selected);
  };
  int const depth = seq::Thorough() ? 6 : 5;
  for (int step = 0; step < depth; ++step) {
    int const op = Choose(11);
    switch (op) {
      case 0: {
        Notes("create");
        R const end = now + 300;
        vessel->CreateFlightPlan(At(end), 20 * Kilogram, Adaptive(1000, 1),
                                 generalized);
        vessel->flight_plan().EnableAnalysis(false);
        plans.push_back({20, now, end, {}});
        selected = plans.size() - 1;
        // Two burns.
        for (int const b : {0, 1}) {
          bool const ok =
              vessel->flight_plan()
                  .Insert(burn(kBurns[b]), plans[selected].burns.size())
                  .ok();
          CheckEq(ok, plans[selected].Append(kBurns[b]), "insert");
        }
        break;
      }
      case 1: {
        if (selected < 0) seq::Prune();
        Notes("duplicate");
        vessel->DuplicateFlightPlan();
        plans.insert(plans.begin() + selected, Planned(plans[selected]));
        ++selected;
        break;
      }
      case 2: {
        Notes("delete");
        vessel->DeleteFlightPlan();
        if (selected >= 0) {
          plans.erase(plans.begin() + selected);
          selected = std::min<int>(selected, (int)plans.size() - 1);
        }
        break;
      }
      case 3: {
        if (plans.size() < 2) seq::Prune();
        selected = selected == 0 ? plans.size() - 1 : selected - 1;
        Notes("select ", selected);
        vessel->SelectFlightPlan(selected);
        vessel->ReadFlightPlanFromMessage();
        break;
      }
      case 4: {
        if (selected < 0) seq::Prune();
        Notes("append two burns");
        for (int const b : {2, 3}) {
          bool const ok =
              vessel->flight_plan()
                  .Insert(burn(kBurns[b]), plans[selected].burns.size())
                  .ok();
          CheckEq(ok, plans[selected].Append(kBurns[b]), "insert ", b);
        }
        break;
      }
      case 5:
      case 6: {
        if (selected < 0) seq::Prune();
        R const mass = op == 5 ? 19 : 23;
        Notes("rebase with ", (double)mass, " kg");
        auto const times = plans[selected].Times();
        int first = 0;
        bool inside = false;
        for (int k = 0; k < times.size(); ++k) {
          if (times[k].first < now) {
            first = k + 1;
            inside |= now < times[k].second;
          }
        }
        auto const status =
            vessel->RebaseFlightPlan((double)mass * Kilogram);
        CheckEq(status.ok(), !inside, "rebase");
        if (!inside) {
          Planned const old = plans[selected];
          Planned p{mass, now,
                    now >= old.final_time
                        ? now + old.final_time - old.initial_time
                        : old.final_time,
                    {}};
          for (int k = first; k < times.size(); ++k) {
            BurnSpec b = old.burns[k];
            p.Append(b);
          }
          plans[selected] = p;
          vessel->flight_plan().EnableAnalysis(false);
        }
        break;
      }
      case 7:
      case 8:
      case 9: {
        R const dt = op == 7 ? 109 : op == 8 ? 52 : 507;
        Notes("wait ", (double)dt, " s");
        now += dt;
        Point const p = Fall(p0, now);
        vessel->part(1)->AppendToHistory(
            At(now),
            {Barycentric::origin +
                 Displacement<Barycentric>({(double)p.q[0] * Metre,
                                            (double)p.q[1] * Metre,
                                            (double)p.q[2] * Metre}),
             Velocity<Barycentric>({(double)p.v[0] * Metre / Second,
                                    (double)p.v[1] * Metre / Second,
                                    (double)p.v[2] * Metre / Second})});
        vessel->AdvanceTime();
        break;
      }
      case 10: {
        Notes("save and restore");
        serialization::Vessel message;
        vessel->WriteToMessage(&message,
                               [](not_null<PileUp const*>) { return 0; });
        vessel = Vessel::ReadFromMessage(message, space.celestial.get(),
                                         space.ephemeris.get(), nullptr);
        // A burn that is read is defined by its initial time.
        for (auto& p : plans) {
          auto const times = p.Times();
          for (int k = 0; k < times.size(); ++k) {
            p.burns[k].start = times[k].first;
            p.burns[k].half = false;
          }
        }
        if (Choose(2)) {
          Notes("and again");
          serialization::Vessel again;
          vessel->WriteToMessage(&again,
                                 [](not_null<PileUp const*>) { return 0; });
          vessel = Vessel::ReadFromMessage(again, space.celestial.get(),
                                           space.ephemeris.get(), nullptr);
          // Lazily.
          if (selected >= 0) {
            vessel->DuplicateFlightPlan();
            plans.insert(plans.begin() + selected, Planned(plans[selected]));
            ++selected;
          }
        }
        break;
      }
    }
    check();
    seq::Step();
  }
}

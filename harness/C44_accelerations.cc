// C44: the gravitational field of an ephemeris and the motions in that field.
#include "harness/ephemeris.h"

#include <algorithm>

#include "geometry/grassmann.hpp"

using namespace principia::geometry::_grassmann;
using namespace principia::physics::_apsides;
using seq::Pick;

namespace {
Model OblateModel(int const k) {
  static double const rotations[][5] = {{1, 5000, -3e-5, 4, 0.3},
                                        {-2, -1e4, 7.3e-5, 1.5, -1.2},
                                        {0.5, 0, 2e-6, -0.7, 1}};
  auto const& r = rotations[k % 3];
  Model model{{}, r[0], r[1], r[2], r[3], r[4]};
  int const degree = k % 2 == 0 ? 3 : 2;
  for (int n = 2; n <= degree; ++n) {
    for (int m = 0; m <= n; ++m) {
      model.coefficients.push_back(
          {n, m, Pseudorandom(100 * n + m + k) * 1e-2,
           m == 0 ? 0 : Pseudorandom(100 * n + m + k + 57) * 1e-2});
    }
  }
  return model;
}

// Each letter is a point mass or an oblate body.
Systm NewSystem(std::string const& kinds) {
  static double const qs[][3] = {{1e6, -2e6, 3e5},
                                 {4e7, 1e7, -2e6},
                                 {-3e7, 5e7, 8e6},
                                 {2e7, -6e7, 3e7}};
  static double const vs[][3] = {{-300, -100, 20},
                                 {-500, 2500, 300},
                                 {-2000, -1000, 100},
                                 {1800, 600, -900}};
  static double const μs[] = {4e14, 5e13, 8e13, 6e12};
  Systm result;
  int oblate = 0;
  for (int i = 0; i < kinds.size(); ++i) {
    BodySpec spec{.μ = μs[i],
                  .q = {qs[i][0], qs[i][1], qs[i][2]},
                  .v = {vs[i][0], vs[i][1], vs[i][2]}};
    if (kinds[i] == 'O') { spec.oblate = OblateModel(oblate++); }
    result.push_back(spec);
  }
  return result;
}

std::vector<std::string> const& Kinds() {
  static std::vector<std::string> const all{
      "P", "O", "PO", "OP", "OO", "PP", "POP", "OPO", "PPO", "OOP", "POPO",
      "OPPO", "OPOP", "PPPP", "OOOO", "PPOO", "OOPP", "POOP"};
  static std::vector<std::string> const some{"P",   "O",    "PO",   "OP",
                                             "OO",  "POP",  "OPO",  "POPO",
                                             "OPPO", "PPPP"};
  return seq::Thorough() ? all : some;
}

E::FixedStepParameters Parameters(int const kind) {
  if (kind == 0) {
    return {SymmetricLinearMultistepIntegrator<QuinlanTremaine1990Order12,
                                               E::NewtonianMotionEquation>(),
            10 * Second};
  } else {
    return {SymplecticRungeKuttaNyströmIntegrator<
                BlanesMoan2002SRKN14A, E::NewtonianMotionEquation>(),
            20 * Second};
  }
}

void Near(V3 const& actual, V3 const& expected, Real const tolerance,
          char const* const what) {
  Check(Norm(actual - expected) <= tolerance, what, " off by ",
        (double)Norm(actual - expected), " tolerance ", (double)tolerance,
        " actual ", (double)actual[0], " ", (double)actual[1], " ",
        (double)actual[2]);
  seq::Step();
}

// The motion of the system and of massless bodies.
struct Massless {
  V3 q;
  V3 v;
  std::function<V3(double, V3 const&, V3 const&)> intrinsic;
};

struct Evolution {
  std::vector<V3> q;
  std::vector<V3> v;
};

Evolution Reference(Systm const& system, std::vector<Massless> const& massless,
                    double const t0, double const t1) {
  Evolution result;
  int const n = system.size();
  for (auto const& b : system) {
    result.q.push_back(b.q);
    result.v.push_back(b.v);
  }
  for (auto const& b : massless) {
    result.q.push_back(b.q);
    result.v.push_back(b.v);
  }
  auto f = [&](double const t, std::vector<V3> const& all,
               std::vector<V3> const& velocities) {
    std::vector<V3> const qs(all.begin(), all.begin() + n);
    std::vector<V3> r;
    for (int i = 0; i < n; ++i) { r.push_back(OnMassive(system, t, qs, i)); }
    for (int i = 0; i < massless.size(); ++i) {
      r.push_back(OnMassless(system, t, qs, all[n + i]) +
                  massless[i].intrinsic(t, all[n + i], velocities[n + i]));
    }
    return r;
  };
  if (t1 > t0) {
    Integrate(f, t0, t1, std::ceil((t1 - t0) / 40), result.q, result.v);
  }
  return result;
}

double const t0 = 1000;
}  // namespace

SEQ_HARNESS(field, .split = 1) {
  std::string const kinds = Pick(Kinds());
  int const integrator = Choose(2);
  Notes("system ", kinds, " integrator ", integrator);
  Systm const system = NewSystem(kinds);
  int const n = system.size();
  auto const ephemeris =
      NewEphemeris(system, t0, 1e-3, Parameters(integrator));
  // The order of the bodies is the one given.
  auto const bodies = ephemeris->bodies();
  CheckEq((int)bodies.size(), n, "number of bodies");
  std::set<int> indices;
  for (int i = 0; i < n; ++i) {
    CheckEq(bodies[i]->name(), "body " + std::to_string(i), "name");
    CheckEq(bodies[i]->is_oblate(), kinds[i] == 'O', "oblate");
    int const index = ephemeris->serialization_index_for_body(bodies[i]);
    Check(index >= 0 && index < n, "index ", index);
    indices.insert(index);
    Check(ephemeris->body_for_serialization_index(index) == bodies[i],
          "index ", index, " is another body");
  }
  CheckEq((int)indices.size(), n, "distinct indices");

  Check(ephemeris->Prolong(At(t0 + 1000)).ok(), "Prolong failed");
  Check(ephemeris->t_max() >= At(t0 + 1000), "t_max too small");
  CheckEq(Seconds(ephemeris->t_min()), t0, "t_min");
  double const t_max = Seconds(ephemeris->t_max());

  std::vector<double> const times{t0, t0 + 5, t0 + 333.25, t0 + 800, t_max};
  for (double const t : times) {
    auto const positions = ephemeris->EvaluateAllPositions(At(t));
    auto const velocities = ephemeris->EvaluateAllVelocities(At(t));
    auto const dofs = ephemeris->EvaluateAllDegreesOfFreedom(At(t));
    CheckEq((int)positions.size(), n, "positions");
    std::vector<V3> qs, vs;
    for (int i = 0; i < n; ++i) {
      auto const& trajectory = *ephemeris->trajectory(bodies[i]);
      qs.push_back(ToV3(trajectory.EvaluatePosition(At(t))));
      vs.push_back(ToV3(trajectory.EvaluateVelocity(At(t))));
      Check(ToV3(positions.at(bodies[i])) == qs[i] &&
                ToV3(velocities.at(bodies[i])) == vs[i] &&
                ToV3(dofs.at(bodies[i]).position()) == qs[i] &&
                ToV3(dofs.at(bodies[i]).velocity()) == vs[i],
            "evaluations of body ", i, " at ", t, " differ");
    }

    // The motion.
    auto const reference = Reference(system, {}, t0, t);
    for (int i = 0; i < n; ++i) {
      Near(qs[i], reference.q[i], 3e-3, "position of a body");
      Near(vs[i], reference.v[i], 3e-4, "velocity of a body");
    }

    // The field on the bodies, all subsets in both orders.
    for (int set = 1; set < (1 << n); ++set) {
      for (bool const reverse : {false, true}) {
        std::vector<int> members;
        for (int i = 0; i < n; ++i) {
          if (set & (1 << i)) { members.push_back(i); }
        }
        if (reverse) {
          if (members.size() == 1) { continue; }
          std::reverse(members.begin(), members.end());
        }
        std::vector<not_null<MassiveBody const*>> subset;
        for (int const i : members) { subset.push_back(bodies[i]); }
        auto const accelerations =
            ephemeris->ComputeGravitationalAccelerationOnMassiveBodies(
                subset, positions, At(t));
        auto const jerks =
            ephemeris->ComputeGravitationalJerkOnMassiveBodies(subset, dofs);
        CheckEq(accelerations.size(), members.size(), "size");
        CheckEq(jerks.size(), members.size(), "size");
        for (int k = 0; k < members.size(); ++k) {
          V3 const expected = OnMassive(system, t, qs, members[k]);
          Real const scale = Norm(expected);
          Near(ToV3(accelerations[k]), expected, 1e-11L * scale,
               "acceleration of one of several bodies");
          V3 jerk{};
          for (int j = 0; j < n; ++j) {
            if (j == members[k]) { continue; }
            V3 const r = qs[members[k]] - qs[j];
            V3 const v = vs[members[k]] - vs[j];
            Real const d = Norm(r);
            jerk = jerk + (-system[j].μ / (d * d * d)) * v +
                   (3 * system[j].μ * Dot(r, v) / (d * d * d * d * d)) * r;
          }
          Near(ToV3(jerks[k]), jerk, 1e-12L * Norm(jerk),
               "jerk of one of several bodies");
        }
      }
    }
    V3 force{};
    Real force_scale = 0;
    for (int i = 0; i < n; ++i) {
      V3 const expected = OnMassive(system, t, qs, i);
      V3 const actual =
          ToV3(ephemeris->ComputeGravitationalAccelerationOnMassiveBody(
              bodies[i], At(t)));
      Near(actual, expected, 1e-11L * Norm(expected), "acceleration of a body");
      force = force + system[i].μ * actual;
      force_scale += system[i].μ * Norm(actual);

      V3 const jerk = ToV3(ephemeris->ComputeGravitationalJerkOnMassiveBody(
          bodies[i], At(t)));
      auto const jacobian =
          ephemeris->ComputeJacobianOnMassiveBody(bodies[i], At(t));
      V3 expected_jerk{};
      std::array<V3, 3> expected_jacobian{};
      Real jacobian_scale = 0;
      for (int j = 0; j < n; ++j) {
        if (j == i) { continue; }
        V3 const r = qs[i] - qs[j];
        V3 const v = vs[i] - vs[j];
        Real const d = Norm(r);
        Real const d3 = d * d * d;
        Real const d5 = d3 * d * d;
        expected_jerk = expected_jerk + (-system[j].μ / d3) * v +
                        (3 * system[j].μ * Dot(r, v) / d5) * r;
        for (int k = 0; k < 3; ++k) {
          V3 e{};
          e[k] = 1;
          expected_jacobian[k] = expected_jacobian[k] +
                                 (-system[j].μ / d3) * e +
                                 (3 * system[j].μ * r[k] / d5) * r;
        }
        jacobian_scale += system[j].μ / d3;
      }
      Near(jerk, expected_jerk, 1e-12L * Norm(expected_jerk),
           "jerk of a body");
      for (int k = 0; k < 3; ++k) {
        Displacement<World> const e({(k == 0) * Metre, (k == 1) * Metre,
                                     (k == 2) * Metre});
        auto const column = jacobian * e;
        Near(ToV3(column), expected_jacobian[k], 1e-12L * jacobian_scale,
             "Jacobian");
      }
    }
    Check(Norm(force) <= 1e-12L * force_scale, "total force ",
          (double)Norm(force));

    // The field elsewhere.
    for (int i = 0; i < n; ++i) {
      for (V3 const& d : {V3{9e6, 0, 0}, V3{-2e6, 1.1e7, 3e6},
                          V3{0, -1e7, -9e6}, V3{1e5, 2e5, 1.3e7},
                          V3{-3e8, 1e8, 2e8}}) {
        auto const p = ToDof(qs[i] + d, {3000, -4000, 1000});
        V3 const q = ToV3(p.position());
        V3 const v = ToV3(p.velocity());
        V3 const expected = OnMassless(system, t, qs, q);
        Near(ToV3(ephemeris->ComputeGravitationalAccelerationOnMasslessBody(
                 p.position(), At(t))),
             expected, 1e-11L * Norm(expected), "acceleration");
        Real potential = 0;
        V3 jerk{};
        for (int j = 0; j < n; ++j) {
          V3 const r = q - qs[j];
          V3 const w = v - vs[j];
          potential += system[j].μ * ReducedPotential(system[j], t, r);
          Real const d = Norm(r);
          jerk = jerk + (-system[j].μ / (d * d * d)) * w +
                 (3 * system[j].μ * Dot(r, w) / (d * d * d * d * d)) * r;
        }
        Real const actual = ephemeris->ComputeGravitationalPotential(
                                p.position(), At(t)) /
                            Pow<2>(Metre / Second);
        Check(std::fabs(actual - potential) <= 1e-12L * std::fabs(potential),
              "potential ", (double)actual, " expected ", (double)potential);
        Near(ToV3(ephemeris->ComputeGravitationalJerkOnMasslessBody(p, At(t))),
             jerk, 1e-12L * Norm(jerk), "jerk");
        DiscreteTrajectory<World> trajectory;
        Check(trajectory.Append(At(t), p).ok(), "Append failed");
        Check(ephemeris->ComputeGravitationalAccelerationOnMasslessBody(
                  &trajectory, At(t)) ==
                  ephemeris->ComputeGravitationalAccelerationOnMasslessBody(
                      p.position(), At(t)),
              "acceleration on a trajectory");
      }
    }
  }
  seq::State(kinds + std::to_string(integrator));
}

namespace {
std::vector<Massless> const& Vessels() {
  static std::vector<Massless> const vessels{
      {{2e7, -2e6, 3e6}, {100, 4200, 300}, [](double, V3 const&, V3 const&) {
         return V3{};
       }},
      {{-8e6, -1e7, 1e7}, {3000, -3000, 1500},
       [](double const t, V3 const&, V3 const&) {
         return V3{0.5, -0.01 * (t - t0), 1e-5 * (t - t0) * (t - t0)};
       }},
      {{3e6, 1.2e7, -4e6}, {-4500, 300, 2500},
       [](double const t, V3 const&, V3 const&) {
         return V3{std::sin((t - t0) / 300.0L), 2, -1};
       }}};
  return vessels;
}

// For generalized equations.
V3 Drag(V3 const& q, V3 const& v) {
  return (-1e-3L) * v + 2e-8L * q;
}

Vector<Acceleration, World> ToAcceleration(V3 const& a) {
  return Vector<Acceleration, World>({(double)a[0] * Metre / Pow<2>(Second),
                                      (double)a[1] * Metre / Pow<2>(Second),
                                      (double)a[2] * Metre / Pow<2>(Second)});
}

E::IntrinsicAcceleration Intrinsic(Massless const& vessel, bool const null) {
  if (null) { return E::NoIntrinsicAcceleration; }
  return [vessel](Instant const& t) {
    return ToAcceleration(vessel.intrinsic(Seconds(t), {}, {}));
  };
}

void CheckTrajectory(Systm const& system, int const vessel,
                     DiscreteTrajectory<World> const& trajectory,
                     double const ε, bool const drag = false) {
  Massless massless = Vessels()[vessel];
  if (drag) {
    massless.intrinsic = [f = massless.intrinsic](double const t, V3 const& q,
                                                  V3 const& v) {
      return f(t, q, v) + Drag(q, v);
    };
  }
  Instant previous = InfinitePast;
  for (auto const& [t, _] : trajectory) {
    Check(t > previous, "times not increasing");
    previous = t;
  }
  auto const& [t, dof] = trajectory.back();
  auto const reference =
      Reference(system, {massless}, t0, Seconds(t));
  Near(ToV3(dof.position()), reference.q.back(), ε, "position of a vessel");
  Near(ToV3(dof.velocity()), reference.v.back(), ε / 100,
       "velocity of a vessel");
  // And one in the middle.
  auto it = trajectory.begin();
  std::advance(it, trajectory.size() / 2);
  auto const middle =
      Reference(system, {massless}, t0, Seconds(it->time));
  Near(ToV3(it->degrees_of_freedom.position()), middle.q.back(), ε,
       "position of a vessel in the past");
}

template<typename T>
std::vector<T> Pushed(std::vector<T> v, T const& t) {
  v.push_back(t);
  return v;
}
}  // namespace

SEQ_HARNESS(adaptive, .split = 1) {
  std::string const kinds = Pick(std::vector<std::string>{"O", "PO", "POP"});
  int const vessel = Choose(3);
  bool const generalized = Choose(2);
  bool const null = vessel == 0 && Choose(2);
  std::vector<double> const legs = Pick(std::vector<std::vector<double>>{
      {t0 + 700},
      {t0 + 100, t0 + 100, t0 + 700},
      {t0 + 1e-3, t0 + 30, t0 + 333.25, t0 + 2000},
      {t0 + 80, t0 + 160, t0 + 240, t0 + 320}});
  // The limits.
  std::int64_t const ephemeris_steps =
      Pick(std::vector<std::int64_t>{E::unlimited_max_ephemeris_steps, 1, 8, 30});
  std::int64_t const max_steps =
      Pick(std::vector<std::int64_t>{std::numeric_limits<std::int64_t>::max(), 3,
                                   20});
  if (!seq::Thorough() && ephemeris_steps != E::unlimited_max_ephemeris_steps &&
      max_steps == 20) {
    seq::Prune();
  }
  Notes("system ", kinds, " vessel ", vessel, " generalized ", generalized,
        " null ", null, " ephemeris steps ", ephemeris_steps, " steps ",
        max_steps, " legs ", legs.size());
  Systm const system = NewSystem(kinds);
  auto const ephemeris = NewEphemeris(system, t0, 1e-3, Parameters(0));
  auto const& v = Vessels()[vessel];
  DiscreteTrajectory<World> trajectory;
  Check(trajectory.Append(At(t0), ToDof(v.q, v.v)).ok(), "Append failed");
  auto const intrinsic = Intrinsic(v, null);

  auto flow = [&](double const t) {
    if (generalized) {
      E::GeneralizedIntrinsicAcceleration a;
      if (!null) {
        a = [&](Instant const& t, Dof const& dof) {
          V3 const a = v.intrinsic(Seconds(t), ToV3(dof.position()),
                                   ToV3(dof.velocity())) +
                       Drag(ToV3(dof.position()), ToV3(dof.velocity()));
          return ToAcceleration(a);
        };
      }
      return ephemeris->FlowWithAdaptiveStep(
          &trajectory, a, At(t),
          E::GeneralizedAdaptiveStepParameters(
              EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<
                  Fine1987RKNG34, E::GeneralizedNewtonianMotionEquation>(),
              max_steps, 1e-2 * Metre, 1e-4 * Metre / Second),
          ephemeris_steps);
    } else {
      return ephemeris->FlowWithAdaptiveStep(
          &trajectory, intrinsic, At(t),
          E::AdaptiveStepParameters(
              EmbeddedExplicitRungeKuttaNyströmIntegrator<
                  DormandالمكاوىPrince1986RKN434FM,
                  E::NewtonianMotionEquation>(),
              max_steps, 1e-3 * Metre, 1e-5 * Metre / Second),
          ephemeris_steps);
    }
  };

  for (double const t : legs) {
    for (int call = 0;; ++call) {
      Check(call < 5000, "doesn't terminate");
      double const before = Seconds(trajectory.back().time);
      std::size_t const size = trajectory.size();
      double const t_max_before = Seconds(ephemeris->t_max());
      auto const status = flow(t);
      double const after = Seconds(trajectory.back().time);
      double const t_max = Seconds(ephemeris->t_max());
      Check(after <= t, "went past ", t, " to ", after);
      Check(status.ok() == (after == t), "status ", status.ToString(), " at ",
            after, " for ", t);
      Check(trajectory.size() - size <= (std::size_t)max_steps, "added ",
            trajectory.size() - size, " points");
      if (ephemeris_steps != E::unlimited_max_ephemeris_steps) {
        // A polynomial has 8 steps.
        Check(t_max <= std::max(t0, t_max_before) + 10 * ephemeris_steps +
                            80 * 2,
              "prolonged from ", t_max_before, " to ", t_max);
      }
      if (status.ok()) { break; }
      Check(after > before, "no progress at ", after);
      if (max_steps == std::numeric_limits<std::int64_t>::max()) {
        CheckEq(after, t_max, "stopped before the end of the ephemeris");
        Check(absl::IsDeadlineExceeded(status), "status ", status.ToString());
      }
      seq::Step();
    }
  }
  CheckTrajectory(system, vessel, trajectory, generalized ? 20 : 2,
                  generalized && !null);
}

SEQ_HARNESS(fixed, .split = 1) {
  std::string const kinds = Pick(std::vector<std::string>{"O", "PO", "POP"});
  int const integrator = Choose(3);
  int const set = 1 + Choose(7);
  bool const null = Choose(2);
  std::vector<double> const legs = Pick(std::vector<std::vector<double>>{
      {t0 + 700},
      {t0 + 100, t0 + 100, t0 + 105, t0 + 703},
      {t0 + 10, t0 + 20, t0 + 333.25, t0 + 900}});
  Notes("system ", kinds, " integrator ", integrator, " vessels ", set,
        " null ", null, " legs ", legs.size());
  Systm const system = NewSystem(kinds);
  auto const ephemeris = NewEphemeris(system, t0, 1e-3, Parameters(0));
  auto const parameters =
      integrator == 0
          ? E::FixedStepParameters(
                SymmetricLinearMultistepIntegrator<
                    Quinlan1999Order8A, E::NewtonianMotionEquation>(),
                10 * Second)
      : integrator == 1
          ? E::FixedStepParameters(
                SymplecticRungeKuttaNyströmIntegrator<
                    BlanesMoan2002SRKN14A, E::NewtonianMotionEquation>(),
                25 * Second)
          : E::FixedStepParameters(
                SymmetricLinearMultistepIntegrator<
                    QuinlanTremaine1990Order12, E::NewtonianMotionEquation>(),
                5 * Second);
  double const step = parameters.step() / Second;
  std::vector<int> members;
  for (int i = 0; i < 3; ++i) {
    if (set & (1 << i)) { members.push_back(i); }
  }
  // Flies the vessels together.
  auto fly = [&](std::vector<int> const& vessels) {
    std::vector<std::unique_ptr<DiscreteTrajectory<World>>> result;
    std::vector<not_null<DiscreteTrajectory<World>*>> pointers;
    E::IntrinsicAccelerations intrinsics;
    for (int const i : vessels) {
      result.push_back(std::make_unique<DiscreteTrajectory<World>>());
      Check(result.back()
                ->Append(At(t0), ToDof(Vessels()[i].q, Vessels()[i].v))
                .ok(),
            "Append failed");
      pointers.push_back(result.back().get());
      intrinsics.push_back(Intrinsic(Vessels()[i], i == 0 && null));
    }
    if (null && vessels == std::vector<int>{0}) {
      intrinsics = E::NoIntrinsicAccelerations;
    }
    auto const instance =
        ephemeris->NewInstance(pointers, intrinsics, parameters);
    double reached = t0;
    for (double const t : legs) {
      Check(ephemeris->FlowWithFixedStep(At(t), *instance).ok(),
            "FlowWithFixedStep failed");
      reached = std::max(reached, t);
      for (auto const& trajectory : result) {
        double const last = Seconds(trajectory->back().time);
        Check(last <= reached && last > reached - step, "last time ", last,
              " for ", reached);
      }
      seq::Step();
    }
    return result;
  };
  auto const together = fly(members);
  for (int i = 0; i < members.size(); ++i) {
    CheckTrajectory(system, members[i], *together[i], 1e-2);
    auto const alone = fly({members[i]});
    CheckEq(alone[0]->size(), together[i]->size(), "number of points");
    for (auto it1 = alone[0]->begin(), it2 = together[i]->begin();
         it1 != alone[0]->end(); ++it1, ++it2) {
      Check(it1->time == it2->time &&
                it1->degrees_of_freedom == it2->degrees_of_freedom,
            "vessel ", members[i], " at ", Seconds(it1->time),
            " depends on the others");
    }
  }
}

SEQ_HARNESS(apsides, .split = 1) {
  // Two bodies on an ellipse, and far away a third one.
  double const e = Pick(std::vector<double>{0.05, 0.3, 0.6});
  double const a = Pick(std::vector<double>{1.2e7, 2e7});
  double const phase = Pick(std::vector<double>{0.4, 2, 3.5, 5.9});
  bool const oblate = Choose(2);
  Notes("e ", e, " a ", a, " E ", phase, " oblate ", oblate);
  double const μ1 = 4e14;
  double const μ2 = 3e13;
  double const n = std::sqrt((μ1 + μ2) / (a * a * a));
  double const b = a * std::sqrt(1 - e * e);
  V3 const r{a * (std::cos(phase) - e), b * std::sin(phase), 0};
  double const rate = n / (1 - e * std::cos(phase));
  V3 const v{-a * std::sin(phase) * rate, b * std::cos(phase) * rate, 0};
  BodySpec body1{.μ = μ1, .q = {0, 0, 0}, .v = {0, 0, 0}};
  if (oblate) {
    body1.oblate = Model{{{2, 0, -1e-12, 0}}, 1, 5000, -3e-5, 4, 0.3};
  }
  Systm const system{{.μ = 1, .q = {1e12, 0, 0}, .v = {0, 0, 0}},
                     body1,
                     {.μ = μ2, .q = r, .v = v}};
  auto const ephemeris = NewEphemeris(system, t0, 1e-3, Parameters(0));
  double const period = 2 * (double)π_ / n;
  Check(ephemeris->Prolong(At(t0 + 2.2 * period)).ok(), "Prolong failed");
  double const t_max = Seconds(ephemeris->t_max());
  auto const bodies = ephemeris->bodies();
  for (bool const swapped : {false, true}) {
    DistinguishedPoints<World> apoapsides1, periapsides1, apoapsides2,
        periapsides2;
    ephemeris->ComputeApsides(bodies[swapped ? 2 : 1], bodies[swapped ? 1 : 2],
                              apoapsides1, periapsides1, apoapsides2,
                              periapsides2);
    auto check = [&](bool const periapsis,
                     DistinguishedPoints<World> const& points1,
                     DistinguishedPoints<World> const& points2) {
      // The times, from the equation of Kepler.
      double const M0 = phase - e * std::sin(phase);
      std::vector<double> expected;
      for (int k = 0; k < 5; ++k) {
        double const t =
            t0 + (2 * (double)π_ * k + (periapsis ? 0 : (double)π_) - M0) / n;
        if (t > t0 && t < t_max) { expected.push_back(t); }
      }
      CheckEq(points1.size(), expected.size(), "number of apsides");
      CheckEq(points2.size(), expected.size(), "number of apsides");
      auto it2 = points2.begin();
      int i = 0;
      for (auto const& [t, dof] : points1) {
        Check(it2->first == t, "different times");
        Check(std::fabs(Seconds(t) - expected[i]) < 0.01 + 1e-4 / e, "apsis at ",
              Seconds(t), " expected ", expected[i]);
        Check(dof == ephemeris->trajectory(bodies[swapped ? 2 : 1])
                         ->EvaluateDegreesOfFreedom(t) &&
                  it2->second ==
                      ephemeris->trajectory(bodies[swapped ? 1 : 2])
                          ->EvaluateDegreesOfFreedom(t),
              "degrees of freedom of an apsis");
        Real const d =
            Norm(ToV3(dof.position()) - ToV3(it2->second.position()));
        Check(std::fabs(d - a * (periapsis ? 1 - e : 1 + e)) < 1, "distance ",
              (double)d);
        ++it2;
        ++i;
        seq::Step();
      }
    };
    check(true, periapsides1, periapsides2);
    check(false, apoapsides1, apoapsides2);
  }
}

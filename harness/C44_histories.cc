// C44: saving, restoring and reanimating an ephemeris.
#include "harness/ephemeris.h"

#include <algorithm>

using seq::Pick;

namespace {
double const day = 86400;
double const t0 = -250 * day;
// Long enough for 6 checkpoints.
double const t_end = t0 + 1000 * day;

Systm NewSystem(std::string const& kinds) {
  static double const qs[][3] = {
      {1e9, 2e8, 0}, {1.5e11, 1e10, 2e9}, {-2e11, 3e11, 1e10}};
  static double const vs[][3] = {
      {-10, 5, 1}, {-2e3, 2.95e4, 300}, {-1.5e4, -9e3, 200}};
  static double const μs[] = {1.3e20, 4e16, 1.3e17};
  Systm result;
  for (int i = 0; i < kinds.size(); ++i) {
    BodySpec spec{.μ = μs[i],
                  .q = {qs[i][0], qs[i][1], qs[i][2]},
                  .v = {vs[i][0], vs[i][1], vs[i][2]}};
    if (kinds[i] == 'O') {
      spec.oblate = Model{{{2, 0, -1e-1, 0}, {2, 2, 1e-2, 3e-2}},
                          1, 5000, -3e-5, 4, 0.3};
    }
    result.push_back(spec);
  }
  return result;
}

std::unique_ptr<E> NewEphemeris(std::string const& kinds,
                                int const integrator) {
  if (integrator == 0) {
    return ::NewEphemeris(
        NewSystem(kinds), t0, 1,
        {SymmetricLinearMultistepIntegrator<QuinlanTremaine1990Order12,
                                            E::NewtonianMotionEquation>(),
         10 * Day});
  } else {
    return ::NewEphemeris(
        NewSystem(kinds), t0, 1,
        {SymplecticRungeKuttaNyströmIntegrator<BlanesMoan2002SRKN14A,
                                               E::NewtonianMotionEquation>(),
         10 * Day});
  }
}

using Values = std::map<double, std::vector<Dof>>;

Values Evaluate(E const& ephemeris, double const from, double const to) {
  Values result;
  for (double t = t0; t <= to; t += 2.5 * day) {
    if (t < from) { continue; }
    std::vector<Dof> dofs;
    for (auto const& body : ephemeris.bodies()) {
      dofs.push_back(
          ephemeris.trajectory(body)->EvaluateDegreesOfFreedom(At(t)));
    }
    result.emplace(t, dofs);
  }
  return result;
}

Values const& Reference(std::string const& kinds, int const integrator) {
  static std::map<std::pair<std::string, int>, Values> references;
  auto& values = references[{kinds, integrator}];
  if (values.empty()) {
    auto const ephemeris = NewEphemeris(kinds, integrator);
    Check(ephemeris->Prolong(At(t_end + 400 * day)).ok(), "Prolong failed");
    values = Evaluate(*ephemeris, t0, t_end + 400 * day);
  }
  return values;
}

void CheckValues(E const& ephemeris, Values const& reference,
                 char const* const when) {
  double const t_min = Seconds(ephemeris.t_min());
  double const t_max = Seconds(ephemeris.t_max());
  for (auto const& [t, dofs] : Evaluate(ephemeris, t_min, t_max)) {
    if (t == t_min && t > t0) {
      // Evaluated by the next polynomial, as there is no preceding one.
      for (int i = 0; i < dofs.size(); ++i) {
        Check((dofs[i].position() - reference.at(t)[i].position()).Norm() <
                  2 * Metre,
              when, ", body ", i, " is elsewhere at the beginning");
      }
      continue;
    }
    Check(dofs == reference.at(t), when, ", the bodies are elsewhere at ",
          t / day, " d");
    seq::Step();
  }
}

serialization::Ephemeris Save(E const& ephemeris) {
  serialization::Ephemeris message;
  ephemeris.WriteToMessage(&message);
  return message;
}

// The bodies must survive.
void CheckBodies(E const& ephemeris, std::string const& kinds) {
  auto const& bodies = ephemeris.bodies();
  CheckEq(bodies.size(), kinds.size(), "number of bodies");
  auto const system = NewSystem(kinds);
  for (int i = 0; i < kinds.size(); ++i) {
    CheckEq(bodies[i]->name(), "body " + std::to_string(i), "name");
    CheckEq(bodies[i]->is_oblate(), kinds[i] == 'O', "oblate");
    CheckEq(bodies[i]->gravitational_parameter() / Pow<3>(Metre) *
                Pow<2>(Second),
            system[i].μ, "μ");
  }
}

std::string Times(std::vector<double> const& times) {
  std::string result;
  for (double const t : times) {
    result += std::to_string((t - t0) / day) + " ";
  }
  return result;
}
}  // namespace

// Prolonging by bits.
SEQ_HARNESS(prolong, .split = 1) {
  std::string const kinds =
      Pick(std::vector<std::string>{"PPP", "POP", "OP", "PO"});
  int const integrator = Choose(2);
  double const stride =
      Pick(std::vector<double>{1, 10, 33, 80, 81, 160, 450, 1000});
  std::int64_t const steps = Pick(std::vector<std::int64_t>{
      E::unlimited_max_ephemeris_steps, 1, 3, 7, 8, 9});
  Notes("system ", kinds, " integrator ", integrator, " stride ", stride,
        " steps ", steps);
  auto const& reference = Reference(kinds, integrator);
  auto const ephemeris = NewEphemeris(kinds, integrator);
  Check(ephemeris->empty(), "not empty");
  for (double t = t0 + stride * day; t <= t_end; t += stride * day) {
    for (int calls = 0;; ++calls) {
      Check(calls < 1000, "doesn't reach ", (t - t0) / day);
      double const before =
          ephemeris->empty() ? t0 : Seconds(ephemeris->t_max());
      Check(ephemeris->Prolong(At(t), steps).ok(), "Prolong failed");
      double const after = Seconds(ephemeris->t_max());
      Check(after >= before, "t_max decreases");
      Check(steps != E::unlimited_max_ephemeris_steps || after >= t,
            "didn't reach ", (t - t0) / day);
      Check(after <= t + 80 * day, "t_max ", (after - t0) / day, " after ",
            (t - t0) / day);
      // There can be up to 7 points ahead of `before`, and we then complete a
      // polynomial.
      Check(steps == E::unlimited_max_ephemeris_steps ||
                after <= before + (steps + 14) * 10 * day,
            "prolonged by too much");
      CheckEq(Seconds(ephemeris->t_min()), t0, "t_min");
      if (after >= t) { break; }
    }
  }
  Check(ephemeris->last_severe_integration_status().ok(), "status");
  CheckValues(*ephemeris, reference, "after prolonging");
}

// Save, restore, prolong, reanimate.
SEQ_HARNESS(restart, .split = 2, .hang_s = 60) {
  std::string const kinds =
      seq::Thorough() ? Pick(std::vector<std::string>{"PPP", "POP", "OP", "PO"})
                      : Pick(std::vector<std::string>{"POP"});
  int const integrator = Choose(2);
  double const saved =
      t0 + day * Pick(seq::Thorough()
                          ? std::vector<double>{0, 10, 75, 180, 195, 380, 560,
                                                880}
                          : std::vector<double>{0, 75, 195, 560});
  int const saves = 1 + Choose(2);
  auto const& reference = Reference(kinds, integrator);

  std::unique_ptr<E> owned = NewEphemeris(kinds, integrator);
  E* ephemeris = owned.get();
  Check(ephemeris->Prolong(At(saved)).ok(), "Prolong failed");
  std::optional<not_null<std::unique_ptr<E>>> restored;
  std::string history =
      kinds + std::to_string(integrator) + " prolong " + Times({saved});
  for (int save = 0; save < saves; ++save) {
    auto const message = Save(*ephemeris);
    // Saving twice gives the same thing.
    Check(message.SerializeAsString() == Save(*ephemeris).SerializeAsString(),
          "saving has an effect");
    // From the beginning to past the end.
    double const oldest = t0;
    std::vector<double> desired{oldest, oldest + 1 * day, oldest + 10 * day,
                                oldest + 95 * day, oldest + 181 * day,
                                saved - 200 * day, saved - 1, saved};
    // Not everything for the first of two saves.
    bool const brief = save < saves - 1 && !seq::Thorough();
    if (brief) { desired = {oldest, oldest + 95 * day, saved}; }
    double const desired_t_min = desired[Choose(desired.size())];
    if (desired_t_min < oldest || desired_t_min > saved) { seq::Prune(); }
    history += "read " + Times({desired_t_min});
    restored.emplace(E::ReadFromMessage(At(desired_t_min), message));
    ephemeris = restored->get();
    CheckBodies(*ephemeris, kinds);
    double const t = Pick(save < saves - 1
                              ? std::vector<double>{saved, saved + 33 * day}
                          : saves > 1
                              ? std::vector<double>{t_end}
                              : std::vector<double>{saved, saved + 33 * day,
                                                    t_end});
    history += "prolong " + Times({t});
    Notes(history);
    Check(ephemeris->Prolong(At(t)).ok(), "Prolong failed");
    Check(ephemeris->t_min() <= At(desired_t_min), "restored at ",
          (Seconds(ephemeris->t_min()) - t0) / day, " instead of ",
          (desired_t_min - t0) / day);
    Check(ephemeris->t_min() >= At(t0), "t_min before the beginning");
    Check(ephemeris->t_max() >= At(t), "t_max too small");
    CheckValues(*ephemeris, reference, "after restoring");
    std::vector<std::vector<double>> const awaited{
        {}, {t0}, {desired_t_min}, {desired_t_min - 150 * day, t0},
        {desired_t_min - 400 * day, desired_t_min, desired_t_min - 600 * day}};
    auto const await =
        awaited[Choose(brief || save > 0 ? 2 : awaited.size())];
    for (double const s : await) {
      if (s < t0) { seq::Prune(); }
      history += "await " + Times({s});
      Notes(history);
      ephemeris->AwaitReanimation(At(s));
      Check(ephemeris->t_min() <= At(s), "not reanimated");
      Check(ephemeris->t_min() >= At(t0), "t_min before the beginning");
      CheckValues(*ephemeris, reference, "after reanimating");
    }
  }
  Check(ephemeris->Prolong(At(t_end)).ok(), "Prolong failed");
  ephemeris->AwaitReanimation(At(t0));
  CheckEq(Seconds(ephemeris->t_min()), t0, "t_min");
  CheckValues(*ephemeris, reference, "in the end");
  seq::State(Save(*ephemeris).SerializeAsString());
}

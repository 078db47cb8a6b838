// C30: stepping, resuming, cloning and saving fixed step integrations.
#include "harness/integrators.h"

namespace {
// y'' = -y + cos(t / 2), y'' = y1 - y0 ^ 2, with coupling.
absl::Status Acceleration2(Instant const& t, std::vector<Length> const& q,
                           std::vector<Acceleration>& a) {
  double const s = (t - Instant()) / Second;
  double const q0 = q[0] / Metre;
  double const q1 = q[1] / Metre;
  a[0] = (-q0 + 0.5 * s - 0.03125 * s * s * s) * (Metre / Pow<2>(Second));
  a[1] = (q0 - 0.25 * q1 * q1) * (Metre / Pow<2>(Second));
  return absl::OkStatus();
}

absl::Status Derivative1(Instant const& t, ODE1::DependentVariables const& y,
                         ODE1::DependentVariableDerivatives& yʹ) {
  auto const& [q, v] = y;
  auto& [qʹ, vʹ] = yʹ;
  double const s = (t - Instant()) / Second;
  double const x = q / Metre;
  qʹ = v;
  vʹ = (-x + 0.25 * x * x + 0.125 * s) * (Metre / Pow<2>(Second));
  return absl::OkStatus();
}

template<typename ODE>
struct Problem;
template<>
struct Problem<ODE2> {
  static ODE2 Equation() { return {.compute_acceleration = &Acceleration2}; }
  static InitialValueProblem<ODE2> Make(Instant const& t) {
    return {Equation(),
            ODE2::State(t, {1 * Metre, -0.3 * Metre},
                        {0.1 * Metre / Second, 0.7 * Metre / Second})};
  }
  static auto const& TimeOf(ODE2::State const& s) { return s.time; }
};
template<>
struct Problem<ODE1> {
  static ODE1 Equation() { return {.compute_derivative = &Derivative1}; }
  static InitialValueProblem<ODE1> Make(Instant const& t) {
    return {Equation(), ODE1::State(t, {1 * Metre, 0.3 * Metre / Second})};
  }
  static auto const& TimeOf(ODE1::State const& s) { return s.s; }
};

Instant const t0 = Instant() + 0.1 * Second;

// Restarting is exact, except that the BAB compositions evaluate the
// acceleration anew at a time which may differ by 1 ulp.
bool Same(Entry<ODE2> const& e, ODE2::State const& left,
          ODE2::State const& right) {
  if (left == right) { return true; }
  if (e.name.find("BAB") == std::string::npos &&
      e.name.find("SRKN") == std::string::npos &&
      e.name.find("Okunbor") == std::string::npos) {
    return false;
  }
  if (left.time.value != right.time.value) { return false; }
  for (int i = 0; i < left.positions.size(); ++i) {
    if (Abs(left.positions[i].value - right.positions[i].value) >
            1e-14 * Metre ||
        Abs(left.velocities[i].value - right.velocities[i].value) >
            1e-14 * Metre / Second) {
      return false;
    }
  }
  return true;
}
bool Same(Entry<ODE1> const& e, ODE1::State const& left,
          ODE1::State const& right) {
  return left == right;
}

template<typename ODE>
void Explore(std::vector<Entry<ODE>> const& entries) {
  using P = Problem<ODE>;
  using State = typename ODE::State;
  using Instance = typename Integrator<ODE>::Instance;
  auto const& e = entries[Choose(entries.size())];
  double const h = seq::Pick(std::vector<double>{0.25, 0.1, 1.0 / 3});
  int const steps = e.multistep ? e.order + 4 : 4;

  std::vector<State> reference;
  auto const append_to = [](std::vector<State>& v) {
    return [&v](State const& s) { v.push_back(s); };
  };
  Instant const end = t0 + (steps + 0.4) * h * Second;
  e.integrator->NewInstance(P::Make(t0), append_to(reference), h * Second)
      ->Solve(end)
      .IgnoreError();

  // The times are regularly spaced.
  CheckEq(reference.size(), steps, e.name, " number of steps for ", h);
  long double const start = 0.1;
  for (int k = 0; k < steps; ++k) {
    double const t =
        (P::TimeOf(reference[k]).value - Instant()) / Second;
    long double const expected = start + (k + 1) * static_cast<long double>(h);
    Check(std::abs(t - expected) <= 4e-16 * expected, e.name, " step ", k,
          " of size ", h, " is at ", t);
  }

  // The same integration, in 2 or 3 pieces, with something in between.
  auto const fractions = std::vector<double>{0, 0.03, 0.5, 0.97};
  std::vector<State> solution;
  auto instance =
      e.integrator->NewInstance(P::Make(t0), append_to(solution), h * Second);
  Instant previous = t0;
  int const max_pieces = e.multistep && (seq::Thorough() || h == 0.1) ? 3 : 2;
  int const pieces = Choose(max_pieces) + 1;
  // The actions only make sense once.
  int const action = Choose(4);
  // Not implemented for the first order equations.
  if (action == 1 && std::is_same_v<ODE, ODE1>) { seq::Prune(); }
  int const action_at = Choose(pieces);
  std::vector<std::unique_ptr<Instance>> originals;
  std::vector<State> ignored;
  for (int p = 0; p < pieces; ++p) {
    int const k = Choose(steps);
    double const f = seq::Pick(fractions);
    Instant const t = t0 + (k + f) * h * Second;
    if (t <= previous) { seq::Prune(); }
    if (pieces == 3 && !seq::Thorough() && (f != 0.97 || k % 2 != p % 2)) {
      seq::Prune();
    }
    previous = t;
    Instant const time = P::TimeOf(instance->state()).value;
    if (t > time) { instance->Solve(t).IgnoreError(); }
    seq::Step();
    Check(P::TimeOf(instance->state()).value <= t, e.name, " went too far");
    int const n = solution.size();
    Check(n <= steps, e.name, " too many steps");
    for (int i = 0; i < n; ++i) {
      Check(Same(e, solution[i], reference[i]), e.name, " step ", i,
            " differs after a piece ending at ", k + f);
    }
    // The number of steps that fit, except when rounding makes it unclear.
    if (f == 0) {
      Check(n == k || n == k - 1 || n == k + 1, e.name, " has ", n,
            " steps at ", k);
    } else {
      CheckEq(n, k, e.name, " number of steps at ", k + f);
    }
    if (p == action_at) {
      switch (action) {
        case 0:
          break;
        case 1: {
          serialization::IntegratorInstance message;
          instance->WriteToMessage(&message);
          serialization::IntegratorInstance parsed;
          Check(parsed.ParseFromString(message.SerializeAsString()));
          if constexpr (std::is_same_v<ODE, ODE2>) {
            instance = FixedStepSizeIntegrator<ODE>::Instance::ReadFromMessage(
                parsed, P::Equation(), append_to(solution));
            serialization::IntegratorInstance again;
            instance->WriteToMessage(&again);
            Check(again.SerializeAsString() == message.SerializeAsString(),
                  e.name, " serialization");
          } else {
            seq::Prune();
          }
          break;
        }
        case 2: {  // Continue with a clone, the original being left alone.
          auto clone = instance->Clone();
          originals.push_back(std::move(instance));
          instance = std::move(clone);
          break;
        }
        case 3: {  // Continue with the original, the clone goes further.
          auto clone = instance->Clone();
          std::vector<State> const before = solution;
          auto const saved = instance->state();
          clone->Solve(end).IgnoreError();
          solution = before;
          Check(instance->state() == saved, e.name, " shares state with clone");
          break;
        }
      }
    }
  }
  // Not always possible to solve if all the steps were done.
  instance->Solve(end).IgnoreError();
  CheckEq(solution.size(), steps, e.name, " number of steps");
  for (int i = 0; i < steps; ++i) {
    Check(Same(e, solution[i], reference[i]), e.name, " step ", i, " differs");
  }
  Check(e.multistep || Same(e, instance->state(), reference.back()), e.name,
        " state");
  seq::State(std::hash<double>()((P::TimeOf(instance->state()).value -
                                  Instant()) / Second) ^
             std::hash<std::string>()(e.name));
}
}  // namespace

SEQ_HARNESS(second_order, .split = 3) { Explore(Integrators2()); }
SEQ_HARNESS(first_order, .split = 3) { Explore(Integrators1()); }

// Backward integration, for the methods which support it, and reversibility.
SEQ_HARNESS(backward, .split = 2) {
  auto const& e = Integrators2()[Choose(Integrators2().size())];
  if (e.multistep) { seq::Prune(); }
  double const h = seq::Pick(std::vector<double>{0.25, 0.1, 1.0 / 3});
  int const n = 1 + Choose(8);
  int last_evaluation = 0;
  ODE2::State last;
  int steps = 0;
  auto const append = [&](ODE2::State const& s) { last = s; ++steps; };
  auto const forward = e.integrator->NewInstance(Problem<ODE2>::Make(t0),
                                                 append, h * Second);
  forward->Solve(t0 + (n + 0.5) * h * Second).IgnoreError();
  CheckEq(steps, n, e.name, " forward");
  steps = 0;
  InitialValueProblem<ODE2> back{Problem<ODE2>::Equation(), last};
  Instant const start = last.time.value;
  auto const backward = e.integrator->NewInstance(back, append, -h * Second);
  backward->Solve(t0 - 0.5 * h * Second).IgnoreError();
  CheckEq(steps, n, e.name, " backward");
  auto const initial = Problem<ODE2>::Make(t0).initial_state;
  Check(Abs(last.time.value - t0) <= 1e-15 * Second, e.name, " time");
  if (e.time_reversible) {
    for (int i = 0; i < 2; ++i) {
      Check(Abs(last.positions[i].value - initial.positions[i].value) <
                1e-12 * Metre, e.name, " is not reversible");
      Check(Abs(last.velocities[i].value - initial.velocities[i].value) <
                1e-12 * Metre / Second, e.name, " is not reversible");
    }
  }
  seq::Step(2 * n);
}

// Errors and cancellation.
SEQ_HARNESS(errors, .split = 2) {
  auto const& e = Integrators2()[Choose(Integrators2().size())];
  if (e.multistep) { seq::Prune(); }
  double const h = 0.25;
  int const bad = Choose(5 * (e.evaluations + 1));
  bool const abort = Choose(2);
  int evaluations = 0;
  ODE2 equation;
  equation.compute_acceleration = [&](auto const& t, auto const& q, auto& a) {
    Acceleration2(t, q, a).IgnoreError();
    return evaluations++ == bad
               ? (abort ? absl::AbortedError("a") : absl::OutOfRangeError("o"))
               : absl::OkStatus();
  };
  std::vector<ODE2::State> solution;
  std::vector<ODE2::State> reference;
  auto problem = Problem<ODE2>::Make(t0);
  e.integrator
      ->NewInstance(problem, [&](auto const& s) { reference.push_back(s); },
                    h * Second)
      ->Solve(t0 + 5.2 * h * Second)
      .IgnoreError();
  problem.equation = equation;
  auto const status =
      e.integrator
          ->NewInstance(problem, [&](auto const& s) { solution.push_back(s); },
                        h * Second)
          ->Solve(t0 + 5.2 * h * Second);
  bool const happened = bad < evaluations;
  if (!happened) {
    Check(status.ok(), e.name, " status");
  } else {
    CheckEq(status.code(), abort ? absl::StatusCode::kAborted
                                 : absl::StatusCode::kOutOfRange,
            e.name, " status");
  }
  // An abort stops at the end of the step, anything else doesn't matter.
  if (happened && abort) {
    Check(solution.size() <= bad / e.evaluations + 1, e.name, " abort");
    Check(!solution.empty(), e.name, " abort");
  } else {
    CheckEq(solution.size(), 5, e.name, " steps");
    int const total = evaluations;
    Check(total == 5 * e.evaluations || total == 5 * e.evaluations + 1, e.name,
          " makes ", total, " evaluations in 5 steps");
  }
  for (int i = 0; i < solution.size(); ++i) {
    Check(solution[i] == reference[i], e.name, " step ", i);
  }
  seq::Step(solution.size());
}

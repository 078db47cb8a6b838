// C32: adaptive step integrations.
#include "harness/adaptive.h"

namespace {
struct Trial {
  double h;
  double ratio;
};

struct Motion {
  Scalar a;
  Point initial;
};

Motion const motions[] = {
    {[](double t, double y, double v) { return -y; }, {0.25, 1, 0}},
    {[](double t, double y, double v) { return y - 2 * y * y * y + 0.1 * t; },
     {-1, 1, 0.5}},
    // An abrupt change.
    {[](double t, double y, double v) {
       return -y / (0.02 + y * y);
     },
     {0, 1, 0}}};

template<typename Case, bool serializable = Case::serializable>
struct Run {
  using ODE = typename Case::ODE;
  using A = AdaptiveStepSizeIntegrator<ODE>;

  Motion motion;
  double tolerance;
  bool relative = false;
  std::vector<Trial> trials;
  std::vector<Point> points;
  std::vector<int> accepted_at;  // The number of trials before each point.

  auto Append() {
    return [this](typename ODE::State const& s) {
      points.push_back(MakePoint(s));
      accepted_at.push_back(trials.size());
    };
  }
  auto Ratio() {
    return [this](Time const& h, typename ODE::State const& s,
                  typename ODE::State::Error const& e) {
      Point const error = MakeError(e);
      Point const p = MakePoint(s);
      double ratio =
          tolerance / (relative ? std::max(std::abs(error.q / p.q),
                                           std::abs(error.v / p.v))
                                : std::max(std::abs(error.q),
                                           std::abs(error.v)));
      // The first step may be so large that there are overflows.
      if (!std::isfinite(error.q) || !std::isfinite(error.v) || ratio < 1e-4) {
        ratio = 1e-4;
      }
      trials.push_back({h / Second, ratio});
      return ratio;
    };
  }
  auto New(double const first_step, std::int64_t const max_steps,
           bool const exact, std::function<absl::Status()> const& s = {}) {
    return Case::Integrator().NewInstance(
        {Adapter<ODE>::Equation(motion.a, s), MakeState<ODE>(motion.initial)},
        Append(), Ratio(),
        typename A::Parameters(first_step * Second, 0.9, max_steps, exact));
  }
};

Instant At(double const t) { return Instant() + t * Second; }

// Checks the trials and points in a run which went to `t_final`.
template<typename R>
void CheckSteps(R const& run, double const direction, double const first_step,
                double const t_final, bool const exact, int const lower_order,
                bool const one_piece) {
  double t = run.motion.initial.t;
  int begin = 0;
  int const n = run.points.size();
  for (int i = 0; i < n; ++i) {
    int const end = run.accepted_at[i];
    Check(end > begin, "A step without computing its error");
    for (int j = begin; j < end; ++j) {
      Check((run.trials[j].ratio < 1) == (j + 1 < end), "Trial ", j,
            " with ratio ", run.trials[j].ratio, " step ", run.trials[j].h);
      Check(run.trials[j].h * direction > 0, "Step in the wrong direction");
      if (j > begin) {
        Check(std::abs(run.trials[j].h) < std::abs(run.trials[j - 1].h),
              "Step not reduced after a rejection");
      }
      if (j > 0 && one_piece) {
        double const desired =
            run.trials[j - 1].h * 0.9 *
            std::pow(run.trials[j - 1].ratio, 1.0 / (lower_order + 1));
        bool const clipped =
            exact &&
            std::abs(t + run.trials[j].h - t_final) < 1e-14 &&
            std::abs(desired) >= std::abs(run.trials[j].h);
        Check(clipped ||
                  std::abs(run.trials[j].h - desired) <=
                      1e-12 * std::abs(desired),
              "Step ", run.trials[j].h, " should be ", desired);
      }
    }
    double const h = run.trials[end - 1].h;
    double const next = run.points[i].t;
    Check(std::abs(t + h - next) <= 1e-14 * (1 + std::abs(next)), "Step of ",
          h, " from ", t, " to ", next);
    Check(direction * next > direction * t, "Times not monotonic");
    Check(direction * next <= direction * t_final, next,
          " is beyond the end ", t_final, " from ", t, " step ", h);
    t = next;
    begin = end;
  }
  if (!run.trials.empty()) {
    double const h = run.trials[0].h;
    double const length = std::abs(t_final - run.motion.initial.t);
    Check(h == first_step ||
              (exact && std::abs(first_step) >= length &&
               std::abs(std::abs(h) - length) < 1e-14),
          "First step ", h, " should be ", first_step);
  }
}

template<typename Case>
void Explore() {
  using R = Run<Case>;
  R run;
  run.motion = motions[Choose(std::size(motions))];
  run.tolerance = seq::Pick(std::vector<double>{1e-3, 1e-6, 1e-9});
  double const direction = Choose(2) ? 1 : -1;
  double const duration = seq::Pick(std::vector<double>{0.01, 1, 3.3});
  double const first_step =
      direction * seq::Pick(std::vector<double>{1e-3, 0.3, 2, 100});
  bool const exact = Choose(2);
  double const t_final = run.motion.initial.t + direction * duration;
  int const lower_order = Case::Method::lower_order;

  R whole = run;
  auto const status = whole.New(first_step, 1'000'000, exact)
                          ->Solve(At(t_final));
  Check(status.ok(), "Solve failed");
  CheckSteps(whole, direction, first_step, t_final, exact, lower_order, true);
  int const n = whole.points.size();
  seq::Step(whole.trials.size());
  seq::State(n);
  if (exact) {
    Check(n > 0);
    CheckEq(whole.points.back().t, t_final, "final time");
  } else {
    // The next step would have gone beyond the end.
    double const t =
        n == 0 ? run.motion.initial.t : whole.points.back().t;
    auto const& trial = whole.trials.back();
    Check(trial.ratio >= 1, "Stops after a rejected step");
    Check(direction * (t + trial.h) >= direction * t_final - 1e-14,
          "Stopped early at ", t, " where the step is ", trial.h,
          " and the end is ", t_final);
  }

  // With a limit on the number of steps.
  int const max_steps = 1 + Choose(std::min(n + 2, seq::Thorough() ? 40 : 12));
  int const what = Choose(exact ? 1 : 3);
  R limited = run;
  if (what == 0) {
    auto const instance = limited.New(first_step, max_steps, exact);
    auto const status = instance->Solve(At(t_final));
    if (max_steps < n || (max_steps == n && !exact)) {
      CheckEq(status.code(), termination_condition::ReachedMaximalStepCount,
              "Status with ", max_steps, " out of ", n);
      CheckEq(limited.points.size(), max_steps, "limited steps");
    } else {
      Check(status.ok(), "Status with ", max_steps, " out of ", n);
      CheckEq(limited.points.size(), n, "limited steps");
    }
    for (int i = 0; i < limited.points.size(); ++i) {
      Check(limited.points[i] == whole.points[i], "Limited point ", i);
    }
  } else {
    // Restarted at different points.
    int const k = std::min(max_steps, n);
    if (n == 0) { seq::Prune(); }
    double const f = seq::Pick(std::vector<double>{0.1, 0.5, 0.9});
    double const start = k == 1 ? run.motion.initial.t
                                : whole.points[k - 2].t;
    double const t1 = start + f * (whole.points[k - 1].t - start);
    if (t1 == start) { seq::Prune(); }
    auto instance = limited.New(first_step, 1'000'000, exact);
    Check(instance->Solve(At(t1)).ok());
    CheckEq(limited.points.size(), k - 1, "points before ", t1);
    Check(MakePoint(instance->state()) ==
              (k == 1 ? run.motion.initial : limited.points.back()),
          "State at the end of a piece");
    if (what == 2) {
      auto clone = instance->Clone();
      if constexpr (Case::serializable) {
        serialization::IntegratorInstance message;
        instance->WriteToMessage(&message);
        serialization::IntegratorInstance parsed;
        Check(parsed.ParseFromString(message.SerializeAsString()));
        auto const read = R::A::Instance::ReadFromMessage(
            parsed, Adapter<typename Case::ODE>::Equation(run.motion.a),
            limited.Append(), limited.Ratio());
        R const before = limited;
        Check(read->Solve(At(t_final)).ok());
        R const after = limited;
        limited = before;
        Check(clone->Solve(At(t_final)).ok());
        Check(after.points == limited.points, "Serialization");
        limited = before;
      } else {
        R const before = limited;
        Check(clone->Solve(At(t_final)).ok());
        limited = before;
      }
      Check(instance->Solve(At(t_final)).ok());
    } else {
      Check(instance->Solve(At(t_final)).ok());
    }
    CheckEq(limited.points.size(), n, "points after restarting");
    for (int i = 0; i < n; ++i) {
      // Evaluating the derivative anew is not exact, which affects the error
      // estimate.
      double const ε = 1e-14 / run.tolerance;
      Check(std::abs(limited.points[i].t - whole.points[i].t) < ε &&
                std::abs(limited.points[i].q - whole.points[i].q) < ε &&
                std::abs(limited.points[i].v - whole.points[i].v) < ε,
            "Restarted point ", i, " ", limited.points[i].t, " ", whole.points[i].t, " ", limited.points[i].q - whole.points[i].q);
    }
  }
}

// Singularities.
template<typename Case>
void Singular() {
  using R = Run<Case>;
  R run;
  double const direction = Choose(2) ? 1 : -1;
  bool const exact = Choose(2);
  bool const soft = Choose(2);
  run.tolerance = seq::Pick(std::vector<double>{1e-2, 1e-5});
  run.relative = true;
  double const first_step =
      direction * seq::Pick(std::vector<double>{1e-3, 0.3});
  // y = 1 / (1 - t), or y = sqrt(1 - t) in the other case.
  run.motion.a = [soft](double t, double y, double v) {
    return soft ? -0.25 / (y * y * y) : 2 * y * y * y;
  };
  run.motion.initial = {0, 1, direction * (soft ? -0.5 : 1)};
  auto const status = run.New(first_step, 100'000, exact)
                          ->Solve(At(direction * 2));
  CheckEq(status.code(), termination_condition::VanishingStepSize, "status");
  Check(!run.points.empty() &&
            std::abs(std::abs(run.points.back().t) - 1) < 0.1,
        "The singularity is at 1, not ", run.points.back().t);
  CheckSteps(run, direction, first_step, direction * 2, exact,
             Case::Method::lower_order, true);
  seq::Step(run.trials.size());
}

// An error in the right-hand side matters if the step is accepted.
template<typename Case>
void Errors() {
  using R = Run<Case>;
  R run;
  run.motion = motions[Choose(std::size(motions))];
  run.tolerance = seq::Pick(std::vector<double>{1e-3, 1e-6});
  double const first_step = seq::Pick(std::vector<double>{0.01, 1});
  R good = run;
  double const t_final = run.motion.initial.t + 2;
  int evaluations = 0;
  // The number of trials when each evaluation took place.
  std::vector<int> trial;
  Check(good.New(first_step, 1000, true, [&] {
    trial.push_back(good.trials.size());
    return absl::OkStatus();
  })->Solve(At(t_final)).ok());
  int const limit = seq::Thorough() ? 400 : 150;
  if (trial.size() > limit) { trial.resize(limit); }
  int const bad = Choose(trial.size());
  auto const status = run.New(first_step, 1000, true, [&] {
    return evaluations++ == bad ? absl::UnavailableError("e")
                                : absl::OkStatus();
  })->Solve(At(t_final));
  Check(run.points == good.points, "The points changed");
  bool const accepted =
      good.trials[trial[bad]].ratio >= 1 ||
      (bad == 0 && Case::Method::first_same_as_last);
  if (accepted) {
    if (bad != 0) {
      CheckEq(status.code(), absl::StatusCode::kUnavailable, "status");
    }
  } else {
    Check(status.ok(), "Error in a rejected step");
  }
  seq::Step();
}
}  // namespace

SEQ_HARNESS(rkn434fm, .split = 4) { Explore<RKN434FM>(); }
SEQ_HARNESS(rkng45, .split = 4) { Explore<RKNG45>(); }
SEQ_HARNESS(rkng34, .split = 4) { Explore<RKNG34>(); }
SEQ_HARNESS(rk547fc, .split = 4) { Explore<RK547FC>(); }
SEQ_HARNESS(singular, .split = 3) {
  switch (Choose(4)) {
    case 0: return Singular<RKN434FM>();
    case 1: return Singular<RKNG45>();
    case 2: return Singular<RKNG34>();
    case 3: return Singular<RK547FC>();
  }
}
SEQ_HARNESS(errors, .split = 3) {
  switch (Choose(4)) {
    case 0: return Errors<RKN434FM>();
    case 1: return Errors<RKNG45>();
    case 2: return Errors<RKNG34>();
    case 3: return Errors<RK547FC>();
  }
}

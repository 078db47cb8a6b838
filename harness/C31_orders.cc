// C31: the methods have the order that they announce.
#include "harness/integrators.h"

SEQ_HARNESS(quadratures, .split = 2) {
  // y" = t ^ k is integrated exactly.
  auto const& e = Integrators2()[Choose(Integrators2().size())];
  int const order = std::min(e.order, e.startup_order);
  int const k = Choose(order - 1);
  double const h = seq::Pick(std::vector<double>{0.125, 0.25, 1.0 / 3});
  int const n = e.multistep ? e.order + 6 : 4;
  double const start = seq::Pick(std::vector<double>{0, -1});
  auto const q = [k](double const t) {
    return std::pow(t, k + 2) / ((k + 1) * (k + 2)) + t / 2 - 1;
  };
  auto const v = [k](double const t) {
    return std::pow(t, k + 1) / (k + 1) + 0.5;
  };
  ODE2 equation;
  equation.compute_acceleration = [k](Instant const& t,
                                      std::vector<Length> const&,
                                      std::vector<Acceleration>& a) {
    a[0] = std::pow((t - Instant()) / Second, k) * Metre / Pow<2>(Second);
    return absl::OkStatus();
  };
  Instant const t0 = Instant() + start * Second;
  std::vector<ODE2::State> solution;
  e.integrator
      ->NewInstance({equation, ODE2::State(t0, {q(start) * Metre},
                                           {v(start) * Metre / Second})},
                    [&](auto const& s) { solution.push_back(s); }, h * Second)
      ->Solve(t0 + (n + 0.5) * h * Second)
      .IgnoreError();
  CheckEq(solution.size(), n);
  for (auto const& s : solution) {
    double const t = (s.time.value - Instant()) / Second;
    double const scale = 1 + std::abs(q(t)) + std::abs(v(t)) +
                         std::pow(std::abs(t), k);
    // Symmetric multistep methods obtain their velocities separately.
    Check(std::abs(s.positions[0].value / Metre - q(t)) < 1e-12 * scale,
          e.name, " position for t^", k, " at ", t, ": ",
          s.positions[0].value / Metre - q(t));
    Check(std::abs(s.velocities[0].value / (Metre / Second) - v(t)) <
              1e-11 * scale,
          e.name, " velocity for t^", k, " at ", t, ": ",
          s.velocities[0].value / (Metre / Second) - v(t));
    seq::Step();
  }
}

SEQ_HARNESS(quadratures1, .split = 2) {
  auto const& e = Integrators1()[Choose(Integrators1().size())];
  int const order = std::min(e.order, e.startup_order);
  int const k = Choose(order);
  double const h = seq::Pick(std::vector<double>{0.125, 0.25, 1.0 / 3});
  int const n = e.multistep ? e.order + 6 : 4;
  auto const q = [k](double const t) { return std::pow(t, k + 1) / (k + 1) - 1; };
  ODE1 equation;
  equation.compute_derivative = [k](Instant const& t,
                                    ODE1::DependentVariables const& y,
                                    ODE1::DependentVariableDerivatives& yʹ) {
    auto& [qʹ, vʹ] = yʹ;
    qʹ = std::pow((t - Instant()) / Second, k) * Metre / Second;
    vʹ = -qʹ / Second;
    return absl::OkStatus();
  };
  std::vector<ODE1::State> solution;
  e.integrator
      ->NewInstance({equation, ODE1::State(Instant(), {q(0) * Metre,
                                           -q(0) * Metre / Second})},
                    [&](auto const& s) { solution.push_back(s); }, h * Second)
      ->Solve(Instant() + (n + 0.5) * h * Second)
      .IgnoreError();
  CheckEq(solution.size(), n);
  for (auto const& s : solution) {
    double const t = (s.s.value - Instant()) / Second;
    double const scale = 1 + std::abs(q(t)) + std::pow(std::abs(t), k);
    auto const& [y, v] = s.y;
    Check(std::abs(y.value / Metre - q(t)) < 1e-12 * scale,
          e.name, " for t^", k, " at ", t, ": ", y.value / Metre - q(t));
    Check(std::abs(v.value / (Metre / Second) + q(t)) < 1e-12 * scale,
          e.name, " for t^", k, " at ", t);
    seq::Step();
  }
}

namespace {
// Two nonlinear problems with known solutions.
struct Nonlinear {
  // Kepler's problem with an eccentric orbit is not of much use for big steps;
  // y" = 2 y ^ 3 with y = 1 / (2 - t), and a pendulum-like y" = y - 2 y ^ 3
  // with y = sech t.
  static double a(int const p, double const y) {
    return p == 0 ? 2 * y * y * y : p == 1 ? y - 2 * y * y * y : -y;
  }
  static double q(int const p, double const t) {
    return p == 0 ? 1 / (3 - t) : p == 1 ? 1 / std::cosh(t) : std::cos(t);
  }
  static double v(int const p, double const t) {
    return p == 0   ? 1 / ((3 - t) * (3 - t))
           : p == 1 ? -std::tanh(t) / std::cosh(t)
                    : -std::sin(t);
  }
};

double Error2(Entry<ODE2> const& e, int const p, int const n) {
  double const duration = e.multistep ? 2.5 : 1.5;
  double const start = -0.5;
  double const h = duration / n;
  ODE2 equation;
  equation.compute_acceleration = [p](Instant const& t,
                                      std::vector<Length> const& q,
                                      std::vector<Acceleration>& a) {
    a[0] = Nonlinear::a(p, q[0] / Metre) * Metre / Pow<2>(Second);
    return absl::OkStatus();
  };
  ODE2::State last;
  Instant const t0 = Instant() + start * Second;
  e.integrator
      ->NewInstance(
          {equation, ODE2::State(t0, {Nonlinear::q(p, start) * Metre},
                                 {Nonlinear::v(p, start) * Metre / Second})},
          [&](auto const& s) { last = s; }, h * Second)
      ->Solve(t0 + (duration + 0.5 * h) * Second)
      .IgnoreError();
  double const t = (last.time.value - Instant()) / Second;
  return std::max(
      std::abs(last.positions[0].value / Metre - Nonlinear::q(p, t)),
      std::abs(last.velocities[0].value / (Metre / Second) -
               Nonlinear::v(p, t)));
}

double Error1(Entry<ODE1> const& e, int const p, int const n) {
  double const duration = 2.5;
  double const start = -0.5;
  double const h = duration / n;
  ODE1 equation;
  equation.compute_derivative = [p](Instant const& t,
                                    ODE1::DependentVariables const& y,
                                    ODE1::DependentVariableDerivatives& yʹ) {
    auto const& [q, v] = y;
    auto& [qʹ, vʹ] = yʹ;
    qʹ = v;
    vʹ = Nonlinear::a(p, q / Metre) * Metre / Pow<2>(Second);
    return absl::OkStatus();
  };
  ODE1::State last;
  Instant const t0 = Instant() + start * Second;
  e.integrator
      ->NewInstance(
          {equation, ODE1::State(t0, {Nonlinear::q(p, start) * Metre,
                                 Nonlinear::v(p, start) * Metre / Second})},
          [&](auto const& s) { last = s; }, h * Second)
      ->Solve(t0 + (duration + 0.5 * h) * Second)
      .IgnoreError();
  double const t = (last.s.value - Instant()) / Second;
  auto const& [y, v] = last.y;
  return std::max(std::abs(y.value / Metre - Nonlinear::q(p, t)),
                  std::abs(v.value / (Metre / Second) - Nonlinear::v(p, t)));
}

template<typename Error>
void Converges(std::string const& name, int const order, int const first,
               Error const& error) {
  // Halve the step until rounding dominates; the best observed order.
  double const start = error(first);
  double previous = start;
  double best = -1;
  double smallest = std::isnan(previous) ? 1 : previous;
  std::ostringstream trace;
  trace << previous;
  for (int n = 2 * first; n <= 4096 * first; n *= 2) {
    double const current = error(n);
    trace << " " << current;
    smallest = std::min(smallest, current);
    if (previous < 0.3) { best = std::max(best, std::log2(previous / current)); }
    if (current < 2e-14) { break; }
    previous = current;
    seq::Step();
  }
  seq::Notes(name, " order ", order, " best ", best, ": ", trace.str());
  // Some methods are very precise from the start on a linear problem.
  if (!(start < 1e-12)) Check(best > order - 0.75, name, " should have order ", order,
        " but the errors are ", trace.str());
  Check(smallest < (order <= 2 ? 1e-6 : 1e-10), name, " doesn't converge");
}
}  // namespace

SEQ_HARNESS(convergence, .split = 2) {
  auto const& e = Integrators2()[Choose(Integrators2().size())];
  int const p = Choose(3);
  Converges(e.name, std::min(e.order, 7), e.multistep ? 20 : 1,
            [&](int const n) { return Error2(e, p, n); });
}
SEQ_HARNESS(convergence1, .split = 2) {
  auto const& e = Integrators1()[Choose(Integrators1().size())];
  int const p = Choose(3);
  Converges(e.name, std::min(e.order, e.startup_order + 1), e.multistep ? 10 : 1,
            [&](int const n) { return Error1(e, p, n); });
}

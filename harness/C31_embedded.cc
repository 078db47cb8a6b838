// C31: the embedded methods have the orders that they announce.
#include "harness/adaptive.h"

namespace {
struct Problem {
  Scalar a;
  std::function<double(double)> q;
  std::function<double(double)> v;
};

std::vector<Problem> const& Problems(bool const velocity) {
  static auto const& special = *new std::vector<Problem>{
      {[](double t, double y, double) { return 2 * y * y * y; },
       [](double t) { return 1 / (3 - t); },
       [](double t) { return 1 / ((3 - t) * (3 - t)); }},
      {[](double t, double y, double) { return y - 2 * y * y * y; },
       [](double t) { return 1 / std::cosh(t); },
       [](double t) { return -std::tanh(t) / std::cosh(t); }},
      {[](double t, double y, double) { return -y + t; },
       [](double t) { return std::cos(t) + t; },
       [](double t) { return -std::sin(t) + 1; }}};
  static auto const& general = *new std::vector<Problem>{
      special[0], special[1], special[2],
      // y = exp(sin t).
      {[](double t, double y, double v) {
         return v * v / y - y * std::sin(t);
       },
       [](double t) { return std::exp(std::sin(t)); },
       [](double t) { return std::exp(std::sin(t)) * std::cos(t); }},
      // y = 1 / (1 + t ^ 2).
      {[](double t, double y, double v) { return -2 * y * y - 4 * t * y * v; },
       [](double t) { return 1 / (1 + t * t); },
       [](double t) { return -2 * t / ((1 + t * t) * (1 + t * t)); }}};
  return velocity ? general : special;
}

// Takes n steps of equal length, returns the largest error and the largest
// error estimate.
template<typename Case>
std::pair<double, double> Steps(Problem const& p, double const start,
                                double const h, int const n) {
  using ODE = typename Case::ODE;
  using A = AdaptiveStepSizeIntegrator<ODE>;
  constexpr double safety = 0.5;
  double error = 0;
  double estimate = 0;
  int count = 0;
  auto const instance = Case::Integrator().NewInstance(
      {Adapter<ODE>::Equation(p.a),
       MakeState<ODE>({start, p.q(start), p.v(start)})},
      [&](typename ODE::State const& s) {
        Point const at = MakePoint(s);
        error = std::max({error, std::abs(at.q - p.q(at.t)),
                          std::abs(at.v - p.v(at.t))});
        ++count;
      },
      [&](Time const&, typename ODE::State const&,
          typename ODE::State::Error const& e) {
        Point const at = MakeError(e);
        estimate = std::max({estimate, std::abs(at.q), std::abs(at.v)});
        return std::pow(1 / safety, Case::Method::lower_order + 1);
      },
      typename A::Parameters(h * Second, safety, 1'000'000, false));
  instance->Solve(Instant() + (start + (n + 0.5) * h) * Second).IgnoreError();
  CheckEq(count, n, "number of steps");
  return {error, estimate};
}

template<typename Case>
void Quadrature() {
  using Method = typename Case::Method;
  int const k = Choose(Method::higher_order);
  double const h = seq::Pick(std::vector<double>{0.125, 0.25, 1.0 / 3, -0.25});
  double const start = seq::Pick(std::vector<double>{0, -1, 0.7});
  // For RK the velocity is the quadrature, as is the position for the others.
  Problem const p{
      [k](double t, double, double) { return std::pow(t, k); },
      [k](double t) { return std::pow(t, k + 2) / ((k + 1) * (k + 2)); },
      [k](double t) { return std::pow(t, k + 1) / (k + 1); }};
  auto const [error, estimate] = Steps<Case>(p, start, h, 4);
  // Positions are one degree higher.
  if (k + 2 <= Method::higher_order) {
    Check(error < 1e-13, "t^", k, " has an error ", error);
  }
  if (k + 2 <= Method::lower_order) {
    Check(estimate < 1e-13, "t^", k, " has an estimate ", estimate);
  }
  seq::Step(4);
}

template<typename Case>
void Convergence() {
  using Method = typename Case::Method;
  auto const& all = Problems(Case::velocity);
  Problem const& p = all[Choose(all.size())];
  double const start = seq::Pick(std::vector<double>{-0.5, 0.2});
  double const duration = seq::Pick(std::vector<double>{1.5, -1});
  double previous_error = 0;
  double previous_estimate = 0;
  double order = 0;
  double estimate_order = 0;
  std::ostringstream trace;
  for (int n = 4; n <= 512; n *= 2) {
    auto const [error, estimate] = Steps<Case>(p, start, duration / n, n);
    trace << error << "/" << estimate << " ";
    if (previous_error != 0) {
      if (error > 1e-14) {
        order = std::max(order, std::log2(previous_error / error));
      }
      if (estimate > 1e-15) {
        estimate_order = std::log2(previous_estimate / estimate);
      }
    }
    previous_error = error;
    previous_estimate = estimate;
    seq::Step(n);
  }
  seq::Notes(trace.str(), order, " ", estimate_order);
  Check(previous_error < 1e-8, "Doesn't converge: ", trace.str());
  Check(order > Method::higher_order - 0.2, "Order ", order, " instead of ",
        Method::higher_order, ": ", trace.str());
  Check(estimate_order > Method::lower_order + 1 - 0.3 &&
            estimate_order < Method::lower_order + 1 + 1.5,
        "Order of the estimate ", estimate_order, " instead of ",
        Method::lower_order + 1, ": ", trace.str());
}
}  // namespace

SEQ_HARNESS(embedded_quadrature, .split = 1) {
  switch (Choose(4)) {
    case 0: return Quadrature<RKN434FM>();
    case 1: return Quadrature<RKNG45>();
    case 2: return Quadrature<RKNG34>();
    case 3: return Quadrature<RK547FC>();
  }
}
SEQ_HARNESS(embedded_convergence, .split = 1) {
  switch (Choose(4)) {
    case 0: return Convergence<RKN434FM>();
    case 1: return Convergence<RKNG45>();
    case 2: return Convergence<RKNG34>();
    case 3: return Convergence<RK547FC>();
  }
}

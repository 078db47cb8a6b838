// The adaptive step integrators, with an interface common to the equations.
#pragma once

#include "harness/principia.h"
#include "integrators/embedded_explicit_generalized_runge_kutta_nyström_integrator.hpp"
#include "integrators/embedded_explicit_runge_kutta_integrator.hpp"
#include "integrators/embedded_explicit_runge_kutta_nyström_integrator.hpp"
#include "integrators/integrators.hpp"
#include "integrators/methods.hpp"
#include "integrators/ordinary_differential_equations.hpp"
#include "serialization/integrators.pb.h"

using namespace principia::integrators::_integrators;
using namespace principia::integrators::_methods;
using namespace principia::integrators::_ordinary_differential_equations;
using namespace principia::integrators::
    _embedded_explicit_generalized_runge_kutta_nyström_integrator;
using namespace principia::integrators::
    _embedded_explicit_runge_kutta_integrator;
using namespace principia::integrators::
    _embedded_explicit_runge_kutta_nyström_integrator;

namespace {
using ODES = SpecialSecondOrderDifferentialEquation<Length>;
using ODEG = ExplicitSecondOrderOrdinaryDifferentialEquation<Length>;
using ODE1 =
    ExplicitFirstOrderOrdinaryDifferentialEquation<Instant, Length, Speed>;

// y" = a(t, y, v).
using Scalar = std::function<double(double t, double y, double v)>;

template<typename ODE>
struct Adapter;

template<>
struct Adapter<ODES> {
  static ODES Equation(Scalar const& a, std::function<absl::Status()> s = {}) {
    return {.compute_acceleration =
                [a, s](Instant const& t, std::vector<Length> const& q,
                       std::vector<Acceleration>& r) {
                  r[0] = a((t - Instant()) / Second, q[0] / Metre, 0) *
                         (Metre / Pow<2>(Second));
                  return s ? s() : absl::OkStatus();
                }};
  }
};
template<>
struct Adapter<ODEG> {
  static ODEG Equation(Scalar const& a, std::function<absl::Status()> s = {}) {
    return {.compute_acceleration =
                [a, s](Instant const& t, std::vector<Length> const& q,
                       std::vector<Speed> const& v,
                       std::vector<Acceleration>& r) {
                  r[0] = a((t - Instant()) / Second, q[0] / Metre,
                           v[0] / (Metre / Second)) *
                         (Metre / Pow<2>(Second));
                  return s ? s() : absl::OkStatus();
                }};
  }
};
template<>
struct Adapter<ODE1> {
  static ODE1 Equation(Scalar const& a, std::function<absl::Status()> s = {}) {
    return {.compute_derivative =
                [a, s](Instant const& t, ODE1::DependentVariables const& y,
                       ODE1::DependentVariableDerivatives& yʹ) {
                  auto const& [q, v] = y;
                  auto& [qʹ, vʹ] = yʹ;
                  qʹ = v;
                  vʹ = a((t - Instant()) / Second, q / Metre,
                         v / (Metre / Second)) *
                       (Metre / Pow<2>(Second));
                  return s ? s() : absl::OkStatus();
                }};
  }
};

struct Point {
  double t, q, v;
  bool operator==(Point const&) const = default;
};

template<typename ODE>
typename ODE::State MakeState(Point const& p) {
  Instant const t = Instant() + p.t * Second;
  if constexpr (std::is_same_v<ODE, ODE1>) {
    return ODE1::State(t, {p.q * Metre, p.v * Metre / Second});
  } else {
    return typename ODE::State(t, {p.q * Metre}, {p.v * Metre / Second});
  }
}
inline Point MakePoint(ODE1::State const& s) {
  auto const& [q, v] = s.y;
  return {(s.s.value - Instant()) / Second, q.value / Metre,
          v.value / (Metre / Second)};
}
inline Point MakePoint(ODEG::State const& s) {
  return {(s.time.value - Instant()) / Second, s.positions[0].value / Metre,
          s.velocities[0].value / (Metre / Second)};
}
inline Point MakeError(ODE1::State::Error const& e) {
  auto const& [q, v] = e;
  return {0, q / Metre, v / (Metre / Second)};
}
inline Point MakeError(ODEG::State::Error const& e) {
  return {0, e.position_error[0] / Metre,
          e.velocity_error[0] / (Metre / Second)};
}

// The cases are (ODE, integrator).
struct RKN434FM {
  using ODE = ODES;
  using Method = DormandالمكاوىPrince1986RKN434FM;
  static auto const& Integrator() {
    return EmbeddedExplicitRungeKuttaNyströmIntegrator<Method, ODE>();
  }
  static constexpr bool velocity = false;
  static constexpr bool serializable = true;
};
struct RKNG45 {
  using ODE = ODEG;
  using Method = Fine1987RKNG45;
  static auto const& Integrator() {
    return EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<Method,
                                                                  ODE>();
  }
  static constexpr bool velocity = true;
  static constexpr bool serializable = true;
};
struct RKNG34 {
  using ODE = ODEG;
  using Method = Fine1987RKNG34;
  static auto const& Integrator() {
    return EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<Method,
                                                                  ODE>();
  }
  static constexpr bool velocity = true;
  static constexpr bool serializable = true;
};
struct RK547FC {
  using ODE = ODE1;
  using Method = DormandPrince1986RK547FC;
  static auto const& Integrator() {
    return EmbeddedExplicitRungeKuttaIntegrator<Method, ODE>();
  }
  static constexpr bool velocity = true;
  static constexpr bool serializable = false;
};
}  // namespace

// All the fixed step integrators.
#pragma once

#include "harness/principia.h"
#include "integrators/explicit_linear_multistep_integrator.hpp"
#include "integrators/explicit_runge_kutta_integrator.hpp"
#include "integrators/integrators.hpp"
#include "integrators/methods.hpp"
#include "integrators/ordinary_differential_equations.hpp"
#include "integrators/symmetric_linear_multistep_integrator.hpp"
#include "integrators/symplectic_runge_kutta_nyström_integrator.hpp"
#include "serialization/integrators.pb.h"

using namespace principia::integrators::_explicit_linear_multistep_integrator;
using namespace principia::integrators::_explicit_runge_kutta_integrator;
using namespace principia::integrators::_integrators;
using namespace principia::integrators::_methods;
using namespace principia::integrators::_ordinary_differential_equations;
using namespace principia::integrators::_symmetric_linear_multistep_integrator;
using namespace principia::integrators::
    _symplectic_runge_kutta_nyström_integrator;

namespace {
using World = Frame<serialization::Frame::TestTag, Inertial,
                    Handedness::Right, serialization::Frame::TEST>;
using ODE2 = SpecialSecondOrderDifferentialEquation<Length>;
using ODE1 =
    ExplicitFirstOrderOrdinaryDifferentialEquation<Instant, Length, Speed>;
constexpr auto BA = serialization::FixedStepSizeIntegrator::BA;
constexpr auto ABA = serialization::FixedStepSizeIntegrator::ABA;
constexpr auto BAB = serialization::FixedStepSizeIntegrator::BAB;

template<typename ODE>
struct Entry {
  std::string name;
  FixedStepSizeIntegrator<ODE> const* integrator;
  int order;
  // Evaluations per step once started, 0 if not known.
  int evaluations;
  bool time_reversible;
  bool multistep;
  // The order of the method used to obtain the first points.
  int startup_order;
};

template<typename M>
Entry<ODE2> SRKN(char const* name) {
  return {name, &SymplecticRungeKuttaNyströmIntegrator<M, ODE2>(), M::order,
          M::evaluations, M::time_reversible, false, M::order};
}
template<typename M, auto composition>
Entry<ODE2> SPRK(char const* name) {
  return {name, &SymplecticRungeKuttaNyströmIntegrator<M, composition, ODE2>(),
          M::order, M::evaluations, M::time_reversible, false, M::order};
}
template<typename M>
Entry<ODE2> SLM(char const* name) {
  return {name, &SymmetricLinearMultistepIntegrator<M, ODE2>(), M::order,
          1, true, true, 6};
}
template<typename M>
Entry<ODE1> AB(char const* name) {
  return {name, &ExplicitLinearMultistepIntegrator<M, ODE1>(), M::order, 1,
          false, true, 4};
}

std::vector<Entry<ODE2>> const& Integrators2() {
#define E(m) SRKN<m>(#m)
#define F(m, c) SPRK<m, c>(#m "/" #c)
#define L(m) SLM<m>(#m)
  static auto const& all = *new std::vector<Entry<ODE2>>{
      E(BlanesMoan2002SRKN6B),
      E(BlanesMoan2002SRKN11B),
      E(BlanesMoan2002SRKN14A),
      E(McLachlan1995SB3A4),
      E(McLachlan1995SB3A5),
      E(McLachlanAtela1992Order4Optimal),
      E(McLachlanAtela1992Order5Optimal),
      E(OkunborSkeel1994Order6Method13),
      F(BlanesMoan2002S6, ABA), F(BlanesMoan2002S6, BAB),
      F(BlanesMoan2002S10, ABA), F(BlanesMoan2002S10, BAB),
      F(CandyRozmus1991ForestRuth1990, ABA),
      F(CandyRozmus1991ForestRuth1990, BAB),
      F(McLachlan1995S2, ABA), F(McLachlan1995S2, BAB),
      F(McLachlan1995S4, ABA), F(McLachlan1995S4, BAB),
      F(McLachlan1995S5, ABA), F(McLachlan1995S5, BAB),
      F(McLachlan1995SS5, ABA), F(McLachlan1995SS5, BAB),
      F(McLachlan1995SS9, ABA), F(McLachlan1995SS9, BAB),
      F(McLachlan1995SS15, ABA), F(McLachlan1995SS15, BAB),
      F(McLachlan1995SS17, ABA), F(McLachlan1995SS17, BAB),
      F(McLachlanAtela1992Order2Optimal, BA),
      F(McLachlanAtela1992Order3Optimal, BA),
      F(NewtonDelambreStørmerVerletLeapfrog, ABA),
      F(NewtonDelambreStørmerVerletLeapfrog, BAB),
      F(Ruth1983, BA),
      F(鈴木1990, ABA), F(鈴木1990, BAB),
      F(吉田1990Order6A, ABA), F(吉田1990Order6A, BAB),
      F(吉田1990Order6B, ABA), F(吉田1990Order6B, BAB),
      F(吉田1990Order6C, ABA), F(吉田1990Order6C, BAB),
      F(吉田1990Order8A, ABA), F(吉田1990Order8A, BAB),
      F(吉田1990Order8B, ABA), F(吉田1990Order8B, BAB),
      F(吉田1990Order8C, ABA), F(吉田1990Order8C, BAB),
      F(吉田1990Order8D, ABA), F(吉田1990Order8D, BAB),
      F(吉田1990Order8E, ABA), F(吉田1990Order8E, BAB),
      L(Quinlan1999Order8A), L(Quinlan1999Order8B),
      L(QuinlanTremaine1990Order8), L(QuinlanTremaine1990Order10),
      L(QuinlanTremaine1990Order12)};
#undef E
#undef F
#undef L
  return all;
}

std::vector<Entry<ODE1>> const& Integrators1() {
  static auto const& all = *new std::vector<Entry<ODE1>>{
      {"Kutta1901Vσ1", &ExplicitRungeKuttaIntegrator<Kutta1901Vσ1, ODE1>(),
       Kutta1901Vσ1::order, Kutta1901Vσ1::stages, false, false,
       Kutta1901Vσ1::order},
      AB<AdamsBashforthOrder2>("AdamsBashforthOrder2"),
      AB<AdamsBashforthOrder3>("AdamsBashforthOrder3"),
      AB<AdamsBashforthOrder4>("AdamsBashforthOrder4"),
      AB<AdamsBashforthOrder5>("AdamsBashforthOrder5"),
      AB<AdamsBashforthOrder6>("AdamsBashforthOrder6")};
  return all;
}
}  // namespace

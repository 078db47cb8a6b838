// Systems of bodies for the checks of the ephemeris.
#pragma once

#include <array>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "harness/geopotential.h"
#include "integrators/embedded_explicit_generalized_runge_kutta_nyström_integrator.hpp"
#include "integrators/embedded_explicit_runge_kutta_nyström_integrator.hpp"
#include "integrators/methods.hpp"
#include "integrators/symmetric_linear_multistep_integrator.hpp"
#include "integrators/symplectic_runge_kutta_nyström_integrator.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/discrete_trajectory.hpp"
#include "physics/ephemeris.hpp"
#include "physics/integration_parameters.hpp"

using namespace principia::integrators::_embedded_explicit_generalized_runge_kutta_nyström_integrator;
using namespace principia::integrators::_embedded_explicit_runge_kutta_nyström_integrator;
using namespace principia::integrators::_methods;
using namespace principia::integrators::_symmetric_linear_multistep_integrator;
using namespace principia::integrators::_symplectic_runge_kutta_nyström_integrator;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_discrete_trajectory;
using namespace principia::physics::_ephemeris;

namespace {
using Dof = DegreesOfFreedom<World>;
using E = Ephemeris<World>;

V3 operator+(V3 const& a, V3 const& b) {
  return {a[0] + b[0], a[1] + b[1], a[2] + b[2]};
}
V3 operator-(V3 const& a, V3 const& b) {
  return {a[0] - b[0], a[1] - b[1], a[2] - b[2]};
}
V3 operator*(Real const s, V3 const& a) {
  return {s * a[0], s * a[1], s * a[2]};
}
Real Norm(V3 const& a) { return std::sqrt(Dot(a, a)); }

V3 ToV3(Position<World> const& q) {
  auto const d = (q - World::origin).coordinates();
  return {d.x / Metre, d.y / Metre, d.z / Metre};
}
template<typename Vector>
V3 ToV3(Vector const& v) {
  auto const c = v.coordinates();
  auto const unit = principia::quantities::_si::Unit<
      std::remove_cvref_t<decltype(c.x)>>;
  return {c.x / unit, c.y / unit, c.z / unit};
}
Dof ToDof(V3 const& q, V3 const& v) {
  return {World::origin + Displacement<World>({(double)q[0] * Metre,
                                               (double)q[1] * Metre,
                                               (double)q[2] * Metre}),
          Velocity<World>({(double)v[0] * Metre / Second,
                           (double)v[1] * Metre / Second,
                           (double)v[2] * Metre / Second})};
}
Instant At(double const t) { return Instant() + t * Second; }
double Seconds(Instant const& t) { return (t - Instant()) / Second; }

struct BodySpec {
  double μ;
  // Merely rotating if it has no coefficients.
  std::optional<Model> oblate;
  V3 q;
  V3 v;
};

using Systm = std::vector<BodySpec>;

std::unique_ptr<E> NewEphemeris(Systm const& system, double const t0,
                                double const tolerance,
                                E::FixedStepParameters const& parameters) {
  std::vector<not_null<std::unique_ptr<MassiveBody const>>> bodies;
  std::vector<Dof> state;
  for (auto const& b : system) {
    std::string const name = "body " + std::to_string(bodies.size());
    if (b.oblate.has_value() && b.oblate->coefficients.empty()) {
      bodies.emplace_back(b.oblate->NewRotatingBody(b.μ, name));
    } else if (b.oblate.has_value()) {
      bodies.emplace_back(b.oblate->NewBody(false, b.μ, name));
    } else {
      bodies.emplace_back(make_not_null_unique<MassiveBody>(
          MassiveBody::Parameters(name,
                                  b.μ * Pow<3>(Metre) / Pow<2>(Second))));
    }
    state.push_back(ToDof(b.q, b.v));
  }
  return std::make_unique<E>(std::move(bodies), state, At(t0),
                             E::AccuracyParameters(tolerance * Metre, 0),
                             parameters);
}

// The acceleration at `q` due to the body, in units of μ.
V3 Reduced(BodySpec const& body, double const t, V3 const& r) {
  Real const n = Norm(r);
  V3 result = (-1 / (n * n * n)) * r;
  if (body.oblate.has_value()) {
    result = result + Expected(*body.oblate, t, r, undamped).acceleration;
  }
  return result;
}

Real ReducedPotential(BodySpec const& body, double const t, V3 const& r) {
  Real result = -1 / Norm(r);
  if (body.oblate.has_value()) {
    result += Expected(*body.oblate, t, r, undamped).potential;
  }
  return result;
}

V3 OnMassless(Systm const& system, double const t, std::vector<V3> const& qs,
              V3 const& q) {
  V3 result{};
  for (int i = 0; i < system.size(); ++i) {
    result = result + system[i].μ * Reduced(system[i], t, q - qs[i]);
  }
  return result;
}

// Each pair attracts according to both fields.
V3 OnMassive(Systm const& system, double const t, std::vector<V3> const& qs,
             int const i) {
  V3 result{};
  for (int j = 0; j < system.size(); ++j) {
    if (j == i) { continue; }
    V3 const r = qs[i] - qs[j];
    Real const n = Norm(r);
    V3 const kepler = (-1 / (n * n * n)) * r;
    V3 const from_j = Reduced(system[j], t, r) - kepler;
    V3 const from_i = Reduced(system[i], t, -1 * r) + kepler;
    result = result + system[j].μ * (kepler + from_j - from_i);
  }
  return result;
}

// The jerk, ignoring the geopotential.
V3 JerkOn(Systm const& system, std::vector<V3> const& qs,
          std::vector<V3> const& vs, V3 const& q, V3 const& v, int const i) {
  V3 result{};
  for (int j = 0; j < system.size(); ++j) {
    if (j == i) { continue; }
    V3 const r = q - qs[j];
    V3 const w = v - vs[j];
    Real const d = Norm(r);
    result = result + (-system[j].μ / (d * d * d)) * w +
             (3 * system[j].μ * Dot(r, w) / (d * d * d * d * d)) * r;
  }
  return result;
}

// A reference integration by Gauss-Legendre of order 6, iterated until it
// converges.  `f(t, qs, vs)` returns the accelerations.
template<typename F>
void Integrate(F const& f, double const t0, double const t1, int const n,
               std::vector<V3>& q, std::vector<V3>& v) {
  Real const s15 = std::sqrt(15.0L);
  Real const c[3] = {0.5L - s15 / 10, 0.5L, 0.5L + s15 / 10};
  Real const a[3][3] = {{5 / 36.0L, 2 / 9.0L - s15 / 15, 5 / 36.0L - s15 / 30},
                        {5 / 36.0L + s15 / 24, 2 / 9.0L, 5 / 36.0L - s15 / 24},
                        {5 / 36.0L + s15 / 30, 2 / 9.0L + s15 / 15, 5 / 36.0L}};
  Real const b[3] = {5 / 18.0L, 4 / 9.0L, 5 / 18.0L};
  Real const h = ((Real)t1 - t0) / n;
  int const size = q.size();
  for (int step = 0; step < n; ++step) {
    Real const t = t0 + step * h;
    std::vector<std::vector<V3>> acceleration(3, f((double)t, q, v));
    std::vector<std::vector<V3>> velocity(3, v);
    for (int iteration = 0; iteration < 12; ++iteration) {
      for (int i = 0; i < 3; ++i) {
        for (int k = 0; k < size; ++k) {
          velocity[i][k] = v[k];
          for (int j = 0; j < 3; ++j) {
            velocity[i][k] =
                velocity[i][k] + (h * a[i][j]) * acceleration[j][k];
          }
        }
      }
      auto next = acceleration;
      for (int i = 0; i < 3; ++i) {
        std::vector<V3> qi(size);
        for (int k = 0; k < size; ++k) {
          qi[k] = q[k];
          for (int j = 0; j < 3; ++j) {
            qi[k] = qi[k] + (h * a[i][j]) * velocity[j][k];
          }
        }
        next[i] = f((double)(t + c[i] * h), qi, velocity[i]);
      }
      acceleration = next;
    }
    for (int k = 0; k < size; ++k) {
      for (int i = 0; i < 3; ++i) {
        q[k] = q[k] + (h * b[i]) * velocity[i][k];
        v[k] = v[k] + (h * b[i]) * acceleration[i][k];
      }
    }
  }
}
}  // namespace

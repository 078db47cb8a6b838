// The field of oblate bodies, from solid harmonics computed by Cunningham's
// recurrences.
#pragma once

#include <array>
#include <cmath>
#include <vector>

#include "harness/principia.h"
#include "numerics/fixed_arrays.hpp"
#include "physics/massive_body.hpp"
#include "physics/oblate_body.hpp"
#include "physics/rotating_body.hpp"
#include "serialization/geometry.pb.h"
#include "serialization/physics.pb.h"

using namespace principia::physics::_massive_body;
using namespace principia::physics::_oblate_body;
using namespace principia::physics::_rotating_body;
using seq::Notes;
using seq::Of;

namespace {
using World = Frame<serialization::Frame::TestTag, Inertial,
                    Handedness::Right, serialization::Frame::TEST>;
using Body = OblateBody<World>;
using Real = long double;
using V3 = std::array<Real, 3>;
constexpr Real π_ = 3.14159265358979323846264338327950288L;

Real Dot(V3 const& a, V3 const& b) {
  return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}

constexpr double radius = 6e6;

struct Coefficient {
  int n;
  int m;
  double c;
  double s;
};

struct Model {
  std::vector<Coefficient> coefficients;
  // The rotation.
  double angle;
  double t_reference;
  double frequency;
  double α;
  double δ;

  Body::Parameters Parameters(bool const use_j) const {
    serialization::OblateBody::Geopotential message;
    std::map<int, std::vector<Coefficient>> by_degree;
    for (auto const& c : coefficients) { by_degree[c.n].push_back(c); }
    for (auto const& [n, cs] : by_degree) {
      auto* const row = message.add_row();
      row->set_degree(n);
      for (auto const& c : cs) {
        auto* const column = row->add_column();
        column->set_order(c.m);
        column->set_sin(c.s);
        if (use_j && c.m == 0) {
          column->set_j(-c.c * std::sqrt(2.0 * n + 1));
        } else {
          column->set_cos(c.c);
        }
      }
    }
    return Body::Parameters::ReadFromMessage(message, radius * Metre);
  }

  std::unique_ptr<Body> NewBody(bool const use_j, double const μ = 4e14,
                                std::string const& name = "Body") const {
    return std::make_unique<Body>(
        MassiveBody::Parameters(name, μ * Pow<3>(Metre) / Pow<2>(Second)),
        RotatingBody<World>::Parameters(
            radius * Metre, angle * Radian, Instant() + t_reference * Second,
            frequency * Radian / Second, α * Radian, δ * Radian),
        Parameters(use_j));
  }

  std::unique_ptr<RotatingBody<World>> NewRotatingBody(
      double const μ, std::string const& name) const {
    return std::make_unique<RotatingBody<World>>(
        MassiveBody::Parameters(name, μ * Pow<3>(Metre) / Pow<2>(Second)),
        RotatingBody<World>::Parameters(
            radius * Metre, angle * Radian, Instant() + t_reference * Second,
            frequency * Radian / Second, α * Radian, δ * Radian));
  }

  int degree() const {
    int result = 0;
    for (auto const& c : coefficients) { result = std::max(result, c.n); }
    return result;
  }

  // The axes of the surface frame.
  std::array<V3, 3> axes(double const t) const {
    Real const W = (Real)angle + ((Real)t - t_reference) * frequency;
    V3 const z{std::cos((Real)δ) * std::cos((Real)α),
               std::cos((Real)δ) * std::sin((Real)α), std::sin((Real)δ)};
    V3 const q{-std::sin((Real)α), std::cos((Real)α), 0};
    V3 const zq{z[1] * q[2] - z[2] * q[1], z[2] * q[0] - z[0] * q[2],
                z[0] * q[1] - z[1] * q[0]};
    V3 x, y;
    for (int i = 0; i < 3; ++i) {
      x[i] = std::cos(W) * q[i] + std::sin(W) * zq[i];
      y[i] = -std::sin(W) * q[i] + std::cos(W) * zq[i];
    }
    return {x, y, z};
  }
};

Real Normalization(int const n, int const m) {
  Real f = 1;
  for (int i = n - m + 1; i <= n + m; ++i) { f *= i; }
  return std::sqrt((m == 0 ? 1 : 2) * (Real)(2 * n + 1) / f);
}

struct Field {
  Real potential = 0;
  V3 acceleration{};
  // Bounds of the magnitude of the terms.
  Real potential_scale = 0;
  Real acceleration_scale = 0;
};

// The field at the given position (in World coordinates), where the harmonic
// is multiplied by σ(n, m) whose derivative is the second component.
Field Expected(Model const& model, double const t, V3 const& world,
               std::function<std::pair<Real, Real>(int, int)> const& σ) {
  auto const axes = model.axes(t);
  V3 const p{Dot(world, axes[0]), Dot(world, axes[1]), Dot(world, axes[2])};
  Real const r² = Dot(p, p);
  Real const r = std::sqrt(r²);
  Real const R = radius;
  int const N = model.degree() + 2;
  std::vector<std::vector<Real>> V(N, std::vector<Real>(N + 1, 0));
  auto W = V;
  Real const ρ = R / r²;
  V[0][0] = R / r;
  for (int m = 0; m < N; ++m) {
    if (m > 0) {
      V[m][m] = (2 * m - 1) *
                (p[0] * ρ * V[m - 1][m - 1] - p[1] * ρ * W[m - 1][m - 1]);
      W[m][m] = (2 * m - 1) *
                (p[0] * ρ * W[m - 1][m - 1] + p[1] * ρ * V[m - 1][m - 1]);
    }
    for (int n = m + 1; n < N; ++n) {
      Real const a = (Real)(2 * n - 1) / (n - m) * p[2] * ρ;
      Real const b = (Real)(n + m - 1) / (n - m) * R * ρ;
      V[n][m] = a * V[n - 1][m] - (n >= m + 2 ? b * V[n - 2][m] : 0);
      W[n][m] = a * W[n - 1][m] - (n >= m + 2 ? b * W[n - 2][m] : 0);
    }
  }
  Field result;
  for (auto const& [n, m, c, s] : model.coefficients) {
    if (n < 2 || (n == 2 && m == 1)) { continue; }
    Real const norm = Normalization(n, m);
    Real const C = c * norm;
    Real const S = s * norm;
    Real const U = (C * V[n][m] + S * W[n][m]) / R;
    V3 a;
    if (m == 0) {
      a[0] = -C * V[n + 1][1];
      a[1] = -C * W[n + 1][1];
    } else {
      Real const f = (Real)(n - m + 2) * (n - m + 1);
      a[0] = 0.5L * ((-C * V[n + 1][m + 1] - S * W[n + 1][m + 1]) +
                     f * (C * V[n + 1][m - 1] + S * W[n + 1][m - 1]));
      a[1] = 0.5L * ((-C * W[n + 1][m + 1] + S * V[n + 1][m + 1]) +
                     f * (-C * W[n + 1][m - 1] + S * V[n + 1][m - 1]));
    }
    a[2] = (n - m + 1) * (-C * V[n + 1][m] - S * W[n + 1][m]);
    auto const [σ_, σʹ] = σ(n, m);
    result.potential -= σ_ * U;
    for (int i = 0; i < 3; ++i) {
      result.acceleration[i] +=
          σ_ * (a[0] * axes[0][i] + a[1] * axes[1][i] + a[2] * axes[2][i]) /
              (R * R) +
          σʹ * U * world[i] / r;
    }
    Real const bound = std::pow(R / r, (Real)n) *
                       std::sqrt((Real)c * c + (Real)s * s) *
                       std::sqrt(2.0L * n + 1) / r;
    result.potential_scale += bound;
    result.acceleration_scale += (n + 1) * (n + 1) * bound / r;
  }
  return result;
}
auto const undamped = [](int, int) { return std::pair<Real, Real>(1, 0); };

double Pseudorandom(int const i) {
  double const x = (i + 1) * 0.6180339887498949;
  return 2 * (x - std::floor(x)) - 1;
}

Model AnyRotation() {
  Model model;
  switch (Choose(4)) {
    case 0:
      model = {{}, 0, 0, 1e-4, 0, (double)(π_ / 2)};
      break;
    case 1:
      model = {{}, 1, 5000, -3e-5, 4, 0.3};
      break;
    case 2:
      model = {{}, -2, -1e4, 7.3e-5, 1.5, -1.2};
      break;
    case 3:
      model = {{}, 0.5, 0, 2e-6, -0.7, 0};
      break;
  }
  return model;
}

Model Full(int const degree, double const decay) {
  Model model = AnyRotation();
  for (int n = 2; n <= degree; ++n) {
    for (int m = 0; m <= n; ++m) {
      model.coefficients.push_back(
          {n, m, Pseudorandom(100 * n + m) * std::pow(decay, n) * 1e-3,
           m == 0 ? 0 : Pseudorandom(100 * n + m + 57) * std::pow(decay, n) *
                            1e-3});
    }
  }
  return model;
}
}  // namespace

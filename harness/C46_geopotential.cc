// C46: the geopotential.
#include "harness/geopotential.h"

#include <vector>

#include "physics/geopotential.hpp"
#include "physics/harmonic_damping.hpp"

using namespace principia::physics::_geopotential;
using namespace principia::physics::_harmonic_damping;

namespace {
Field Actual(Geopotential<World> const& geopotential, double const t,
             V3 const& world) {
  Displacement<World> const r({(double)world[0] * Metre,
                               (double)world[1] * Metre,
                               (double)world[2] * Metre});
  auto const r² = r.Norm²();
  auto const r_norm = Sqrt(r²);
  auto const one_over_r³ = r_norm / (r² * r²);
  auto const a = geopotential.GeneralSphericalHarmonicsAcceleration(
      Instant() + t * Second, r, r_norm, r², one_over_r³);
  auto const v = geopotential.GeneralSphericalHarmonicsPotential(
      Instant() + t * Second, r, r_norm, r², one_over_r³);
  Field result;
  auto const unit = 1 / Pow<2>(Metre);
  result.acceleration = {a.coordinates().x / unit, a.coordinates().y / unit,
                         a.coordinates().z / unit};
  result.potential = v * Metre;
  return result;
}

void Compare(Field const& actual, Field const& expected, double const ε) {
  Real worst = 0;
  for (int i = 0; i < 3; ++i) {
    worst = std::max(worst, std::fabs(actual.acceleration[i] -
                                      expected.acceleration[i]));
  }
  Check(worst <= ε * expected.acceleration_scale, "acceleration off by ",
        (double)(worst / expected.acceleration_scale), " actual ",
        (double)actual.acceleration[0], " ", (double)actual.acceleration[1],
        " ", (double)actual.acceleration[2], " expected ",
        (double)expected.acceleration[0], " ",
        (double)expected.acceleration[1], " ",
        (double)expected.acceleration[2]);
  Check(std::fabs(actual.potential - expected.potential) <=
            ε * expected.potential_scale,
        "potential off by ",
        (double)(std::fabs(actual.potential - expected.potential) /
                 expected.potential_scale));
  seq::Step();
}

// A position in terms of the pole.
V3 At(Model const& model, double const t, double const r, double const latitude,
      double const longitude) {
  auto const axes = model.axes(t);
  V3 result;
  for (int i = 0; i < 3; ++i) {
    result[i] = (double)(r * (std::cos((Real)latitude) *
                                  std::cos((Real)longitude) * axes[0][i] +
                              std::cos((Real)latitude) *
                                  std::sin((Real)longitude) * axes[1][i] +
                              std::sin((Real)latitude) * axes[2][i]));
  }
  return result;
}

std::vector<double> const latitudes{-1.5707963267948966, -1.1, -0.4, 0, 0.05,
                                    0.8, 1.3, 1.57, 1.5707963267948966};
std::vector<double> const longitudes{0, 0.7, 1.5707963267948966, 2.5, 3.3, 4.8,
                                     6};

void CompareEverywhere(Model const& model, Geopotential<World> const& g,
                       std::vector<double> const& ratios, double const ε) {
  for (double const t : {0.0, 12345.0, -1e6}) {
    for (double const ratio : ratios) {
      for (double const latitude : latitudes) {
        for (double const longitude : longitudes) {
          V3 const p = At(model, t, radius * ratio, latitude, longitude);
          Compare(Actual(g, t, p), Expected(model, t, p, undamped), ε);
        }
      }
    }
  }
}
}  // namespace

// A single harmonic.
SEQ_HARNESS(single, .split = 1) {
  int const n = 2 + Choose(seq::Thorough() ? 29 : 9);
  int const m = Choose(n + 1);
  Model model = AnyRotation();
  int const which = Choose(m == 0 ? 1 : 2);
  model.coefficients = {
      {n, m, which == 0 ? 2e-3 : 0, which == 1 ? -3e-3 : 0}};
  Notes("degree ", n, " order ", m);
  auto const body = model.NewBody(/*use_j=*/Choose(2) == 1);
  CheckEq(body->geopotential_degree(), n, "degree");
  Check(body->is_zonal() == (m == 0), "is_zonal");
  Check(body->is_oblate() && !body->is_massless(), "oblateness");
  CheckEq(body->cos()(n, m) != 0, which == 0, "cos");
  CheckEq(body->sin()(n, m), model.coefficients[0].s, "sin");
  double const expected_j2 = n == 2 && m == 0 ? -2e-3 * std::sqrt(5.0) : 0;
  Check(std::abs(body->j2() - expected_j2) <= 1e-17, "j2 ", body->j2());
  Check(std::abs(body->j2_over_μ() / Pow<2>(Metre) -
                 expected_j2 * radius * radius) <=
            1e-14 * std::abs(expected_j2) * radius * radius,
        "j2_over_μ");
  // The coefficients obtained from a J are rounded.
  CompareEverywhere(model, Geopotential<World>(body.get(), 0), {1.0, 1.7, 60},
                    1e-13 * n);

  // Serialization is exact.
  serialization::MassiveBody message;
  body->WriteToMessage(&message);
  auto const read = MassiveBody::ReadFromMessage(message);
  Check(read->is_oblate(), "read back as oblate");
  serialization::MassiveBody again;
  read->WriteToMessage(&again);
  Check(again.SerializeAsString() == message.SerializeAsString(),
        "message after reading");
  auto const& oblate = dynamic_cast<Body const&>(*read);
  V3 const p = At(model, 77, 1.3 * radius, 0.5, 0.25);
  Check(Actual(Geopotential<World>(&oblate, 0), 77, p).acceleration ==
            Actual(Geopotential<World>(body.get(), 0), 77, p).acceleration,
        "field after reading");
}

// All the harmonics.
SEQ_HARNESS(full, .split = 1) {
  int const degree = 2 + Choose(29);
  Model const model = Full(degree, Of({1.0, 0.7}));
  Notes("degree ", degree);
  auto const body = model.NewBody(/*use_j=*/false);
  CheckEq(body->geopotential_degree(), degree, "degree");
  Check(!body->is_zonal(), "is_zonal");
  CompareEverywhere(model, Geopotential<World>(body.get(), 0), {1.01, 3.0},
                    1e-13 * degree);
}

// Only J2, by the specific constructor of the parameters.
SEQ_HARNESS(j2) {
  Model model = AnyRotation();
  double const j2 = Of({1e-3, 0.2});
  model.coefficients = {{2, 0, -j2 / std::sqrt(5.0), 0}};
  Body const body(
      MassiveBody::Parameters(4e14 * Pow<3>(Metre) / Pow<2>(Second)),
      RotatingBody<World>::Parameters(
          radius * Metre, model.angle * Radian,
          Instant() + model.t_reference * Second,
          model.frequency * Radian / Second, model.α * Radian,
          model.δ * Radian),
      Body::Parameters(j2, radius * Metre));
  CheckEq(body.j2(), j2, "j2");
  CheckEq(body.geopotential_degree(), 2, "degree");
  Check(body.is_zonal(), "is_zonal");
  CompareEverywhere(model, Geopotential<World>(&body, 0), {1.0, 10.0}, 1e-13);
}

// Damping.
SEQ_HARNESS(damping, .split = 1) {
  double const tolerance = Of({1e-3, 0x1p-24, 1e-12});
  Model model;
  switch (Choose(8)) {
    case 0: model = Full(3, 0.7); break;
    case 1: model = Full(8, 0.5); break;
    case 2: model = Full(10, 1.0); break;
    case 3:  // Only J2.
      model = AnyRotation();
      model.coefficients = {{2, 0, -1e-3, 0}};
      break;
    case 4:  // No sectoral term of degree 2, a hole at degree 4.
      model = AnyRotation();
      model.coefficients = {
          {2, 0, -1e-3, 0}, {3, 1, 1e-5, 2e-5}, {5, 5, 1e-4, 0}};
      break;
    case 5:  // The sectoral term dominates.
      model = AnyRotation();
      model.coefficients = {
          {2, 0, -1e-6, 0}, {2, 2, 1e-3, 1e-3}, {3, 3, 1e-5, 2e-5}};
      break;
    case 6:  // Degree 3 dominates.
      model = AnyRotation();
      model.coefficients = {
          {2, 0, -1e-6, 0}, {2, 2, 1e-6, 1e-6}, {3, 0, 1e-2, 0}};
      break;
    case 7:  // Typical.
      model = AnyRotation();
      model.coefficients = {{2, 0, -4.8e-4, 0}, {2, 2, 2.4e-6, -1.4e-6},
                            {3, 0, 9.6e-7, 0},  {3, 1, 2e-6, 2.5e-7},
                            {4, 0, 5.4e-7, 0},  {4, 4, -1.9e-7, 3e-7}};
      break;
  }
  auto const body = model.NewBody(false);
  Geopotential<World> const g(body.get(), tolerance);
  int const degree = model.degree();

  // The thresholds.
  auto const& damping = g.degree_damping();
  CheckEq((int)damping.size(), degree + 1, "number of thresholds");
  auto const inner = [&](int const n, int const m) -> Real {
    return (n == 2 && m == 2 ? g.sectoral_damping() : damping[n])
               .inner_threshold() /
           Metre;
  };
  Check(damping[0].inner_threshold() == Infinity<Length> &&
            damping[1].inner_threshold() == Infinity<Length>,
        "degree 0 and 1");
  for (int n = 2; n <= degree; ++n) {
    Check(damping[n].inner_threshold() <= damping[n - 1].inner_threshold(),
          "thresholds are decreasing at ", n);
    Check(damping[n].outer_threshold() == 3 * damping[n].inner_threshold(),
          "outer threshold at ", n);
  }
  Check(g.sectoral_damping().inner_threshold() <=
            damping[2].inner_threshold(),
        "sectoral threshold at most the one of degree 2");
  if (degree >= 3) {
    Check(g.sectoral_damping().inner_threshold() >=
              damping[3].inner_threshold(),
          "sectoral threshold at least the one of degree 3");
  }
  // A harmonic is not damped where it is significant, and the damping is not
  // useless.
  std::map<int, Real> significant_at;
  for (auto const& [n, m, c, s] : model.coefficients) {
    if (c == 0 && s == 0) { continue; }
    // The maximum of the normalized Legendre function, from below.
    Real max = 0;
    for (int i = 0; i <= 2000; ++i) {
      // Evaluate by the recurrence at fixed order.
      Real const sin = -1 + i / 1000.0L;
      Real const cos = std::sqrt(std::max(0.0L, 1 - sin * sin));
      Real p0 = 0;
      Real p1 = 1;
      for (int k = 1; k <= m; ++k) { p1 *= (2 * k - 1) * cos; }
      for (int k = m + 1; k <= n; ++k) {
        Real const p2 =
            ((2 * k - 1) * sin * p1 - (k + m - 1) * p0) / (k - m);
        p0 = p1;
        p1 = p2;
      }
      max = std::max(max, std::fabs(p1) * Normalization(n, m));
    }
    Real const r = radius * std::pow(max * (n + 1) *
                                         std::sqrt((Real)c * c + (Real)s * s) /
                                         tolerance,
                                     1.0L / n);
    Check(inner(n, m) >= 0.9999L * r, "harmonic ", n, ", ", m,
          " damped from ", (double)inner(n, m),
          " significant until ", (double)r);
    for (int k = 2; k <= n; ++k) {
      significant_at[k] = std::max(significant_at[k], r);
    }
  }
  for (int n = 2; n <= degree; ++n) {
    Check(damping[n].inner_threshold() / Metre <=
              1.001L * significant_at[n] + 1,
          "threshold ", n, " too large");
  }

  // The values.
  auto const σ = [&](Real const r) {
    return [&inner, r](int const n, int const m) -> std::pair<Real, Real> {
      Real const s = inner(n, m);
      if (r <= s) { return {1, 0}; }
      if (r >= 3 * s) { return {0, 0}; }
      Real const x = r / s;
      return {x * (x - 3) * (x - 3) / 4, (3 * x * x - 12 * x + 9) / (4 * s)};
    };
  };
  std::vector<double> rs;
  for (int n = 2; n <= degree + 1; ++n) {
    double const s =
        n == degree + 1
            ? g.sectoral_damping().inner_threshold() / Metre
            : damping[n].inner_threshold() / Metre;
    for (double const x : {0.5, 0.999, 1.0, 1.001, 1.5, 2.0, 2.999, 3.001,
                           4.0}) {
      if (x * s > 0.5 * radius) { rs.push_back(x * s); }
    }
  }
  for (double const r : rs) {
    for (double const t : {0.0, 5555.0}) {
      for (double const latitude : latitudes) {
        for (double const longitude : longitudes) {
          V3 const p = At(model, t, r, latitude, longitude);
          Real const norm = std::sqrt(Dot(p, p));
          Compare(Actual(g, t, p), Expected(model, t, p, σ(norm)), 1e-12);
        }
      }
    }
  }
}

// C47: Keplerian orbits, against two-body motion in extended precision.
#include <algorithm>
#include <array>

#include "harness/kepler.h"
#include "harness/principia.h"
#include "physics/kepler_orbit.hpp"
#include "physics/massive_body.hpp"
#include "physics/massless_body.hpp"
#include "serialization/physics.pb.h"

using namespace principia::physics::_kepler_orbit;
using namespace principia::physics::_massive_body;
using namespace principia::physics::_massless_body;
using namespace kepler;
using seq::Notes;
using seq::Of;

namespace {
struct System {
  std::unique_ptr<MassiveBody> primary;
  std::unique_ptr<principia::physics::_body::Body> secondary;
  Real μ;
};
System ChooseSystem() {
  bool const big = Choose(2);
  bool const massive = Choose(2);
  double const μ = big ? 3.986e14 : 2;
  auto const gm = [](double const x) {
    return x * (Metre * Metre * Metre / Second / Second);
  };
  System s;
  s.primary = std::make_unique<MassiveBody>(MassiveBody::Parameters(gm(μ)));
  if (massive) {
    s.secondary =
        std::make_unique<MassiveBody>(MassiveBody::Parameters(gm(μ / 4)));
  } else {
    s.secondary = std::make_unique<MasslessBody>();
  }
  s.μ = massive ? Real(μ) + Real(μ / 4) : Real(μ);
  return s;
}
// Some lengths.
Real Size(System const& s) {
  return s.μ > 100 ? 7e6L : 1.5L;
}

Angle const& Rad() {
  static Angle const r = 1 * Radian;
  return r;
}

// A sum which is equal modulo 2π.
bool SameAngle(Real const l, Real const r, Real const tolerance) {
  return std::abs(std::remainder(l - r, 2 * Pi)) <= tolerance;
}

// Elements of section I, and anomalies.
void CheckElements(KeplerianElements<World> const& k, Conic const& c,
                   Real const tolerance, bool const angles) {
  seq::Step();
  Real const nan = std::numeric_limits<double>::quiet_NaN();
  auto const near = [&](auto const& actual, auto const unit, Real const expected,
                        char const* const what) {
    Check(actual.has_value(), what, " is not filled");
    double const x = *actual / unit;
    if (expected != expected) {
      Check(x != x, what, " is ", x, ", expected NaN");
    } else {
      Check(std::abs(x - expected) <= tolerance * std::abs(expected), what,
            " is ", x, ", expected ", expected);
    }
  };
  bool const elliptic = c.elliptic();
  Real const v∞ = std::sqrt(-c.μ / c.a);
  auto const speed = Metre / Second;
  near(k.eccentricity, 1, c.e, "eccentricity");
  near(k.asymptotic_true_anomaly, Radian, elliptic ? nan : std::acos(-1 / c.e),
       "asymptotic true anomaly");
  near(k.turning_angle, Radian, elliptic ? nan : 2 * std::asin(1 / c.e),
       "turning angle");
  near(k.semimajor_axis, Metre, c.a, "semimajor axis");
  near(k.specific_energy, speed * speed, -c.μ / (2 * c.a), "specific energy");
  near(k.characteristic_energy, speed * speed, -c.μ / c.a,
       "characteristic energy");
  near(k.mean_motion, Radian / Second, elliptic ? c.n() : nan, "mean motion");
  near(k.period, Second, elliptic ? 2 * Pi / c.n() : nan, "period");
  near(k.hyperbolic_mean_motion, Radian / Second, elliptic ? nan : c.n(),
       "hyperbolic mean motion");
  near(k.hyperbolic_excess_velocity, speed, elliptic ? nan : v∞,
       "hyperbolic excess velocity");
  Real const b = std::abs(c.a) * std::sqrt(std::abs(1 - c.e * c.e));
  near(k.semiminor_axis, Metre, elliptic ? b : nan, "semiminor axis");
  near(k.impact_parameter, Metre, elliptic ? nan : b, "impact parameter");
  near(k.semilatus_rectum, Metre, c.ℓ(), "semilatus rectum");
  near(k.specific_angular_momentum, Metre * Metre * Radian / Second,
       std::sqrt(c.μ * c.ℓ()), "specific angular momentum");
  near(k.periapsis_distance, Metre, c.a * (1 - c.e), "periapsis distance");
  near(k.apoapsis_distance, Metre, c.a * (1 + c.e), "apoapsis distance");
  if (!angles) {
    return;
  }
  auto const angle = [&](Angle const& actual, Real const expected,
                         char const* const what) {
    Check(SameAngle(actual / Rad(), expected, tolerance), what, " is ",
          actual / Rad(), ", expected ", expected);
  };
  angle(k.inclination, c.i, "inclination");
  angle(k.longitude_of_ascending_node, c.Ω, "longitude of the ascending node");
  Check(k.argument_of_periapsis && k.longitude_of_periapsis && k.true_anomaly,
        "orientation not filled");
  angle(*k.argument_of_periapsis, c.ω, "argument of periapsis");
  angle(*k.longitude_of_periapsis, c.Ω + c.ω, "longitude of periapsis");
  angle(*k.true_anomaly, c.ν, "true anomaly");
  if (elliptic) {
    Check(k.mean_anomaly.has_value(), "mean anomaly not filled");
    angle(*k.mean_anomaly, c.M(c.ν), "mean anomaly");
  } else {
    Check(k.hyperbolic_mean_anomaly.has_value(),
          "hyperbolic mean anomaly not filled");
    Real const actual = *k.hyperbolic_mean_anomaly / Rad();
    Real const expected = c.M(c.ν);
    Check(std::abs(actual - expected) <= tolerance * (1 + std::abs(expected)),
          "hyperbolic mean anomaly is ", actual, ", expected ", expected);
    Check(*k.mean_anomaly != *k.mean_anomaly, "mean anomaly is not NaN");
  }
}

void CheckStates(KeplerOrbit<World> const& orbit, Instant const& epoch,
                 Conic const& c, Real const tolerance) {
  // In radians of mean anomaly.
  for (double const Δ : {0.0, 1e-3, 0.5, 2.0, -0.25, -3.0, 5.0, 100.0}) {
    seq::Step();
    double const t = static_cast<double>(Δ / c.n());
    auto const actual = To(orbit.StateVectors(epoch + t * Second));
    auto const expected = c.At((epoch + t * Second - epoch) / Second);
    Check(Close(actual, expected, tolerance), "state after ", t, " s is ",
          Show(actual), ", expected ", Show(expected));
  }
}

// The number of ways of specifying the conic.
int Specifications(int const category, bool const elliptic) {
  switch (category) {
    case 0: return elliptic ? 1 : 3;
    case 1: return 5;
    case 3: return 2;
    default: return 1;
  }
}
void Specify(KeplerianElements<World>& k, int const category, int const which,
             Conic const& c) {
  auto const d = [](Real const x) { return static_cast<double>(x); };
  auto const speed = Metre / Second;
  bool const elliptic = c.elliptic();
  switch (category) {
    case 0:
      if (which == 0) k.eccentricity = d(c.e);
      if (which == 1) k.asymptotic_true_anomaly = d(std::acos(-1 / c.e)) * Rad();
      if (which == 2) k.turning_angle = d(2 * std::asin(1 / c.e)) * Rad();
      break;
    case 1:
      if (which == 0) k.semimajor_axis = d(c.a) * Metre;
      if (which == 1) k.specific_energy = d(-c.μ / (2 * c.a)) * (speed * speed);
      if (which == 2) {
        k.characteristic_energy = d(-c.μ / c.a) * (speed * speed);
      }
      if (which == 3) {
        (elliptic ? k.mean_motion : k.hyperbolic_mean_motion) =
            d(c.n()) * (Radian / Second);
      }
      if (which == 4) {
        if (elliptic) {
          k.period = d(2 * Pi / c.n()) * Second;
        } else {
          k.hyperbolic_excess_velocity = d(std::sqrt(-c.μ / c.a)) * speed;
        }
      }
      break;
    case 2:
      (elliptic ? k.semiminor_axis : k.impact_parameter) =
          d(std::abs(c.a) * std::sqrt(std::abs(1 - c.e * c.e))) * Metre;
      break;
    case 3:
      if (which == 0) k.semilatus_rectum = d(c.ℓ()) * Metre;
      if (which == 1) {
        k.specific_angular_momentum =
            d(std::sqrt(c.μ * c.ℓ())) * (Metre * Metre * Radian / Second);
      }
      break;
    case 4: k.periapsis_distance = d(c.a * (1 - c.e)) * Metre; break;
    case 5: k.apoapsis_distance = d(c.a * (1 + c.e)) * Metre; break;
  }
}

Real const eccentricities[] = {0.25L, 0.03125L, 0.9375L, 1.0625L, 2.5L, 20};

Real ChooseTrueAnomaly(Real const e) {
  Real const limit = e < 1 ? Pi : std::acos(-1 / e);
  return limit * Of({0.1L, 0.7L, -0.3L, -0.9L, 0.L});
}
}  // namespace

// From elements.
SEQ_HARNESS(Elements) {
  System const system = ChooseSystem();
  Conic c;
  c.μ = system.μ;
  c.e = Of(eccentricities);
  c.a = (c.e < 1 ? 1 : -1) * Size(system) / std::abs(1 - c.e);
  int const category1 = Choose(5);
  int const category2 = category1 + 1 + Choose(5 - category1);
  int const which1 = Choose(Specifications(category1, c.elliptic()));
  int const which2 = Choose(Specifications(category2, c.elliptic()));
  c.i = Of({0.3L, 2.5L});
  c.Ω = 4;
  c.ω = Of({1.25L, 5.5L});
  c.ν = ChooseTrueAnomaly(c.e);
  KeplerianElements<World> k;
  Specify(k, category1, which1, c);
  Specify(k, category2, which2, c);
  auto const d = [](Real const x) { return static_cast<double>(x); };
  k.inclination = d(c.i) * Rad();
  k.longitude_of_ascending_node = d(c.Ω) * Rad();
  if (Choose(2)) {
    k.argument_of_periapsis = d(c.ω) * Rad();
  } else {
    k.longitude_of_periapsis = d(c.Ω + c.ω) * Rad();
  }
  if (Choose(2)) {
    k.true_anomaly = d(c.ν) * Rad();
  } else if (c.elliptic()) {
    k.mean_anomaly = d(c.M(c.ν)) * Rad();
  } else {
    k.hyperbolic_mean_anomaly = d(c.M(c.ν)) * Rad();
  }
  Instant const epoch = Instant() + Of({0.0, 8192.0}) * Second;
  KeplerOrbit<World> const orbit(*system.primary, *system.secondary, k, epoch);
  Notes("e ", c.e, " categories ", category1, " ", which1, " ", category2, " ",
        which2, " ν ", c.ν);
  // The conditioning is poor close to a parabola or to a circle.
  CheckElements(orbit.elements_at_epoch(), c, 1e-11L, /*angles=*/true);
  CheckStates(orbit, epoch, c, 1e-10L);
  // From an orbit to the next.
  auto const s = orbit.StateVectors(epoch);
  KeplerOrbit<World> const again(*system.primary, *system.secondary, s, epoch);
  CheckElements(again.elements_at_epoch(), c, 1e-10L, /*angles=*/true);
  serialization::KeplerianElements m;
  orbit.elements_at_epoch().WriteToMessage(&m);
  auto const& all = orbit.elements_at_epoch();
  CheckEq(m.eccentricity(), *all.eccentricity, "serialized e");
  CheckEq(Length::ReadFromMessage(m.semimajor_axis()), *all.semimajor_axis,
          "serialized a");
  CheckEq(Length::ReadFromMessage(m.apoapsis_distance()),
          *all.apoapsis_distance, "serialized apoapsis");
  CheckEq(Angle::ReadFromMessage(m.true_anomaly()), *all.true_anomaly,
          "serialized anomaly");
}

// From states.
SEQ_HARNESS(States) {
  System const system = ChooseSystem();
  Conic c;
  c.μ = system.μ;
  c.e = Of({0.25L, 0.0L, 0.03125L, 0.9375L, 1.0625L, 2.5L, 20.0L});
  c.a = (c.e < 1 ? 1 : -1) * Size(system) / std::abs(1 - c.e);
  c.i = Of({0.3L, 0.L, Pi / 2, 2.5L, Pi});
  c.Ω = Of({0.L, 1.L, 4.L});
  c.ω = Of({0.L, 2.L, 3.25L, 5.5L});
  c.ν = ChooseTrueAnomaly(c.e);
  Instant const epoch = Instant() + Of({0.0, 8192.0}) * Second;
  auto initial = c.At(0);
  bool const equatorial = c.i == 0 || c.i == Pi;
  if (equatorial) {
    // Exactly.
    initial.q[2] = 0;
    initial.v[2] = 0;
  }
  KeplerOrbit<World> const orbit(*system.primary, *system.secondary,
                                 From(initial), epoch);
  Notes("e ", c.e, " i ", c.i, " Ω ", c.Ω, " ω ", c.ω, " ν ", c.ν);
  bool const angles = !equatorial && c.e > 0;
  if (c.e > 0) {
    CheckElements(orbit.elements_at_epoch(), c, 1e-11L, angles);
  }
  CheckStates(orbit, epoch, c, 1e-10L);
}

// States for which the orbit is exactly circular, equatorial, or both.
SEQ_HARNESS(Singular) {
  MassiveBody const primary(MassiveBody::Parameters(
      1 * (Metre * Metre * Metre / Second / Second)));
  MasslessBody const secondary;
  Real const q[][3] = {{1, 0, 0}, {0, 1, 0}, {-1, 0, 0}, {0, -1, 0},
                       {0, 0, 1}, {0, 0, -1}};
  V3 Q, W;
  int const a = Choose(6);
  int const b = Choose(6);
  if (a / 2 == b / 2 && (a < 4) == (b < 4)) {
    seq::Prune();
  }
  for (int k = 0; k < 3; ++k) {
    Q[k] = q[a][k];
    W[k] = q[b][k];
  }
  if (Q[0] * W[0] + Q[1] * W[1] + Q[2] * W[2] != 0) {
    seq::Prune();
  }
  // Circular if 1.
  Real const speed = Of({1.0L, 1.25L, 0.5L, 2.L});
  V3 v;
  for (int k = 0; k < 3; ++k) {
    v[k] = W[k] * speed;
  }
  StateVector const initial{Q, v};
  Instant const epoch;
  KeplerOrbit<World> const orbit(primary, secondary, From(initial), epoch);
  seq::Step();
  auto const actual = To(orbit.StateVectors(epoch));
  Check(Close(actual, initial, 1e-12L), "state at epoch is ", Show(actual),
        ", expected ", Show(initial));
  // A quarter of a turn, if circular.
  if (speed == 1) {
    auto const quarter =
        To(orbit.StateVectors(epoch + static_cast<double>(Pi / 2) * Second));
    StateVector const expected{v, {-Q[0], -Q[1], -Q[2]}};
    Check(Close(quarter, expected, 1e-12L), "quarter is ", Show(quarter),
          ", expected ", Show(expected));
  }
}

// Underspecified, overspecified.
SEQ_HARNESS(Misspecified) {
  System const system = ChooseSystem();
  Conic c;
  c.μ = system.μ;
  c.e = Of({0.25L, 2.5L});
  c.a = (c.e < 1 ? 1 : -1) * Size(system) / std::abs(1 - c.e);
  c.i = c.Ω = c.ω = c.ν = 1;
  int const mask = Choose(64);
  int const orientation = Choose(4);
  int const anomaly = Choose(8);
  KeplerianElements<World> k;
  int conic = 0;
  for (int category = 0; category < 6; ++category) {
    if (mask & (1 << category)) {
      Specify(k, category, 0, c);
      ++conic;
    }
  }
  // More than one of a category.
  bool const twice = Choose(2);
  if (twice) {
    Specify(k, 1, 0, c);
    Specify(k, 1, 1, c);
  }
  if (orientation & 1) k.argument_of_periapsis = 1 * Radian;
  if (orientation & 2) k.longitude_of_periapsis = 2 * Radian;
  if (anomaly & 1) k.true_anomaly = 1 * Radian;
  if (anomaly & 2) k.mean_anomaly = 1 * Radian;
  if (anomaly & 4) k.hyperbolic_mean_anomaly = 1 * Radian;
  bool const ok = conic == 2 && !twice && (orientation == 1 || orientation == 2)
                  && (anomaly == 1 || anomaly == 2 || anomaly == 4);
  if (ok) {
    seq::Prune();
  }
  seq::Step();
  Check(seq::Dies([&] {
          KeplerOrbit<World> const orbit(*system.primary, *system.secondary, k,
                                         Instant());
        }),
        "misspecified elements accepted: ", mask, " ", orientation, " ",
        anomaly, " ", twice);
}

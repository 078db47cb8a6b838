// Two-body motion in extended precision.
#pragma once

#include <array>

#include "geometry/grassmann.hpp"
#include "harness/principia.h"
#include "physics/degrees_of_freedom.hpp"
#include "serialization/geometry.pb.h"

using namespace principia::geometry::_grassmann;
using namespace principia::physics::_degrees_of_freedom;

namespace kepler {
using World = Frame<serialization::Frame::TestTag, Inertial,
                    Handedness::Right, serialization::Frame::TEST>;
using Real = long double;
using V3 = std::array<Real, 3>;
constexpr Real Pi = 3.14159265358979323846264338327950288L;

struct StateVector {
  V3 q, v;
};

// A conic, in SI units and radians.
struct Conic {
  Real μ, e, a, i, Ω, ω, ν;

  bool elliptic() const { return e < 1; }
  Real ℓ() const { return a * (1 - e * e); }
  Real n() const { return std::sqrt(μ / std::abs(a * a * a)); }
  // Mean anomaly, or its hyperbolic equivalent.
  Real M(Real const ν) const {
    if (elliptic()) {
      Real const E = 2 * std::atan2(std::sqrt(1 - e) * std::sin(ν / 2),
                                    std::sqrt(1 + e) * std::cos(ν / 2));
      return E - e * std::sin(E);
    } else {
      Real const H =
          2 * std::atanh(std::sqrt((e - 1) / (e + 1)) * std::tan(ν / 2));
      return e * std::sinh(H) - H;
    }
  }
  Real TrueAnomaly(Real M) const {
    if (elliptic()) {
      M = std::remainder(M, 2 * Pi);
      Real low = -Pi, high = Pi;
      for (int k = 0; k < 200; ++k) {
        Real const E = (low + high) / 2;
        (E - e * std::sin(E) < M ? low : high) = E;
      }
      return 2 * std::atan2(std::sqrt(1 + e) * std::sin(low / 2),
                            std::sqrt(1 - e) * std::cos(low / 2));
    } else {
      Real low = -50, high = 50;
      for (int k = 0; k < 200; ++k) {
        Real const H = (low + high) / 2;
        (e * std::sinh(H) - H < M ? low : high) = H;
      }
      return 2 * std::atan(std::sqrt((e + 1) / (e - 1)) * std::tanh(low / 2));
    }
  }
  V3 Orient(Real const x, Real const y) const {
    Real const cΩ = std::cos(Ω), sΩ = std::sin(Ω), ci = std::cos(i),
               si = std::sin(i), cω = std::cos(ω), sω = std::sin(ω);
    Real const u = cω * x - sω * y, v = sω * x + cω * y;
    return {cΩ * u - sΩ * ci * v, sΩ * u + cΩ * ci * v, si * v};
  }
  // After a time.
  StateVector At(Real const t) const {
    Real const ν = TrueAnomaly(M(this->ν) + n() * t);
    Real const r = ℓ() / (1 + e * std::cos(ν));
    Real const h = std::sqrt(μ / ℓ());
    return {Orient(r * std::cos(ν), r * std::sin(ν)),
            Orient(-h * std::sin(ν), h * (e + std::cos(ν)))};
  }
};

inline Real Norm(V3 const& v) {
  return std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
}

inline RelativeDegreesOfFreedom<World> From(StateVector const& s) {
  auto const m = [](Real const x) { return static_cast<double>(x); };
  return {Displacement<World>({m(s.q[0]) * Metre, m(s.q[1]) * Metre,
                               m(s.q[2]) * Metre}),
          Velocity<World>({m(s.v[0]) * (Metre / Second),
                           m(s.v[1]) * (Metre / Second),
                           m(s.v[2]) * (Metre / Second)})};
}
inline StateVector To(RelativeDegreesOfFreedom<World> const& d) {
  auto const& q = d.displacement().coordinates() / Metre;
  auto const& v = d.velocity().coordinates() / (Metre / Second);
  return {{q.x, q.y, q.z}, {v.x, v.y, v.z}};
}
inline std::string Show(StateVector const& s) {
  std::ostringstream o;
  o.precision(17);
  o << "(" << s.q[0] << " " << s.q[1] << " " << s.q[2] << "; " << s.v[0] << " "
    << s.v[1] << " " << s.v[2] << ")";
  return o.str();
}
inline bool Close(StateVector const& l, StateVector const& r, Real const tolerance) {
  V3 dq, dv;
  for (int k = 0; k < 3; ++k) {
    dq[k] = l.q[k] - r.q[k];
    dv[k] = l.v[k] - r.v[k];
  }
  return Norm(dq) <= tolerance * Norm(r.q) && Norm(dv) <= tolerance * Norm(r.v);
}

}  // namespace kepler

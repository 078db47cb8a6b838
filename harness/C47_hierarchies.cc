// C47: Jacobi coordinates and hierarchical systems, built from Kepler orbits.
#include <algorithm>
#include <numeric>

#include "harness/kepler.h"
#include "harness/principia.h"
#include "physics/hierarchical_system.hpp"
#include "physics/jacobi_coordinates.hpp"
#include "physics/kepler_orbit.hpp"
#include "physics/massive_body.hpp"
#include "serialization/physics.pb.h"

using namespace kepler;
using namespace principia::physics::_hierarchical_system;
using namespace principia::physics::_jacobi_coordinates;
using namespace principia::physics::_kepler_orbit;
using namespace principia::physics::_massive_body;
using seq::Notes;
using seq::Of;

namespace {
auto const gm = Metre * Metre * Metre / Second / Second;

struct Body {
  std::string name;
  double μ;
  int parent;
  Conic orbit;  // Of its system.
  std::vector<int> satellites;
};

StateVector operator+(StateVector l, StateVector const& r) {
  for (int k = 0; k < 3; ++k) {
    l.q[k] += r.q[k];
    l.v[k] += r.v[k];
  }
  return l;
}
StateVector operator*(Real const x, StateVector s) {
  for (int k = 0; k < 3; ++k) {
    s.q[k] *= x;
    s.v[k] *= x;
  }
  return s;
}

// The bodies of a system, relative to its barycentre, in preorder, by
// increasing semimajor axis.
struct Subsystem {
  Real μ = 0;
  std::vector<int> order;
  std::vector<StateVector> states;
};

Subsystem Expected(std::vector<Body>& bodies, int const k) {
  auto satellites = bodies[k].satellites;
  std::sort(satellites.begin(), satellites.end(), [&](int l, int r) {
    return bodies[l].orbit.a < bodies[r].orbit.a;
  });
  Subsystem s;
  s.μ = bodies[k].μ;
  s.order = {k};
  s.states = {StateVector{}};
  // The barycentre of what has been added is kept at the origin.
  for (int const satellite : satellites) {
    Subsystem const t = Expected(bodies, satellite);
    Conic c = bodies[satellite].orbit;
    c.μ = s.μ + t.μ;
    StateVector const relative = c.At(0);
    StateVector const shift_s = (-t.μ / c.μ) * relative;
    StateVector const shift_t = (s.μ / c.μ) * relative;
    for (auto& x : s.states) {
      x = x + shift_s;
    }
    for (std::size_t i = 0; i < t.order.size(); ++i) {
      s.order.push_back(t.order[i]);
      s.states.push_back(t.states[i] + shift_t);
    }
    s.μ = c.μ;
  }
  return s;
}

// The elements of the orbit of a subsystem of given mass around its parent,
// specified in one of several ways; `c.μ` must be filled.
KeplerianElements<World> Elements(Conic const& c, int const which) {
  auto const d = [](Real const x) { return static_cast<double>(x); };
  KeplerianElements<World> k;
  k.eccentricity = d(c.e);
  switch (which) {
    case 0: k.semimajor_axis = d(c.a) * Metre; break;
    case 1: k.mean_motion = d(c.n()) * (Radian / Second); break;
    case 2: k.period = d(2 * Pi / c.n()) * Second; break;
  }
  k.inclination = d(c.i) * Radian;
  k.longitude_of_ascending_node = d(c.Ω) * Radian;
  k.argument_of_periapsis = d(c.ω) * Radian;
  k.true_anomaly = d(c.ν) * Radian;
  return k;
}

// The mass of the system of `k`.
Real MassOf(std::vector<Body> const& bodies, int const k) {
  Real μ = bodies[k].μ;
  for (int const s : bodies[k].satellites) {
    μ += MassOf(bodies, s);
  }
  return μ;
}

Conic SomeOrbit(int const k, Real const a) {
  Conic c;
  c.a = a;
  c.e = 0.1L * k;
  c.i = 0.3L + 0.5L * k;
  c.Ω = 1.1L * k;
  c.ω = 4 - 0.7L * k;
  c.ν = 0.8L * k * k - 2;
  return c;
}

std::unique_ptr<MassiveBody const> Massive(std::string const& name,
                                           double const μ) {
  return std::make_unique<MassiveBody>(MassiveBody::Parameters(name, μ * gm));
}

void CheckState(StateVector const& actual, StateVector const& expected,
                Real const scale_q, Real const scale_v,
                std::string const& what) {
  for (int k = 0; k < 3; ++k) {
    Check(std::abs(actual.q[k] - expected.q[k]) <= 1e-12L * scale_q &&
              std::abs(actual.v[k] - expected.v[k]) <= 1e-12L * scale_v,
          what, " is ", Show(actual), ", expected ", Show(expected));
  }
}
}  // namespace

SEQ_HARNESS(Hierarchies, .split = 4) {
  int const n = 1 + Choose(seq::Thorough() ? 6 : 5);
  std::vector<Body> bodies(n);
  std::vector<int> depth(n);
  bool const light = Choose(2);
  std::vector<int> ranks;
  for (int k = 1; k < n; ++k) {
    ranks.push_back(k);
  }
  for (int k = 0; k < n; ++k) {
    bodies[k].name = std::string(1, "PQABRC"[k]);
    bodies[k].μ = light ? std::pow(0.01, k) : 1.0 / (1 + k);
    if (k > 0) {
      bodies[k].parent = Choose(k);
      depth[k] = depth[bodies[k].parent] + 1;
      int const r = Choose(ranks.size());
      bodies[k].orbit =
          SomeOrbit(k, (1 + ranks[r]) * std::pow(0.125L, depth[k]));
      ranks.erase(ranks.begin() + r);
      bodies[bodies[k].parent].satellites.push_back(k);
    }
  }
  int const which = Choose(3);
  auto expected = Expected(bodies, 0);

  // The μ to use in the elements, which only matters for the period or motion.
  for (int k = 0; k < n; ++k) {
    auto satellites = bodies[k].satellites;
    std::sort(satellites.begin(), satellites.end(), [&](int l, int r) {
      return bodies[l].orbit.a < bodies[r].orbit.a;
    });
    Real μ = bodies[k].μ;
    Real last_n = std::numeric_limits<Real>::infinity();
    for (int const s : satellites) {
      μ += MassOf(bodies, s);
      bodies[s].orbit.μ = μ;
      if (which != 0) {
        // The order by semimajor axis must be that by mean motion.
        Real const motion = bodies[s].orbit.n();
        if (motion >= last_n) {
          seq::Prune();
        }
        last_n = motion;
      }
    }
  }

  std::vector<MassiveBody const*> pointers(n);
  auto owned = Massive(bodies[0].name, bodies[0].μ);
  pointers[0] = owned.get();
  HierarchicalSystem<World> system(std::move(owned));
  for (int k = 1; k < n; ++k) {
    auto owned = Massive(bodies[k].name, bodies[k].μ);
    pointers[k] = owned.get();
    system.Add(std::move(owned), pointers[bodies[k].parent],
               Elements(bodies[k].orbit, which));
  }
  // The serialization doesn't depend on the order of insertion.
  serialization::HierarchicalSystem message;
  system.WriteToMessage(&message);
  auto const check_message = [&](auto const& self, auto const& m,
                                 int const k) -> void {
    CheckEq(m.primary().name(), bodies[k].name, "name of a subsystem");
    auto sorted = bodies[k].satellites;
    std::sort(sorted.begin(), sorted.end(), [&](int l, int r) {
      return bodies[l].name < bodies[r].name;
    });
    CheckEq(m.satellites_size(), static_cast<int>(sorted.size()),
            "number of satellites");
    for (std::size_t i = 0; i < sorted.size(); ++i) {
      self(self, m.satellites(i), sorted[i]);
      CheckEq(m.satellites(i).jacobi_osculating_elements().eccentricity(),
              static_cast<double>(bodies[sorted[i]].orbit.e), "eccentricity");
    }
  };
  check_message(check_message, message.system(), 0);

  auto const result = system.ConsumeBarycentricSystem();
  CheckEq(result.bodies.size(), expected.order.size(), "number of bodies");
  CheckEq(result.degrees_of_freedom.size(), expected.order.size(),
          "number of degrees of freedom");
  for (std::size_t i = 0; i < expected.order.size(); ++i) {
    seq::Step();
    Check(result.bodies[i].get() == pointers[expected.order[i]],
          "body ", i, " is ", result.bodies[i]->name(), ", expected ",
          bodies[expected.order[i]].name);
    auto const& dof = result.degrees_of_freedom[i];
    CheckState(To({dof.position() - World::origin, dof.velocity()}),
               expected.states[i], 1, 3, "state of " + result.bodies[i]->name());
  }
}

// Adding bodies one at a time, by state or by elements.
SEQ_HARNESS(Jacobi) {
  int const n = Choose(5);
  bool const light = Choose(2);
  auto const mass = [&](int const k) {
    return light ? std::pow(0.01, k) : 1.0 / (1 + k);
  };
  std::vector<StateVector> states{StateVector{}};
  Real μ = mass(0);
  JacobiCoordinates<World> jacobi(*Massive("", mass(0)));
  for (int k = 1; k <= n; ++k) {
    Conic c = SomeOrbit(k, Of({1.0L, 3.0L}));
    c.μ = μ + mass(k);
    StateVector const relative = c.At(0);
    auto const body = Massive("", mass(k));
    if (Choose(2)) {
      jacobi.Add(*body, Elements(c, Choose(3)));
    } else {
      jacobi.Add(*body, From(relative));
    }
    for (auto& s : states) {
      s = s + (-mass(k) / c.μ) * relative;
    }
    states.push_back((μ / c.μ) * relative);
    μ = c.μ;
    double const total = jacobi.System().gravitational_parameter() / gm;
    Check(std::abs(total - μ) <= 1e-14L * μ, "mass of the system is ", total,
          ", expected ", μ);
  }
  auto const actual = jacobi.BarycentricDegreesOfFreedom();
  CheckEq(actual.size(), states.size(), "number of bodies");
  for (std::size_t k = 0; k < states.size(); ++k) {
    seq::Step();
    CheckState(To(actual[k]), states[k], 3, 3, "state of " + std::to_string(k));
  }
}

// C48: apsides and nodes, over lattices of points; with sanitizers.
#include "harness/apsides.h"
#include "harness/kepler.h"
#include "harness/principia.h"

using namespace apsides;
using namespace kepler;
using seq::Of;

namespace {
// The cubic that interpolates values and derivatives.
struct Cubic {
  Real t0, t1, x0, x1, v0, v1;
  Real h() const { return t1 - t0; }
  Real operator()(Real const t) const {
    Real const s = (t - t0) / h();
    return x0 * (1 + 2 * s) * (1 - s) * (1 - s) + h() * v0 * s * (1 - s) *
               (1 - s) + x1 * s * s * (3 - 2 * s) + h() * v1 * s * s * (s - 1);
  }
  Real Derivative(Real const t) const {
    Real const s = (t - t0) / h();
    return 6 * s * (1 - s) * (x1 - x0) / h() + v0 * (1 - s) * (1 - 3 * s) +
           v1 * s * (3 * s - 2);
  }
};

// All the trajectories over a lattice.  The times aren't equally spaced.
struct Lattice {
  DiscreteTrajectory<World> trajectory;
  std::vector<double> times;
  std::vector<StateVector> states;
};
Lattice MakeLattice(int const n, std::vector<StateVector> const& choices,
                    double const origin) {
  double const times[] = {0, 1, 1.75, 4};
  Lattice l;
  for (int i = 0; i < n; ++i) {
    l.times.push_back(origin + times[i]);
    l.states.push_back(choices[Choose(choices.size())]);
    (void)l.trajectory.Append(At(l.times.back()), Dof(l.states.back()));
  }
  return l;
}

}  // namespace

SEQ_HARNESS(ApsidesLattice) {
  std::vector<StateVector> choices;
  for (Real const x : {2.L, -1.L, 0.L}) {
    for (Real const y : {0.L, 1.L}) {
      for (Real const v : {0.L, 1.L, -3.L}) {
        for (Real const w : {0.L, -2.L}) {
          choices.push_back({{x, y, 0}, {v, 0, w}});
        }
      }
    }
  }
  int const n = seq::Thorough() ? 3 : 2;
  Real const scale = Of({1.0L, 0.7L, 1e7L / 3});
  double const origin = Of({0.0, 1e9, 1.0 / 3});
  for (auto& c : choices) {
    for (int k = 0; k < 3; ++k) {
      c.q[k] *= scale;
      c.v[k] *= scale;
      // Not a plane of coordinates.
    }
    Real const a = c.q[0] + 0.1L * c.q[1], b = c.v[0] + 0.3L * c.v[2];
    c.q[1] += 0.2L * a;
    c.v[1] += 0.2L * b;
  }
  auto const lattice = MakeLattice(n, choices, origin);
  Uniform const reference;
  DistinguishedPoints<World> apo, peri;
  ComputeApsides(reference, lattice.trajectory, lattice.trajectory.begin(),
                 lattice.trajectory.end(), At(1e10), 100, apo, peri);
  std::vector<Expectation> expected;
  // As computed in double precision, since the sign of 0 matters.
  auto const square = [&](int const i) {
    auto const d = Dof(lattice.states[i]).position() - World::origin;
    return d.Norm²() / (Metre * Metre);
  };
  auto const derivative = [&](int const i) -> double {
    auto const d = Dof(lattice.states[i]);
    return 2 * InnerProduct(d.position() - World::origin, d.velocity()) /
           (Metre * Metre / Second);
  };
  for (int i = 1; i < n; ++i) {
    double const from = lattice.times[i - 1], to = lattice.times[i];
    double const d0 = derivative(i - 1), d1 = derivative(i);
    if (std::signbit(d0) == std::signbit(d1)) {
      continue;
    }
    Cubic const cubic{from, to, square(i - 1), square(i), d0, d1};
    if (d0 == 0 && d1 == 0) {
      // Nothing is said of this case.
      seq::Prune();
    }
    if (d0 == 0 || d1 == 0) {
      // Stationary at a point, and possibly elsewhere.
      expected.push_back({from, to, !std::signbit(d1)});
      continue;
    }
    // The only extremum.
    Real low = from, high = to;
    for (int k = 0; k < 200; ++k) {
      Real const t = (low + high) / 2;
      ((cubic.Derivative(t) < 0) == (d0 < 0) ? low : high) = t;
    }
    double const ε = 1e-7;
    expected.push_back({std::max<double>(from, low - ε),
                        std::min<double>(to, low + ε), d1 >= 0});
  }
  CheckEvents(expected, peri, apo, lattice.trajectory, apsis_names);
}

SEQ_HARNESS(NodesLattice) {
  std::vector<StateVector> choices;
  for (Real const z : {0.L, 2.L, 1e-3L, -1.L}) {
    for (Real const w : {0.L, 1.L, -3.L, 4.L}) {
      choices.push_back({{1, 2, z}, {3, 0, w}});
    }
  }
  int const n = 3;
  Real const scale = Of({1.0L, 1e7L / 3});
  double const origin = Of({0.0, 1e9, 1.0 / 3});
  for (auto& c : choices) {
    for (int k = 0; k < 3; ++k) {
      c.q[k] *= scale;
      c.v[k] *= scale;
    }
  }
  auto const lattice = MakeLattice(n, choices, origin);
  bool const north_up = Choose(2);
  int const filter = Choose(3);
  auto const predicate = [&](DegreesOfFreedom<World> const& dof) {
    return filter == 0 || (filter == 1 && dof.velocity().coordinates().z >
                                              0 * Metre / Second);
  };
  DistinguishedPoints<World> ascending, descending;
  auto const status = ComputeNodes(
      lattice.trajectory, lattice.trajectory.begin(), lattice.trajectory.end(),
      At(1e10), Vector<double, World>({0.25, -1, north_up ? 0.5 : -0.5}), 100,
      ascending, descending, predicate);
  Check(status.ok(), "status");
  std::vector<Expectation> expected;
  for (int i = 1; i < n; ++i) {
    auto const& s0 = lattice.states[i - 1];
    auto const& s1 = lattice.states[i];
    double const from = lattice.times[i - 1], to = lattice.times[i];
    if ((s0.q[2] < 0) == (s1.q[2] < 0)) {
      continue;
    }
    bool const up = s1.q[2] >= 0;
    // There may be several crossings, any of which is good.
    Cubic const z{from, to, s0.q[2], s1.q[2], s0.v[2], s1.v[2]};
    Expectation e{from, to, up == north_up};
    auto const& found = e.up ? ascending : descending;
    bool accepted = filter == 0;
    if (filter == 1) {
      // At the crossing, whichever it is.
      int crossings = 0;
      bool speed = false;
      bool doubtful = s0.q[2] == 0 || s1.q[2] == 0;
      for (int k = 0; k < 1000; ++k) {
        Real const a = from + (to - from) * k / 1000;
        Real const b = from + (to - from) * (k + 1) / 1000;
        if ((z(a) < 0) != (z(b) < 0)) {
          ++crossings;
          speed = z.Derivative((a + b) / 2) > 0;
          doubtful |= std::abs(z.Derivative((a + b) / 2)) < 0.1L * scale;
        }
      }
      if (crossings != 1 || doubtful) {
        seq::Prune();
      }
      accepted = speed;
    }
    if (!accepted) {
      continue;
    }
    expected.push_back(e);
    // On the plane.
    auto const it = found.lower_bound(At(from));
    Check(it != found.end(), "node not found between ", from, " and ", to);
    double const actual = Time_(it->first);
    Check(std::abs(z(actual)) <= (1e-12L + 4e-16L * origin * 10) * scale * 10,
          "node at ", actual, " where z is ", z(actual));
  }
  CheckEvents(expected, ascending, descending, lattice.trajectory, node_names);
}

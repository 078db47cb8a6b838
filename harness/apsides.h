// Trajectories and their apsides, nodes, etc.
#pragma once

#include <algorithm>

#include "harness/kepler.h"
#include "harness/principia.h"
#include "physics/apsides.hpp"
#include "physics/discrete_trajectory.hpp"
#include "physics/trajectory.hpp"

using namespace kepler;
using namespace principia::physics::_apsides;
using namespace principia::physics::_discrete_trajectory;
using namespace principia::physics::_trajectory;

namespace apsides {
inline Instant const t0;
inline Instant At(double const t) {
  return t0 + t * Second;
}
inline double Time_(Instant const& t) {
  return (t - t0) / Second;
}
inline DegreesOfFreedom<World> Dof(StateVector const& s) {
  auto const r = From(s);
  return {World::origin + r.displacement(), r.velocity()};
}

// A uniform motion, known between two times.
struct Uniform : Trajectory<World> {
  V3 q{}, v{};
  double min = -std::numeric_limits<double>::infinity();
  double max = std::numeric_limits<double>::infinity();

  StateVector State(Real const t) const {
    return {{q[0] + t * v[0], q[1] + t * v[1], q[2] + t * v[2]}, v};
  }
  Instant t_min() const override { return At(min); }
  Instant t_max() const override { return At(max); }
  Position<World> EvaluatePosition(Instant const& t) const override {
    return EvaluateDegreesOfFreedom(t).position();
  }
  Velocity<World> EvaluateVelocity(Instant const& t) const override {
    return EvaluateDegreesOfFreedom(t).velocity();
  }
  DegreesOfFreedom<World> EvaluateDegreesOfFreedom(
      Instant const& t) const override {
    Check(t_min() <= t && t <= t_max(), "reference evaluated at ", Time_(t));
    return Dof(State(Time_(t)));
  }
};

inline StateVector operator+(StateVector l, StateVector const& r) {
  for (int k = 0; k < 3; ++k) {
    l.q[k] += r.q[k];
    l.v[k] += r.v[k];
  }
  return l;
}

struct Event {
  double t;
  bool up;  // Periapsis or ascending node.
};

// Checks that the events found are those expected, in some intervals.
struct Expectation {
  double from, to;
  bool up;
};
inline void CheckEvents(std::vector<Expectation> const& expected,
                 DistinguishedPoints<World> const& up,
                 DistinguishedPoints<World> const& down,
                 Trajectory<World> const& trajectory, char const* const names[2],
                 std::size_t const max_points = 1 << 20) {
  std::vector<Event> actual;
  for (auto const& [t, dof] : up) {
    actual.push_back({Time_(t), true});
  }
  for (auto const& [t, dof] : down) {
    actual.push_back({Time_(t), false});
  }
  for (auto const* const points : {&up, &down}) {
    for (auto const& [t, dof] : *points) {
      Check(dof == trajectory.EvaluateDegreesOfFreedom(t),
            "degrees of freedom at ", Time_(t));
    }
  }
  std::stable_sort(actual.begin(), actual.end(),
                   [](Event const& l, Event const& r) { return l.t < r.t; });
  std::string found;
  for (auto const& a : actual) {
    found += std::string(names[a.up]) + " " + std::to_string(a.t) + " ";
  }
  CheckEq(actual.size(), expected.size(), "number of events: ", found);
  for (std::size_t i = 1; i < actual.size(); ++i) {
    if (actual[i].t == actual[i - 1].t &&
        actual[i - 1].up != expected[i - 1].up) {
      std::swap(actual[i].up, actual[i - 1].up);
    }
  }
  for (std::size_t i = 0; i < actual.size(); ++i) {
    seq::Step();
    Check(actual[i].up == expected[i].up && expected[i].from <= actual[i].t &&
              actual[i].t <= expected[i].to,
          names[actual[i].up], " at ", actual[i].t, ", expected ",
          names[expected[i].up], " between ", expected[i].from, " and ",
          expected[i].to);
  }
}
inline char const* const apsis_names[] = {"apoapsis", "periapsis"};
inline char const* const node_names[] = {"descending node", "ascending node"};
}  // namespace apsides

// C48: apsides, nodes, and collisions, of Kepler orbits.
#include <algorithm>

#include "geometry/interval.hpp"
#include "harness/apsides.h"
#include "harness/kepler.h"
#include "harness/principia.h"
#include "physics/massive_body.hpp"
#include "physics/rotating_body.hpp"

using namespace apsides;
using namespace kepler;
using namespace principia::geometry::_interval;
using namespace principia::physics::_massive_body;
using namespace principia::physics::_rotating_body;
using seq::Notes;
using seq::Of;
using seq::Pick;

namespace {
// A Kepler orbit, possibly in a system in translation, sampled at given times.
struct Orbit {
  Conic c;
  Uniform system;
  Real start;   // Time at which the anomaly is c.ν.
  std::vector<double> times;
  DiscreteTrajectory<World> trajectory;

  StateVector State(Real const t) const {
    return c.At(t - start) + system.State(t);
  }
  Real T() const { return 2 * Pi / c.n(); }
  void Sample(std::vector<double> const& t) {
    times = t;
    for (double const t : times) {
      (void)trajectory.Append(At(t), Dof(State(t)));
    }
  }
  // The times in the range at which the anomaly is ν.
  std::vector<double> TimesOf(Real const ν, Real const from,
                              Real const to) const {
    std::vector<double> result;
    if (c.elliptic()) {
      Real const first = (c.M(ν) - c.M(c.ν)) / c.n() + start;
      for (Real t = first - std::ceil((first - from) / T()) * T() - T();
           t <= to; t += T()) {
        if (t >= from) {
          result.push_back(static_cast<double>(t));
        }
      }
    } else if (std::abs(ν) < std::acos(-1 / c.e)) {
      Real const t = (c.M(ν) - c.M(c.ν)) / c.n() + start;
      if (t >= from && t <= to) {
        result.push_back(static_cast<double>(t));
      }
    }
    return result;
  }
};

// `per_turn` points per period, or equivalent.
std::unique_ptr<Orbit> ChooseOrbit(int const per_turn, Real const turns,
                                   std::vector<Real> const& eccentricities,
                                   bool const moving) {
  auto o = std::make_unique<Orbit>();
  auto& c = o->c;
  c.e = Pick(eccentricities);
  bool const big = Choose(2);
  c.μ = big ? 3.986e14L : 2;
  c.a = (big ? 7e6L : 1.5L) / (1 - c.e);
  c.i = Of({0.5L, 2.0L});
  c.Ω = 1;
  c.ω = Of({0.25L, 4.25L});
  c.ν = 0;
  Real const unit = 2 * Pi / c.n();
  o->start = unit * Of({-0.3L, 0.L, 0.5L, 0.8125L});
  if (moving) {
    o->system.q = {c.a, -2 * c.a, 3 * c.a};
    o->system.v = {c.a / unit, c.a / unit / 2, -c.a / unit};
  }
  // Equally spaced or not.
  bool const irregular = Choose(2);
  std::vector<double> times;
  for (int i = 0; i <= per_turn * turns; ++i) {
    Real const x = static_cast<Real>(i) / per_turn;
    times.push_back(static_cast<double>(
        unit * (x + (irregular ? 0.4L / per_turn * std::sin(3.0L * i) : 0))));
  }
  o->Sample(times);
  return o;
}

// Sorts and removes what is out of the sampled range; the tolerance is a
// fraction of the interval that contains the event.
std::vector<Expectation> Around(std::vector<double> const& times,
                                std::vector<double> const& up,
                                std::vector<double> const& down,
                                double const tolerance) {
  std::vector<Expectation> result;
  for (bool const is_up : {true, false}) {
    for (double const t : is_up ? up : down) {
      auto const it = std::lower_bound(times.begin(), times.end(), t);
      double const h = it == times.begin() || it == times.end()
                           ? times[1] - times[0]
                           : *it - *(it - 1);
      result.push_back({t - tolerance * h, t + tolerance * h, is_up});
    }
  }
  std::sort(result.begin(), result.end(),
            [](auto const& l, auto const& r) { return l.from < r.from; });
  return result;
}

// Events at the extremities of the range may or may not be found.
bool Ambiguous(std::vector<double> const& events, double const from,
               double const to, double const h) {
  for (double const t : events) {
    if (std::abs(t - from) < 0.02 * h || std::abs(t - to) < 0.02 * h) {
      return true;
    }
  }
  return false;
}
std::vector<double> Within(std::vector<double> const& events,
                           double const from, double const to) {
  std::vector<double> result;
  for (double const t : events) {
    if (from <= t && t <= to) {
      result.push_back(t);
    }
  }
  return result;
}
std::vector<double> operator+(std::vector<double> l,
                              std::vector<double> const& r) {
  l.insert(l.end(), r.begin(), r.end());
  return l;
}
}  // namespace

SEQ_HARNESS(OrbitEvents) {
  bool const moving = Choose(2);
  auto const o = ChooseOrbit(64, 2.25L, {0.125L, 0.5L, 1.5L}, moving);
  auto const& times = o->times;
  int const last = times.size() - 1;
  // The range.
  int const begin = Of({0, 3, 40});
  int const end = last + 1 - Of({0, 17});
  bool const limit = Choose(2);
  double const t_max = limit ? times[last - 30] * 1.0000001 : 1e20;
  int const max_points = Of({100, 1});
  double const h = times[1] - times[0];

  auto it_begin = o->trajectory.begin();
  for (int i = 0; i < begin; ++i) ++it_begin;
  auto it_end = o->trajectory.begin();
  for (int i = 0; i < end; ++i) ++it_end;
  double const from = times[begin];
  double to = times[end - 1];
  if (limit) {
    to = std::min(to, times[last - 30]);
  }
  Notes("e ", o->c.e, " start ", o->start, " from ", from, " to ", to);
  {
    Uniform reference = o->system;
    bool const short_reference = Choose(2);
    double from_apsides = from, to_apsides = to;
    if (short_reference) {
      reference.min = times[20] * 0.9999999;
      reference.max = times[last - 40] * 1.0000001;
      from_apsides = std::max(from, times[20]);
      to_apsides = std::min(to, times[last - 40]);
    }
    auto peri = o->TimesOf(0, from - h, to + h);
    auto apo = o->c.elliptic() ? o->TimesOf(Pi, from - h, to + h)
                               : std::vector<double>{};
    if (Ambiguous(peri + apo, from_apsides, to_apsides, h)) {
      seq::Prune();
    }
    auto expected =
        Around(times, Within(peri, from_apsides, to_apsides),
               Within(apo, from_apsides, to_apsides), 0.05);
    if (max_points == 1) {
      // The first of each.
      int count[2] = {0, 0};
      std::size_t k = 0;
      while (k < expected.size() && !(count[0] >= 1 && count[1] >= 1)) {
        ++count[expected[k++].up];
      }
      expected.resize(k);
    }
    DistinguishedPoints<World> apoapsides, periapsides;
    ComputeApsides(reference, o->trajectory, it_begin, it_end, At(t_max),
                   max_points, apoapsides, periapsides);
    CheckEvents(expected, periapsides, apoapsides, o->trajectory, apsis_names);
  }
  if (!moving) {
    // The ascending node is at anomaly -ω, whatever the inclination.
    bool const up = Choose(2);
    auto ascending = o->TimesOf(std::remainder(-o->c.ω, 2 * Pi), from - h,
                                to + h);
    auto descending = o->TimesOf(std::remainder(Pi - o->c.ω, 2 * Pi), from - h,
                                 to + h);
    if (Ambiguous(ascending + descending, from, to, h)) {
      seq::Prune();
    }
    auto expected = up ? Around(times, Within(ascending, from, to),
                                Within(descending, from, to), 0.05)
                       : Around(times, Within(descending, from, to),
                                Within(ascending, from, to), 0.05);
    if (max_points == 1) {
      int count[2] = {0, 0};
      std::size_t k = 0;
      while (k < expected.size() && !(count[0] >= 1 && count[1] >= 1)) {
        ++count[expected[k++].up];
      }
      expected.resize(k);
    }
    DistinguishedPoints<World> a, d;
    Check(ComputeNodes(o->trajectory, it_begin, it_end, At(t_max),
                       Vector<double, World>({0, 0, up ? 1.0 : -1.0}),
                       max_points, a, d)
              .ok(),
          "status");
    CheckEvents(expected, a, d, o->trajectory, node_names);
  }
}

// Collisions with a rotating body which is not a sphere.
SEQ_HARNESS(Collisions, .split = 4) {
  bool const moving = Choose(2);
  auto const o = std::make_unique<Orbit>();
  auto& c = o->c;
  c.e = Of({0.125L, 0.5L, 1.5L});
  c.μ = 3.986e14L;
  // The surface is at 7e6 m, more or less.
  Real const R = 7e6L;
  Real const r_pe = R * Of({0.5L, 0.97L, 1.02L, 1.5L, 0.8L});
  c.a = r_pe / (1 - c.e);
  c.i = Of({0.5L, 2.0L});
  c.Ω = 1;
  c.ω = 4.25L;
  c.ν = 0;
  Real const unit = std::min(2 * Pi / c.n(), Real(20000));
  o->start = unit * Of({-0.3L, 0.03L, 0.47L, 0.8L});
  if (moving) {
    o->system.q = {R, -2 * R, 3 * R};
    o->system.v = {20'000, 5'000, -10'000};
  }
  std::vector<double> times;
  int const n = 300;
  for (int i = 0; i <= n; ++i) {
    times.push_back(static_cast<double>(unit * 2 * i / n));
  }
  o->Sample(times);
  bool const bumpy = Choose(2);
  double const bump = bumpy ? 3e5 : 0;
  double const max_radius = static_cast<double>(R) + bump;
  double const ω = Of({1e-3, -1e-4});
  RotatingBody<World> const body(
      MassiveBody::Parameters(static_cast<double>(c.μ) * Metre * Metre * Metre /
                              Second / Second),
      RotatingBody<World>::Parameters(
          1 * Metre, 7e6 * Metre, max_radius * Metre, 0 * Metre,
          /*has_ocean=*/false, 0.5 * Radian, t0, ω * Radian / Second,
          -π / 2 * Radian, π / 2 * Radian));
  auto const radius = [&](Angle const& latitude, Angle const& longitude) {
    return (7e6 + bump * std::sin(2 * (longitude / Radian)) *
                      std::cos(latitude / Radian) *
                      std::cos(latitude / Radian)) *
           Metre;
  };
  Uniform const& reference = o->system;
  DistinguishedPoints<World> apo, peri;
  ComputeApsides(reference, o->trajectory, o->trajectory.begin(),
                 o->trajectory.end(), At(1e20), 100, apo, peri);
  auto const intervals = ComputeCollisionIntervals(body, reference,
                                                   o->trajectory, apo, peri);
  // The trajectory and the height on a fine grid.
  int const m = 8 * n;
  double const δ = times.back() / m;
  std::vector<double> r, height;
  for (int i = 0; i <= m; ++i) {
    double const t = i * δ;
    StateVector const s = c.At(t - o->start);
    r.push_back(static_cast<double>(Norm(s.q)));
    // The pole is z; the prime meridian is turned by the reference angle, from
    // the node, which is where the equator crosses the xy plane, i.e., at a
    // right ascension of 90° + α₀.
    double const longitude =
        std::atan2(static_cast<double>(s.q[1]), static_cast<double>(s.q[0])) -
        (0.5 + ω * t);
    double const latitude = std::asin(static_cast<double>(s.q[2] / Norm(s.q)));
    height.push_back(r.back() - radius(latitude * Radian,
                                       longitude * Radian) / Metre);
  }
  Notes("e ", c.e, " r_pe ", r_pe, " start ", o->start, " bump ", bump);
  // The intervals are those where r < max_radius.
  double const slack = 2000;
  int below = 0;
  for (int i = 0; i <= m; ++i) {
    Instant const t = At(i * δ);
    bool in = false;
    for (auto const& interval : intervals) {
      in |= interval.min <= t && t <= interval.max;
    }
    if (r[i] < max_radius - slack) {
      ++below;
      Check(in, "the distance is ", r[i], " at ", i * δ,
            " which is not in an interval");
    } else if (r[i] > max_radius + slack) {
      Check(!in, "the distance is ", r[i], " at ", i * δ,
            " which is in an interval");
    }
  }
  for (std::size_t k = 1; k < intervals.size(); ++k) {
    Check(intervals[k - 1].max <= intervals[k].min, "intervals out of order");
  }
  if (below == 0) {
    Check(intervals.size() <= 3, "intervals");
  }
  // The first collision in each.
  Length const max_error = 10 * Metre;
  for (auto const& interval : intervals) {
    seq::Step();
    auto const collision = ComputeFirstCollision(
        body, reference, o->trajectory, interval, max_error, radius);
    // The height when entering.
    int const first = std::ceil(Time_(interval.min) / δ);
    int const last = std::floor(Time_(interval.max) / δ);
    int crossing = -1;
    double lowest = 1e300;
    for (int i = first; i <= last; ++i) {
      lowest = std::min(lowest, std::abs(height[i]));
      if (i > first && crossing == -1 && (height[i] < 0) !=
                                             (height[i - 1] < 0)) {
        crossing = i;
      }
    }
    if (collision) {
      double const t = Time_(collision->first);
      Check(interval.min <= collision->first &&
                collision->first <= interval.max,
            "collision at ", t, " not in its interval");
      Check(collision->second ==
                o->trajectory.EvaluateDegreesOfFreedom(collision->first),
            "degrees of freedom of a collision");
      if (crossing != -1) {
        Check(t <= (crossing + 1) * δ, "collision at ", t, ", expected at ",
              crossing * δ);
      }
      // The height there.
      auto const d = collision->second.position() -
                     reference.EvaluatePosition(collision->first);
      auto const& q = d.coordinates();
      double const longitude = std::atan2(q.y / Metre, q.x / Metre) -
                               (0.5 + ω * t);
      double const latitude = std::asin(q.z / d.Norm());
      double const h = d.Norm() / Metre -
                       radius(latitude * Radian, longitude * Radian) / Metre;
      Check(std::abs(h) <= 100, "height at the time of collision is ", h);
    } else {
      Check(crossing == -1, "no collision found, there is one at ",
            crossing * δ);
    }
  }
}

// C43: continuous trajectories.
#include <cmath>
#include <functional>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "geometry/frame.hpp"
#include "geometry/instant.hpp"
#include "geometry/space.hpp"
#include "numerics/newhall.hpp"
#include "numerics/polynomial_evaluators.hpp"
#include "numerics/polynomial_in_monomial_basis.hpp"
#include "physics/checkpointer.hpp"
#include "physics/continuous_trajectory.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "quantities/si.hpp"
#include "seq/seq.h"
#include "serialization/physics.pb.h"

using namespace principia::base::_not_null;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_space;
using namespace principia::numerics::_newhall;
using namespace principia::numerics::_polynomial_evaluators;
using namespace principia::numerics::_polynomial_in_monomial_basis;
using namespace principia::physics::_continuous_trajectory;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
namespace serialization = principia::serialization;
using seq::Check;
using seq::CheckEq;
using seq::Choose;
using seq::Notes;
using seq::Of;

namespace {
using World = Frame<serialization::Frame::TestTag, Inertial,
                    Handedness::Right, serialization::Frame::TEST>;
using Dof = DegreesOfFreedom<World>;
using Trajectory = ContinuousTrajectory<World>;
using Message = serialization::ContinuousTrajectory;

// The last ones are not smooth.
enum Motion { Rest, Line, Parabola, SlowCircle, FastCircle, Ellipse, Septic,
              Jagged, Noisy };

Dof DofAt(Motion const motion, double const s) {
  // `s` is in steps.
  std::array<double, 3> q{};
  std::array<double, 3> v{};
  auto circle = [&](double const r, double const ω, double const flat) {
    q = {r * std::cos(ω * s), flat * r * std::sin(ω * s), 3 + s / 8};
    v = {-r * ω * std::sin(ω * s), flat * r * ω * std::cos(ω * s), 1.0 / 8};
  };
  switch (motion) {
    case Rest:
      q = {1, 2, 3};
      break;
    case Line:
      q = {1 + s, 2 - 3 * s, 0.25 * s};
      v = {1, -3, 0.25};
      break;
    case Parabola:
      q = {s * s / 16, 2 - s, 100};
      v = {s / 8, -1, 0};
      break;
    case SlowCircle:
      circle(1000, 0.01, 1);
      break;
    case FastCircle:
      circle(1000, 0.15, 1);
      break;
    case Ellipse: {
      // Eccentric anomaly as a function of time for e = 0.5.
      double const e = 0.5;
      double const n = 0.05;
      double E = n * s;
      for (int i = 0; i < 60; ++i) {
        E -= (E - e * std::sin(E) - n * s) / (1 - e * std::cos(E));
      }
      double const Ė = n / (1 - e * std::cos(E));
      q = {500 * (std::cos(E) - e), 500 * std::sqrt(1 - e * e) * std::sin(E),
           0};
      v = {-500 * std::sin(E) * Ė,
           500 * std::sqrt(1 - e * e) * std::cos(E) * Ė, 0};
      break;
    }
    case Septic: {
      double const x = (s - 20) / 10;
      q = {std::pow(x, 7), std::pow(x, 5) - x, x * x * x};
      v = {7 * std::pow(x, 6) / 10, (5 * std::pow(x, 4) - 1) / 10,
           3 * x * x / 10};
      break;
    }
    case Jagged:
      q = {s < 20 ? s : 40 - s, 0, s};
      v = {s < 20 ? 1.0 : -1.0, 0, 1};
      break;
    case Noisy: {
      double const f = s * 1.6180339887498949;
      q = {100 + f - std::floor(f), s, 0};
      v = {0, 1, 0};
      break;
    }
  }
  return {World::origin + Displacement<World>({q[0] * Metre, q[1] * Metre,
                                               q[2] * Metre}),
          Velocity<World>({v[0] * Metre / Second, v[1] * Metre / Second,
                           v[2] * Metre / Second})};
}

struct Setup {
  Motion motion;
  double tolerance;
  double step;
  double t0;

  // The times at which points are appended, computed as the integrators do.
  Instant At(int const n) const {
    return Instant() + t0 * Second + n * (step * Second);
  }
  Dof dof(int const n) const {
    Dof const d = DofAt(motion, n);
    return {d.position(), d.velocity() / step};
  }
  std::unique_ptr<Trajectory> New() const {
    return std::make_unique<Trajectory>(step * Second, tolerance * Metre);
  }
  // Appends the points `begin`, ..., `end - 1`.
  void Append(Trajectory& tr, int const begin, int const end,
              bool const ok = false) const {
    for (int n = begin; n < end; ++n) {
      auto const status = tr.Append(At(n), dof(n));
      if (ok) { Check(status.ok(), "status of append ", n); }
      seq::Step();
    }
  }
};

Setup AnySetup(bool const smooth) {
  std::vector<Setup> setups;
  for (int m = Rest; m <= (smooth ? Septic : Noisy); ++m) {
    for (double const tolerance : {1e-3, 1.0}) {
      setups.push_back({static_cast<Motion>(m), tolerance, 1, 0});
      setups.push_back({static_cast<Motion>(m), tolerance, 0.1, 1000});
    }
    setups.push_back({static_cast<Motion>(m), 1e-3, 45 * 60, -1e8});
  }
  Setup const s = setups[Choose(setups.size())];
  Notes("motion ", s.motion, " tolerance ", s.tolerance, " step ", s.step,
        " t0 ", s.t0);
  return s;
}

double Distance(Position<World> const& a, Position<World> const& b) {
  return (a - b).Norm() / Metre;
}

Dof Evaluate(Trajectory const& tr, Instant const& t) {
  Dof const d = tr.EvaluateDegreesOfFreedom(t);
  auto const q = tr.EvaluatePosition(t);
  auto const v = tr.EvaluateVelocity(t);
  Check(Distance(q, d.position()) <=
            1e-13 * (1 + (d.position() - World::origin).Norm() / Metre),
        "position and degrees of freedom at ", t);
  Check((v - d.velocity()).Norm() <=
            1e-12 * (Metre / Second + d.velocity().Norm()),
        "velocity and degrees of freedom at ", t);
  return d;
}

// Evaluates to exactly the same values everywhere.
void SameBetween(Setup const& s, Trajectory const& tr, Trajectory const& other,
                 Instant const& t_min, Instant const& t_max,
                 char const* const what) {
  int const n_min = std::lround((t_min - s.At(0)) / (s.step * Second)) * 4;
  int const n_max = std::lround((t_max - s.At(0)) / (s.step * Second)) * 4;
  for (int n = n_min; n <= n_max; ++n) {
    Instant const t =
        n == n_min ? t_min
                   : n == n_max ? t_max
                                : s.At(n / 4) + (n % 4) * (s.step * Second) / 4;
    if (n == n_min && t > other.t_min()) {
      // The other trajectory uses its preceding polynomial.
      Check(Distance(tr.EvaluatePosition(t), other.EvaluatePosition(t)) <=
                1e-9 * (1 + (tr.EvaluatePosition(t) - World::origin).Norm() /
                                Metre),
            what, ": different beginning");
      continue;
    }
    Check(tr.EvaluateDegreesOfFreedom(t) == other.EvaluateDegreesOfFreedom(t),
          what, ": different at ", n / 4.0);
    Check(tr.EvaluatePosition(t) == other.EvaluatePosition(t), what,
          ": different position at ", n / 4.0);
    Check(tr.EvaluateVelocity(t) == other.EvaluateVelocity(t), what,
          ": different velocity at ", n / 4.0);
  }
}

void CheckBounds(Setup const& s, Trajectory const& tr, int const first,
                 int const count) {
  // `first` is a multiple of 8, the points up to `count - 1` are known.
  int const last = (count - 1) / 8 * 8;
  if (last <= first) {
    Check(tr.empty(), "empty with ", count);
    Check(tr.t_min() == principia::geometry::_instant::InfiniteFuture &&
              tr.t_max() == principia::geometry::_instant::InfinitePast,
          "bounds of empty trajectory");
  } else {
    Check(!tr.empty(), "not empty with ", count);
    Check(tr.t_min() == s.At(first), "t_min ", tr.t_min(), " not ",
          s.At(first), " with ", count);
    Check(tr.t_max() == s.At(last), "t_max ", tr.t_max(), " not ", s.At(last),
          " with ", count);
  }
}
}  // namespace

// The values of the trajectory.
SEQ_HARNESS(values, .split = 1) {
  Setup const s = AnySetup(/*smooth=*/false);
  bool const smooth = s.motion <= Septic;
  auto const tr = s.New();
  int const count = seq::Thorough() ? 1700 : 850;
  double worst = 0;
  CheckEq(tr->average_degree(), 0.0, "degree of nothing");
  for (int n = 0; n < count; ++n) {
    CheckBounds(s, *tr, 0, n);
    s.Append(*tr, n, n + 1, smooth);
    CheckBounds(s, *tr, 0, n + 1);
    if (n == 0 || n % 8 != 0) { continue; }
    // A new polynomial: it goes through its extremities, and is one of the
    // approximations for the 9 points.
    double scale = 1;
    for (int i = n - 8; i <= n; ++i) {
      scale = std::max(scale,
                       (s.dof(i).position() - World::origin).Norm() / Metre);
    }
    double const ε = 1e-12 * scale;
    for (int i = n - 8; i <= n; ++i) {
      Dof const actual = Evaluate(*tr, s.At(i));
      double const error = Distance(actual.position(), s.dof(i).position());
      // The intermediate points may be evaluated with the preceding
      // polynomial, but it's the same thing.
      if (i == n - 8 || i == n) {
        Check(error <= ε * (s.motion == Noisy ? 1e4 : 1e2), "extremity ", i,
              " error ", error);
      }
      if (smooth) {
        Check(error <= 2 * s.tolerance + 10 * ε, "point ", i, " error ", error);
        worst = std::max(worst, error / s.tolerance);
        if (i < n) {
          // Half way.
          double const x = i + 0.5;
          double const error = Distance(
              Evaluate(*tr, s.At(i) + s.step * Second / 2).position(),
              DofAt(s.motion, x).position());
          Check(error <= 2 * s.tolerance + 10 * ε, "point ", x, " error ", error);
        }
      }
    }
  }
  double const degree = tr->average_degree();
  Check(degree >= 3 && degree <= 17, "degree ", degree);
  if (s.motion <= Line) { CheckEq(degree, 3.0, "degree"); }
  Notes("worst ", worst, " degree ", degree);
}

// Evaluations in any order.
SEQ_HARNESS(order, .split = 1) {
  Setup const s = AnySetup(/*smooth=*/false);
  int const polynomials = seq::Thorough() ? 8 : 5;
  auto const tr = s.New();
  s.Append(*tr, 0, polynomials * 8 + 1);
  auto at = [&](int const n) {
    return s.At(n / 2) + (n % 2) * (s.step * Second) / 2;
  };
  std::vector<Dof> expected;
  for (int n = 0; n <= polynomials * 16; ++n) {
    // A fresh trajectory, so that nothing has been evaluated.
    auto const fresh = s.New();
    s.Append(*fresh, 0, polynomials * 8 + 1);
    expected.push_back(fresh->EvaluateDegreesOfFreedom(at(n)));
  }
  for (int i = 0; i <= polynomials * 16; ++i) {
    for (int j = 0; j <= polynomials * 16; ++j) {
      Check(tr->EvaluateDegreesOfFreedom(at(i)) == expected[i], "at ", i / 2.0,
            " after ", j / 2.0);
      Check(tr->EvaluateDegreesOfFreedom(at(j)) == expected[j], "at ", j / 2.0,
            " after ", i / 2.0);
      seq::Step();
    }
  }
  // Evaluating while appending changes nothing either.
  auto const other = s.New();
  int const period = Of({1, 3, 8, 9});
  for (int n = 0; n <= polynomials * 8; ++n) {
    s.Append(*other, n, n + 1);
    if (n >= 8 && n % period == 0) {
      for (int i = 0; i <= n / 8 * 16; i += 5) {
        Check(other->EvaluateDegreesOfFreedom(at(i)) == expected[i], "at ",
              i / 2.0, " with ", n);
      }
    }
  }
}

// Saving, restoring, and reconstructing the past.
SEQ_HARNESS(histories, .split = 2) {
  Setup const s = AnySetup(/*smooth=*/false);
  auto const tr = s.New();
  int const end = seq::Thorough() ? 60 : 44;
  // Where the checkpoints and the save take place: the number of points at that
  // time.  The first one must be before the first polynomial, or else it must
  // be the only one.
  std::vector<int> const checkpoints = [&]() -> std::vector<int> {
    switch (Choose(6)) {
      case 0: return {1};
      case 1: return {8, 20};
      case 2: return {3, 9, 24};
      case 3: return {1, 17, 18, 33};
      case 4: return {21};
      default: return {8, 12, 16, 25};
    }
  }();
  int const save = Of({0, 1, 5, 8, 11}) + checkpoints.back();
  {
    int n = 0;
    for (int const c : checkpoints) {
      s.Append(*tr, n, c);
      tr->WriteToCheckpoint(s.At(c - 1));
      n = c;
    }
    s.Append(*tr, n, save);
  }
  Message message;
  tr->WriteToMessage(&message);
  // Serialization doesn't affect the trajectory.
  s.Append(*tr, save, end);
  CheckBounds(s, *tr, 0, end);
  auto const whole = s.New();
  s.Append(*whole, 0, end);
  SameBetween(s, *tr, *whole, whole->t_min(), whole->t_max(), "after saving");

  // Restore at any of the checkpoints, by asking for a time at or after it but
  // before the next one.
  int const restored = Choose(checkpoints.size());
  int const later = Choose(2);
  Instant const desired_t_min =
      later == 0 ? s.At(checkpoints[restored] - 1)
                 : restored + 1 == checkpoints.size()
                       ? s.At(save + 5)
                       : s.At(checkpoints[restored + 1] - 1) -
                             s.step / 2 * Second;
  auto const read = Trajectory::ReadFromMessage(desired_t_min, message);
  Notes("save ", save, " restored at ", checkpoints[restored]);
  // Before the checkpoint was taken, there were that many polynomials; they
  // are restored only for the oldest checkpoint.
  int const first = restored == 0 ? 0 : (checkpoints[restored] - 1) / 8 * 8;
  CheckBounds(s, *read, first, checkpoints[restored]);
  if (!read->empty()) {
    SameBetween(s, *read, *whole, read->t_min(), read->t_max(), "restored");
  }
  if (restored == 0) {
    // The message can be rewritten.
    Message again;
    read->WriteToMessage(&again);
    Check(again.SerializeAsString() == message.SerializeAsString(),
          "message rewritten");
  }
  // Reconstruct the past before, during, or after continuing.
  int const continued =
      std::min(end, checkpoints[restored] + Of({0, 1, 3, 8, 18}));
  s.Append(*read, checkpoints[restored], continued);
  CheckBounds(s, *read, first, continued);
  if (!read->empty()) {
    SameBetween(s, *read, *whole, read->t_min(), read->t_max(), "continued");
  }
  int oldest = first;
  int const reanimated = restored == 0 ? 0 : Choose(2);
  if (reanimated == 1) {
    for (int c = restored - 1; c >= 0; --c) {
      auto const prefix = s.New();
      Check(read->ReadFromCheckpointAt(s.At(checkpoints[c] - 1),
                                       prefix->MakeCheckpointerReader())
                .ok(),
            "read checkpoint");
      s.Append(*prefix, checkpoints[c], checkpoints[c + 1]);
      int const prefix_first =
          c == 0 ? 0 : (checkpoints[c] - 1) / 8 * 8;
      if (!prefix->empty()) { oldest = prefix_first; }
      read->Prepend(std::move(*prefix));
      CheckBounds(s, *read, oldest, continued);
      if (!read->empty()) {
        SameBetween(s, *read, *whole, read->t_min(), read->t_max(),
                    "reanimated");
      }
    }
    CheckEq(oldest, 0, "fully reanimated");
  }
  // Finish.
  s.Append(*read, continued, end);
  CheckBounds(s, *read, oldest, end);
  SameBetween(s, *read, *whole, read->t_min(), read->t_max(), "finished");
  // And take a checkpoint to compare the internal state.
  read->WriteToCheckpoint(s.At(end));
  tr->WriteToCheckpoint(s.At(end));
  Message read_message;
  read->WriteToMessage(&read_message);
  Message expected_message;
  tr->WriteToMessage(&expected_message);
  if (oldest != 0) {
    read_message.clear_first_time();
    expected_message.clear_first_time();
  }
  Check(read_message.SerializeAsString() ==
            expected_message.SerializeAsString(),
        "message at the end");
  seq::State(read_message.SerializeAsString());
}

// Points that are not equally spaced, trajectories that don't match, times
// outside of the bounds.
SEQ_HARNESS(misuse) {
  Setup const s = AnySetup(/*smooth=*/true);
  int const n = Of({1, 2, 8, 9, 17});
  auto const tr = s.New();
  s.Append(*tr, 0, n);
  double const bad = Of({-1.0, 0.0, 0.5, 2.0});
  Check(seq::Dies([&]() {
          auto const status = tr->Append(
              s.At(n - 1) + bad * (s.step * Second), s.dof(n));
        }),
        "append at a distance of ", bad);
  if (n == 1) {
    Check(seq::Dies([&]() { tr->EvaluatePosition(s.At(0)); }),
          "evaluation of an empty trajectory");
  }
  if (n == 17) {
    for (double const x : {-0.25, 16.25}) {
      Instant const t = s.At(0) + x * (s.step * Second);
      Check(seq::Dies([&]() { tr->EvaluatePosition(t); }), "position at ", x);
      Check(seq::Dies([&]() { tr->EvaluateVelocity(t); }), "velocity at ", x);
      Check(seq::Dies([&]() { tr->EvaluateDegreesOfFreedom(t); }),
            "degrees of freedom at ", x);
    }
  }
}

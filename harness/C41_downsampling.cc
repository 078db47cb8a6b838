// C41: downsampling and serialization of discrete trajectories.
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "geometry/frame.hpp"
#include "geometry/instant.hpp"
#include "geometry/space.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/discrete_trajectory.hpp"
#include "quantities/si.hpp"
#include "seq/seq.h"

using namespace principia::geometry::_frame;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_space;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_discrete_trajectory;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
namespace serialization = principia::serialization;
using seq::Check;
using seq::CheckEq;
using seq::Choose;

namespace {
using World = Frame<serialization::Frame::TestTag, Inertial,
                    Handedness::Right, serialization::Frame::TEST>;
using Dof = DegreesOfFreedom<World>;
using Trajectory = DiscreteTrajectory<World>;
using Sit = Trajectory::SegmentIterator;
using Message = serialization::DiscreteTrajectory;

Instant At(double const t) { return Instant() + t * Second; }

struct Point {
  double t;
  Dof dof;
  bool operator==(Point const&) const = default;
};
double Seconds(Instant const& t) { return (t - Instant()) / Second; }

std::vector<Sit> Sits(Trajectory const& tr) {
  std::vector<Sit> result;
  for (auto sit = tr.segments().begin(); sit != tr.segments().end(); ++sit) {
    result.push_back(sit);
  }
  return result;
}

}  // namespace

// A trajectory which is read from a message, or split and merged, and then
// goes on, is the same as one which just goes on; and whatever happens, the
// downsampled trajectory remains within the tolerance of all the points that
// were appended.
SEQ_HARNESS(downsampling, .split = 4) {
  int const shape = Choose(4);
  Length const tolerance = seq::Pick(std::vector<double>{0.0625, 0.5, 4}) *
                           Metre;
  int const appends = seq::Thorough() ? 18 : 14;
  auto const point = [shape](double const t) -> Dof {
    switch (shape) {
      case 0: {  // Circle.
        double const ω = 0.25;
        return {World::origin + Displacement<World>({4 * std::cos(ω * t) * Metre,
                                                     4 * std::sin(ω * t) * Metre,
                                                     0 * Metre}),
                Velocity<World>({-4 * ω * std::sin(ω * t) * Metre / Second,
                                 4 * ω * std::cos(ω * t) * Metre / Second,
                                 0 * Metre / Second})};
      }
      case 1: {  // Quartic, with errors that grow.
        return {World::origin +
                    Displacement<World>({0 * Metre, t * Metre,
                                         t * t * t * t / 256 * Metre}),
                Velocity<World>({0 * Metre / Second, 1 * Metre / Second,
                                 t * t * t / 64 * Metre / Second})};
      }
      case 2: {  // A small oscillation, the velocity of which is ignored.
        double const x = (static_cast<int>(t) % 2) / 16.0;
        return {World::origin +
                    Displacement<World>({x * Metre, 0 * Metre, t * Metre}),
                Velocity<World>({0 * Metre / Second, 0 * Metre / Second,
                                 1 * Metre / Second})};
      }
      default: {  // Sharp turns.
        double const x = std::abs(std::fmod(t, 6) - 3);
        return {World::origin +
                    Displacement<World>({x * Metre, 0 * Metre, 0 * Metre}),
                Velocity<World>({(std::fmod(t, 6) > 3 ? 1 : -1) * Metre / Second,
                                 0 * Metre / Second, 0 * Metre / Second})};
      }
    }
  };
  // The oracle: a trajectory which undergoes no operation besides NewSegment
  // and Append.
  Trajectory reference;
  Trajectory tr;
  bool compare = true;
  std::optional<Instant> junction;
  double first_time = 0;
  std::vector<Point> all;
  auto const set_downsampling = [tolerance](Trajectory& t) {
    std::vector<Sit> const sits = Sits(t);
    sits.back()->SetDownsampling({.tolerance = tolerance});
  };
  set_downsampling(reference);
  set_downsampling(tr);

  // Operations happen at 2 of the dates.
  int const op1 = Choose(6);
  int const at1 = 1 + Choose(appends - 1);
  int const op2 = Choose(6);
  int const at2 = at1 + Choose(appends - at1);
  if (op2 == 0 && at2 != at1) { seq::Prune(); }
  for (int i = 0; i < appends; ++i) {
    for (int op : {i == at1 ? op1 : 0, i == at2 ? op2 : 0}) {
      switch (op) {
        case 0:
          break;
        case 1: {  // Serialization, all points exact.
          std::vector<Trajectory::iterator> exact;
          for (auto it = tr.begin(); it != tr.end(); ++it) {
            exact.push_back(it);
          }
          Message message;
          tr.WriteToMessage(&message, {}, exact);
          tr = Trajectory::ReadFromMessage(message, {});
          seq::Notes("serialize at ", i);
          break;
        }
        case 2: {  // Split after the point j, and merge.
          int const n = tr.size();
          if (n < 3) { seq::Prune(); }
          // At least two points go into the second half, so that it has an
          // interpolation and therefore a state.
          int const j = 1 + Choose(n - 2);
          auto it = tr.begin();
          for (int k = 0; k < j; ++k) { ++it; }
          std::vector<Trajectory::iterator> exact1;
          std::vector<Trajectory::iterator> exact2;
          for (auto i1 = tr.begin(); i1 != it; ++i1) { exact1.push_back(i1); }
          for (auto i2 = it; i2 != tr.end(); ++i2) { exact2.push_back(i2); }
          Message message1;
          Message message2;
          junction = it->time;
          tr.WriteToMessage(&message1, tr.begin(), it, {}, exact1);
          tr.WriteToMessage(&message2, it, tr.end(), {}, exact2);
          auto t1 = Trajectory::ReadFromMessage(message1, {});
          auto t2 = Trajectory::ReadFromMessage(message2, {});
          if (Choose(2)) {
            seq::Notes("merge second into first at ", i, " after ", j);
            t1.Merge(std::move(t2));
            tr = std::move(t1);
          } else {
            seq::Notes("merge first into second at ", i, " after ", j);
            t2.Merge(std::move(t1));
            tr = std::move(t2);
          }
          break;
        }
        case 3: {  // New segment.
          if (tr.empty()) { seq::Prune(); }
          tr.NewSegment();
          reference.NewSegment();
          set_downsampling(tr);
          set_downsampling(reference);
          seq::Notes("new segment at ", i);
          break;
        }
        case 4: {  // Forget after the point j.
          int const n = tr.size();
          if (n < 2) { seq::Prune(); }
          int const j = 1 + Choose(n - 1);
          auto it = tr.begin();
          for (int k = 0; k < j; ++k) { ++it; }
          seq::Notes("forget after at ", i, " point ", j);
          double const t = Seconds(it->time);
          // With a single point left, the downsampler doesn't know the same
          // points as that of the reference.
          if (j == 1 && first_time > 0) { compare = false; }
          // The error of the interpolation that ends at the junction of a merge
          // is not known; truncating there is not supported.
          if (junction.has_value() && tr.find(*junction) == std::prev(it)) {
            seq::Prune();
          }
          tr.ForgetAfter(it);
          reference.ForgetAfter(At(t));
          std::erase_if(all, [&](Point const& p) {
            return At(p.t) > tr.back().time;
          });
          break;
        }
        case 5: {  // Forget before the point j: the rest doesn't change.
          int const n = tr.size();
          if (n < 2) { seq::Prune(); }
          int const j = Choose(n);
          auto it = tr.begin();
          for (int k = 0; k < j; ++k) { ++it; }
          first_time = Seconds(it->time);
          seq::Notes("forget before at ", i, " time ", first_time);
          // After this, fewer points may be known to the downsampler.
          if (j == n - 1) { compare = false; }
          tr.ForgetBefore(it);
          std::erase_if(all, [&](Point const& p) { return p.t < first_time; });
          break;
        }
      }
    }
    Check(tr.Append(At(i), point(i)).ok());
    Check(reference.Append(At(i), point(i)).ok());
    all.push_back({static_cast<double>(i), point(i)});
    seq::Step();

    if (compare) {
      auto r = reference.lower_bound(At(first_time));
      for (auto it = tr.begin(); it != tr.end(); ++it, ++r) {
        Check(r != reference.end(), "more points than the reference after ", i);
        Check(it->time == r->time &&
                  it->degrees_of_freedom == r->degrees_of_freedom,
              "the points at ", Seconds(it->time), " and ", Seconds(r->time),
              " differ after ", i);
      }
      Check(r == reference.end(), "fewer points than the reference after ", i);
    }
    // The downsampling is within tolerance, and keeps the extremities.
    CheckEq(Seconds(tr.back().time), i, "last point");
    CheckEq(Seconds(tr.front().time), all.front().t, "first point");
    std::size_t h = 0;
    std::ostringstream times;
    for (auto const& [time, dof] : tr) { times << Seconds(time) << " "; }
    for (auto const& p : all) {
      Length const error =
          (tr.EvaluatePosition(At(p.t)) - p.dof.position()).Norm();
      Check(error < tolerance * (1 + 1e-12), "the position at ", p.t,
            " is off by ", error / Metre, " m for a tolerance of ",
            tolerance / Metre, " m: ", times.str());
      h = h * 31 + std::hash<double>()(error / Metre);
    }
    seq::State(std::hash<std::string>()(times.str()) * 31 + h);
    // The points are among those that were appended.
    for (auto const& [time, dof] : tr) {
      Check(dof == point(Seconds(time)), "point at ", Seconds(time));
    }
  }
}

// The compression is within the tolerance, and exact where it must be.
SEQ_HARNESS(compression, .split = 3) {
  Length const tolerance = seq::Pick(std::vector<double>{0.125, 0.7, 3}) *
                           Metre;
  int const n = 1 + Choose(7);
  int const junction = Choose(n + 1);  // n if none.
  int const exact_mask = Choose(1 << n);
  Trajectory tr;
  auto const set = [&]() {
    Sits(tr).back()->SetDownsampling({.tolerance = tolerance});
  };
  if (Choose(2)) { set(); } else { seq::Notes("no downsampling"); }
  for (int i = 0; i < n; ++i) {
    // Far from one another, so that nothing is downsampled.
    double const x = i % 2 == 0 ? 1000.3 : -1000.7;
    Dof const dof(World::origin + Displacement<World>({x * Metre,
                                                       (i + 0.3) * Metre,
                                                       -i / 3.0 * Metre}),
                  Velocity<World>({(i + 1) / 7.0 * Metre / Second,
                                   -x / 3 * Metre / Second,
                                   0.1 * Metre / Second}));
    Check(tr.Append(At(0.3 * i + 0.1), dof).ok());
    if (i == junction) { tr.NewSegment(); set(); }
  }
  CheckEq(tr.size(), n);
  std::vector<Trajectory::iterator> exact;
  std::vector<bool> is_exact;
  int i = 0;
  for (auto it = tr.begin(); it != tr.end(); ++it, ++i) {
    bool const e = exact_mask & (1 << i);
    if (e) { exact.push_back(it); }
    is_exact.push_back(e || i == 0 || i == n - 1 || i == junction);
  }
  Message message;
  tr.WriteToMessage(&message, {}, exact);
  auto const read = Trajectory::ReadFromMessage(message, {});
  CheckEq(read.size(), n, "size");
  CheckEq(read.segments().size(), tr.segments().size(), "segments");
  auto it = read.begin();
  i = 0;
  for (auto const& [time, dof] : tr) {
    CheckEq(it->time, time, "time ", i);
    if (is_exact[i]) {
      Check(it->degrees_of_freedom == dof, "exact point ", i);
    }
    auto const Δq = (it->degrees_of_freedom.position() - dof.position())
                        .coordinates();
    auto const Δv = (it->degrees_of_freedom.velocity() - dof.velocity())
                        .coordinates();
    for (auto const x : {Δq.x, Δq.y, Δq.z}) {
      Check(x <= tolerance && -x <= tolerance, "position at point ", i);
    }
    for (auto const v : {Δv.x, Δv.y, Δv.z}) {
      Check(v <= tolerance / (0.299 * Second) && -v <= tolerance / (0.299 * Second), "velocity at point ", i);
    }
    ++it;
    ++i;
    seq::Step();
  }
  // The downsampling parameters are preserved.
  Message again;
  read.WriteToMessage(&again, {}, {});
  for (int s = 0; s < again.segment_size(); ++s) {
    CheckEq(again.segment(s).has_downsampling_parameters(),
            message.segment(s).has_downsampling_parameters());
    CheckEq(again.segment(s).downsampling_parameters().tolerance().magnitude(),
            message.segment(s).downsampling_parameters().tolerance()
                .magnitude());
  }
  seq::State(message.SerializeAsString());
}

// C40: discrete trajectories.
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "geometry/frame.hpp"
#include "geometry/instant.hpp"
#include "geometry/space.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/discrete_trajectory.hpp"
#include "quantities/si.hpp"
#include "seq/seq.h"

using namespace principia::geometry::_frame;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_space;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_discrete_trajectory;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
namespace serialization = principia::serialization;
using seq::Check;
using seq::CheckEq;
using seq::Choose;

namespace {
using World = Frame<serialization::Frame::TestTag, Inertial,
                    Handedness::Right, serialization::Frame::TEST>;
using Dof = DegreesOfFreedom<World>;
using Trajectory = DiscreteTrajectory<World>;
using Sit = Trajectory::SegmentIterator;
using Message = serialization::DiscreteTrajectory;

Instant At(double const t) { return Instant() + t * Second; }

Dof DofAt(double const t, int const variant = 0) {
  double const v = variant;
  return {World::origin +
              Displacement<World>({(t * t - 3 * t + v) * Metre,
                                   (t * t * t / 8 - v) * Metre,
                                   (2 - t) * Metre}),
          Velocity<World>({(2 * t - 3 + v) * Metre / Second,
                           (3 * t * t / 8) * Metre / Second,
                           (-1 + 0.125 * t) * Metre / Second})};
}

struct Point {
  double t;
  Dof dof;
  bool operator==(Point const&) const = default;
};
using Segment = std::vector<Point>;

// The model: the segments, each with its own copy of the junction points.
struct Model {
  std::vector<Segment> segments{Segment()};

  bool empty() const {
    for (auto const& s : segments) { if (!s.empty()) { return false; } }
    return true;
  }
  std::vector<Point> points() const {
    std::vector<Point> result;
    for (auto const& s : segments) {
      for (auto const& p : s) {
        if (result.empty() || result.back().t != p.t) { result.push_back(p); }
      }
    }
    return result;
  }
  Point const& back() const { return segments.back().back(); }
  std::string str() const {
    std::ostringstream o;
    for (auto const& s : segments) {
      o << "[";
      for (auto const& p : s) {
        o << p.t << ":" << (p.dof == DofAt(p.t) ? 0 : 1) << " ";
      }
      o << "]";
    }
    return o.str();
  }
};

std::ostream& operator<<(std::ostream& o, Model const& m) {
  return o << m.str();
}

double Seconds(Instant const& t) { return (t - Instant()) / Second; }

// The cubic which has the given values and derivatives.
Dof Hermite(Point const& p0, Point const& p1, double const t) {
  double const h = p1.t - p0.t;
  double const s = (t - p0.t) / h;
  auto const q0 = p0.dof.position() - World::origin;
  auto const q1 = p1.dof.position() - World::origin;
  auto const v0 = p0.dof.velocity() * (h * Second);
  auto const v1 = p1.dof.velocity() * (h * Second);
  auto const q = q0 * (2 * s * s * s - 3 * s * s + 1) +
                 v0 * (s * s * s - 2 * s * s + s) +
                 q1 * (-2 * s * s * s + 3 * s * s) + v1 * (s * s * s - s * s);
  auto const v = (q0 * (6 * s * s - 6 * s) + v0 * (3 * s * s - 4 * s + 1) +
                  q1 * (-6 * s * s + 6 * s) + v1 * (3 * s * s - 2 * s)) /
                 (h * Second);
  return {World::origin + q, v};
}

bool Near(Dof const& a, Dof const& b) {
  return (a.position() - b.position()).Norm() < 1e-10 * Metre &&
         (a.velocity() - b.velocity()).Norm() < 1e-10 * Metre / Second;
}

void CompareIterator(Trajectory const& tr, Trajectory::iterator const it,
                     std::vector<Point> const& points, int const index,
                     char const* what, double const t) {
  if (index == points.size()) {
    Check(it == tr.end(), what, " at ", t, " should be the end");
  } else {
    Check(it != tr.end(), what, " at ", t, " should not be the end");
    Check(it->time == At(points[index].t) &&
              it->degrees_of_freedom == points[index].dof,
          what, " at ", t, " gives the point at ", Seconds(it->time));
    // The iterator is also usable to move along the trajectory.
    auto next = it;
    ++next;
    if (index + 1 == points.size()) {
      Check(next == tr.end(), what, " at ", t, ": successor should be end");
    } else {
      Check(next != tr.end() && next->time == At(points[index + 1].t),
            what, " at ", t, ": wrong successor");
      --next;
      Check(next->time == it->time, what, " at ", t, ": ++ and --");
    }
    if (index > 0) {
      auto previous = it;
      --previous;
      Check(previous->time == At(points[index - 1].t), what, " at ", t,
            ": wrong predecessor");
      ++previous;
      Check(previous->time == it->time, what, " at ", t, ": -- and ++");
    }
  }
}

void Compare(Trajectory const& tr, Model const& m) {
  std::size_t h = 0;
  for (auto const& s : m.segments) {
    h = h * 31 + 7;
    for (auto const& p : s) { h = h * 31 + std::hash<double>()(p.t); }
  }
  seq::State(h);
  auto const points = m.points();
  CheckEq(tr.empty(), points.empty(), "empty");
  CheckEq(tr.size(), points.size(), "size");
  CheckEq(tr.segments().size(), m.segments.size(), "number of segments");
  {
    auto sit = tr.segments().begin();
    for (int i = 0; i < m.segments.size(); ++i, ++sit) {
      auto const& s = m.segments[i];
      CheckEq(sit->size(), s.size(), "size of segment ", i, " of ", m);
      CheckEq(sit->empty(), s.empty(), "emptiness of segment ", i);
      int j = 0;
      for (auto it = sit->begin(); it != sit->end(); ++it, ++j) {
        Check(j < s.size(), "too many points in segment ", i);
        Check(it->time == At(s[j].t) && it->degrees_of_freedom == s[j].dof,
              "point ", j, " of segment ", i, " of ", m);
      }
      CheckEq(j, s.size(), "iteration over segment ", i);
      if (!s.empty()) {
        CheckEq(Seconds(sit->front().time), s.front().t, "front of segment");
        CheckEq(Seconds(sit->back().time), s.back().t, "back of segment");
        CheckEq(Seconds(sit->t_min()), s.front().t, "t_min of segment");
        CheckEq(Seconds(sit->t_max()), s.back().t, "t_max of segment");
        j = s.size();
        for (auto it = sit->rbegin(); j > 0; ++it) {
          --j;
          Check(it->time == At(s[j].t), "reverse iteration over segment ", i);
        }
      } else {
        CheckEq(sit->t_min(), InfiniteFuture);
        CheckEq(sit->t_max(), InfinitePast);
      }
    }
    Check(sit == tr.segments().end(), "end of the segments");
    int i = m.segments.size();
    for (auto const& s : tr.rsegments()) {
      --i;
      CheckEq(s.size(), m.segments[i].size(), "reverse segments");
    }
    CheckEq(i, 0, "reverse segments");
  }
  {
    int j = 0;
    for (auto const& [time, dof] : tr) {
      Check(j < points.size(), "iterates over too many points");
      Check(time == At(points[j].t) && dof == points[j].dof, "point ", j,
            " of the iteration is at ", Seconds(time), " for ", m);
      ++j;
    }
    CheckEq(j, points.size(), "iteration");
    for (auto it = tr.rbegin(); it != tr.rend(); ++it) {
      --j;
      Check(j >= 0 && it->time == At(points[j].t) &&
                it->degrees_of_freedom == points[j].dof,
            "reverse iteration at ", j);
    }
    CheckEq(j, 0, "reverse iteration");
    // Random access.
    std::vector<Trajectory::iterator> its;
    for (auto it = tr.begin(); it != tr.end(); ++it) its.push_back(it);
    its.push_back(tr.end());
    int const n = its.size();
    for (int a = 0; a < n; ++a) {
      for (int b = 0; b < n; ++b) {
        if (n > 12 && (a * 7 + b) % 5 != 0) continue;
        if (a <= b) {
          CheckEq(its[b] - its[a], b - a, "difference of the iterators ", b,
                  " and ", a);
        }
        auto const moved = its[a] + (b - a);
        Check(moved == its[b] && (b == n - 1 || moved->time == its[b]->time),
              "iterator ", a, " plus ", b - a);
        auto back = its[b];
        back -= b - a;
        Check(back == its[a] && (a == n - 1 || back->time == its[a]->time),
              "iterator ", b, " minus ", b - a);
        if (b < n - 1) {
          Check(its[a][b - a].time == its[b]->time, "iterator ", a, "[", b - a,
                "]");
          // Also usable to move along the trajectory.
          auto next = moved;
          Check(++next == its[b + 1], "increment of a sum");
        }
      }
    }
  }
  if (points.empty()) {
    CheckEq(tr.t_min(), InfiniteFuture);
    CheckEq(tr.t_max(), InfinitePast);
    Check(tr.begin() == tr.end(), "begin and end of an empty trajectory");
    for (double const t : {-1.0, 1.0}) {
      Check(tr.find(At(t)) == tr.end(), "find in empty");
      Check(tr.lower_bound(At(t)) == tr.end(), "lower_bound in empty");
      Check(tr.upper_bound(At(t)) == tr.end(), "upper_bound in empty");
    }
    return;
  }
  CheckEq(tr.t_min(), At(points.front().t), "t_min");
  CheckEq(tr.t_max(), At(points.back().t), "t_max");
  CheckEq(tr.front().time, tr.t_min(), "front");
  CheckEq(tr.back().time, tr.t_max(), "back");
  Check(tr.back().degrees_of_freedom == points.back().dof, "back");
  for (double t = points.front().t - 0.5; t < points.back().t + 1; t += 0.5) {
    int find = points.size();
    int lower = 0;
    int upper = 0;
    for (int j = 0; j < points.size(); ++j) {
      if (points[j].t == t) { find = j; }
      if (points[j].t < t) { ++lower; }
      if (points[j].t <= t) { ++upper; }
    }
    CompareIterator(tr, tr.find(At(t)), points, find, "find", t);
    CompareIterator(tr, tr.lower_bound(At(t)), points, lower, "lower_bound", t);
    CompareIterator(tr, tr.upper_bound(At(t)), points, upper, "upper_bound", t);
  }
  for (double t = points.front().t; t <= points.back().t; t += 0.25) {
    int i = 0;
    while (i + 1 < points.size() && points[i + 1].t <= t) { ++i; }
    Dof const expected = points[i].t == t
                             ? points[i].dof
                             : Hermite(points[i], points[i + 1], t);
    Dof const actual = tr.EvaluateDegreesOfFreedom(At(t));
    Check(points[i].t == t ? actual == expected : Near(actual, expected),
          "evaluation at ", t, " of ", m, ": ", actual, " vs. ", expected);
    Check(tr.EvaluatePosition(At(t)) == actual.position(), "position at ", t);
    Check(tr.EvaluateVelocity(At(t)) == actual.velocity(), "velocity at ", t);
  }
}

std::vector<Sit> Sits(Trajectory const& tr) {
  std::vector<Sit> result;
  for (auto sit = tr.segments().begin(); sit != tr.segments().end(); ++sit) {
    result.push_back(sit);
  }
  return result;
}

Trajectory RoundTrip(Trajectory const& tr, Model const& m) {
  std::vector<Sit> tracked = Sits(tr);
  tracked.push_back(tr.segments().end());
  tracked.push_back(tracked.front());
  Message message;
  tr.WriteToMessage(&message, tracked, /*exact=*/{});
  Message parsed;
  Check(parsed.ParseFromString(message.SerializeAsString()));
  std::vector<Sit> read(tracked.size());
  std::vector<Sit*> pointers;
  for (auto& r : read) { pointers.push_back(&r); }
  auto result = Trajectory::ReadFromMessage(parsed, pointers);
  auto const sits = Sits(result);
  CheckEq(sits.size(), m.segments.size(), "segments after reading");
  // Leading empty segments are indistinguishable once read, but are all there.
  for (int i = 0; i < sits.size(); ++i) {
    Check(read[i] == sits[i], "tracked segment ", i, " of ", m);
  }
  Check(read[sits.size()] == result.segments().end(), "tracked end");
  Check(read[sits.size() + 1] == sits.front(), "tracked twice");
  // Serialization is deterministic.
  Message again;
  read.back() = sits.front();
  result.WriteToMessage(&again, read, /*exact=*/{});
  Check(again.SerializeAsString() == message.SerializeAsString(),
        "writing, reading, and writing again ", m);
  return result;
}

// A trajectory restricted to [from, to[, as read from a message.
Trajectory Range(Trajectory const& tr, Trajectory::iterator const from,
                 Trajectory::iterator const to) {
  Message message;
  tr.WriteToMessage(&message, from, to, /*tracked=*/{}, /*exact=*/{});
  return Trajectory::ReadFromMessage(message, {});
}

// The segments of `m` restricted to [from, to[; the empty ones are kept at the
// beginning and removed at the end.
Model Restrict(Model const& m, double const from, double const to) {
  Model result;
  result.segments.clear();
  bool seen = false;
  for (auto const& s : m.segments) {
    Segment r;
    for (auto const& p : s) {
      if (p.t >= from && p.t < to) { r.push_back(p); }
    }
    if (r.empty() && seen) { break; }
    seen |= !r.empty();
    result.segments.push_back(r);
  }
  return result;
}
}  // namespace

// All the sequences of operations.
SEQ_HARNESS(operations, .split = 4) {
  auto tr = std::make_unique<Trajectory>();
  std::optional<Trajectory> held;
  Model m;
  Model held_model;
  double clock = 0;
  // The comparison happens at the end, so all the lengths are explored.
  int const depth = 1 + Choose(seq::Thorough() ? 5 : 4);
  // Start with something interesting, so that all the depth is useful.
  int const start = Choose(4);
  auto append = [&](double const step) {
    clock = m.empty() ? clock : m.back().t;
    clock += step;
    Check(tr->Append(At(clock), DofAt(clock)).ok(), "append");
    m.segments.back().push_back({clock, DofAt(clock)});
  };
  auto new_segment = [&]() {
    Sit const sit = tr->NewSegment();
    Segment s;
    if (!m.segments.back().empty()) { s.push_back(m.segments.back().back()); }
    m.segments.push_back(s);
    Check(sit == Sits(*tr).back(), "NewSegment");
  };
  if (start >= 1) { append(1); append(1); }
  if (start >= 2) { new_segment(); append(1); append(1); }
  if (start >= 3) { new_segment(); new_segment(); append(1); }
  Compare(*tr, m);

  for (int d = 0; d < depth; ++d) {
    auto const before = Sits(*tr);
    bool preserves_iterators = true;
    int const n = m.segments.size();
    switch (Choose(11)) {
      case 0: {  // Append.
        append(1);
        break;
      }
      case 1: {  // NewSegment.
        if (n >= 5) { seq::Prune(); }
        new_segment();
        break;
      }
      case 2: {  // DetachSegments.
        if (n == 1) { seq::Prune(); }
        int const k = 1 + Choose(n - 1);
        seq::Notes("detach ", k);
        held = tr->DetachSegments(before[k]);
        held_model.segments = {m.segments.begin() + k, m.segments.end()};
        m.segments.resize(k);
        if (d == depth - 1) { Compare(*held, held_model); }
        preserves_iterators = false;
        break;
      }
      case 3: {  // AttachSegments, at the same time or after a gap.
        if (!held.has_value() || held_model.empty() ||
            held_model.segments[0].empty()) {
          seq::Prune();
        }
        Point const& first = held_model.segments[0][0];
        if (m.empty()) {
          m.segments.clear();
        } else if (m.segments.back().empty() || m.back().t > first.t) {
          seq::Prune();
        } else if (m.back().t == first.t) {
          if (m.back().dof != first.dof) { seq::Prune(); }
        } else {
          held_model.segments[0].insert(held_model.segments[0].begin(),
                                        m.back());
        }
        seq::Notes("attach");
        Sit const sit = tr->AttachSegments(std::move(*held));
        held.reset();
        int const at = m.segments.size();
        m.segments.insert(m.segments.end(), held_model.segments.begin(),
                          held_model.segments.end());
        Check(sit == Sits(*tr)[at], "AttachSegments");
        preserves_iterators = false;
        break;
      }
      case 4: {  // DeleteSegments.
        if (n == 1) { seq::Prune(); }
        int const k = 1 + Choose(n - 1);
        seq::Notes("delete ", k);
        Sit sit = before[k];
        tr->DeleteSegments(sit);
        m.segments.resize(k);
        Check(sit == tr->segments().end(), "DeleteSegments iterator");
        preserves_iterators = false;
        break;
      }
      case 5: {  // ForgetAfter.
        auto const points = m.points();
        if (points.empty()) { seq::Prune(); }
        int const i = Choose(2 * points.size() + 1);
        double const t = i % 2 == 0
                             ? (i == 2 * points.size() ? points.back().t + 1
                                                       : points[i / 2].t)
                             : points[i / 2].t + 0.5;
        seq::Notes("forget after ", t);
        if (i % 2 == 0 && Choose(2)) {
          tr->ForgetAfter(tr->find(At(t)));
        } else {
          tr->ForgetAfter(At(t));
        }
        if (t <= points.front().t) {
          // Nothing remains; the structure must be usable anyway.
          Check(tr->empty(), "ForgetAfter the beginning");
          m.segments.resize(tr->segments().size());
          for (auto& s : m.segments) { s.clear(); }
        } else {
          std::vector<Segment> segments;
          for (auto const& s : m.segments) {
            if (!s.empty() && s.front().t >= t) { break; }
            segments.push_back(s);
          }
          // The junction at `t`, if any, remains.
          bool const junction = segments.size() < n &&
                                m.segments[segments.size()].front().t == t;
          auto& s = segments.back();
          while (!s.empty() && (junction ? s.back().t > t : s.back().t >= t)) {
            s.pop_back();
          }
          m.segments = segments;
        }
        preserves_iterators = false;
        break;
      }
      case 6: {  // ForgetBefore.
        auto const points = m.points();
        if (points.empty()) { seq::Prune(); }
        int const i = Choose(2 * points.size() + 1) - 1;
        double const t = i < 0 ? points.front().t - 1
                               : points[i / 2].t + (i % 2) * 0.5;
        seq::Notes("forget before ", t);
        if (i >= 0 && i % 2 == 0 && Choose(2)) {
          tr->ForgetBefore(tr->find(At(t)));
        } else {
          tr->ForgetBefore(At(t));
        }
        for (auto& s : m.segments) {
          std::erase_if(s, [t](Point const& p) { return p.t < t; });
        }
        break;
      }
      case 7: {  // Serialization.
        seq::Notes("serialize");
        *tr = RoundTrip(*tr, m);
        preserves_iterators = false;
        break;
      }
      case 8: {  // Serialize two halves, and merge them in either order.
        auto const points = m.points();
        if (points.size() < 2) { seq::Prune(); }
        int const i = 1 + Choose(points.size() - 1);
        auto const it = tr->find(At(points[i].t));
        Trajectory first = Range(*tr, tr->begin(), it);
        Trajectory second = Range(*tr, it, tr->end());
        double const end = std::numeric_limits<double>::infinity();
        if (d == depth - 1) {
          Compare(first, Restrict(m, -end, points[i].t));
          Compare(second, Restrict(m, points[i].t, end));
        }
        if (Choose(2)) {
          seq::Notes("merge second half into first ", points[i].t);
          first.Merge(std::move(second));
          *tr = std::move(first);
        } else {
          seq::Notes("merge first half into second ", points[i].t);
          second.Merge(std::move(first));
          *tr = std::move(second);
        }
        preserves_iterators = false;
        break;
      }
      case 9: {  // Move.
        seq::Notes("move");
        tr = std::make_unique<Trajectory>(std::move(*tr));
        break;
      }
      case 10: {  // Clear.
        if (n == 1) { seq::Prune(); }
        seq::Notes("clear");
        tr->clear();
        m = Model();
        Check(before.front() == tr->segments().begin(),
              "clear invalidated the first segment");
        preserves_iterators = false;
        break;
      }
    }
    seq::Step();
    if (preserves_iterators) {
      auto const after = Sits(*tr);
      for (int i = 0; i < before.size(); ++i) {
        Check(before[i] == after[i], "invalidated the iterator to segment ", i);
      }
    }
  }
  Compare(*tr, m);
  // Always usable.
  append(1);
  Compare(*tr, m);
}

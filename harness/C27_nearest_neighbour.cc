// C27: search for the nearest neighbour.
#include "geometry/barycentre_calculator.hpp"
#include "geometry/grassmann.hpp"
#include "harness/principia.h"
#include "numerics/nearest_neighbour.hpp"
#include "serialization/geometry.pb.h"

using namespace principia::geometry::_grassmann;
using namespace principia::numerics::_nearest_neighbour;
using seq::Notes;

namespace {
using World = Frame<serialization::Frame::TestTag, Inertial,
                    Handedness::Right, serialization::Frame::TEST>;
using V = Vector<double, World>;
using Tree = PrincipalComponentPartitioningTree<V>;

V Grid(int const kind, int const i) {
  static constexpr double line[] = {0, 1, 3, 7, -2, 100};
  switch (kind) {
    case 0:  // Planar.
      return V({i % 3 * 1.0, i / 3 * 1.0, 0});
    case 1:  // On a line.
      return V({line[i % 6], 2 * line[i % 6], -line[i % 6]});
    default:  // Spatial.
      return V({i % 2 * 1.0, i / 2 % 2 * 1.5, i / 4 * 4.0});
  }
}
constexpr int sizes[] = {9, 6, 8};

void Test(int const max_points) {
  int const kind = Choose(3);
  int const size = sizes[kind];
  int const n = Choose(max_points + 1);
  std::vector<V> points;
  // Up to symmetry, the order matters because of the additions.
  for (int i = 0; i < n; ++i) points.push_back(Grid(kind, Choose(size)));
  int const initial = Choose(n + 1);
  int const per_cell = Choose(3) + 1;
  std::vector<not_null<V const*>> pointers;
  for (int i = 0; i < initial; ++i) pointers.push_back(&points[i]);
  Tree tree(pointers, per_cell);
  if (n == 0) {
    Check(tree.FindNearestNeighbour(V()) == nullptr, "empty tree");
    return;
  }
  for (int i = initial; i < n; ++i) tree.Add(&points[i]);
  std::vector<V> queries;
  for (int i = 0; i < size; ++i) {
    queries.push_back(Grid(kind, i));
    queries.push_back(Grid(kind, i) + V({0.375, -0.25, 0.125}));
  }
  queries.push_back(V({-1000, 17, 300}));
  for (auto const& q : queries) {
    for (int mask = (1 << n) - 1; mask >= 0; --mask) {
      // All filters for the first queries, then all or a single point.
      if (mask != (1 << n) - 1 && &q - &queries[0] > 5) break;
      V const* actual;
      if (mask == (1 << n) - 1) {
        actual = tree.FindNearestNeighbour(q);
      } else {
        actual = tree.FindNearestNeighbour(q, [&](V const* const v) {
          return ((mask >> (v - &points[0])) & 1) != 0;
        });
      }
      double best = 1e300;
      for (int i = 0; i < n; ++i) {
        if ((mask >> i) & 1) best = std::min(best, (points[i] - q).Norm());
      }
      if (mask == 0) {
        Check(actual == nullptr, "everything is filtered");
        continue;
      }
      Check(actual != nullptr, "nothing found");
      Check(&points[0] <= actual && actual < &points[0] + n, "not ours");
      Check(((mask >> (actual - &points[0])) & 1) != 0, "filtered out");
      double const distance = (*actual - q).Norm();
      Check(distance <= best + 1e-12 * (1 + best), "found ", *actual,
            " at distance ", distance, " from ", q, " instead of ", best);
    }
  }
  seq::Step(queries.size());
}
}  // namespace

SEQ_HARNESS(small, .split = 5, .hang_s = 20) { Test(seq::Thorough() ? 5 : 4); }

// More points, with a structure: subsets of a 4×4×1 lattice, with many ties.
SEQ_HARNESS(lattice, .split = 6, .hang_s = 20) {
  static constexpr double xs[] = {0, 1, 2, 4};
  int const bits = seq::Thorough() ? 14 : 11;
  std::vector<V> points;
  for (int i = 0; i < bits; ++i) {
    if (Choose(2) == 1) points.push_back(V({xs[i % 4], xs[i / 4], 0}));
  }
  int const n = points.size();
  if (n < 2) seq::Prune();
  for (int const initial : {0, n / 2, n}) {
    for (int const per_cell : {1, 2, 4}) {
      std::vector<not_null<V const*>> pointers;
      for (int i = 0; i < initial; ++i) pointers.push_back(&points[i]);
      Tree tree(pointers, per_cell);
      for (int i = initial; i < n; ++i) tree.Add(&points[i]);
      for (double x = -0.5; x <= 4.5; x += 0.5) {
        for (double y = -0.5; y <= 4.5; y += 0.5) {
          V const q({x, y, 0.25});
          double best = 1e300;
          for (auto const& p : points) best = std::min(best, (p - q).Norm());
          V const* const actual = tree.FindNearestNeighbour(q);
          Check(actual != nullptr, "nothing found");
          Check((*actual - q).Norm() <= best + 1e-12, "found ", *actual,
                " near ", q, " at ", (*actual - q).Norm(), " instead of ",
                best);
        }
      }
    }
  }
  seq::Step();
}

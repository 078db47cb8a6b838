// C53: perspectives, and hiding by spheres.
#include <array>

#include "geometry/conformal_map.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/homothecy.hpp"
#include "geometry/orthogonal_map.hpp"
#include "geometry/perspective.hpp"
#include "geometry/rotation.hpp"
#include "geometry/rp2_point.hpp"
#include "geometry/space_transformations.hpp"
#include "geometry/sphere.hpp"
#include "harness/principia.h"
#include "serialization/geometry.pb.h"

using namespace principia::base::_array;
using namespace principia::geometry::_affine_map;
using namespace principia::geometry::_conformal_map;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_homothecy;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_perspective;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_rp2_point;
using namespace principia::geometry::_space_transformations;
using namespace principia::geometry::_sphere;
using seq::Notes;
using seq::Of;

namespace {
using World = Frame<serialization::Frame::TestTag, Inertial,
                    Handedness::Right, serialization::Frame::TEST1>;
using Camera = Frame<serialization::Frame::TestTag, Arbitrary,
                     Handedness::Right, serialization::Frame::TEST2>;
using LeftCamera = Frame<serialization::Frame::TestTag, Arbitrary,
                         Handedness::Left, serialization::Frame::TEST3>;
using Real = long double;
using V3 = std::array<Real, 3>;

V3 operator-(V3 const& a, V3 const& b) {
  return {a[0] - b[0], a[1] - b[1], a[2] - b[2]};
}
V3 operator+(V3 const& a, V3 const& b) {
  return {a[0] + b[0], a[1] + b[1], a[2] + b[2]};
}
V3 operator*(Real const s, V3 const& a) {
  return {s * a[0], s * a[1], s * a[2]};
}
Real Dot(V3 const& a, V3 const& b) {
  return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
Real Norm(V3 const& a) { return std::sqrt(Dot(a, a)); }
V3 Of3(Position<World> const& p) {
  auto const c = (p - World::origin).coordinates();
  return {c.x / Metre, c.y / Metre, c.z / Metre};
}
Position<World> At(V3 const& v) {
  return World::origin +
         Displacement<World>({static_cast<double>(v[0]) * Metre,
                              static_cast<double>(v[1]) * Metre,
                              static_cast<double>(v[2]) * Metre});
}

// The distance from c to the segment [a, b].
Real Distance(V3 const& c, V3 const& a, V3 const& b) {
  V3 const ab = b - a;
  Real const ab2 = Dot(ab, ab);
  Real λ = ab2 == 0 ? 0 : Dot(c - a, ab) / ab2;
  λ = std::min(Real(1), std::max(Real(0), λ));
  return Norm(a + λ * ab - c);
}

struct Ball {
  V3 centre;
  Real radius;
  Sphere<World> sphere() const {
    return Sphere<World>(At(centre), static_cast<double>(radius) * Metre);
  }
  // Positive if the point is visible.
  Real Margin(V3 const& camera, V3 const& p) const {
    return Distance(centre, camera, p) - radius;
  }
};

// The camera, and where it is looking.
struct View {
  V3 position;
  std::array<V3, 3> axes;  // Images of the axes of the camera.
  Real scale;              // World lengths for a camera length.
  int construction;

  // The coordinates in the camera frame.
  V3 InCamera(V3 const& p) const {
    V3 const d = p - position;
    return {Dot(d, axes[0]) / scale, Dot(d, axes[1]) / scale,
            Dot(d, axes[2]) / scale};
  }
};

View views(int const i) {
  Real const c = 0.6L;
  Real const s = 0.8L;
  static std::array<std::array<V3, 3>, 3> const axes = {
      {{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}},
       {{{0, 0, 1}, {1, 0, 0}, {0, 1, 0}}},
       {{{c, s, 0}, {-s, c, 0}, {0, 0, 1}}}}};
  static std::array<V3, 3> const positions = {
      {{0, 0, 0}, {1, -2, 3}, {0.5L, 0.25L, -1}}};
  static std::array<Real, 3> const scales = {1, 4, 0.125L};
  return {positions[i % 3], axes[i / 3 % 3], scales[i / 9 % 3], i / 27 % 2};
}

Perspective<World, Camera> Make(View const& v, double const focal) {
  auto const bivector = [](V3 const& a) {
    return Bivector<double, World>({static_cast<double>(a[0]),
                                    static_cast<double>(a[1]),
                                    static_cast<double>(a[2])});
  };
  auto const vector = [](V3 const& a) {
    return Vector<double, World>({static_cast<double>(a[0]),
                                  static_cast<double>(a[1]),
                                  static_cast<double>(a[2])});
  };
  Rotation<Camera, World> const rotation(
      vector(v.axes[0]), vector(v.axes[1]), bivector(v.axes[2]));
  Homothecy<double, World, World> const homothecy(
      static_cast<double>(v.scale));
  Similarity<Camera, World> const from_camera(
      Camera::origin,
      At(v.position),
      homothecy.Forget<ConformalMap>() *
          rotation.Forget<OrthogonalMap>().Forget<ConformalMap>());
  if (v.construction == 0) {
    return Perspective<World, Camera>(from_camera, focal * Metre);
  } else {
    return Perspective<World, Camera>(from_camera.Inverse(), focal * Metre);
  }
}

V3 Lattice(int const n) {
  return {Real(n % 5 - 2), Real(n / 5 % 5 - 2), Real(n / 25 - 2)};
}

void Projections(bool const all) {
  View const view = views(Choose(54));
  double const focal = Of({1.0, 0.5, 3.0});
  auto const perspective = Make(view, focal);
  Check(Norm(Of3(perspective.camera()) - view.position) < 1e-14, "camera");
  CheckEq(perspective.focal() / Metre, focal, "focal");
  V3 const a = Lattice(Choose(125));
  V3 const ca = view.InCamera(a);
  if (Norm(ca) == 0) seq::Prune();
  auto const point = perspective(At(a));
  // In homogeneous coordinates.
  if (!point.is_at_infinity() && std::abs(ca[2]) > 1e-9) {
    Real const x = focal * ca[0] / ca[2];
    Real const y = focal * ca[1] / ca[2];
    Check(std::abs(point.x() / Metre - x) <= 1e-12 * (1 + std::abs(x)), "x");
    Check(std::abs(point.y() / Metre - y) <= 1e-12 * (1 + std::abs(y)), "y");
  } else {
    Check(std::abs(ca[2]) < 1e-9, "at infinity");
  }
  Check(std::abs(perspective.SquaredDistanceFromCamera(At(a)) /
                     (Metre * Metre) -
                 Dot(a - view.position, a - view.position)) < 1e-12,
        "distance");
  for (int n = 0; n < 125; n += all ? 1 : 3) {
    V3 const b = Lattice(n);
    V3 const cb = view.InCamera(b);
    if (Norm(cb) == 0) continue;
    seq::Step();
    // The angular distance.
    Real const cos = Dot(ca, cb) / Norm(ca) / Norm(cb);
    Real const tan2 = (1 - cos * cos) / (cos * cos);
    double const actual = perspective.Tan²AngularDistance(At(a), At(b));
    if (std::abs(cos) < 1e-9) {
      Check(!(actual < 1e15), "tangent of a right angle");
    } else {
      Check(std::abs(actual - tan2) < 1e-12 * (1 + tan2), "tangent ", actual,
            " vs. ", static_cast<double>(tan2));
    }
    // The part behind the focal plane.
    auto const behind = perspective.SegmentBehindFocalPlane({At(a), At(b)});
    // The range of λ that is behind.
    Real const za = ca[2] - focal;
    Real const zb = cb[2] - focal;
    Real const tolerance = 1e-12;
    if (za > tolerance && zb > tolerance) {
      Check(behind.has_value() && behind->first == At(a) &&
                behind->second == At(b),
            "completely behind");
    } else if (za < -tolerance && zb < -tolerance) {
      Check(!behind.has_value(), "completely in front");
    } else if (std::abs(za) > tolerance && std::abs(zb) > tolerance) {
      Check(behind.has_value(), "crosses the focal plane");
      V3 const intercept = a + (za / (za - zb)) * (b - a);
      V3 const first = za > 0 ? a : intercept;
      V3 const second = za > 0 ? intercept : b;
      Check(Norm(Of3(behind->first) - first) < 1e-12 &&
                Norm(Of3(behind->second) - second) < 1e-12,
            "part behind the focal plane");
    }
  }
}

// Whether the segment is seen as a point, or contains the camera.
bool Aligned(V3 const& camera, V3 const& a, V3 const& b) {
  V3 const ka = a - camera;
  V3 const kb = b - camera;
  return Dot(ka, ka) * Dot(kb, kb) - Dot(ka, kb) * Dot(ka, kb) < 1e-6;
}

bool Covered(std::vector<std::pair<V3, V3>> const& segments, V3 const& p) {
  for (auto const& [a, b] : segments) {
    if (Distance(p, a, b) < 1e-9) return true;
  }
  return false;
}

Ball balls(int const i) {
  static Ball const result[] = {{{0, 0, 2}, 1},      {{0, 1, 1}, 0.75L},
                                {{1, 1, 1}, 1.5L},   {{-1, 0, 2}, 0.125L},
                                {{0, -2, 0.5L}, 2},  {{3, 0, 0}, 2.5L},
                                {{1, 0, -1}, 0.5L},   {{-2, 2, 2}, 3},
                                {{0.25L, 0.5L, 1.5L}, 0.625L},
                                {{0, 0, -1}, 0.9L},   {{-1, -1, 0}, 1.1L},
                                {{20, 10, 30}, 25}};
  return result[i];
}

// Whether the points and segments of a lattice are hidden.
void Hiding(int const step) {
  View const view = views(Of({0, 2, 13, 49}));
  auto const perspective = Make(view, 1);
  Ball const ball = balls(Choose(12));
  Sphere<World> const sphere = ball.sphere();
  V3 const& camera = view.position;
  Real const d = Norm(ball.centre - camera);
  bool const inside = d < ball.radius;
  if (d == ball.radius) seq::Prune();
  double const sin2 = perspective.SphereSin²HalfAngle(sphere);
  Check(std::abs(sin2 - (inside ? 1 : ball.radius * ball.radius / (d * d))) <
            1e-14,
        "half angle");
  V3 const a = Lattice(Choose(125));
  Notes("sphere ", static_cast<double>(ball.centre[0]), " ",
        static_cast<double>(ball.centre[1]), " ",
        static_cast<double>(ball.centre[2]), " radius ",
        static_cast<double>(ball.radius), ", camera ",
        static_cast<double>(camera[0]), " ", static_cast<double>(camera[1]),
        " ", static_cast<double>(camera[2]), ", first ",
        static_cast<double>(a[0]), " ", static_cast<double>(a[1]), " ",
        static_cast<double>(a[2]));
  Real const margin_a = ball.Margin(camera, a);
  if (std::abs(margin_a) > 1e-9) {
    CheckEq(perspective.IsHiddenBySphere(At(a), sphere), margin_a < 0,
            "hidden");
  }
  for (int n = 0; n < 125; n += step) {
    V3 const b = Lattice(n);
    seq::Step();
    bool const aligned = Aligned(camera, a, b);
    auto const visible = perspective.VisibleSegments({At(a), At(b)}, sphere);
    std::vector<std::pair<V3, V3>> segments;
    Real last = 0;
    Real const ab2 = Dot(b - a, b - a);
    for (auto const& s : visible) {
      V3 const first = Of3(s.first);
      V3 const second = Of3(s.second);
      if (ab2 > 0) {
        Real const λ1 = Dot(first - a, b - a) / ab2;
        Real const λ2 = Dot(second - a, b - a) / ab2;
        Check(last - 1e-12 <= λ1 && λ1 <= λ2 + 1e-12 && λ2 <= 1 + 1e-12,
              "order of the segments");
        last = λ2;
      }
      Check(Distance(first, a, b) < 1e-12 && Distance(second, a, b) < 1e-12,
            "out of the segment to ", static_cast<double>(b[0]), " ",
            static_cast<double>(b[1]), " ", static_cast<double>(b[2]));
      segments.emplace_back(first, second);
    }
    if (aligned) {
      // Seen as a point.
      Real const margin_b = ball.Margin(camera, b);
      if (!inside && std::abs(margin_a) > 1e-9 && std::abs(margin_b) > 1e-9) {
        CheckEq(segments.empty(), margin_a < 0 && margin_b < 0,
                "seen as a point");
      }
      continue;
    }
    for (int k = 0; k <= 32; ++k) {
      V3 const p = a + (k / Real(32)) * (b - a);
      Real const margin = ball.Margin(camera, p);
      if (std::abs(margin) < 1e-6) continue;
      Check(Covered(segments, p) == (margin > 0), "the point ",
            static_cast<double>(p[0]), " ", static_cast<double>(p[1]), " ",
            static_cast<double>(p[2]), " of the segment to ",
            static_cast<double>(b[0]), " ", static_cast<double>(b[1]), " ",
            static_cast<double>(b[2]), " should be ",
            margin > 0 ? "visible" : "hidden");
    }
  }
}

// Several spheres: what is visible is not hidden by any of them.
void Spheres(int const step) {
  View const view = views(2);
  auto const perspective = Make(view, 1);
  V3 const& camera = view.position;
  int const n = Choose(4);
  std::vector<Ball> chosen;
  std::vector<Sphere<World>> spheres;
  for (int i = 0; i < n; ++i) {
    chosen.push_back(Ball{{Real(Choose(3)) - 1, Real(i) - 1, 1}, 0.4L});
    spheres.push_back(chosen.back().sphere());
  }
  // Far behind, so that they hide several parts.
  V3 const a = Lattice(Choose(25) + 100) + V3{0, 0, 1};
  for (int m = 0; m < 125; m += step) {
    V3 const b = Lattice(m) + V3{0, 0, 1};
    seq::Step();
    if (Aligned(camera, a, b)) continue;
    auto const visible = perspective.VisibleSegments({At(a), At(b)}, spheres);
    Check(visible.size() <= n + 1, "too many segments");
    std::vector<std::pair<V3, V3>> segments;
    for (auto const& s : visible) {
      segments.emplace_back(Of3(s.first), Of3(s.second));
    }
    for (int k = 0; k <= 64; ++k) {
      V3 const p = a + (k / Real(64)) * (b - a);
      Real margin = 1;
      for (auto const& ball : chosen) {
        margin = std::min(margin, ball.Margin(camera, p));
      }
      if (std::abs(margin) < 1e-6) continue;
      CheckEq(Covered(segments, p), margin > 0, "several spheres, point ", k);
    }
  }
}

// The projective plane.
void RP2() {
  static double const values[] = {-3, -1, -0.0, 0.0, 0.5, 1, 2};
  auto const choose = [] {
    return std::array<double, 3>{values[Choose(7)], values[Choose(7)],
                                 values[Choose(7)]};
  };
  auto const make = [](std::array<double, 3> const& a) {
    return RP2Point<Length, Camera>(a[0] * Metre, a[1] * Metre, a[2]);
  };
  auto const a = choose();
  auto const p = make(a);
  CheckEq(p.is_at_infinity(), a[2] == 0, "at infinity");
  double const inf = std::numeric_limits<double>::infinity();
  auto const coordinate = [&](double const x) {
    double const sign = std::copysign(1, x) * std::copysign(1, a[2]);
    return a[2] == 0 ? sign * inf : sign * std::abs(x / a[2]);
  };
  CheckEq(p.x() / Metre, coordinate(a[0]), "x");
  CheckEq(p.y() / Metre, coordinate(a[1]), "y");
  CheckEq(std::signbit(p.x() / Metre), std::signbit(coordinate(a[0])),
          "sign of x");
  CheckEq(std::signbit(p.y() / Metre), std::signbit(coordinate(a[1])),
          "sign of y");
  for (double const x : values) {
    for (double const y : values) {
      for (double const z : values) {
        std::array<double, 3> const b{x, y, z};
        auto const q = make(b);
        bool const a_singular = a[0] == 0 && a[1] == 0 && a[2] == 0;
        bool const b_singular = x == 0 && y == 0 && z == 0;
        // Proportional.
        bool const equal = a_singular || b_singular
                               ? a_singular && b_singular
                               : a[0] * y == a[1] * x && a[0] * z == a[2] * x &&
                                     a[1] * z == a[2] * y;
        CheckEq(p == q, equal, "equal");
        CheckEq(p != q, !equal, "different");
        seq::Step();
      }
    }
  }
}
}  // namespace

SEQ_HARNESS(projections, .split = 1) { Projections(true); }
SEQ_HARNESS(hiding, .split = 2) { Hiding(1); }
SEQ_HARNESS(spheres, .split = 2) { Spheres(seq::Thorough() ? 1 : 2); }
SEQ_HARNESS(projective_plane) { RP2(); }

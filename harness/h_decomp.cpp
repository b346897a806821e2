// Decomposition of vertex loops into convex polygons, and extrusion.
#include <list>

#include "mesh.h"

#include "walnut/convex_polygon_factory.h"
#include "walnut/extrude.h"
#include "walnut/monotone_decomposer.h"
#include "walnut/monotone_range.h"
#include "walnut/monotone_triangulator.h"
#include "walnut/orienting_monotone_decomposer.h"
#include "walnut/planar_range.h"
#include "walnut/point3_with_vertex_data.h"

namespace vf {

using walnut::ConvexPolygonFactory;
using walnut::HalfSpace3;
using walnut::HomoPoint3;
using walnut::Point3;

// A closed loop of vertices.
struct Loop {
  std::vector<V3> v;
  bool planar = true;
  bool simple_monotone = false;  // In the dimension that the factory uses.
  const char* kind = "";
};

// A frame with a normal for which `drop` is the first nonzero dimension.
inline Frame DropFrame(Rng& r, int drop, int grid) {
  Frame f;
  f.o = RandV(r, grid);
  V3 slope(0, 0, 0);
  f.a = f.b = V3(0, 0, 0);
  int m = (drop + 1) % 3, c = (drop + 2) % 3;
  // Two integer vectors that span the plane and have fixed projections.
  f.a[m] = 1;
  f.b[c] = 1;
  // The normal is (1, -sa, -sb) in (drop, m, c): its components before `drop`
  // have to be zero.
  auto can = [&](int d) { return d > drop; };
  if (can(m) && r.chance(2, 3)) f.a[drop] = (long)r.range(-4, 4);
  if (can(c) && r.chance(2, 3)) f.b[drop] = (long)r.range(-4, 4);
  return f;
}

// A polygon made of a lower and an upper chain over x.
inline std::vector<P2> RandMonotone2(Rng& r, size_t n, bool strict) {
  long width = (long)n + 2;
  std::vector<P2> lo, hi;
  long shape = r.below(4);
  // The chains are separated by a random path.
  std::vector<long> mid(width + 1);
  long at = 0;
  for (auto& m : mid) { m = at; at += r.range(-3, 3); }
  auto y = [&](long x, int side) {
    long d = shape == 0 ? r.range(1, 2) : shape == 1 ? r.range(1, 9) : shape == 2 ? 1 + (x * x) % 5 : 1 + std::min(x, width - x);
    return mid[x] + side * d;
  };
  for (long x = 1; x < width; ++x) {
    if (r.chance(2, 3)) lo.push_back(P2{x, y(x, -1)});
    if (r.chance(2, 3)) hi.push_back(P2{x, y(x, 1)});
  }
  (void)strict;
  std::vector<P2> out;
  if (r.chance(1, 3)) {
    out.push_back(P2{0, mid[0] - 1});  // A vertical edge at the left.
    out.push_back(P2{0, mid[0] + 1});
    std::swap(out[0], out[1]);
  } else {
    out.push_back(P2{0, mid[0]});
  }
  for (auto& p : lo) out.push_back(p);
  if (r.chance(1, 3)) {
    out.push_back(P2{width, mid[width] - 1});
    out.push_back(P2{width, mid[width] + 1});
  } else {
    out.push_back(P2{width, mid[width]});
  }
  for (size_t i = hi.size(); i-- > 0;) out.push_back(hi[i]);
  return out;
}

inline Q Area2(const std::vector<P2>& p) {
  mpz_class a = 0;
  for (size_t i = 0; i < p.size(); ++i) {
    const P2 &s = p[i], &t = p[(i + 1) % p.size()];
    a += s.x * t.y - s.y * t.x;
  }
  return Q(a);
}

inline bool SegCross(const P2& a, const P2& b, const P2& c, const P2& d) {
  // Do the closed segments have a common point?
  int t1 = Turn(a, b, c), t2 = Turn(a, b, d), t3 = Turn(c, d, a), t4 = Turn(c, d, b);
  auto between = [](const P2& p, const P2& s, const P2& t) {
    return ((s.x <= p.x && p.x <= t.x) || (t.x <= p.x && p.x <= s.x)) &&
           ((s.y <= p.y && p.y <= t.y) || (t.y <= p.y && p.y <= s.y));
  };
  if (t1 * t2 < 0 && t3 * t4 < 0) return true;
  return (t1 == 0 && between(c, a, b)) || (t2 == 0 && between(d, a, b)) ||
         (t3 == 0 && between(a, c, d)) || (t4 == 0 && between(b, c, d));
}

// Simple, allowing collinear vertices, but nothing else.
inline bool IsSimple(const std::vector<P2>& p) {
  const size_t n = p.size();
  if (n < 3) return false;
  for (size_t i = 0; i < n; ++i) {
    const P2 &a = p[i], &b = p[(i + 1) % n], &c = p[(i + 2) % n];
    if (a.x == b.x && a.y == b.y) return false;
    if (Turn(a, b, c) == 0 && (b.x - a.x) * (c.x - b.x) + (b.y - a.y) * (c.y - b.y) < 0) return false;
    for (size_t j = i + 2; j < n; ++j) {
      if (i == 0 && j == n - 1) continue;
      if (SegCross(a, b, p[j], p[(j + 1) % n])) return false;
    }
  }
  return true;
}

// Simple, but typically not monotone.
inline std::vector<P2> RandSpiral2(Rng& r, size_t n) {
  // Points by angle about the origin, with random radii.
  std::vector<P2> out;
  for (int tries = 0; tries < 100; ++tries) {
    std::vector<P2> p;
    for (size_t i = 0; i < n; ++i) {
      P2 q{(long)r.range(-9, 9), (long)r.range(-9, 9)};
      if (q.x == 0 && q.y == 0) continue;
      p.push_back(q);
    }
    auto half = [](const P2& v) { return v.y < 0 || (v.y == 0 && v.x < 0); };
    std::sort(p.begin(), p.end(), [&](const P2& a, const P2& b) {
      if (half(a) != half(b)) return half(a) < half(b);
      mpz_class c = a.x * b.y - a.y * b.x;
      if (c != 0) return c > 0;
      return false;
    });
    if (IsSimple(p)) return p;
  }
  return RandConvex2(r, n, 5);
}

inline Loop RandLoop(Rng& r, int grid, bool allow_nonplanar) {
  Loop l;
  size_t n = r.coin() ? r.range(3, 6) : r.range(6, 14);
  auto lift = [&](const Frame& f, const std::vector<P2>& p) {
    for (auto& q : p) l.v.push_back(f.At(Q(q.x), Q(q.y)));
  };
  auto random_frame = [&]() { return r.coin() ? RandFrame(r, grid) : DropFrame(r, r.below(3), grid); };
  switch (r.below(allow_nonplanar ? 10 : 8)) {
    case 0: {
      l.kind = "convex";
      lift(random_frame(), RandConvex2(r, n, 6));
      l.simple_monotone = true;
      break;
    }
    case 1: case 2: case 3: {
      l.kind = "monotone";
      int drop = r.below(3), m = drop == 1 ? 0 : 1;
      Frame f = DropFrame(r, drop, grid);
      std::vector<P2> p = RandMonotone2(r, n, false);
      if (!IsSimple(p)) { l.kind = "planar"; }
      else l.simple_monotone = true;
      if (sgn(f.a[m]) == 0) for (auto& q : p) std::swap(q.x, q.y);
      lift(f, p);
      break;
    }
    case 4: {
      l.kind = "simple";
      lift(random_frame(), RandSpiral2(r, n));
      break;
    }
    case 5: case 6: {
      l.kind = "planar";
      Frame f = random_frame();
      long k = r.coin() ? 2 : 6;
      std::vector<P2> p;
      for (size_t i = 0; i < n; ++i) p.push_back(P2{(long)r.range(-k, k), (long)r.range(-k, k)});
      lift(f, p);
      break;
    }
    case 7: {
      l.kind = "collinear";
      V3 o = RandV(r, grid), d = ToV(RandZ3(r, kSmall, r.chance(3, 4)));
      for (size_t i = 0; i < n; ++i) l.v.push_back(o + d * Q((long)r.range(-3, 3)));
      break;
    }
    case 8: {
      l.kind = "nonplanar";
      l.planar = false;
      for (size_t i = 0; i < n; ++i) l.v.push_back(RandV(r, grid));
      break;
    }
    default: {
      // Runs of vertices in different planes.
      l.kind = "patches";
      l.planar = false;
      int k = 1 + r.below(3);
      V3 v((long)r.range(0, k), (long)r.range(0, k), (long)r.range(0, k));
      for (size_t i = 0; i < n + 3; ++i) {
        l.v.push_back(v);
        v[r.below(3)] = (long)r.range(0, k);
      }
    }
  }
  if (r.chance(1, 5)) {
    // Spikes: out and back again.
    size_t i = r.below(l.v.size());
    V3 a = l.v[i], b = l.v[r.below(l.v.size())];
    if (r.coin()) b = a + (b - a) * Q(2);
    l.v.insert(l.v.begin() + i + 1, a);
    l.v.insert(l.v.begin() + i + 1, b);
    l.simple_monotone = false;
    Count("loops_with_spikes");
  }
  if (r.chance(1, 6)) {
    for (size_t k = 1 + r.below(3); k > 0; --k) {
      size_t i = r.below(l.v.size());
      l.v.insert(l.v.begin() + i, l.v[i]);
    }
    l.simple_monotone = false;
    Count("loops_with_repeats");
  }
  if (r.coin()) std::reverse(l.v.begin(), l.v.end());
  if (!l.v.empty()) std::rotate(l.v.begin(), l.v.begin() + r.below(l.v.size()), l.v.end());
  if (r.chance(1, 12)) {
    l.v.push_back(l.v[0]);  // Explicitly closed.
    l.simple_monotone = false;
    Count("loops_closed_explicitly");
  }
  Count(std::string("loops_") + l.kind);
  return l;
}

inline std::vector<V3> WithoutZeroEdges(const std::vector<V3>& v) {
  std::vector<V3> out;
  for (auto& p : v) if (out.empty() || out.back() != p) out.push_back(p);
  while (out.size() > 1 && out.back() == out[0]) out.pop_back();
  if (out.size() < 2) out.clear();
  return out;
}

// Do the directed edges of `pieces` add up to those of `loop`?
inline std::string NotCovered(const Faces& pieces, const std::vector<V3>& loop) {
  Faces all;
  for (auto& f : pieces) {
    Face g = WithoutZeroEdges(f);
    if (!g.empty()) all.push_back(g);
  }
  Face back = WithoutZeroEdges(Reversed(loop));
  if (!back.empty()) all.push_back(back);
  return Unclosed(all);
}

inline bool AllCollinear(const std::vector<V3>& v) {
  V3 d(0, 0, 0);
  for (size_t i = 1; i < v.size(); ++i) {
    V3 e = v[i] - v[0];
    if (d.IsZero()) d = e;
    else if (!Cross(d, e).IsZero()) return false;
  }
  return true;
}

template <typename Point, typename Polygon>
struct Collect : public ConvexPolygonFactory<Point, Polygon> {
  typedef ConvexPolygonFactory<Point, Polygon> Base;
  std::vector<Polygon> out;
  void Emit(Polygon&& p) override { out.push_back(std::move(p)); }
};

inline Point3 IntPoint(const V3& v) {
  return Point3(B(v[0].get_num()), B(v[1].get_num()), B(v[2].get_num()));
}

inline void CheckPieces(const Loop& l, const Faces& f, const std::string& in) {
  std::string gap = NotCovered(f, l.v);
  VREQ(gap.empty(), "loop-not-covered", "the edges of " << S(f) << " do not add up to " << in << " on " << gap);
  std::vector<V3> loop = WithoutZeroEdges(l.v);
  VREQ(f.empty() || f.size() + 2 <= loop.size(), "too-many-pieces", S(f) << " from " << in);
  Count("pieces", f.size());
  CountMax("pieces", f.size());
  for (auto& x : f) if (x.size() > 3) Count("pieces_beyond_triangles");
  if (l.simple_monotone) {
    V3 area = VecArea(l.v);
    for (auto& x : f)
      VREQ(SameDir(VecArea(x), area), "piece-overlaps",
           "piece " << S(x) << " faces backwards for " << in << " pieces " << S(f));
    if (std::string(l.kind) == "convex") {
      // Nothing has to be cut.
      VREQ(f.size() == 1, "convex-cut", S(f) << " from " << in);
      Count("convex_loops_kept");
    }
    Count("simple_monotone_loops");
  }
}

template <typename Poly>
inline void CheckData(const Poly& p, const Loop& l, const std::string& in) { (void)p; (void)l; (void)in; }
inline void CheckData(const TagPoly& p, const Loop& l, const std::string& in) {
  for (size_t i = 0; i < p.vertex_count(); ++i) {
    int tag = p.edge(i).tag;
    VREQ(tag >= 0 && tag < (int)l.v.size() && l.v[tag] == ToV(p.vertex(i)), "vertex-data",
         "vertex " << S(ToV(p.vertex(i))) << " has the data of vertex " << tag << " of " << in);
    Count("vertex_data");
  }
}

template <typename Point, typename Polygon, typename Make>
inline void RunFactory(Rng& r, int grid, bool data, Make make) {
  Collect<Point, Polygon> factory;
  size_t builds = 1 + r.below(3);
  for (size_t b = 0; b < builds; ++b) {
    Loop l = RandLoop(r, grid, true);
    std::vector<Point> p;
    for (size_t i = 0; i < l.v.size(); ++i) p.push_back(make(l.v[i], (int)i));
    const std::string in = std::string(l.kind) + " loop " + S(l.v);
    factory.out.clear();
    if (r.chance(1, 3)) {
      std::list<Point> q(p.begin(), p.end());
      Count("bidirectional_inputs");
      factory.Build(q.begin(), q.end());
      for (size_t i = 0; i < p.size(); ++i)
        VREQ(std::next(q.begin(), i)->x() == p[i].x() && std::next(q.begin(), i)->z() == p[i].z(), "input-changed", in);
    } else if (l.planar && r.chance(1, 2)) {
      // With the plane given, in either direction.
      std::vector<V3> loop = WithoutZeroEdges(l.v);
      V3 n(0, 0, 0);
      for (size_t i = 1; i + 1 < loop.size() && n.IsZero(); ++i) n = Cross(loop[i] - loop[0], loop[i + 1] - loop[0]);
      if (n.IsZero() || r.coin()) {
        factory.Build(p.begin(), p.end());
      } else {
        if (r.coin()) n = n * Q(-1);
        HalfSpace3 plane = MakePlane(r, n, l.v[0]);
        factory.Build(plane, p.begin(), p.end());
        Count("planes_given");
      }
    } else {
      factory.Build(p.begin(), p.end());
    }
    Faces f = ToFaces(factory.out, "piece");
    for (size_t i = 0; i < factory.out.size(); ++i) {
      MaybeCheckBox(factory.out[i], "piece-box", 0);
    }
    CheckPieces(l, f, in);
    // Every vertex is one of the loop's.
    std::set<V3> given(l.v.begin(), l.v.end());
    for (auto& x : f) for (auto& v : x) VREQ(given.count(v), "new-vertex", S(v) << " from " << in);
    if (data) {
      for (auto& x : factory.out) CheckData(x, l, in);
    }
    for (auto& v : l.v) Observe(HashV(v));
    if (f.size() > 1) NonTrivial();
    if (f.size() > 1 && WantSample()) Sample(in + " into " + S(f));
  }
}

typedef walnut::Point3WithVertexData<TagEdge> TagPoint;

inline int IntGrid(Rng& r) {
  static const int kGrids[] = {kTiny, kSmall, kSmall, kMedium, kWord};
  return kGrids[r.below(5)];
}

PROPERTY(D01) {
  switch (r.below(4)) {
    case 0:
      RunFactory<Point3, PlainPoly>(r, IntGrid(r), false, [](const V3& v, int) { return IntPoint(v); });
      break;
    case 1:
      RunFactory<TagPoint, TagPoly>(r, IntGrid(r), true, [](const V3& v, int i) {
        TagPoint p(B(v[0].get_num()), B(v[1].get_num()), B(v[2].get_num()));
        p.data.tag = i;
        return p;
      });
      break;
    default: {
      bool scale = r.coin();
      RunFactory<HomoPoint3, PlainPoly>(r, RandGrid(r), false, [&r, scale](const V3& v, int) { return scale ? MakeHomo(v, r) : MakeHomo1(v); });
    }
  }
}

// ---------------------------------------------------------------------------

PROPERTY(D02) {
  int grid = RandGrid(r);
  Loop l = RandLoop(r, grid, true);
  // Keep some caps in the common shape.
  bool scale = r.coin();
  std::vector<HomoPoint3> cap;
  for (auto& v : l.v) cap.push_back(scale ? MakeHomo(v, r) : MakeHomo1(v));
  Z3 dir = RandZ3(r, r.coin() ? kSmall : grid, r.chance(9, 10));
  if (r.chance(1, 5) && l.v.size() > 1) {
    // Along an edge or in the plane.
    V3 e = l.v[1] - l.v[0];
    mpz_class k = CommonDenom(e);
    for (int i = 0; i < 3; ++i) { Q q = e[i] * k; dir[i] = q.get_num(); }
  }
  mpz_class denom = r.coin() ? mpz_class(1) : abs(RandScale(r));
  if (r.chance(1, 3)) denom = -denom;
  V3 offset = ToV(dir) * MakeQ(1, denom);
  const std::string in = std::string(l.kind) + " cap " + S(l.v) + " offset " + S(offset);
  std::vector<walnut::MutableConvexPolygon<>> out = walnut::Extrude(cap, MakeVec(dir), B(denom));
  Faces f = ToFaces(out, "facet");
  std::string gap = Unclosed(f);
  VREQ(gap.empty(), "not-closed", "extrusion of " << in << " is open on " << gap);
  // Every facet is in the bottom, the top, or a side.
  std::set<V3> bottom(l.v.begin(), l.v.end()), top;
  for (auto& v : l.v) top.insert(v + offset);
  for (auto& x : f) for (auto& v : x)
    VREQ(bottom.count(v) || top.count(v), "new-vertex", S(v) << " in the extrusion of " << in);
  Count("facets", f.size());
  Q volume = 0;
  for (auto& x : f)
    for (size_t i = 1; i + 1 < x.size(); ++i) volume += Dot(x[0], Cross(x[i], x[i + 1]));
  if (l.planar) {
    Q expected = -Dot(VecArea(l.v), offset) * 3;
    VREQ(volume == expected, "volume", "extrusion of " << in << " has 6 times the volume " << volume.get_str()
         << " instead of " << expected.get_str());
    Count(sgn(volume) > 0 ? "outward" : sgn(volume) < 0 ? "inward" : "flat");
  }
  if (l.simple_monotone && sgn(volume) != 0) {
    // Points of the solid: winding 1, or -1 if the cap faces the direction.
    int expect = sgn(volume);
    size_t inside = 0;
    for (int k = 0; k < 6; ++k) {
      V3 p;
      if (k < 4) {
        size_t a = r.below(l.v.size());
        V3 q = l.v[a] * MakeQ(1, 2) + Centroid(l.v) * MakeQ(1, 2);
        p = q + offset * MakeQ((long)r.range(-1, 8), 7) + RandV(r, kSmall) * MakeQ(1, 1000003);
      } else p = RandTestPoint(r, f);
      if (OnSurface(f, p)) continue;
      // Project p along the offset onto the cap's plane.
      V3 n = VecArea(l.v);
      Q t = Dot(n, p - l.v[0]) / Dot(n, offset);
      V3 q = p - offset * t;
      bool in_cap = false;
      if (sgn(t) > 0 && t < 1) {
        // Even odd in the plane.
        int d = 0;
        while (sgn(n[d]) == 0) ++d;
        V2 q2 = Drop(q, d);
        for (size_t i = 0; i < l.v.size(); ++i) {
          V2 a = Drop(l.v[i], d), b = Drop(l.v[(i + 1) % l.v.size()], d);
          if ((a[1] > q2[1]) != (b[1] > q2[1])) {
            Q x = a[0] + (b[0] - a[0]) * ((q2[1] - a[1]) / (b[1] - a[1]));
            if (q2[0] < x) in_cap = !in_cap;
          }
        }
      }
      int w = Winding(f, p, r);
      VREQ(w == (in_cap ? expect : 0), "winding", "the extrusion of " << in << " winds " << w << " times around " << S(p)
           << ", which is " << (in_cap ? "inside" : "outside"));
      inside += in_cap;
      Count("points");
    }
    Count("points_inside", inside);
  }
  for (auto& v : l.v) Observe(HashV(v));
  Observe(HashV(offset));
  if (sgn(volume) != 0) NonTrivial();
  if (WantSample()) Sample(in + " gives " + std::to_string(f.size()) + " facets");
}

// ---------------------------------------------------------------------------

// A point that knows where it is from.
struct IdPoint : public HomoPoint3 {
  using HomoPoint3::HomoPoint3;
  IdPoint() = default;
  explicit IdPoint(const HomoPoint3& p) : HomoPoint3(p) {}
  int id = -1;
};

struct Triangles : public walnut::MonotoneTriangulator<IdPoint> {
  struct T { bool top; IdPoint p[3]; };
  std::vector<T> out;
  void EmitTriangle(bool top, const IdPoint& a, const IdPoint& b, const IdPoint& c) override {
    out.push_back(T{top, {a, b, c}});
  }
};

struct Convexes : public walnut::MonotoneDecomposer<IdPoint> {
  std::vector<std::pair<int, std::vector<IdPoint>>> out;
  void EmitRange(int o, const_reverse_iterator a, const_reverse_iterator b, const_iterator c, const_iterator d) override {
    out.emplace_back(o, std::vector<IdPoint>(a, b));
    out.back().second.insert(out.back().second.end(), c, d);
  }
};

struct Oriented : public walnut::OrientingMonotoneDecomposer<IdPoint> {
  std::vector<std::pair<int, std::vector<IdPoint>>> out;
  void EmitOriented(int o, const_reverse_iterator a, const_reverse_iterator b, const_iterator c, const_iterator d) override {
    out.emplace_back(o, std::vector<IdPoint>(a, b));
    out.back().second.insert(out.back().second.end(), c, d);
  }
};

// Twice the area after the projection that keeps (drop + 1, drop + 2).
inline Q ProjectedArea(const std::vector<V3>& v, int drop) { return VecArea(v)[drop]; }

template <typename Points>
inline std::vector<V3> ToVs(const Points& p) {
  std::vector<V3> out;
  for (auto& x : p) out.push_back(ToV(x));
  return out;
}

template <typename It>
inline void CheckRanges(const Loop& l, It begin, It end, int m, bool planar_only, const std::string& in) {
  // Planar ranges.
  Faces pieces;
  It b = begin, e = end;
  walnut::PlanarRange<It> planar;
  size_t rounds = 0;
  while (b != e) {
    size_t before = std::distance(b, e);
    planar.Build(b, e);
    VREQ((size_t)std::distance(b, e) < before, "planar-range-progress", in);
    std::vector<V3> piece;
    for (auto it = planar.begin(); it != planar.end(); ++it) piece.push_back(ToV(*it));
    VREQ(piece.size() == planar.size(), "planar-range-size", planar.size() << " but " << piece.size() << " vertices for " << in);
    V3 n = ToV(planar.plane().normal());
    if (n.IsZero()) {
      VREQ(AllCollinear(piece), "planar-range-collinear", "no plane for " << S(piece) << " of " << in);
    } else {
      for (auto& v : piece) VREQ(Side(planar.plane(), v) == 0, "planar-range-plane", S(v) << " is not on " << planar.plane() << " of " << in);
    }
    if (b != e) {
      // Only stops at vertices outside of the plane.
      VREQ(std::distance(b, e) > 2, "planar-range-left", in);
      VREQ(!n.IsZero() && Side(planar.plane(), ToV(*std::next(b))) != 0, "planar-range-short", S(piece) << " could start later in " << in);
      VREQ(Side(planar.plane(), ToV(*std::prev(e, 2))) != 0, "planar-range-short", S(piece) << " could end later in " << in);
      Count("planar_stops");
    }
    pieces.push_back(piece);
    if (++rounds > 200) Fail("planar-range-loops", in);
    // The pieces of this one.
    Faces inner;
    auto pb = planar.begin(), pe = planar.end();
    typedef decltype(pb) PIt;
    walnut::MonotoneRange<PIt> mono;
    size_t inner_rounds = 0;
    while (pb != pe) {
      mono.Build(m, pb, pe);
      typename walnut::MonotoneRange<PIt>::ConcatRangeRep::const_iterator c1b, c1e;
      typename walnut::MonotoneRange<PIt>::ConcatRangeRep::const_reverse_iterator c2b, c2e;
      mono.GetChains(c1b, c1e, c2b, c2e);
      std::vector<V3> c1, c2;
      for (auto it = c1b; it != c1e; ++it) c1.push_back(ToV(*it));
      for (auto it = c2b; it != c2e; ++it) c2.push_back(ToV(*it));
      auto increasing = [&](const std::vector<V3>& c) {
        for (size_t i = 0; i + 1 < c.size(); ++i) if (c[i][m] > c[i + 1][m]) return false;
        return true;
      };
      VREQ(!c1.empty() && !c2.empty(), "monotone-range-empty", in);
      VREQ(increasing(c1) && increasing(c2), "monotone-range-order", S(c1) << " and " << S(c2) << " in dimension " << m << " of " << in);
      VREQ(c1[0] == c2[0] && c1.back() == c2.back(), "monotone-range-ends", S(c1) << " and " << S(c2) << " of " << in);
      Face loop = c1;
      for (size_t i = c2.size() - 1; i-- > 1;) loop.push_back(c2[i]);
      inner.push_back(loop);
      Count("monotone_ranges");
      if (++inner_rounds > 200) Fail("monotone-range-loops", in);
    }
    CountMax("monotone_ranges_of_one_range", inner_rounds);
    {
      // A piece that goes up once and down once is kept.
      std::vector<int> dirs;
      for (size_t i = 0; i < piece.size(); ++i) {
        int d = sgn(Q(piece[(i + 1) % piece.size()][m] - piece[i][m]));
        if (d && (dirs.empty() || dirs.back() != d)) dirs.push_back(d);
      }
      if (dirs.size() > 1 && dirs.back() == dirs[0]) dirs.pop_back();
      if (dirs.size() == 2) {
        VREQ(inner_rounds == 1, "monotone-range-cut", inner_rounds << " ranges of " << S(piece) << " in dimension " << m << " of " << in);
        Count("monotone_kept");
      }
    }
    std::string gap = NotCovered(inner, piece);
    VREQ(gap.empty(), "monotone-range-cover", "the ranges " << S(inner) << " do not add up to " << S(piece) << " on " << gap);
  }
  if (rounds % 3 == 0) {
    // Nothing is left, which is also a range.
    planar.Build(b, e);
    VREQ(b == e && planar.size() == 0 && planar.begin() == planar.end(), "planar-range-of-nothing", in);
    auto pb = planar.begin(), pe = planar.end();
    walnut::MonotoneRange<decltype(pb)> mono;
    mono.Build(m, pb, pe);
    VREQ(pb == pe, "monotone-range-of-nothing", in);
    Count("empty_ranges");
  }
  Count("planar_ranges", rounds);
  if (planar_only) VREQ(rounds <= 1, "planar-range-split", rounds << " ranges for planar " << in);
  std::string gap = NotCovered(pieces, l.v);
  VREQ(gap.empty(), "planar-range-cover", "the ranges " << S(pieces) << " do not add up to " << in << " on " << gap);
}

PROPERTY(D03) {
  int grid = RandGrid(r);
  bool scale = r.coin();
  {
    Loop l = RandLoop(r, grid, true);
    std::vector<HomoPoint3> p;
    for (auto& v : l.v) p.push_back(scale ? MakeHomo(v, r) : MakeHomo1(v));
    const std::string in = std::string(l.kind) + " loop " + S(l.v);
    int m = r.below(3);
    if (r.coin()) CheckRanges(l, p.begin(), p.end(), m, l.planar, in);
    else {
      std::list<HomoPoint3> q(p.begin(), p.end());
      CheckRanges(l, q.begin(), q.end(), m, l.planar, in);
    }
  }
  // Chains over dimension m, of a plane that can be projected along drop.
  int drop = r.below(3), m = (drop + 1 + r.below(2)) % 3, c = 3 - drop - m;
  V3 o = RandV(r, grid), am(0, 0, 0), ac(0, 0, 0);
  am[m] = 1;
  ac[c] = 1;
  am[drop] = (long)r.range(-3, 3);
  ac[drop] = (long)r.range(-3, 3);
  std::vector<P2> lo, hi;  // Both with the ends.
  bool simple, convex = false, repeats = false, repeated_ends = false;
  {
    size_t n = r.range(3, 14);
    std::vector<P2> p;
    if (r.chance(2, 3)) {
      p = RandMonotone2(r, n, false);
    } else {
      p = RandConvex2(r, n, 6);
      convex = true;
    }
    simple = IsSimple(p);
    if (r.chance(1, 4)) {
      convex = false;
      // Crossing chains.
      for (auto& q : p) q.y = (long)r.range(-3, 3);
      simple = IsSimple(p);
    }
    // Split at the extremes, in x and then y to have vertical edges on
    // either chain.
    size_t first = 0, last = 0;
    bool up = r.coin();
    if (r.chance(1, 3)) {
      // Vertices within edges.
      std::vector<P2> q;
      for (size_t i = 0; i < p.size(); ++i) {
        const P2 &a = p[i], &b = p[(i + 1) % p.size()];
        q.push_back(P2{a.x * 2, a.y * 2});
        if (a.x == b.x || r.chance(1, 3)) q.push_back(P2{a.x + b.x, a.y + b.y});
      }
      p = q;
    }
    for (size_t i = 0; i < p.size(); ++i) {
      if (p[i].x < p[first].x || (p[i].x == p[first].x && (p[i].y < p[first].y) == up && p[i].y != p[first].y)) first = i;
      if (p[i].x > p[last].x || (p[i].x == p[last].x && (p[i].y < p[last].y) == up && p[i].y != p[last].y)) last = i;
    }
    if (r.chance(1, 4)) {
      // Any of the extreme vertices.
      for (size_t k = 0; k < 3; ++k) {
        if (p[(first + 1) % p.size()].x == p[first].x && r.coin()) first = (first + 1) % p.size();
        else if (p[(first + p.size() - 1) % p.size()].x == p[first].x && r.coin()) first = (first + p.size() - 1) % p.size();
        if (p[(last + 1) % p.size()].x == p[last].x && r.coin()) last = (last + 1) % p.size();
        else if (p[(last + p.size() - 1) % p.size()].x == p[last].x && r.coin()) last = (last + p.size() - 1) % p.size();
      }
      if (first == last) return;
    }
    for (size_t i = first;; i = (i + 1) % p.size()) { lo.push_back(p[i]); if (i == last) break; }
    for (size_t i = first;; i = (i + p.size() - 1) % p.size()) { hi.push_back(p[i]); if (i == last) break; }
    auto sorted = [](const std::vector<P2>& v) {
      for (size_t i = 0; i + 1 < v.size(); ++i) if (v[i].x > v[i + 1].x) return false;
      return true;
    };
    if (!sorted(lo) || !sorted(hi)) { Count("not_monotone"); return; }
    if (r.chance(1, 5)) {
      // The same vertex several times in a row.
      repeated_ends = r.coin();
      for (auto* chain : {&lo, &hi}) {
        std::vector<P2> q;
        for (size_t i = 0; i < chain->size(); ++i) {
          bool end = i == 0 || i + 1 == chain->size();
          size_t copies = end && !repeated_ends ? 1 : r.chance(1, end ? 2 : 4) ? r.range(2, 3) : 1;
          for (size_t k = 0; k < copies; ++k) q.push_back((*chain)[i]);
          repeats |= copies > 1;
        }
        *chain = q;
      }
    }
  }
  int id = 0;
  auto make = [&](const P2& q) {
    V3 v = o + am * Q(q.x) + ac * Q(q.y);
    IdPoint p(scale ? MakeHomo(v, r) : MakeHomo1(v));
    p.id = id++;
    return p;
  };
  std::vector<IdPoint> low, high;
  for (auto& q : lo) low.push_back(make(q));
  for (auto& q : hi) high.push_back(make(q));
  high[0] = low[0];
  high.back() = low.back();
  std::vector<V3> vlow = ToVs(low), vhigh = ToVs(high);
  const std::string in = "lower " + S(vlow) + " upper " + S(vhigh) + " drop " + std::to_string(drop) +
      " monotone " + std::to_string(m);
  const size_t total = low.size() + high.size() - 2;
  // Which of the chains is the top one? The one that makes
  // (bottom forward, top backward) counter-clockwise in the projection.
  std::vector<V3> around = vlow;
  for (size_t i = vhigh.size() - 1; i-- > 1;) around.push_back(vhigh[i]);
  int sign = sgn(ProjectedArea(around, drop));
  bool flip = simple ? sign < 0 : r.coin();
  const std::vector<IdPoint>& bottom = flip ? high : low;
  const std::vector<IdPoint>& top = flip ? low : high;
  std::vector<V3> loop = flip ? Reversed(around) : around;
  if (repeats) Count("repeated_vertices");
  if (total >= 3 && !repeated_ends) {
    Triangles t;
    size_t reps = 1 + r.below(2);
    for (size_t k = 0; k < reps; ++k) {
      t.out.clear();
      t.Build(drop, m, top.begin(), top.end() - 1, bottom.begin() + 1, bottom.end());
      VREQ(t.out.size() == total - 2, "triangle-count", t.out.size() << " triangles for " << in);
      Faces f;
      for (auto& x : t.out) {
        std::vector<V3> v{ToV(x.p[0]), ToV(x.p[1]), ToV(x.p[2])};
        f.push_back(v);
        int s = sgn(ProjectedArea(v, drop));
        if (simple) VREQ(s >= 0, "triangle-clockwise", S(v) << " of " << in);
        const std::vector<IdPoint>& chain = x.top ? top : bottom;
        bool found = false;
        for (auto& y : chain) found |= y.id == x.p[2].id;
        VREQ(found, "triangle-chain", "vertex " << S(v[2]) << " is not on the " << (x.top ? "top" : "bottom") << " of " << in);
      }
      Count("triangles", f.size());
      std::string gap = NotCovered(f, loop);
      VREQ(gap.empty(), "triangle-cover", S(f) << " do not add up to " << in << " on " << gap);
    }
    auto check = [&](const std::vector<std::pair<int, std::vector<IdPoint>>>& out, const std::vector<V3>& expect,
                     int want, const std::string& key) {
      Faces f;
      for (auto& x : out) {
        std::vector<V3> v = ToVs(x.second);
        int s = -sgn(ProjectedArea(v, drop));
        VREQ(s == x.first, key + "-orientation", S(v) << " is said to be " << x.first << " for " << in);
        if (simple && s) VREQ(s == want, key + "-direction", S(v) << " of " << in);
        f.push_back(v);
        // Convex after the projection, and once around.
        std::vector<V3> w = WithoutZeroEdges(v);
        for (size_t i = 0; s && i < w.size(); ++i) {
          V3 d = w[(i + 1) % w.size()] - w[i];
          for (auto& y : w)
            VREQ(sgn(Cross(d, y - w[i])[drop]) * -s >= 0, key + "-not-convex", S(w) << " of " << in);
        }
        for (size_t i = 0; s && i < w.size(); ++i)
          for (size_t j = 0; j < i; ++j)
            VREQ(w[i] != w[j], key + "-repeated-vertex", S(w) << " of " << in);
        if (w.size() > 3) Count("convex_beyond_triangles");
      }
      std::string gap = NotCovered(f, expect);
      VREQ(gap.empty(), key + "-cover", S(f) << " do not add up to " << in << " on " << gap);
    };
    Convexes x;
    for (size_t k = 0; k < reps; ++k) {
      x.out.clear();
      x.Build(drop, m, top.begin(), top.end() - 1, bottom.begin() + 1, bottom.end());
      check(x.out, loop, -1, "decomposer");
      if (convex && !repeats) {
        VREQ(x.out.size() == 1, "decomposer-convex", x.out.size() << " pieces for " << in);
        Count("convex_kept");
      }
    }
  }
  Oriented y;
  y.Build(drop, m, low.begin(), low.end(), high.begin(), high.end());
  {
    Faces f;
    for (auto& x : y.out) {
      std::vector<V3> v = ToVs(x.second);
      int s = -sgn(ProjectedArea(v, drop));
      VREQ(s == x.first, "oriented-orientation", S(v) << " is said to be " << x.first << " for " << in);
      if (simple && s) VREQ(s == -sign, "oriented-direction", S(v) << " of " << in);
      f.push_back(v);
    }
    std::string gap = NotCovered(f, around);
    VREQ(gap.empty(), "oriented-cover", S(f) << " do not add up to " << in << " on " << gap);
    if (convex && !repeats) VREQ(f.size() == 1, "oriented-convex", S(f) << " from " << in);
    if (f.size() > 1) NonTrivial();
  }
  Count(simple ? "simple_chains" : "crossing_chains");
  for (auto& v : around) Observe(HashV(v));
  if (WantSample()) Sample(in + " into " + std::to_string(y.out.size()));
}

}  // namespace vf

VERIF_MAIN

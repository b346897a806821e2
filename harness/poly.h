// Random exact convex polygons in space, with an independent description.
#ifndef VERIF_POLY_H
#define VERIF_POLY_H

#include "geom.h"

#include "walnut/aabb_convex_polygon.h"
#include "walnut/convex_polygon.h"
#include "walnut/mutable_convex_polygon.h"

namespace vf {

// An edge parent which records where its data came from.
struct TagEdge : public walnut::EdgeInfoRoot {
  int tag = -1;      // The input edge the data came from.
  int origin = 0;    // 0: as is, 1: new vertex, 2: new line, 3: both.
  bool mergeable = true;
  int merged = 0;

  TagEdge() = default;
  TagEdge(const TagEdge& o) : EdgeInfoRoot(), tag(o.tag), origin(o.origin), mergeable(o.mergeable), merged(o.merged) {}
  explicit TagEdge(const EdgeInfoRoot&) {}
  TagEdge(walnut::RValueKey<TagEdge> o) noexcept
      : tag(o.get().tag), origin(o.get().origin), mergeable(o.get().mergeable), merged(o.get().merged) {
    o.get().tag = -77;
  }
  TagEdge(const TagEdge& p, const walnut::HomoPoint3&) : tag(p.tag), origin(1), mergeable(p.mergeable) {}
  TagEdge(const TagEdge& p, const walnut::PluckerLine&) : tag(p.tag), origin(2), mergeable(p.mergeable) {}
  TagEdge(const TagEdge& p, const walnut::HomoPoint3&, const walnut::PluckerLine&) : tag(p.tag), origin(3), mergeable(p.mergeable) {}
  TagEdge& operator=(const TagEdge& o) {
    tag = o.tag; origin = o.origin; mergeable = o.mergeable; merged = o.merged;
    return *this;
  }
  TagEdge& operator=(walnut::RValueKey<TagEdge> o) noexcept {
    tag = o.get().tag; origin = o.get().origin; mergeable = o.get().mergeable; merged = o.get().merged;
    if (&o.get() != this) o.get().tag = -78;
    return *this;
  }
  bool operator==(const TagEdge& o) const { return tag == o.tag; }
  bool operator!=(const TagEdge& o) const { return tag != o.tag; }
  bool operator==(const EdgeInfoRoot&) const { return true; }
  bool operator!=(const EdgeInfoRoot&) const { return false; }
  bool CanMerge(const TagEdge& next) const { return mergeable && next.mergeable; }

 protected:
  void Merge(TagEdge& next) { ++merged; }
  template <typename E>
  void EdgeMoved(walnut::ConvexPolygon<E>&) {}
};
inline std::ostream& operator<<(std::ostream& o, const TagEdge& t) {
  return o << "tag" << t.tag << "/" << t.origin;
}

typedef walnut::MutableConvexPolygon<TagEdge> TagPoly;
typedef walnut::MutableConvexPolygon<> PlainPoly;

// The frame that maps 2D coordinates onto a plane.
struct Frame {
  V3 o, a, b;
  V3 At(const Q& u, const Q& v) const { return o + a * u + b * v; }
  V3 Normal() const { return Cross(a, b); }
};

inline Frame RandFrame(Rng& r, int grid) {
  Frame f;
  // Coordinate planes, or the grid.
  f.o = RandV(r, grid);
  if (r.chance(1, 4)) {
    int d = r.below(3);
    f.a = f.b = V3(0, 0, 0);
    f.a[(d + 1) % 3] = 1;
    f.b[(d + 2) % 3] = 1;
    if (r.coin()) std::swap(f.a, f.b);
    return f;
  }
  int g = grid == kHuge ? kWord : grid;
  if (g == kRational) g = kSmall;
  do {
    f.a = ToV(RandZ3(r, g, true));
    f.b = ToV(RandZ3(r, g, true));
  } while (Cross(f.a, f.b).IsZero());
  return f;
}

struct P2 { mpz_class x, y; };

inline int Turn(const P2& a, const P2& b, const P2& c) {
  mpz_class t = (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x);
  return sgn(t);
}

// Counter-clockwise integer polygon. `n` is a hint.
inline std::vector<P2> RandConvex2(Rng& r, size_t n, long range) {
  while (true) {
    std::vector<P2> out;
    if (n <= 8 && r.chance(2, 3)) {
      // The hull of random points.
      std::vector<P2> p;
      size_t m = n + r.below(4);
      for (size_t i = 0; i < m; ++i) p.push_back(P2{(long)r.range(-range, range), (long)r.range(-range, range)});
      std::sort(p.begin(), p.end(), [](const P2& a, const P2& b) { return a.x != b.x ? a.x < b.x : a.y < b.y; });
      for (int pass = 0; pass < 2; ++pass) {
        std::vector<P2> h;
        for (size_t i = 0; i < p.size(); ++i) {
          const P2& c = pass ? p[p.size() - 1 - i] : p[i];
          while (h.size() >= 2 && Turn(h[h.size() - 2], h.back(), c) <= 0) h.pop_back();
          if (h.size() == 1 && h[0].x == c.x && h[0].y == c.y) continue;
          h.push_back(c);
        }
        for (size_t i = 0; i + 1 < h.size(); ++i) out.push_back(h[i]);
      }
    } else {
      // Edge vectors sorted by angle, with their sum closed by one more.
      std::vector<P2> e;
      P2 sum{0, 0};
      for (size_t i = 0; i + 1 < n; ++i) {
        P2 v{(long)r.range(-range, range), (long)r.range(-range, range)};
        if (v.x == 0 && v.y == 0) continue;
        e.push_back(v);
        sum.x += v.x;
        sum.y += v.y;
        if (r.chance(1, 3)) {
          e.push_back(P2{-v.x, -v.y});
          sum.x -= v.x;
          sum.y -= v.y;
          ++i;
        }
      }
      if (sum.x != 0 || sum.y != 0) e.push_back(P2{-sum.x, -sum.y});
      auto half = [](const P2& v) { return v.y < 0 || (v.y == 0 && v.x < 0); };
      std::sort(e.begin(), e.end(), [&](const P2& a, const P2& b) {
        if (half(a) != half(b)) return half(a) < half(b);
        mpz_class c = a.x * b.y - a.y * b.x;
        return c > 0;
      });
      // Edges in the same direction become collinear vertices, or are joined.
      P2 at{(long)r.range(-range, range), (long)r.range(-range, range)};
      bool join = r.coin();
      for (size_t i = 0; i < e.size(); ++i) {
        bool same_as_prev = !out.empty() && i > 0 && e[i - 1].x * e[i].y == e[i - 1].y * e[i].x &&
            half(e[i - 1]) == half(e[i]);
        if (!(join && same_as_prev)) out.push_back(at);
        at.x += e[i].x;
        at.y += e[i].y;
      }
    }
    if (out.size() < 3) continue;
    bool ok = false;
    for (size_t i = 0; i < out.size(); ++i)
      if (Turn(out[i], out[(i + 1) % out.size()], out[(i + 2) % out.size()]) > 0) ok = true;
    if (ok) return out;
  }
}

struct GenPoly {
  Frame frame;
  V3 normal;             // The direction of the polygon's normal.
  std::vector<V3> v;     // Counter-clockwise about normal.
  std::vector<walnut::HomoPoint3> p;
  walnut::HalfSpace3 plane;
  int drop = 0;
  size_t collinear = 0;
};

inline walnut::HalfSpace3 MakePlane(Rng& r, const V3& normal, const V3& on) {
  // normal may be rational; scale to integers.
  mpz_class l = CommonDenom(normal);
  Q d = Dot(normal, on);
  mpz_class t;
  mpz_lcm(t.get_mpz_t(), l.get_mpz_t(), d.get_den().get_mpz_t());
  l = t * abs(RandScale(r));
  Q x = normal[0] * l, y = normal[1] * l, z = normal[2] * l, dd = d * l;
  return walnut::HalfSpace3(B(x.get_num()), B(y.get_num()), B(z.get_num()), B(dd.get_num()));
}

inline int RandDrop(Rng& r, const V3& normal) {
  int d;
  do d = r.below(3); while (sgn(normal[d]) == 0);
  return d;
}

inline void FinishPoly(Rng& r, GenPoly& g, bool scale) {
  g.p.clear();
  for (const V3& x : g.v) g.p.push_back(scale ? MakeHomo(x, r) : MakeHomo1(x));
  g.plane = MakePlane(r, g.normal, g.v[0]);
  g.drop = RandDrop(r, g.normal);
}

// A random convex polygon with roughly n vertices.
inline GenPoly RandPoly(Rng& r, size_t n, int grid, bool collinear = true) {
  GenPoly g;
  g.frame = RandFrame(r, grid);
  g.normal = g.frame.Normal();
  std::vector<P2> p2 = RandConvex2(r, n, r.coin() ? 4 : n > 8 ? 12 : 6);
  Q scale = r.coin() ? Q(1) : MakeQ((long)r.range(1, 5), (long)r.range(1, 7));
  for (auto& p : p2) g.v.push_back(g.frame.At(Q(p.x) * scale, Q(p.y) * scale));
  if (collinear && r.chance(1, 3)) {
    // Extra vertices within edges.
    std::vector<V3> w;
    for (size_t i = 0; i < g.v.size(); ++i) {
      w.push_back(g.v[i]);
      const V3 &a = g.v[i], &b = g.v[(i + 1) % g.v.size()];
      if (r.chance(1, 3)) {
        Q t = 0;
        size_t k = 1 + r.below(2);
        for (size_t j = 0; j < k; ++j) {
          t += (Q(1) - t) * MakeQ(1, (long)r.range(2, 5));
          w.push_back(a + (b - a) * t);
        }
      }
    }
    g.v = w;
  }
  std::rotate(g.v.begin(), g.v.begin() + r.below(g.v.size()), g.v.end());
  for (size_t i = 0; i < g.v.size(); ++i) {
    const V3 &a = g.v[i], &b = g.v[(i + 1) % g.v.size()], &c = g.v[(i + 2) % g.v.size()];
    if (Cross(b - a, c - b).IsZero()) ++g.collinear;
  }
  FinishPoly(r, g, true);
  return g;
}

template <typename Poly>
inline Poly MakePoly(const GenPoly& g) {
  return Poly(g.plane, g.drop, g.p);
}
// Note that the tag of an edge is the index of its source vertex.
inline TagPoly MakeTagPoly(const GenPoly& g) {
  // Vertex constructors start the edges at the last vertex.
  TagPoly p(g.plane, g.drop, g.p);
  for (size_t i = 0; i < p.vertex_count(); ++i) {
    size_t j = 0;
    V3 v = ToV(p.vertex(i));
    while (!(g.v[j] == v)) ++j;
    p.edge(i).tag = (int)j;
  }
  return p;
}

// Are a and b the same cycle? Returns the offset, or -1.
inline long SameCycle(const std::vector<V3>& a, const std::vector<V3>& b) {
  if (a.size() != b.size()) return -1;
  if (a.empty()) return 0;
  for (size_t off = 0; off < a.size(); ++off) {
    bool ok = true;
    for (size_t i = 0; i < a.size() && ok; ++i) ok = a[i] == b[(i + off) % a.size()];
    if (ok) return (long)off;
  }
  return -1;
}

inline std::vector<V3> Reversed(std::vector<V3> v) {
  std::reverse(v.begin(), v.end());
  return v;
}

// Sutherland-Hodgman, exact. sign > 0 keeps the positive side.
inline std::vector<V3> Clip(const std::vector<V3>& v, const V3& n, const Q& d, int sign) {
  std::vector<V3> out;
  for (size_t i = 0; i < v.size(); ++i) {
    const V3 &a = v[i], &b = v[(i + 1) % v.size()];
    Q fa = (Dot(n, a) - d) * sign, fb = (Dot(n, b) - d) * sign;
    if (sgn(fa) >= 0) out.push_back(a);
    if (sgn(fa) * sgn(fb) < 0) out.push_back(a + (b - a) * (fa / (fa - fb)));
  }
  return out;
}

// A plane that splits, touches, contains or misses a polygon.
inline walnut::HalfSpace3 RandSplit(Rng& r, const GenPoly& g, int grid) {
  const std::vector<V3>& v = g.v;
  V3 centroid(0, 0, 0);
  for (auto& x : v) centroid = centroid + x;
  centroid = centroid * MakeQ(1, (long)v.size());
  auto somewhere = [&]() -> V3 {
    switch (r.below(5)) {
      case 0: case 1: return v[r.below(v.size())];
      case 2: {
        size_t i = r.below(v.size());
        return v[i] + (v[(i + 1) % v.size()] - v[i]) * MakeQ((long)r.range(0, 4), 4);
      }
      case 3: return centroid;
      default: return g.frame.At(RandCoord(r, kSmall), RandCoord(r, kSmall));
    }
  };
  V3 at = somewhere(), n;
  switch (r.below(8)) {
    case 0: {  // parallel to the polygon
      n = g.normal * Q(r.coin() ? 1 : -1);
      if (r.coin()) at = at + g.normal * RandCoord(r, kRational);
      break;
    }
    case 1: case 2: case 3: {  // through two points in the plane
      V3 to = somewhere();
      V3 out = r.coin() ? g.normal : RandV(r, kSmall);
      n = Cross(to - at, out);
      break;
    }
    case 4: {  // axis aligned
      n = V3(0, 0, 0);
      n[r.below(3)] = r.coin() ? 1 : -1;
      break;
    }
    default:
      n = ToV(RandZ3(r, grid == kHuge ? kSmall : grid, true));
  }
  if (n.IsZero()) n = V3(1, 2, -1);
  if (r.chance(1, 10)) at = at + n * MakeQ((long)r.range(-1, 1), 1000000007);
  walnut::HalfSpace3 h = MakePlane(r, n, at);
  return h;
}

// Checks the bounding box and the extreme vertices.
template <typename Poly>
inline void CheckBox(const Poly& p, const std::string& key, const std::string& in) {
  std::vector<V3> v = VerticesOf(p);
  const walnut::AABB& box = p.aabb();
  mpz_class w = Z(box.denom());
  VREQ(w > 0, key + "-denominator", in << " box " << box);
  for (int d = 0; d < 3; ++d) {
    Q lo = v[0][d], hi = v[0][d];
    for (auto& x : v) {
      lo = std::min<Q>(lo, x[d]);
      hi = std::max<Q>(hi, x[d]);
    }
    VREQ(p.min_vertex_index(d) < v.size() && v[p.min_vertex_index(d)][d] == lo, key + "-min-index",
         in << " component " << d << " index " << p.min_vertex_index(d) << " of " << S(v));
    VREQ(p.max_vertex_index(d) < v.size() && v[p.max_vertex_index(d)][d] == hi, key + "-max-index",
         in << " component " << d << " index " << p.max_vertex_index(d) << " of " << S(v));
    Q blo = MakeQ(Z(box.min_point_num().components()[d]), w), bhi = MakeQ(Z(box.max_point_num().components()[d]), w);
    Q unit = MakeQ(1, w);
    VREQ(blo <= lo && lo < blo + unit, key + "-min-bound", in << " component " << d << " box " << box << " vertices " << S(v));
    VREQ(bhi >= hi && hi > bhi - unit, key + "-max-bound", in << " component " << d << " box " << box << " vertices " << S(v));
  }
}

// The same, for polygons which may not have a box.
template <typename Poly>
inline auto MaybeCheckBox(const Poly& p, const std::string& key, int) -> decltype(p.aabb(), void()) {
  CheckBox(p, key, "output");
  Count("boxes");
}
template <typename Poly>
inline void MaybeCheckBox(const Poly&, const std::string&, long) {}

}  // namespace vf

#endif

// Exact rational geometry used by the oracles, and generators for geometry
// that is degenerate more often than chance would make it.
#ifndef VERIF_GEOM_H
#define VERIF_GEOM_H

#include "common.h"

#include "walnut/half_space2.h"
#include "walnut/half_space3.h"
#include "walnut/homo_point2.h"
#include "walnut/homo_point3.h"
#include "walnut/plucker_line.h"
#include "walnut/point2.h"
#include "walnut/point3.h"
#include "walnut/vector2.h"
#include "walnut/vector3.h"

namespace vf {

typedef mpq_class Q;

struct V2 {
  Q c[2];
  V2() {}
  V2(const Q& x, const Q& y) { c[0] = x; c[1] = y; }
  const Q& operator[](int i) const { return c[i]; }
  Q& operator[](int i) { return c[i]; }
};

struct V3 {
  Q c[3];
  V3() {}
  V3(const Q& x, const Q& y, const Q& z) { c[0] = x; c[1] = y; c[2] = z; }
  const Q& operator[](int i) const { return c[i]; }
  Q& operator[](int i) { return c[i]; }
  bool operator==(const V3& o) const { return c[0] == o.c[0] && c[1] == o.c[1] && c[2] == o.c[2]; }
  bool operator!=(const V3& o) const { return !(*this == o); }
  bool operator<(const V3& o) const {
    for (int i = 0; i < 3; ++i) {
      int k = cmp(c[i], o.c[i]);
      if (k) return k < 0;
    }
    return false;
  }
  bool IsZero() const { return sgn(c[0]) == 0 && sgn(c[1]) == 0 && sgn(c[2]) == 0; }
};

inline V3 operator+(const V3& a, const V3& b) { return V3(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
inline V3 operator-(const V3& a, const V3& b) { return V3(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
inline V3 operator*(const V3& a, const Q& k) { return V3(a[0] * k, a[1] * k, a[2] * k); }
inline Q Dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V3 Cross(const V3& a, const V3& b) {
  return V3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
}
inline Q Cross2(const V2& a, const V2& b) { return a[0] * b[1] - a[1] * b[0]; }
inline V2 operator-(const V2& a, const V2& b) { return V2(a[0] - b[0], a[1] - b[1]); }
inline V2 Drop(const V3& v, int dim) { return V2(v[(dim + 1) % 3], v[(dim + 2) % 3]); }

inline std::string S(const V3& v) {
  return "(" + v[0].get_str() + ", " + v[1].get_str() + ", " + v[2].get_str() + ")";
}
inline std::string S(const V2& v) {
  return "(" + v[0].get_str() + ", " + v[1].get_str() + ")";
}

inline Q MakeQ(const mpz_class& n, const mpz_class& d) {
  Q q(n, d);
  q.canonicalize();
  return q;
}

inline V3 ToV(const walnut::Vector3& v) { return V3(Q(Z(v.x())), Q(Z(v.y())), Q(Z(v.z()))); }
inline V3 ToV(const walnut::Point3& v) { return V3(Q(Z(v.x())), Q(Z(v.y())), Q(Z(v.z()))); }
inline V2 ToV(const walnut::Vector2& v) { return V2(Q(Z(v.x())), Q(Z(v.y()))); }
inline V2 ToV(const walnut::Point2& v) { return V2(Q(Z(v.x())), Q(Z(v.y()))); }
inline V3 ToV(const walnut::HomoPoint3& p) {
  mpz_class w = Z(p.w());
  if (w == 0) Fail("point-at-infinity", "a point has a denominator of zero");
  return V3(MakeQ(Z(p.x()), w), MakeQ(Z(p.y()), w), MakeQ(Z(p.z()), w));
}
inline V2 ToV(const walnut::HomoPoint2& p) {
  mpz_class w = Z(p.w());
  if (w == 0) Fail("point-at-infinity", "a point has a denominator of zero");
  return V2(MakeQ(Z(p.x()), w), MakeQ(Z(p.y()), w));
}
// The sign of the plane's value at a point.
inline int Side(const walnut::HalfSpace3& h, const V3& p) {
  Q v = Dot(ToV(h.normal()), p) - Q(Z(h.d()));
  return sgn(v);
}
inline Q Value(const walnut::HalfSpace3& h, const V3& p) {
  return Dot(ToV(h.normal()), p) - Q(Z(h.d()));
}

inline walnut::Vector3 MakeVec(const mpz_class& x, const mpz_class& y, const mpz_class& z) {
  return walnut::Vector3(B(x), B(y), B(z));
}
inline walnut::Point3 MakePoint(const mpz_class& x, const mpz_class& y, const mpz_class& z) {
  return walnut::Point3(B(x), B(y), B(z));
}

// A random nonzero scale for a homogeneous representation.
inline mpz_class RandScale(Rng& r) {
  mpz_class k;
  switch (r.below(8)) {
    case 0: case 1: case 2: k = 1; break;
    case 3: k = (long)r.range(2, 7); break;
    case 4: k = 1; k <<= r.below(70); break;
    case 5: k = (long)r.range(1, 1000000); break;
    default: k = 1;
  }
  if (r.chance(1, 3)) k = -k;
  return k;
}

inline mpz_class CommonDenom(const V3& v) {
  mpz_class l = v[0].get_den();
  for (int i = 1; i < 3; ++i) {
    mpz_class t;
    mpz_lcm(t.get_mpz_t(), l.get_mpz_t(), v[i].get_den().get_mpz_t());
    l = t;
  }
  return l;
}

// A homogeneous representation of v, with a denominator of either sign.
inline walnut::HomoPoint3 MakeHomoScaled(const V3& v, const mpz_class& scale) {
  mpz_class w = CommonDenom(v) * scale;
  Q x = v[0] * w, y = v[1] * w, z = v[2] * w;
  return walnut::HomoPoint3(B(x.get_num()), B(y.get_num()), B(z.get_num()), B(w));
}
inline walnut::HomoPoint3 MakeHomo(const V3& v, Rng& r) {
  return MakeHomoScaled(v, RandScale(r));
}
inline walnut::HomoPoint3 MakeHomo1(const V3& v) {
  return MakeHomoScaled(v, 1);
}

// Which coordinates a case draws from.
enum Grid { kTiny, kSmall, kRational, kMedium, kWord, kHuge, kGridCount };

inline Q RandCoord(Rng& r, int grid) {
  switch (grid) {
    case kTiny: return Q((long)r.range(-2, 2));
    case kSmall: return Q((long)r.range(-9, 9));
    case kRational: return MakeQ((long)r.range(-12, 12), (long)r.range(1, 6));
    case kMedium: return Q((long)r.range(-100000, 100000));
    case kWord: return Q(RandZ(r, 64));
    default: return MakeQ(RandZ(r, 130), abs(RandZ(r, 70)) + 1);
  }
}

inline V3 RandV(Rng& r, int grid) {
  return V3(RandCoord(r, grid), RandCoord(r, grid), RandCoord(r, grid));
}

// Integer vectors.
inline mpz_class RandInt3(Rng& r, int grid) {
  switch (grid) {
    case kTiny: return (long)r.range(-1, 1);
    case kSmall: case kRational: return (long)r.range(-5, 5);
    case kMedium: return (long)r.range(-100000, 100000);
    case kWord: return RandZ(r, 64);
    default: return RandZ(r, 140);
  }
}

struct Z3 {
  mpz_class c[3];
  const mpz_class& operator[](int i) const { return c[i]; }
  mpz_class& operator[](int i) { return c[i]; }
  bool IsZero() const { return c[0] == 0 && c[1] == 0 && c[2] == 0; }
};
inline Z3 RandZ3(Rng& r, int grid, bool nonzero) {
  Z3 v;
  do {
    for (int i = 0; i < 3; ++i) v[i] = r.chance(1, 5) ? mpz_class(0) : RandInt3(r, grid);
  } while (nonzero && v.IsZero());
  return v;
}
inline walnut::Vector3 MakeVec(const Z3& v) { return MakeVec(v[0], v[1], v[2]); }
inline V3 ToV(const Z3& v) { return V3(Q(v[0]), Q(v[1]), Q(v[2])); }

inline int RandGrid(Rng& r) {
  static const int kGrids[] = {kTiny, kTiny, kSmall, kSmall, kRational, kRational,
                               kMedium, kWord, kHuge};
  return kGrids[r.below(9)];
}

// Same direction: a positive multiple.
inline bool SameDir(const V3& a, const V3& b) {
  return Cross(a, b).IsZero() && sgn(Dot(a, b)) > 0;
}

inline uint64_t HashQ(const Q& q) {
  return Mix(mpz_get_ui(q.get_num().get_mpz_t()) * 2 + (sgn(q) < 0),
             mpz_get_ui(q.get_den().get_mpz_t()));
}
inline uint64_t HashV(const V3& v) {
  return Mix(Mix(HashQ(v[0]), HashQ(v[1])), HashQ(v[2]));
}

// ---------------------------------------------------------------------------
// Polygons

inline std::string S(const std::vector<V3>& p) {
  std::string o = "[";
  for (const V3& v : p) o += S(v) + " ";
  return o + "]";
}

// Twice the vector area.
inline V3 VecArea(const std::vector<V3>& p) {
  V3 a(0, 0, 0);
  for (size_t i = 1; i + 1 < p.size(); ++i) {
    a = a + Cross(p[i] - p[0], p[i + 1] - p[0]);
  }
  return a;
}

template <typename Poly>
inline std::vector<V3> VerticesOf(const Poly& p) {
  std::vector<V3> out;
  for (size_t i = 0; i < p.vertex_count(); ++i) out.push_back(ToV(p.vertex(i)));
  return out;
}

// Strictly between the ends of a segment, or on them.
inline bool OnSegment(const V3& p, const V3& a, const V3& b) {
  if (!Cross(b - a, p - a).IsZero()) return false;
  Q t = Dot(b - a, p - a);
  return sgn(t) >= 0 && cmp(t, Dot(b - a, b - a)) <= 0;
}

// Is p inside or on a convex polygon (collinear vertices allowed)?
inline bool InConvex(const V3& p, const std::vector<V3>& poly, const V3& normal) {
  if (poly.size() < 3) return false;
  if (sgn(Dot(normal, p - poly[0])) != 0) return false;
  for (size_t i = 0; i < poly.size(); ++i) {
    const V3& a = poly[i];
    const V3& b = poly[(i + 1) % poly.size()];
    if (sgn(Dot(normal, Cross(b - a, p - a))) < 0) return false;
  }
  return true;
}

// Everything a nonempty convex polygon must satisfy: planar, counter-clockwise
// about its plane normal, convex, no repeated vertices, and edge lines that
// match the vertices.
template <typename Poly>
inline std::vector<V3> CheckPolygon(const Poly& p, const std::string& key) {
  std::vector<V3> v = VerticesOf(p);
  const size_t n = v.size();
  VREQ(n >= 3, key + "-vertex-count", "polygon with " << n << " vertices");
  const V3 normal = ToV(p.plane().normal());
  VREQ(!normal.IsZero(), key + "-normal", "zero normal");
  VREQ(p.drop_dimension() >= 0 && p.drop_dimension() < 3 &&
       sgn(normal[p.drop_dimension()]) != 0, key + "-drop-dimension",
       "drop dimension " << p.drop_dimension() << " normal " << S(normal));
  for (size_t i = 0; i < n; ++i) {
    VREQ(Side(p.plane(), v[i]) == 0, key + "-not-planar",
         "vertex " << i << " of " << S(v) << " is not on " << p.plane());
    const V3 d = v[(i + 1) % n] - v[i];
    VREQ(!d.IsZero(), key + "-zero-edge", S(v));
    const walnut::PluckerLine& line = p.edge(i).line();
    V3 ld = ToV(line.d()), lm = ToV(line.m());
    VREQ(SameDir(ld, d), key + "-edge-direction",
         "edge " << i << " of " << S(v) << " has line direction " << S(ld));
    VREQ(Cross(v[i], ld) == lm, key + "-edge-line",
         "edge " << i << " of " << S(v) << " has line " << line);
    for (size_t j = 0; j < n; ++j) {
      Q side = Dot(normal, Cross(d, v[j] - v[i]));
      VREQ(sgn(side) >= 0, key + "-not-convex",
           "vertex " << j << " is outside of edge " << i << " of " << S(v)
           << " normal " << S(normal));
      VREQ(j == i || v[j] != v[i], key + "-repeated-vertex", S(v));
    }
  }
  V3 area = VecArea(v);
  VREQ(sgn(Dot(area, normal)) > 0, key + "-orientation", S(v) << " normal " << S(normal));
  return v;
}

template <typename T>
inline std::string Str(const T& v) {
  std::ostringstream o;
  o << v;
  return o.str();
}

}  // namespace vf

#endif

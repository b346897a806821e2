// G01..G06: rationals, orderings, predicates and constructions on points,
// lines and planes, boxes, and the shear comparison.
#include "geom.h"

#include "walnut/aabb.h"
#include "walnut/convex_polygon_edge.h"
#include "walnut/half_space2_sideless_compare.h"
#include "walnut/r_transformation.h"
#include "walnut/rational.h"

using namespace walnut;
using namespace vf;

// ---------------------------------------------------------------------------
// G01: rationals

static mpz_class NonZero(Rng& r, size_t bits) {
  while (true) {
    mpz_class v = RandZ(r, bits);
    if (v != 0) return v;
  }
}

static mpz_class FloorQ(const Q& q) {
  mpz_class f;
  mpz_fdiv_q(f.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t());
  return f;
}
static mpz_class CeilQ(const Q& q) {
  mpz_class f;
  mpz_cdiv_q(f.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t());
  return f;
}

PROPERTY(G01) {
  size_t bits = r.pick(std::vector<size_t>{4, 8, 40, 63, 64, 65, 130, 260});
  mpz_class n = RandZ(r, bits), od = NonZero(r, bits), nd = NonZero(r, bits);
  if (r.chance(1, 5)) n = od * RandZ(r, 70);  // exact
  if (r.chance(1, 8)) nd = od;
  if (r.chance(1, 8)) nd = -od;
  if (r.chance(1, 8)) nd = od * NonZero(r, 20);
  const Q exact = MakeQ(n, od);
  const BigInt bn = B(n), bod = B(od), bnd = B(nd);
  std::string in = S(n) + " / " + S(od) + " over " + S(nd);
  // The value scaled by |nd|, rounded, with the sign of nd put back.
  const Q scaled = exact * Q(abs(nd));
  mpz_class up = CeilQ(scaled), down = FloorQ(scaled);
  if (nd < 0) { up = -up; down = -down; }
  mpz_class got_up = Z(rational::RoundUp(bn, bod, bnd));
  mpz_class got_down = Z(rational::RoundDown(bn, bod, bnd));
  VREQ(got_up == up, "round-up", in << " gave " << S(got_up) << " expected " << S(up));
  VREQ(got_down == down, "round-down", in << " gave " << S(got_down) << " expected " << S(down));
  Count(up == down ? "exact" : "inexact");
  if (sgn(n) != 0 && bits > 8) NonTrivial();
  Observe(HashQ(exact));
  Observe(S(nd));

  // Comparison, with values that are often equal or differ by little.
  mpz_class n2, d2;
  switch (r.below(4)) {
    case 0: n2 = RandZ(r, bits); d2 = NonZero(r, bits); break;
    case 1: { mpz_class k = NonZero(r, 80); n2 = n * k; d2 = od * k; break; }
    case 2: { mpz_class k = NonZero(r, 80); n2 = n * k + r.range(-1, 1); d2 = od * k; break; }
    default: { mpz_class k = NonZero(r, 80); n2 = n * k; d2 = od * k + r.range(-1, 1);
               if (d2 == 0) d2 = 1; }
  }
  const int c = cmp(exact, MakeQ(n2, d2));
  VREQ(rational::IsLessThan(bn, bod, B(n2), B(d2)) == (c < 0), "less-than",
       S(n) << "/" << S(od) << " < " << S(n2) << "/" << S(d2));
  VREQ(rational::IsLessThan(B(n2), B(d2), bn, bod) == (c > 0), "less-than",
       S(n2) << "/" << S(d2) << " < " << S(n) << "/" << S(od));
  VREQ(rational::Equals(bn, bod, B(n2), B(d2)) == (c == 0), "equals",
       S(n) << "/" << S(od) << " == " << S(n2) << "/" << S(d2));
  Count(c == 0 ? "cmp_equal" : "cmp_differ");
  if (c != 0 && cmp(abs(exact - MakeQ(n2, d2)), MakeQ(1, 1000000)) < 0) Count("cmp_close");
  if (WantSample()) Sample("round " + in + " -> up " + S(up) + " down " + S(down));
}

// ---------------------------------------------------------------------------
// G02: orderings

// Checks that less is the given three way order.
static void CheckOrder(const std::string& key, size_t n,
                       const std::function<bool(size_t, size_t)>& less,
                       const std::function<int(size_t, size_t)>& want,
                       const std::function<std::string(size_t)>& str) {
  for (size_t i = 0; i < n; ++i) {
    for (size_t j = 0; j < n; ++j) {
      const bool l = less(i, j);
      const int w = want(i, j);
      VREQ(l == (w < 0), key, str(i) << " < " << str(j) << " gave " << l << " expected order " << w);
      Count("pairs");
      if (i != j && w == 0) Count("equal_pairs");
    }
  }
}

// Checks that less is a strict weak order whose equivalence is `same`.
static void CheckWeakOrder(const std::string& key, size_t n,
                           const std::function<bool(size_t, size_t)>& less,
                           const std::function<bool(size_t, size_t)>& same,
                           const std::function<std::string(size_t)>& str) {
  std::vector<char> m(n * n);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j) m[i * n + j] = less(i, j);
  for (size_t i = 0; i < n; ++i) {
    for (size_t j = 0; j < n; ++j) {
      const bool a = m[i * n + j], b = m[j * n + i];
      VREQ(!(a && b), key + "-asymmetry", str(i) << " and " << str(j) << " are both less");
      VREQ((!a && !b) == same(i, j), key + "-equivalence",
           str(i) << " and " << str(j) << " compare " << (a ? "less" : b ? "greater" : "equivalent"));
      Count("pairs");
      if (i != j && same(i, j)) Count("equal_pairs");
      for (size_t k = 0; k < n; ++k) {
        VREQ(!(a && m[j * n + k]) || m[i * n + k], key + "-transitivity",
             str(i) << " < " << str(j) << " < " << str(k));
        Count("triples");
      }
    }
  }
}

// Points that share coordinates with each other far more than chance.
static std::vector<V3> RelatedPoints(Rng& r, size_t n, int grid) {
  std::vector<V3> out;
  for (size_t i = 0; i < n; ++i) {
    V3 v = RandV(r, grid);
    if (!out.empty()) {
      const V3& o = out[r.below(out.size())];
      for (int k = 0; k < 3; ++k) {
        if (r.chance(1, 2)) v[k] = o[k];
        else if (r.chance(1, 3)) v[k] = o[k] + MakeQ((long)r.range(-1, 1), NonZero(r, 70));
      }
    }
    out.push_back(v);
  }
  return out;
}

static int Lex(const V3& a, const V3& b, bool reverse) {
  for (int i = 0; i < 3; ++i) {
    int k = reverse ? 2 - i : i;
    int c = cmp(a[k], b[k]);
    if (c) return c < 0 ? -1 : 1;
  }
  return 0;
}

// 0 for [0, pi), 1 for [pi, 2 pi)
static int Half(const V2& v) {
  if (sgn(v[1]) != 0) return sgn(v[1]) < 0;
  return sgn(v[0]) < 0;
}
static V2 Neg(const V2& v) { return V2(-v[0], -v[1]); }
static int CmpHalfRotation(V2 a, V2 b) {
  if (Half(a)) a = Neg(a);
  if (Half(b)) b = Neg(b);
  return -sgn(Cross2(a, b));
}
static int CmpRotation(const V2& a, const V2& b) {
  if (Half(a) != Half(b)) return Half(a) - Half(b);
  return -sgn(Cross2(a, b));
}

struct Z2 { mpz_class x, y; };

static std::vector<Z2> RelatedVectors2(Rng& r, size_t n, int grid) {
  std::vector<Z2> out;
  while (out.size() < n) {
    Z2 v{r.chance(1, 4) ? mpz_class(0) : RandInt3(r, grid),
         r.chance(1, 4) ? mpz_class(0) : RandInt3(r, grid)};
    if (!out.empty() && r.coin()) {
      const Z2& o = out[r.below(out.size())];
      mpz_class k = NonZero(r, r.coin() ? 3 : 70);
      v.x = o.x * k;
      v.y = o.y * k;
      if (r.chance(1, 3)) v.x += (long)r.range(-1, 1);
      if (r.chance(1, 3)) v.y += (long)r.range(-1, 1);
      if (r.chance(1, 5)) std::swap(v.x, v.y);
      if (r.chance(1, 5)) v.x = -v.x;
    }
    if (v.x != 0 || v.y != 0) out.push_back(v);
  }
  return out;
}

PROPERTY(G02) {
  const int grid = RandGrid(r);
  const size_t n = 6;
  Observe(grid);
  NonTrivial();
  {
    std::vector<V3> v = RelatedPoints(r, n, grid);
    for (size_t i = 0; i < n; ++i) Observe(HashV(v[i]));
    std::vector<HomoPoint3> p;
    std::vector<HomoPoint2> p2;
    int drop = r.below(3);
    for (auto& x : v) p.push_back(MakeHomo(x, r));
    for (auto& x : p) {
      p2.push_back(x.DropDimension(drop));
      if (x.w().GetSign() < 0) Count("negative_denominators");
    }
    auto str = [&](size_t i) { return Str(p[i]); };
    CheckOrder("homo3-lex", n, [&](size_t i, size_t j) { return HomoPoint3::LexicographicallyLt(p[i], p[j]); },
               [&](size_t i, size_t j) { return Lex(v[i], v[j], false); }, str);
    CheckOrder("homo3-topness", n, [&](size_t i, size_t j) { return HomoPoint3::TopnessLt(p[i], p[j]); },
               [&](size_t i, size_t j) { return Lex(v[i], v[j], true); }, str);
    CheckOrder("homo2-lex", n, [&](size_t i, size_t j) { return HomoPoint2::LexicographicallyLt(p2[i], p2[j]); },
               [&](size_t i, size_t j) {
                 V2 a = Drop(v[i], drop), b = Drop(v[j], drop);
                 int c = cmp(a[0], b[0]);
                 if (!c) c = cmp(a[1], b[1]);
                 return SgnI(c);
               }, [&](size_t i) { return Str(p2[i]); });
    for (int k = 0; k < 3; ++k) {
      CheckOrder("component-order", n, [&](size_t i, size_t j) { return p[i].IsLessThanComponent(k, p[j]); },
                 [&](size_t i, size_t j) { return SgnI(cmp(v[i][k], v[j][k])); }, str);
      for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        const int w = SgnI(cmp(v[i][k], v[j][k]));
        VREQ(SgnI(p[i].CompareComponent(k, p[j])) == w, "component-compare", str(i) << " vs " << str(j) << " component " << k);
        VREQ(p[i].IsEquivalentComponent(k, p[j]) == (w == 0), "component-equivalent", str(i) << " vs " << str(j) << " component " << k);
      }
    }
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
      VREQ((p[i] == p[j]) == (v[i] == v[j]), "homo3-equal", str(i) << " vs " << str(j));
      VREQ((p[i] != p[j]) == (v[i] != v[j]), "homo3-not-equal", str(i) << " vs " << str(j));
      V2 a = Drop(v[i], drop), b = Drop(v[j], drop);
      bool eq = a[0] == b[0] && a[1] == b[1];
      VREQ((p2[i] == p2[j]) == eq, "homo2-equal", p2[i] << " vs " << p2[j]);
      VREQ((p2[i] != p2[j]) != eq, "homo2-not-equal", p2[i] << " vs " << p2[j]);
    }
    // Reduced points are strictly equal, with equal hashes, iff they are the
    // same point.
    std::vector<HomoPoint3> red = p;
    for (auto& x : red) x.Reduce();
    for (size_t i = 0; i < n; ++i) {
      VREQ(ToV(red[i]) == v[i], "reduce-value", str(i) << " reduced to " << red[i]);
      VREQ(Z(red[i].w()) == CommonDenom(v[i]), "reduce-lowest", str(i) << " reduced to " << red[i]);
      for (size_t j = 0; j < n; ++j) {
        VREQ(HomoPoint3StrictEq()(red[i], red[j]) == (v[i] == v[j]), "strict-eq", red[i] << " vs " << red[j]);
        if (v[i] == v[j]) {
          VREQ(ReducedHomoPoint3Hasher()(red[i]) == ReducedHomoPoint3Hasher()(red[j]), "hash", red[i] << " vs " << red[j]);
        }
      }
    }
  }
  {
    // Integer points.
    std::vector<Z3> z;
    for (size_t i = 0; i < n; ++i) {
      z.push_back(RandZ3(r, grid, false));
      if (i) for (int k = 0; k < 3; ++k) if (r.coin()) z[i][k] = z[r.below(i)][k] + (long)r.below(2);
    }
    std::vector<Point3> p;
    for (auto& x : z) p.push_back(MakePoint(x[0], x[1], x[2]));
    auto str = [&](size_t i) { return Str(p[i]); };
    CheckOrder("point3-lex", n, [&](size_t i, size_t j) { return Point3::LexicographicallyLt(p[i], p[j]); },
               [&](size_t i, size_t j) { return Lex(ToV(z[i]), ToV(z[j]), false); }, str);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
      HomoPoint3 h = MakeHomo(ToV(z[j]), r);
      bool same = ToV(z[i]) == ToV(z[j]);
      VREQ((p[i] == p[j]) == same && (p[i] != p[j]) == !same, "point3-equal", str(i) << " vs " << str(j));
      VREQ((h == p[i]) == same && (h != p[i]) == !same && (p[i] == h) == same, "point3-homo-equal", str(i) << " vs " << h);
      for (int k = 0; k < 3; ++k) {
        VREQ(SgnI(p[i].CompareComponent(k, p[j])) == SgnI(cmp(z[i][k], z[j][k])), "point3-component", str(i) << " vs " << str(j));
        VREQ(p[i].IsEquivalentComponent(k, p[j]) == (z[i][k] == z[j][k]), "point3-component-eq", str(i) << " vs " << str(j));
      }
    }
  }
  {
    std::vector<Z2> z = RelatedVectors2(r, n, grid);
    std::vector<V2> v;
    std::vector<Vector2> w;
    for (auto& x : z) {
      v.push_back(V2(Q(x.x), Q(x.y)));
      w.push_back(Vector2(B(x.x), B(x.y)));
    }
    auto str = [&](size_t i) { return Str(w[i]); };
    CheckOrder("half-rotation", n, [&](size_t i, size_t j) { return Vector2::HalfRotationCompare()(w[i], w[j]); },
               [&](size_t i, size_t j) { return CmpHalfRotation(v[i], v[j]); }, str);
    CheckOrder("rotation", n, [&](size_t i, size_t j) { return Vector2::RotationCompare()(w[i], w[j]); },
               [&](size_t i, size_t j) { return CmpRotation(v[i], v[j]); }, str);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
      bool par = sgn(Cross2(v[i], v[j])) == 0;
      bool same = par && sgn(Q(v[i][0] * v[j][0] + v[i][1] * v[j][1])) > 0;
      VREQ(w[i].IsSameDir(w[j]) == same, "vector2-same-dir", str(i) << " vs " << str(j));
      VREQ(w[i].IsSameOrOppositeDir(w[j]) == par, "vector2-same-or-opposite", str(i) << " vs " << str(j));
      if (par && !same) Count("opposite_vectors");
    }
    // 2D lines.
    std::vector<HalfSpace2> h;
    std::vector<Q> d;
    for (size_t i = 0; i < n; ++i) {
      mpz_class dist = r.chance(1, 4) ? mpz_class(0) : RandInt3(r, grid);
      if (i && r.coin()) {
        // The same line as an earlier one, or one close to it.
        size_t j = r.below(i);
        mpz_class k = NonZero(r, r.coin() ? 3 : 70);
        z[i].x = z[j].x * k;
        z[i].y = z[j].y * k;
        dist = d[j].get_num() * k + (r.coin() ? 0 : (long)r.range(-1, 1));
      }
      v[i] = V2(Q(z[i].x), Q(z[i].y));
      d.push_back(Q(dist));
      h.push_back(HalfSpace2(B(z[i].x), B(z[i].y), B(dist)));
    }
    auto same_line = [&](size_t i, size_t j) {
      return sgn(Cross2(v[i], v[j])) == 0 && v[i][0] * d[j] == v[j][0] * d[i] &&
             v[i][1] * d[j] == v[j][1] * d[i];
    };
    auto hstr = [&](size_t i) { return Str(h[i]); };
    CheckWeakOrder("sideless", n, [&](size_t i, size_t j) { return HalfSpace2SidelessCompare()(h[i], h[j]); },
                   same_line, hstr);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
      bool sl = same_line(i, j);
      bool same = sl && sgn(Q(v[i][0] * v[j][0] + v[i][1] * v[j][1])) > 0;
      VREQ(h[i].HasSameLine(h[j]) == sl, "same-line", hstr(i) << " vs " << hstr(j));
      VREQ((h[i] == h[j]) == same, "half-space2-equal", hstr(i) << " vs " << hstr(j));
      VREQ((h[i] != h[j]) == !same, "half-space2-not-equal", hstr(i) << " vs " << hstr(j));
      if (sl && i != j) Count("same_line_pairs");
    }
  }
  {
    // Vectors, planes and lines in 3D.
    std::vector<Z3> z;
    std::vector<mpz_class> d;
    std::vector<HalfSpace3> h;
    std::vector<PluckerLine> l;
    std::vector<V3> ld, lm;
    for (size_t i = 0; i < n; ++i) {
      Z3 a = RandZ3(r, grid, true);
      mpz_class dist = r.chance(1, 4) ? mpz_class(0) : RandInt3(r, grid);
      if (r.chance(1, 4)) {
        // Normals whose components cancel.
        a[2] = -a[0] - a[1];
        if (a.IsZero()) a[0] = 1;
      }
      V3 base = RandV(r, grid);
      Q t = RandCoord(r, kSmall);
      if (i && r.coin()) {
        size_t j = r.below(i);
        mpz_class k = NonZero(r, r.coin() ? 3 : 70);
        for (int c = 0; c < 3; ++c) a[c] = z[j][c] * k;
        dist = d[j] * k;
        if (r.chance(1, 3)) dist += (long)r.range(-1, 1);
        if (r.chance(1, 4)) a[r.below(3)] += (long)r.range(-1, 1);
        if (a.IsZero()) a[1] = 1;
      }
      z.push_back(a);
      d.push_back(dist);
      h.push_back(HalfSpace3(MakeVec(a), B(dist)));
      // A line in direction a through a point that is often on an earlier
      // line.
      if (i && r.coin()) {
        size_t j = r.below(i);
        // lm = p x ld, recover some p = (ld x lm) / |ld|^2.
        base = Cross(ld[j], lm[j]) * (Q(1) / Dot(ld[j], ld[j])) + ld[j] * t;
      }
      HomoPoint3 p1 = MakeHomo(base, r), p2 = MakeHomo(base + ToV(a), r);
      l.push_back(PluckerLine(p1, p2));
      ld.push_back(ToV(l[i].d()));
      lm.push_back(ToV(l[i].m()));
      VREQ(SameDir(ld[i], ToV(a)) && Cross(base, ld[i]) == lm[i], "plucker-from-points",
           p1 << " -> " << p2 << " gave " << l[i]);
    }
    auto str = [&](size_t i) { return Str(h[i]); };
    auto same_plane = [&](size_t i, size_t j, bool sided) {
      V3 a = ToV(z[i]), b = ToV(z[j]);
      if (!Cross(a, b).IsZero()) return false;
      for (int c = 0; c < 3; ++c) if (a[c] * Q(d[j]) != b[c] * Q(d[i])) return false;
      return !sided || sgn(Dot(a, b)) > 0;
    };
    CheckWeakOrder("half-space3-order", n, [&](size_t i, size_t j) { return HalfSpace3Compare()(h[i], h[j]); },
                   [&](size_t i, size_t j) { return same_plane(i, j, true); }, str);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
      bool sided = same_plane(i, j, true), either = same_plane(i, j, false);
      VREQ((h[i] == h[j]) == sided && (h[i] != h[j]) == !sided, "half-space3-equal", str(i) << " vs " << str(j));
      VREQ(h[i].IsSameOrOpposite(h[j]) == either, "half-space3-same-or-opposite", str(i) << " vs " << str(j));
      V3 a = ToV(z[i]), b = ToV(z[j]);
      VREQ(h[i].normal().IsSameDir(h[j].normal()) == SameDir(a, b), "vector3-same-dir", str(i) << " vs " << str(j));
      VREQ(h[i].normal().IsSameOrOppositeDir(h[j].normal()) == Cross(a, b).IsZero(), "vector3-same-or-opposite", str(i) << " vs " << str(j));
      bool same_l = SameDir(ld[i], ld[j]);
      if (same_l) {
        // The moments must scale the same way.
        Q k = Dot(ld[j], ld[i]) / Dot(ld[i], ld[i]);
        same_l = lm[i] * k == lm[j];
      }
      VREQ((l[i] == l[j]) == same_l && (l[i] != l[j]) == !same_l, "plucker-equal", l[i] << " vs " << l[j]);
      if (same_l && i != j) Count("same_3d_line_pairs");
      if (either && i != j) Count("same_plane_pairs");
    }
    if (WantSample()) Sample("planes ordered: " + str(0) + " ; " + str(1) + " ; " + str(2));
  }
}

// ---------------------------------------------------------------------------
// G03: predicates

static int Twist(const V2& center, const V2& p1, const V2& p3) {
  return sgn(Cross2(p1 - center, p3 - center));
}

// A point on, or extremely close to, the plane with this normal through base.
static V3 NearPlane(Rng& r, const V3& base, const V3& normal, int grid) {
  V3 a = Cross(normal, RandV(r, grid));
  V3 p = base + a * RandCoord(r, kRational);
  switch (r.below(4)) {
    case 0: return p;
    case 1: return p;
    case 2: {
      Q eps = MakeQ(r.coin() ? 1 : -1, NonZero(r, 150));
      p[r.below(3)] += eps;
      return p;
    }
    default: return RandV(r, grid);
  }
}

PROPERTY(G03) {
  const int grid = RandGrid(r);
  Observe(grid);
  NonTrivial();
  for (int rep = 0; rep < 3; ++rep) {
    // Planes and points.
    Z3 nz = RandZ3(r, grid, true);
    V3 nv = ToV(nz);
    V3 base;
    mpz_class dist;
    if (r.coin()) {
      // An integer base point on the plane.
      Z3 b = RandZ3(r, grid, false);
      base = ToV(b);
      dist = nz[0] * b[0] + nz[1] * b[1] + nz[2] * b[2];
    } else {
      dist = RandInt3(r, grid);
      base = nv * (Q(dist) / Dot(nv, nv));
    }
    HalfSpace3 h(MakeVec(nz), B(dist));
    for (int k = 0; k < 4; ++k) {
      V3 p = NearPlane(r, base, nv, grid);
      HomoPoint3 hp = MakeHomo(p, r);
      const int want = sgn(Q(Dot(nv, p) - Q(dist)));
      VREQ(SgnI(h.Compare(hp)) == want, "plane-side-homo", h << " vs " << hp << " expected " << want);
      VREQ(h.IsCoincident(hp) == (want == 0), "plane-coincident-homo", h << " vs " << hp);
      Count(want == 0 ? "on_plane" : "off_plane");
      if (hp.w().GetSign() < 0) Count("negative_denominators");
      if (p[0].get_den() == 1 && p[1].get_den() == 1 && p[2].get_den() == 1) {
        Point3 ip = MakePoint(p[0].get_num(), p[1].get_num(), p[2].get_num());
        VREQ(SgnI(h.Compare(ip)) == want, "plane-side", h << " vs " << ip << " expected " << want);
        VREQ(h.IsCoincident(ip) == (want == 0), "plane-coincident", h << " vs " << ip);
        Count("integer_points");
      }
      Observe(HashV(p));
    }
    // A parallel plane.
    {
      mpz_class k = NonZero(r, 40);
      mpz_class d2 = dist * k + (r.chance(1, 3) ? mpz_class(0) : (r.coin() ? mpz_class((long)r.range(-1, 1)) : RandInt3(r, grid)));
      HalfSpace3 o(MakeVec(nz[0] * k, nz[1] * k, nz[2] * k), B(d2));
      int dim = 0;
      while (nz[dim] == 0) ++dim;
      bool coplanar = d2 == dist * k;
      const int c = SgnI(h.Compare(o, dim));
      VREQ((c == 0) == coplanar, "parallel-planes-coplanar", h << " vs " << o);
      // Which plane is further along this half-space's normal.
      Q mine = Q(dist), other = MakeQ(d2, k);
      VREQ(c == SgnI(cmp(mine, other)) * sgn(nz[dim]) * sgn(nz[dim]), "parallel-planes-side", h << " vs " << o << " gave " << c);
    }
    // Lines.
    {
      V3 dir = Cross(nv, RandV(r, grid));
      if (!dir.IsZero()) {
        V3 p1 = base + Cross(nv, RandV(r, kSmall));
        V3 p2 = p1 + dir * RandCoord(r, kRational);
        bool on = true;
        if (p1 == p2) p2 = p1 + dir;
        if (r.chance(1, 2)) {
          (r.coin() ? p1 : p2)[r.below(3)] += MakeQ(r.coin() ? 1 : -1, NonZero(r, 90));
          if (p1 == p2) p2 = p1 + dir;
        }
        on = sgn(Q(Dot(nv, p1) - Q(dist))) == 0 && sgn(Q(Dot(nv, p2) - Q(dist))) == 0;
        HomoPoint3 h1 = MakeHomo(p1, r), h2 = MakeHomo(p2, r);
        PluckerLine line(h1, h2);
        VREQ(line.IsValid(), "line-valid", h1 << " " << h2);
        VREQ(line.IsCoincident(h) == on, "line-plane-coincident", line << " vs " << h);
        Count(on ? "line_on_plane" : "line_off_plane");
        for (int k = 0; k < 3; ++k) {
          V3 p = p1 + (p2 - p1) * RandCoord(r, kRational);
          if (r.coin()) p[r.below(3)] += MakeQ(r.coin() ? 1 : -1, NonZero(r, 120));
          bool onl = Cross(p - p1, p2 - p1).IsZero();
          HomoPoint3 hp = MakeHomo(p, r);
          VREQ(line.IsCoincident(hp) == onl, "line-point-coincident", line << " vs " << hp);
          if (p[0].get_den() == 1 && p[1].get_den() == 1 && p[2].get_den() == 1) {
            Point3 ip = MakePoint(p[0].get_num(), p[1].get_num(), p[2].get_num());
            VREQ(line.IsCoincident(ip) == onl, "line-point-coincident", line << " vs " << ip);
          }
          Count(onl ? "point_on_line" : "point_off_line");
          HomoPoint3 c1 = MakeHomo(p1, r), c3 = MakeHomo(p2, r);
          for (int drop = 0; drop < 3; ++drop) {
            const int want = Twist(Drop(p, drop), Drop(p1, drop), Drop(p2, drop));
            BigIntWord t = hp.Get2DTwistDir(drop, c1, c3);
            VREQ((t > 0) - (t < 0) == want, "twist-homo", "drop " << drop << " center " << hp << " p1 " << c1 << " p3 " << c3 << " expected " << want);
            VREQ(hp.Get2DTwistDirReduced(drop, c1, c3) == want, "twist-homo-reduced", "drop " << drop << " center " << hp << " p1 " << c1 << " p3 " << c3 << " expected " << want);
            Count(want == 0 ? "twist_zero" : want > 0 ? "twist_ccw" : "twist_cw");
            int neg = (c1.w().GetSign() < 0) + (c3.w().GetSign() < 0);
            if (neg == 1) Count("twist_one_negative_denominator");
          }
        }
      }
    }
    // Integer twists.
    {
      Z3 a = RandZ3(r, grid, false), b = RandZ3(r, grid, false), c;
      mpz_class k = RandInt3(r, kSmall);
      for (int i = 0; i < 3; ++i) c[i] = a[i] + (b[i] - a[i]) * k + (r.chance(1, 3) ? (long)r.range(-1, 1) : 0);
      Point3 pa = MakePoint(a[0], a[1], a[2]), pb = MakePoint(b[0], b[1], b[2]), pc = MakePoint(c[0], c[1], c[2]);
      for (int drop = 0; drop < 3; ++drop) {
        const int want = Twist(Drop(ToV(a), drop), Drop(ToV(b), drop), Drop(ToV(c), drop));
        BigIntWord t = pa.Get2DTwistDir(drop, pb, pc);
        VREQ((t > 0) - (t < 0) == want, "twist", "drop " << drop << " " << pa << " " << pb << " " << pc);
        VREQ(pa.Get2DTwistDirReduced(drop, pb, pc) == want, "twist-reduced", "drop " << drop << " " << pa << " " << pb << " " << pc);
        HalfSpace2 l2(pa.DropDimension(drop), pb.DropDimension(drop));
        // The positive side is counter-clockwise of the line from a to b.
        VREQ(SgnI(l2.Compare(pc.DropDimension(drop))) == want, "half-space2-side", l2 << " vs " << pc);
        VREQ(l2.IsCoincident(pc.DropDimension(drop)) == (want == 0), "half-space2-coincident", l2 << " vs " << pc);
        HomoPoint3 hc = MakeHomo(ToV(c), r);
        VREQ(SgnI(l2.Compare(hc.DropDimension(drop))) == want, "half-space2-side-homo", l2 << " vs " << hc);
        VREQ(l2.IsCoincident(hc.DropDimension(drop)) == (want == 0), "half-space2-coincident-homo", l2 << " vs " << hc);
      }
    }
    if (WantSample()) Sample("side of " + Str(h) + " for points on it and within 2^-150 of it");
  }
}

// ---------------------------------------------------------------------------
// G04: constructions

static bool SamePlane(const HalfSpace3& h, const V3& normal, const V3& on) {
  return SameDir(ToV(h.normal()), normal) && Side(h, on) == 0;
}

PROPERTY(G04) {
  const int grid = RandGrid(r);
  Observe(grid);
  V3 p[3] = {RandV(r, grid), RandV(r, grid), RandV(r, grid)};
  V3 normal = Cross(p[2] - p[1], p[0] - p[1]);
  for (auto& x : p) Observe(HashV(x));
  HomoPoint3 hp[3] = {MakeHomo(p[0], r), MakeHomo(p[1], r), MakeHomo(p[2], r)};
  std::string pts = Str(hp[0]) + " " + Str(hp[1]) + " " + Str(hp[2]);
  int neg = 0;
  for (auto& x : hp) neg += x.w().GetSign() < 0;
  Count("planes_with_" + std::to_string(neg) + "_negative_denominators");
  {
    HalfSpace3 h(hp[0], hp[1], hp[2]);
    VREQ(h.IsValid() == !normal.IsZero(), "plane-valid", pts << " gave " << h);
    if (!normal.IsZero()) {
      NonTrivial();
      VREQ(SamePlane(h, normal, p[0]) && Side(h, p[1]) == 0 && Side(h, p[2]) == 0, "plane-from-homo-points", pts << " gave " << h);
    } else {
      Count("collinear");
    }
  }
  {
    Z3 z[3];
    for (auto& x : z) x = RandZ3(r, grid, false);
    Point3 ip[3] = {MakePoint(z[0][0], z[0][1], z[0][2]), MakePoint(z[1][0], z[1][1], z[1][2]), MakePoint(z[2][0], z[2][1], z[2][2])};
    V3 n = Cross(ToV(z[2]) - ToV(z[1]), ToV(z[0]) - ToV(z[1]));
    HalfSpace3 h(ip[0], ip[1], ip[2]);
    VREQ(h.IsValid() == !n.IsZero(), "plane-valid-int", ip[0] << ip[1] << ip[2] << " gave " << h);
    if (!n.IsZero()) VREQ(SamePlane(h, n, ToV(z[0])) && Side(h, ToV(z[1])) == 0 && Side(h, ToV(z[2])) == 0, "plane-from-points", ip[0] << ip[1] << ip[2] << " gave " << h);
    PluckerLine l(ip[0], ip[1]);
    V3 d = ToV(z[1]) - ToV(z[0]);
    VREQ(l.IsValid() == !d.IsZero(), "line-valid-int", ip[0] << ip[1]);
    VREQ(ToV(l.m()) == Cross(ToV(z[0]), ToV(l.d())) && (d.IsZero() || SameDir(ToV(l.d()), d)), "line-from-points", ip[0] << ip[1] << " gave " << l);
  }
  // From a normal and a point.
  Z3 nz = RandZ3(r, grid, true);
  V3 nv = ToV(nz);
  HalfSpace3 h(MakeVec(nz), hp[0]);
  VREQ(SamePlane(h, nv, p[0]), "plane-from-normal-and-point", MakeVec(nz) << " through " << hp[0] << " gave " << h);
  // Negation and reduction keep, or exactly flip, the plane.
  {
    HalfSpace3 m = -h;
    VREQ(SamePlane(m, nv * Q(-1), p[0]), "plane-negate", h << " gave " << m);
    HalfSpace3 m2 = h;
    m2.Negate();
    VREQ(SamePlane(m2, nv * Q(-1), p[0]), "plane-negate", h << " gave " << m2);
    HalfSpace3 red = h;
    red.Reduce();
    VREQ(SamePlane(red, nv, p[0]), "plane-reduce", h << " gave " << red);
    mpz_class g = gcd(gcd(Z(red.x()), Z(red.y())), gcd(Z(red.z()), Z(red.d())));
    VREQ(g == 1, "plane-reduce-lowest", h << " gave " << red);
  }
  {
    Vector3 v = MakeVec(nz);
    mpz_class k = abs(NonZero(r, 70));
    Vector3 s = v.Scale(B(k));
    s.Reduce();
    VREQ(SameDir(ToV(s), nv) && gcd(gcd(Z(s.x()), Z(s.y())), Z(s.z())) == 1, "vector-reduce", v << " gave " << s);
    Z3 oz = RandZ3(r, grid, false);
    Vector3 o = MakeVec(oz);
    V3 ov = ToV(oz);
    VREQ(Q(Z(v.Dot(o))) == Dot(nv, ov), "vector-dot", v << " . " << o);
    VREQ(ToV(v.Cross(o)) == Cross(nv, ov), "vector-cross", v << " x " << o);
    VREQ(ToV(v + o) == nv + ov && ToV(v - o) == nv - ov && ToV(-v) == nv * Q(-1), "vector-add", v << " " << o);
    VREQ(ToV(v.Scale(B(k))) == nv * Q(k) && ToV(v * B(k)) == nv * Q(k) && ToV(B(k) * v) == nv * Q(k), "vector-scale", v << " " << S(k));
    VREQ(Q(Z(v.GetScaleSquared())) == Dot(nv, nv), "vector-scale-squared", v);
    V3 had(nv[0] * ov[0], nv[1] * ov[1], nv[2] * ov[2]);
    VREQ(ToV(v.Hadamard(o)) == had, "vector-hadamard", v << " " << o);
    Vector3 acc = v;
    acc += o;
    VREQ(ToV(acc) == nv + ov, "vector-add-assign", v << " " << o);
    acc = v;
    acc += acc;
    VREQ(ToV(acc) == nv * Q(2), "vector-add-self", v);
    for (int drop = 0; drop < 3; ++drop) {
      V2 a = Drop(nv, drop), b = ToV(v.DropDimension(drop));
      VREQ(a[0] == b[0] && a[1] == b[1], "drop-dimension", v);
      Vector2 v2 = v.DropDimension(drop), o2 = o.DropDimension(drop);
      V2 c = Drop(ov, drop);
      VREQ(Q(Z(v2.Cross(o2))) == Cross2(a, c) && Q(Z(v2.Dot(o2))) == a[0] * c[0] + a[1] * c[1], "vector2-products", v2 << " " << o2);
      V2 perp = ToV(v2.GetPerpendicular());
      VREQ(perp[0] == -a[1] && perp[1] == a[0], "vector2-perpendicular", v2);
    }
    int first = 0;
    while (nz[first] == 0) ++first;
    VREQ(v.GetFirstNonzeroDimension() == first, "first-nonzero", v);
  }
  // Axis aligned.
  {
    int dim = r.below(3);
    mpz_class num = RandInt3(r, grid), den = NonZero(r, 70);
    HalfSpace3 a = HalfSpace3::GetAxisAligned(dim, B(num), B(den));
    V3 axis(0, 0, 0), on = p[1];
    axis[dim] = den > 0 ? 1 : -1;
    on[dim] = MakeQ(num, den);
    VREQ(SamePlane(a, axis, on), "axis-aligned", "dim " << dim << " at " << S(num) << "/" << S(den) << " gave " << a);
  }
  // Extruding a 2D half-space, and projecting onto a plane.
  for (int dim = 0; dim < 3; ++dim) {
    HalfSpace2 h2(B(nz[(dim + 1) % 3]), B(nz[(dim + 2) % 3]), B(nz[dim]));
    HalfSpace3 h3(h2, dim);
    V3 v = p[2];
    Q want = Drop(nv, dim)[0] * Drop(v, dim)[0] + Drop(nv, dim)[1] * Drop(v, dim)[1] - Q(nz[dim]);
    VREQ(Value(h3, v) == want, "plane-from-2d", h2 << " added dim " << dim << " gave " << h3);
    if (nz[dim] != 0) {
      HomoPoint3 proj = h.ProjectOntoPlane(hp[1].DropDimension(dim), dim);
      V3 pv = ToV(proj);
      VREQ(Side(h, pv) == 0 && Drop(pv, dim)[0] == Drop(p[1], dim)[0] && Drop(pv, dim)[1] == Drop(p[1], dim)[1], "project-onto-plane",
           hp[1] << " onto " << h << " dim " << dim << " gave " << proj);
      Count("projections");
    }
  }
  // Lines from two points: projection, intersection with a plane, negation.
  if (p[0] != p[2]) {
    PluckerLine l(hp[0], hp[2]);
    V3 d = p[2] - p[0];
    VREQ(SameDir(ToV(l.d()), d) && ToV(l.m()) == Cross(p[0], ToV(l.d())), "line-from-homo-points", hp[0] << " -> " << hp[2] << " gave " << l);
    PluckerLine red = l;
    red.Reduce();
    VREQ(SameDir(ToV(red.d()), d) && ToV(red.m()) == Cross(p[0], ToV(red.d())), "line-reduce", l << " gave " << red);
    mpz_class g = gcd(gcd(gcd(Z(red.d().x()), Z(red.d().y())), Z(red.d().z())), gcd(gcd(Z(red.m().x()), Z(red.m().y())), Z(red.m().z())));
    VREQ(g == 1, "line-reduce-lowest", l << " gave " << red);
    PluckerLine ng = -l;
    VREQ(SameDir(ToV(ng.d()), d * Q(-1)) && ToV(ng.m()) == Cross(p[0], ToV(ng.d())), "line-negate", l << " gave " << ng);
    for (int dim = 0; dim < 3; ++dim) {
      V2 a = Drop(p[0], dim), b = Drop(p[2], dim), c = Drop(p[1], dim);
      if (a[0] == b[0] && a[1] == b[1]) continue;
      HalfSpace2 h2 = l.Project2D(dim);
      V2 hn = ToV(h2.normal());
      Q v = hn[0] * c[0] + hn[1] * c[1] - Q(Z(h2.d()));
      VREQ(sgn(v) == sgn(Cross2(b - a, c - a)), "project-2d", l << " dropping " << dim << " gave " << h2 << " at " << hp[1]);
      Q va = hn[0] * a[0] + hn[1] * a[1] - Q(Z(h2.d()));
      VREQ(sgn(va) == 0, "project-2d-on", l << " dropping " << dim << " gave " << h2);
    }
    HalfSpace3 q(MakeVec(RandZ3(r, grid, true)), B(RandInt3(r, grid)));
    V3 qn = ToV(q.normal());
    HomoPoint3 x = l.Intersect(q);
    if (sgn(Dot(qn, d)) == 0) {
      VREQ(!x.IsValid(), "parallel-intersection", l << " with " << q << " gave " << x);
      Count("parallel_intersections");
    } else {
      Q t = (Q(Z(q.d())) - Dot(qn, p[0])) / Dot(qn, d);
      VREQ(ToV(x) == p[0] + d * t, "line-plane-intersection", l << " with " << q << " gave " << x);
      Count("intersections");
    }
    // The line where two planes meet.
    PluckerLine m(h, q);
    V3 md = Cross(nv, qn);
    VREQ(m.IsValid() == !md.IsZero(), "line-from-planes-valid", h << " with " << q);
    if (!md.IsZero()) {
      VREQ(SameDir(ToV(m.d()), md), "line-from-planes-direction", h << " with " << q << " gave " << m);
      V3 on = Cross(ToV(m.d()), ToV(m.m())) * (Q(1) / Dot(ToV(m.d()), ToV(m.d())));
      VREQ(Side(h, on) == 0 && Side(q, on) == 0 && sgn(Dot(ToV(m.d()), ToV(m.m()))) == 0, "line-from-planes", h << " with " << q << " gave " << m);
      Count("plane_pairs");
    }
  }
  // Offsets and differences.
  {
    Z3 o = RandZ3(r, grid, false);
    mpz_class den = NonZero(r, 70);
    HomoPoint3 moved = hp[0].AddOffset(MakeVec(o), B(den));
    VREQ(ToV(moved) == p[0] + ToV(o) * MakeQ(1, den), "add-offset", hp[0] << " + " << MakeVec(o) << "/" << S(den) << " gave " << moved);
    BigInt diff_den;
    Vector3 diff = hp[0].Difference(hp[1], diff_den);
    VREQ(Z(diff_den) != 0 && ToV(diff) * MakeQ(1, Z(diff_den)) == p[0] - p[1], "difference", hp[0] << " - " << hp[1] << " gave " << diff << " / " << diff_den);
  }
  if (WantSample()) Sample("plane through " + pts + " normal " + S(normal));
}

// ---------------------------------------------------------------------------
// G05: boxes

struct OBox { V3 lo, hi; };

static bool InBox(const OBox& b, const V3& p) {
  for (int i = 0; i < 3; ++i) if (p[i] < b.lo[i] || p[i] > b.hi[i]) return false;
  return true;
}

static std::vector<V3> BoxPlanePoints(const OBox& b, const V3& n, const Q& d) {
  std::vector<V3> c, out;
  for (int i = 0; i < 8; ++i) c.push_back(V3((i & 1 ? b.hi : b.lo)[0], (i & 2 ? b.hi : b.lo)[1], (i & 4 ? b.hi : b.lo)[2]));
  for (int i = 0; i < 8; ++i) for (int k = 0; k < 3; ++k) if (!(i >> k & 1)) {
    const V3 &p = c[i], &q = c[i | 1 << k];
    Q a = Dot(n, p) - d, e = Dot(n, q) - d;
    if (sgn(a) == 0) out.push_back(p);
    if (sgn(e) == 0) out.push_back(q);
    if (sgn(a) * sgn(e) < 0) out.push_back(p + (q - p) * (a / (a - e)));
  }
  std::sort(out.begin(), out.end());
  out.erase(std::unique(out.begin(), out.end()), out.end());
  return out;
}

PROPERTY(G05) {
  static const int kGrids[] = {kTiny, kSmall, kSmall, kMedium, kWord, kHuge};
  int grid = kGrids[r.below(6)];
  if (grid == kHuge) grid = kWord;
  mpz_class den = r.chance(1, 3) ? mpz_class(1) : NonZero(r, 40);
  Z3 a = RandZ3(r, grid, false), b = RandZ3(r, grid, false);
  bool flat = r.chance(1, 5);
  int flat_dims = 0;
  for (int i = 0; i < 3; ++i) {
    if (flat && r.coin()) { b[i] = a[i]; ++flat_dims; continue; }
    if (a[i] == b[i]) b[i] += 1;
    // The numerators are ordered so that the quotients are.
    if ((a[i] > b[i]) != (den < 0)) std::swap(a[i], b[i]);
  }
  AABB box(MakeVec(a), MakeVec(b), B(den));
  OBox ob;
  ob.lo = ToV(a) * MakeQ(1, den);
  ob.hi = ToV(b) * MakeQ(1, den);
  std::string bs = Str(box);
  VREQ(ToV(box.min_point()) == ob.lo && ToV(box.max_point()) == ob.hi, "box-corners", bs);
  Observe(HashV(ob.lo));
  Observe(HashV(ob.hi));
  if (flat_dims == 0) NonTrivial();
  Count("flat_dims_" + std::to_string(flat_dims));
  // Points in, out and on the border.
  for (int k = 0; k < 6; ++k) {
    V3 p;
    for (int i = 0; i < 3; ++i) {
      switch (r.below(6)) {
        case 0: p[i] = ob.lo[i]; break;
        case 1: p[i] = ob.hi[i]; break;
        case 2: p[i] = (r.coin() ? ob.lo : ob.hi)[i] + MakeQ(r.coin() ? 1 : -1, NonZero(r, 120)); break;
        case 3: p[i] = RandCoord(r, grid); break;
        default: p[i] = ob.lo[i] + (ob.hi[i] - ob.lo[i]) * MakeQ((long)r.range(0, 7), 7);
      }
    }
    bool inside = InBox(ob, p), border = false;
    for (int i = 0; i < 3; ++i) border |= p[i] == ob.lo[i] || p[i] == ob.hi[i];
    border &= inside;
    HomoPoint3 hp = MakeHomo(p, r);
    VREQ(box.IsInside(hp) == inside, "box-inside-homo", bs << " vs " << hp);
    VREQ(box.IsOnBorder(hp) == border, "box-border-homo", bs << " vs " << hp);
    if (p[0].get_den() == 1 && p[1].get_den() == 1 && p[2].get_den() == 1) {
      Point3 ip = MakePoint(p[0].get_num(), p[1].get_num(), p[2].get_num());
      VREQ(box.IsInside(ip) == inside, "box-inside", bs << " vs " << ip);
      VREQ(box.IsOnBorder(ip) == border, "box-border", bs << " vs " << ip);
      Count("integer_points");
    }
    Count(border ? "points_on_border" : inside ? "points_inside" : "points_outside");
  }
  // Planes.
  for (int k = 0; k < 3; ++k) {
    Z3 nz = RandZ3(r, r.coin() ? kTiny : grid, true);
    V3 nv = ToV(nz);
    // Through a corner, a point of the box, or anywhere.
    V3 at;
    int kind = r.below(4);
    for (int i = 0; i < 3; ++i) {
      Q t = kind == 0 ? Q((long)r.below(2)) : kind == 1 ? MakeQ((long)r.range(-1, 5), 4) : MakeQ((long)r.range(0, 5), 5);
      at[i] = ob.lo[i] + (ob.hi[i] - ob.lo[i]) * t;
    }
    if (kind == 0) Count("planes_through_corner");
    HalfSpace3 plane(MakeVec(nz), MakeHomo(at, r));
    Q d = Dot(ToV(plane.normal()), at);
    V3 pn = ToV(plane.normal());
    if (r.chance(1, 6)) {
      mpz_class dd = Z(plane.d()) + (long)r.range(-1, 1);
      plane = HalfSpace3(plane.normal(), B(dd));
      d = Q(dd);
    }
    int mn = 2, mx = -2;
    for (int i = 0; i < 8; ++i) {
      V3 c((i & 1 ? ob.hi : ob.lo)[0], (i & 2 ? ob.hi : ob.lo)[1], (i & 4 ? ob.hi : ob.lo)[2]);
      int s = sgn(Q(Dot(pn, c) - d));
      mn = std::min(mn, s);
      mx = std::max(mx, s);
    }
    const int want = mn > 0 ? 1 : mx < 0 ? -1 : 0;
    const int got = box.GetPlaneSide(plane);
    VREQ(got == want, "box-plane-side", bs << " vs " << plane << " gave " << got << " expected " << want);
    Count("plane_side_" + std::to_string(want));
    if (flat_dims == 0) {
      std::vector<V3> pts = BoxPlanePoints(ob, pn, d);
      // Fewer than three corners: at most an edge touches.
      bool has_area = pts.size() >= 3;
      MutableConvexPolygon<> poly = box.IntersectPlane(plane);
      if (!has_area) {
        VREQ(poly.vertex_count() == 0, "box-intersect-empty", bs << " with " << plane << " gave " << Str(poly));
        Count("intersections_without_area");
      } else {
        VREQ(poly.vertex_count() != 0, "box-intersect-missing", bs << " with " << plane);
        std::vector<V3> v = CheckPolygon(poly, "box-intersect");
        VREQ(SameDir(ToV(poly.plane().normal()), pn) && Side(poly.plane(), pts[0]) == 0, "box-intersect-plane", bs << " with " << plane);
        std::vector<V3> sv = v;
        std::sort(sv.begin(), sv.end());
        VREQ(sv == pts, "box-intersect-corners", bs << " with " << plane << " gave " << S(v) << " expected " << S(pts));
        Count("intersections_with_" + std::to_string(v.size()) + "_corners");
      }
    }
  }
  // Walls: a closed surface for a box with volume.
  {
    std::vector<MutableConvexPolygon<>> walls = box.GetWalls();
    size_t want_walls = flat_dims == 0 ? 6 : flat_dims == 1 ? 2 : 0;
    VREQ(walls.size() == want_walls, "wall-count", bs << " has " << walls.size());
    V3 sum(0, 0, 0);
    Q volume = 0;
    for (auto& w : walls) {
      std::vector<V3> v = CheckPolygon(w, "wall");
      VREQ(v.size() == 4, "wall-corners", bs);
      for (auto& p : v) {
        bool corner = true;
        for (int i = 0; i < 3; ++i) corner &= p[i] == ob.lo[i] || p[i] == ob.hi[i];
        VREQ(corner, "wall-corners", bs << " wall " << S(v));
      }
      sum = sum + VecArea(v);
      volume += Dot(VecArea(v), v[0]);
      // Every point of the box is on the inner side.
      for (int i = 0; i < 8; ++i) {
        V3 c((i & 1 ? ob.hi : ob.lo)[0], (i & 2 ? ob.hi : ob.lo)[1], (i & 4 ? ob.hi : ob.lo)[2]);
        VREQ(Side(w.plane(), c) <= 0, "wall-orientation", bs << " wall " << S(v));
      }
    }
    VREQ(sum.IsZero(), "walls-closed", bs);
    V3 e = ob.hi - ob.lo;
    VREQ(volume == e[0] * e[1] * e[2] * 6, "walls-volume", bs);
  }
  // Equality does not depend on the denominator.
  {
    mpz_class k = NonZero(r, 60);
    AABB same(MakeVec(a[0] * k, a[1] * k, a[2] * k), MakeVec(b[0] * k, b[1] * k, b[2] * k), B(den * k));
    VREQ(same == box && !(same != box), "box-equal", bs << " vs " << same);
    Z3 c = r.coin() ? a : b;
    int i = r.below(3);
    mpz_class delta = r.coin() ? 1 : -1;
    Z3 a2 = a, b2 = b;
    (r.coin() ? a2 : b2)[i] += delta;
    AABB other(MakeVec(a2), MakeVec(b2), B(den));
    VREQ(other != box && !(other == box), "box-not-equal", bs << " vs " << other);
  }
  // Diagonal.
  {
    V3 e = ob.hi - ob.lo;
    Q sq = Dot(e, e);
    mpf_class f(sq, 256);
    double want = mpf_class(sqrt(f)).get_d();
    double got = box.GetDiagonalLength();
    VREQ(want == 0 ? got == 0 : std::abs(got - want) <= want * 1e-12, "box-diagonal", bs << " gave " << got << " expected " << want);
  }
  if (WantSample()) Sample("box " + bs);
}

// ---------------------------------------------------------------------------
// G06: the shear comparison

PROPERTY(G06) {
  const int grid = RandGrid(r);
  Z3 u = RandZ3(r, grid, false), v = RandZ3(r, grid, false);
  switch (r.below(4)) {
    case 0: break;
    case 1: {  // parallel or nearly so
      mpz_class k = RandZ(r, r.coin() ? 3 : 70);
      for (int i = 0; i < 3; ++i) v[i] = u[i] * k;
      if (r.coin()) v[r.below(3)] += (long)r.range(-1, 1);
      break;
    }
    case 2: {  // the same projection to XY
      mpz_class k = RandZ(r, 20);
      v[0] = u[0] * k;
      v[1] = u[1] * k;
      break;
    }
    default: {
      int i = r.below(3);
      u[i] = 0;
      v[i] = 0;
    }
  }
  V3 uq = ToV(u), vq = ToV(v);
  std::string in = S(uq) + " " + S(vq);
  // The sign of the XY cross product of the sheared bivectors for a shear
  // parameter that is small enough for the sign to be stable.
  mpz_class bound = 1;
  for (int i = 0; i < 3; ++i) bound += abs(u[i]) + abs(v[i]);
  mpz_class inv = bound * bound * 16;
  auto shear = [&](const V3& n, const Q& e) {
    // A plane n.p = d becomes n'.p' = d for p' = (x, y, z + y*e + x*e^2).
    return V3(n[0] - n[2] * e * e, n[1] - n[2] * e, n[2]);
  };
  int want[2];
  for (int k = 0; k < 2; ++k) {
    Q e = MakeQ(1, k ? inv * 1000003 : inv);
    V3 a = shear(uq, e), b = shear(vq, e);
    want[k] = sgn(Cross2(V2(a[0], a[1]), V2(b[0], b[1])));
  }
  if (want[0] != want[1]) Fail("oracle-unstable", in);
  const int got = RXYCompareBivector(MakeVec(u), MakeVec(v));
  VREQ(SgnI(got) == want[0], "shear-compare", in << " gave " << got << " expected " << want[0]);
  VREQ((got == 0) == Cross(uq, vq).IsZero(), "shear-compare-zero", in << " gave " << got);
  Count("compare_" + std::to_string(want[0]));
  HalfSpace3 split(MakeVec(v), B(RandInt3(r, grid)));
  for (int pos = 0; pos < 2; ++pos) {
    SplitSide side{&split, pos == 1};
    VREQ(SgnI(RXYCompareBivector(MakeVec(u), side)) == want[0] * (pos ? -1 : 1), "shear-compare-split", in);
  }
  // The transform of points orders them by z, y, x... through its z.
  V3 p = RandV(r, grid), q = RandV(r, grid);
  for (int i = 0; i < 3; ++i) if (r.coin()) q[i] = p[i];
  mpz_class einv = NonZero(r, 40);
  HomoPoint3 hp = MakeHomo(p, r);
  HomoPoint3 t = RTransform(hp, B(einv));
  V3 tv = ToV(t);
  VREQ(tv[0] == p[0] && tv[1] == p[1] && tv[2] == p[2] + p[1] * MakeQ(1, einv) + p[0] * MakeQ(1, einv * einv),
       "r-transform", hp << " with 1/" << S(einv) << " gave " << t);
  if (!Cross(uq, vq).IsZero()) NonTrivial();
  Observe(HashV(uq));
  Observe(HashV(vq));
  if (WantSample()) Sample("compare " + in + " -> " + std::to_string(got));
}

VERIF_MAIN

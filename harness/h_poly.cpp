// P01..P05: convex polygons.
#include "poly.h"

#include "walnut/convex_vertex_aabb_tracker.h"

using namespace walnut;
using namespace vf;

static size_t RandCount(Rng& r) {
  return r.chance(1, 2) ? r.range(3, 7) : r.chance(1, 2) ? r.range(8, 14) : r.range(12, 40);
}

static int RandPolyGrid(Rng& r) {
  static const int k[] = {kTiny, kSmall, kSmall, kRational, kMedium, kWord};
  return k[r.below(6)];
}

static void ObservePoly(const GenPoly& g) {
  for (auto& v : g.v) Observe(HashV(v));
}

static std::string Desc(const GenPoly& g) {
  std::string o = "polygon normal " + S(g.normal) + " drop " + std::to_string(g.drop) + " [";
  for (auto& p : g.p) o += Str(p) + " ";
  return o + "]";
}

// ---------------------------------------------------------------------------
// P01

// Checks that the children of a split are exactly the two clipped polygons.
template <typename Poly>
static void CheckChildren(const std::string& key, const Poly& neg, const Poly& pos,
                          const GenPoly& g, const HalfSpace3& h, const std::string& in) {
  V3 hn = ToV(h.normal());
  Q hd = Q(Z(h.d()));
  std::vector<V3> want[2] = {Clip(g.v, hn, hd, -1), Clip(g.v, hn, hd, 1)};
  const Poly* got[2] = {&neg, &pos};
  std::vector<V3> v[2];
  for (int k = 0; k < 2; ++k) {
    v[k] = CheckPolygon(*got[k], key + (k ? "-pos-child" : "-neg-child"));
    VREQ(SameCycle(v[k], want[k]) >= 0, key + (k ? "-pos-vertices" : "-neg-vertices"),
         in << " gave " << S(v[k]) << " expected " << S(want[k]));
    VREQ(SameDir(ToV(got[k]->plane().normal()), g.normal) && Side(got[k]->plane(), g.v[0]) == 0,
         key + "-child-plane", in);
  }
  // Documented positions of the vertices on the split plane.
  size_t n = v[0].size(), m = v[1].size();
  VREQ(Side(h, v[0][n - 1]) == 0 && Side(h, v[0][n - 2]) == 0, key + "-neg-order", in << " gave " << S(v[0]));
  VREQ(Side(h, v[1][0]) == 0 && Side(h, v[1][m - 1]) == 0, key + "-pos-order", in << " gave " << S(v[1]));
}

// The data of every child edge comes from the input edge that it lies on, or
// from the split.
static void CheckTags(const TagPoly& c, const GenPoly& g, const HalfSpace3& h, const std::string& in) {
  const size_t n = g.v.size();
  for (size_t i = 0; i < c.vertex_count(); ++i) {
    V3 a = ToV(c.vertex(i)), b = ToV(c.vertex((i + 1) % c.vertex_count()));
    const TagEdge& e = c.edge(i);
    size_t vi = 0;
    while (vi < n && g.v[vi] != a) ++vi;
    if (Side(h, a) == 0 && Side(h, b) == 0) {
      // The new edge. Its vertex is old or new.
      VREQ(e.origin == (vi < n ? 2 : 3), "split-edge-origin", in << " edge " << i << " has origin " << e.origin);
      if (vi < n) {
        VREQ(e.tag == (int)vi, "split-edge-tag", in << " edge " << i << " has tag " << e.tag);
      } else {
        VREQ(e.tag >= 0 && e.tag < (int)n && OnSegment(a, g.v[e.tag], g.v[(e.tag + 1) % n]), "split-edge-tag",
             in << " edge " << i << " has tag " << e.tag);
      }
      Count("split_edges");
    } else {
      VREQ(e.origin == (vi < n ? 0 : 1), "kept-edge-origin", in << " edge " << i << " has origin " << e.origin);
      if (vi < n) {
        VREQ(e.tag == (int)vi, "kept-edge-tag", in << " edge " << i << " has tag " << e.tag);
      } else {
        VREQ(e.tag >= 0 && e.tag < (int)n && OnSegment(a, g.v[e.tag], g.v[(e.tag + 1) % n]) &&
             OnSegment(b, g.v[e.tag], g.v[(e.tag + 1) % n]), "kept-edge-tag",
             in << " edge " << i << " has tag " << e.tag);
      }
      Count("kept_edges");
    }
  }
}

PROPERTY(P01) {
  const int grid = RandPolyGrid(r);
  GenPoly g = RandPoly(r, RandCount(r), grid);
  ObservePoly(g);
  TagPoly tag = MakeTagPoly(g);
  AABBConvexPolygon<TagPoly> boxed(tag);
  CheckPolygon(tag, "input");
  const size_t n = g.v.size();
  Count(n >= 10 ? "polygons_bisected" : "polygons_scanned");
  for (int rep = 0; rep < 4; ++rep) {
    HalfSpace3 h = RandSplit(r, g, grid);
    std::string in = Desc(g) + " split by " + Str(h);
    int neg = 0, pos = 0, on = 0;
    for (auto& v : g.v) {
      int s = Side(h, v);
      neg += s < 0;
      pos += s > 0;
      on += s == 0;
    }
    ConvexPolygonSplitInfo infos[2] = {tag.GetSplitInfo(h), boxed.GetSplitInfo(h)};
    for (auto& info : infos) {
      VREQ(info.ShouldEmitNegativeChild() == (neg > 0) && info.ShouldEmitPositiveChild() == (pos > 0) &&
           info.ShouldEmitOnPlane() == (neg == 0 && pos == 0), "split-sides",
           in << " gave " << info << " with " << neg << " negative and " << pos << " positive vertices");
      VREQ(info.IsValid(n), "split-info-valid", in << " gave " << info);
    }
    Observe(neg * 1000 + pos);
    if (neg == 0 && pos == 0) Count("on_plane");
    else if (neg == 0 || pos == 0) {
      Count(on ? "touching" : "one_sided");
      // Vertices outside of the range of the child touch the plane.
      const ConvexPolygonSplitInfo& info = infos[0];
      auto range = neg ? info.neg_range() : info.pos_range();
      std::set<size_t> inside;
      for (size_t i = range.first; i < range.second; ++i) inside.insert(i % n);
      for (size_t i = 0; i < n; ++i) {
        bool off_plane = Side(h, ToV(tag.vertex(i))) != 0;
        VREQ(inside.count(i) == off_plane, "touching-range", in << " gave " << info << " vertex " << i);
      }
    } else {
      NonTrivial();
      Count(on == 0 ? "split_no_vertex" : on == 1 ? "split_one_vertex" : "split_two_vertices");
      // From a const polygon.
      auto c1 = tag.CreateSplitChildren(infos[0]);
      CheckChildren("split", c1.first, c1.second, g, h, in);
      CheckTags(static_cast<const TagPoly&>(TagPoly(c1.first)), g, h, in);
      CheckTags(static_cast<const TagPoly&>(TagPoly(c1.second)), g, h, in);
      VREQ(SameCycle(VerticesOf(tag), g.v) >= 0, "split-const-changed", in);
      // From an rvalue.
      TagPoly copy = tag;
      auto c2 = TagPoly::CreateSplitChildren(std::move(copy).GetRValueKey(), ConvexPolygonSplitInfo(infos[0]));
      CheckChildren("split-rvalue", c2.first, c2.second, g, h, in);
      CheckTags(TagPoly(c2.first), g, h, in);
      CheckTags(TagPoly(c2.second), g, h, in);
      // With the bounding box.
      auto c3 = boxed.CreateSplitChildren(infos[1]);
      CheckChildren("split-boxed", c3.first, c3.second, g, h, in);
      CheckTags(TagPoly(c3.first), g, h, in);
      CheckTags(TagPoly(c3.second), g, h, in);
      AABBConvexPolygon<TagPoly> bcopy = boxed;
      auto c4 = std::move(bcopy).CreateSplitChildren(ConvexPolygonSplitInfo(infos[1]));
      CheckChildren("split-boxed-rvalue", c4.first, c4.second, g, h, in);
      CheckTags(TagPoly(c4.first), g, h, in);
      CheckTags(TagPoly(c4.second), g, h, in);
      if (WantSample()) Sample(in.substr(0, 700) + " -> " + S(VerticesOf(c1.first)).substr(0, 300));
    }
  }
}

// ---------------------------------------------------------------------------
// P02: searches

PROPERTY(P02) {
  const int grid = RandPolyGrid(r);
  GenPoly g = RandPoly(r, RandCount(r), grid);
  ObservePoly(g);
  PlainPoly poly = MakePoly<PlainPoly>(g);
  const size_t n = g.v.size();
  std::vector<V3> v = VerticesOf(poly);
  Count(n >= 10 ? "polygons_ge_10" : "polygons_lt_10");
  if (n >= 5) NonTrivial();
  std::string in = Desc(g);
  {
    size_t best = 0;
    for (size_t i = 1; i < n; ++i) if (v[i] < v[best]) best = i;
    VREQ(poly.GetMinimumIndex() == best, "minimum-index", in << " gave " << poly.GetMinimumIndex());
  }
  for (int rep = 0; rep < 4; ++rep) {
    int drop = RandDrop(r, g.normal);
    std::vector<V2> w;
    for (auto& x : v) w.push_back(Drop(x, drop));
    // A direction: random, or along or perpendicular to an edge.
    mpz_class dx, dy;
    {
      size_t i = r.below(n), j = (i + 1 + r.below(n - 1)) % n;
      V2 e = w[j] - w[i];
      mpz_class l;
      mpz_lcm(l.get_mpz_t(), e[0].get_den().get_mpz_t(), e[1].get_den().get_mpz_t());
      Q ex = e[0] * l, ey = e[1] * l;
      switch (r.below(4)) {
        case 0: dx = ex.get_num(); dy = ey.get_num(); break;
        case 1: dx = -ey.get_num(); dy = ex.get_num(); break;
        case 2: dx = ey.get_num(); dy = -ex.get_num(); break;
        default: dx = RandInt3(r, grid); dy = RandInt3(r, grid);
      }
      if (dx == 0 && dy == 0) dx = 1;
    }
    Vector2 dir(B(dx), B(dy));
    auto dot = [&](const V2& p) -> Q { return p[0] * dx + p[1] * dy; };
    auto edge_dot = [&](size_t i) { return sgn(Q(dot(w[(i + 1) % n]) - dot(w[i]))); };
    std::string q = in + " dir " + Str(dir) + " drop " + std::to_string(drop);
    auto opp = poly.GetOppositeEdgeIndicesBisect(dir, drop);
    VREQ(opp.first < n && opp.second < n && edge_dot(opp.first) > 0 && edge_dot(opp.second) < 0, "opposite-edges",
         q << " gave " << opp.first << " and " << opp.second);
    // The extreme: the lowest index in cycle order, where the last vertex
    // counts as lower than the 0th.
    Q best = dot(w[0]);
    for (auto& p : w) best = std::max<Q>(best, dot(p));
    size_t want = n;
    auto lowest = [&](const std::function<bool(size_t)>& is) {
      // The first index of the (cyclically contiguous) run.
      for (size_t i = 0; i < n; ++i) if (is(i) && !is((i + n - 1) % n)) return i;
      return n;
    };
    want = lowest([&](size_t i) { return dot(w[i]) == best; });
    size_t got = poly.GetExtremeIndexBisect(dir, drop);
    VREQ(got == want, "extreme-index", q << " gave " << got << " expected " << want);
    Count("extremes");
    // In 3D.
    {
      V3 d3 = r.chance(1, 6) ? g.normal * RandCoord(r, kSmall) : ToV(RandZ3(r, grid, false));
      mpz_class l = CommonDenom(d3);
      d3 = d3 * Q(l);
      size_t got3 = poly.GetExtremeIndexBisect(MakeVec(d3[0].get_num(), d3[1].get_num(), d3[2].get_num()));
      if (Cross(d3, g.normal).IsZero()) {
        VREQ(got3 == static_cast<size_t>(-1), "extreme-index-perpendicular", in << " dir " << S(d3));
        Count("perpendicular_directions");
      } else {
        Q b3 = Dot(d3, v[0]);
        for (auto& p : v) b3 = std::max<Q>(b3, Dot(d3, p));
        size_t want3 = lowest([&](size_t i) { return Dot(d3, v[i]) == b3; });
        VREQ(got3 == want3, "extreme-index-3d", in << " dir " << S(d3) << " gave " << got3 << " expected " << want3);
      }
    }
    // A 2D half-space with that normal.
    Q dist;
    switch (r.below(4)) {
      case 0: dist = dot(w[r.below(n)]); break;
      case 1: dist = best; break;
      case 2: { size_t a = r.below(n), b = r.below(n); dist = (dot(w[a]) + dot(w[b])) / 2; break; }
      default: dist = dot(w[r.below(n)]) + RandCoord(r, kSmall);
    }
    mpz_class k = dist.get_den();
    HalfSpace2 h2(B(dx * k), B(dy * k), B(dist.get_num()));
    auto side = [&](size_t i) { return sgn(Q(dot(w[i]) - dist)); };
    std::string hq = q + " half space " + Str(h2);
    int neg = 0, pos = 0, on = 0;
    for (size_t i = 0; i < n; ++i) {
      neg += side(i) < 0;
      pos += side(i) > 0;
      on += side(i) == 0;
    }
    Observe(neg * 1000 + pos);
    Count(neg && pos ? "straddling" : on ? "touching" : "one_sided");
    for (int flip = 0; flip < 2; ++flip) {
      auto got = flip ? poly.GetNegSideVertex(h2, drop, opp.first, opp.second)
                      : poly.GetPosSideVertex(h2, drop, opp.first, opp.second);
      const int sgn_dir = flip ? -1 : 1;
      bool exists = flip ? neg > 0 : pos > 0;
      std::string key = flip ? "neg-side-vertex" : "pos-side-vertex";
      VREQ(got.second < n, key + "-range", hq << " gave index " << got.second);
      if (exists) {
        VREQ(got.first == sgn_dir && side(got.second) == sgn_dir, key, hq << " gave " << got.first << " " << got.second);
      } else {
        VREQ(got.first == (on ? 0 : -sgn_dir), key + "-none", hq << " gave " << got.first << " " << got.second);
        size_t ext = lowest([&](size_t i) {
          Q mine = dot(w[i]);
          for (auto& p : w) if (flip ? dot(p) < mine : dot(p) > mine) return false;
          return true;
        });
        VREQ(got.second == ext, key + "-closest", hq << " gave " << got.second << " expected " << ext);
      }
    }
    if (neg && pos) {
      // The last vertex on a side, from any start on that side.
      size_t s, e;
      do s = r.below(n); while (side(s) > 0);
      do e = r.below(n); while (side(e) <= 0);
      // Walk from s while not positive; with s possibly on the plane before
      // the positive side the run is contiguous.
      auto last = poly.GetLastNegSideVertex(h2, drop, s, side(s), e);
      size_t i = s;
      while (side((i + 1) % n) <= 0) i = (i + 1) % n;
      VREQ(last.second == i && last.first == side(i), "last-neg-vertex", hq << " from " << s << " gave " << last.first << " " << last.second << " expected " << i);
      do s = r.below(n); while (side(s) < 0);
      do e = r.below(n); while (side(e) >= 0);
      last = poly.GetLastPosSideVertex(h2, drop, e, s, side(s));
      i = s;
      while (side((i + 1) % n) >= 0) i = (i + 1) % n;
      VREQ(last.second == i && last.first == side(i), "last-pos-vertex", hq << " from " << s << " gave " << last.first << " " << last.second << " expected " << i);
    }
    // The ranges of both strategies.
    for (int strategy = 0; strategy < 2; ++strategy) {
      ConvexPolygonSplitRanges ranges = strategy ? poly.FindSplitRangesBisect(h2, drop) : poly.FindSplitRangesLinear(h2, drop);
      std::string key = strategy ? "ranges-bisect" : "ranges-linear";
      VREQ(ranges.IsValid(n), key + "-valid", hq << " gave " << ranges);
      for (int neg_side = 0; neg_side < 2; ++neg_side) {
        auto range = neg_side ? ranges.neg_range : ranges.pos_range;
        VREQ(range.second - range.first == (size_t)(neg_side ? neg : pos), key + "-size", hq << " gave " << ranges);
        for (size_t i = range.first; i < range.second; ++i)
          VREQ(side(i % n) == (neg_side ? -1 : 1), key + "-side", hq << " gave " << ranges);
      }
    }
  }
  if (WantSample()) Sample(in.substr(0, 900));
}


// ---------------------------------------------------------------------------
// P03: merging and other mutations

// Convex hull in exact 2D, without collinear points, counter-clockwise.
static std::vector<V2> Hull(std::vector<V2> p) {
  std::sort(p.begin(), p.end(), [](const V2& a, const V2& b) { return a[0] != b[0] ? a[0] < b[0] : a[1] < b[1]; });
  std::vector<V2> out;
  for (int pass = 0; pass < 2; ++pass) {
    std::vector<V2> h;
    for (size_t i = 0; i < p.size(); ++i) {
      const V2& c = pass ? p[p.size() - 1 - i] : p[i];
      while (h.size() >= 2 && sgn(Cross2(h.back() - h[h.size() - 2], c - h.back())) <= 0) h.pop_back();
      if (h.size() == 1 && h[0][0] == c[0] && h[0][1] == c[1]) continue;
      h.push_back(c);
    }
    for (size_t i = 0; i + 1 < h.size(); ++i) out.push_back(h[i]);
  }
  return out;
}

// Finds the edge from a to b.
template <typename Poly>
static size_t FindEdge(const Poly& p, const V3& a, const V3& b) {
  const size_t n = p.vertex_count();
  for (size_t i = 0; i < n; ++i)
    if (ToV(p.vertex(i)) == a && ToV(p.vertex((i + 1) % n)) == b) return i;
  return n;
}

struct TaggedVertex {
  V3 v;
  int tag;
};

template <typename Poly>
static std::vector<TaggedVertex> Tagged(const Poly& p) {
  std::vector<TaggedVertex> out;
  for (size_t i = 0; i < p.vertex_count(); ++i) out.push_back({ToV(p.vertex(i)), p.edge(i).tag});
  return out;
}

// Do they match, up to rotation?
static bool SameTagged(const std::vector<TaggedVertex>& a, const std::vector<TaggedVertex>& b) {
  if (a.size() != b.size()) return false;
  for (size_t off = 0; off < a.size(); ++off) {
    bool ok = true;
    for (size_t i = 0; i < a.size() && ok; ++i) {
      const TaggedVertex& o = b[(i + off) % a.size()];
      ok = a[i].v == o.v && a[i].tag == o.tag;
    }
    if (ok) return true;
  }
  return false;
}
static std::string S(const std::vector<TaggedVertex>& a) {
  std::string o = "[";
  for (auto& t : a) o += ::vf::S(t.v) + "#" + std::to_string(t.tag) + " ";
  return o + "]";
}

typedef AABBConvexPolygon<TagPoly> BoxPoly;

PROPERTY(P03) {
  const int grid = RandPolyGrid(r);
  Frame frame = RandFrame(r, grid);
  V3 normal = frame.Normal();
  auto at = [&](const V2& p) { return frame.At(p[0], p[1]); };
  std::vector<P2> base = RandConvex2(r, r.chance(3, 4) ? r.range(3, 6) : r.range(7, 14), 6);
  std::vector<V2> a2;
  for (auto& p : base) a2.push_back(V2(Q(p.x), Q(p.y)));
  size_t e = r.below(a2.size());
  const V2 V = a2[e], W = a2[(e + 1) % a2.size()];
  const V2 U = a2[(e + a2.size() - 1) % a2.size()], X = a2[(e + 2) % a2.size()];
  V2 d = W - V;
  V2 out(d[1], -d[0]);
  // The other polygon is beyond the edge.
  auto beyond = [&](const V2& p) { return sgn(Q((p - V)[0] * out[0] + (p - V)[1] * out[1])) > 0; };
  std::vector<V2> pts{V, W};
  size_t extra = r.range(1, 4);
  for (size_t tries = 0; tries < 40 && pts.size() < 2 + extra; ++tries) {
    V2 p;
    Q t = r.coin() ? Q(1) : MakeQ((long)r.range(1, 9), (long)r.range(1, 4));
    switch (r.below(4)) {
      case 0: p = V2(V[0] + (V - U)[0] * t, V[1] + (V - U)[1] * t); break;
      case 1: p = V2(W[0] + (W - X)[0] * t, W[1] + (W - X)[1] * t); break;
      case 2: {
        Q s = MakeQ((long)r.range(-2, 6), 4);
        p = V2(V[0] + d[0] * s + out[0] * t, V[1] + d[1] * s + out[1] * t);
        break;
      }
      default: p = V2(Q((long)r.range(-9, 9)), Q((long)r.range(-9, 9)));
    }
    if (beyond(p)) pts.push_back(p);
  }
  if (pts.size() < 3) pts.push_back(V2(V[0] + out[0], V[1] + out[1]));
  std::vector<V2> b2 = Hull(pts);
  // Additional collinear vertices in b.
  if (r.chance(1, 4)) {
    std::vector<V2> more;
    for (size_t i = 0; i < b2.size(); ++i) {
      more.push_back(b2[i]);
      V2 n = b2[(i + 1) % b2.size()];
      bool shared = b2[i][0] == W[0] && b2[i][1] == W[1] && n[0] == V[0] && n[1] == V[1];
      if (!shared && r.chance(1, 3)) more.push_back(V2((b2[i][0] + n[0]) / 2, (b2[i][1] + n[1]) / 2));
    }
    b2 = more;
  }
  bool tilt = r.chance(1, 6);
  Q tilt_by = tilt ? (r.coin() ? MakeQ((long)r.range(1, 5), 3) : MakeQ((long)r.range(-5, -1), 1000003)) : Q(0);
  GenPoly ga, gb;
  for (auto& p : a2) ga.v.push_back(at(p));
  for (auto& p : b2) {
    Q dist = (p - V)[0] * out[0] + (p - V)[1] * out[1];
    gb.v.push_back(at(p) + normal * Q(tilt_by * dist));
  }
  ga.normal = normal;
  gb.normal = VecArea(gb.v);
  std::rotate(ga.v.begin(), ga.v.begin() + r.below(ga.v.size()), ga.v.end());
  std::rotate(gb.v.begin(), gb.v.begin() + r.below(gb.v.size()), gb.v.end());
  FinishPoly(r, ga, true);
  FinishPoly(r, gb, true);
  ObservePoly(ga);
  ObservePoly(gb);
  TagPoly pa = MakeTagPoly(ga), pb = MakeTagPoly(gb);
  int no_merge = r.below(3);
  for (size_t i = 0; i < pa.vertex_count(); ++i) {
    pa.edge(i).tag = 100 + i;
    pa.edge(i).mergeable = no_merge == 0 || (no_merge == 1 && r.coin());
  }
  for (size_t i = 0; i < pb.vertex_count(); ++i) {
    pb.edge(i).tag = 200 + i;
    pb.edge(i).mergeable = no_merge == 0 || (no_merge == 1 && r.coin());
  }
  const V3 v3 = at(V), w3 = at(W);
  size_t ea = FindEdge(pa, v3, w3), eb = FindEdge(pb, w3, v3);
  std::string in = Desc(ga) + " and " + Desc(gb) + " edges " + std::to_string(ea) + " " + std::to_string(eb);
  VREQ(ea < pa.vertex_count() && eb < pb.vertex_count(), "harness-edge", in);
  const size_t na = pa.vertex_count(), nb = pb.vertex_count();
  // What is expected.
  std::vector<TaggedVertex> ta = Tagged(pa), tb = Tagged(pb), merged;
  std::vector<bool> can;
  std::vector<size_t> junction;
  for (size_t k = 0; k + 1 < na; ++k) {
    size_t i = (ea + 1 + k) % na;
    merged.push_back(ta[i]);
    can.push_back(pa.edge(i).mergeable);
  }
  size_t j1 = merged.size();  // V: the start of b's next edge.
  for (size_t k = 0; k + 1 < nb; ++k) {
    size_t i = (eb + 1 + k) % nb;
    merged.push_back(tb[i]);
    can.push_back(pb.edge(i).mergeable);
  }
  size_t j0 = 0;  // W.
  bool ok = !tilt;
  std::vector<size_t> remove;
  if (ok) {
    size_t m = merged.size();
    for (size_t j : {j0, j1}) {
      V3 in_dir = merged[j].v - merged[(j + m - 1) % m].v, out_dir = merged[(j + 1) % m].v - merged[j].v;
      V3 c = Cross(in_dir, out_dir);
      if (c.IsZero()) {
        if (sgn(Dot(in_dir, out_dir)) < 0) ok = false;
        else if (can[(j + m - 1) % m] && can[j]) remove.push_back(j);
      } else if (sgn(Dot(c, normal)) < 0) {
        ok = false;
      }
    }
  }
  std::vector<TaggedVertex> want;
  for (size_t i = 0; i < merged.size(); ++i)
    if (std::find(remove.begin(), remove.end(), i) == remove.end()) want.push_back(merged[i]);
  V3 ev = w3 - v3;
  int dim;
  do dim = r.below(3); while (sgn(ev[dim]) == 0);
  auto check = [&](auto& a, auto& b, bool got, const std::string& key) {
    VREQ(got == ok, key + "-result", in << " gave " << got);
    if (got) {
      VREQ(b.vertex_count() == 0, key + "-other-not-emptied", in);
      CheckPolygon(a, key + "-merged");
      VREQ(SameTagged(Tagged(a), want), key + "-vertices", in << " gave " << S(Tagged(a)) << " expected " << S(want));
    } else {
      VREQ(SameTagged(Tagged(a), ta) && SameTagged(Tagged(b), tb), key + "-changed-on-failure", in);
      CheckPolygon(a, key + "-failed");
      CheckPolygon(b, key + "-failed");
    }
  };
  {
    BoxPoly a(pa), b(pb);
    bool got = a.TryMergePolygon(dim, ea, b, eb);
    check(a, b, got, "merge-boxed");
    CheckBox(a, "merge-box", in);
    if (!got) CheckBox(b, "merge-box", in);
  }
  {
    TagPoly a = pa, b = pb;
    bool got = a.TryMergePolygon(dim, ea, b, eb);
    check(a, b, got, "merge");
    Count(got ? "merged" : tilt ? "refused_normal" : "refused_concave");
    if (got) {
      NonTrivial();
      Count("collinear_vertices_removed", remove.size());
    }
  }
  // Split, and merge again.
  {
    GenPoly g = RandPoly(r, r.range(3, 12), grid);
    HalfSpace3 h = RandSplit(r, g, grid);
    TagPoly p = MakeTagPoly(g);
    ConvexPolygonSplitInfo info = p.GetSplitInfo(h);
    if (info.ShouldEmitNegativeChild() && info.ShouldEmitPositiveChild()) {
      std::string sin = Desc(g) + " split by " + Str(h);
      auto c = p.CreateSplitChildren(info);
      TagPoly n(std::move(c.first)), q(std::move(c.second));
      size_t nv = n.vertex_count();
      V3 s = ToV(n.vertex(nv - 2)), t = ToV(n.vertex(nv - 1));
      size_t en = nv - 2, eq = FindEdge(q, t, s);
      VREQ(eq < q.vertex_count(), "remerge-edge", sin);
      int dd;
      do dd = r.below(3); while (sgn(Q(t[dd] - s[dd])) == 0);
      bool swap = r.coin();
      bool got = swap ? q.TryMergePolygon(dd, eq, n, en) : n.TryMergePolygon(dd, en, q, eq);
      VREQ(got, "remerge-refused", sin);
      std::vector<V3> back = CheckPolygon(swap ? q : n, "remerge");
      // A collinear vertex that the split went through is removed.
      std::vector<V3> expect;
      for (size_t i = 0; i < g.v.size(); ++i) {
        const V3 &a = g.v[(i + g.v.size() - 1) % g.v.size()], &b = g.v[i], &c2 = g.v[(i + 1) % g.v.size()];
        if (Side(h, b) == 0 && Cross(b - a, c2 - b).IsZero()) continue;
        expect.push_back(b);
      }
      VREQ(SameCycle(back, expect) >= 0, "remerge-vertices", sin << " gave " << S(back) << " expected " << S(expect));
      Count("remerged");
    }
  }
  // The rest of the mutations, and equality.
  {
    TagPoly p = pa;
    VREQ(p == pa && !(p != pa), "equal-copy", in);
    p.RotateEdges(r.below(na));
    VREQ(SameTagged(Tagged(p), ta), "rotate", in);
    CheckPolygon(p, "rotate");
    VREQ(p == pa && pa == p, "equal-rotated", in);
    p.SortVertices();
    VREQ(SameTagged(Tagged(p), ta) && p.GetMinimumIndex() == 0, "sort", in);
    // Another representation of the same polygon.
    GenPoly g2 = ga;
    g2.v = VerticesOf(p);
    FinishPoly(r, g2, true);
    TagPoly p2 = MakePoly<TagPoly>(g2);
    std::map<std::string, int> tags;
    for (auto& t : ta) tags[::vf::S(t.v)] = t.tag;
    for (size_t i = 0; i < na; ++i) p2.edge(i).tag = tags[::vf::S(ToV(p2.vertex(i)))];
    VREQ(p2 == p && p == p2, "equal-rescaled", in);
    size_t k = r.below(na);
    int keep = p2.edge(k).tag;
    p2.edge(k).tag = -5;
    VREQ(p2 != p && p != p2, "unequal-edge-data", in << " with edge " << k << " changed");
    p2.edge(k).tag = keep;
    // A moved vertex.
    GenPoly g3 = g2;
    size_t m = r.below(na);
    const V3 &q0 = g2.v[(m + na - 1) % na], &q1 = g2.v[m], &q2 = g2.v[(m + 1) % na];
    if (!Cross(q1 - q0, q2 - q1).IsZero()) {
      g3.v[m] = q1 + (q0 - q1) * MakeQ(1, 64) + (q2 - q1) * MakeQ(1, 128);
      FinishPoly(r, g3, false);
      TagPoly p3 = MakePoly<TagPoly>(g3);
      for (size_t i = 0; i < na; ++i) p3.edge(i).tag = p2.edge(i).tag;
      VREQ(p3 != p && p != p3, "unequal-vertex", in << " with vertex " << m << " moved");
    }
    // SplitEdge
    k = r.below(na);
    V3 s = ToV(p.vertex(k)), t = ToV(p.vertex((k + 1) % na));
    V3 mid = s + (t - s) * MakeQ((long)r.range(1, 6), 7);
    std::vector<TaggedVertex> split_want = Tagged(p);
    split_want.insert(split_want.begin() + k + 1, TaggedVertex{mid, split_want[k].tag});
    p.SplitEdge(k, MakeHomo(mid, r));
    CheckPolygon(p, "split-edge");
    VREQ(SameTagged(Tagged(p), split_want) && ToV(p.vertex(k + 1)) == mid, "split-edge-vertices", in << " at " << k << " gave " << S(Tagged(p)));
    VREQ(p != pa && pa != p, "unequal-vertex-count", in);
    // Invert
    std::vector<V3> before = VerticesOf(p);
    V3 n0 = ToV(p.plane().normal());
    p.Invert();
    CheckPolygon(p, "invert");
    VREQ(SameCycle(VerticesOf(p), Reversed(before)) >= 0, "invert-vertices", in);
    VREQ(SameDir(ToV(p.plane().normal()), n0 * Q(-1)), "invert-normal", in);
    // Moves.
    TagPoly moved(std::move(p));
    VREQ(SameCycle(VerticesOf(moved), Reversed(before)) >= 0, "move-vertices", in);
    TagPoly assigned = pb;
    assigned = std::move(moved);
    VREQ(SameCycle(VerticesOf(assigned), Reversed(before)) >= 0, "move-assign-vertices", in);
    CheckPolygon(assigned, "move-assign");
    VREQ(TagPoly() == TagPoly(), "equal-empty", "");
    VREQ(assigned != TagPoly() && TagPoly() != assigned, "unequal-empty", "");
  }
  if (WantSample()) Sample(in.substr(0, 900));
}

// ---------------------------------------------------------------------------
// P04: area and centroid

PROPERTY(P04) {
  const int grid = RandPolyGrid(r);
  GenPoly g = RandPoly(r, RandCount(r), grid);
  ObservePoly(g);
  PlainPoly p = MakePoly<PlainPoly>(g);
  std::string in = Desc(g);
  // Twice the vector area, and the area weighted centroid.
  V3 area = VecArea(g.v);
  V3 sum(0, 0, 0);
  Q total = 0;
  Q nn = Dot(g.normal, g.normal);
  for (size_t i = 1; i + 1 < g.v.size(); ++i) {
    Q a = Dot(Cross(g.v[i] - g.v[0], g.v[i + 1] - g.v[0]), g.normal) / nn;
    sum = sum + (g.v[0] + g.v[i] + g.v[i + 1]) * a;
    total += a;
  }
  V3 centroid = sum * Q(1 / (3 * total));
  bool negative_w = false;
  for (auto& v : g.p) negative_w |= v.w().GetSign() < 0;
  if (negative_w) Count("negative_denominators");
  if (g.v.size() > 3) NonTrivial();
  for (int d = 0; d < 3; ++d) {
    auto got = p.GetProjectedArea(d);
    mpz_class den = Z(got.second);
    VREQ(den != 0, "area-denominator", in);
    VREQ(MakeQ(Z(got.first), den) == area[d] / 2, "area", in << " dropping " << d << " gave " << got.first << "/" << got.second << " expected " << Q(area[d] / 2));
    Count("areas");
    if (sgn(area[d]) == 0) continue;
    HomoPoint2 c = p.GetProjectedCentroid(d);
    V2 want = Drop(centroid, d), gv = ToV(c);
    VREQ(gv[0] == want[0] && gv[1] == want[1], "projected-centroid", in << " dropping " << d << " gave " << c << " expected " << S(want));
  }
  VREQ(ToV(p.GetCentroid()) == centroid, "centroid", in << " gave " << p.GetCentroid() << " expected " << S(centroid));
  VREQ(InConvex(ToV(p.GetCentroid()), g.v, g.normal), "centroid-outside", in);
  if (WantSample()) Sample(in.substr(0, 600) + " centroid " + S(centroid));
}

// ---------------------------------------------------------------------------
// P05: bounding boxes of polygons through their life

PROPERTY(P05) {
  const int grid = RandPolyGrid(r);
  GenPoly g = RandPoly(r, RandCount(r), grid);
  ObservePoly(g);
  BoxPoly p(MakeTagPoly(g));
  std::string in = Desc(g);
  CheckBox(p, "box-new", in);
  BoxPoly direct(g.plane, g.drop, g.p);
  CheckBox(direct, "box-vertices", in);
  // Kept to merge with later.
  BoxPoly other;
  V3 s, t;
  bool have_other = false;
  for (int step = 0; step < 12; ++step) {
    int op = r.below(9);
    in += " op" + std::to_string(op);
    switch (op) {
      case 0: case 1: case 2: case 3: {
        GenPoly cur = g;
        cur.v = VerticesOf(p);
        HalfSpace3 h = RandSplit(r, cur, grid);
        in += Str(h);
        ConvexPolygonSplitInfo info = p.GetSplitInfo(h);
        if (!info.ShouldEmitNegativeChild() || !info.ShouldEmitPositiveChild()) break;
        std::pair<BoxPoly, BoxPoly> c;
        if (op < 2) c = p.CreateSplitChildren(info);
        else c = std::move(p).CreateSplitChildren(std::move(info));
        CheckBox(c.first, "box-neg-child", in);
        CheckBox(c.second, "box-pos-child", in);
        CheckChildren("box-split", c.first, c.second, cur, h, in);
        Count("children", 2);
        NonTrivial();
        s = ToV(c.first.vertex(c.first.vertex_count() - 2));
        t = ToV(c.first.vertex(c.first.vertex_count() - 1));
        if (r.coin()) {
          p = std::move(c.first);
          other = std::move(c.second);
        } else {
          std::swap(s, t);
          p = c.second;
          other = c.first;
        }
        have_other = true;
        CheckBox(p, "box-assigned", in);
        break;
      }
      case 4: {
        size_t k = r.below(p.vertex_count());
        p.RotateEdges(k);
        CheckBox(p, "box-rotate", in);
        break;
      }
      case 5:
        p.SortVertices();
        CheckBox(p, "box-sort", in);
        break;
      case 6: {
        if (!have_other) break;
        size_t a = FindEdge(p, s, t), b = FindEdge(other, t, s);
        have_other = false;
        if (a == p.vertex_count() || b == other.vertex_count()) break;
        int dim;
        do dim = r.below(3); while (sgn(Q(t[dim] - s[dim])) == 0);
        if (p.TryMergePolygon(dim, a, other, b)) Count("merges");
        CheckBox(p, "box-merge", in);
        break;
      }
      case 7: {
        size_t n = p.vertex_count(), k = r.below(n);
        V3 a = ToV(p.vertex(k)), b = ToV(p.vertex((k + 1) % n));
        p.SplitEdge(k, MakeHomo(a + (b - a) * MakeQ((long)r.range(1, 4), 5), r));
        CheckBox(p, "box-split-edge", in);
        Count("edge_splits");
        have_other = false;
        break;
      }
      default: {
        BoxPoly copy(p);
        CheckBox(copy, "box-copy", in);
        BoxPoly moved(std::move(copy));
        CheckBox(moved, "box-move", in);
        if (r.coin()) {
          std::vector<V3> before = VerticesOf(moved);
          V3 n0 = ToV(moved.plane().normal());
          moved.Invert();
          CheckBox(moved, "box-invert", in);
          VREQ(SameCycle(VerticesOf(moved), Reversed(before)) >= 0, "box-invert-vertices", in);
          VREQ(SameDir(ToV(moved.plane().normal()), n0 * Q(-1)), "box-invert-normal", in);
        }
        p = moved;
        if (r.coin()) p = std::move(moved);
        CheckBox(p, "box-move-assign", in);
        // p may be inverted now.
        g.normal = ToV(p.plane().normal());
        g.plane = p.plane();
        have_other = false;
      }
    }
    CheckPolygon(p, "box-polygon");
    Observe(op);
  }
  if (WantSample()) Sample(in.substr(0, 900));
}

VERIF_MAIN

// Half-edges and their partners.
#include "scene.h"

#include "walnut/edge_line_connector.h"

namespace vf {
using namespace walnut;

// The direction from an edge, along `line`, into its facet: the normal of the
// facet crossed with the direction of the edge.
inline V3 Into(const V3& normal, const V3& dir) { return Cross(normal, dir); }

// Compares the counter-clockwise angles about `axis` from `ref`, all of the
// vectors being perpendicular to `axis`.
inline bool AngleLess(const V3& axis, const V3& ref, const V3& a, const V3& b) {
  auto half = [&](const V3& v) {
    Q s = Dot(axis, Cross(ref, v));
    if (sgn(s) > 0) return 0;
    if (sgn(s) < 0) return 1;
    return sgn(Dot(ref, v)) > 0 ? 0 : 1;
  };
  auto zero = [&](const V3& v) { return half(v) == 0 && Cross(ref, v).IsZero(); };
  if (zero(a) || zero(b)) return zero(a) && !zero(b);
  if (half(a) != half(b)) return half(a) < half(b);
  return sgn(Dot(axis, Cross(a, b))) > 0;
}

struct HalfEdge {
  size_t poly, index;
  V3 a, b, normal;
  bool Covers(const V3& p) const {
    for (int k = 0; k < 3; ++k) {
      bool up = a[k] < b[k];
      if (p[k] < (up ? a : b)[k] || p[k] > (up ? b : a)[k]) return false;
    }
    return OnSegment(p, a, b) && !(p == a) && !(p == b);
  }
};

template <typename Polys>
std::vector<HalfEdge> AllEdges(const Polys& polys) {
  std::vector<HalfEdge> out;
  for (size_t i = 0; i < polys.size(); ++i) {
    std::vector<V3> v = VerticesOf(polys[i]);
    V3 n = VecArea(v);
    for (size_t j = 0; j < v.size(); ++j) out.push_back({i, j, v[j], v[(j + 1) % v.size()], n});
  }
  return out;
}

// Checks all of the partners of a set of polygons. If `closed`, every edge has
// one. Only edges which
// `counts` accepts can lie between partners.
template <typename Polys>
void CheckPartners(Rng& r, const Polys& polys, bool closed, const std::string& key, const std::string& text,
                   const std::function<bool(const HalfEdge&)>& counts = [](const HalfEdge&) { return true; }) {
  typedef typename Polys::value_type Poly;
  std::set<const Poly*> known;
  for (auto& p : polys) known.insert(&p);
  std::vector<HalfEdge> edges = AllEdges(polys);
  std::map<std::pair<size_t, size_t>, size_t> number;
  for (size_t i = 0; i < edges.size(); ++i) number[{edges[i].poly, edges[i].index}] = i;
  for (auto& h : edges) {
    const Poly& p = polys[h.poly];
    auto& e = p.edge(h.index);
    VREQ(&e.polygon() == &p, key + "-owner", "edge " << h.index << " of " << h.poly << " " << text);
    VREQ(e.edge_index() == h.index, key + "-index", text);
    VREQ(ToV(e.next_vertex()) == h.b, key + "-next-vertex", text);
    if (e.partner() == nullptr) {
      VREQ(!closed, key + "-no-partner", S(h.a) << "-" << S(h.b) << " " << text);
      VREQ(e.GetNextAroundVertex() == nullptr, key + "-next-around-none", text);
      Count("unpaired");
      continue;
    }
    VREQ(known.count(&e.partner()->polygon()), key + "-partner-outside", "the partner is in another polygon " << text);
    VREQ(e.partner()->partner() == &e, key + "-asymmetric", S(h.a) << "-" << S(h.b) << " " << text);
    size_t q = &e.partner()->polygon() - polys.data();
    size_t k = e.partner()->edge_index();
    VREQ(k < polys[q].vertex_count(), key + "-partner-index", text);
    const HalfEdge& o = edges[number[{q, k}]];
    VREQ(o.a == h.b && o.b == h.a, key + "-not-reversed", S(h.a) << "-" << S(h.b) << " with " << S(o.a) << "-" << S(o.b) << " " << text);
    // Lines may be scaled.
    VREQ(SameDir(ToV(e.line().d()), h.b - h.a), key + "-line", text);
    // Going around the source vertex visits edges which start there.
    const auto* around = e.GetNextAroundVertex();
    VREQ(around != nullptr && ToV(around->vertex()) == h.a, key + "-next-around", text);
    Count("pairs");
    if (!closed) continue;
    // It gets back to where it started, because every step can be undone.
    size_t steps = 1;
    while (around != &e) {
      around = around->GetNextAroundVertex();
      VREQ(around && ++steps <= edges.size(), key + "-orbit", text);
    }
    CountMax("facets_around_vertex", steps);
  }
  // Nothing lies in between partners.
  for (auto& h : edges) {
    auto& e = polys[h.poly].edge(h.index);
    bool single = e.partner() == nullptr;
    if (single && !counts(h)) continue;
    V3 m = h.a + (h.b - h.a) * MakeQ((long)r.range(1, 99), 100);
    V3 dir = h.b - h.a;
    std::vector<const HalfEdge*> fan;
    for (auto& o : edges) if (o.Covers(m) && Cross(o.b - o.a, dir).IsZero() && counts(o)) fan.push_back(&o);
    if (fan.size() > 2) Count("shared_edges");
    CountMax("facets_at_edge", fan.size());
    if (single) {
      // Only because the closest facet faces the same way.
      V3 mine = Into(h.normal, dir), axis = dir * Q(-1);
      V3 best;
      bool any = false, opposite = false;
      for (auto* x : fan) {
        if (x == &h) continue;
        bool same = SameDir(x->b - x->a, dir);
        V3 u = Into(x->normal, same ? dir : dir * Q(-1));
        if (any && SameDir(u, best)) {
          opposite |= !same;
        } else if (!any || (SameDir(best, mine) || (!SameDir(u, mine) && AngleLess(axis, mine, u, best)))) {
          any = true;
          best = u;
          opposite = !same;
        }
      }
      VREQ(!opposite, key + "-not-connected", "at " << S(m) << " edge " << S(h.a) << "-" << S(h.b) << " " << text);
      continue;
    }
    const HalfEdge& o = edges[number[{(size_t)(&e.partner()->polygon() - polys.data()), e.partner()->edge_index()}]];
    // Towards the inside of the facets, which is behind them: clockwise about
    // the direction of an edge.
    V3 mine = Into(h.normal, dir), other = Into(o.normal, dir * Q(-1));
    for (auto* x : fan) {
      if (x == &h || x == &o) continue;
      V3 u = SameDir(x->b - x->a, dir) ? Into(x->normal, dir) : Into(x->normal, dir * Q(-1));
      // Going clockwise, x must not come before the partner. A facet in the same
      // direction as mine, and facing the other way, has nothing in between.
      V3 axis = dir * Q(-1);
      VREQ(!AngleLess(axis, mine, u, other) || SameDir(u, mine), key + "-not-closest", "at " << S(m) << " edge " << S(h.a) << "-" << S(h.b)
           << " mine " << S(mine) << " partner " << S(other) << " between " << S(u) << " " << text);
    }
  }
}

template <typename Visitor>
void RunConnecting(Rng& r, const Scene& s, Visitor& visitor, const std::string& error) {
  BSPTree<> tree;
  FillTree(r, s, tree);
  tree.Traverse(visitor, s.kd);
  VREQ(error.empty(), "O03-connecting-error", error << " " << s.Text());
}

template <typename Parent>
void ConnectScene(Rng& r, const Scene& s) {
  std::string error;
  F f = s.expr.f;
  ConnectingVisitor<F, Parent> visitor(f, [&](const std::string& e) { if (error.empty()) error = e; });
  RunConnecting(r, s, visitor, error);
  visitor.FilterEmptyPolygons();
  for (auto& p : visitor.polygons()) {
    VREQ(p.vertex_count() >= 3, "O03-empty", s.Text());
    CheckPolygon(p, "O03");
    MaybeCheckBox(p, "O03-box", 0);
    VREQ(p.IsValidState(), "O03-valid-state", s.Text());
  }
  size_t n = visitor.polygons().size();
  std::string text = s.Text();
  CheckPartners(r, visitor.polygons(), true, "O03", text);
  auto polys = visitor.TakePolygons();
  VREQ(polys.size() == n, "O03-take", text);
  if (r.coin()) CheckPartners(r, polys, true, "O03-taken", text);
  if (r.coin()) {
    // Moving the polygons one at a time keeps them connected.
    std::vector<typename decltype(polys)::value_type> moved;
    for (auto& p : polys) moved.push_back(std::move(p));
    CheckPartners(r, moved, true, "O03-moved", text);
    Count("moved");
  }
  Observe(n);
  for (auto& p : polys) if (p.vertex_count()) Observe(HashV(ToV(p.vertex(0))));
  if (n > 3) NonTrivial();
  Count("facets", n);
  if (WantSample() && n > 6) Sample(text + " -> " + std::to_string(n) + " connected facets");
}

PROPERTY(O03) {
  Scene s = RandScene(r, st().thorough || r.chance(1, 6) ? 2 : 1, true);
  if (st().verbose) fprintf(stderr, "SCENE %s\n", s.Text().c_str());
  if (r.coin()) ConnectScene<ConvexPolygon<>>(r, s);
  else ConnectScene<AABBConvexPolygon<>>(r, s);
}

// ---------------------------------------------------------------------------
// Merging of what the tree had to cut.

static Faces ConvexMesh(Rng& r) {
  Faces f;
  switch (r.below(3)) {
    case 0: {
      V3 lo((long)r.range(-3, 2), (long)r.range(-3, 2), (long)r.range(-3, 2));
      f = BoxMesh(lo, lo + V3((long)r.range(1, 4), (long)r.range(1, 4), (long)r.range(1, 4)));
      break;
    }
    case 1: case 2: {
      // A coarse grid gives facets of many vertices.
      bool coarse = r.coin();
      size_t n = coarse ? r.range(6, 16) : r.range(4, 12);
      long range = coarse ? 2 : 4;
      do {
        std::vector<V3> p;
        for (size_t i = 0; i < n; ++i) p.push_back(V3((long)r.range(-range, range), (long)r.range(-range, range), (long)r.range(-range, range)));
        f = HullMesh(p);
      } while (f.empty());
      break;
    }
  }
  if (r.chance(1, 3)) f = Transform(RandLinear(r), f);
  if (r.chance(1, 4)) f = Translate(f, RandV(r, kRational));
  r.shuffle(f);
  return f;
}

template <typename Parent>
void MergeScene(Rng& r, const Scene& s, size_t expected_planes) {
  std::string error;
  F f = s.expr.f;
  ConnectingVisitor<F, Parent> visitor(f, [&](const std::string& e) { if (error.empty()) error = e; });
  RunConnecting(r, s, visitor, error);
  visitor.FilterEmptyPolygons();
  std::set<V3> planes;
  Faces out;
  for (auto& p : visitor.polygons()) {
    out.push_back(CheckPolygon(p, "O07"));
    const Face& x = out.back();
    V3 n = FaceNormal(x);
    int d = 0;
    while (sgn(n[d]) == 0) ++d;
    n = n * Q(1 / abs(n[d]));
    VREQ(planes.insert(n).second, "O07-not-merged", "several facets face " << S(n) << ": " << S(out) << " " << s.Text());
    for (size_t i = 0; i < x.size(); ++i)
      VREQ(!Cross(x[(i + 1) % x.size()] - x[i], x[(i + 2) % x.size()] - x[(i + 1) % x.size()]).IsZero(), "O07-needless-vertex",
           "vertex " << S(x[(i + 1) % x.size()]) << " of " << S(x) << " " << s.Text());
  }
  if (expected_planes) VREQ(out.size() == expected_planes, "O07-facets", out.size() << " instead of " << expected_planes << " " << s.Text());
  std::string open = Unclosed(out);
  VREQ(open.empty(), "O07-unclosed", open << " out=" << S(out) << " " << s.Text());
  std::set<V3> corners;
  for (auto& x : out) corners.insert(x.begin(), x.end());
  size_t edges = 0;
  for (auto& x : out) edges += x.size();
  if (!out.empty())
    VREQ(corners.size() + out.size() == edges / 2 + 2, "O07-euler", corners.size() << " vertices " << edges << " half edges " << out.size() << " facets " << s.Text());
  Count("facets", out.size());
  if (out.empty()) Count("empty");
  else Count("polyhedra");
  Observe(out.size());
  for (auto& x : out) Observe(HashV(x[0]));
  if (out.size() > 3 && s.all.size() > out.size()) NonTrivial();
  if (WantSample() && out.size() > 4 && s.all.size() > out.size()) Sample(s.Text() + " -> " + std::to_string(out.size()) + " facets");
}

// A convex result has one facet in each plane, and only true corners.
PROPERTY(O07) {
  Scene s;
  size_t n = r.range(1, 3);
  std::vector<BSPContentId> ids;
  for (size_t i = 0; i < n; ++i) {
    s.mesh.push_back(ConvexMesh(r));
    Append(s.all, s.mesh.back());
    ids.push_back(i);
  }
  s.kd = RandKd(r);
  size_t expected = 0;
  F all = Wrap(IntersectIdsFilter(ids));
  if (n == 1 || r.chance(1, 3)) {
    // The first one, as the union with a part of it.
    s.expr.f = n == 1 && r.coin() ? Wrap(PolygonFilter(0)) : Wrap(MakeUnionFilter(PolygonFilter(0), all));
    s.expr.text = "pos(0) or all";
    std::set<V3> planes;
    for (auto& x : s.mesh[0]) {
      V3 m = FaceNormal(x);
      int d = 0;
      while (sgn(m[d]) == 0) ++d;
      planes.insert(m * Q(1 / abs(m[d])));
    }
    expected = planes.size();
    Count("restored");
  } else {
    s.expr.f = all;
    s.expr.text = "all";
    Count("intersections");
  }
  if (st().verbose) fprintf(stderr, "SCENE %s\n", s.Text().c_str());
  if (r.coin()) MergeScene<ConvexPolygon<>>(r, s, expected);
  else MergeScene<AABBConvexPolygon<>>(r, s, expected);
}

// ---------------------------------------------------------------------------
// The connector on its own.

typedef ConnectedPolygon<> CPoly;
typedef CPoly::EdgeRep CEdge;

// A facet next to a line, from parameter `from` to `to`.
struct Fin {
  size_t line;
  int dir;        // The index of the direction into the facet.
  int from, to;
  bool positive;  // Does the edge point along the line?
};

struct FanLine {
  V3 o, d;
  std::vector<V3> into;   // Sorted counter-clockwise about d.
  V3 At(const Q& t) const { return o + d * t; }
};

// Polarities along the fan which alternate, and so are closed.
PROPERTY(O04) {
  // A plane with a few lines.
  Frame frame = RandFrame(r, r.chance(1, 4) ? (int)kWord : (int)kSmall);
  V3 n = frame.Normal();
  int drop = RandDrop(r, n);
  size_t line_count = r.range(1, 3);
  bool open = r.chance(1, 4);
  std::vector<FanLine> lines;
  std::vector<Fin> fins;
  bool expect_error = false, duplicates = false;
  for (size_t i = 0; i < line_count; ++i) {
    FanLine l;
    V3 other;
    bool again;
    do {
      again = false;
      Q u((long)r.range(-2, 2)), v((long)r.range(-2, 2));
      l.o = frame.At(Q((long)r.range(-2, 2)), Q((long)r.range(-2, 2)));
      l.d = frame.a * u + frame.b * v;
      if (l.d.IsZero()) again = true;
      for (auto& x : lines) if (Cross(x.d, l.d).IsZero() && Cross(x.d, l.o - x.o).IsZero()) again = true;
    } while (again);
    // The connector takes lines as positive in the first dimension after the
    // dropped one in which they are not constant.
    {
      int k = sgn(l.d[(drop + 1) % 3]) ? (drop + 1) % 3 : (drop + 2) % 3;
      if (sgn(l.d[k]) < 0) l.d = l.d * Q(-1);
    }
    size_t dirs = r.range(2, 7);
    V3 e1 = Cross(l.d, n), e2 = Cross(l.d, e1);
    while (l.into.size() < dirs) {
      V3 u = e1 * Q((long)r.range(-3, 3)) + e2 * MakeQ((long)r.range(-3, 3), (long)r.range(1, 3));
      if (u.IsZero()) continue;
      bool dup = false;
      for (auto& x : l.into) dup |= SameDir(x, u);
      if (!dup) l.into.push_back(u);
    }
    std::sort(l.into.begin() + 1, l.into.end(), [&](const V3& a, const V3& b) { return AngleLess(l.d, l.into[0], a, b); });
    // For every direction, the facet which is there in the last interval.
    int intervals = r.range(1, 4);
    struct Open { int from; bool on; };
    // Up to one edge of each polarity.
    std::vector<std::array<Open, 2>> last(dirs, {{{0, false}, {0, false}}});
    for (int t = 0; t <= intervals; ++t) {
      std::vector<std::array<bool, 2>> on(dirs, {{false, false}});
      if (t < intervals) {
        // Choose what is there: polarities alternate going around.
        bool next = r.coin(), first = next;
        std::vector<std::pair<size_t, bool>> chosen;
        for (size_t k = 0; k < dirs; ++k) {
          if (r.chance(2, 3)) { chosen.push_back({k, next}); next = !next; }
          // Back to back facets. The order of the two in between others is
          // positive first.
          else if (next && r.chance(1, 4)) {
            chosen.push_back({k, true});
            chosen.push_back({k, false});
          }
        }
        if (next != first) chosen.pop_back();
        for (auto& c : chosen) on[c.first][c.second] = true;
        if (open && r.coin()) {
          size_t k = r.below(dirs);
          int p = r.below(2);
          on[k][p] = !on[k][p];
        }
        // Is it closed?
        std::vector<bool> seq;
        for (size_t k = 0; k < dirs; ++k) {
          // A positive edge and a negative edge in one direction are either
          // around the inside or the outside.
          if (on[k][1]) seq.push_back(true);
          if (on[k][0]) seq.push_back(false);
        }
        for (size_t k = 0; k < seq.size(); ++k) if (seq[k] == seq[(k + 1) % seq.size()]) expect_error = true;
      }
      for (size_t k = 0; k < dirs; ++k) for (int p = 0; p < 2; ++p) {
        Open& o = last[k][p];
        if (o.on && (!on[k][p] || r.chance(1, 3))) {
          fins.push_back({i, (int)k, o.from, t, p == 1});
          o.on = false;
        }
        if (on[k][p] && !o.on) o = {t, true};
      }
    }
    lines.push_back(l);
  }
  // Two facets in the same place, facing the same way.
  if (open && !fins.empty() && r.chance(1, 4)) {
    fins.push_back(fins[r.below(fins.size())]);
    expect_error = duplicates = true;
    Count("duplicates");
  }
  r.shuffle(fins);
  std::vector<CPoly> polys;
  polys.reserve(fins.size());
  std::string text = "drop=" + std::to_string(drop);
  // Uneven spacing.
  auto param = [&](int t) -> Q { return MakeQ(t * t + 2 * t - 3, 3); };
  for (auto& f : fins) {
    const FanLine& l = lines[f.line];
    V3 a = l.At(param(f.from)), b = l.At(param(f.to));
    V3 c = (a + b) * MakeQ(1, 2) + l.into[f.dir] + l.d * Q((long)r.range(-1, 1));
    Face x = f.positive ? Face{a, b, c} : Face{b, a, c};
    if (r.chance(1, 3)) {
      // A quadrilateral.
      V3 e = c + (x[1] - x[0]) * MakeQ(1, 2);
      x = {x[0], x[1], e, c};
    }
    polys.push_back(MakeFace<CPoly>(r, x, r.coin()));
    text += " " + S(x);
  }
  if (st().verbose) {
    fprintf(stderr, "FAN %s\n", text.c_str());
    for (auto& f : fins) fprintf(stderr, "FIN line %zu dir %d of %zu: %d..%d %c\n", f.line, f.dir, lines[f.line].into.size(), f.from, f.to, f.positive ? '+' : '-');
    fprintf(stderr, "FAN %s\n", expect_error ? "open" : "closed");
  }
  std::vector<Deed<CEdge>> deeds;
  std::vector<Deed<CEdge>> more;
  for (size_t i = 0; i < polys.size(); ++i) {
    const FanLine& l = lines[fins[i].line];
    for (size_t j = 0; j < polys[i].vertex_count(); ++j) {
      V3 a = ToV(polys[i].vertex(j)), b = ToV(polys[i].vertex((j + 1) % polys[i].vertex_count()));
      if (Cross(b - a, l.d).IsZero() && Cross(a - l.o, l.d).IsZero()) deeds.emplace_back(&polys[i].edge(j));
    }
  }
  VREQ(deeds.size() == fins.size(), "harness-fins", text);
  size_t empties = r.below(3);
  for (size_t i = 0; i < empties; ++i) deeds.emplace_back();
  r.shuffle(deeds);
  size_t errors = 0;
  auto log = [&](const std::string&) { ++errors; };
  EdgeLineConnector<CEdge> connector;
  if (r.coin()) {
    connector.ConnectUnsorted(deeds.begin(), deeds.end(), drop, log);
  } else {
    EdgeLineConnector<CEdge>::SortEdgesInPlane(deeds.begin(), deeds.end(), drop);
    connector.ConnectSorted(deeds.begin(), deeds.end(), drop, log);
  }
  VREQ((errors > 0) == expect_error, "O04-error", "reported " << errors << " expected " << expect_error << " " << text);
  Count(errors ? "open_fans" : "closed_fans");
  // The shape of the polygons stays, with more vertices.
  for (size_t i = 0; i < polys.size(); ++i) {
    CheckPolygon(polys[i], "O04");
    if (polys[i].vertex_count() > 4) Count("split_edges");
  }
  auto on_line = [&](const HalfEdge& h) {
    const FanLine& l = lines[fins[h.poly].line];
    return Cross(h.b - h.a, l.d).IsZero() && Cross(h.a - l.o, l.d).IsZero();
  };
  if (duplicates) return;
  CheckPartners(r, polys, false, "O04", text, on_line);
  if (!expect_error) {
    // Every part of an edge on the lines has a partner.
    std::vector<HalfEdge> edges = AllEdges(polys);
    size_t on_lines = 0;
    for (auto& h : edges) {
      if (!on_line(h)) continue;
      ++on_lines;
      VREQ(polys[h.poly].edge(h.index).partner() != nullptr, "O04-no-partner", S(h.a) << "-" << S(h.b) << " " << text);
    }
    Count("edges", on_lines);
  }
  Observe(fins.size());
  for (auto& p : polys) Observe(HashV(ToV(p.vertex(0))));
  if (fins.size() > 3) NonTrivial();
  if (WantSample() && fins.size() > 3) Sample(text);
}

// ---------------------------------------------------------------------------
// O06: editing facets which are connected.

template <typename Poly>
static void ConnectFacets(std::vector<Poly>& polys, bool open, const std::string& text) {
  typedef typename Poly::EdgeRep Edge;
  struct Line { V3 o, d; std::vector<Edge*> edges; };
  std::vector<Line> lines;
  for (auto& p : polys) {
    std::vector<V3> v = VerticesOf(p);
    for (size_t i = 0; i < v.size(); ++i) {
      V3 d = v[(i + 1) % v.size()] - v[i];
      Line* found = nullptr;
      for (auto& l : lines) if (Cross(l.d, d).IsZero() && Cross(l.d, v[i] - l.o).IsZero()) found = &l;
      if (!found) { lines.push_back({v[i], d, {}}); found = &lines.back(); }
      found->edges.push_back(&p.edge(i));
    }
  }
  // Splitting edges of one line moves those of others.
  std::vector<std::vector<Deed<Edge>>> deeds;
  for (auto& l : lines) {
    deeds.emplace_back();
    for (auto* e : l.edges) deeds.back().emplace_back(e);
  }
  for (size_t i = 0; i < lines.size(); ++i) {
    int drop = 0;
    while (sgn(lines[i].d[(drop + 1) % 3]) == 0) ++drop;
    EdgeLineConnector<Edge> connector;
    std::string errors;
    connector.ConnectUnsorted(deeds[i].begin(), deeds[i].end(), drop, [&](const std::string& m) { errors += m; });
    VREQ(open || errors.empty(), "O06-connect", errors << " " << text);
  }
}

// Edges which refuse to be merged with the edge before them.
struct PinEdge : public EdgeInfoRoot {
  bool pinned = false;

  PinEdge() = default;
  PinEdge(const PinEdge& o) : EdgeInfoRoot(), pinned(o.pinned) {}
  explicit PinEdge(const EdgeInfoRoot&) {}
  PinEdge(RValueKey<PinEdge> o) noexcept : pinned(o.get().pinned) {}
  PinEdge(const PinEdge&, const HomoPoint3&) {}
  PinEdge(const PinEdge& p, const PluckerLine&) : pinned(p.pinned) {}
  PinEdge(const PinEdge&, const HomoPoint3&, const PluckerLine&) {}
  PinEdge& operator=(const PinEdge& o) { pinned = o.pinned; return *this; }
  PinEdge& operator=(RValueKey<PinEdge> o) noexcept { pinned = o.get().pinned; return *this; }
  bool operator==(const PinEdge& o) const { return pinned == o.pinned; }
  bool operator!=(const PinEdge& o) const { return pinned != o.pinned; }
  bool operator==(const EdgeInfoRoot&) const { return true; }
  bool operator!=(const EdgeInfoRoot&) const { return false; }
  bool CanMerge(const PinEdge& next) const { return !next.pinned; }

 protected:
  void Merge(PinEdge&) {}
  template <typename E>
  void EdgeMoved(ConvexPolygon<E>&) {}
};

inline bool Pinned(const PinEdge& e) { return e.pinned; }
inline bool Pinned(const EdgeInfoRoot&) { return false; }
inline void Pin(PinEdge& e) { e.pinned = true; Count("pinned"); }
inline void Pin(EdgeInfoRoot&) {}

// What every facet looks like, independent of where it is.
template <typename Poly>
static std::multiset<std::vector<V3>> Shapes(const std::vector<Poly>& polys) {
  std::multiset<std::vector<V3>> out;
  for (auto& p : polys) {
    std::vector<V3> v = VerticesOf(p);
    if (v.empty()) continue;
    std::rotate(v.begin(), std::min_element(v.begin(), v.end()), v.end());
    out.insert(v);
  }
  return out;
}

template <typename Poly>
static void EditConnected(Rng& r) {
  Faces f;
  switch (r.below(4)) {
    case 0: f = BoxMesh(V3(0, 0, 0), V3((long)r.range(1, 3), (long)r.range(1, 3), (long)r.range(1, 3))); break;
    case 1: f = PrismMesh(r, r.range(3, 7), 4, r.range(1, 3)); break;
    default: f = VoxelMesh(r, r.range(1, 3), r.range(1, 3), r.range(1, 2), 1, 2);
  }
  if (f.empty()) { Count("empty"); return; }
  if (r.coin()) f = TriangulateSome(r, f, 1, 2);
  for (int k = r.below(3); k > 0; --k) f = CutSome(r, f, 1, 2);
  if (r.chance(1, 3)) f = Transform(RandLinear(r), f);
  r.shuffle(f);
  std::string text = S(f);
  if (st().verbose) fprintf(stderr, "FACETS %s\n", text.c_str());
  auto polys = MakeFaces<Poly>(r, f);
  bool open = polys.size() > 1 && r.chance(1, 5);
  if (open) { polys.erase(polys.begin() + r.below(polys.size())); Count("open"); }
  ConnectFacets(polys, open, text);
  CheckPartners(r, polys, !open, "O06", text);
  unsigned pins = r.pick(std::vector<unsigned>{2, 4, 10});
  for (auto& p : polys) for (size_t i = 0; i < p.vertex_count(); ++i) if (r.chance(1, pins)) Pin(p.edge(i));
  std::string log;
  auto check = [&] {
    for (size_t i = 0; i < polys.size(); ++i) {
      if (polys[i].vertex_count() == 0) continue;
      if (r.chance(1, 16)) VREQ(polys[i].IsValidState(), "O06-valid-state", "facet " << i << " after " << log << text);
      for (size_t j = 0; j < polys[i].vertex_count(); ++j) {
        auto& e = polys[i].edge(j);
        VREQ(&e.polygon() == &polys[i] && e.edge_index() == j, "O06-edit-owner", "after " << log << text);
        if (!e.partner()) { VREQ(open, "O06-edit-lost", "after " << log << text); continue; }
        VREQ(e.partner()->partner() == &e, "O06-edit-asymmetric", "after " << log << text);
        bool known = &e.partner()->polygon() >= polys.data() && &e.partner()->polygon() < polys.data() + polys.size();
        VREQ(known && e.partner()->edge_index() < e.partner()->polygon().vertex_count(), "O06-edit-outside", "after " << log << text);
        VREQ(e.partner()->vertex() == e.next_vertex() && e.partner()->next_vertex() == e.vertex(),
             "O06-edit-not-reversed", S(ToV(e.vertex())) << "-" << S(ToV(e.next_vertex())) << " with " << S(ToV(e.partner()->vertex())) << "-"
             << S(ToV(e.partner()->next_vertex())) << " after " << log << text);
        Count("edges_checked");
      }
    }
  };
  int steps = r.range(5, 40);
  size_t merged = 0;
  for (int s = 0; s < steps; ++s) {
    size_t i = r.below(polys.size());
    switch (r.below(8)) {
      case 7: {
        // Copies, and pieces, have edges of their own.
        if (polys[i].vertex_count() == 0) break;
        Poly copy(polys[i]);
        VREQ(copy == polys[i], "O06-copy-differs", log << text);
        auto owners = [&](const Poly& p) {
          for (size_t j = 0; j < p.vertex_count(); ++j)
            VREQ(&p.edge(j).polygon() == &p && p.edge(j).edge_index() == j, "O06-copy-owner", log << text);
          VREQ(p.IsValidState(), "O06-copy-valid", log << text);
        };
        owners(copy);
        // Copies still name the partners of the original, so that only facets
        // without partners can be divided.
        Poly fresh = MakeFace<Poly>(r, VerticesOf(polys[i]), r.coin());
        owners(fresh);
        HalfSpace3 h = RandPlaneNear(r, {VerticesOf(copy)});
        auto info = fresh.GetSplitInfo(h);
        if (info.ShouldEmitNegativeChild() && info.ShouldEmitPositiveChild()) {
          auto both = r.coin() ? fresh.CreateSplitChildren(info) : std::move(fresh).CreateSplitChildren(std::move(info));
          owners(both.first);
          owners(both.second);
          VREQ(VecArea(CheckPolygon(both.first, "O06-copy")) + VecArea(CheckPolygon(both.second, "O06-copy")) == VecArea(VerticesOf(polys[i])),
               "O06-copy-area", log << text);
          Count("copies_split");
        }
        log += "copy; ";
        Count("copied");
        break;
      }
      case 0: {
        // A new home for all of them.
        auto shapes = Shapes(polys);
        std::vector<Poly> to;
        bool reserve = r.coin();
        if (reserve) to.reserve(polys.size());
        for (auto& p : polys) to.push_back(std::move(p));
        polys = std::move(to);
        VREQ(Shapes(polys) == shapes, "O06-edit-changed", log << text);
        log += "move all; ";
        Count("moved_all");
        break;
      }
      case 1: {
        auto shapes = Shapes(polys);
        size_t j = r.below(polys.size());
        if (i != j) {
          Poly t(std::move(polys[i]));
          polys[i] = std::move(polys[j]);
          polys[j] = std::move(t);
        }
        VREQ(Shapes(polys) == shapes, "O06-edit-changed", log << text);
        log += "swap " + std::to_string(i) + " " + std::to_string(j) + "; ";
        Count("swapped");
        break;
      }
      case 2: {
        if (polys[i].vertex_count() == 0) break;
        auto shapes = Shapes(polys);
        polys[i].SortVertices();
        std::vector<V3> v = VerticesOf(polys[i]);
        VREQ(v[0] == *std::min_element(v.begin(), v.end()), "O06-edit-sort", log << text);
        VREQ(Shapes(polys) == shapes, "O06-edit-changed", log << text);
        log += "sort " + std::to_string(i) + "; ";
        Count("sorted");
        break;
      }
      case 3: {
        // Remove those which were merged into others.
        for (size_t k = polys.size(); k-- > 0;)
          if (polys[k].vertex_count() == 0 && polys.size() > 1) { polys.erase(polys.begin() + k); Count("erased"); }
        log += "erase; ";
        break;
      }
      default: {
        if (polys[i].vertex_count() == 0) break;
        size_t k = r.below(polys[i].vertex_count());
        auto* o = polys[i].edge(k).partner();
        if (!o || &o->polygon() == &polys[i]) break;
        size_t j = &o->polygon() - polys.data(), l = o->edge_index();
        V3 a = ToV(polys[i].vertex(k)), b = ToV(polys[j].vertex(l));
        V3 area = VecArea(VerticesOf(polys[i])), other = VecArea(VerticesOf(polys[j]));
        auto shapes = Shapes(polys);
        int dim;
        do dim = r.below(3); while (sgn((b - a)[dim]) == 0);
        // The edges that meet where the edge between the facets starts and ends.
        bool keep[2];
        {
          auto &p = polys[i], &q = polys[j];
          size_t n = p.vertex_count(), m = q.vertex_count();
          auto *in = &p.edge((k + n - 1) % n), *out = &q.edge((l + 1) % m);
          keep[0] = Pinned(*out) || (in->partner() && Pinned(*in->partner()));
          in = &q.edge((l + m - 1) % m), out = &p.edge((k + 1) % n);
          keep[1] = Pinned(*out) || (in->partner() && Pinned(*in->partner()));
        }
        log += "merge " + std::to_string(i) + "." + std::to_string(k) + " and " + std::to_string(j) + "." + std::to_string(l) + "; ";
        if (!polys[i].TryMergePolygon(dim, k, polys[j], l)) {
          VREQ(Shapes(polys) == shapes, "O06-edit-refused-changed", log << text);
          Count("refused");
          break;
        }
        ++merged;
        Count("merged");
        VREQ(polys[j].vertex_count() == 0, "O06-edit-not-emptied", log << text);
        std::vector<V3> v = CheckPolygon(polys[i], "O06-edit-polygon");
        VREQ(VecArea(v) == area + other, "O06-edit-area", log << text);
        VREQ(SameDir(area, other), "O06-edit-bent", log << text);
        // The ends of the edge that is gone remain only if something needs them.
        for (size_t x = 0; x < v.size(); ++x) {
          if (!(v[x] == a) && !(v[x] == b)) continue;
          size_t before = (x + v.size() - 1) % v.size();
          if (!Cross(v[x] - v[before], v[(x + 1) % v.size()] - v[x]).IsZero()) continue;
          auto *p = polys[i].edge(before).partner(), *q = polys[i].edge(x).partner();
          if (keep[v[x] == a ? 0 : 1]) { Count("kept_pinned"); continue; }
          VREQ(p != q && (!p || !q || &p->polygon() != &q->polygon()), "O06-edit-redundant", S(v[x]) << " is not needed after " << log << text);
          Count("kept_collinear");
        }
        for (int x = 0; x < 2; ++x)
          VREQ(!keep[x] || std::count(v.begin(), v.end(), x ? b : a) == 1, "O06-edit-pinned", S(x ? b : a) << " is gone after " << log << text);
      }
    }
    check();
  }
  CheckPartners(r, polys, !open, "O06-after", log + text);
  Observe(text);
  Observe(log);
  if (merged) NonTrivial();
  if (WantSample() && merged > 2) Sample(log + text);
}

PROPERTY(O06) {
  if (r.chance(1, 3)) EditConnected<ConnectedPolygon<ConvexPolygon<>, void, PinEdge>>(r);
  else if (r.coin()) EditConnected<ConnectedPolygon<>>(r);
  else EditConnected<ConnectedPolygon<AABBConvexPolygon<>>>(r);
}

}  // namespace vf

VERIF_MAIN

// Boolean operations, from closed meshes to closed meshes, against the winding
// numbers of the inputs.
#include <deque>

#include "scene.h"

namespace vf {
using namespace walnut;

// The output as a set of faces, produced by one of the visitors.
Faces RunScene(Rng& r, const Scene& s, const std::string& key) {
  if (st().verbose) fprintf(stderr, "SCENE %s\n", s.Text().c_str());
  BSPTree<> tree;
  FillTree(r, s, tree);
  Faces out;
  std::string error;
  int passes = r.chance(1, 6) ? 2 : 1;
  if (passes == 2) {
    // An earlier traversal, of something else, which leaves the tree split.
    Expr other = RandExpr(r, s.mesh.size(), 1, false);
    CollectorVisitor<BSPTree<>::OutputPolygon, F> visitor(other.f);
    tree.Traverse(visitor, RandKd(r));
    Count("retraversals");
  }
  switch (s.expr.monotone ? r.below(3) : 0) {
    case 0: {
      CollectorVisitor<BSPTree<>::OutputPolygon, F> visitor(s.expr.f);
      if (s.kd == 6) tree.Traverse(visitor);
      else tree.Traverse(visitor, s.kd);
      out = CheckedFaces(visitor.polygons(), key);
      Count("collected");
      break;
    }
    case 1: {
      F f = s.expr.f;
      ConnectingVisitor<F> visitor(f, [&](const std::string& e) { if (error.empty()) error = e; });
      tree.Traverse(visitor, s.kd);
      visitor.FilterEmptyPolygons();
      out = CheckedFaces(visitor.polygons(), key);
      Count("connected");
      break;
    }
    default: {
      F f = s.expr.f;
      ConnectingVisitor<F, AABBConvexPolygon<>> visitor(f, [&](const std::string& e) { if (error.empty()) error = e; });
      tree.Traverse(visitor, s.kd);
      visitor.FilterEmptyPolygons();
      out = CheckedFaces(visitor.TakePolygons(), key);
      Count("connected_boxed");
    }
  }
  VREQ(error.empty(), key + "-connecting-error", error << " " << s.Text());
  return out;
}

void ObserveFaces(const Faces& f) {
  Observe(f.size());
  for (auto& x : f) Observe(HashV(x[0]));
}

// Points are inside the output exactly if they are inside the operation.
PROPERTY(O01) {
  Scene s = RandScene(r, st().thorough || r.chance(1, 6) ? 2 : 1, r.chance(3, 4));
  Faces out = RunScene(r, s, "O01");
  bool infinity = s.AtInfinity();
  Count("input_faces", s.all.size());
  Count("output_faces", out.size());
  if (infinity) Count("inside_at_infinity");
  Faces both = s.all;
  Append(both, out);
  int in = 0, outside = 0;
  for (int i = 0; i < 14; ++i) {
    V3 p = RandTestPoint(r, r.coin() || out.empty() ? s.all : out);
    if (OnSurface(s.all, p)) continue;
    VREQ(!OnSurface(out, p), "O01-surface-off-inputs", S(p) << " " << s.Text());
    bool expected = s.Inside(p, r);
    int w = Winding(out, p, r);
    if (!s.expr.monotone) {
      VREQ((w & 1) == (expected != infinity), "O01-parity",
           "at " << S(p) << " winding " << w << " expected " << expected << " - " << infinity << " out=" << S(out) << " " << s.Text());
      Count("parity_points");
    } else VREQ(w == (int)expected - (int)infinity, "O01-membership",
         "at " << S(p) << " winding " << w << " expected " << expected << " - " << infinity << " out=" << S(out) << " " << s.Text());
    Count("points");
    (expected ? in : outside)++;
  }
  Count("points_inside", in);
  Count("points_outside", outside);
  ObserveFaces(out);
  if (in && outside) NonTrivial();
  if (WantSample() && in && outside) Sample(s.Text() + " -> " + std::to_string(out.size()) + " facets");
}

// The output is closed, and every facet is where insideness changes.
PROPERTY(O02) {
  Scene s = RandScene(r, st().thorough || r.chance(1, 6) ? 2 : 1, true);
  Faces out = RunScene(r, s, "O02");
  std::string open = Unclosed(out);
  VREQ(open.empty(), "O02-unclosed", open << " out=" << S(out) << " " << s.Text());
  bool infinity = s.AtInfinity();
  for (int i = 0; i < 6 && !out.empty(); ++i) {
    const Face& x = out[r.below(out.size())];
    V3 c(0, 0, 0);
    Q total = 0;
    for (auto& v : x) {
      Q w((long)r.range(1, 50));
      c = c + v * w;
      total += w;
    }
    c = c * Q(1 / total);
    V3 n = FaceNormal(x);
    V3 below = c - n * Tiny(), above = c + n * Tiny();
    // Two solids that only touch along a facet stay apart: the output has both
    // of the facets, back to back.
    int same = 0, opposite = 0;
    for (auto& y : out) {
      V3 m = FaceNormal(y);
      if (!InConvex(c, y, m)) continue;
      if (SameDir(m, n)) ++same;
      else if (SameDir(m, n * Q(-1))) ++opposite;
    }
    VREQ(same == 1 && opposite <= 1, "O02-duplicate-facet", same << " facets, and " << opposite << " reversed, at " << S(c) << " " << s.Text());
    if (opposite) Count("back_to_back");
    if (OnSurface(s.all, below) || OnSurface(out, below) || OnSurface(s.all, above) || OnSurface(out, above)) continue;
    bool in_below = s.Inside(below, r), in_above = s.Inside(above, r);
    VREQ(in_below, "O02-facet-below", "facet " << S(x) << " is not above the inside " << s.Text());
    VREQ(in_above == (opposite == 1), "O02-facet-above", "facet " << S(x) << " is not below the outside " << s.Text());
    VREQ(Winding(out, below, r) == (int)in_below - (int)infinity, "O02-winding-below", "facet " << S(x) << " " << s.Text());
    VREQ(Winding(out, above, r) == (int)in_above - (int)infinity, "O02-winding-above", "facet " << S(x) << " " << s.Text());
    Count("facets_probed");
  }
  Count("facets", out.size());
  ObserveFaces(out);
  if (out.size() > 3) NonTrivial();
  if (WantSample() && out.size() > 6) Sample(s.Text() + " -> " + std::to_string(out.size()) + " facets");
}


template <typename Polys>
void AddPolys(Rng& r, BSPTree<>& tree, size_t id, Polys polys) {
  switch (r.below(4)) {
    case 0: tree.AddContents(id, polys); break;
    case 1: tree.AddContents(id, std::move(polys)); break;
    case 2: for (auto& p : polys) tree.AddContent(id, p); break;
    default: for (auto& p : polys) tree.AddContent(id, std::move(p));
  }
}

template <typename Polys>
void CheckChained(Rng& r, Scene s, Polys polys, std::unique_ptr<BSPTree<>> old) {
  Faces first = CheckedFaces(polys, "O05");
  bool reuse = r.chance(1, 3);
  if (!reuse && r.coin()) old.reset();
  std::unique_ptr<BSPTree<>> tree;
  if (reuse) {
    // The polygons point into the tree.
    std::vector<BSPContentId> ids;
    old->Reset();
    VREQ(old->root.IsLeaf() && old->root.contents().empty() && old->root.border_contents().empty() && old->root.content_info_by_id().empty(), "O05-reset", s.Text());
    VREQ(old->AllocateId() == 0 && old->AllocateId() == 1 && old->next_id() == 2, "O05-reset-ids", "");
    tree = std::move(old);
    Count("trees_reset");
  } else {
    tree.reset(new BSPTree<>());
  }
  Scene t;
  t.mesh.push_back(first);
  Append(t.all, first);
  size_t extra = r.below(3);
  for (size_t i = 0; i < extra; ++i) {
    Faces f = r.coin() ? s.mesh[r.below(s.mesh.size())] : RandMesh(r, 1);
    if (r.chance(1, 4)) f = Flipped(f);
    t.mesh.push_back(f);
    Append(t.all, f);
  }
  t.expr = RandExpr(r, t.mesh.size(), r.range(0, 1), true);
  t.kd = RandKd(r);
  bool pre = r.chance(1, 4);
  if (pre) {
    PreSplit(r, tree->root, t.all, 2, {});
    Count("presplit_trees");
  }
  bool last = r.coin();
  if (!last) AddPolys(r, *tree, 0, std::move(polys));
  for (size_t i = 1; i < t.mesh.size(); ++i) AddFaces(r, *tree, i, t.mesh[i]);
  if (last) AddPolys(r, *tree, 0, std::move(polys));
  Faces out;
  if (r.coin()) {
    CollectorVisitor<BSPTree<>::OutputPolygon, F> visitor(t.expr.f);
    tree->Traverse(visitor, t.kd);
    out = CheckedFaces(visitor.polygons(), "O05");
  } else {
    std::string error;
    F f = t.expr.f;
    ConnectingVisitor<F> visitor(f, [&](const std::string& e) { if (error.empty()) error = e; });
    tree->Traverse(visitor, t.kd);
    visitor.FilterEmptyPolygons();
    out = CheckedFaces(visitor.polygons(), "O05");
    VREQ(error.empty(), "O05-connecting-error", error << " first=" << s.Text() << " second=" << t.Text());
  }
  Count("chained");
  std::string open = Unclosed(out);
  VREQ(open.empty(), "O05-unclosed", open << " first=" << s.Text() << " second=" << t.Text());
  bool infinity = t.AtInfinity();
  int in = 0, outside = 0;
  for (int i = 0; i < 10; ++i) {
    V3 p = RandTestPoint(r, r.coin() || out.empty() ? t.all : out);
    if (OnSurface(t.all, p)) continue;
    VREQ(!OnSurface(out, p), "O05-surface-off-inputs", S(p) << " first=" << s.Text() << " second=" << t.Text());
    bool expected = t.Inside(p, r);
    int w = Winding(out, p, r);
    VREQ(w == (int)expected - (int)infinity, "O05-membership",
         "at " << S(p) << " winding " << w << " expected " << expected << " - " << infinity << " first=" << s.Text() << " second=" << t.Text());
    Count("points");
    (expected ? in : outside)++;
  }
  ObserveFaces(first);
  ObserveFaces(out);
  if (in && outside && first.size() > 3) NonTrivial();
  if (WantSample() && in && outside) Sample(t.expr.text + " of " + std::to_string(first.size()) + " output facets -> " + std::to_string(out.size()));
}

// The output of one operation is the input of the next.
PROPERTY(O05) {
  Scene s = RandScene(r, st().thorough ? 2 : 1, true);
  if (st().verbose) fprintf(stderr, "SCENE %s\n", s.Text().c_str());
  std::unique_ptr<BSPTree<>> tree(new BSPTree<>());
  FillTree(r, s, *tree);
  std::string error;
  F f = s.expr.f;
  auto log = [&](const std::string& e) { if (error.empty()) error = e; };
  switch (r.below(3)) {
    case 0: {
      CollectorVisitor<BSPTree<>::OutputPolygon, F> visitor(f);
      tree->Traverse(visitor, s.kd);
      Count("from_collector");
      CheckChained(r, s, std::vector<BSPTree<>::OutputPolygon>(visitor.polygons()), std::move(tree));
      break;
    }
    case 1: {
      ConnectingVisitor<F> visitor(f, log);
      tree->Traverse(visitor, s.kd);
      visitor.FilterEmptyPolygons();
      Count("from_connecting");
      CheckChained(r, s, visitor.TakePolygons(), std::move(tree));
      break;
    }
    default: {
      ConnectingVisitor<F, AABBConvexPolygon<>> visitor(f, log);
      tree->Traverse(visitor, s.kd);
      visitor.FilterEmptyPolygons();
      Count("from_connecting_boxed");
      CheckChained(r, s, visitor.TakePolygons(), std::move(tree));
    }
  }
  VREQ(error.empty(), "O05-connecting-error", error << " " << s.Text());
}

// Filters tell exactly what is inside, and whether the contents can change it.
PROPERTY(O08) {
  size_t ids = r.range(1, 4);
  Expr e = RandExpr(r, ids, r.below(4), r.coin());
  // Does the expression use every input at most once?
  std::map<std::string, int> uses;
  std::string number;
  bool once = true;
  for (char c : e.text + " ") {
    if (isdigit(c)) number += c;
    else if (!number.empty()) {
      if (++uses[number] > 1) once = false;
      number.clear();
    }
  }
  bool interesting = false;
  for (int round = 0; round < 6; ++round) {
    Infos infos(r.chance(1, 4) ? r.below(ids + 1) : r.range(ids, ids + 4));
    std::vector<int> w;
    std::vector<size_t> open;
    std::string text = e.text + " at";
    for (size_t i = 0; i < infos.size(); ++i) {
      infos[i].pwn = r.chance(1, 10) ? r.range(-300, 300) : r.range(-2, 2);
      if (r.coin()) infos[i].has_interior_polygons = r.range(1, 5);
      if (r.chance(1, 3)) infos[i].has_border_polygons = r.range(1, 5);
      w.push_back((int)infos[i].pwn);
      bool has = infos[i].has_interior_polygons || infos[i].has_border_polygons;
      if (has) open.push_back(i);
      text += " " + std::to_string(w[i]) + (has ? "*" : "");
    }
    std::pair<bool, bool> got = e.f(infos);
    bool now = e.eval(w);
    VREQ(got.first == now, "O08-inside", text << ": got " << got.first);
    // All of the winding numbers that the contents may lead to. Signs and
    // parities are all that matters.
    bool change = false;
    std::vector<int> v = w;
    size_t all = 1;
    for (size_t i = 0; i < open.size() && open[i] < ids + 3; ++i) all *= 5;
    size_t limit = all > 3125 ? 600 : all;
    for (size_t k = 0; k < limit && !change; ++k) {
      size_t code = all > 3125 ? r.below(all) : k;
      for (size_t i : open) {
        v[i] = (int)(code % 5) - 2;
        code /= 5;
      }
      if (e.eval(v) != now) change = true;
    }
    VREQ(got.second || !change, "O08-change-missed", text << ": said to be fixed");
    if (once && all <= 3125) {
      VREQ(got.second == change, "O08-fixed-missed", text << ": could not change");
      Count("exact_answers");
    }
    if (got.second) Count("could_change"); else if (!open.empty()) Count("fixed_with_contents");
    if (!got.second && !open.empty()) interesting = true;
    if (infos.size() < ids) Count("inputs_absent");
  }
  Count("filters");
  Observe(HashStr(e.text));
  if (interesting) NonTrivial();
  if (WantSample()) Sample(e.text);
}

template <typename Plane>
static void CheckSplit(const Face& f, size_t i, const Plane* split, bool edge, const char* what, const std::string& text) {
  if (!split) return;
  // The plane is read here, so it has to be in memory.
  VREQ(split->IsCoincident(MakeHomo1(f[i])), std::string("O09-") + what, "vertex " << i << " of " << S(f) << " " << text);
  if (edge) VREQ(split->IsCoincident(MakeHomo1(f[(i + 1) % f.size()])), std::string("O09-") + what, "edge " << i << " of " << S(f) << " " << text);
  Count("planes_named");
}

// Collected facets say which input and which planes they come from.
PROPERTY(O09) {
  Scene s = RandScene(r, st().thorough || r.chance(1, 6) ? 2 : 1, r.chance(3, 4));
  if (st().verbose) fprintf(stderr, "SCENE %s\n", s.Text().c_str());
  BSPTree<> tree;
  FillTree(r, s, tree);
  std::deque<HalfSpace3> planes;
  std::vector<BSPTree<>::OutputPolygon> polys;
  std::string text = s.Text();
  {
    CollectorVisitor<BSPTree<>::OutputPolygon, F> visitor(s.expr.f);
    tree.Traverse(visitor, s.kd);
    polys = visitor.TakePolygons(planes);
    VREQ(visitor.polygons().empty(), "O09-taken", text);
    if (r.chance(1, 3)) {
      // The visitor can be used again.
      BSPTree<> again;
      FillTree(r, s, again);
      again.Traverse(visitor, s.kd);
      std::deque<HalfSpace3> other;
      Faces f = CheckedFaces(visitor.TakePolygons(other), "O09");
      Faces mine = CheckedFaces(polys, "O09");
      V3 p = RandTestPoint(r, s.all);
      if (!OnSurface(s.all, p)) VREQ((Winding(f, p, r) & 1) == (Winding(mine, p, r) & 1), "O09-visitor-again", text);
      Count("visitors_again");
    }
  }
  Faces out = CheckedFaces(polys, "O09");
  for (size_t k = 0; k < polys.size(); ++k) {
    auto& p = polys[k];
    const Face& f = out[k];
    V3 n = FaceNormal(f);
    VREQ(p.id < s.mesh.size(), "O09-id", p.id << " " << text);
    // A point of the facet is on the surface of the input.
    V3 c(0, 0, 0);
    Q total = 0;
    for (auto& v : f) {
      Q w((long)r.range(1, 50));
      c = c + v * w;
      total += w;
    }
    c = c * Q(1 / total);
    bool on = false;
    for (auto& x : s.mesh[p.id]) {
      V3 m = FaceNormal(x);
      if ((SameDir(m, n) || SameDir(m, n * Q(-1))) && InConvex(c, x, m)) on = true;
    }
    VREQ(on, "O09-input", "facet " << S(f) << " is not from input " << p.id << " " << text);
    VREQ(!p.on_node_plane.split || p.on_node_plane.split->IsSameOrOpposite(p.plane()), "O09-facet-plane", S(f) << " " << text);
    for (size_t i = 0; i < f.size(); ++i) {
      auto& e = p.bsp_edge_info(i);
      CheckSplit(f, i, e.edge_first_coincident.split, true, "edge-first", text);
      CheckSplit(f, i, e.edge_last_coincident.split, true, "edge-last", text);
      CheckSplit(f, i, e.vertex_last_coincident.split, false, "vertex-last", text);
    }
  }
  Count("facets", polys.size());
  Count("partition_planes", planes.size());
  ObserveFaces(out);
  if (out.size() > 3) NonTrivial();
  if (WantSample() && out.size() > 3) Sample(text + " -> " + std::to_string(out.size()) + " facets");
}

}  // namespace vf

VERIF_MAIN

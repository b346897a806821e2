// Random boolean operations: expressions, meshes and trees.
#ifndef VERIF_SCENE_H
#define VERIF_SCENE_H

#include "common.h"
#include "geom.h"
#include "poly.h"
#include "mesh.h"

#include "walnut/boolean_operation_filter.h"
#include "walnut/bsp_tree.h"
#include "walnut/bsp_visitor.h"
#include "walnut/connecting_visitor.h"

namespace vf {
using namespace walnut;

typedef std::vector<BSPContentInfo> Infos;
typedef std::function<std::pair<bool, bool>(const Infos&)> F;
typedef std::function<bool(const std::vector<int>&)> Eval;

struct Expr {
  F f;
  Eval eval;
  std::string text;
  // False if lowering a winding number can move a point to the inside. The
  // facets of the output only have a consistent orientation if this is true.
  bool monotone = true;
};

inline int At(const std::vector<int>& w, size_t id) { return id < w.size() ? w[id] : 0; }

// Shared state behind std::function.
template <typename Filter>
F Wrap(Filter filter) {
  auto p = std::make_shared<Filter>(std::move(filter));
  return [p](const Infos& i) { return (*p)(i); };
}

inline Expr Leaf(Rng& r, size_t ids, bool monotone) {
  Expr e;
  size_t id = r.chance(1, 12) ? ids + r.below(3) : r.below(ids);
  switch (r.below(monotone ? 4 : 5)) {
    case 0:
      e.f = Wrap(InvertedPolygonFilter(id));
      e.eval = [id](const std::vector<int>& w) { return At(w, id) >= 0; };
      e.text = "inv(" + std::to_string(id) + ")";
      break;
    case 4:
      e.monotone = false;
      e.f = Wrap(OddPolygonFilter(id));
      e.eval = [id](const std::vector<int>& w) { return (At(w, id) & 1) != 0; };
      e.text = "odd(" + std::to_string(id) + ")";
      break;
    default:
      e.f = Wrap(PolygonFilter(id));
      e.eval = [id](const std::vector<int>& w) { return At(w, id) > 0; };
      e.text = "pos(" + std::to_string(id) + ")";
  }
  return e;
}

inline Expr RandExpr(Rng& r, size_t ids, int depth, bool monotone);

inline Expr IdsExpr(Rng& r, size_t ids) {
  Expr e;
  std::vector<BSPContentId> v;
  size_t n = r.chance(1, 10) ? 0 : r.range(1, ids + 1);
  for (size_t i = 0; i < n; ++i) v.push_back(r.below(ids));
  if (r.coin() && n) {
    // Each once.
    v.clear();
    for (size_t i = 0; i < ids; ++i) v.push_back(i);
    r.shuffle(v);
  }
  if (r.chance(1, 8)) v.insert(v.begin() + r.below(v.size() + 1), ids + r.below(3));
  int kind = r.below(3);
  e.text = kind == 0 ? "union_ids(" : kind == 1 ? "intersect_ids(" : "subtract_ids(";
  for (auto i : v) e.text += std::to_string(i) + " ";
  e.text += ")";
  bool by_set = r.coin();
  if (kind == 0) {
    UnionIdsFilter f;
    if (by_set) f.SetIds(v); else f = UnionIdsFilter(v);
    e.f = Wrap(f);
    e.eval = [v](const std::vector<int>& w) {
      for (auto i : v) if (At(w, i) > 0) return true;
      return false;
    };
  } else if (kind == 1) {
    IntersectIdsFilter f;
    if (by_set) f.SetIds(v); else f = IntersectIdsFilter(v);
    e.f = Wrap(f);
    e.eval = [v](const std::vector<int>& w) {
      for (auto i : v) if (At(w, i) <= 0) return false;
      return true;
    };
  } else {
    SubtractIdsFilter f;
    if (by_set) f.SetIds(v); else f = SubtractIdsFilter(v);
    e.f = Wrap(f);
    e.eval = [v](const std::vector<int>& w) {
      if (v.empty() || At(w, v[0]) <= 0) return false;
      for (size_t i = 1; i < v.size(); ++i) if (At(w, v[i]) < 0) return false;
      return true;
    };
  }
  Count(e.text.substr(0, e.text.find('(')));
  return e;
}

inline Expr RandExpr(Rng& r, size_t ids, int depth, bool monotone) {
  if (depth <= 0) return Leaf(r, ids, monotone);
  if (r.chance(1, 3)) return IdsExpr(r, ids);
  Expr a = RandExpr(r, ids, depth - 1 - (int)r.below(2), monotone);
  Expr b = RandExpr(r, ids, depth - 1 - (int)r.below(2), monotone);
  Expr e;
  auto ea = a.eval, eb = b.eval;
  e.monotone = a.monotone && b.monotone;
  switch (r.below(monotone ? 3 : 4)) {
    case 0:
      e.f = Wrap(MakeIntersectionFilter(a.f, b.f));
      e.eval = [ea, eb](const std::vector<int>& w) { return ea(w) && eb(w); };
      e.text = "and(" + a.text + "," + b.text + ")";
      Count("filter_intersection");
      break;
    case 1:
      e.f = Wrap(MakeUnionFilter(a.f, b.f));
      e.eval = [ea, eb](const std::vector<int>& w) { return ea(w) || eb(w); };
      e.text = "or(" + a.text + "," + b.text + ")";
      Count("filter_union");
      break;
    case 2:
      e.f = Wrap(MakeSubtractionFilter(a.f, b.f));
      e.eval = [ea, eb](const std::vector<int>& w) { return ea(w) && eb(w); };
      e.text = "sub(" + a.text + "," + b.text + ")";
      Count("filter_subtraction");
      break;
    default:
      e.monotone = false;
      e.f = Wrap(MakeXORFilter(a.f, b.f));
      e.eval = [ea, eb](const std::vector<int>& w) { return ea(w) != eb(w); };
      e.text = "xor(" + a.text + "," + b.text + ")";
      Count("filter_xor");
  }
  return e;
}

struct Scene {
  std::vector<Faces> mesh;
  Faces all;
  Expr expr;
  size_t kd;

  std::vector<int> Windings(const V3& p, Rng& r) const {
    std::vector<int> w;
    for (auto& m : mesh) w.push_back(Winding(m, p, r));
    return w;
  }
  bool Inside(const V3& p, Rng& r) const { return expr.eval(Windings(p, r)); }
  bool AtInfinity() const { return expr.eval(std::vector<int>(mesh.size(), 0)); }

  std::string Text() const {
    std::string o = expr.text + " kd=" + std::to_string((long)kd);
    for (size_t i = 0; i < mesh.size(); ++i) o += " mesh" + std::to_string(i) + "=" + S(mesh[i]);
    return o;
  }
};

inline size_t RandKd(Rng& r) {
  switch (r.below(4)) {
    case 0: return (size_t)-1;
    case 1: return 6;
    case 2: return r.below(6);
    default: return 0;
  }
}

inline Scene RandScene(Rng& r, int size, bool monotone) {
  Scene s;
  size_t n = r.range(1, 3);
  for (size_t i = 0; i < n; ++i) {
    Faces f;
    if (i > 0 && r.chance(1, 4)) {
      // Related to another: the same, flipped, or shifted.
      f = s.mesh[r.below(i)];
      switch (r.below(3)) {
        case 0: f = Flipped(f); break;
        case 1: f = Translate(f, V3((long)r.range(-1, 1), (long)r.range(-1, 1), (long)r.range(-1, 1))); break;
        default: f = TriangulateSome(r, f, 1, 1);
      }
      Count("meshes_related");
    } else if (i > 0 && r.chance(1, 15)) {
      Count("meshes_empty");
    } else {
      f = RandMesh(r, size);
      if (r.chance(1, 5)) f = Flipped(f);
    }
    s.mesh.push_back(f);
    Append(s.all, f);
  }
  s.expr = RandExpr(r, n, r.range(0, 2), monotone);
  s.kd = RandKd(r);
  return s;
}

template <typename Tree, typename Poly>
void AddMesh(Rng& r, Tree& tree, size_t id, std::vector<Poly> polys) {
  switch (r.below(4)) {
    case 0:
      tree.AddContents(id, polys);
      break;
    case 1:
      tree.AddContents(id, std::move(polys));
      break;
    case 2:
      for (auto& p : polys) tree.AddContent(id, p);
      break;
    default:
      for (auto& p : polys) tree.AddContent(id, std::move(p));
  }
}

template <typename Tree>
void AddFaces(Rng& r, Tree& tree, size_t id, const Faces& f) {
  switch (r.below(4)) {
    case 0: AddMesh(r, tree, id, MakeFaces<MutableConvexPolygon<>>(r, f)); break;
    case 1: AddMesh(r, tree, id, MakeFaces<ConvexPolygon<>>(r, f)); break;
    default: AddMesh(r, tree, id, MakeFaces<AABBConvexPolygon<>>(r, f));
  }
}

// A random plane, often through something.
inline HalfSpace3 RandPlaneNear(Rng& r, const Faces& all) {
  V3 n, at;
  if (!all.empty() && r.chance(2, 3)) {
    const Face& x = all[r.below(all.size())];
    at = x[r.below(x.size())];
    switch (r.below(4)) {
      case 0: n = FaceNormal(x); break;
      case 1: n = Cross(x[1] - x[0], RandV(r, kSmall)); break;
      case 2: n = Cross(x[1] - x[0], FaceNormal(x)); at = x[0]; break;
      default: {
        const Face& y = all[r.below(all.size())];
        const Face& z = all[r.below(all.size())];
        n = Cross(y[r.below(y.size())] - at, z[r.below(z.size())] - at);
      }
    }
  } else {
    at = RandV(r, kSmall);
    n = RandV(r, kSmall);
  }
  if (r.chance(1, 4)) {
    n = V3(0, 0, 0);
    n[r.below(3)] = 1;
  }
  while (n.IsZero()) n = RandV(r, kSmall);
  if (r.coin()) n = n * Q(-1);
  return MakePlane(r, n, at);
}

inline bool SamePlane(const HalfSpace3& a, const HalfSpace3& b) {
  V3 na = ToV(a.normal()), nb = ToV(b.normal());
  if (!Cross(na, nb).IsZero()) return false;
  int d = 0;
  while (sgn(na[d]) == 0) ++d;
  return Q(Z(a.d())) * nb[d] == Q(Z(b.d())) * na[d];
}

// Splits some of the leaves, with planes that differ from their ancestors.
template <typename Node>
void PreSplit(Rng& r, Node& node, const Faces& all, int depth, std::vector<HalfSpace3> above) {
  if (depth <= 0) return;
  if (node.IsLeaf()) {
    HalfSpace3 h = RandPlaneNear(r, all);
    for (auto& a : above) if (SamePlane(a, h)) return;
    node.Split(h);
    Count("manual_splits");
  }
  above.push_back(node.split());
  if (r.chance(2, 3)) PreSplit(r, *node.negative_child(), all, depth - 1, above);
  if (r.chance(2, 3)) PreSplit(r, *node.positive_child(), all, depth - 1, above);
}

// Fills in a tree, in any order.
template <typename Tree>
void FillTree(Rng& r, const Scene& s, Tree& tree) {
  bool pre = r.chance(1, 3);
  int depth = r.range(1, 3);
  std::vector<size_t> order;
  for (size_t i = 0; i < s.mesh.size(); ++i) order.push_back(i);
  r.shuffle(order);
  for (size_t i = 0; i < order.size(); ++i) {
    if (pre && r.coin()) PreSplit(r, tree.root, s.all, depth, {});
    AddFaces(r, tree, order[i], s.mesh[order[i]]);
  }
  if (pre && r.coin()) PreSplit(r, tree.root, s.all, depth, {});
  if (pre) Count("presplit_trees");
}

template <typename Polys>
Faces CheckedFaces(const Polys& polys, const std::string& key) {
  Faces out;
  for (auto& p : polys) {
    out.push_back(CheckPolygon(p, key));
    MaybeCheckBox(p, key + "-box", 0);
  }
  return out;
}

}  // namespace vf

#endif

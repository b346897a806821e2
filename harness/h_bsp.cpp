// BSP trees: what the nodes hold, winding numbers, borders, and splits.
#include "scene.h"

namespace vf {
using namespace walnut;

typedef BSPTree<> Tree;
typedef Tree::BSPNodeRep Node;
typedef Node::PolygonRep NodePoly;

struct Step {
  const Node* node;
  bool pos;
};
typedef std::vector<Step> Path;

template <typename Fn>
void EachLeaf(const Node& node, Path& path, const Fn& fn) {
  if (node.IsLeaf()) {
    fn(node, path);
    return;
  }
  path.push_back({&node, false});
  EachLeaf(*node.negative_child(), path, fn);
  path.back().pos = true;
  EachLeaf(*node.positive_child(), path, fn);
  path.pop_back();
}

// The part of a convex polytope with values of the plane of the given sign.
inline Faces ClipPolytope(const Faces& f, const V3& n, const Q& d, int sign) {
  Faces out;
  bool cut = false;
  std::vector<V3> cap;
  for (auto& x : f) {
    bool all_on = true, beyond = false;
    for (auto& v : x) {
      int s = sgn(Q(Dot(n, v) - d)) * sign;
      if (s != 0) all_on = false;
      if (s < 0) beyond = true;
    }
    if (all_on) {
      // Either the result is flat or empty, or this is a face of it.
      out.push_back(x);
      continue;
    }
    if (!beyond) {
      out.push_back(x);
      continue;
    }
    cut = true;
    std::vector<V3> part = Clip(x, n, d, sign);
    if (part.size() >= 3 && !VecArea(part).IsZero()) out.push_back(part);
    for (auto& v : part) {
      if (sgn(Q(Dot(n, v) - d)) == 0) {
        bool dup = false;
        for (auto& w : cap) dup |= w == v;
        if (!dup) cap.push_back(v);
      }
    }
  }
  if (cut) {
    for (auto& x : f) for (auto& v : x) {
      if (sgn(Q(Dot(n, v) - d)) != 0) continue;
      bool dup = false;
      for (auto& w : cap) dup |= w == v;
      if (!dup) cap.push_back(v);
    }
  }
  // Anything left with volume?
  bool inside = false;
  for (auto& x : out) for (auto& v : x) inside |= sgn(Q(Dot(n, v) - d)) * sign > 0;
  if (!inside) return Faces();
  if (cut && cap.size() >= 3) {
    Face c = OrderConvex(cap, n * Q(-sign));
    if (c.size() >= 3 && !VecArea(c).IsZero()) out.push_back(c);
  }
  return out;
}

inline Faces Cell(const Faces& box, const Path& path) {
  Faces f = box;
  for (auto& s : path) {
    if (f.empty()) break;
    f = ClipPolytope(f, ToV(s.node->split().normal()), Q(Z(s.node->split().d())), s.pos ? 1 : -1);
  }
  return f;
}

inline V3 InsidePoint(Rng& r, const Faces& f) {
  V3 p(0, 0, 0);
  Q total = 0;
  for (auto& x : f) for (auto& v : x) {
    Q w((long)r.range(1, 100));
    p = p + v * w;
    total += w;
  }
  return p * Q(1 / total);
}

inline Q Volume6(const Faces& f) {
  Q v = 0;
  for (auto& x : f) v += Dot(VecArea(x), x[0]);
  return v;
}

// A name for an oriented plane.
inline std::string PlaneName(const V3& n, const V3& on) {
  int k = 0;
  while (sgn(n[k]) == 0) ++k;
  V3 u = n * Q(1 / abs(n[k]));
  return S(u) + Q(Dot(u, on)).get_str();
}

inline HalfSpace3 NewPlane(Rng& r, const Path& path, const Faces& all) {
  while (true) {
    HalfSpace3 h = RandPlaneNear(r, all);
    bool dup = false;
    for (auto& s : path) dup |= SamePlane(s.node->split(), h);
    if (!dup) return h;
  }
}

// Goes to a random leaf.
inline Node& RandLeaf(Rng& r, Tree& tree, Path& path) {
  Node* n = &tree.root;
  path.clear();
  while (!n->IsLeaf()) {
    bool pos = r.coin();
    path.push_back({n, pos});
    n = pos ? n->positive_child() : n->negative_child();
  }
  return *n;
}

inline bool OnPlane(const HalfSpace3& h, const V3& p) { return Side(h, p) == 0; }

// The bookkeeping of one polygon of a leaf.
void CheckLeafPolygon(const NodePoly& p, const Path& path, bool border, const std::string& text) {
  std::vector<V3> v = CheckPolygon(p, "S01");
  MaybeCheckBox(p, "S01-box", 0);
  std::vector<int> on;   // Which planes of the path the polygon is on.
  for (size_t k = 0; k < path.size(); ++k) {
    const HalfSpace3& h = path[k].node->split();
    bool all_on = true;
    for (auto& x : v) {
      int s = Side(h, x);
      VREQ(s == 0 || (s > 0) == path[k].pos, "S01-wrong-cell", "vertex " << S(x) << " of " << S(v) << " beyond " << Str(h) << " " << text);
      if (s != 0) all_on = false;
    }
    if (all_on) on.push_back(k);
  }
  VREQ(border == !on.empty(), "S01-border", "polygon " << S(v) << " is " << (border ? "" : "not ") << "listed as on the border " << text);
  if (border) {
    VREQ(p.on_node_plane.split == &path[on[0]].node->split(), "S01-on-node-plane", S(v) << " " << text);
    VREQ(p.on_node_plane.pos_side == path[on[0]].pos, "S01-on-node-side", S(v) << " " << text);
    // The inside of a polygon is behind it.
    bool same = sgn(Dot(VecArea(v), ToV(p.on_node_plane.split->normal()))) > 0;
    VREQ(same != p.on_node_plane.pos_side, "S01-border-side", S(v) << " " << text);
    Count("border_polygons");
  } else {
    VREQ(p.on_node_plane.split == nullptr, "S01-on-no-plane", S(v) << " " << text);
    Count("interior_polygons");
  }
  for (size_t i = 0; i < v.size(); ++i) {
    const V3 &a = v[i], &b = v[(i + 1) % v.size()];
    const SplitSide* expect_first = nullptr;
    SplitSide first, last, vertex;
    (void)expect_first;
    for (auto& s : path) {
      const HalfSpace3& h = s.node->split();
      if (!OnPlane(h, a)) continue;
      vertex = SplitSide{&h, s.pos};
      if (!OnPlane(h, b)) continue;
      last = SplitSide{&h, s.pos};
      if (first.split == nullptr) first = last;
    }
    auto& e = p.edge(i);
    auto same = [](const SplitSide& x, const SplitSide& y) {
      return x.split == y.split && (x.split == nullptr || x.pos_side == y.pos_side);
    };
    VREQ(same(e.edge_first_coincident, first), "S01-edge-first", "edge " << i << " of " << S(v) << " border " << border << " " << text);
    VREQ(same(e.edge_last_coincident, last), "S01-edge-last", "edge " << i << " of " << S(v) << " border " << border << " " << text);
    VREQ(same(e.vertex_last_coincident, vertex), "S01-vertex-last", "vertex " << i << " of " << S(v) << " border " << border << " " << text);
    if (e.edge_created_by.split) {
      bool found = false;
      for (auto& s : path) {
        found |= e.edge_created_by.split == &s.node->split() && e.edge_created_by.pos_side == s.pos &&
                 OnPlane(s.node->split(), a) && OnPlane(s.node->split(), b);
      }
      VREQ(found, "S01-created-by", "edge " << i << " of " << S(v) << " " << text);
      Count("created_edges");
    }
    if (first.split && first.split != last.split) Count("corner_edges");
  }
}

struct Input {
  size_t id;
  Face face;
};

void CheckLeaves(const Tree& tree, const std::vector<Input>& inputs, const std::string& text) {
  std::map<std::string, V3> area;
  for (auto& in : inputs) {
    V3 n = VecArea(in.face);
    std::string name = std::to_string(in.id) + PlaneName(n, in.face[0]);
    auto it = area.emplace(name, V3(0, 0, 0)).first;
    it->second = it->second + n;
  }
  std::map<std::string, std::vector<std::pair<std::string, std::vector<V3>>>> pieces;
  Path path;
  size_t leaves = 0;
  EachLeaf(tree.root, path, [&](const Node& leaf, const Path& path) {
    ++leaves;
    std::map<size_t, size_t> interior, border;
    auto take = [&](const NodePoly& p) {
      std::vector<V3> v = VerticesOf(p);
      V3 n = VecArea(v);
      auto it = area.find(std::to_string(p.id) + PlaneName(n, v[0]));
      VREQ(it != area.end(), "S01-unknown", "no input in the plane of " << S(v) << " id " << p.id << " " << text);
      it->second = it->second - n;
    };
    for (auto& p : leaf.contents()) {
      CheckLeafPolygon(p, path, false, text);
      ++interior[p.id];
      take(p);
    }
    for (auto& p : leaf.border_contents()) {
      CheckLeafPolygon(p, path, true, text);
      ++border[p.id];
      take(p);
    }
    for (size_t id = 0; id < std::max<size_t>(leaf.content_info_by_id().size(), 8); ++id) {
      BSPContentInfo c = leaf.GetContentInfoForId(id);
      VREQ(c.has_interior_polygons == interior[id], "S01-count", "id " << id << " has " << interior[id] << " counted " << c.has_interior_polygons << " " << text);
      VREQ(c.has_border_polygons == border[id], "S01-border-count", "id " << id << " has " << border[id] << " counted " << c.has_border_polygons << " " << text);
      VREQ(c.has_polygons() == (interior[id] + border[id] > 0), "S01-has-polygons", text);
      VREQ(leaf.GetPWNForId(id) == c.pwn, "S01-pwn-getter", text);
    }
  });
  for (auto& a : area) VREQ(a.second.IsZero(), "S01-area", "in plane " << a.first << " left over " << S(a.second) << " " << text);
  CountMax("leaves", leaves);
}

static void Donate(Rng& r, Node& n, std::vector<Node::PolygonRep>& out) {
  for (auto& p : n.contents()) out.push_back(p);
  for (auto& p : n.border_contents()) out.push_back(p);
  if (n.IsLeaf()) return;
  Donate(r, *n.negative_child(), out);
  Donate(r, *n.positive_child(), out);
}

template <typename P>
static Face FaceOf(const P& p) {
  Face f;
  for (size_t i = 0; i < p.vertex_count(); ++i) f.push_back(ToV(p.vertex(i)));
  return f;
}

PROPERTY(S01) {
  if (r.chance(1, 50)) {
    // A node with nothing in it.
    Tree none;
    none.root.PushContentsToChildren();
    none.root.PushContentsToLeaves();
    VREQ(none.root.IsLeaf() && none.root.contents().empty() && none.root.border_contents().empty(), "S01-none", "");
    VREQ(!none.root.PickSplitPlane().IsValid(), "S01-none-plane", none.root.PickSplitPlane());
    Count("empty_nodes");
  }
  Faces all;
  std::vector<Input> inputs;
  std::string text;
  size_t ids = r.range(1, 3);
  Tree tree;
  int ops = r.range(3, 14);
  for (int op = 0; op < ops; ++op) {
    switch (r.below(5)) {
      case 0: case 1: {
        // Some polygons. They do not need to be closed.
        Faces f;
        if (r.coin()) {
          f = BasicMesh(r, 1);
          r.shuffle(f);
          if (f.size() > 6) f.resize(6);
        } else {
          for (size_t i = 0, n = r.range(1, 3); i < n; ++i) f.push_back(RandPoly(r, r.range(3, r.coin() ? 5 : 14), kSmall).v);
        }
        size_t id = r.below(ids);
        if (r.chance(1, 8) && !all.empty()) f = {Face(all[r.below(all.size())])};
        if (r.chance(1, 4)) {
          // The polygons come from another tree which has already split them,
          // and which may be gone.
          std::unique_ptr<Tree> donor(new Tree());
          AddFaces(r, *donor, r.below(3), f);
          for (int k = r.range(1, 3); k--;) {
            Path path;
            Node& leaf = RandLeaf(r, *donor, path);
            leaf.Split(NewPlane(r, path, f));
          }
          std::vector<Node::PolygonRep> pieces;
          Donate(r, donor->root, pieces);
          if (r.coin()) donor.reset();
          f.clear();
          for (auto& x : pieces) {
            f.push_back(FaceOf(x));
            inputs.push_back({id, f.back()});
          }
          Append(all, f);
          text += " donate " + std::to_string(id) + "=" + S(f);
          for (auto& x : pieces) {
            if (r.coin()) tree.AddContent(id, x);
            else tree.AddContent(id, std::move(x));
          }
          Count("donated", pieces.size());
          break;
        }
        for (auto& x : f) inputs.push_back({id, x});
        Append(all, f);
        text += " add " + std::to_string(id) + "=" + S(f);
        AddFaces(r, tree, id, f);
        break;
      }
      case 2: case 3: {
        Path path;
        Node& leaf = RandLeaf(r, tree, path);
        HalfSpace3 h = NewPlane(r, path, all);
        text += " split@";
        for (auto& s : path) text += s.pos ? '+' : '-';
        text += Str(h);
        if (r.coin()) leaf.Split(h);
        else leaf.Split(HalfSpace3(h));
        Count("manual_splits");
        break;
      }
      default: {
        Path path;
        Node& leaf = RandLeaf(r, tree, path);
        if (leaf.contents().empty()) break;
        text += " autosplit@";
        for (auto& s : path) text += s.pos ? '+' : '-';
        leaf.Split();
        Count("automatic_splits");
      }
    }
    if (r.chance(1, 3)) CheckLeaves(tree, inputs, text);
  }
  if (st().verbose) fprintf(stderr, "OPS %s\n", text.c_str());
  CheckLeaves(tree, inputs, text);
  Observe(HashStr(text));
  if (!tree.root.IsLeaf() && inputs.size() > 1) NonTrivial();
  if (WantSample() && inputs.size() > 1) Sample(text);
}

// ---------------------------------------------------------------------------

PROPERTY(S02) {
  Scene s = RandScene(r, 1, false);
  if (st().verbose) fprintf(stderr, "SCENE %s\n", s.Text().c_str());
  Tree tree;
  FillTree(r, s, tree);
  for (int k = 0, n = r.range(0, 12); k < n; ++k) {
    Path path;
    Node& leaf = RandLeaf(r, tree, path);
    if (leaf.contents().empty()) continue;
    if (r.chance(1, 3)) leaf.Split(NewPlane(r, path, s.all));
    else leaf.Split();
  }
  if (r.coin()) {
    // Split until most of the cells are free.
    size_t budget = 60;
    std::vector<Node*> todo{&tree.root};
    while (!todo.empty() && budget) {
      Node* n = todo.back();
      todo.pop_back();
      if (n->IsLeaf()) {
        if (n->contents().empty()) continue;
        --budget;
        n->Split();
      }
      bool order = r.coin();
      todo.push_back(order ? n->negative_child() : n->positive_child());
      todo.push_back(order ? n->positive_child() : n->negative_child());
    }
  }
  Q big = r.coin() ? Q(100000) : Q(40);
  Faces box = BoxMesh(V3(-big, -big, -big), V3(big, big, big));
  Path path;
  EachLeaf(tree.root, path, [&](const Node& leaf, const Path& path) {
    Faces cell = Cell(box, path);
    if (cell.empty()) {
      Count("empty_cells");
      return;
    }
    V3 p = InsidePoint(r, cell);
    for (size_t id = 0; id < s.mesh.size() + 1; ++id) {
      BSPContentInfo c = leaf.GetContentInfoForId(id);
      if (c.has_interior_polygons) {
        Count("cells_with_polygons");
        continue;
      }
      int w = id < s.mesh.size() ? Winding(s.mesh[id], p, r) : 0;
      VREQ(c.pwn == w, "S02-pwn", "cell with " << S(p) << " id " << id << " pwn " << c.pwn << " winding number " << w << " " << s.Text());
      Count(c.has_border_polygons ? "cells_with_borders" : "cells_free");
      if (w) Count("cells_inside");
      if (w > 1 || w < 0) Count("cells_multiple");
    }
  });
  Observe(HashStr(s.Text()));
  if (!tree.root.IsLeaf()) NonTrivial();
  if (WantSample() && !tree.root.IsLeaf()) Sample(s.Text());
}

inline AABBConvexPolygon<> MakePoly(Rng& r, const Face& f) {
  return MakeFace<AABBConvexPolygon<>>(r, f, true);
}

// ---------------------------------------------------------------------------
// The border of a cell.

inline bool CrossesBox(const HalfSpace3& h, const Faces& box) {
  bool neg = false, pos = false;
  for (auto& f : box) for (auto& v : f) {
    int s = Side(h, v);
    neg |= s < 0;
    pos |= s > 0;
  }
  return neg && pos;
}

PROPERTY(S03) {
  // A box, maybe with a denominator, and a tree whose splits cross it.
  long den = r.chance(1, 3) ? r.range(2, 7) : 1;
  long lo[3], hi[3];
  V3 qlo, qhi;
  for (int i = 0; i < 3; ++i) {
    lo[i] = r.range(-20, 10);
    hi[i] = lo[i] + r.range(1, 20);
    qlo[i] = Q(lo[i]) / den;
    qhi[i] = Q(hi[i]) / den;
  }
  AABB aabb(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], den);
  Faces box = BoxMesh(qlo, qhi);
  Faces near = box;
  if (r.coin()) Append(near, Translate(BasicMesh(r, 1), (qlo + qhi) * Q(1, 2)));
  Tree tree;
  std::vector<bool> path;
  Path steps;
  Node* node = &tree.root;
  size_t depth = r.range(1, 7);
  std::string text = "box " + S(qlo) + S(qhi) + " path";
  bool on_wall = false;
  for (size_t tries = 0; path.size() < depth && tries < 100; ++tries) {
    HalfSpace3 h;
    bool wall = false;
    bool pos = r.coin();
    if (r.chance(1, 30)) {
      // A wall of the box, so that the cell is on its inside.
      const Face& f = box[r.below(6)];
      V3 n = VecArea(f);
      if (pos) n = n * Q(-1);
      h = MakePlane(r, n, f[0]);
      wall = true;
    } else {
      h = RandPlaneNear(r, near);
      if (!CrossesBox(h, box)) continue;
    }
    bool dup = false;
    for (auto& s : steps) dup |= SamePlane(s.node->split(), h);
    if (dup) continue;
    on_wall |= wall;
    node->Split(h);
    steps.push_back({node, pos});
    path.push_back(pos);
    text += pos ? " +" : " -";
    text += Str(h);
    node = pos ? node->positive_child() : node->negative_child();
  }
  if (st().verbose) fprintf(stderr, "%s\n", text.c_str());
  Faces cell = Cell(box, steps);
  auto out = tree.GetNodeBorder(path.begin(), path.end(), aabb);
  Faces got = ToFaces(out, "S03-facet");
  if (cell.empty()) {
    VREQ(got.empty(), "S03-not-empty", S(got) << " for the empty cell " << text);
    Count("empty_cells");
  } else {
    std::string open = Unclosed(got);
    VREQ(open.empty(), "S03-open", open << " in " << S(got) << " " << text);
    for (auto& f : got) {
      for (auto& v : f) {
        for (int i = 0; i < 3; ++i) VREQ(v[i] >= qlo[i] && v[i] <= qhi[i], "S03-box", S(v) << " " << text);
        for (auto& s : steps) {
          int side = Side(s.node->split(), v);
          VREQ(side == 0 || (side > 0) == s.pos, "S03-beyond", S(v) << " beyond " << Str(s.node->split()) << " " << text);
        }
      }
    }
    VREQ(Volume6(got) == Volume6(cell), "S03-volume", Volume6(got) << " instead of " << Volume6(cell) << " in " << S(got) << " " << text);
    for (auto& p : out) {
      for (size_t i = 0; i < p.vertex_count(); ++i) {
        VREQ(p.edge(i).partner() != nullptr && p.edge(i).partner()->partner() == &p.edge(i), "S03-partner", text);
      }
    }
    Count("cells");
    if (on_wall) Count("cells_on_walls");
    NonTrivial();
  }
  if (!on_wall) {
    auto open = tree.GetNodeBorderNoBoundWalls(path.begin(), path.end(), aabb);
    std::map<std::string, V3> area;
    for (auto& f : cell) {
      // Only on planes of the path.
      for (auto& s : steps) {
        bool on = true;
        for (auto& v : f) on &= Side(s.node->split(), v) == 0;
        if (!on) continue;
        V3 n = VecArea(f);
        auto it = area.emplace(PlaneName(n, f[0]), V3(0, 0, 0)).first;
        it->second = it->second + n;
      }
    }
    for (auto& p : open) {
      std::vector<V3> v = CheckPolygon(p, "S03-open-facet");
      V3 n = VecArea(v);
      for (auto& x : v) for (auto& s : steps) {
        int side = Side(s.node->split(), x);
        VREQ(side == 0 || (side > 0) == s.pos, "S03-open-beyond", S(x) << " " << text);
      }
      if (cell.empty()) continue;  // Facets with no cell behind them.
      auto it = area.find(PlaneName(n, v[0]));
      VREQ(it != area.end(), "S03-open-extra", S(v) << " " << text);
      it->second = it->second - n;
    }
    for (auto& a : area) VREQ(a.second.IsZero(), "S03-open-area", "left over " << S(a.second) << " " << a.first << " " << text);
    Count("without_walls");
  }
  Observe(HashStr(text));
  if (WantSample() && !cell.empty()) Sample(text);
}

// ---------------------------------------------------------------------------
// Event points of axis aligned splits.

typedef std::vector<NodePoly> NodePolys;

inline Q Extreme(const NodePoly& p, int dim, bool max) {
  Q e = ToV(p.vertex(0))[dim];
  for (size_t i = 1; i < p.vertex_count(); ++i) {
    Q x = ToV(p.vertex(i))[dim];
    if (max ? x > e : x < e) e = x;
  }
  return e;
}

struct Extents {
  std::vector<Q> lo, hi;
  Extents(const NodePolys& polys, int dim) {
    for (auto& p : polys) {
      lo.push_back(Extreme(p, dim, false));
      hi.push_back(Extreme(p, dim, true));
    }
  }
};

void CheckEvents(const PolygonEventPoint* events, size_t count, const NodePolys& polys, int dim, bool strict, const std::string& text) {
  VREQ(count == polys.size() * 2, "S04-count", count << " for " << polys.size() << " " << text);
  Extents x(polys, dim);
  std::vector<size_t> start(polys.size(), count), end(polys.size(), count);
  std::vector<Q> at(count);
  bool started = false;
  for (size_t i = 0; i < count; ++i) {
    size_t content;
    if (events[i].start) {
      size_t partner = events[i].index.partner;
      VREQ(partner < count && !events[partner].start, "S04-partner", "event " << i << " " << text);
      content = events[partner].index.content;
    } else {
      content = events[i].index.content;
    }
    VREQ(content < polys.size(), "S04-content", "event " << i << " " << text);
    auto& which = events[i].start ? start : end;
    VREQ(which[content] == count, "S04-twice", "polygon " << content << " " << text);
    which[content] = i;
    if (events[i].start) Count("start_events");
    at[i] = events[i].start ? x.lo[content] : x.hi[content];
    VREQ(&events[i].GetPolygon(events, polys) == &polys[content], "S04-get", text);
    VREQ(ToV(events[i].GetLocation(dim, events, polys))[dim] == at[i], "S04-location", text);
    if (i) {
      VREQ(at[i - 1] <= at[i], "S04-order", "events " << i - 1 << " and " << i << " in dimension " << dim << " " << text);
      if (at[i - 1] == at[i]) {
        Count("shared_locations");
      }
    }
    // Ends come before starts, apart from polygons that are flat in this
    // dimension, whose start comes before their own end (and, after splits,
    // other starts that share the location).
    if (i == 0 || at[i - 1] != at[i]) started = false;
    if (x.lo[content] != x.hi[content]) {
      VREQ(!strict || events[i].start || !started, "S04-end-first", "event " << i << " in dimension " << dim << " " << text);
      started |= events[i].start;
    }
    VREQ(events[i].new_location == (i == 0 || at[i - 1] != at[i]), "S04-new-location", "event " << i << " of " << count << " in dimension " << dim << " " << text);
  }
  for (size_t p = 0; p < polys.size(); ++p) {
    VREQ(start[p] < end[p], "S04-start-first", "polygon " << p << " " << text);
    VREQ(start[p] < count && end[p] < count, "S04-missing", "polygon " << p << " " << text);
    VREQ(events[start[p]].index.partner == end[p], "S04-partner", "polygon " << p << " " << text);
    if (x.lo[p] == x.hi[p]) Count("flat_polygons");
  }
}

struct Cost {
  size_t neg = 0, pos = 0, border = 0;
};

Cost CostAt(const Extents& x, const Q& at) {
  Cost c;
  for (size_t p = 0; p < x.lo.size(); ++p) {
    c.neg += x.lo[p] < at;
    c.pos += x.hi[p] > at;
    c.border += x.lo[p] == at && x.hi[p] == at;
  }
  return c;
}

// The cost of splitting after an event.
size_t CostAfter(const NodePolys& polys, const PolygonEventPoint* events, size_t index, size_t exclude) {
  size_t neg = 0, pos = 0, neg_log = 1, pos_log = 1;
  for (size_t i = 0; i < polys.size() * 2; ++i) {
    bool counts = events[i].GetPolygon(events, polys).id != exclude;
    if (events[i].start && i <= index) {
      ++neg;
      neg_log += counts;
    }
    if (!events[i].start && i > index) {
      ++pos;
      pos_log += counts;
    }
  }
  MLogNEstimator a, b;
  return a.Estimate(neg, neg_log) + b.Estimate(pos, pos_log);
}

void SplitByEvents(Rng& r, Node& node, std::vector<PolygonEventPoint> (&events)[3], int depth, size_t ids, const std::string& text) {
  const NodePolys& polys = node.contents();
  if (polys.empty() || depth <= 0) return;
  int dim = r.below(3);
  size_t exclude = r.coin() ? (size_t)-1 : r.below(ids), exclude_count = 0;
  for (auto& p : polys) exclude_count += p.id == exclude;
  PolygonEventPointPartition best = GetLowestCost(exclude, exclude_count, polys, events[dim].data());
  Extents x(polys, dim);
  VREQ(best.split_index < polys.size() * 2 && !events[dim][best.split_index].start, "S04-split-index", best.split_index << " " << text);
  size_t lowest = (size_t)-1;
  for (size_t i = 0; i < polys.size() * 2; ++i) {
    if (!events[dim][i].start) lowest = std::min(lowest, CostAfter(polys, events[dim].data(), i, exclude));
  }
  Q at = x.hi[events[dim][best.split_index].index.content];
  Cost c = CostAt(x, at);
  VREQ(best.cost == lowest, "S04-lowest", best.cost << " instead of " << lowest << " " << text);
  size_t actual = CostAfter(polys, events[dim].data(), best.split_index, exclude);
  VREQ(best.cost == actual && best.neg_cost + best.pos_cost == best.cost, "S04-cost", best.cost << " instead of " << actual << " " << text);
  best.DiscountBorderPolygons(events[dim].data(), polys.size());
  VREQ(best.neg_poly_count == c.neg, "S04-neg-count", best.neg_poly_count << " instead of " << c.neg << " " << text);
  VREQ(best.pos_poly_count == c.pos, "S04-pos-count", best.pos_poly_count << " instead of " << c.pos << " " << text);
  VREQ(best.border_poly_count == c.border, "S04-border-count", best.border_poly_count << " instead of " << c.border << " " << text);
  if (c.border) Count("splits_with_border");
  if (c.border > 1) Count("splits_with_borders");
  size_t count = polys.size();
  if (c.neg + c.pos + c.border > count) Count("splits_with_both");
  // A split that leaves everything on one side makes no progress.
  if ((c.neg == count || c.pos == count) && !c.border) return;
  size_t extra = best.GetExtraPolygonCount(count);
  VREQ(extra == c.neg + c.pos + c.border - count, "S04-extra", text);
  std::vector<PolygonEventPoint> child[2][3];
  std::vector<size_t> map;
  node.Split(best, dim, events[dim], map, child[0][dim]);
  HalfSpace3 split = node.split();
  VREQ(split.IsValid(), "S04-split", text);
  for (int i = 0; i < 3; ++i) {
    Q n = Q(Z(split.normal().components()[i]));
    if (i == dim) VREQ(sgn(n) > 0 && Q(Z(split.d())) / n == at, "S04-plane", Str(split) << " instead of " << at << " " << text);
    else VREQ(sgn(n) == 0, "S04-plane", Str(split) << " " << text);
  }
  Node* side[2] = {node.negative_child(), node.positive_child()};
  VREQ(side[0]->contents().size() == c.neg && side[1]->contents().size() == c.pos, "S04-children", side[0]->contents().size() << "+" << side[1]->contents().size() << " instead of " << c.neg << "+" << c.pos << " " << text);
  child[1][dim] = std::move(events[dim]);
  std::vector<PolygonMergeEvent> heap;
  for (int i = 1; i < 3; ++i) {
    int d = (dim + i) % 3;
    child[0][d].resize(best.GetNegEventPointCount());
    child[1][d].resize(best.GetPosEventPointCount());
    best.ApplySecondary(d, map.size(), side[0]->contents(), side[1]->contents(), map.data(), events[d].data(),
                        child[0][d].data(), child[1][d].data(), heap);
  }
  for (int k = 0; k < 2; ++k) {
    for (int d = 0; d < 3; ++d) {
      CheckEvents(child[k][d].data(), side[k]->contents().size() * 2, side[k]->contents(), d, false, text + (k ? " pos" : " neg") + std::to_string(d) + " of " + std::to_string(dim));
    }
    Count("event_splits");
    SplitByEvents(r, *side[k], child[k], depth - 1, ids, text);
  }
}

PROPERTY(S04) {
  Tree tree;
  size_t ids = r.range(1, 3);
  std::vector<Input> inputs;
  std::string text;
  size_t groups = r.range(1, 5);
  for (size_t g = 0; g < groups; ++g) {
    Faces f;
    if (r.coin()) f = BasicMesh(r, 1);
    else for (size_t i = 0, n = r.range(1, 4); i < n; ++i) f.push_back(RandPoly(r, r.range(3, r.coin() ? 5 : 9), kSmall).v);
    size_t id = r.below(ids);
    for (auto& x : f) inputs.push_back({id, x});
    text += " " + std::to_string(id) + "=" + S(f);
    for (auto& x : f) tree.root.AddRootContent(id, MakePoly(r, x));
  }
  if (st().verbose) fprintf(stderr, "%s\n", text.c_str());
  std::vector<PolygonEventPoint> events[3];
  for (int d = 0; d < 3; ++d) {
    events[d].resize(tree.root.contents().size() * 2);
    MakeEventPoints(d, tree.root.contents(), events[d].data());
    CheckEvents(events[d].data(), events[d].size(), tree.root.contents(), d, true, text);
  }
  SplitByEvents(r, tree.root, events, r.range(1, 5), ids, text);
  CheckLeaves(tree, inputs, text);
  // The estimator promises an accuracy.
  for (int k = 0; k < 20; ++k) {
    size_t n = (r.next() >> r.range(24, 63)) + 1, m = (r.next() >> r.range(22, 63)) % (4 * n + 1);
    MLogNEstimator e;
    if (r.coin()) e.Estimate(1, r.range(1, 1000));
    size_t got = e.Estimate(m, n);
    double want = (double)m * std::log2((double)n);
    // The estimate is in whole numbers.
    VREQ(std::abs((double)got - want) <= 1.0 + 0.033 * want + 1e-9 * want, "S04-estimate", "m " << m << " n " << n << " estimated as " << got << " instead of " << want);
  }
  Observe(HashStr(text));
  if (!tree.root.IsLeaf()) NonTrivial();
  if (WantSample()) Sample(text);
}

// ---------------------------------------------------------------------------
// Picking splits, and partitioning a plane.

size_t FullSplit(Rng& r, Node& node, size_t depth, const std::string& text) {
  if (node.contents().empty()) return 1;
  VREQ(depth < 2000, "S05-depth", text);
  const size_t count = node.contents().size();
  std::map<size_t, size_t> per_id;
  for (auto& p : node.contents()) ++per_id[p.id];
  HalfSpace3 h = node.PickSplitPlane();
  VREQ(h.IsValid(), "S05-invalid", text);
  // Is the plane one of the polygons?
  bool content_plane = false;
  for (auto& p : node.contents()) content_plane |= SamePlane(h, p.plane());
  if (!content_plane) Count("quarter_turn_splits");
  if (!node.contents().empty() && r.chance(1, 3)) {
    // Any polygon may be asked for a quarter turn if there are several.
    size_t i = r.below(count);
    const NodePoly& seed = node.contents()[i];
    if (per_id[seed.id] > 1) {
      HalfSpace3 q = node.PickQuarterTurnSplitPlane(i);
      VREQ(q.IsValid(), "S05-quarter-invalid", text);
      if (!SamePlane(q, seed.plane())) {
        VREQ(sgn(Dot(ToV(q.normal()), ToV(seed.plane().normal()))) == 0, "S05-quarter-normal", Str(q) << " from " << Str(seed.plane()) << " " << text);
        size_t neg = 0, pos = 0;
        bool any_neg = false, any_pos = false;
        for (auto& p : node.contents()) {
          if (p.id != seed.id) continue;
          bool n = false, o = false, on = false;
          for (size_t k = 0; k < p.vertex_count(); ++k) {
            int s = Side(q, ToV(p.vertex(k)));
            n |= s < 0;
            o |= s > 0;
            on |= s == 0;
          }
          any_neg |= n;
          any_pos |= o;
          if (n && !o && !on) ++neg;
          if (o && !n && !on) ++pos;
        }
        VREQ(any_neg && any_pos, "S05-quarter-progress", Str(q) << " has " << per_id[seed.id] << " polygons on one side " << text);
        VREQ(neg <= per_id[seed.id] / 2 && pos <= per_id[seed.id] / 2, "S05-quarter-half", Str(q) << " has " << neg << " below and " << pos << " above " << text);
        Count("quarter_turns");
      }
    }
  }
  size_t neg_border = node.border_contents().size();
  (void)neg_border;
  node.Split(h);
  Node *a = node.negative_child(), *b = node.positive_child();
  bool border = false;
  for (Node* c : {a, b}) {
    for (auto& p : c->border_contents()) border |= p.on_node_plane.split == &node.split();
  }
  VREQ(border || (!a->contents().empty() && !b->contents().empty()), "S05-progress", "split of " << count << " by " << Str(h) << " " << text);
  Count("picked_splits");
  size_t left = FullSplit(r, *a, depth + 1, text);
  return left + FullSplit(r, *b, depth + 1, text);
}

PROPERTY(S05) {
  if (r.chance(1, 4)) {
    Tree tree;
    size_t ids = r.range(1, 2);
    std::string text;
    // Enough of one mesh for a quarter turn.
    Faces f;
    if (r.coin()) {
      size_t n = r.range(41, 60);
      int shape = r.below(3);
      for (size_t i = 0; i < n; ++i) {
        V3 at((long)r.range(-30, 30), (long)r.range(-30, 30), (long)r.range(-30, 30));
        if (shape == 0) at[2] = 0;
        if (shape == 1) at[1] = at[2] = 0;
        V3 u((long)r.range(1, 3), 0, 0), w(0, (long)r.range(1, 3), (long)r.range(shape == 2 ? -3 : 0, shape ? 3 : 0));
        f.push_back({at, at + u, at + w});
      }
    } else {
      f = RandMesh(r, 3);
    }
    for (size_t i = 0; i < f.size(); ++i) {
      size_t id = r.chance(1, 10) ? r.below(ids) : 0;
      tree.root.AddRootContent(id, MakePoly(r, f[i]));
    }
    text = S(f);
    if (st().verbose) fprintf(stderr, "%s\n", text.c_str());
    if (f.size() > 40) Count("large_nodes");
    size_t leaves = FullSplit(r, tree.root, 0, text);
    CountMax("leaves", leaves);
    Observe(HashStr(text));
    NonTrivial();
    return;
  }
  // Polygons in a plane.
  Frame fr = RandFrame(r, kSmall);
  V3 o = fr.o;
  V3 nrm = fr.Normal();
  HalfSpace3 plane = MakePlane(r, nrm, o);
  size_t ids = r.range(1, 3);
  typedef BSPPolygon<AABBConvexPolygon<>> Poly;
  std::vector<Poly> polys;
  std::vector<Face> faces;
  std::vector<BSPContentInfo> info(ids);
  std::vector<int> pwn(ids);
  for (size_t i = 0; i < ids; ++i) info[i].pwn = pwn[i] = r.range(-1, 2);
  size_t n = r.range(1, 5);
  SplitSide side{&plane, r.coin()};
  std::string text = Str(plane);
  int drop = RandDrop(r, nrm);
  for (size_t i = 0; i < n; ++i) {
    size_t id = r.below(ids);
    Face f;
    if (i && r.chance(1, 5)) {
      f = faces[r.below(faces.size())];
      Count("repeated");
    } else {
      auto c = RandConvex2(r, r.range(3, r.coin() ? 4 : 8), r.coin() ? 4 : 12);
      P2 t{(long)r.range(-3, 3), (long)r.range(-3, 3)};
      for (auto& p : c) f.push_back(o + fr.a * Q(p.x + t.x) + fr.b * Q(p.y + t.y));
    }
    if (r.coin()) std::reverse(f.begin(), f.end());
    Poly p(id, &plane, side.pos_side, AABBConvexPolygon<>(MakePoly(r, f)));
    p.SetBoundaryAngles(side, 0, p.vertex_count());
    polys.push_back(p);
    faces.push_back(f);
    info[id].has_border_polygons = true;
    text += " " + std::to_string(id) + "=" + S(f);
  }
  Expr e = RandExpr(r, ids, r.range(0, 2), r.coin());
  bool pos_normal = r.coin();
  text += " " + e.text + (pos_normal ? " pos" : " neg");
  for (int w : pwn) text += " " + std::to_string(w);
  if (st().verbose) fprintf(stderr, "%s\n", text.c_str());
  CollectorVisitor<Poly, F> visitor(e.f);
  PlanePartitioner<Poly> partitioner;
  if (r.chance(1, 3)) {
    // Reusing a partitioner makes no difference.
    CollectorVisitor<Poly, F> other(e.f);
    partitioner.Run(polys.begin(), polys.end(), drop, pos_normal, info, other);
  }
  partitioner.Run(polys.begin(), polys.end(), drop, pos_normal, info, visitor);
  std::vector<Face> out;
  for (auto& p : visitor.polygons()) {
    out.push_back(CheckPolygon(p, "S05-out"));
    for (size_t i = 0; i < p.vertex_count(); ++i) VREQ(p.const_edge(i).edge_first_coincident.split != nullptr, "S05-coincident", text);
  }
  auto change = [&](const Face& f) {
    int s = sgn(VecArea(f)[drop]);
    return (s > 0) == pos_normal ? 1 : -1;
  };
  size_t in = 0, outside = 0;
  for (int k = 0; k < 12; ++k) {
    // A point strictly off every edge.
    const Face& f = faces[r.below(n)];
    V3 q = InsidePoint(r, Faces{f});
    if (r.coin()) q = q + (fr.a * Q((long)r.range(-5, 5)) + fr.b * Q((long)r.range(-5, 5))) * Q(1, 7);
    q = q + (fr.a * Q(1, 10007) + fr.b * Q(1, 10009)) ;
    bool edge = false;
    auto covers = [&](const Face& g) {
      V3 gn = VecArea(g);
      bool all = true;
      for (size_t i = 0; i < g.size(); ++i) {
        int s = sgn(Dot(Cross(g[(i + 1) % g.size()] - g[i], q - g[i]), gn));
        if (s == 0) edge = true;
        if (s < 0) all = false;
      }
      return all;
    };
    std::vector<int> w = pwn;
    for (size_t i = 0; i < n; ++i) if (covers(faces[i])) w[polys[i].id] += change(faces[i]);
    int hits = 0, sum = 0;
    for (auto& g : out) if (covers(g)) {
      ++hits;
      sum += change(g);
    }
    if (edge) continue;
    bool before = e.eval(pwn), after = e.eval(w);
    VREQ((hits & 1) == (before != after), "S05-partition", "at " << S(q) << " " << hits << " facets, inside " << before << " then " << after << " " << text);
    if (e.monotone) VREQ(sum == after - before, "S05-partition-sum", "at " << S(q) << " " << text);
    if (before != after) ++in; else ++outside;
  }
  Count("plane_points_on", in);
  Count("plane_points_off", outside);
  Observe(HashStr(text));
  if (in) NonTrivial();
  if (in && WantSample()) Sample(text);
}

}  // namespace vf

VERIF_MAIN

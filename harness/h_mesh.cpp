// Whole meshes: measurements, repair and conversion to doubles.
#include <functional>
#include <unordered_map>

#include "scene.h"

#include "walnut/edge_line_connector.h"
#include "walnut/mesh.h"
#include "walnut/mesh_plane_repairer.h"
#include "walnut/vertex_double_point3_mapper.h"

namespace vf {
using namespace walnut;

static int LexTop(const V3& a, const V3& b) {
  for (int k = 2; k >= 0; --k) {
    int c = cmp(a[k], b[k]);
    if (c) return c < 0 ? -1 : 1;
  }
  return 0;
}

// ---------------------------------------------------------------------------
// Measurements

// Scales a face by a number that its vertices share, or separate numbers.
template <typename Poly>
static Poly ScaledFace(Rng& r, const Face& f, int how, const mpz_class& common) {
  V3 n = FaceNormal(f);
  std::vector<HomoPoint3> p;
  for (auto& v : f) {
    switch (how) {
      case 0: p.push_back(MakeHomo1(v)); break;
      case 1: {
        // One denominator for the whole mesh.
        mpz_class w = common;
        Q x = v[0] * w, y = v[1] * w, z = v[2] * w;
        p.push_back(HomoPoint3(B(x.get_num()), B(y.get_num()), B(z.get_num()), B(w)));
        break;
      }
      default: p.push_back(MakeHomo(v, r));
    }
  }
  return Poly(MakePlane(r, n, f[0]), RandDrop(r, n), p);
}

template <typename Poly>
static void CheckMeasures(Rng& r) {
  Faces f = RandMesh(r, r.chance(1, 5) ? 2 : 1);
  if (r.chance(1, 3)) {
    // Vertices which have little in common.
    V3 t(MakeQ((long)r.range(-99, 99), (long)r.range(1, 60)), MakeQ((long)r.range(-99, 99), (long)r.range(1, 60)),
         MakeQ((long)r.range(-99, 99), (long)r.range(1, 60)));
    for (auto& x : f) for (auto& v : x) for (int i = 0; i < 3; ++i) v[i] *= abs(t[i]) + 1;
  }
  mpz_class common = 1;
  for (auto& x : f) for (auto& v : x) {
    mpz_class d = CommonDenom(v), l;
    mpz_lcm(l.get_mpz_t(), common.get_mpz_t(), d.get_mpz_t());
    common = l;
  }
  common *= RandScale(r);
  int how = r.below(4);
  std::vector<Poly> mesh;
  for (auto& x : f) {
    if (r.chance(1, 40)) { mesh.emplace_back(); Count("empty_polygons"); }
    mesh.push_back(ScaledFace<Poly>(r, x, how, common));
  }
  std::string text = S(f);
  for (auto& x : f) for (auto& v : x) Observe(HashV(v));

  V3 top = f[0][0];
  for (auto& x : f) for (auto& v : x) if (LexTop(top, v) < 0) top = v;
  HomoPoint3 got = GetTopPoint(mesh);
  VREQ(!got.w().IsZero() && ToV(got) == top, "M01-top", "top " << got << " instead of " << S(top) << " of " << text);

  for (int k = 0; k < 4; ++k) {
    Z3 dir = RandZ3(r, RandGrid(r), false);
    if (r.chance(1, 3)) dir = RandZ3(r, kTiny, true);
    V3 d = ToV(dir);
    Q best = Dot(d, f[0][0]);
    bool member = false;
    for (auto& x : f) for (auto& v : x) { Q q = Dot(d, v); if (q > best) best = q; }
    HomoPoint3 far = GetFarthest(mesh, MakeVec(dir));
    VREQ(!far.w().IsZero(), "M01-farthest-none", text);
    for (auto& x : f) for (auto& v : x) member |= v == ToV(far);
    VREQ(member, "M01-farthest-member", "farthest " << far << " of " << text);
    VREQ(Dot(d, ToV(far)) == best, "M01-farthest",
         "farthest in the direction " << S(d) << " is " << far << " of " << text);
    if (!d.IsZero()) Count("directions");
  }

  // The centroid is the average of those of tetrahedra from a corner.
  Q volume = 0;
  V3 sum(0, 0, 0);
  V3 o = f[0][0];
  for (auto& x : f) for (size_t i = 2; i < x.size(); ++i) {
    V3 a = x[0] - o, b = x[i - 1] - o, c = x[i] - o;
    Q q = Dot(a, Cross(b, c));
    volume += q;
    sum = sum + (a + b + c) * (q / 4);
  }
  if (sgn(volume) != 0) {
    V3 want = o + sum * Q(1 / volume);
    HomoPoint3 c = GetCentroid(mesh);
    VREQ(!c.w().IsZero(), "M01-centroid-none", text);
    VREQ(ToV(c) == want, "M01-centroid", "centroid " << S(ToV(c)) << " instead of " << S(want) << " of " << text);
    Count("centroids");
    if (how > 1) Count("mixed_denominators");
    NonTrivial();
  } else {
    Count("no_volume");
  }
  if (sgn(volume) < 0) Count("inside_out");
  if (WantSample()) Sample(text + " top " + S(top));
}

PROPERTY(M01) {
  if (r.coin()) CheckMeasures<ConvexPolygon<>>(r);
  else CheckMeasures<AABBConvexPolygon<>>(r);
}

// ---------------------------------------------------------------------------
// Repair

// A mesh of loops of numbered vertices.
struct Indexed {
  std::vector<V3> v;
  std::vector<std::vector<size_t>> faces;
};

static Indexed Index(const Faces& f) {
  Indexed out;
  std::map<V3, size_t> number;
  for (auto& x : f) {
    out.faces.emplace_back();
    for (auto& p : x) {
      auto it = number.emplace(p, out.v.size());
      if (it.second) out.v.push_back(p);
      out.faces.back().push_back(it.first->second);
    }
  }
  return out;
}

static bool AnyThreeCollinear(const Indexed& m) {
  for (auto& x : m.faces)
    for (size_t i = 0; i < x.size(); ++i) for (size_t j = i + 1; j < x.size(); ++j) for (size_t k = j + 1; k < x.size(); ++k)
      if (Cross(m.v[x[j]] - m.v[x[i]], m.v[x[k]] - m.v[x[i]]).IsZero()) return true;
  return false;
}

struct Piece {
  HalfSpace3 plane;
  std::vector<const HomoPoint3*> at;
};

PROPERTY(M02) {
  // A convex mesh with faces of many sizes, whose vertices are then moved.
  Faces f;
  bool simple = false;
  long size = r.chance(1, 3) ? r.range(4, 40) : r.range(100, 600);
  Face cap;  // The last facet, most of which stays in a plane.
  switch (r.below(6)) {
    case 0: {
      V3 lo((long)r.range(-size, size), (long)r.range(-size, size), (long)r.range(-size, size));
      f = BoxMesh(lo, lo + V3(Q(size), Q((long)(size + r.below(size))), Q((long)(size + r.below(size)))));
      simple = true;
      Count("boxes");
      break;
    }
    case 1: {
      do {
        std::vector<V3> p;
        size_t n = r.range(4, 12);
        for (size_t i = 0; i < n; ++i) p.push_back(V3((long)r.range(-size, size), (long)r.range(-size, size), (long)r.range(-size, size)));
        f = HullMesh(p);
      } while (f.empty());
      Count("hulls");
      break;
    }
    case 2: {
      // A small hull, which has faces of more than three vertices.
      do {
        std::vector<V3> p;
        size_t n = r.range(6, 16);
        for (size_t i = 0; i < n; ++i) p.push_back(V3((long)r.range(-2, 2), (long)r.range(-2, 2), (long)r.range(-2, 2)));
        f = HullMesh(p);
      } while (f.empty());
      for (auto& x : f) for (auto& v : x) v = v * Q(size);
      Count("lattice_hulls");
      break;
    }
    case 3: {
      // A pyramid over a polygon: the apex touches many faces.
      std::vector<V3> p;
      size_t n = r.range(4, 9);
      do {
        p.clear();
        for (size_t i = 0; i < n; ++i) p.push_back(V3((long)r.range(-size, size), (long)r.range(-size, size), 0));
        f = HullMesh([&] { auto q = p; q.push_back(V3(0, 0, Q(size))); if (r.coin()) q.push_back(V3(0, 0, Q(-size))); return q; }());
      } while (f.empty());
      Count("pyramids");
      break;
    }
    case 4: {
      Faces prism = PrismMesh(r, r.range(5, 12), 5, r.range(1, 3)), sides;
      for (auto& x : prism) for (auto& v : x) v = v * Q(size);
      cap = prism[prism.size() - 2];
      prism.erase(prism.end() - 2);
      f = TriangulateSome(r, prism, r.range(2, 6), 6);
      f.push_back(cap);
      Count("caps");
      break;
    }
    default: {
      f = PrismMesh(r, r.range(3, 9), 3, r.range(1, 3));
      for (auto& x : f) for (auto& v : x) v = v * Q(size);
      Count("prisms");
    }
  }
  if (r.chance(1, 3)) { f = Transform(RandLinear(r), f); simple = false; }
  if (cap.empty() && r.chance(1, 5)) { f = TriangulateSome(r, f, 1, 2); simple = false; }
  if (r.chance(1, 3)) {
    // More vertices on the edges, of both facets or of one of them.
    std::set<std::pair<V3, V3>> seen;
    std::map<std::pair<V3, V3>, std::vector<V3>> extra;
    for (auto& x : f) for (size_t i = 0; i < x.size(); ++i) {
      V3 a = x[i], b = x[(i + 1) % x.size()];
      if (b < a) std::swap(a, b);
      if (!seen.insert({a, b}).second || !r.chance(1, 3)) continue;
      auto& e = extra[{a, b}];
      for (size_t n = r.range(1, 3), k = 1; k <= n; ++k) e.push_back(a + (b - a) * MakeQ(k, n + 1));
    }
    bool both = r.chance(2, 3);
    for (auto& x : f) {
      Face y;
      for (size_t i = 0; i < x.size(); ++i) {
        V3 a = x[i], b = x[(i + 1) % x.size()];
        y.push_back(a);
        auto it = extra.find(a < b ? std::make_pair(a, b) : std::make_pair(b, a));
        if (it == extra.end() || (!both && r.coin())) continue;
        auto e = it->second;
        if (b < a) std::reverse(e.begin(), e.end());
        y.insert(y.end(), e.begin(), e.end());
      }
      x = y;
    }
    simple = false;
    Count("edges_with_vertices", extra.size());
  }
  Indexed m = Index(f);
  // Move the vertices.
  int noise = r.below(4);
  // Vertices which are moved off of a line have no plane to be moved back to.
  if (AnyThreeCollinear(m)) { noise = 0; Count("collinear"); }
  Q unit = 1;
  if (noise == 2) unit = MakeQ(1, (long)r.range(1, 1 << 20));
  if (noise == 3) {
    mpz_class d = 1;
    d <<= r.range(20, 200);
    unit = MakeQ(1, d);
  }
  long amount = noise == 1 ? std::max<long>(1, size / 100) : 3;
  unsigned moved_of = r.pick(std::vector<unsigned>{1, 1, 2, 4, 8, 16});
  if (noise && moved_of > 1) simple = false;
  if (noise && !cap.empty()) {
    auto& loop = m.faces.back();
    for (int k = r.range(1, 2); k > 0; --k) {
      V3& v = m.v[r.pick(loop)];
      v = v + V3((long)r.range(-amount, amount), (long)r.range(-amount, amount), (long)r.range(-amount, amount)) * unit;
    }
    simple = false;
  } else if (noise)
    for (auto& v : m.v) if (r.chance(1, moved_of)) v = v + V3((long)r.range(-amount, amount), (long)r.range(-amount, amount), (long)r.range(-amount, amount)) * unit;
  if (noise && AnyThreeCollinear(m)) { Count("skipped_collinear"); return; }
  if (std::set<V3>(m.v.begin(), m.v.end()).size() != m.v.size()) { Count("skipped_same"); return; }
  std::vector<std::vector<size_t>> loops = m.faces;
  r.shuffle(loops);
  // The largest face last.
  if (r.coin() || !cap.empty()) std::stable_sort(loops.begin(), loops.end(), [](const std::vector<size_t>& a, const std::vector<size_t>& b) { return a.size() < b.size(); });
  if (r.chance(1, 6)) loops.resize(r.range(1, loops.size()));
  for (auto& x : loops) std::rotate(x.begin(), x.begin() + r.below(x.size()), x.end());
  std::set<size_t> used;
  for (auto& x : loops) used.insert(x.begin(), x.end());
  std::string text;
  for (auto& x : loops) {
    std::vector<V3> p;
    for (size_t i : x) p.push_back(m.v[i]);
    text += S(p);
  }
  if (st().verbose) fprintf(stderr, "MESH %s\n", text.c_str());
  for (size_t i : used) Observe(HashV(m.v[i]));

  MeshPlaneRepairer<> repairer;
  if (r.chance(1, 8)) {
    // It can be used again, also for the same vertices.
    for (auto& x : loops) {
      if (r.chance(1, 3)) continue;
      for (size_t i : x) repairer.AddVertex(MakeHomo(m.v[i], r));
      repairer.FinishFacet();
    }
    if (r.coin()) {
      for (int i = 0; i < 3; ++i) repairer.AddVertex(HomoPoint3(i == 0, i == 1, i == 2, 1));
      if (r.coin()) repairer.FinishFacet();
    }
    repairer.Clear();
    VREQ(repairer.GetUniqueVertexCount() == 0, "M02-cleared", text);
    for (size_t i : used) VREQ(!repairer.HasVertex(MakeHomo(m.v[i], r)), "M02-cleared-vertex", text);
    Count("cleared");
  }
  bool scale = r.coin();
  for (auto& x : loops) {
    for (size_t i : x) {
      HomoPoint3 p = scale ? MakeHomo(m.v[i], r) : MakeHomo1(m.v[i]);
      if (r.coin()) repairer.AddVertex(p); else repairer.AddVertex(std::move(p));
    }
    repairer.FinishFacet();
  }
  VREQ(repairer.GetUniqueVertexCount() == used.size(), "M02-unique-count",
       repairer.GetUniqueVertexCount() << " vertices instead of " << used.size() << " " << text);
  for (size_t i : used) VREQ(repairer.HasVertex(MakeHomo(m.v[i], r)), "M02-has-vertex", S(m.v[i]) << " " << text);
  for (int k = 0; k < 3; ++k) {
    V3 p = RandV(r, kRational);
    bool in = false;
    for (size_t i : used) in |= m.v[i] == p;
    VREQ(repairer.HasVertex(MakeHomo(p, r)) == in, "M02-has-other", S(p) << " " << text);
  }
  VREQ(repairer.IsValidState(), "M02-state", text);

  auto producer = std::move(repairer).FinalizeMesh();
  std::vector<std::vector<Piece>> pieces(loops.size());
  for (size_t i = 0; i < loops.size(); ++i) {
    size_t left = loops[i].size() - 2;
    while (left) {
      VREQ(producer.HasMorePolygons(), "M02-missing", "facet " << i << " " << text);
      MeshPlaneRepairerProducer<>::VertexIterator from, to;
      Piece p;
      p.plane = producer.GetNextPolygon(from, to);
      for (; from != to; ++from) p.at.push_back(&*from);
      VREQ(p.at.size() >= 3 && p.at.size() - 2 <= left, "M02-piece-size",
           "a piece of facet " << i << " has " << p.at.size() << " vertices " << text);
      left -= p.at.size() - 2;
      pieces[i].push_back(p);
      Count("pieces");
    }
    if (pieces[i].size() > 1) Count("split_facets");
    else if (loops[i].size() > 3) Count("whole_facets");
  }
  VREQ(!producer.HasMorePolygons(), "M02-extra", text);
  {
    // Vertices of up to three facets leave no reason to split a facet, unless
    // the numbers become large.
    std::map<size_t, int> degree;
    for (auto& x : loops) for (size_t i : x) ++degree[i];
    bool free = noise < 2;
    for (auto& d : degree) free &= d.second <= 3;
    for (auto& v : m.v) for (int k = 0; k < 3; ++k) free &= v[k].get_den() == 1 && abs(v[k]) <= 440;
    if (free) {
      for (auto& x : pieces) VREQ(x.size() == 1, "M02-split-without-need", text);
      Count("meshes_without_need_to_split");
    }
  }

  // Planes which meet at a vertex without meeting in one point have no answer.
  std::map<const HomoPoint3*, std::vector<const HalfSpace3*>> at;
  for (auto& x : pieces) for (auto& p : x) for (auto* v : p.at) at[v].push_back(&p.plane);
  for (auto& x : at) {
    if (x.first->w().IsZero()) {
      // Planes that are the same up to the side they face do not count twice.
      std::vector<V3> n;
      std::vector<Q> d;
      for (auto* h : x.second) {
        V3 v = ToV(h->normal());
        Q e = Q(Z(h->d()));
        bool again = false;
        for (size_t i = 0; i < n.size(); ++i)
          again |= Cross(n[i], v).IsZero() && n[i] * e == v * d[i];
        if (!again) { n.push_back(v); d.push_back(e); }
      }
      bool dependent = false;
      for (size_t i = 0; i < n.size(); ++i) for (size_t j = 0; j < i; ++j) {
        dependent |= Cross(n[i], n[j]).IsZero();
        for (size_t k = 0; k < j; ++k) dependent |= sgn(Dot(Cross(n[i], n[j]), n[k])) == 0;
      }
      VREQ(dependent, "M02-no-point", "independent planes give no point " << text);
      Count("skipped_dependent");
      return;
    }
  }
  std::map<const HomoPoint3*, V3> moved;
  for (auto& x : at) moved[x.first] = ToV(*x.first);
  for (auto& x : pieces) for (auto& p : x) {
    bool line = true;
    for (size_t i = 0; i < p.at.size(); ++i) for (size_t j = 0; j < i; ++j) for (size_t k = 0; k < j; ++k)
      line &= Cross(moved[p.at[j]] - moved[p.at[i]], moved[p.at[k]] - moved[p.at[i]]).IsZero();
    if (line) Count("pieces_without_area");
    VREQ(p.plane.IsValid() || line, "M02-plane", "plane " << p.plane << " " << text);
  }
  for (size_t i = 0; i < pieces.size(); ++i) for (auto& p : pieces[i]) for (auto* v : p.at) {
    VREQ(Side(p.plane, moved[v]) == 0, "M02-not-on-plane",
         "vertex " << S(moved[v]) << " of facet " << i << " is not on " << p.plane << " " << text);
    Count("coincident");
  }
  VREQ(at.size() == used.size(), "M02-points", at.size() << " points come from " << used.size() << " vertices " << text);

  // The outline of every facet, once the cuts have cancelled.
  std::vector<std::vector<const HomoPoint3*>> outline;
  for (size_t i = 0; i < pieces.size(); ++i) {
    std::set<std::pair<const HomoPoint3*, const HomoPoint3*>> edges;
    for (auto& p : pieces[i]) for (size_t k = 0; k < p.at.size(); ++k) {
      auto* a = p.at[k];
      auto* b = p.at[(k + 1) % p.at.size()];
      if (!edges.erase({b, a})) VREQ(edges.insert({a, b}).second, "M02-edge-twice", "facet " << i << " " << text);
    }
    VREQ(edges.size() == loops[i].size(), "M02-outline", "facet " << i << " has " << edges.size() << " edges " << text);
    std::map<const HomoPoint3*, const HomoPoint3*> next;
    for (auto& e : edges) VREQ(next.emplace(e.first, e.second).second, "M02-outline-branch", "facet " << i << " " << text);
    std::vector<const HomoPoint3*> ring;
    auto* v = next.begin()->first;
    do {
      ring.push_back(v);
      auto it = next.find(v);
      VREQ(it != next.end() && ring.size() <= loops[i].size(), "M02-outline-open", "facet " << i << " " << text);
      v = it->second;
    } while (v != ring[0]);
    VREQ(ring.size() == loops[i].size(), "M02-outline-pieces", "facet " << i << " " << text);
    outline.push_back(ring);
  }
  // One assignment of points to vertices explains all of the outlines.
  {
    std::vector<const HomoPoint3*> point(m.v.size(), nullptr);
    std::map<const HomoPoint3*, size_t> vertex;
    // Tries to match facets from `i` on.
    size_t budget = 200000;
    std::function<bool(size_t)> match = [&](size_t i) -> bool {
      if (i == outline.size()) return true;
      auto& ring = outline[i];
      auto& loop = loops[i];
      size_t n = ring.size();
      for (size_t turn = 0; turn < n; ++turn) {
        if (budget-- == 0) { budget = 1; return true; }
        std::vector<size_t> added;
        bool good = true;
        for (size_t k = 0; k < n && good; ++k) {
          auto* p = ring[(k + turn) % n];
          size_t q = loop[k];
          auto it = vertex.find(p);
          if (it != vertex.end()) good = it->second == q;
          else if (point[q]) good = false;
          else { vertex[p] = q; point[q] = p; added.push_back(q); }
        }
        if (good && match(i + 1)) return true;
        for (size_t q : added) { vertex.erase(point[q]); point[q] = nullptr; }
      }
      return false;
    };
    VREQ(match(0), "M02-topology", text);
  }
  if (noise == 0) {
    // Nothing needs repair.
    for (size_t i = 0; i < loops.size(); ++i) {
      std::vector<V3> p;
      for (size_t k : loops[i]) p.push_back(m.v[k]);
      std::vector<V3> q;
      for (auto* x : outline[i]) q.push_back(moved[x]);
      auto it = std::find(q.begin(), q.end(), p[0]);
      VREQ(it != q.end(), "M02-planar-moved", "facet " << i << " became " << S(q) << " " << text);
      std::rotate(q.begin(), it, q.end());
      VREQ(p == q, "M02-planar-changed", "facet " << i << " became " << S(q) << " " << text);
      for (auto& x : pieces[i])
        if (x.plane.IsValid()) VREQ(SameDir(ToV(x.plane.normal()), VecArea(p)), "M02-planar-normal", "facet " << i << " " << x.plane << " " << text);
    }
    Count("already_planar");
  } else {
    // Slightly moved corners of a box stay close to where they were.
    Q reach = Q(amount) * unit;
    if (simple && loops.size() == 6 && reach * 100 < Q(size)) {
      Q lim = reach * 25;
      for (size_t i = 0; i < loops.size(); ++i) {
        for (auto* x : outline[i]) {
          Q best = -1;
          for (size_t k : loops[i]) {
            V3 d = moved[x] - m.v[k];
            Q dist = Dot(d, d);
            if (sgn(best) < 0 || dist < best) best = dist;
          }
          VREQ(best < lim * lim, "M02-moved-far", S(moved[x]) << " of facet " << i << " " << text);
          CountMax("box_movement_squared", (uint64_t)Q(best / (reach * reach)).get_d());
        }
        std::vector<V3> p;
        for (size_t k : loops[i]) p.push_back(m.v[k]);
        for (auto& x : pieces[i])
          VREQ(sgn(Dot(ToV(x.plane.normal()), VecArea(p))) > 0, "M02-turned", "facet " << i << " " << text);
        Count("facets_in_place");
      }
      Count("moved_boxes");
    }
    Count("repaired");
  }
  if (loops.size() > 3) NonTrivial();
  if (WantSample() && noise == 1) Sample(text + " -> " + std::to_string(at.size()) + " points");
}

// ---------------------------------------------------------------------------
// Conversion to doubles

typedef ConnectedPolygon<> CPoly;
typedef CPoly::EdgeRep CEdge;
typedef ConnectedEdge<CPoly, EdgeInfoRoot> CHalf;

static void ConnectAll(std::vector<CPoly>& polys, bool open, const std::string& text) {
  struct Line { V3 o, d; std::vector<CEdge*> edges; };
  std::vector<Line> lines;
  for (auto& p : polys) {
    std::vector<V3> v = VerticesOf(p);
    for (size_t i = 0; i < v.size(); ++i) {
      V3 d = v[(i + 1) % v.size()] - v[i];
      Line* found = nullptr;
      for (auto& l : lines) if (Cross(l.d, d).IsZero() && Cross(l.d, v[i] - l.o).IsZero()) found = &l;
      if (!found) { lines.push_back({v[i], d, {}}); found = &lines.back(); }
      found->edges.push_back(&p.edge(i));
    }
  }
  for (auto& l : lines) {
    int drop = 0;
    while (sgn(l.d[(drop + 1) % 3]) == 0) ++drop;
    std::vector<Deed<CEdge>> deeds;
    for (auto* e : l.edges) deeds.emplace_back(e);
    EdgeLineConnector<> connector;
    std::string errors;
    connector.ConnectUnsorted(deeds.begin(), deeds.end(), drop, [&](const std::string& m) { errors += m; });
    VREQ(open || errors.empty(), "M03-connect", errors << " " << text);
  }
}

// A value that is within `1/2^bits` of halfway between two doubles.
static Q NearMiddle(Rng& r, long whole, int bits) {
  mpz_class d = 1, n;
  d <<= 53;
  n = (long)r.below(1l << 50) * 2 + 1;
  // In [whole, whole + 1): the doubles there are 2^-52 apart or wider.
  int e = 0;
  while ((1l << (e + 1)) <= std::abs(whole)) ++e;
  mpz_class step = 1;
  step <<= e;
  Q q = Q(whole) + MakeQ(n % (d >> e), d) * step;
  mpz_class f = 1;
  f <<= bits;
  return q + MakeQ((long)r.range(-3, 3), f);
}

static std::vector<HomoPoint3> Representations(Rng& r, const V3& v, size_t count) {
  std::vector<HomoPoint3> out;
  std::vector<DoublePoint3> seen;
  mpz_class w0 = CommonDenom(v);
  for (int i = 0; i < 60 && out.size() < count; ++i) {
    mpz_class k = RandRuns(r, r.range(1, 120));
    if (k == 0) k = 1;
    if (i < 2) k = i + 1;
    if (i == 0 && r.coin()) k = -1;
    HomoPoint3 p = MakeHomoScaled(v, k);
    DoublePoint3 d = p.GetDoublePoint3();
    if (std::find(seen.begin(), seen.end(), d) != seen.end()) continue;
    seen.push_back(d);
    out.push_back(p);
  }
  return out;
}

PROPERTY(M03) {
  Faces f;
  switch (r.below(4)) {
    case 0: f = BoxMesh(V3(0, 0, 0), V3(1, 1, 1)); break;
    case 1: {
      // A fan: many facets around two vertices.
      size_t n = r.range(3, 4);
      Face base;
      if (n == 3) base = {V3(0, 0, 0), V3(1, 0, 0), V3(0, 1, 0)};
      else base = {V3(0, 0, 0), V3(1, 0, 0), V3(1, 1, 0), V3(0, 1, 0)};
      f = BoxMesh(V3(0, 0, 0), V3(1, 1, 1));
      f = TriangulateSome(r, f, 1, 1);
      break;
    }
    default: f = VoxelMesh(r, r.range(1, 3), r.range(1, 3), r.range(1, 2), 1, 2);
  }
  if (f.empty()) { Count("empty"); return; }
  if (r.coin()) f = TriangulateSome(r, f, 1, 2);
  r.shuffle(f);
  // Coordinates which are hard to round.
  std::map<Q, Q> grid[3];
  int bits = r.range(60, 70);
  for (int i = 0; i < 3; ++i) {
    long base = r.range(-20, 20);
    for (auto& x : f) for (auto& v : x) {
      auto it = grid[i].find(v[i]);
      if (it == grid[i].end()) grid[i][v[i]] = NearMiddle(r, base + 2 * (long)v[i].get_num().get_si(), bits);
    }
  }
  for (auto& x : f) for (auto& v : x) for (int i = 0; i < 3; ++i) v[i] = Q(grid[i][v[i]]);
  std::map<V3, std::vector<HomoPoint3>> reps;
  size_t max_reps = r.range(1, 6);
  for (auto& x : f) for (auto& v : x) if (!reps.count(v)) {
    reps[v] = Representations(r, v, max_reps);
    Observe(HashV(v));
    CountMax("representations", reps[v].size());
  }
  std::vector<CPoly> polys;
  for (auto& x : f) {
    V3 n = FaceNormal(x);
    std::vector<HomoPoint3> p;
    for (auto& v : x) p.push_back(r.pick(reps[v]));
    polys.emplace_back(MakePlane(r, n, x[0]), RandDrop(r, n), p);
  }
  std::string text = S(f);
  bool open = r.chance(1, 5) && polys.size() > 1;
  if (open) {
    // Facets without a partner at some of their edges.
    polys.erase(polys.begin() + r.below(polys.size()));
    Count("open_meshes");
  }
  ConnectAll(polys, open, text);
  std::vector<CEdge*> order;
  for (auto& p : polys) for (size_t i = 0; i < p.vertex_count(); ++i) order.push_back(&p.edge(i));
  r.shuffle(order);
  if (r.chance(1, 4)) for (size_t i = 0, n = order.size(); i < n; ++i) order.push_back(r.pick(order));
  bool backwards = r.coin();
  size_t merges = 0;
  auto factory = [](const DoublePoint3& p) -> DoublePoint3 { return p; };
  auto merger = [&](RedirectableValue<DoublePoint3>& a, RedirectableValue<DoublePoint3>& b) {
    ++merges;
    if (backwards) b.Redirect(a); else a.Redirect(b);
  };
  VertexDoublePoint3Mapper<decltype(factory), decltype(merger)> mapper(factory, merger);
  for (auto* e : order) {
    auto& v = mapper.Map(*e);
    VREQ(v.first == e->vertex().GetDoublePoint3(), "M03-result", text);
  }
  Count("merges", merges);
  // Facets that are connected around a vertex share a primary value.
  std::set<const CHalf*> done;
  std::map<const void*, V3> owner;
  for (auto* e : order) {
    if (!done.insert((const CHalf*)e).second) continue;
    V3 at = ToV(e->vertex());
    std::vector<DoublePoint3> seen;
    const void* primary = nullptr;
    DoublePoint3 value;
    const CHalf* x = e;
    size_t steps = 0;
    do {
      done.insert(x);
      DoublePoint3 d = x->vertex().GetDoublePoint3();
      if (std::find(seen.begin(), seen.end(), d) == seen.end()) seen.push_back(d);
      auto it = mapper.map.find(d);
      VREQ(it != mapper.map.end(), "M03-unmapped", S(at) << " " << text);
      const void* p = &it->second.primary();
      value = *it->second;
      if (!primary) primary = p;
      VREQ(p == primary, "M03-split", "vertex " << S(at) << " has more than one value after " << steps << " steps around it, with "
           << seen.size() << " representations so far " << text);
      x = x->GetNextAroundVertex();
      ++steps;
    } while (x != e && x);
    for (int i = 0; i < 3; ++i) {
      double c = i == 0 ? value.x : i == 1 ? value.y : value.z;
      Q err = Q(c) - at[i];
      // Within an ulp, of numbers below 64.
      VREQ(abs(err) < MakeQ(1, 1l << 46), "M03-value", "vertex " << S(at) << " became " << c << " " << text);
    }
    auto o = owner.emplace(primary, at);
    VREQ(o.second || o.first->second == at, "M03-confused", S(at) << " and " << S(o.first->second) << " share a value " << text);
    if (seen.size() > 1) { Count("vertices_with_representations"); NonTrivial(); }
    if (seen.size() > 3) Count("vertices_with_many_representations");
    CountMax("representations_around", seen.size());
    Count("orbits");
  }
  if (WantSample() && merges > 2) Sample(text + " " + std::to_string(merges) + " merges");
}

}  // namespace vf

VERIF_MAIN

// Runs the same jobs (see envprep.cpp) under different conditions: twice, with
// other contents of freed memory, by different builds, by threads at the same
// time, and under a memory checker.
//
// A job is a function of inputs which it only reads, and returns a digest of
// everything that the library computed from them.
#include <sstream>
#include <fstream>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <thread>

#include "common.h"

#ifdef VF_MEMCHECK
#include <valgrind/memcheck.h>
#endif

#include "walnut/aabb_convex_polygon.h"
#include "walnut/big_int.h"
#include "walnut/boolean_operation_filter.h"
#include "walnut/bsp_tree.h"
#include "walnut/bsp_visitor.h"
#include "walnut/connecting_visitor.h"
#include "walnut/convex_polygon_factory.h"
#include "walnut/extrude.h"
#include "walnut/m_log_n_estimator.h"
#include "walnut/mesh.h"
#include "walnut/mesh_plane_repairer.h"
#include "walnut/mutable_convex_polygon.h"
#include "walnut/plucker_line.h"
#include "walnut/polygon_event_point.h"
#include "walnut/r_transformation.h"
#include "walnut/vertex_double_point3_mapper.h"

namespace vf {
using namespace walnut;

// ---------------------------------------------------------------------------
// Digests, in the order in which results were produced.

struct Digest {
  uint64_t h = 88172645463325252ull;
  void Add(uint64_t v) {
    h ^= v;
    h *= 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
  }
  void Add(bool b) { Add((uint64_t)b); }
  void Add(int v) { Add((uint64_t)(int64_t)v); }
  void Add(int64_t v) { Add((uint64_t)v); }
  void Add(double d) {
    uint64_t u;
    memcpy(&u, &d, 8);
    Add(u);
  }
  void Add(const BigInt& v) {
    size_t n = v.used_words();
    Add((uint64_t)n);
    for (size_t i = 0; i < n; ++i) Add(v.word(i).low_uint64());
  }
  void Add(const Vector3& v) { Add(v.x()); Add(v.y()); Add(v.z()); }
  void Add(const HomoPoint3& p) { Add(p.x()); Add(p.y()); Add(p.z()); Add(p.w()); }
  void Add(const HalfSpace3& h) { Add(h.x()); Add(h.y()); Add(h.z()); Add(h.d()); }
  void Add(const PluckerLine& l) { Add(l.d()); Add(l.m()); }
  void Add(const HalfSpace2& h) { Add(h.x()); Add(h.y()); Add(h.d()); }
  void Add(const AABB& b) {
    for (int i = 0; i < 3; ++i) { Add(b.min_point_num().components()[i]); Add(b.max_point_num().components()[i]); }
    Add(b.denom());
  }
  // The surface which the facets cover, no matter how it is cut into facets or
  // in which order they came: for every plane, the area and some moments of
  // what is covered, in the integers modulo a prime.
  template <typename Polys>
  void AddSurface(const Polys& polys, bool oriented) {
    uint64_t sum[5] = {0, 0, 0, 0, 0};
    for (auto& p : polys) {
      if (p.vertex_count() == 0) continue;
      const HalfSpace3& h = p.plane();
      int k = 0;
      while (h.normal().components()[k].IsZero()) ++k;
      bool neg = h.normal().components()[k].GetSign() < 0;
      uint64_t inv = Inv(Mod(h.normal().components()[k]));
      uint64_t key = oriented && neg ? 77 : 55;
      for (int i = 0; i < 3; ++i) key = Mix(key, Mul(inv, Mod(h.normal().components()[i])));
      key = Mix(key, Mul(inv, Mod(h.d())));
      std::vector<std::pair<uint64_t, uint64_t>> v;
      for (size_t i = 0; i < p.vertex_count(); ++i) {
        auto& q = p.vertex(i);
        uint64_t w = Inv(Mod(q.w()));
        v.push_back({Mul(w, Mod(q.vector_from_origin().components()[(k + 1) % 3])),
                     Mul(w, Mod(q.vector_from_origin().components()[(k + 2) % 3]))});
      }
      uint64_t m[4] = {0, 0, 0, 0};
      for (size_t i = 1; i + 1 < v.size(); ++i) {
        uint64_t ax = Sub(v[i].first, v[0].first), ay = Sub(v[i].second, v[0].second);
        uint64_t bx = Sub(v[i + 1].first, v[0].first), by = Sub(v[i + 1].second, v[0].second);
        uint64_t a = Sub(Mul(ax, by), Mul(ay, bx));
        if (neg) a = Sub(0, a);
        uint64_t sx = Sum(v[0].first, Sum(v[i].first, v[i + 1].first));
        uint64_t sy = Sum(v[0].second, Sum(v[i].second, v[i + 1].second));
        uint64_t xx = Sum(Mul(sx, sx), Sum(Mul(v[0].first, v[0].first), Sum(Mul(v[i].first, v[i].first), Mul(v[i + 1].first, v[i + 1].first))));
        m[0] = Sum(m[0], a);
        m[1] = Sum(m[1], Mul(a, sx));
        m[2] = Sum(m[2], Mul(a, sy));
        m[3] = Sum(m[3], Mul(a, xx));
      }
      for (int i = 0; i < 4; ++i) sum[i] = Sum(sum[i], Mul(key % P, m[i]));
    }
    for (uint64_t x : sum) Add(x);
  }
  static const uint64_t P = (1ull << 61) - 1;
  static uint64_t Mul(uint64_t a, uint64_t b) { return (uint64_t)((unsigned __int128)a * b % P); }
  static uint64_t Sum(uint64_t a, uint64_t b) { return (a + b) % P; }
  static uint64_t Sub(uint64_t a, uint64_t b) { return (a + P - b) % P; }
  static uint64_t Inv(uint64_t a) {
    uint64_t r = 1;
    for (uint64_t e = P - 2; e; e >>= 1, a = Mul(a, a)) if (e & 1) r = Mul(r, a);
    return r;
  }
  static uint64_t Mod(const BigInt& v) {
    BigInt m = v.abs();
    uint64_t r = 0;
    for (size_t i = m.used_words(); i--;) r = (Mul(r, 8) + m.word(i).low_uint64() % P) % P;
    return v.GetSign() < 0 ? Sub(0, r) : r;
  }
  static uint64_t Mix(uint64_t h, uint64_t v) {
    h ^= v;
    h *= 0x9E3779B97F4A7C15ull;
    return h ^ (h >> 29);
  }
  void Add(const std::string& s) { for (unsigned char c : s) Add((uint64_t)c); }
  template <typename Edge>
  void Add(const ConvexPolygon<Edge>& p) {
    Add((uint64_t)p.vertex_count());
    if (p.vertex_count() == 0) return;
    Add(p.plane());
    Add(p.drop_dimension());
    for (size_t i = 0; i < p.vertex_count(); ++i) { Add(p.vertex(i)); Add(p.const_edge(i).line()); }
  }
};

// ---------------------------------------------------------------------------
// Inputs

struct Reader {
  std::istringstream in;
  explicit Reader(const std::string& s) : in(s) {}
  std::string T() {
    std::string s;
    if (!(in >> s)) { fprintf(stderr, "bad job\n"); _exit(3); }
    return s;
  }
  long N() { return atol(T().c_str()); }
  BigInt I() {
    std::string s = T();
    bool neg = s[0] == '-';
    if (neg) s = s.substr(1);
    BigInt r(0);
    size_t first = s.size() % 15;
    for (size_t i = 0; i < s.size();) {
      size_t n = i == 0 && first ? first : 15;
      r = (r << (4 * n)) + BigInt((int64_t)strtoull(s.substr(i, n).c_str(), nullptr, 16));
      i += n;
    }
    return neg ? -r : r;
  }
  HomoPoint3 P() {
    BigInt x = I(), y = I(), z = I(), w = I();
    return HomoPoint3(x, y, z, w);
  }
  HalfSpace3 H() {
    BigInt x = I(), y = I(), z = I(), d = I();
    return HalfSpace3(x, y, z, d);
  }
  AABBConvexPolygon<> Poly() {
    size_t n = N();
    HalfSpace3 plane = H();
    int drop = (int)N();
    std::vector<HomoPoint3> p;
    for (size_t i = 0; i < n; ++i) p.push_back(P());
    return AABBConvexPolygon<>(plane, drop, p);
  }
  std::vector<AABBConvexPolygon<>> Polys() {
    size_t n = N();
    std::vector<AABBConvexPolygon<>> out;
    for (size_t i = 0; i < n; ++i) out.push_back(Poly());
    return out;
  }
};

typedef std::function<uint64_t()> Run;

static Run Ints(Reader& in) {
  struct Op { int op, a, b, c; size_t k; };
  auto v = std::make_shared<std::vector<BigInt>>();
  auto ops = std::make_shared<std::vector<Op>>();
  for (size_t n = in.N(); n--;) v->push_back(in.I());
  for (size_t n = in.N(); n--;) {
    Op o;
    o.op = in.N(); o.a = in.N(); o.b = in.N(); o.c = in.N(); o.k = in.N();
    ops->push_back(o);
  }
  std::shared_ptr<const std::vector<BigInt>> input = v;
  std::shared_ptr<const std::vector<Op>> program = ops;
  return [input, program] {
    Digest d;
    std::vector<BigInt> x(*input);
    for (auto& o : *program) {
      BigInt &a = x[o.a], &b = x[o.b], &c = x[o.c];
      switch (o.op) {
        case 0: c = a + b; break;
        case 1: c = a - b; break;
        case 2: c = a * b; break;
        case 3: if (!b.IsZero()) { c = a / b; d.Add(a.IsZero()); } break;
        case 4: if (!b.IsZero()) { BigInt rem; BigInt q = a.DivideRemainder(b, &rem); d.Add(q); d.Add(rem); } break;
        case 5: c = a << o.k; break;
        case 6: d.Add(a.GetSign() < 0); d.Add(a.abs()); break;
        case 7: c = -a; break;
        case 8: c += a; break;
        case 9: c -= a; break;
        case 10: d.Add(a < b); d.Add(a == b); d.Add(a.Compare(b)); d.Add((uint64_t)a.GetHash()); break;
        case 11: d.Add((double)a); break;
        case 12: { std::ostringstream s; s << a; d.Add(s.str()); break; }
        default: if (a.used_words() < 6 && b.used_words() < 6) d.Add(a.GetGreatestCommonDivisor(b));
      }
      if (c.used_words() > 60) c = (*input)[o.k % input->size()];
      d.Add(c);
      // Inputs that are only read.
      d.Add((*input)[o.a] < (*input)[o.b]);
      d.Add((*input)[o.a] * (*input)[o.b]);
    }
    return d.h;
  };
}

static Run Geometry(Reader& in) {
  struct In { std::vector<HomoPoint3> p; std::vector<HalfSpace3> h; AABB box; };
  auto v = std::make_shared<In>();
  for (int i = 0; i < 5; ++i) v->p.push_back(in.P());
  for (int i = 0; i < 4; ++i) v->h.push_back(in.H());
  long lo[7];
  for (int i = 0; i < 7; ++i) lo[i] = in.N();
  v->box = AABB(lo[0], lo[1], lo[2], lo[3], lo[4], lo[5], lo[6]);
  std::shared_ptr<const In> input = v;
  return [input] {
    Digest d;
    auto& p = input->p;
    for (auto& a : p) {
      for (auto& b : p) {
        d.Add(a == b);
        d.Add(HomoPoint3::LexicographicallyLt(a, b));
        for (int k = 0; k < 3; ++k) d.Add(a.CompareComponent(k, b) < 0);
        BigInt den;
        d.Add(a.Difference(b, den));
        d.Add(den);
        if (a == b) continue;
        PluckerLine l(a, b);
        d.Add(l);
        PluckerLine red = l;
        red.Reduce();
        d.Add(red);
        for (auto& h : input->h) {
          HomoPoint3 x = l.Intersect(h);
          d.Add(x);
          if (x.IsValid()) { x.Reduce(); d.Add(x); }
        }
        for (auto& c : p) d.Add(l.IsCoincident(c));
      }
      HomoPoint3 red = a;
      red.Reduce();
      d.Add(red);
      d.Add((uint64_t)ReducedHomoPoint3Hasher()(red));
      DoublePoint3 dp = a.GetDoublePoint3();
      d.Add(dp.x); d.Add(dp.y); d.Add(dp.z);
      d.Add(RTransform(a, BigInt(17)));
      d.Add(input->box.IsOnBorder(a));
      for (auto& h : input->h) { d.Add(h.Compare(a)); d.Add(h.IsCoincident(a)); }
    }
    for (auto& g : input->h) {
      for (auto& h : input->h) {
        d.Add(g == h); d.Add(g.IsSameOrOpposite(h));
        d.Add(HalfSpace3Compare()(g, h));
        d.Add(RXYCompareBivector(g.normal(), h.normal()) < 0);
        PluckerLine l(g, h);
        d.Add(l);
        for (auto& k : input->h) d.Add(HomoPoint3(l.IsValid() ? l.Intersect(k) : HomoPoint3(0, 0, 0, 0)));
      }
      if (g.IsValid()) d.Add(static_cast<const ConvexPolygon<>&>(input->box.IntersectPlane(g)));
    }
    return d.h;
  };
}

template <typename Poly>
static void SplitAll(Digest& d, const Poly& p, const std::vector<HalfSpace3>& planes, size_t from) {
  d.Add(p);
  for (size_t i = from; i < planes.size(); ++i) {
    ConvexPolygonSplitInfo info = p.GetSplitInfo(planes[i]);
    d.Add(info.ShouldEmitNegativeChild());
    d.Add(info.ShouldEmitPositiveChild());
    if (!info.ShouldEmitNegativeChild() || !info.ShouldEmitPositiveChild()) continue;
    std::pair<Poly, Poly> c = p.CreateSplitChildren(info);
    SplitAll(d, c.first, planes, i + 1);
    SplitAll(d, c.second, planes, i + 1);
    // Put it back together.
    for (size_t a = 0; a < c.first.vertex_count(); ++a)
      for (size_t b = 0; b < c.second.vertex_count(); ++b) {
        if (c.first.vertex_count() == 0 || c.second.vertex_count() == 0) break;
        if (!(c.first.vertex(a) == c.second.vertex((b + 1) % c.second.vertex_count()) &&
              c.second.vertex(b) == c.first.vertex((a + 1) % c.first.vertex_count()))) continue;
        int dim = 0;
        while (c.first.const_edge(a).line().d().components()[dim].IsZero()) ++dim;
        d.Add(c.first.TryMergePolygon(dim, a, c.second, b));
        a = c.first.vertex_count();
        break;
      }
    d.Add(c.first);
  }
}

static Run Polygons(Reader& in) {
  struct In { AABBConvexPolygon<> boxed; MutableConvexPolygon<> plain; std::vector<HalfSpace3> h; };
  auto v = std::make_shared<In>();
  v->boxed = in.Poly();
  {
    std::vector<HomoPoint3> p;
    for (size_t i = 0; i < v->boxed.vertex_count(); ++i) p.push_back(v->boxed.vertex(i));
    v->plain = MutableConvexPolygon<>(v->boxed.plane(), v->boxed.drop_dimension(), p);
  }
  for (size_t n = in.N(); n--;) v->h.push_back(in.H());
  std::shared_ptr<const In> input = v;
  return [input] {
    Digest d;
    SplitAll(d, input->plain, input->h, 0);
    SplitAll(d, input->boxed, input->h, 0);
    d.Add(input->boxed.aabb());
    d.Add(input->plain.GetCentroid());
    for (int k = 0; k < 3; ++k) {
      auto area = input->plain.GetProjectedArea(k);
      d.Add(area.first);
      d.Add(area.second);
      if (!input->plain.plane().normal().components()[k].IsZero()) {
        HomoPoint2 c = input->plain.GetProjectedCentroid(k);
        d.Add(c.x()); d.Add(c.y()); d.Add(c.w());
      }
    }
    for (auto& h : input->h) {
      if (h.normal().IsZero()) continue;
      d.Add((uint64_t)input->plain.GetExtremeIndexBisect(h.normal()));
    }
    MutableConvexPolygon<> m(input->plain);
    m.SortVertices();
    d.Add(m);
    d.Add(m == input->plain);
    return d.h;
  };
}

// Filters are created by each run.
typedef std::vector<BSPContentInfo> Infos;
typedef std::function<std::pair<bool, bool>(const Infos&)> F;

static F MakeFilter(const std::vector<std::string>& t, size_t& at) {
  std::string k = t[at++];
  auto id = [&] { return (BSPContentId)atol(t[at++].c_str()); };
  auto ids = [&] {
    std::vector<BSPContentId> v(id());
    for (auto& x : v) x = id();
    return v;
  };
  if (k == "inv") { InvertedPolygonFilter f(id()); return [f](const Infos& i) mutable { return f(i); }; }
  if (k == "pos") { PolygonFilter f(id()); return [f](const Infos& i) mutable { return f(i); }; }
  if (k == "odd") { OddPolygonFilter f(id()); return [f](const Infos& i) mutable { return f(i); }; }
  if (k == "uni") { UnionIdsFilter f(ids()); return [f](const Infos& i) mutable { return f(i); }; }
  if (k == "int") { IntersectIdsFilter f(ids()); return [f](const Infos& i) mutable { return f(i); }; }
  if (k == "sub") { SubtractIdsFilter f(ids()); return [f](const Infos& i) mutable { return f(i); }; }
  F a = MakeFilter(t, at), b = MakeFilter(t, at);
  if (k == "AND") { auto f = MakeIntersectionFilter(a, b); return [f](const Infos& i) mutable { return f(i); }; }
  if (k == "OR") { auto f = MakeUnionFilter(a, b); return [f](const Infos& i) mutable { return f(i); }; }
  if (k == "SUB") { auto f = MakeSubtractionFilter(a, b); return [f](const Infos& i) mutable { return f(i); }; }
  if (k == "XOR") { auto f = MakeXORFilter(a, b); return [f](const Infos& i) mutable { return f(i); }; }
  fprintf(stderr, "bad filter %s\n", k.c_str());
  _exit(3);
}

template <typename Parent>
static void Connect(Digest& d, BSPTree<>& tree, F f, size_t kd, bool oriented) {
  std::string error;
  ConnectingVisitor<F, Parent> visitor(f, [&](const std::string& e) { error += "e"; });
  tree.Traverse(visitor, kd);
  visitor.FilterEmptyPolygons();
  d.Add(error);
  auto polys = visitor.TakePolygons();
  // The planes, and the order of the facets, depend on the order of pointers,
  // and so do the facets which are merged.
  d.AddSurface(polys, oriented);
  size_t seen = 0, open = 0;
  for (auto& p : polys)
    for (size_t i = 0; i < p.vertex_count(); ++i) open += p.edge(i).partner() == nullptr;
  if (error.empty()) d.Add((uint64_t)open);
  for (auto& p : polys)
    for (size_t i = 0; i < p.vertex_count(); ++i)
      if (auto* o = p.edge(i).partner()) seen += o->edge_index() + o->polygon().vertex_count();
  if (seen == 1) d.Add(1);
  // The vertices as doubles.
  auto factory = [](const DoublePoint3& p) { return p; };
  auto merger = [](RedirectableValue<DoublePoint3>& a, RedirectableValue<DoublePoint3>& b) { b.Redirect(a); };
  VertexDoublePoint3Mapper<decltype(factory), decltype(merger)> mapper(factory, merger);
  for (auto& p : polys) for (size_t i = 0; i < p.vertex_count(); ++i) mapper.Map(p.edge(i));
  for (auto& p : polys) for (size_t i = 0; i < p.vertex_count(); ++i) {
    auto it = mapper.map.find(p.vertex(i).GetDoublePoint3());
    if (it == mapper.map.end()) { d.Add(-2); continue; }
    // Only read, because representatives depend on the order.
    if (std::isnan((*it->second).x + (*it->second).y + (*it->second).z)) d.Add(-3);
  }
}

static Run Boolean(Reader& in) {
  struct In {
    int visitor;
    std::vector<std::vector<AABBConvexPolygon<>>> mesh;
    std::vector<HalfSpace3> pre;
    size_t kd;
    std::vector<std::string> filter;
  };
  auto v = std::make_shared<In>();
  v->visitor = in.N();
  for (size_t n = in.N(); n--;) v->mesh.push_back(in.Polys());
  for (size_t n = in.N(); n--;) v->pre.push_back(in.H());
  v->kd = in.N();
  std::string s;
  while (in.in >> s) v->filter.push_back(s);
  std::shared_ptr<const In> input = v;
  return [input] {
    Digest d;
    BSPTree<> tree;
    for (size_t i = 0; i < input->pre.size(); ++i) {
      // A chain of splits.
      auto* node = &tree.root;
      bool again = false;
      while (!node->IsLeaf()) {
        again |= node->split().IsSameOrOpposite(input->pre[i]);
        node = i & 1 ? node->negative_child() : node->positive_child();
      }
      for (size_t j = 0; j < i; ++j) again |= input->pre[j].normal().IsSameOrOppositeDir(input->pre[i].normal());
      if (!again) node->Split(input->pre[i]);
    }
    for (size_t i = 0; i < input->mesh.size(); ++i) tree.AddContents(i, input->mesh[i]);
    bool oriented = true;
    for (auto& t : input->filter) if (t == "XOR" || t == "odd") oriented = false;
    size_t at = 0;
    F f = MakeFilter(input->filter, at);
    if (input->visitor == 0) {
      CollectorVisitor<BSPTree<>::OutputPolygon, F> visitor(f);
      tree.Traverse(visitor, input->kd);
      std::deque<HalfSpace3> planes;
      auto polys = visitor.TakePolygons(planes);
      d.AddSurface(polys, oriented);
      size_t seen = 0, wrong = 0;
      for (auto& p : polys) {
        seen += (size_t)p.id + p.aabb().denom().used_words();
        // Planes which edges are recorded to be on.
        for (size_t i = 0; i < p.vertex_count(); ++i) {
          auto& e = p.bsp_edge_info(i);
          auto& a = p.vertex(i);
          auto& b = p.vertex((i + 1) % p.vertex_count());
          for (auto* s : {e.edge_first_coincident.split, e.edge_last_coincident.split})
            if (s) wrong += !s->IsCoincident(a) + !s->IsCoincident(b);
          if (auto* s = e.vertex_last_coincident.split) wrong += !s->IsCoincident(a);
        }
      }
      d.Add((uint64_t)wrong);
      if (seen == (size_t)-1) d.Add(1);
    } else if (input->visitor == 1) {
      Connect<ConvexPolygon<>>(d, tree, f, input->kd, oriented);
    } else {
      Connect<AABBConvexPolygon<>>(d, tree, f, input->kd, oriented);
    }
    return d.h;
  };
}

static Run Loops(Reader& in) {
  struct In { std::vector<HomoPoint3> p; Vector3 dir; BigInt denom; };
  auto v = std::make_shared<In>();
  for (size_t n = in.N(); n--;) v->p.push_back(in.P());
  BigInt x = in.I(), y = in.I(), z = in.I();
  v->dir = Vector3(x, y, z);
  v->denom = in.I();
  std::shared_ptr<const In> input = v;
  return [input] {
    struct Collect : public ConvexPolygonFactory<HomoPoint3, MutableConvexPolygon<>> {
      Digest d;
      void Emit(MutableConvexPolygon<>&& p) override { d.Add(p); }
    } factory;
    factory.Build(input->p.begin(), input->p.end());
    for (auto& p : Extrude(input->p, input->dir, input->denom)) factory.d.Add(p);
    return factory.d.h;
  };
}

static Run Repair(Reader& in) {
  auto v = std::make_shared<std::vector<std::vector<HomoPoint3>>>();
  for (size_t n = in.N(); n--;) {
    v->emplace_back();
    for (size_t m = in.N(); m--;) v->back().push_back(in.P());
  }
  std::shared_ptr<const std::vector<std::vector<HomoPoint3>>> input = v;
  return [input] {
    Digest d;
    MeshPlaneRepairer<> repairer;
    for (auto& x : *input) {
      for (auto& p : x) repairer.AddVertex(p);
      repairer.FinishFacet();
    }
    d.Add((uint64_t)repairer.GetUniqueVertexCount());
    auto producer = std::move(repairer).FinalizeMesh();
    while (producer.HasMorePolygons()) {
      MeshPlaneRepairerProducer<>::VertexIterator from, to;
      d.Add(producer.GetNextPolygon(from, to));
      for (; from != to; ++from) d.Add(*from);
    }
    return d.h;
  };
}

typedef BSPTree<> Tree;
typedef std::remove_reference<decltype(std::declval<Tree>().root)>::type Node;

static void Walk(Digest& d, const Node& n) {
  d.Add(n.IsLeaf());
  for (auto& c : n.content_info_by_id()) { d.Add(c.pwn); d.Add(c.has_interior_polygons); d.Add(c.has_border_polygons); }
  for (auto& p : n.border_contents()) { d.Add(p); d.Add((uint64_t)p.id); }
  if (n.IsLeaf()) {
    for (auto& p : n.contents()) { d.Add(p); d.Add((uint64_t)p.id); }
    return;
  }
  d.Add(n.split());
  Walk(d, *n.negative_child());
  Walk(d, *n.positive_child());
}

static void SplitAll(Node& n, int depth) {
  if (n.contents().empty() || depth == 0) return;
  n.Split(n.PickSplitPlane());
  SplitAll(*n.negative_child(), depth - 1);
  SplitAll(*n.positive_child(), depth - 1);
}

static Run Bsp(Reader& in) {
  struct In {
    std::vector<AABBConvexPolygon<>> polys;
    std::vector<HalfSpace3> splits;
    std::vector<bool> path;
  };
  auto v = std::make_shared<In>();
  v->polys = in.Polys();
  for (size_t n = in.N(); n--;) { v->splits.push_back(in.H()); v->path.push_back(in.N() != 0); }
  std::shared_ptr<const In> input = v;
  return [input] {
    Digest d;
    {
      Tree tree;
      Node* node = &tree.root;
      std::vector<bool> path = input->path;
      for (size_t i = 0; i < path.size(); ++i) {
        node->Split(input->splits[i]);
        node = path[i] ? node->positive_child() : node->negative_child();
      }
      AABB box(-20, -20, -20, 20, 20, 20, 1);
      d.AddSurface(tree.GetNodeBorder(path.begin(), path.end(), box), false);
      for (auto& p : tree.GetNodeBorderNoBoundWalls(path.begin(), path.end(), box)) d.Add(p);
      tree.AddContents(tree.AllocateId(), input->polys);
      tree.root.PushContentsToLeaves();
      Walk(d, tree.root);
    }
    Tree tree;
    for (size_t i = 0; i < input->polys.size(); ++i) tree.root.AddRootContent(i % 2, input->polys[i]);
    auto& contents = tree.root.contents();
    if (!contents.empty()) {
      for (int dim = 0; dim < 3; ++dim) {
        std::vector<PolygonEventPoint> events(contents.size() * 2);
        MakeEventPoints(dim, contents, events.data());
        PolygonEventPointPartition best = GetLowestCost((BSPContentId)-1, 0, contents, events.data());
        d.Add((uint64_t)best.cost);
        if (best.split_index == (size_t)-1) continue;  // No split; nothing else is set.
        best.DiscountBorderPolygons(events.data(), contents.size());
        d.Add((uint64_t)best.split_index);
        d.Add((uint64_t)best.neg_poly_count);
        d.Add((uint64_t)best.pos_poly_count);
        d.Add((uint64_t)best.border_poly_count);
      }
    }
    SplitAll(tree.root, 6);
    Walk(d, tree.root);
    MLogNEstimator e;
    for (size_t k = 1; k < 60; ++k) d.Add((uint64_t)e.Estimate(k * k * 7 % (2 * k), k * k));
    return d.h;
  };
}

static Run Measure(Reader& in) {
  struct In { std::vector<AABBConvexPolygon<>> polys; Vector3 dir; };
  auto v = std::make_shared<In>();
  v->polys = in.Polys();
  BigInt x = in.I(), y = in.I(), z = in.I();
  v->dir = Vector3(x, y, z);
  std::shared_ptr<const In> input = v;
  return [input] {
    Digest d;
    d.Add(GetTopPoint(input->polys));
    d.Add(GetFarthest(input->polys, input->dir));
    d.Add(GetCentroid(input->polys));
    for (auto& p : input->polys) { d.Add(p.aabb()); d.Add(p.GetCentroid()); }
    return d.h;
  };
}

static Run Prepare(const std::string& line, std::string& kind) {
  Reader in(line);
  kind = in.T();
  if (kind == "ints") return Ints(in);
  if (kind == "geometry") return Geometry(in);
  if (kind == "polygons") return Polygons(in);
  if (kind == "boolean") return Boolean(in);
  if (kind == "loop") return Loops(in);
  if (kind == "repair") return Repair(in);
  if (kind == "bsp") return Bsp(in);
  if (kind == "measure") return Measure(in);
  fprintf(stderr, "bad job %s\n", kind.c_str());
  _exit(3);
}

// ---------------------------------------------------------------------------

static const std::vector<std::string>& Specs() {
  static const std::vector<std::string> specs = [] {
    std::vector<std::string> out;
    const char* name = getenv("WALNUT_JOBS");
    std::ifstream f(name ? name : "jobs.txt");
    std::string line;
    while (std::getline(f, line)) out.push_back(line);
    if (out.empty()) { fprintf(stderr, "no jobs\n"); _exit(3); }
    return out;
  }();
  return specs;
}

static void LogDigest(uint64_t index, uint64_t digest, const std::string& kind) {
  const char* name = getenv("WALNUT_DIGESTS");
  if (!name) return;
  static FILE* f = fopen(name, "a");
  if (!f) _exit(3);
  fprintf(f, "%llu %016llx %s\n", (unsigned long long)index, (unsigned long long)digest, kind.c_str());
  fflush(f);
}

// Leaves other contents in the free memory.
static void Disturb(Rng& r) {
  std::vector<std::pair<char*, size_t>> blocks;
  for (int i = 0; i < 200; ++i) {
    size_t n = r.chance(1, 4) ? r.range(1000, 20000) : r.range(8, 600);
    char* p = (char*)malloc(n);
    memset(p, (int)r.next(), n);
    blocks.push_back({p, n});
  }
  r.shuffle(blocks);
  // Some stay, so that later blocks have other addresses.
  static std::vector<char*>& kept = *new std::vector<char*>;
  for (size_t i = 0; i < blocks.size(); ++i) {
    if (i % 8 == 0 && kept.size() < 4000) kept.push_back(blocks[i].first);
    else free(blocks[i].first);
  }
  volatile char stack[20000];
  int c = (int)r.next();
  for (size_t i = 0; i < sizeof stack; ++i) stack[i] = (char)c;
}

// One job, run again with other contents in memory.
PROPERTY(X03) {
  const std::string& spec = Specs()[st().index % Specs().size()];
  std::string kind, again;
  Run run = Prepare(spec, kind);
  if (st().verbose) fprintf(stderr, "JOB %s\n", spec.c_str());
  uint64_t first = run();
  LogDigest(st().index, first, kind);
  Disturb(r);
  // Another job in between.
  if (r.coin()) Prepare(Specs()[r.below(Specs().size())], again)();
  Disturb(r);
  uint64_t second = run();
  VREQ(first == second, "X03-repeat-" + kind, "the second run differs, of " << spec.substr(0, 3000));
  Run copy = Prepare(spec, kind);
  Disturb(r);
  uint64_t third = copy();
  VREQ(first == third, "X03-rebuilt-" + kind, "a run on inputs made again differs, of " << spec.substr(0, 3000));
  Count("jobs_" + kind);
  Observe(first);
  NonTrivial();
  if (WantSample()) Sample(spec.substr(0, 300));
}

#ifdef VF_MEMCHECK
// One job, whose memory is watched by valgrind.
PROPERTY(X01) {
  const std::string& spec = Specs()[st().index % Specs().size()];
  std::string kind;
  if (st().verbose) fprintf(stderr, "JOB %s\n", spec.c_str());
  unsigned long errors = VALGRIND_COUNT_ERRORS, leaked = 0, maybe = 0, reachable = 0, suppressed = 0;
  {
    Run run = Prepare(spec, kind);
    uint64_t d = run();
    VREQ(VALGRIND_CHECK_VALUE_IS_DEFINED(d) == 0, "X01-undefined-" + kind, "the results depend on uninitialised memory, of " << spec.substr(0, 3000));
    Observe(d);
  }
  VREQ(VALGRIND_COUNT_ERRORS == errors, "X01-memory-" + kind, "valgrind reports an error, see stderr, of " << spec.substr(0, 3000));
  // Nothing that was allocated since the last check may have been lost.
  static unsigned long lost;
  VALGRIND_DO_CHANGED_LEAK_CHECK;
  VALGRIND_COUNT_LEAKS(leaked, maybe, reachable, suppressed);
  unsigned long now = leaked;
  unsigned long was = lost;
  lost = now;
  VREQ(now <= was, "X01-leak-" + kind, now - was << " bytes were lost, of " << spec.substr(0, 3000));
  if (RUNNING_ON_VALGRIND) Count("watched_jobs");
  Count("jobs_" + kind);
  NonTrivial();
  if (WantSample()) Sample(spec.substr(0, 300));
}
#endif

struct Barrier {
  std::mutex m;
  std::condition_variable c;
  size_t waiting;
  explicit Barrier(size_t n) : waiting(n) {}
  void Wait() {
    std::unique_lock<std::mutex> l(m);
    if (--waiting == 0) c.notify_all();
    else c.wait(l, [&] { return waiting == 0; });
  }
};

// Several jobs, run by several threads at the same time.
PROPERTY(X02) {
  const size_t jobs = 6, threads = 4;
  std::vector<Run> run;
  std::vector<std::string> kinds;
  std::string text;
  for (size_t i = 0; i < jobs; ++i) {
    std::string kind;
    const std::string& spec = Specs()[(st().index * jobs + i) % Specs().size()];
    run.push_back(Prepare(spec, kind));
    kinds.push_back(kind);
    text += kind + " ";
    Count("jobs_" + kind);
    Observe(HashStr(spec));
  }
  std::vector<std::vector<uint64_t>> got(threads, std::vector<uint64_t>(jobs));
  // In one half of the cases, all threads run the same job at a time.
  bool same = r.coin();
  bool before = r.chance(1, 4);
  std::vector<uint64_t> alone(jobs);
  if (before) for (size_t i = 0; i < jobs; ++i) alone[i] = run[i]();
  std::atomic<size_t> active(0), most(0), overlaps(0);
  {
    Barrier barrier(threads);
    std::vector<std::thread> pool;
    for (size_t t = 0; t < threads; ++t)
      pool.emplace_back([&, t] {
        barrier.Wait();
        for (size_t i = 0; i < jobs; ++i) {
          size_t j = (i + (same ? 0 : t)) % jobs;
          size_t now = active.fetch_add(1, std::memory_order_relaxed) + 1;
          if (now > 1) overlaps.fetch_add(1, std::memory_order_relaxed);
          got[t][j] = run[j]();
          active.fetch_sub(1, std::memory_order_relaxed);
        }
      });
    for (auto& t : pool) t.join();
  }
  if (!before) for (size_t i = 0; i < jobs; ++i) alone[i] = run[i]();
  for (size_t i = 0; i < jobs; ++i)
    for (size_t t = 0; t < threads; ++t)
      VREQ(got[t][i] == alone[i], "X02-result-" + kinds[i], "thread " << t << " got another result than a run alone");
  Count("concurrent_runs", jobs * threads);
  Count("overlapping_runs", overlaps);
  Count(same ? "same_job_groups" : "mixed_job_groups");
  if (overlaps > 0) NonTrivial();
  if (WantSample()) Sample(text);
}

}  // namespace vf

VERIF_MAIN

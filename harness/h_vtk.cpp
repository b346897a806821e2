// The VTK interface: conversions and the boolean filter.
#include <climits>
#include <cmath>

#include <vtkCellArray.h>
#include <vtkCommand.h>
#include <vtkCallbackCommand.h>
#include <vtkExecutive.h>
#include <vtkIdList.h>
#include <vtkNew.h>
#include <vtkObject.h>
#include <vtkPoints.h>
#include <vtkPolyData.h>
#include <vtkSmartPointer.h>

#include "scene.h"

#include "walnut/edge_line_connector.h"
#include "walnut/vtkWalnutBooleanFilter.h"
#include "walnut/vtk_to_walnut_mesh.h"
#include "walnut/walnut_to_vtk_mesh.h"

namespace vf {
using namespace walnut;

// A mesh whose coordinates are multiples of 2^-10.
static Faces DyadicMesh(Rng& r, int size) {
  Faces f = BasicMesh(r, size);
  if (r.chance(1, 3)) f = Transform(RandLinear(r), f);
  if (r.chance(1, 3)) {
    Q k = MakeQ((long)r.range(1, 5), 1l << r.below(4));
    for (auto& x : f) for (auto& v : x) v = v * k;
  }
  if (r.chance(1, 3)) f = Translate(f, V3(MakeQ((long)r.range(-64, 64), 64), MakeQ((long)r.range(-64, 64), 64), MakeQ((long)r.range(-64, 64), 64)));
  if (r.chance(1, 3)) f = TriangulateSome(r, f, 1, 2);
  r.shuffle(f);
  return f;
}

struct Cells {
  std::vector<V3> points;
  std::vector<std::vector<vtkIdType>> polys, strips;
  Face At(const std::vector<vtkIdType>& c) const {
    Face f;
    for (auto i : c) f.push_back(points[i]);
    return f;
  }
  // What the cells stand for.
  Faces AllFaces() const {
    Faces out;
    for (auto& c : polys) out.push_back(At(c));
    for (auto& c : strips) for (size_t i = 0; i + 2 < c.size(); ++i) {
      Face f = {points[c[i]], points[c[i + 1]], points[c[i + 2]]};
      if (i & 1) std::swap(f[0], f[1]);
      out.push_back(f);
    }
    return out;
  }
};

static vtkSmartPointer<vtkPolyData> MakePolyData(const Cells& c, bool single) {
  auto data = vtkSmartPointer<vtkPolyData>::New();
  auto points = vtkSmartPointer<vtkPoints>::New();
  if (!single) points->SetDataTypeToDouble();
  for (auto& p : c.points) points->InsertNextPoint(p[0].get_d(), p[1].get_d(), p[2].get_d());
  data->SetPoints(points);
  if (!c.polys.empty()) {
    auto a = vtkSmartPointer<vtkCellArray>::New();
    for (auto& x : c.polys) a->InsertNextCell(x.size(), x.data());
    data->SetPolys(a);
  }
  if (!c.strips.empty()) {
    auto a = vtkSmartPointer<vtkCellArray>::New();
    for (auto& x : c.strips) a->InsertNextCell(x.size(), x.data());
    data->SetStrips(a);
  }
  return data;
}

static vtkIdType PointId(Rng& r, Cells& c, const V3& p, bool share) {
  if (share) for (size_t i = 0; i < c.points.size(); ++i) if (c.points[i] == p) return i;
  c.points.push_back(p);
  return c.points.size() - 1;
}

static Cells ToCells(Rng& r, const Faces& f, bool share) {
  Cells c;
  for (auto& x : f) {
    std::vector<vtkIdType> cell;
    bool as_strip = r.chance(1, 4);
    if (as_strip) {
      // A convex face in zigzag order: 0 1 n-1 2 n-2 ...
      size_t lo = 1, hi = x.size() - 1;
      Face order = {x[0]};
      bool low = true;
      while (lo <= hi) { order.push_back(low ? x[lo++] : x[hi--]); low = !low; }
      bool ok = true;
      for (size_t i = 0; i + 2 < order.size(); ++i) ok &= !Cross(order[i + 1] - order[i], order[i + 2] - order[i]).IsZero();
      (void)ok;
      for (auto& v : order) cell.push_back(PointId(r, c, v, share));
      if (r.chance(1, 6)) {
        // Turning around: repeat a vertex. This adds triangles without an area.
        cell.push_back(cell.back());
        Count("degenerate_strips");
      }
      c.strips.push_back(cell);
      Count("strips");
    } else {
      for (auto& v : x) cell.push_back(PointId(r, c, v, share));
      std::rotate(cell.begin(), cell.begin() + r.below(cell.size()), cell.end());
      c.polys.push_back(cell);
    }
  }
  return c;
}

// Rounded to a multiple of 2^e, halves up.
static Q Quantize(const Q& q, int e) {
  mpz_class d = 1;
  d <<= -e;
  Q x = q * d + MakeQ(1, 2);
  mpz_class fl;
  mpz_fdiv_q(fl.get_mpz_t(), x.get_num().get_mpz_t(), x.get_den().get_mpz_t());
  return MakeQ(fl, d);
}

static Faces WithoutZeroEdges(const Faces& f) {
  Faces out;
  for (auto& x : f) {
    Face g;
    for (auto& v : x) if (g.empty() || g.back() != v) g.push_back(v);
    while (g.size() > 1 && g.back() == g[0]) g.pop_back();
    if (g.size() > 1) out.push_back(g);
  }
  return out;
}

// A canonical form of a plane with a direction.
static std::string PlaneKey(const V3& n, const V3& p) {
  int k = 0;
  while (sgn(n[k]) == 0) ++k;
  V3 u = n * Q(1 / abs(n[k]));
  return S(u) + Q(Dot(u, p)).get_str();
}

static std::string CellsText(const Cells& c) {
  std::string o = "polys ";
  for (auto& x : c.polys) o += S(c.At(x));
  o += " strips ";
  for (auto& x : c.strips) o += S(c.At(x));
  return o;
}

// ---------------------------------------------------------------------------
// V01: conversions

static void CheckImport(Rng& r) {
  Faces f = DyadicMesh(r, 1);
  if (r.chance(1, 3)) Append(f, DyadicMesh(r, 1));
  Cells c = ToCells(r, f, r.chance(2, 3));
  if (r.chance(1, 4)) {
    // A strip that bends.
    std::vector<vtkIdType> s;
    for (int i = 0, n = r.range(3, 9); i < n; ++i) {
      V3 p((long)(i / 2), (long)(i & 1), (long)r.range(-2, 2));
      s.push_back(PointId(r, c, p, false));
    }
    c.strips.push_back(s);
    Count("bent_strips");
  }
  bool quantize = r.chance(1, 3);
  int e = quantize ? -(int)r.below(8) : INT_MIN;
  bool flip = r.chance(1, 3);
  // The conversion to floats is exact too.
  bool single = !quantize && r.chance(1, 4);
  auto data = MakePolyData(c, single);
  std::string text = CellsText(c) + " exponent " + std::to_string(e) + (flip ? " flipped" : "");
  if (st().verbose) fprintf(stderr, "CELLS %s\n", text.c_str());
  std::vector<MutableConvexPolygon<>> got = VTKToWalnutMesh(data, e, flip);
  Faces want = c.AllFaces();
  if (quantize) for (auto& x : want) for (auto& v : x) for (int i = 0; i < 3; ++i) v[i] = Quantize(v[i], e);
  if (flip) want = Flipped(want);
  std::set<V3> known;
  for (auto& x : want) for (auto& v : x) known.insert(v);
  Faces out;
  for (auto& p : got) {
    Face x = CheckPolygon(p, "V01-polygon");
    for (auto& v : x) VREQ(known.count(v), "V01-vertex", S(v) << " is not a vertex of the input: " << text);
    out.push_back(x);
    Count("imported_polygons");
  }
  Faces both = out;
  Append(both, Flipped(WithoutZeroEdges(want)));
  std::string open = Unclosed(both);
  VREQ(open.empty(), "V01-outline", open << " " << text << " -> " << S(out));
  // Nothing is lost or turned around.
  std::map<std::string, V3> area;
  bool planar = true;
  for (auto& x : want) {
    V3 n = VecArea(x);
    if (n.IsZero()) { Count("empty_cells"); continue; }
    for (auto& v : x) planar &= sgn(Dot(n, v - x[0])) == 0;
    auto it = area.emplace(PlaneKey(n, x[0]), V3(0, 0, 0)).first;
    it->second = it->second + n;
  }
  if (planar && !quantize) {
    for (auto& x : out) {
      V3 n = VecArea(x);
      auto it = area.find(PlaneKey(n, x[0]));
      VREQ(it != area.end(), "V01-plane", S(x) << " " << text);
      it->second = it->second - n;
    }
    for (auto& x : area) VREQ(x.second.IsZero(), "V01-area", "plane " << x.first << " " << text << " -> " << S(out));
    Count("planar_meshes");
  }
  if (flip) Count("flipped");
  if (quantize) Count("quantized");
  Observe(text);
  NonTrivial();
  if (WantSample() && !c.strips.empty()) Sample(text + " -> " + std::to_string(got.size()) + " polygons");
}

// Reads cells back.
static Faces CellFaces(vtkPolyData* d, std::vector<std::vector<vtkIdType>>* ids) {
  Faces out;
  d->GetPolys()->InitTraversal();
  vtkNew<vtkIdList> list;
  while (d->GetPolys()->GetNextCell(list)) {
    Face f;
    std::vector<vtkIdType> id;
    for (vtkIdType i = 0; i < list->GetNumberOfIds(); ++i) {
      double p[3];
      d->GetPoint(list->GetId(i), p);
      f.push_back(V3(Q(p[0]), Q(p[1]), Q(p[2])));
      id.push_back(list->GetId(i));
    }
    out.push_back(f);
    if (ids) ids->push_back(id);
  }
  return out;
}

template <typename Poly>
static void CheckExport(Rng& r) {
  Faces f = DyadicMesh(r, 1);
  std::vector<Poly> mesh = MakeFaces<Poly>(r, f);
  // The constructors may rotate vertices.
  Faces want;
  for (auto& p : mesh) want.push_back(VerticesOf(p));
  vtkSmartPointer<vtkPolyData> d = WalnutToVTKMesh(mesh);
  std::vector<std::vector<vtkIdType>> ids;
  Faces got = CellFaces(d, &ids);
  VREQ(got.size() == want.size(), "V01-cells", got.size() << " " << S(f));
  std::map<V3, vtkIdType> id;
  for (size_t i = 0; i < got.size(); ++i) {
    VREQ(got[i].size() == want[i].size(), "V01-cell-size", S(got[i]) << " " << S(want[i]));
    for (size_t k = 0; k < got[i].size(); ++k) {
      // Values that fit are exact.
      VREQ(got[i][k] == want[i][k], "V01-cell", S(got[i]) << " instead of " << S(want[i]));
      auto it = id.emplace(want[i][k], ids[i][k]).first;
      VREQ(it->second == ids[i][k], "V01-shared-id", "vertex " << S(want[i][k]) << " has two points: " << S(f));
    }
    Count("exported_polygons");
  }
  VREQ((size_t)d->GetNumberOfPoints() == id.size(), "V01-point-count", d->GetNumberOfPoints() << " instead of " << id.size());
  // And back.
  Faces again;
  for (auto& p : VTKToWalnutMesh(d, INT_MIN, false)) again.push_back(CheckPolygon(p, "V01-again"));
  Append(again, Flipped(want));
  VREQ(Unclosed(again).empty(), "V01-round-trip", S(f));
  Observe(S(f));
  NonTrivial();
}

PROPERTY(V01) {
  switch (r.below(4)) {
    case 0: CheckExport<ConvexPolygon<>>(r); break;
    case 1: CheckExport<AABBConvexPolygon<>>(r); break;
    default: CheckImport(r);
  }
}

// ---------------------------------------------------------------------------
// V02: the filter

static Faces Triangles(const Faces& f) {
  Faces out;
  for (auto& x : f) for (size_t i = 2; i < x.size(); ++i) {
    Face t = {x[0], x[i - 1], x[i]};
    if (!VecArea(t).IsZero()) out.push_back(t);
  }
  return out;
}

// Is the point clearly off of every plane of the mesh?
static bool Clear(const Faces& f, const V3& p) {
  for (auto& x : f) {
    V3 n = VecArea(x);
    Q d = abs(Dot(n, p - x[0]));
    Q len = abs(n[0]) + abs(n[1]) + abs(n[2]);
    if (d * 1000000 < len) return false;
  }
  return true;
}

PROPERTY(V02) {
  size_t n = r.range(1, 3);
  std::vector<Faces> mesh;
  Faces all;
  vtkNew<vtkWalnutBooleanFilter> filter;
  int errors = 0;
  vtkNew<vtkCallbackCommand> on_error;
  on_error->SetClientData(&errors);
  on_error->SetCallback([](vtkObject*, unsigned long, void* data, void*) { ++*(int*)data; });
  filter->AddObserver(vtkCommand::ErrorEvent, on_error);
  filter->GetExecutive()->AddObserver(vtkCommand::ErrorEvent, on_error);
  int op = r.below(3);
  if (op == 0) filter->SetOperationToUnion();
  if (op == 1) filter->SetOperationToIntersection();
  if (op == 2) filter->SetOperationToDifference();
  Count(op == 0 ? "unions" : op == 1 ? "intersections" : "differences");
  int e = INT_MIN;
  if (r.chance(1, 3)) { e = -(int)r.range(10, 30); filter->SetMinExponent(e); Count("quantized"); }
  std::string text = op == 0 ? "union" : op == 1 ? "intersection" : "difference";
  std::vector<vtkSmartPointer<vtkPolyData>> keep;
  for (size_t i = 0; i < n; ++i) {
    Faces f;
    if (r.chance(1, 12)) Count("empty_inputs");
    else if (i > 0 && r.chance(1, 5)) f = Translate(mesh[r.below(i)], V3((long)r.range(-1, 1), 0, (long)r.range(-1, 1)));
    else f = DyadicMesh(r, 1);
    mesh.push_back(f);
    Append(all, f);
    text += " mesh" + std::to_string(i) + "=" + S(f);
    keep.push_back(MakePolyData(ToCells(r, f, r.chance(3, 4)), false));
    filter->AddInputData(0, keep.back());
  }
  if (st().verbose) fprintf(stderr, "SCENE %s\n", text.c_str());
  size_t in = 0, off = 0;
  Faces out;
  for (int round = 0; round < 2; ++round) {
    if (round == 1) {
      // The same filter with other settings.
      if (!r.chance(1, 3)) break;
      op = r.below(3);
      if (op == 0) filter->SetOperationToUnion();
      if (op == 1) filter->SetOperationToIntersection();
      if (op == 2) filter->SetOperationToDifference();
      text += op == 0 ? ", again as union" : op == 1 ? ", again as intersection" : ", again as difference";
      Count("updates_again");
    }
    filter->Update();
    VREQ(errors == 0, "V02-errors", errors << " errors " << text);
    std::vector<std::vector<vtkIdType>> ids;
    vtkPolyData* output = filter->GetOutput();
    out.clear();
    if (output->GetPolys()) out = CellFaces(output, &ids);
    // The cells fit together.
    std::map<std::pair<vtkIdType, vtkIdType>, int> edges;
    for (auto& c : ids) {
      VREQ(c.size() >= 3, "V02-cell", text);
      for (size_t k = 0; k < c.size(); ++k) {
        vtkIdType a = c[k], b = c[(k + 1) % c.size()];
        VREQ(a != b, "V02-zero-edge", text);
        if (a < b) ++edges[{a, b}]; else --edges[{b, a}];
      }
    }
    for (auto& x : edges) VREQ(x.second == 0, "V02-open", "an edge of the output is not shared " << text << " -> " << S(out));
    Count("output_cells", ids.size());
    Faces tri = Triangles(out);
    for (int k = 0; k < 8; ++k) {
      V3 p = RandV(r, kSmall) * MakeQ(1, 2) + V3(MakeQ(1, 17), MakeQ(1, 19), MakeQ(1, 23));
      if (!all.empty() && k < 6) {
        // Near the middle of things.
        auto& x = r.pick(all);
        auto& y = r.pick(all);
        Q t = MakeQ((long)r.range(1, 99), 100);
        p = Centroid(x) * t + Centroid(y) * Q(1 - t) + RandV(r, kSmall) * MakeQ(1, 97);
      }
      if (!Clear(all, p)) { Count("points_too_close"); continue; }
      std::vector<bool> inside;
      std::vector<int> w;
      for (auto& m : mesh) w.push_back(Winding(m, p, r));
      bool want = op == 0 ? false : w[0] > 0;
      for (size_t i = 0; i < n; ++i) {
        if (op == 0) want = want || w[i] > 0;
        if (op == 1) want = want && w[i] > 0;
        if (op == 2 && i > 0) want = want && w[i] <= 0;
      }
      int got = Winding(tri, p, r);
      VREQ(got == (want ? 1 : 0), "V02-winding", "the output winds " << got << " times around " << S(p) << " " << text << " -> " << S(out));
      ++(want ? in : off);
    }
  }
  Count("points_inside", in);
  Count("points_outside", off);
  Observe(text);
  if (in && off) NonTrivial();
  if (WantSample() && in && off) Sample(text + " -> " + std::to_string(out.size()) + " cells");
}

}  // namespace vf

VERIF_MAIN

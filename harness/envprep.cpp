// Writes the inputs of the jobs of h_env.cpp, one job per line.
//
// The jobs are run by several builds of the library, so their inputs are made
// here, once, with GMP and not with the library.
#include "scene.h"

namespace vf {
using namespace walnut;

struct Out {
  std::ostringstream o;
  void T(const std::string& s) { o << s << ' '; }
  void N(long n) { o << n << ' '; }
  void I(const mpz_class& z) { o << z.get_str(16) << ' '; }
  void P(Rng& r, const V3& v, bool scale) {
    mpz_class w = CommonDenom(v);
    if (scale) w *= RandScale(r);
    for (int i = 0; i < 3; ++i) {
      Q q = v[i] * w;
      I(q.get_num());
    }
    I(w);
  }
  void Plane(Rng& r, const V3& normal, const V3& on) {
    mpz_class l = CommonDenom(normal), t;
    Q d = Dot(normal, on);
    mpz_lcm(t.get_mpz_t(), l.get_mpz_t(), d.get_den().get_mpz_t());
    l = t * abs(RandScale(r));
    for (int i = 0; i < 3; ++i) {
      Q q = normal[i] * l;
      I(q.get_num());
    }
    Q q = d * l;
    I(q.get_num());
  }
  // A polygon: its size, plane, dropped dimension and vertices.
  void Poly(Rng& r, const Face& f, bool scale) {
    V3 n = FaceNormal(f);
    N(f.size());
    Plane(r, n, f[0]);
    N(RandDrop(r, n));
    for (auto& v : f) P(r, v, scale);
  }
};

static V3 RandNormal(Rng& r, int grid) {
  V3 n;
  do n = RandV(r, grid); while (n.IsZero());
  return n;
}

static void NearPlane(Rng& r, Out& o, const Faces& all) {
  V3 n, at;
  const Face& x = all[r.below(all.size())];
  at = x[r.below(x.size())];
  switch (r.below(4)) {
    case 0: n = FaceNormal(x); break;
    case 1: n = Cross(x[1] - x[0], RandV(r, kSmall)); break;
    case 2: n = Cross(x[1] - x[0], FaceNormal(x)); at = x[0]; break;
    default: n = RandV(r, kSmall);
  }
  while (n.IsZero()) n = RandV(r, kSmall);
  o.Plane(r, n, at);
}

static void Ints(Rng& r, Out& o) {
  size_t bits = r.pick(std::vector<size_t>{60, 130, 700, 3000});
  o.N(6);
  for (int i = 0; i < 6; ++i) o.I(RandZ(r, bits));
  size_t n = 60;
  o.N(n);
  for (size_t i = 0; i < n; ++i) {
    o.N(r.below(14));
    for (int k = 0; k < 3; ++k) o.N(r.below(6));
    o.N(r.below(200));
  }
}

static void Geometry(Rng& r, Out& o) {
  int grid = RandGrid(r);
  std::vector<V3> p;
  for (int i = 0; i < 5; ++i) p.push_back(i > 2 && r.chance(1, 3) ? p[0] + (p[1] - p[0]) * MakeQ((long)r.range(-3, 3), 2) : RandV(r, grid));
  for (auto& v : p) o.P(r, v, true);
  for (int i = 0; i < 4; ++i) {
    V3 n = RandNormal(r, r.coin() ? kSmall : grid);
    o.Plane(r, n, r.coin() ? p[r.below(5)] : RandV(r, grid));
  }
  long lo[3], den = r.range(1, 5);
  for (int i = 0; i < 3; ++i) o.N(lo[i] = r.range(-20, 10));
  for (int i = 0; i < 3; ++i) o.N(lo[i] + r.range(1, 20));
  o.N(den);
}

static void Polygons(Rng& r, Out& o) {
  size_t n = r.range(3, r.coin() ? 6 : 24);
  int grid = RandGrid(r);
  GenPoly g;
  Frame frame = RandFrame(r, grid);
  std::vector<P2> p2 = RandConvex2(r, n, n > 8 ? 12 : 6);
  Face f;
  for (auto& p : p2) f.push_back(frame.At(Q(p.x), Q(p.y)));
  o.Poly(r, f, true);
  size_t planes = 4;
  o.N(planes);
  for (size_t i = 0; i < planes; ++i) {
    if (r.chance(1, 8)) o.Plane(r, RandNormal(r, kSmall), RandV(r, kSmall));
    else {
      V3 a = f[r.below(f.size())], b = f[r.below(f.size())];
      V3 at = a + (b - a) * MakeQ((long)r.range(0, 4), 4);
      V3 m = Cross(r.coin() ? frame.Normal() : RandNormal(r, kSmall), b - a);
      if (m.IsZero() || r.chance(1, 3)) m = RandNormal(r, kSmall);
      o.Plane(r, m, at);
    }
  }
}

static void Mesh(Rng& r, Out& o, const Faces& f) {
  bool scale = r.chance(1, 3);
  o.N(f.size());
  for (auto& x : f) o.Poly(r, x, scale);
}

static void RandFilter(Rng& r, Out& o, size_t ids, int depth, bool monotone) {
  if (depth <= 0 || r.chance(1, 4)) {
    switch (r.below(monotone ? 5 : 6)) {
      case 0: o.T("inv"); o.N(r.below(ids)); return;
      case 1: o.T("uni"); o.N(ids); for (size_t i = 0; i < ids; ++i) o.N(r.below(ids + 1)); return;
      case 2: o.T("int"); o.N(ids); for (size_t i = 0; i < ids; ++i) o.N(i); return;
      case 3: o.T("sub"); o.N(ids); for (size_t i = 0; i < ids; ++i) o.N((i + 1) % ids); return;
      case 5: o.T("odd"); o.N(r.below(ids)); return;
      default: o.T("pos"); o.N(r.below(ids)); return;
    }
  }
  o.T(r.pick(monotone ? std::vector<std::string>{"AND", "OR", "SUB"} : std::vector<std::string>{"AND", "OR", "SUB", "XOR"}));
  RandFilter(r, o, ids, depth - 1, monotone);
  RandFilter(r, o, ids, depth - 1, monotone);
}

static void Boolean(Rng& r, Out& o, int visitor) {
  size_t n = r.range(1, 3);
  Faces all;
  o.N(visitor);
  o.N(n);
  for (size_t i = 0; i < n; ++i) {
    Faces f = i && r.chance(1, 4) ? Translate(all, V3((long)r.range(0, 1), 0, 0)) : RandMesh(r, 1);
    if (f.size() > 60) f.resize(0);
    if (f.empty()) f = BoxMesh(V3(0, 0, 0), V3(1, 2, 3));
    Append(all, f);
    Mesh(r, o, f);
  }
  size_t pre = r.chance(1, 3) ? r.range(1, 3) : 0;
  o.N(pre);
  for (size_t i = 0; i < pre; ++i) NearPlane(r, o, all);
  o.N(r.below(2) ? 6 : r.below(4));
  RandFilter(r, o, n, r.range(0, 2), visitor != 0);
}

static void Loop(Rng& r, Out& o) {
  Frame f = RandFrame(r, RandGrid(r));
  size_t n = r.range(3, 14);
  std::vector<V3> v;
  int kind = r.below(4);
  if (kind == 0) {
    for (auto& p : RandConvex2(r, n, 6)) v.push_back(f.At(Q(p.x), Q(p.y)));
  } else if (kind == 1) {
    // Two chains.
    std::vector<V3> back;
    for (long x = 0; x <= (long)n; ++x) {
      v.push_back(f.At(Q(x), Q((long)r.range(-5, -1))));
      if (r.coin()) back.push_back(f.At(Q(x), Q((long)r.range(1, 5))));
    }
    v.insert(v.end(), back.rbegin(), back.rend());
  } else {
    for (size_t i = 0; i < n; ++i)
      v.push_back(kind == 2 ? f.At(Q((long)r.range(-4, 4)), Q((long)r.range(-4, 4))) : RandV(r, kSmall));
  }
  o.N(v.size());
  bool scale = r.coin();
  for (auto& p : v) o.P(r, p, scale);
  for (int i = 0; i < 3; ++i) o.I(mpz_class((long)r.range(-4, 4)));
  o.I(mpz_class((long)(r.coin() ? 1 : r.range(-5, -1))));
}

static void Repair(Rng& r, Out& o) {
  long size = r.range(50, 400);
  Faces f;
  do {
    if (r.coin()) {
      V3 lo((long)r.range(-size, size), (long)r.range(-size, size), (long)r.range(-size, size));
      f = BoxMesh(lo, lo + V3(Q(size), Q((long)(size + r.below(size))), Q((long)(size + r.below(size)))));
    } else {
      std::vector<V3> p;
      size_t n = r.range(6, 12);
      for (size_t i = 0; i < n; ++i) p.push_back(V3((long)r.range(-2, 2), (long)r.range(-2, 2), (long)r.range(-2, 2)));
      f = HullMesh(p);
      for (auto& x : f) for (auto& v : x) v = v * Q(size);
    }
  } while (f.empty());
  std::map<V3, V3> moved;
  for (auto& x : f) for (auto& v : x) if (!moved.count(v))
    moved[v] = v + V3((long)r.range(-3, 3), (long)r.range(-3, 3), (long)r.range(-3, 3));
  o.N(f.size());
  for (auto& x : f) {
    o.N(x.size());
    for (auto& v : x) o.P(r, moved[v], r.coin());
  }
}

static void Bsp(Rng& r, Out& o) {
  Faces f;
  if (r.coin()) f = RandMesh(r, 1);
  else for (size_t i = 0, n = r.range(2, 10); i < n; ++i) {
    GenPoly g;
    Frame frame = RandFrame(r, kSmall);
    Face x;
    for (auto& p : RandConvex2(r, r.range(3, 6), 5)) x.push_back(frame.At(Q(p.x), Q(p.y)));
    f.push_back(x);
  }
  if (f.size() > 60) f.resize(60);
  Mesh(r, o, f);
  // Distinct planes that cross the box.
  size_t n = r.range(1, 4);
  o.N(n);
  for (size_t i = 0; i < n; ++i) {
    V3 m((long)r.range(-3, 3), (long)r.range(-3, 3), (long)(7 + i));
    o.Plane(r, m, V3((long)r.range(-3, 3), (long)r.range(-3, 3), MakeQ((long)(2 * r.range(-3, 3) + 1), (long)(3 + i))));
    o.N(r.below(2));
  }
}

static void Job(Rng& r, Out& o) {
  switch (r.below(11)) {
    case 0: o.T("ints"); Ints(r, o); break;
    case 1: o.T("geometry"); Geometry(r, o); break;
    case 2: o.T("polygons"); Polygons(r, o); break;
    case 3: case 4: o.T("boolean"); Boolean(r, o, 0); break;
    case 5: case 6: o.T("boolean"); Boolean(r, o, 1 + r.below(2)); break;
    case 7: o.T("loop"); Loop(r, o); break;
    case 8: o.T("repair"); Repair(r, o); break;
    case 9: o.T("bsp"); Bsp(r, o); break;
    default: {
      o.T("measure");
      Mesh(r, o, RandMesh(r, 1));
      for (int i = 0; i < 3; ++i) o.I(mpz_class((long)r.range(-9, 9)));
    }
  }
}

}  // namespace vf

int main(int argc, char** argv) {
  if (argc < 4) return 3;
  uint64_t seed = strtoull(argv[1], nullptr, 10), jobs = strtoull(argv[2], nullptr, 10);
  FILE* f = fopen(argv[3], "w");
  if (!f) return 3;
  for (uint64_t i = 0; i < jobs; ++i) {
    vf::Rng r(vf::Mix(vf::Mix(seed, 0x454e56), i));
    vf::Out o;
    vf::Job(r, o);
    fprintf(f, "%s\n", o.o.str().c_str());
  }
  return fclose(f) ? 3 : 0;
}

// Random closed meshes with exact coordinates, and exact membership oracles.
#ifndef VERIF_MESH_H
#define VERIF_MESH_H

#include "poly.h"

namespace vf {

typedef std::vector<V3> Face;   // Convex, counter-clockwise from outside.
typedef std::vector<Face> Faces;

inline V3 FaceNormal(const Face& f) { return VecArea(f); }

inline V3 Centroid(const Face& f) {
  V3 c(0, 0, 0);
  for (auto& v : f) c = c + v;
  return c * MakeQ(1, (long)f.size());
}

inline Faces Flipped(Faces f) {
  for (auto& x : f) std::reverse(x.begin(), x.end());
  return f;
}

inline void Append(Faces& a, Faces b) { a.insert(a.end(), b.begin(), b.end()); }

inline Faces BoxMesh(const V3& lo, const V3& hi) {
  Faces out;
  for (int d = 0; d < 3; ++d) {
    int a = (d + 1) % 3, b = (d + 2) % 3;
    for (int side = 0; side < 2; ++side) {
      Face f;
      for (int k = 0; k < 4; ++k) {
        V3 v;
        v[d] = side ? hi[d] : lo[d];
        bool ka = k == 1 || k == 2, kb = k >= 2;
        v[a] = ka ? hi[a] : lo[a];
        v[b] = kb ? hi[b] : lo[b];
        f.push_back(v);
      }
      if (!side) std::reverse(f.begin(), f.end());
      out.push_back(f);
    }
  }
  return out;
}

// Orders coplanar convex-position points counter-clockwise about the normal.
inline Face OrderConvex(std::vector<V3> p, const V3& n) {
  std::sort(p.begin(), p.end());
  p.erase(std::unique(p.begin(), p.end()), p.end());
  // Gift wrapping that drops collinear points.
  Face out;
  size_t start = 0;
  size_t cur = start;
  do {
    out.push_back(p[cur]);
    size_t next = cur == 0 ? 1 : 0;
    for (size_t i = 0; i < p.size(); ++i) {
      if (i == cur || i == next) continue;
      Q t = Dot(n, Cross(p[next] - p[cur], p[i] - p[cur]));
      if (sgn(t) < 0) next = i;
      else if (sgn(t) == 0) {
        V3 a = p[next] - p[cur], b = p[i] - p[cur];
        if (Dot(b, b) > Dot(a, a)) next = i;
      }
    }
    cur = next;
  } while (cur != start && out.size() <= p.size());
  return out;
}

// The convex hull of a few points, with whole faces. Empty if degenerate.
inline Faces HullMesh(std::vector<V3> p) {
  std::sort(p.begin(), p.end());
  p.erase(std::unique(p.begin(), p.end()), p.end());
  Faces out;
  std::vector<std::vector<size_t>> seen;
  const size_t n = p.size();
  for (size_t i = 0; i < n; ++i)
    for (size_t j = i + 1; j < n; ++j)
      for (size_t k = j + 1; k < n; ++k) {
        V3 normal = Cross(p[j] - p[i], p[k] - p[i]);
        if (normal.IsZero()) continue;
        int pos = 0, neg = 0;
        std::vector<size_t> on;
        for (size_t m = 0; m < n; ++m) {
          Q q = Dot(normal, p[m] - p[i]);
          int s = sgn(q);
          pos += s > 0;
          neg += s < 0;
          if (!s) on.push_back(m);
        }
        if (pos && neg) continue;
        if (!pos && !neg) return Faces();
        if (std::find(seen.begin(), seen.end(), on) != seen.end()) continue;
        seen.push_back(on);
        std::vector<V3> pts;
        for (size_t m : on) pts.push_back(p[m]);
        out.push_back(OrderConvex(pts, pos ? normal * Q(-1) : normal));
      }
  return out;
}

// The boundary of a set of unit cells.
inline Faces VoxelMesh(Rng& r, int nx, int ny, int nz, unsigned num, unsigned den) {
  std::vector<bool> on(nx * ny * nz);
  bool any = false;
  for (size_t i = 0; i < on.size(); ++i) {
    on[i] = r.chance(num, den);
    any |= on[i];
  }
  if (!any) on[r.below(on.size())] = true;
  auto at = [&](int x, int y, int z) {
    if (x < 0 || y < 0 || z < 0 || x >= nx || y >= ny || z >= nz) return false;
    return (bool)on[(z * ny + y) * nx + x];
  };
  Faces out;
  for (int z = 0; z < nz; ++z)
    for (int y = 0; y < ny; ++y)
      for (int x = 0; x < nx; ++x) {
        if (!at(x, y, z)) continue;
        Faces box = BoxMesh(V3(x, y, z), V3(x + 1, y + 1, z + 1));
        for (int d = 0; d < 3; ++d)
          for (int side = 0; side < 2; ++side) {
            int c[3] = {x, y, z};
            c[d] += side ? 1 : -1;
            if (!at(c[0], c[1], c[2])) out.push_back(box[d * 2 + side]);
          }
      }
  return out;
}

inline Faces PrismMesh(Rng& r, size_t sides, long range, long height) {
  std::vector<P2> base = RandConvex2(r, sides, range);
  Faces out;
  Face top, bottom;
  for (auto& p : base) {
    top.push_back(V3(Q(p.x), Q(p.y), Q(height)));
    bottom.push_back(V3(Q(p.x), Q(p.y), Q(0)));
  }
  for (size_t i = 0; i < base.size(); ++i) {
    size_t j = (i + 1) % base.size();
    out.push_back(Face{bottom[i], bottom[j], top[j], top[i]});
  }
  std::reverse(bottom.begin(), bottom.end());
  out.push_back(top);
  out.push_back(bottom);
  return out;
}

struct Linear {
  V3 col[3], t;
  V3 Apply(const V3& v) const { return t + col[0] * v[0] + col[1] * v[1] + col[2] * v[2]; }
  Q Det() const { return Dot(col[0], Cross(col[1], col[2])); }
};

inline Linear RandLinear(Rng& r) {
  Linear l;
  do {
    for (int i = 0; i < 3; ++i) {
      l.col[i] = V3(0, 0, 0);
      for (int j = 0; j < 3; ++j) l.col[i][j] = (long)r.range(-3, 3);
    }
  } while (sgn(l.Det()) == 0);
  l.t = V3(0, 0, 0);
  return l;
}

inline Faces Transform(const Linear& l, Faces f) {
  bool flip = sgn(l.Det()) < 0;
  for (auto& x : f) {
    for (auto& v : x) v = l.Apply(v);
    if (flip) std::reverse(x.begin(), x.end());
  }
  return f;
}

inline Faces Translate(Faces f, const V3& t) {
  for (auto& x : f) for (auto& v : x) v = v + t;
  return f;
}

// Fan triangulation of some of the faces.
inline Faces TriangulateSome(Rng& r, const Faces& f, unsigned num, unsigned den) {
  Faces out;
  for (auto& x : f) {
    if (x.size() == 3 || !r.chance(num, den)) { out.push_back(x); continue; }
    size_t s = r.below(x.size());
    for (size_t i = 1; i + 1 < x.size(); ++i) {
      Face t{x[s], x[(s + i) % x.size()], x[(s + i + 1) % x.size()]};
      if (!FaceNormal(t).IsZero()) out.push_back(t);
    }
  }
  return out;
}

// Cuts some of the faces in two, leaving T-junctions.
inline Faces CutSome(Rng& r, const Faces& f, unsigned num, unsigned den) {
  Faces out;
  for (auto& x : f) {
    if (!r.chance(num, den)) { out.push_back(x); continue; }
    V3 a = x[r.below(x.size())], b = Centroid(x);
    size_t i = r.below(x.size());
    V3 m = (x[i] + x[(i + 1) % x.size()]) * MakeQ(1, 2);
    V3 n = Cross(FaceNormal(x), r.coin() ? a - b : m - b);
    if (n.IsZero()) { out.push_back(x); continue; }
    Q d = Dot(n, b);
    Face y = Clip(x, n, d, -1), z = Clip(x, n, d, 1);
    if (y.size() < 3 || z.size() < 3 || FaceNormal(y).IsZero() || FaceNormal(z).IsZero()) {
      out.push_back(x);
      continue;
    }
    out.push_back(y);
    out.push_back(z);
  }
  return out;
}

// A closed mesh, without regard to where it is.
inline Faces BasicMesh(Rng& r, int size) {
  switch (r.below(7)) {
    case 0: case 1: {
      V3 lo((long)r.range(-3, 2), (long)r.range(-3, 2), (long)r.range(-3, 2));
      V3 hi = lo + V3((long)r.range(1, 4), (long)r.range(1, 4), (long)r.range(1, 4));
      return BoxMesh(lo, hi);
    }
    case 2: {
      Faces f;
      do {
        std::vector<V3> p;
        for (int i = 0; i < 4; ++i) p.push_back(V3((long)r.range(-3, 3), (long)r.range(-3, 3), (long)r.range(-3, 3)));
        f = HullMesh(p);
      } while (f.empty());
      return f;
    }
    case 3: {
      Faces f;
      size_t n = r.range(5, size > 1 ? 14 : 8);
      do {
        std::vector<V3> p;
        for (size_t i = 0; i < n; ++i) p.push_back(V3((long)r.range(-4, 4), (long)r.range(-4, 4), (long)r.range(-4, 4)));
        f = HullMesh(p);
      } while (f.empty());
      return f;
    }
    case 4: case 5: {
      int k = size > 1 ? 3 : 2;
      Faces f = VoxelMesh(r, r.range(1, k), r.range(1, k), r.range(1, k), 1, 2);
      return Translate(f, V3((long)r.range(-2, 1), (long)r.range(-2, 1), (long)r.range(-2, 1)));
    }
    default:
      return PrismMesh(r, r.range(3, size > 1 ? 9 : 5), 3, r.range(1, 3));
  }
}

// A closed mesh, which may intersect itself, have holes, T-junctions, repeated
// or cancelling parts.
inline Faces RandMesh(Rng& r, int size) {
  Faces f = BasicMesh(r, size);
  if (r.chance(1, 4)) {
    Faces g = BasicMesh(r, 1);
    if (r.chance(1, 3)) g = Flipped(g);
    Append(f, g);
    Count("meshes_of_two_parts");
  }
  if (r.chance(1, 12)) {
    Append(f, f);
    Count("meshes_repeated");
  }
  if (r.chance(1, 3)) f = Transform(RandLinear(r), f);
  if (r.chance(1, 5)) {
    Q k = MakeQ((long)r.range(1, 7), (long)r.range(1, 5));
    for (auto& x : f) for (auto& v : x) v = v * k;
  }
  if (r.chance(1, 5)) f = Translate(f, RandV(r, kRational));
  if (r.chance(1, 3)) f = TriangulateSome(r, f, 1, 2);
  if (r.chance(1, 4)) f = CutSome(r, f, 1, 3);
  r.shuffle(f);
  return f;
}

inline std::string S(const Faces& f) {
  std::string o;
  for (auto& x : f) o += S(x);
  return o;
}

// ---------------------------------------------------------------------------

inline bool OnSurface(const Faces& f, const V3& p) {
  for (auto& x : f) if (InConvex(p, x, FaceNormal(x))) return true;
  return false;
}

// The winding number of a closed mesh about p, which is not on its surface.
inline int Winding(const Faces& f, const V3& p, Rng& r) {
  std::vector<V3> normals;
  for (auto& x : f) normals.push_back(FaceNormal(x));
  while (true) {
    V3 dir((long)r.range(-1000, 1000), (long)r.range(-1000, 1000), (long)r.range(-1000, 1000));
    if (dir.IsZero()) continue;
    int w = 0;
    bool retry = false;
    for (size_t i = 0; i < f.size() && !retry; ++i) {
      const Face& x = f[i];
      const V3& n = normals[i];
      Q den = Dot(n, dir), num = Dot(n, x[0] - p);
      if (sgn(den) == 0) {
        if (sgn(num) == 0) retry = true;
        continue;
      }
      if (sgn(num) == 0) {
        // p is on the plane, and not in the face.
        continue;
      }
      if (sgn(num) != sgn(den)) continue;
      V3 hit = p + dir * Q(num / den);
      bool in = true;
      for (size_t j = 0; j < x.size() && in; ++j) {
        const V3 &a = x[j], &b = x[(j + 1) % x.size()];
        Q s = Dot(n, Cross(b - a, hit - a));
        if (sgn(s) < 0) in = false;
        else if (sgn(s) == 0) {
          // On the line of this edge: outside, unless in all of the others.
          bool really = true;
          for (size_t k = 0; k < x.size() && really; ++k) {
            Q q = Dot(n, Cross(x[(k + 1) % x.size()] - x[k], hit - x[k]));
            really = sgn(q) >= 0;
          }
          if (really) retry = true;
          in = false;
        }
      }
      if (in) w += sgn(den);
    }
    if (!retry) return w;
  }
}

// Checks that directed edges cancel everywhere. Returns a description of an
// edge which does not cancel, or an empty string.
inline std::string Unclosed(const Faces& f) {
  // Key: a canonical form of the line.
  struct Seg { Q lo, hi; int sign; };
  std::map<std::string, std::vector<Seg>> lines;
  for (auto& x : f) {
    for (size_t i = 0; i < x.size(); ++i) {
      V3 a = x[i], b = x[(i + 1) % x.size()];
      V3 d = b - a;
      int k = 0;
      while (sgn(d[k]) == 0) ++k;
      Q scale = 1 / d[k];
      V3 u = d * scale;           // u[k] == 1
      V3 base = a - u * a[k];     // base[k] == 0
      Q ta = a[k], tb = b[k];
      int sign = 1;
      if (ta > tb) { std::swap(ta, tb); sign = -1; }
      lines[S(u) + S(base)].push_back({ta, tb, sign});
    }
  }
  for (auto& l : lines) {
    std::map<Q, int> delta;
    for (auto& s : l.second) {
      delta[s.lo] += s.sign;
      delta[s.hi] -= s.sign;
    }
    int sum = 0;
    for (auto& d : delta) {
      sum += d.second;
      if (sum != 0) return "line " + l.first + " at " + d.first.get_str();
    }
  }
  return "";
}

// ---------------------------------------------------------------------------
// Conversion

template <typename Poly>
inline Poly MakeFace(Rng& r, const Face& f, bool scale) {
  V3 n = FaceNormal(f);
  std::vector<walnut::HomoPoint3> p;
  for (auto& v : f) p.push_back(scale ? MakeHomo(v, r) : MakeHomo1(v));
  return Poly(MakePlane(r, n, f[0]), RandDrop(r, n), p);
}

template <typename Poly>
inline std::vector<Poly> MakeFaces(Rng& r, const Faces& f) {
  bool scale = r.chance(1, 3);
  std::vector<Poly> out;
  for (auto& x : f) out.push_back(MakeFace<Poly>(r, x, scale));
  return out;
}

template <typename Polys>
inline Faces ToFaces(const Polys& p, const std::string& key) {
  Faces out;
  for (auto& x : p) out.push_back(CheckPolygon(x, key));
  return out;
}

inline Q Tiny() {
  mpz_class d = 1;
  d <<= 600;
  return MakeQ(1, d);
}

// Points near and away from the surfaces of the meshes.
inline V3 RandTestPoint(Rng& r, const Faces& all) {
  if (!all.empty() && r.chance(3, 4)) {
    const Face& x = all[r.below(all.size())];
    // A random point in the face.
    V3 p(0, 0, 0);
    Q total = 0;
    for (auto& v : x) {
      Q w = r.chance(1, 4) ? Q(0) : Q((long)r.range(1, 20));
      p = p + v * w;
      total += w;
    }
    if (total == 0) p = Centroid(x);
    else p = p * Q(1 / total);
    switch (r.below(3)) {
      case 0: return p + FaceNormal(x) * (r.coin() ? Tiny() : Q(-Tiny()));
      case 1: return p + FaceNormal(x) * MakeQ((long)r.range(-8, 8) | 1, 64);
      default:
        return p + RandV(r, kSmall) * MakeQ(1, 997);
    }
  }
  V3 p = RandV(r, kSmall);
  return p * MakeQ(1, 2) + V3(MakeQ(1, 17), MakeQ(1, 19), MakeQ(1, 23));
}

}  // namespace vf

#endif

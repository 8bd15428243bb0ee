// Reference filters and a separable filtering model, in double precision.
#pragma once
#include "gen.h"
#include <Field3D/Resample.h>
namespace filt {
enum Kind { Box, Tri, Gauss, Mitchell, Min, Max, N };
inline const char* nm(int k) { static const char* n[] = {"box", "triangle", "gaussian", "mitchell", "min", "max"}; return n[k]; }
inline double support(int k) { return k == Tri ? 1 : k == Gauss ? 4 : k == Mitchell ? 2 : 0.5; }
inline double eval(int k, double t) {
  t = std::fabs(t);
  switch (k) {
    case Tri: return t > 1 ? 0 : 1 - t;
    case Gauss: { double x = t / 2; return std::max(0.0, std::exp(-2 * x * x) - std::exp(-8.0)); }
    case Mitchell: {
      double B = 1.0 / 3, C = 1.0 / 3;
      if (t < 1) return ((12 - 9 * B - 6 * C) * t * t * t + (-18 + 12 * B + 6 * C) * t * t + (6 - 2 * B)) / 6;
      if (t < 2) return ((-B - 6 * C) * t * t * t + (6 * B + 30 * C) * t * t + (-12 * B - 48 * C) * t + (8 * B + 24 * C)) / 6;
      return 0;
    }
    default: return t <= 0.5 ? 1 : 0;
  }
}
template <class F> struct KindOf;
template <> struct KindOf<Field3D::BoxFilter> { enum { k = Box }; };
template <> struct KindOf<Field3D::TriangleFilter> { enum { k = Tri }; };
template <> struct KindOf<Field3D::GaussianFilter> { enum { k = Gauss }; };
template <> struct KindOf<Field3D::MitchellFilter> { enum { k = Mitchell }; };
template <> struct KindOf<Field3D::MinFilter> { enum { k = Min }; };
template <> struct KindOf<Field3D::MaxFilter> { enum { k = Max }; };

// grid of up to three components, origin at zero; lo/hi bracket the value where the definition is ambiguous
struct Grid {
  Field3D::V3i res;
  int nc;
  std::vector<double> v;
  std::vector<char> amb;
  double mx = 0;
  Grid() : res(0), nc(1) {}
  Grid(const Field3D::V3i& r, int n) : res(r), nc(n), v((size_t)r.x * r.y * r.z * n, 0.0), amb((size_t)r.x * r.y * r.z, 0) {}
  size_t ix(int i, int j, int k) const { return ((size_t)k * res.y + j) * res.x + i; }
  double& at(int i, int j, int k, int c) { return v[ix(i, j, k) * nc + c]; }
  double at(int i, int j, int k, int c) const { return v[ix(i, j, k) * nc + c]; }
};
template <class T> Grid toGrid(const Field3D::Field<T>& f) {
  Field3D::Box3i w = f.dataWindow();
  Grid g(gen::res(w), gen::TT<T>::n);
  gen::forBox(w, [&](int i, int j, int k) {
    T x = f.value(i, j, k);
    for (int c = 0; c < g.nc; c++) { double d = gen::comp(x, c); g.at(i - w.min.x, j - w.min.y, k - w.min.z, c) = d; g.mx = std::max(g.mx, std::fabs(d)); }
  });
  return g;
}
// one pass along dim: position of target voxel t in source space and the distance unit
template <class Ev, class Pos> Grid passEv(const Grid& s, int dim, int n, int kind, double radius, double unit, Ev ev, Pos pos) {
  Field3D::V3i r = s.res;
  r[dim] = n;
  Grid o(r, s.nc);
  o.mx = s.mx;
  std::vector<std::vector<std::pair<int, double> > > w(n);
  std::vector<char> flip(n, 0);  // only border samples: at least one of them counts
  std::vector<char> amb(n, 0);
  for (int t = 0; t < n; t++) {
    double c = pos(t);
    for (int q = 0; q < s.res[dim]; q++) {
      double d = std::fabs(q + 0.5 - c) / unit;
      double e = ev(d);
      if ((kind == Box || kind == Min || kind == Max) && std::fabs(d - radius) < 1e-4) amb[t] = 1;
      if (e != 0) w[t].push_back(std::make_pair(q, e));
    }
    if (w[t].empty() && (kind == Min || kind == Max)) {
      flip[t] = 1;
      for (int q = 0; q < s.res[dim]; q++)
        if (std::fabs(std::fabs(q + 0.5 - c) / unit - radius) < 1e-4) w[t].push_back(std::make_pair(q, 1.0));
    }
  }
  for (int k = 0; k < r.z; k++) for (int j = 0; j < r.y; j++) for (int i = 0; i < r.x; i++) {
    int p[3] = {i, j, k}, t = p[dim];
    size_t id = o.ix(i, j, k);
    o.amb[id] = amb[t];
    for (int c = 0; c < s.nc; c++) {
      double a = 0, ws = 0;
      bool any = false;
      for (auto& x : w[t]) {
        p[dim] = x.first;
        double v = s.at(p[0], p[1], p[2], c);
        if (s.amb[s.ix(p[0], p[1], p[2])]) o.amb[id] = 1;
        if ((kind == Min && !flip[t]) || (kind == Max && flip[t])) a = any ? std::min(a, v) : v;
        else if (kind == Min || kind == Max) a = any ? std::max(a, v) : v;
        else { a += v * x.second; ws += x.second; }
        any = true;
      }
      p[dim] = t;
      if (kind != Min && kind != Max) a = ws > 0 ? a / ws : 0;
      o.v[id * s.nc + c] = a;
    }
  }
  return o;
}
template <class Pos> Grid pass(const Grid& s, int dim, int n, int kind, double unit, Pos pos) {
  return passEv(s, dim, n, kind, 0.5, unit, [kind](double d) { return eval(kind, d); }, pos);
}
template <class T> double tol() { return 1e-5; }
template <> inline double tol<Field3D::half>() { return 4e-3; }
template <> inline double tol<Field3D::V3h>() { return 4e-2; }
}  // namespace filt

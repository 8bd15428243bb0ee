// Generators, reference models and comparison oracles over Field3D's public API.
#pragma once
#include "vf.h"
#include <Field3D/FieldInterp.h>
#include <Field3D/DenseField.h>
#include <Field3D/SparseField.h>
#include <Field3D/MACField.h>
#include <Field3D/MIPField.h>
#include <Field3D/EmptyField.h>
#include <Field3D/Field3DFile.h>
#include <Field3D/FieldMapping.h>
#include <Field3D/InitIO.h>
#include <Field3D/SparseFile.h>
#include <OpenEXR/ImathFrustum.h>
#include <limits>

namespace gen {
using namespace Field3D;
using vf::Rng;
using vf::Ctx;
using vf::Hash;

// ---------------------------------------------------------------- voxel types
template <class T> struct TT;
template <> struct TT<half>   { enum { n = 1, vec = 0 }; typedef half S;   static const char* nm() { return "half"; } };
template <> struct TT<float>  { enum { n = 1, vec = 0 }; typedef float S;  static const char* nm() { return "float"; } };
template <> struct TT<double> { enum { n = 1, vec = 0 }; typedef double S; static const char* nm() { return "double"; } };
template <> struct TT<V3h>    { enum { n = 3, vec = 1 }; typedef half S;   static const char* nm() { return "vec_half"; } };
template <> struct TT<V3f>    { enum { n = 3, vec = 1 }; typedef float S;  static const char* nm() { return "vec_float"; } };
template <> struct TT<V3d>    { enum { n = 3, vec = 1 }; typedef double S; static const char* nm() { return "vec_double"; } };

enum ValMode { ValSmall, ValWide, ValSpecial };

inline double randScalarD(Rng& r, ValMode m) {
  if (m == ValSpecial && r.chance(0.2)) {
    switch (r.u(6)) {
      case 0: return 0.0;
      case 1: return -0.0;
      case 2: return std::numeric_limits<double>::infinity();
      case 3: return -std::numeric_limits<double>::infinity();
      case 4: return 5.9604645e-08;
      default: return std::numeric_limits<double>::quiet_NaN();
    }
  }
  if (m == ValWide || m == ValSpecial) {
    double e = r.real(-4, 4);
    return (r.chance(0.5) ? 1 : -1) * std::pow(10.0, e);
  }
  return r.range(-40, 40) * 0.25;
}
template <class S> inline S toS(double d) { return S((float)d); }
template <> inline double toS<double>(double d) { return d; }

template <class T, int V = TT<T>::vec> struct Mk {
  static T rnd(Rng& r, ValMode m) { return toS<T>(randScalarD(r, m)); }
  static T one(double d) { return toS<T>(d); }
};
template <class T> struct Mk<T, 1> {
  typedef typename TT<T>::S S;
  static T rnd(Rng& r, ValMode m) {
    S a = toS<S>(randScalarD(r, m)), b = toS<S>(randScalarD(r, m)), c = toS<S>(randScalarD(r, m));
    return T(a, b, c);
  }
  static T one(double d) { return T(toS<S>(d), toS<S>(d + 0.5), toS<S>(d - 0.25)); }
};
template <class T> T rndVal(Rng& r, ValMode m = ValSpecial) { return Mk<T>::rnd(r, m); }
template <class T> T mkVal(double d) { return Mk<T>::one(d); }

inline double comp(const half& v, int) { return (float)v; }
inline double comp(const float& v, int) { return v; }
inline double comp(const double& v, int) { return v; }
template <class S> inline double comp(const FIELD3D_VEC3_T<S>& v, int c) { return v[c]; }

template <class T> std::string str(const T& v) {
  std::ostringstream o;
  o.precision(17);
  for (int c = 0; c < TT<T>::n; c++) o << (c ? "," : "") << comp(v, c);
  return o.str();
}
inline std::string str(const V3i& v) { std::ostringstream o; o << v.x << "," << v.y << "," << v.z; return o.str(); }
inline std::string str(const Box3i& b) { return "[" + str(b.min) + ".." + str(b.max) + "]"; }

template <class F> void withType(int t, F f) {
  switch (t % 6) {
    case 0: f(half()); break;
    case 1: f(float()); break;
    case 2: f(double()); break;
    case 3: f(V3h(half(0))); break;
    case 4: f(V3f(0)); break;
    default: f(V3d(0)); break;
  }
}
template <class F> void withScalar(int t, F f) {
  switch (t % 3) {
    case 0: f(half()); break;
    case 1: f(float()); break;
    default: f(double()); break;
  }
}
template <class F> void withVec(int t, F f) {
  switch (t % 3) {
    case 0: f(V3h(half(0))); break;
    case 1: f(V3f(0)); break;
    default: f(V3d(0)); break;
  }
}

// ---------------------------------------------------------------- windows
inline V3i res(const Box3i& b) { return b.max - b.min + V3i(1); }
inline size_t vox(const Box3i& b) { V3i r = res(b); return (size_t)r.x * r.y * r.z; }
template <class F> void forBox(const Box3i& b, F f) {
  for (int k = b.min.z; k <= b.max.z; k++)
    for (int j = b.min.y; j <= b.max.y; j++)
      for (int i = b.min.x; i <= b.max.x; i++) f(i, j, k);
}
inline size_t lin(const Box3i& b, int i, int j, int k) {
  V3i r = res(b);
  return (size_t)(i - b.min.x) + (size_t)(j - b.min.y) * r.x + (size_t)(k - b.min.z) * r.x * r.y;
}
inline Box3i rndBox(Rng& r, int maxRes, int off) {
  V3i o(0), s;
  if (off && r.chance(0.6)) o = V3i(r.range(-off, off), r.range(-off, off), r.range(-off, off));
  for (int c = 0; c < 3; c++) s[c] = r.chance(0.15) ? 1 : r.range(1, maxRes);
  return Box3i(o, o + s - V3i(1));
}
// extents and data window (data window may exceed, equal or lie inside/outside the extents)
inline void rndWindows(Rng& r, Box3i& ext, Box3i& dw, int maxRes = 14, int off = 9) {
  ext = rndBox(r, maxRes, off);
  switch (r.u(4)) {
    case 0: dw = ext; break;
    case 1: { int p = r.range(0, 3); dw = Box3i(ext.min - V3i(p), ext.max + V3i(p)); break; }
    default: dw = rndBox(r, maxRes, off); break;
  }
}
inline Box3i rndSub(Rng& r, const Box3i& b) {
  Box3i s;
  for (int c = 0; c < 3; c++) {
    int a = r.range(b.min[c], b.max[c]), d = r.range(b.min[c], b.max[c]);
    s.min[c] = std::min(a, d);
    s.max[c] = std::max(a, d);
  }
  return s;
}

// ---------------------------------------------------------------- mappings
inline M44d rndMatrix(Rng& r, bool affineOnly = true) {
  M44d m;
  m.makeIdentity();
  M44d t;
  t.makeIdentity(); t.scale(V3d(r.real(0.3, 4), r.real(0.3, 4), r.real(0.3, 4))); m *= t;
  if (r.chance(0.4)) { t.makeIdentity(); t.shear(V3d(r.real(-0.6, 0.6), r.real(-0.6, 0.6), r.real(-0.6, 0.6))); m *= t; }
  if (r.chance(0.7)) { t.makeIdentity(); t.rotate(V3d(r.real(-3, 3), r.real(-3, 3), r.real(-3, 3))); m *= t; }
  if (r.chance(0.8)) { t.makeIdentity(); t.translate(V3d(r.real(-20, 20), r.real(-20, 20), r.real(-20, 20))); m *= t; }
  return m;
}
inline void rndFrustum(Rng& r, M44d& ssToWs, M44d& csToWs) {
  double n = r.real(0.1, 2), f = n + r.real(1, 20), w = r.real(0.2, 1.5) * n, h = r.real(0.2, 1.5) * n;
  double l = -w, rr = w, t = h, b = -h;
  if (r.chance(0.3)) { l = -w * r.real(0.3, 1); t = h * r.real(0.3, 1); }
  Imath::Frustum<double> fr(n, f, l, rr, t, b, false);
  M44d proj = fr.projectionMatrix();
  M44d rot, tr;
  rot.makeIdentity(); tr.makeIdentity();
  if (r.chance(0.7)) rot.rotate(V3d(r.real(-3, 3), r.real(-3, 3), r.real(-3, 3)));
  if (r.chance(0.7)) tr.translate(V3d(r.real(-10, 10), r.real(-10, 10), r.real(-10, 10)));
  csToWs = rot * tr;
  ssToWs = proj.inverse() * csToWs;
}
inline std::vector<float> rndTimes(Rng& r, int n) {
  std::vector<float> ts;
  while ((int)ts.size() < n) {
    float t = r.chance(0.5) ? (float)r.range(-4, 4) * 0.25f : (float)r.real(-2, 2);
    bool dup = false;
    for (float x : ts) dup |= x == t;
    if (!dup) ts.push_back(t);
  }
  return ts;
}
enum MapKind { MapNull, MapMatrix, MapMatrixTV, MapFrustum, MapFrustumTV, MapKinds };
inline FieldMapping::Ptr rndMapping(Rng& r, int kind) {
  switch (kind % MapKinds) {
    case MapNull: return FieldMapping::Ptr(new NullFieldMapping);
    case MapMatrix: {
      MatrixFieldMapping::Ptr m(new MatrixFieldMapping);
      m->setLocalToWorld(rndMatrix(r));
      return m;
    }
    case MapMatrixTV: {
      MatrixFieldMapping::Ptr m(new MatrixFieldMapping);
      for (float t : rndTimes(r, r.range(1, 4))) m->setLocalToWorld(t, rndMatrix(r));
      return m;
    }
    case MapFrustum: {
      FrustumFieldMapping::Ptr m(new FrustumFieldMapping);
      M44d a, b;
      rndFrustum(r, a, b);
      m->setZDistribution(r.chance(0.5) ? FrustumFieldMapping::UniformDistribution
                                        : FrustumFieldMapping::PerspectiveDistribution);
      m->setTransforms(a, b);
      return m;
    }
    default: {
      FrustumFieldMapping::Ptr m(new FrustumFieldMapping);
      m->setZDistribution(r.chance(0.5) ? FrustumFieldMapping::UniformDistribution
                                        : FrustumFieldMapping::PerspectiveDistribution);
      for (float t : rndTimes(r, r.range(1, 3))) {
        M44d a, b;
        rndFrustum(r, a, b);
        m->setTransforms(t, a, b);
      }
      return m;
    }
  }
}
template <class SV> std::string samplesDiff(const SV& a, const SV& b, const char* what) {
  if (a.size() != b.size()) {
    std::ostringstream o; o << what << ": " << a.size() << " samples vs " << b.size(); return o.str();
  }
  for (size_t i = 0; i < a.size(); i++)
    if (a[i].first != b[i].first || !(a[i].second == b[i].second)) {
      std::ostringstream o; o << what << ": sample " << i << " differs (t=" << a[i].first << " vs " << b[i].first << ")"; return o.str();
    }
  return "";
}
// "" when the two mappings are the same transform, exactly.
inline std::string mappingDiff(FieldMapping::Ptr a, FieldMapping::Ptr b) {
  if (!a || !b) return a.get() == b.get() ? "" : "one mapping is null";
  if (a->className() != b->className()) return "mapping class " + a->className() + " vs " + b->className();
  if (a->origin() != b->origin() || a->resolution() != b->resolution()) return "mapping extents differ";
  std::string s;
  if (MatrixFieldMapping* m = dynamic_cast<MatrixFieldMapping*>(a.get())) {
    MatrixFieldMapping* n = dynamic_cast<MatrixFieldMapping*>(b.get());
    if (!n) return "mapping dynamic type";
    s = samplesDiff(m->localToWorldSamples(), n->localToWorldSamples(), "localToWorld");
    if (s.size()) return s;
    if (!(m->localToWorld() == n->localToWorld())) return "localToWorld matrix differs";
  }
  if (FrustumFieldMapping* m = dynamic_cast<FrustumFieldMapping*>(a.get())) {
    FrustumFieldMapping* n = dynamic_cast<FrustumFieldMapping*>(b.get());
    if (!n) return "mapping dynamic type";
    if (m->zDistribution() != n->zDistribution()) return "zDistribution differs";
    s = samplesDiff(m->screenToWorldSamples(), n->screenToWorldSamples(), "screenToWorld");
    if (s.empty()) s = samplesDiff(m->cameraToWorldSamples(), n->cameraToWorldSamples(), "cameraToWorld");
    if (s.empty()) s = samplesDiff(m->nearPlaneSamples(), n->nearPlaneSamples(), "nearPlane");
    if (s.empty()) s = samplesDiff(m->farPlaneSamples(), n->farPlaneSamples(), "farPlane");
    if (s.size()) return s;
  }
  // behaviour at probe points and times
  static const double P[3][3] = {{0.5, 0.5, 0.5}, {0.1, 0.9, 0.3}, {0.8, 0.2, 0.7}};
  static const float Ts[3] = {0.0f, 0.37f, -1.2f};
  for (int i = 0; i < 3; i++)
    for (int t = 0; t < 3; t++) {
      V3d l(P[i][0], P[i][1], P[i][2]), wa, wb, va, vb;
      a->localToWorld(l, wa, Ts[t]); b->localToWorld(l, wb, Ts[t]);
      if (!vf::bitEq(wa, wb)) return "localToWorld(point) differs";
      a->worldToVoxel(wa, va, Ts[t]); b->worldToVoxel(wa, vb, Ts[t]);
      if (!vf::bitEq(va, vb)) return "worldToVoxel(point) differs";
    }
  V3d r = a->resolution();
  if (r.x >= 1 && r.y >= 1 && r.z >= 1) {
    V3d sa = a->wsVoxelSize(0, 0, 0), sb = b->wsVoxelSize(0, 0, 0);
    if (!vf::bitEq(sa, sb)) return "wsVoxelSize differs";
  }
  return "";
}

// "" when the two mappings agree at probe points up to rounding
inline std::string mappingNear(FieldMapping::Ptr a, FieldMapping::Ptr b, double tol = 2e-6) {
  if (!a || !b) return a.get() == b.get() ? "" : "one mapping is null";
  if (a->className() != b->className()) return "mapping class " + a->className() + " vs " + b->className();
  static const double P[3][3] = {{0.5, 0.5, 0.5}, {0.1, 0.9, 0.3}, {0.8, 0.2, 0.7}};
  static const float Ts[3] = {0.0f, 0.37f, -1.2f};
  for (int i = 0; i < 3; i++)
    for (int t = 0; t < 3; t++) {
      V3d l(P[i][0], P[i][1], P[i][2]), wa, wb, va, vb;
      a->localToWorld(l, wa, Ts[t]); b->localToWorld(l, wb, Ts[t]);
      auto alike = [](const V3d& x, const V3d& y) { for (int k = 0; k < 3; k++) if (!(x[k] == y[k] || (x[k] != x[k] && y[k] != y[k]))) return false; return true; };
      if (!alike(wa, wb) && !((wa - wb).length() <= tol * (1 + wa.length()))) return "localToWorld(point) differs";
      a->worldToVoxel(wa, va, Ts[t]); b->worldToVoxel(wa, vb, Ts[t]);
      if (!alike(va, vb) && !((va - vb).length() <= 1e3 * tol * (1 + va.length()))) return "worldToVoxel(point) differs";
    }
  return "";
}

// ---------------------------------------------------------------- metadata and names
inline std::string rndName(Rng& r, int maxLen = 12) {
  static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-: ";
  int n = r.range(1, maxLen);
  std::string s;
  for (int i = 0; i < n; i++) s += cs[r.u(i == 0 ? 52 : sizeof(cs) - 1)];
  if (s == "mapping") s = "m";
  return s;
}
inline std::string rndText(Rng& r) {
  int n = r.chance(0.1) ? r.range(200, 400) : r.range(0, 30);
  std::string s;
  for (int i = 0; i < n; i++) s += (char)r.range(32, 126);
  return s;
}
inline void rndMetadata(Rng& r, FieldMetadata& m, int maxN = 3) {
  int id = 0;
  auto key = [&] {
    static const char* odd[] = {"/", "a/b", "/x/", "metadata/", "class_type", "extents", "mapping", "components", "name", "bits_per_component", "data_window", "0", ".", "..", "k 1", "<f3d>", "\xc3\xa9"};
    int i = id++;
    if (r.chance(0.1)) return std::string(odd[r.u(17)]) + (r.chance(0.5) ? "" : " ") + (i ? std::to_string(i) : "");
    return "k" + std::to_string(i) + "_" + rndName(r, 6);
  };
  for (int n = r.range(0, maxN); n > 0; n--) m.setStrMetadata(key(), rndText(r));
  for (int n = r.range(0, maxN); n > 0; n--) m.setIntMetadata(key(), (int)r.next());
  for (int n = r.range(0, maxN); n > 0; n--) m.setFloatMetadata(key(), (float)r.real(-1e5, 1e5));
  for (int n = r.range(0, maxN); n > 0; n--) m.setVecIntMetadata(key(), V3i((int)r.next(), (int)r.next(), -7));
  for (int n = r.range(0, maxN); n > 0; n--)
    m.setVecFloatMetadata(key(), V3f((float)r.real(-9, 9), (float)r.real(-1e9, 1e9), 0.1f));
}
inline std::string metaDiff(const FieldMetadata& a, const FieldMetadata& b) {
  if (a.strMetadata() != b.strMetadata()) return "string metadata differ";
  if (a.intMetadata() != b.intMetadata()) return "int metadata differ";
  // floats bit by bit
  auto same = [](const auto& x, const auto& y) {
    if (x.size() != y.size()) return false;
    for (auto i = x.begin(), j = y.begin(); i != x.end(); ++i, ++j)
      if (i->first != j->first || memcmp(&i->second, &j->second, sizeof i->second)) return false;
    return true;
  };
  if (!same(a.floatMetadata(), b.floatMetadata())) return "float metadata differ";
  if (a.vecIntMetadata() != b.vecIntMetadata()) return "vec int metadata differ";
  if (!same(a.vecFloatMetadata(), b.vecFloatMetadata())) return "vec float metadata differ";
  return "";
}

// ---------------------------------------------------------------- fields
enum Kind { KDense, KSparse, KMAC, KMIPDense, KMIPSparse, Kinds };
inline const char* kindName(int k) {
  static const char* n[] = {"dense", "sparse", "mac", "mipdense", "mipsparse"};
  return n[k];
}

template <class T> void fillDense(Rng& r, DenseField<T>& f, ValMode m = ValSpecial) {
  T base = rndVal<T>(r, m);
  f.clear(base);
  double p = r.chance(0.5) ? 1.0 : r.f01();
  forBox(f.dataWindow(), [&](int i, int j, int k) { if (r.chance(p)) f.fastLValue(i, j, k) = rndVal<T>(r, m); });
}
template <class T> typename DenseField<T>::Ptr mkDense(Rng& r, const Box3i& ext, const Box3i& dw, ValMode m = ValSpecial) {
  typename DenseField<T>::Ptr f(new DenseField<T>);
  f->setSize(ext, dw);
  fillDense(r, *f, m);
  return f;
}
// what a sparse field must contain, kept independently of the field
template <class T> struct SparseModel {
  Box3i ext, dw;
  int order;
  V3i bres;
  std::vector<char> alloc;
  std::vector<T> empty;
  std::vector<T> data;  // over dw
  void blockOf(int i, int j, int k, int& bi, int& bj, int& bk) const {
    bi = (i - dw.min.x) >> order; bj = (j - dw.min.y) >> order; bk = (k - dw.min.z) >> order;
  }
  size_t bid(int bi, int bj, int bk) const { return bi + (size_t)bj * bres.x + (size_t)bk * bres.x * bres.y; }
  void init(const Box3i& e, const Box3i& d, int o) {
    ext = e; dw = d; order = o;
    V3i rr = res(d);
    int bs = 1 << o;
    bres = V3i((rr.x + bs - 1) / bs, (rr.y + bs - 1) / bs, (rr.z + bs - 1) / bs);
    size_t n = (size_t)bres.x * bres.y * bres.z;
    alloc.assign(n, 0);
    empty.assign(n, T(0));
    data.assign(vox(d), T(0));
  }
};
template <class T> typename SparseField<T>::Ptr mkSparse(Rng& r, const Box3i& ext, const Box3i& dw, int order,
                                                        ValMode m = ValSpecial, SparseModel<T>* model = nullptr,
                                                        double density = -1) {
  typename SparseField<T>::Ptr f(new SparseField<T>);
  SparseModel<T> mm;
  mm.init(ext, dw, order);
  if (r.chance(0.5)) { f->setBlockOrder(order); f->setSize(ext, dw); }
  else { f->setSize(ext, dw); f->setBlockOrder(order); }
  if (r.chance(0.5)) {
    T v = rndVal<T>(r, m);
    f->clear(v);
    for (auto& e : mm.empty) e = v;
  }
  double pe = r.f01() * 0.6, pa = density >= 0 ? density : (r.chance(0.15) ? 0.0 : r.f01());
  double pv = r.chance(0.4) ? 1.0 : r.f01();
  int bs = 1 << order;
  forBox(Box3i(V3i(0), mm.bres - V3i(1)), [&](int bi, int bj, int bk) {
    size_t b = mm.bid(bi, bj, bk);
    if (r.chance(pe)) {
      T v = rndVal<T>(r, m);
      f->setBlockEmptyValue(bi, bj, bk, v);
      mm.empty[b] = v;
    }
    Box3i bb(dw.min + V3i(bi, bj, bk) * bs, dw.min + V3i(bi + 1, bj + 1, bk + 1) * bs - V3i(1));
    for (int c = 0; c < 3; c++) bb.max[c] = std::min(bb.max[c], dw.max[c]);
    forBox(bb, [&](int i, int j, int k) { mm.data[lin(dw, i, j, k)] = mm.empty[b]; });
    if (r.chance(pa)) {
      bool any = false;
      forBox(bb, [&](int i, int j, int k) {
        if (r.chance(pv)) {
          T v = rndVal<T>(r, m);
          f->lvalue(i, j, k) = v;
          mm.data[lin(dw, i, j, k)] = v;
          any = true;
        }
      });
      if (any) mm.alloc[b] = 1;
    }
  });
  if (model) *model = mm;
  return f;
}
template <class T> typename MACField<T>::Ptr mkMAC(Rng& r, const Box3i& ext, const Box3i& dw, ValMode m = ValSpecial) {
  typedef typename TT<T>::S S;
  typename MACField<T>::Ptr f(new MACField<T>);
  f->setSize(ext, dw);
  f->clear(rndVal<T>(r, m));
  Box3i u = dw, v = dw, w = dw;
  u.max.x++; v.max.y++; w.max.z++;
  forBox(u, [&](int i, int j, int k) { f->u(i, j, k) = toS<S>(randScalarD(r, m)); });
  forBox(v, [&](int i, int j, int k) { f->v(i, j, k) = toS<S>(randScalarD(r, m)); });
  forBox(w, [&](int i, int j, int k) { f->w(i, j, k) = toS<S>(randScalarD(r, m)); });
  return f;
}
// level windows of a MIP pyramid: origin-based, each level not larger, strictly smaller somewhere
inline std::vector<Box3i> rndLevels(Rng& r, int maxRes, int maxLevels) {
  std::vector<Box3i> v;
  V3i s(r.range(2, maxRes), r.range(2, maxRes), r.range(2, maxRes));
  v.push_back(Box3i(V3i(0), s - V3i(1)));
  int n = r.range(1, maxLevels);
  while ((int)v.size() < n) {
    V3i q = s;
    for (int c = 0; c < 3; c++) q[c] = r.chance(0.7) ? (s[c] + 1) / 2 : s[c];
    if (q == s) for (int c = 0; c < 3; c++) q[c] = (s[c] + 1) / 2;
    if (q == s) break;
    s = q;
    v.push_back(Box3i(V3i(0), s - V3i(1)));
  }
  return v;
}

// ---------------------------------------------------------------- comparison
template <class T, class A, class B> std::string voxelDiff(const A& a, const B& b) {
  std::string d;
  forBox(a.dataWindow(), [&](int i, int j, int k) {
    if (d.size()) return;
    T x = a.value(i, j, k), y = b.value(i, j, k);
    if (!vf::bitEq(x, y)) d = "voxel " + str(V3i(i, j, k)) + ": " + str(x) + " vs " + str(y);
  });
  vf::voxels(vox(a.dataWindow()));
  return d;
}
inline std::string windowDiff(const FieldRes& a, const FieldRes& b) {
  if (a.extents() != b.extents()) return "extents " + str(a.extents()) + " vs " + str(b.extents());
  if (a.dataWindow() != b.dataWindow()) return "dataWindow " + str(a.dataWindow()) + " vs " + str(b.dataWindow());
  return "";
}
template <class T> std::string sparseDiff(const SparseField<T>& a, const SparseField<T>& b) {
  std::string s = windowDiff(a, b);
  if (s.size()) return s;
  if (a.blockOrder() != b.blockOrder()) return "blockOrder differs";
  if (a.blockRes() != b.blockRes()) return "blockRes differs";
  forBox(Box3i(V3i(0), a.blockRes() - V3i(1)), [&](int i, int j, int k) {
    if (s.size()) return;
    if (a.blockIsAllocated(i, j, k) != b.blockIsAllocated(i, j, k)) s = "block " + str(V3i(i, j, k)) + " allocated state differs";
    else if (!vf::bitEq(a.getBlockEmptyValue(i, j, k), b.getBlockEmptyValue(i, j, k)))
      s = "block " + str(V3i(i, j, k)) + " empty value " + str(T(a.getBlockEmptyValue(i, j, k))) + " vs " + str(T(b.getBlockEmptyValue(i, j, k)));
  });
  if (s.size()) return s;
  return voxelDiff<T>(a, b);
}
template <class T> std::string sparseModelDiff(const SparseField<T>& a, const SparseModel<T>& m) {
  std::string s;
  if (a.extents() != m.ext) return "extents " + str(a.extents()) + " vs " + str(m.ext);
  if (a.dataWindow() != m.dw) return "dataWindow " + str(a.dataWindow()) + " vs " + str(m.dw);
  if (a.blockOrder() != m.order) return "blockOrder";
  if (a.blockRes() != m.bres) return "blockRes " + str(a.blockRes()) + " vs " + str(m.bres);
  forBox(Box3i(V3i(0), m.bres - V3i(1)), [&](int i, int j, int k) {
    if (s.size()) return;
    size_t b = m.bid(i, j, k);
    if (a.blockIsAllocated(i, j, k) != (bool)m.alloc[b]) s = "block " + str(V3i(i, j, k)) + " allocated state " + (m.alloc[b] ? "lost" : "gained");
    else {
      T e = a.getBlockEmptyValue(i, j, k);
      if (!vf::bitEq(e, m.empty[b])) s = "block " + str(V3i(i, j, k)) + " empty value " + str(e) + " expected " + str(m.empty[b]);
    }
  });
  if (s.size()) return s;
  forBox(m.dw, [&](int i, int j, int k) {
    if (s.size()) return;
    T x = a.fastValue(i, j, k);
    if (!vf::bitEq(x, m.data[lin(m.dw, i, j, k)])) s = "voxel " + str(V3i(i, j, k)) + ": " + str(x) + " expected " + str(m.data[lin(m.dw, i, j, k)]);
  });
  vf::voxels(vox(m.dw));
  return s;
}
template <class T> std::string macDiff(const MACField<T>& a, const MACField<T>& b) {
  std::string s = windowDiff(a, b);
  if (s.size()) return s;
  if (a.getComponentSize() != b.getComponentSize()) return "component sizes differ";
  Box3i u = a.dataWindow(), v = u, w = u;
  u.max.x++; v.max.y++; w.max.z++;
  forBox(u, [&](int i, int j, int k) { if (s.empty() && !vf::bitEq(a.u(i, j, k), b.u(i, j, k))) s = "u at " + str(V3i(i, j, k)); });
  forBox(v, [&](int i, int j, int k) { if (s.empty() && !vf::bitEq(a.v(i, j, k), b.v(i, j, k))) s = "v at " + str(V3i(i, j, k)); });
  forBox(w, [&](int i, int j, int k) { if (s.empty() && !vf::bitEq(a.w(i, j, k), b.w(i, j, k))) s = "w at " + str(V3i(i, j, k)); });
  vf::voxels(3 * vox(a.dataWindow()));
  return s;
}
// whole-field equality of two fields of the same concrete class
template <class T> struct MacCmp { static bool go(const Field<T>*, const Field<T>*, std::string&) { return false; } };
template <class S> struct MacCmp<FIELD3D_VEC3_T<S> > {
  typedef FIELD3D_VEC3_T<S> T;
  static bool go(const Field<T>* a, const Field<T>* b, std::string& s) {
    const MACField<T>* m = dynamic_cast<const MACField<T>*>(a);
    if (!m) return false;
    const MACField<T>* n = dynamic_cast<const MACField<T>*>(b);
    s = n ? macDiff(*m, *n) : "not a MACField";
    return true;
  }
};
template <class T> std::string fieldDiff(const Field<T>* a, const Field<T>* b);
template <class M, class T> bool mipCmp(const Field<T>* a, const Field<T>* b, std::string& s) {
  const M* m = dynamic_cast<const M*>(a);
  if (!m) return false;
  const M* n = dynamic_cast<const M*>(b);
  if (!n) { s = "not the same MIP class"; return true; }
  if (m->numLevels() != n->numLevels()) { s = "MIP level count differs"; return true; }
  if (m->mipOffset() != n->mipOffset()) { s = "MIP offset differs"; return true; }
  for (size_t l = 0; l < m->numLevels(); l++) {
    if (m->mipResolution(l) != n->mipResolution(l)) { s = "MIP resolution differs"; return true; }
    s = fieldDiff<T>(m->mipLevel(l).get(), n->mipLevel(l).get());
    if (s.empty()) s = mappingNear(m->mipLevel(l)->mapping(), n->mipLevel(l)->mapping());
    if (s.size()) { s = "level " + std::to_string(l) + ": " + s; return true; }
  }
  return true;
}
template <class T> std::string fieldDiff(const Field<T>* a, const Field<T>* b) {
  if (!a || !b) return "null field";
  if (a->className() != b->className()) return "class " + a->className() + " vs " + b->className();
  std::string s = windowDiff(*a, *b);
  if (s.size()) return s;
  if (const SparseField<T>* x = dynamic_cast<const SparseField<T>*>(a)) {
    const SparseField<T>* y = dynamic_cast<const SparseField<T>*>(b);
    return y ? sparseDiff(*x, *y) : "not a SparseField";
  }
  if (MacCmp<T>::go(a, b, s)) return s;
  if (mipCmp<MIPField<DenseField<T> >, T>(a, b, s)) return s;
  if (mipCmp<MIPField<SparseField<T> >, T>(a, b, s)) return s;
  return voxelDiff<T>(*a, *b);
}
// windows, voxels, mapping, metadata
template <class T> std::string fullDiff(const Field<T>* a, const Field<T>* b) {
  std::string s = fieldDiff<T>(a, b);
  if (s.empty()) s = mappingDiff(const_cast<Field<T>*>(a)->mapping(), const_cast<Field<T>*>(b)->mapping());
  if (s.empty()) s = metaDiff(a->metadata(), b->metadata());
  return s;
}

// ---------------------------------------------------------------- files
template <class T, int V = TT<T>::vec> struct IO {
  static bool write(Field3DOutputFile& o, const std::string& p, const std::string& l, typename Field<T>::Ptr f) { return o.writeScalarLayer<T>(p, l, f); }
  static bool write(Field3DOutputFile& o, typename Field<T>::Ptr f) { return o.writeScalarLayer<T>(f); }
  static typename Field<T>::Vec read(const Field3DInputFile& i, const std::string& p, const std::string& l) { return i.readScalarLayers<T>(p, l); }
  static typename Field<T>::Vec read(const Field3DInputFile& i, const std::string& l = "") { return i.readScalarLayers<T>(l); }
};
template <class T> struct IO<T, 1> {
  typedef typename TT<T>::S S;
  static bool write(Field3DOutputFile& o, const std::string& p, const std::string& l, typename Field<T>::Ptr f) { return o.writeVectorLayer<S>(p, l, f); }
  static bool write(Field3DOutputFile& o, typename Field<T>::Ptr f) { return o.writeVectorLayer<S>(f); }
  static typename Field<T>::Vec read(const Field3DInputFile& i, const std::string& p, const std::string& l) { return i.readVectorLayers<S>(p, l); }
  static typename Field<T>::Vec read(const Field3DInputFile& i, const std::string& l = "") { return i.readVectorLayers<S>(l); }
};

}  // namespace gen

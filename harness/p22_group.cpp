// P22: field groups against the sum, bounds, intersections and ranges of their members.
#include "gen.h"
#include "par.h"
#include <Field3D/FieldGroup.h>
#include <Field3D/MIPUtil.h>
#include <Field3D/MinMaxUtil.h>
#include <functional>
using namespace gen;

const char* vf_id() { return "P22"; }
void vf_init() { initIO(); Msg::setVerbosity(0); }

namespace {
struct Remap : public ValueRemapOp {
  float a, b;
  Remap(float x, float y) : a(x), b(y) {}
  float remap(const float v) const { return a * v + b; }
  V3f remap(const V3f& v) const { return V3f(a * v.x + b, a * v.y - b, 2 * v.z); }
};
struct Mem {
  FieldRes::Ptr f;
  std::string kind;
  bool mip, frustum, hasOs, eligible;
  Box3i dw;
  FieldMapping::Ptr map;
  M44d os;
  double scale, tol, mx;
  Remap* remap;
  int nc;
  std::function<void(const V3d&, double, double*)> eval;  // at voxel space position, spot size in object space
  std::function<double(int, int, int, int)> vox;
  std::function<std::pair<FieldRes::Ptr, FieldRes::Ptr>(float)> comp;  // minimum and maximum companions
  V3d toVs(const V3d& ws) const {
    V3d o = ws, v;
    if (hasOs) os.inverse().multVecMatrix(ws, o);
    map->worldToVoxel(o, v);
    return v;
  }
  V3d fromLocal(const V3d& l) const {
    V3d o, w;
    map->localToWorld(l, o);
    w = o;
    if (hasOs) os.multVecMatrix(o, w);
    return w;
  }
  V3d toLocal(const V3d& ws) const {
    V3d o = ws, l;
    if (hasOs) os.inverse().multVecMatrix(ws, o);
    map->worldToLocal(o, l);
    return l;
  }
  // 1 inside the data window, 0 outside, -1 too close to say
  int covers(const V3d& ws) const {
    V3d v = toVs(ws);
    int in = 1;
    for (int a = 0; a < 3; a++) {
      if (!std::isfinite(v[a])) return -1;
      double lo = dw.min[a], hi = dw.max[a] + 1.0, e = 3e-4 * (1 + std::fabs(lo) + std::fabs(hi));
      if (std::fabs(v[a] - lo) < e || std::fabs(v[a] - hi) < e) return -1;
      if (v[a] < lo || v[a] > hi) in = 0;
    }
    return in;
  }
  void value(const V3d& ws, double spot, double* out) const {
    eval(toVs(ws), spot / scale, out);
    if (!remap) return;
    if (nc == 1) out[0] = remap->remap((float)out[0]);
    else {
      V3f v = remap->remap(V3f(out[0], out[1], out[2]));
      for (int c = 0; c < 3; c++) out[c] = v[c];
    }
  }
  double vscale() const { return remap ? mx * 3 + 10 : mx; }
};
typedef std::shared_ptr<Mem> MemP;

M44d nearUnit(Rng& r, double tmax) {
  M44d s, q, t;
  s.makeIdentity(); q.makeIdentity(); t.makeIdentity();
  if (r.chance(0.8)) s.scale(V3d(r.real(0.5, 2), r.real(0.5, 2), r.real(0.5, 2)));
  if (r.chance(0.6)) q.rotate(V3d(r.real(-3, 3), r.real(-3, 3), r.real(-3, 3)));
  if (r.chance(0.8)) t.translate(V3d(r.real(-tmax, tmax), r.real(-tmax, tmax), r.real(-tmax, tmax)));
  return s * q * t;
}
FieldMapping::Ptr rndMap(Rng& r, bool frustum) {
  if (!frustum) {
    MatrixFieldMapping::Ptr m(new MatrixFieldMapping);
    m->setLocalToWorld(nearUnit(r, 0.7));
    return m;
  }
  double n = r.real(0.5, 1.5), f = n + r.real(0.7, 3), w = r.real(0.4, 1) * n, h = r.real(0.4, 1) * n;
  Imath::Frustum<double> fr(n, f, -w * r.real(0.3, 1), w, h * r.real(0.3, 1), -h, false);
  M44d cs, c0, flip;
  c0.makeIdentity(); c0.translate(V3d(0, 0, n + 0.3));
  flip.makeIdentity();
  if (r.chance(0.4)) flip.scale(V3d(1, 1, -1));  // the other handedness
  cs = c0 * flip * nearUnit(r, 0.5);
  FrustumFieldMapping::Ptr m(new FrustumFieldMapping);
  m->setZDistribution(r.chance(0.5) ? FrustumFieldMapping::UniformDistribution : FrustumFieldMapping::PerspectiveDistribution);
  m->setTransforms(fr.projectionMatrix().inverse() * cs, cs);
  return m;
}
template <class T> void put(const T& v, double* o) { for (int c = 0; c < TT<T>::n; c++) o[c] = comp(v, c); }

template <class T, class F> MemP wrap(typename F::Ptr f) {
  MemP m(new Mem);
  m->f = f;
  m->mip = false;
  m->nc = TT<T>::n;
  m->dw = f->dataWindow();
  m->map = f->mapping();
  F* p = f.get();
  m->eval = [p](const V3d& v, double, double* o) { typename F::LinearInterp li; put<T>(li.sample(*p, v), o); };
  m->vox = [p](int i, int j, int k, int c) { return comp(p->value(i, j, k), c); };
  m->comp = [p](float x) { auto q = makeMinMax<MIPField<F> >(*p, x, 2); return std::make_pair(FieldRes::Ptr(q.first), FieldRes::Ptr(q.second)); };
  return m;
}
template <class T, class N> MemP mkMip(Rng& r, typename N::Ptr src) {
  typedef MIPField<N> M;
  typename M::Ptr f = r.chance(0.5) ? makeMIP<M, BoxFilter>(*src, r.range(1, 4), 2) : makeMIP<M, BoxFilter>(*src, 2, V3i(r.range(-5, 5), r.range(-5, 5), r.range(-5, 5)), 2);
  VF_CHECK(f, "group:mip", "no pyramid");
  MemP m(new Mem);
  m->f = f;
  m->mip = true;
  m->nc = TT<T>::n;
  m->dw = f->dataWindow();
  m->map = f->mapping();
  M* p = f.get();
  m->eval = [p](const V3d& v, double s, double* o) { typename M::LinearInterp li(*p); put<T>(li.sample(v, (float)s), o); };
  m->vox = [p](int i, int j, int k, int c) { return comp(p->mipValue(0, i, j, k), c); };
  m->comp = [p](float x) { auto q = makeMinMax<M>(*p->concreteMipLevel(0), x, 2); return std::make_pair(FieldRes::Ptr(q.first), FieldRes::Ptr(q.second)); };
  return m;
}
template <class T> MemP mkMember(Rng& r, std::string& d) {
  int kind = (int)r.u(4);
  Box3i e, w;
  bool zero = kind >= 2 || r.chance(0.5);
  if (zero) { V3i s(r.range(1, 9), r.range(1, 9), r.range(1, 9)); e = w = Box3i(V3i(0), s - V3i(1)); }
  else rndWindows(r, e, w, 8, 5);
  bool fr = r.chance(0.3);
  FieldMapping::Ptr map = rndMap(r, fr);
  MemP m;
  double mx = 0;
  typename DenseField<T>::Ptr df;
  typename SparseField<T>::Ptr sf;
  if (kind & 1) { sf = mkSparse<T>(r, e, w, r.range(0, 3), ValSmall); sf->setMapping(map); forBox(w, [&](int i, int j, int k) { for (int c = 0; c < TT<T>::n; c++) mx = std::max(mx, std::fabs(comp(sf->value(i, j, k), c))); }); }
  else { df = mkDense<T>(r, e, w, ValSmall); df->setMapping(map); forBox(w, [&](int i, int j, int k) { for (int c = 0; c < TT<T>::n; c++) mx = std::max(mx, std::fabs(comp(df->value(i, j, k), c))); }); }
  switch (kind) {
    case 0: m = wrap<T, DenseField<T> >(df); break;
    case 1: m = wrap<T, SparseField<T> >(sf); break;
    case 2: m = mkMip<T, DenseField<T> >(r, df); break;
    default: m = mkMip<T, SparseField<T> >(r, sf); break;
  }
  static const char* kn[] = {"dense", "sparse", "mipdense", "mipsparse"};
  m->kind = std::string(kn[kind]) + "/" + TT<T>::nm();
  m->frustum = fr;
  m->eligible = e == w && e.min == V3i(0);
  m->hasOs = false;
  m->scale = 1;
  m->remap = nullptr;
  m->mx = mx;
  m->tol = sizeof(typename TT<T>::S) == 2 ? 4e-3 : 1e-4;
  d += m->kind + (fr ? "/f" : "/m") + str(e) + str(w) + " ";
  vf::seen("member_kinds", Hash().add(m->kind).h);
  return m;
}

template <int V> struct Traits;
template <> struct Traits<1> {
  typedef ScalarFieldGroup G;
  static MemP member(Rng& r, std::string& d) { MemP m; withScalar((int)r.u(3), [&](auto z) { m = mkMember<decltype(z)>(r, d); }); return m; }
  static void write(Field3DOutputFile& o, const std::string& p, const std::string& l, FieldRes::Ptr f) {
    bool ok = false;
    if (auto h = field_dynamic_cast<Field<half> >(f)) ok = o.writeScalarLayer<half>(p, l, h);
    else if (auto h2 = field_dynamic_cast<Field<float> >(f)) ok = o.writeScalarLayer<float>(p, l, h2);
    else if (auto h3 = field_dynamic_cast<Field<double> >(f)) ok = o.writeScalarLayer<double>(p, l, h3);
    VF_CHECK(ok, "group:write", "layer not written");
  }
};
template <> struct Traits<3> {
  typedef VectorFieldGroup G;
  static MemP member(Rng& r, std::string& d) { MemP m; withVec((int)r.u(3), [&](auto z) { m = mkMember<decltype(z)>(r, d); }); return m; }
  static void write(Field3DOutputFile& o, const std::string& p, const std::string& l, FieldRes::Ptr f) {
    bool ok = false;
    if (auto h = field_dynamic_cast<Field<V3h> >(f)) ok = o.writeVectorLayer<half>(p, l, h);
    else if (auto h2 = field_dynamic_cast<Field<V3f> >(f)) ok = o.writeVectorLayer<float>(p, l, h2);
    else if (auto h3 = field_dynamic_cast<Field<V3d> >(f)) ok = o.writeVectorLayer<double>(p, l, h3);
    VF_CHECK(ok, "group:write", "layer not written");
  }
};

V3d rndPoint(Rng& r, const std::vector<MemP>& ms) {
  if (ms.empty()) return V3d(r.real(-2, 2), r.real(-2, 2), r.real(-2, 2));
  const Mem& m = *r.pick(ms);
  double e = r.chance(0.7) ? 0.0 : 0.6;
  return m.fromLocal(V3d(r.real(-e, 1 + e), r.real(-e, 1 + e), r.real(-e, 1 + e)));
}
// which: 1 ordinary members, 2 multi-resolution members, 3 all. false when membership is unclear
bool expectAt(const std::vector<MemP>& ms, const V3d& p, double spot, int which, int nc, double* out, double& tol, int& hits) {
  for (int c = 0; c < nc; c++) out[c] = 0;
  tol = 1e-6;
  hits = 0;
  for (auto& m : ms) {
    int q = m->covers(p);
    if (q < 0) return false;
    if (!q || !(m->mip ? which & 2 : which & 1)) continue;
    double v[3];
    m->value(p, spot, v);
    for (int c = 0; c < nc; c++) out[c] += v[c];
    tol += m->tol * (m->vscale() + 0.1) * (m->frustum ? 4 : 1);
    hits++;
  }
  return true;
}

struct Iv { double a, b, step; };
// where the ray is inside the member, found by looking along it
bool scan(const Mem& m, const Ray3d& ray, Iv& iv) {
  Box3d b;
  for (int i = 0; i < 8; i++) b.extendBy(m.fromLocal(V3d(i & 1, (i >> 1) & 1, i >> 2)));
  V3d c = b.center();
  double rad = (b.max - b.min).length() * 0.51, len = ray.dir.length(), mid = (c - ray.pos).dot(ray.dir) / (len * len);
  double t0 = std::max(0.0, mid - rad / len), t1 = mid + rad / len;
  if (t1 <= t0) return false;
  auto in = [&](double t) {
    V3d l = m.toLocal(ray.pos + ray.dir * t);
    for (int a = 0; a < 3; a++) if (!(l[a] >= 0 && l[a] <= 1)) return false;
    return true;
  };
  const int N = 300;
  int f = -1, g = -1;
  for (int i = 0; i <= N; i++) if (in(t0 + (t1 - t0) * i / N)) { if (f < 0) f = i; g = i; }
  if (f < 0) return false;
  auto bis = [&](double x, double y) { for (int q = 0; q < 60; q++) { double z = (x + y) / 2; if (in(z)) y = z; else x = z; } return y; };
  double s = (t1 - t0) / N;
  iv.a = f == 0 ? t0 : bis(t0 + s * (f - 1), t0 + s * f);
  iv.b = g == N ? t1 : bis(t0 + s * (g + 1), t0 + s * g);
  V3d v = m.map->wsVoxelSize(0, 0, 0);
  iv.step = std::min(v.x, std::min(v.y, v.z)) * m.scale;
  return true;
}
double boxDist(const Mem& m, const Ray3d& ray, double t) {
  V3d l = m.toLocal(ray.pos + ray.dir * t);
  double d = 0;
  for (int a = 0; a < 3; a++) d = std::max(d, std::max(-l[a], l[a] - 1));
  return d;
}

template <int V> void check(Ctx& c, typename Traits<V>::G& g, const std::vector<MemP>& ms, bool prefilt, bool loaded) {
  Rng& r = c.rng;
  size_t nm = 0;
  long long mem = 0;
  for (auto& m : ms) { nm += m->mip; mem += loaded ? 0 : m->f->memSize(); }
  if (loaded) for (auto& f : g.fields()) mem += f->memSize();  // their levels come when they are used
  VF_CHECK(g.size() == ms.size(), "group:size", g.size() << " fields, expected " << ms.size());
  VF_CHECK(g.sizeMIP() == nm, "group:size", g.sizeMIP() << " multi-resolution fields, expected " << nm);
  VF_CHECK(g.memSize() == mem, "group:memSize", g.memSize() << " bytes, expected " << mem);

  // ---- bounds
  Box3d wb;
  for (auto& m : ms) for (int i = 0; i < 8; i++) wb.extendBy(m->fromLocal(V3d(i & 1, (i >> 1) & 1, i >> 2)));
  Box3d gb = g.wsBounds();
  if (ms.empty()) VF_CHECK(gb.isEmpty(), "group:wsBounds", "bounds of an empty group");
  else VF_CHECK((gb.min - wb.min).length() < 1e-6 * (1 + wb.min.length()) && (gb.max - wb.max).length() < 1e-6 * (1 + wb.max.length()), "group:wsBounds", "bounds " << str(gb.min) << " to " << str(gb.max) << " expected " << str(wb.min) << " to " << str(wb.max));

  // ---- samples
  std::vector<float> P, S;
  for (int q = 0; q < 24; q++) {
    V3d p = rndPoint(r, ms);
    float spot = r.chance(0.2) ? 0.0f : (float)std::pow(2.0, r.real(-6, 2));
    V3f pf((float)p.x, (float)p.y, (float)p.z);
    P.push_back(pf.x); P.push_back(pf.y); P.push_back(pf.z);
    S.push_back(spot);
    double e[3], tol;
    int hits;
    bool avg = r.chance(0.4);
    float out[3] = {0, 0, 0};
    if (expectAt(ms, p, spot, 3, V, e, tol, hits)) {
      g.sample(p, spot, (float)r.real(-1, 1), out, avg ? Traits<V>::G::Avg : Traits<V>::G::Add);
      for (int k = 0; k < V; k++) {
        double x = avg && hits > 1 ? e[k] / hits : e[k];
        VF_CHECK(std::fabs(out[k] - x) <= tol, "group:sample", (avg ? "average" : "sum") << " at " << str(p) << " spot " << spot << " is " << out[k] << " expected " << x << " (component " << k << ", " << hits << " of " << ms.size() << " fields)");
      }
      bool any = false;
      for (auto& m : ms) any = any || m->covers(p) == 1;
      VF_CHECK(g.intersects(p) == any, "group:intersects", "point " << str(p) << " is " << (any ? "inside" : "outside") << " the fields");
      vf::count("points");
      vf::count("member_hits", hits);
      if (hits > 1) vf::count("overlapping_points");
    }
    if (expectAt(ms, p, spot, 1, V, e, tol, hits)) {
      for (int k = 0; k < 3; k++) out[k] = 0;
      g.sample(p, out, r.chance(0.5));
      for (int k = 0; k < V; k++) VF_CHECK(std::fabs(out[k] - e[k]) <= tol, "group:sample", "sum of ordinary fields at " << str(p) << " is " << out[k] << " expected " << e[k]);
    }
    if (expectAt(ms, p, spot, 2, V, e, tol, hits)) {
      for (int k = 0; k < 3; k++) out[k] = 0;
      g.sampleMIP(p, spot, out, r.chance(0.5));
      for (int k = 0; k < V; k++) VF_CHECK(std::fabs(out[k] - e[k]) <= tol, "group:sampleMIP", "sum of multi-resolution fields at " << str(p) << " spot " << spot << " is " << out[k] << " expected " << e[k]);
    }
  }
  size_t n = r.range(0, (int)S.size());
  for (int which = 1; which <= 2; which++) {
    std::vector<float> R(S.size() * V + 1, 0.0f);
    if (which == 1) g.sampleMultiple(n, P.data(), R.data());
    else g.sampleMIPMultiple(n, P.data(), S.data(), R.data());
    for (size_t q = 0; q < S.size(); q++) {
      V3d p(P[3 * q], P[3 * q + 1], P[3 * q + 2]);
      double e[3] = {0, 0, 0}, tol = 0;
      int hits = 0;
      if (q < n && !expectAt(ms, p, S[q], which, V, e, tol, hits)) continue;
      for (int k = 0; k < V; k++)
        VF_CHECK(std::fabs(R[q * V + k] - e[k]) <= tol, which == 1 ? "group:sampleMultiple" : "group:sampleMIPMultiple", "point " << q << " of " << n << " at " << str(p) << " is " << R[q * V + k] << " expected " << e[k] << " (component " << k << ", " << hits << " fields)");
    }
    vf::count("batches");
  }

  // ---- rays
  for (int q = 0; q < 6; q++) {
    V3d a = rndPoint(r, ms), b = rndPoint(r, ms);
    Ray3d ray;
    ray.pos = r.chance(0.3) ? a : a + V3d(r.real(-4, 4), r.real(-4, 4), r.real(-4, 4));
    V3d dir = b - ray.pos;
    if (r.chance(0.2)) { dir = V3d(0); dir[r.u(3)] = r.chance(0.5) ? 1 : -1; }
    if (!(dir.length() > 1e-2)) continue;
    ray.dir = r.chance(0.5) ? dir / dir.length() : dir;
    IntervalVec got;
    bool hit = g.getIntersections(ray, got);
    VF_CHECK(hit == !got.empty(), "group:rays", "returned " << hit << " with " << got.size() << " intervals");
    double sc = ray.dir.length();
    std::vector<char> used(got.size(), 0);
    for (auto& m : ms) {
      Iv iv;
      if (!scan(*m, ray, iv) || iv.b - iv.a < 2e-2 / sc) continue;
      bool found = false;
      double e = 1e-5 / sc * (1 + std::fabs(iv.b) * sc);
      for (size_t i = 0; i < got.size() && !found; i++) {
        if (used[i]) continue;
        if (std::fabs(std::max(0.0, got[i].t0) - iv.a) < e && std::fabs(got[i].t1 - iv.b) < e && std::fabs(got[i].stepLength - iv.step) < 1e-6 * (1 + iv.step)) { used[i] = 1; found = true; }
      }
      if (!found) {
        std::ostringstream o;
        for (auto& x : got) o << " [" << x.t0 << "," << x.t1 << " step " << x.stepLength << "]";
        VF_CHECK(false, "group:rays", "the ray from " << str(ray.pos) << " along " << str(ray.dir) << " is inside a field (" << m->kind << (m->frustum ? ", frustum" : "") << ") for [" << iv.a << "," << iv.b << "] step " << iv.step << ", reported:" << o.str());
      }
      vf::count("ray_intervals");
    }
    for (size_t i = 0; i < got.size(); i++) {
      if (used[i]) continue;
      double best = 1e9, mid = (std::max(0.0, got[i].t0) + got[i].t1) / 2;
      for (auto& m : ms) best = std::min(best, boxDist(*m, ray, mid));
      VF_CHECK(best < 1e-4 && got[i].t1 - std::max(0.0, got[i].t0) < 0.1 / sc, "group:rays", "reported interval [" << got[i].t0 << "," << got[i].t1 << "] is not inside any field");
    }
  }

  // ---- ranges
  VF_CHECK(g.hasPrefiltMinMax() == prefilt, "group:prefilt", "pre-filtered representations " << (prefilt ? "missing" : "reported"));
  bool anyFrustum = false;
  for (auto& m : ms) anyFrustum |= m->frustum;
  for (int q = 0; q < 6; q++) {
    Box3d b;
    bool inf = r.chance(0.1);
    if (inf) b.makeInfinite();
    else {
      V3d p = rndPoint(r, ms);
      if (r.chance(0.15)) p += V3d(r.real(-9, 9), r.real(-9, 9), r.real(-9, 9));
      b.extendBy(p);
      double s = r.chance(0.5) ? r.real(0, 0.2) : r.real(0, 1.5);
      b.extendBy(p + V3d(r.real(0, s), r.real(0, s), r.real(0, s)));
    }
    float lo[3], hi[3], lo0[3], hi0[3];
    bool pre = r.chance(0.3);
    for (int k = 0; k < 3; k++) { lo0[k] = pre ? 0.0f : std::numeric_limits<float>::max(); hi0[k] = pre ? 0.0f : -std::numeric_limits<float>::max(); lo[k] = lo0[k]; hi[k] = hi0[k]; }
    bool skip = false;
    double must[3][2], may[3][2];
    for (int k = 0; k < 3; k++) { must[k][0] = may[k][0] = lo0[k]; must[k][1] = may[k][1] = hi0[k]; }
    bool touched = false;
    for (auto& m : ms) {
      Box3i rng = m->dw;
      if (!inf) {
        // the region in voxel space, with corners in front of the camera only
        Box3d ob, vb;
        for (int i = 0; i < 8; i++) {
          V3d p(i & 1 ? b.max.x : b.min.x, i & 2 ? b.max.y : b.min.y, i & 4 ? b.max.z : b.min.z), o = p;
          if (m->hasOs) m->os.inverse().multVecMatrix(p, o);
          ob.extendBy(o);
        }
        for (int i = 0; i < 8; i++) {
          V3d o(i & 1 ? ob.max.x : ob.min.x, i & 2 ? ob.max.y : ob.min.y, i & 4 ? ob.max.z : ob.min.z), v;
          if (FrustumFieldMapping::Ptr f = field_dynamic_cast<FrustumFieldMapping>(m->map)) {
            M44d cs;
            cs = f->cameraToWorld().inverse();
            V3d p, n, x;
            f->localToWorld(V3d(0.5, 0.5, 0), x);
            cs.multVecMatrix(x, n);
            cs.multVecMatrix(o, p);
            if (p.z / n.z < 0.3) skip = true;
          }
          m->map->worldToVoxel(o, v);
          for (int a = 0; a < 3; a++) if (!std::isfinite(v[a]) || std::fabs(v[a]) > 1e6) skip = true;
          vb.extendBy(v);
        }
        if (skip) break;
        for (int a = 0; a < 3; a++) {
          rng.min[a] = std::max(m->dw.min[a], (int)std::floor(vb.min[a] - 1e-3) - 1);
          rng.max[a] = std::min(m->dw.max[a], (int)std::ceil(vb.max[a] + 1e-3) + 1);
        }
        // a pre-filtered range may widen it to what the coarse voxels cover
        if (prefilt) rng = m->dw;
      }
      if (!rng.isEmpty()) forBox(rng, [&](int i, int j, int k) {
        touched = true;
        bool in = inf;
        if (!in) {
          V3d o, w;
          m->map->voxelToWorld(V3d(i + 0.5, j + 0.5, k + 0.5), o);
          w = o;
          if (m->hasOs) m->os.multVecMatrix(o, w);
          in = true;
          for (int a = 0; a < 3; a++) in = in && w[a] > b.min[a] + 1e-6 && w[a] < b.max[a] - 1e-6;
        }
        for (int x = 0; x < V; x++) {
          double v = m->vox(i, j, k, x);
          may[x][0] = std::min(may[x][0], v); may[x][1] = std::max(may[x][1], v);
          if (in) { must[x][0] = std::min(must[x][0], v); must[x][1] = std::max(must[x][1], v); }
        }
      });
    }
    if (skip) continue;
    if (prefilt && anyFrustum && !inf) continue;  // see the finding of P23: frustum companions are not aligned with their field
    g.getMinMax(b, lo, hi);
    for (int k = 0; k < V; k++) {
      VF_CHECK(lo[k] <= must[k][0] && hi[k] >= must[k][1], "group:range", (prefilt ? "pre-filtered " : "") << "range " << lo[k] << " to " << hi[k] << " of " << (inf ? "everything" : str(b.min) + " to " + str(b.max)) << " component " << k << " does not contain " << must[k][0] << " to " << must[k][1]);
      VF_CHECK(lo[k] >= may[k][0] && hi[k] <= may[k][1], "group:range", (prefilt ? "pre-filtered " : "") << "range " << lo[k] << " to " << hi[k] << " of " << (inf ? "everything" : str(b.min) + " to " + str(b.max)) << " component " << k << " exceeds " << may[k][0] << " to " << may[k][1]);
    }
    vf::count(prefilt ? "prefiltered_ranges" : touched ? "ranges" : "empty_ranges");
  }

  // ---- the same points from several threads at once
  if (!ms.empty() && r.chance(0.3)) {
    std::vector<float> ref(S.size() * V, 0.0f);
    for (size_t q = 0; q < S.size(); q++) g.sample(V3d(P[3 * q], P[3 * q + 1], P[3 * q + 2]), S[q], 0, &ref[q * V]);
    par::run(c, r.range(2, 4), 0.02, [&](int, Rng& rr, par::Err& e) {
      for (int it = 0; it < 60; it++) {
        size_t q = rr.u(S.size());
        float out[3] = {0, 0, 0};
        g.sample(V3d(P[3 * q], P[3 * q + 1], P[3 * q + 2]), S[q], 0, out);
        for (int k = 0; k < V; k++) PAR_CHECK(e, vf::bitEq(out[k], ref[q * V + k]), "group:threads", "point " << q << " is " << out[k] << ", alone " << ref[q * V + k]);
      }
    });
    vf::count("threaded_groups");
  }
}

template <int V> void go(Ctx& c) {
  Rng& r = c.rng;
  typedef typename Traits<V>::G G;
  std::string d = V == 1 ? "scalar " : "vector ";
  std::vector<MemP> ms;
  std::vector<std::unique_ptr<Remap> > keepRemap;
  int nb = r.range(0, 3);
  FieldRes::Vec all;
  boost::shared_ptr<G> g;
  bool fromFile = r.chance(0.25), prefilt = false;
  if (fromFile) {
    // written to a file with companions, loaded by attribute
    std::string fn = c.path("g.f3d"), attr = "density";
    bool og = r.chance(0.5), comp = r.chance(0.5);
    prefilt = comp;
    int n = r.range(1, 4);
    {
      Field3DOutputFile::useOgawa(og);
      Field3DOutputFile out;
      VF_CHECK(out.create(fn), "group:load", "create");
      for (int i = 0; i < n; i++) {
        MemP m = Traits<V>::member(r, d);
        ms.push_back(m);
        std::string part = r.chance(0.5) ? "part" : "p" + std::to_string(i);
        // every partition has one mapping
        part = "p" + std::to_string(i);
        Traits<V>::write(out, part, attr, m->f);
        if (comp) {
          auto q = m->comp(r.chance(0.5) ? 1.0f : (float)r.real(0.2, 1));
          VF_CHECK((bool)q.first == m->eligible && (bool)q.second == m->eligible, "group:companions", "companions " << (m->eligible ? "missing" : "made"));
          if (q.first) { Traits<V>::write(out, part, attr + "_min", q.first); Traits<V>::write(out, part, attr + "_max", q.second); }
          else prefilt = false;
        }
        if (r.chance(0.3)) { std::string dd; MemP o = Traits<V>::member(r, dd); o->map = m->map; o->f->setMapping(m->map); Traits<V>::write(out, part, "other", o->f); }
      }
      VF_CHECK(out.close(), "group:load", "close");
    }
    g.reset(new G);
    bool os = r.chance(0.4);
    M44d m = nearUnit(r, 0.5);
    if (os) g->setOsToWs(m);
    int got = g->load(fn, attr);
    VF_CHECK(got == n, "group:load", "loaded " << got << " fields, expected " << n);
    VF_CHECK(g->load(c.path("absent.f3d"), attr) == G::k_missingFile, "group:load", "missing file not reported");
    VF_CHECK(g->load(fn, "nosuch") == 0, "group:load", "fields loaded for an absent attribute");
    VF_CHECK((int)g->fields().size() == n, "group:load", g->fields().size() << " fields kept");
    for (auto& x : ms) {
      if (os) { x->hasOs = true; x->os = m; V3d s; Imath::extractScaling(m, s, false); x->scale = std::max(s.x, std::max(s.y, s.z)); }
      if (x->frustum) x->tol *= 2;
    }
    // partitions are told apart by name: compare the fields as a whole
    vf::count("loaded_groups");
    d += "loaded ";
  } else {
    if (r.chance(0.3)) {
      for (int n = r.range(0, 3); n > 0; n--) { ms.push_back(Traits<V>::member(r, d)); all.push_back(ms.back()->f); }
      g.reset(new G(all));
      d += "| ";
    } else g.reset(new G);
    if (r.chance(0.2)) g->setWsBoundsOptimization(true);
    for (int b = 0; b < nb; b++) {
      bool os = false;
      M44d m;
      m.makeIdentity();
      if (r.chance(0.5)) { m = nearUnit(r, 0.6); os = true; d += "os "; }
      g->setOsToWs(m);
      Remap* rm = nullptr;
      if (r.chance(0.35)) { rm = new Remap((float)r.range(-4, 4) * 0.5f, (float)r.range(-4, 4)); d += "remap "; }
      ValueRemapOp::Ptr rp(rm);
      g->setValueRemapOp(rp);
      if (r.chance(0.4)) { bool o = r.chance(0.7); g->setWsBoundsOptimization(o); d += o ? "opt " : "noopt "; }
      FieldRes::Vec add;
      int n = r.range(0, 3);
      for (int i = 0; i < n; i++) {
        MemP x = Traits<V>::member(r, d);
        x->hasOs = os;
        x->os = m;
        if (os) { V3d s; Imath::extractScaling(m, s, false); x->scale = std::max(s.x, std::max(s.y, s.z)); }
        if (rm) { keepRemap.emplace_back(new Remap(rm->a, rm->b)); x->remap = keepRemap.back().get(); }
        ms.push_back(x);
        add.push_back(x->f);
        all.push_back(x->f);
        if (r.chance(0.3)) { g->setup(add); add.clear(); }
        else if (r.chance(0.3)) { for (auto& f : add) g->setup(f); add.clear(); }
      }
      if (add.size() || r.chance(0.2)) g->setup(add);
      if (r.chance(0.2)) {
        // a field the group has no use for
        DenseField<int>::Ptr x(new DenseField<int>);
        x->setSize(V3i(2));
        g->setup(FieldRes::Ptr(x));
        all.push_back(x);
      }
      d += "| ";
    }
    VF_CHECK(g->fields().size() == all.size(), "group:fields", g->fields().size() << " fields, expected " << all.size());
    for (size_t i = 0; i < all.size(); i++) VF_CHECK(g->fields()[i].get() == all[i].get(), "group:fields", "field " << i << " is not the one added");
  }
  c.desc = d;
  if (prefilt) vf::count("loaded_companions");
  check<V>(c, *g, ms, prefilt, fromFile);
  if (r.chance(0.6)) {
    float mult = r.chance(0.5) ? 1.0f : (float)r.real(0.2, 1);
    // companions take the transform and remapping in force when they are made
    bool same = true, elig = !ms.empty();
    for (auto& m : ms) {
      same = same && m->hasOs == ms[0]->hasOs && !m->remap && (!m->hasOs || m->os == ms[0]->os);
      elig = elig && m->eligible;
    }
    if (same && ms.size()) {
      M44d m;
      m.makeIdentity();
      g->setOsToWs(ms[0]->hasOs ? ms[0]->os : m);
      g->makeMinMax(mult);
      if (r.chance(0.3)) g->makeMinMax(mult);
      check<V>(c, *g, ms, elig, fromFile);
      vf::count("made_companions");
    }
  }
  if (ms.size()) vf::nontrivial(Hash().add(d).add(r.next()).h);
}
}  // namespace

void vf_case(Ctx& c) {
  if (c.rng.chance(0.5)) go<1>(c);
  else go<3>(c);
}

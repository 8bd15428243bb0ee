// P14: coordinate mappings are consistent and invertible.
// An independent reference (long double, own matrix code) recomputes every conversion from the
// list of values that were set; the library is asked after every step of a random history.
#include "gen.h"
#include <Field3D/CoordSys.h>
#include <Field3D/Curve.h>
using namespace gen;

const char* vf_id() { return "P14"; }
void vf_init() { initIO(); Msg::setVerbosity(0); }

namespace {
typedef long double LD;
struct P3 { LD x, y, z; };
struct Mx {
  LD a[4][4];
  Mx() { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) a[i][j] = i == j; }
  explicit Mx(const M44d& m) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) a[i][j] = m[i][j]; }
};
Mx mul(const Mx& p, const Mx& q) {  // row vectors: v * p * q
  Mx r;
  for (int i = 0; i < 4; i++)
    for (int j = 0; j < 4; j++) {
      r.a[i][j] = 0;
      for (int k = 0; k < 4; k++) r.a[i][j] += p.a[i][k] * q.a[k][j];
    }
  return r;
}
LD norm(const Mx& m) {
  LD s = 0;
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) s += m.a[i][j] * m.a[i][j];
  return sqrtl(s);
}
bool inv(const Mx& m, Mx& o) {
  LD w[4][8];
  for (int i = 0; i < 4; i++) for (int j = 0; j < 8; j++) w[i][j] = j < 4 ? m.a[i][j] : (i == j - 4);
  for (int c = 0; c < 4; c++) {
    int p = c;
    for (int i = c; i < 4; i++) if (fabsl(w[i][c]) > fabsl(w[p][c])) p = i;
    if (fabsl(w[p][c]) < 1e-300L) return false;
    for (int j = 0; j < 8; j++) std::swap(w[p][j], w[c][j]);
    LD d = w[c][c];
    for (int j = 0; j < 8; j++) w[c][j] /= d;
    for (int i = 0; i < 4; i++)
      if (i != c) { LD f = w[i][c]; for (int j = 0; j < 8; j++) w[i][j] -= f * w[c][j]; }
  }
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) o.a[i][j] = w[i][j + 4];
  return true;
}
LD cond(const Mx& m) { Mx i; return inv(m, i) ? norm(m) * norm(i) : (LD)1e30; }
bool pt(const Mx& m, const P3& p, P3& o) {
  LD v[4] = {p.x, p.y, p.z, 1}, r[4];
  for (int j = 0; j < 4; j++) { r[j] = 0; for (int i = 0; i < 4; i++) r[j] += v[i] * m.a[i][j]; }
  o = P3{r[0] / r[3], r[1] / r[3], r[2] / r[3]};
  return fabsl(r[3]) > 1e-3L;
}
P3 dir(const Mx& m, const P3& p) {
  LD v[3] = {p.x, p.y, p.z}, r[3];
  for (int j = 0; j < 3; j++) { r[j] = 0; for (int i = 0; i < 3; i++) r[j] += v[i] * m.a[i][j]; }
  return P3{r[0], r[1], r[2]};
}
P3 p3(const V3d& v) { return P3{v.x, v.y, v.z}; }
LD len(const P3& p) { return sqrtl(p.x * p.x + p.y * p.y + p.z * p.z); }
LD dist(const P3& a, const P3& b) { return len(P3{a.x - b.x, a.y - b.y, a.z - b.z}); }
std::string st(const P3& p) { std::ostringstream o; o.precision(12); o << "(" << (double)p.x << "," << (double)p.y << "," << (double)p.z << ")"; return o.str(); }
// the lerp weight is computed by the library in float: part of its definition
bool weight(const std::vector<float>& ts, float t, size_t& lo, LD& w) {
  if (t < ts.front()) { lo = 0; w = 0; return true; }
  for (size_t i = 0; i + 1 < ts.size(); i++)
    if (t >= ts[i] && t < ts[i + 1]) { lo = i; w = ((LD)t - ts[i]) / ((LD)ts[i + 1] - ts[i]); return w == 0; }
  lo = ts.size() - 1; w = 0;
  return true;
}
typedef std::map<float, Mx> Samples;
Mx at(const Samples& s, float t, bool& exact) {
  exact = true;
  if (s.empty()) return Mx();
  std::vector<float> ts; std::vector<const Mx*> ms;
  for (auto& kv : s) { ts.push_back(kv.first); ms.push_back(&kv.second); }
  size_t lo; LD w;
  exact = weight(ts, t, lo, w);
  if (exact) return *ms[lo];
  Mx r;
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r.a[i][j] = ms[lo]->a[i][j] * (1 - w) + ms[lo + 1]->a[i][j] * w;
  return r;
}
LD at(const std::map<float, LD>& s, float t) {
  std::vector<float> ts; std::vector<LD> v;
  for (auto& kv : s) { ts.push_back(kv.first); v.push_back(kv.second); }
  size_t lo; LD w;
  if (weight(ts, t, lo, w)) return v[lo];
  return v[lo] * (1 - w) + v[lo + 1] * w;
}

// reference state of one mapping
struct Ref {
  int kind;  // 0 null 1 matrix 2 frustum
  Box3i ext;
  Samples ls, cs;                    // local(perspective)->world, camera->world
  std::map<float, LD> nearD, farD;   // frustum: as constructed
  bool uniform = false;
  Mx lsToVs() const {
    Mx m;
    for (int c = 0; c < 3; c++) { m.a[c][c] = (LD)ext.max[c] - ext.min[c] + 1; m.a[3][c] = ext.min[c]; }
    return m;
  }
  // tolerances grow with the conditioning of the matrices in play and when float weights are involved
  bool l2w(const P3& l, float t, P3& w, LD& tol) const {
    bool ex = true, ex2 = true;
    if (kind == 0) { w = l; tol = 1e-12L * (1 + len(l)); return true; }
    Mx m = at(ls, t, ex);
    LD c = cond(m);
    if (c > 1e7L) return false;
    if (kind == 1 || !uniform) {
      if (!pt(m, l, w)) return false;
      tol = (ex ? 1e-12L : 2e-6L) * (1 + len(w) + norm(m)) * (kind == 1 ? 1 : c);
      return true;
    }
    Mx cm = at(cs, t, ex2), mi;
    LD depth = at(nearD, t) * (1 - l.z) + at(farD, t) * l.z;
    P3 ax, lp;
    if (!pt(cm, P3{0, 0, -depth}, ax) || !inv(m, mi) || !pt(mi, ax, lp)) return false;
    if (!pt(m, P3{l.x, l.y, lp.z}, w)) return false;
    tol = (ex ? 1e-11L : 4e-6L) * (1 + len(w) + norm(m)) * c;
    return tol < 0.3L;
  }
  bool w2l(const P3& w, float t, P3& l, LD& tol) const {
    bool ex = true, ex2 = true;
    if (kind == 0) { l = w; tol = 1e-12L * (1 + len(w)); return true; }
    Mx m = at(ls, t, ex), mi;
    LD c = cond(m);
    if (c > 1e7L || !inv(m, mi)) return false;
    if (!pt(mi, w, l)) return false;
    tol = (ex ? 1e-12L : 2e-6L) * (1 + len(l)) * c;
    if (kind == 2 && uniform) {
      Mx cm = at(cs, t, ex2), ci;
      P3 cp;
      LD n = at(nearD, t), f = at(farD, t);
      if (!inv(cm, ci) || fabsl(f - n) < 1e-2L || !pt(ci, w, cp) || cond(cm) > 1e6L) return false;
      l.z = (-cp.z - n) / (f - n);
      tol += (ex2 ? 1e-11L : 4e-6L) * cond(cm) * (1 + len(cp)) / fabsl(f - n);
    }
    tol *= 10;
    return tol < 0.3L;
  }
  P3 v2l(const P3& v) const {
    return P3{(v.x - ext.min.x) / ((LD)ext.max.x - ext.min.x + 1), (v.y - ext.min.y) / ((LD)ext.max.y - ext.min.y + 1),
              (v.z - ext.min.z) / ((LD)ext.max.z - ext.min.z + 1)};
  }
  P3 l2v(const P3& l) const { P3 o; pt(lsToVs(), l, o); return o; }
  LD maxRes() const {
    LD r = 1;
    for (int c = 0; c < 3; c++) r = std::max(r, (LD)ext.max[c] - ext.min[c] + 1 + fabsl((LD)ext.min[c]));
    return r;
  }
};

V3d rndIn(Rng& r, double slack) { return V3d(r.real(-slack, 1 + slack), r.real(-slack, 1 + slack), r.real(-slack, 1 + slack)); }

#define NEAR(got, want, tol, key, what)                                                                    \
  do {                                                                                                     \
    V3d g_ = (got); P3 w_ = (want); LD t_ = (tol);                                                         \
    VF_CHECK(dist(p3(g_), w_) <= t_, key, what << ": got " << st(p3(g_)) << " expected " << st(w_)         \
             << " (diff " << (double)dist(p3(g_), w_) << ", allowed " << (double)t_ << ")");               \
  } while (0)

void checkConversions(Ctx& c, const FieldMapping& m, const Ref& ref) {
  Rng& r = c.rng;
  VF_CHECK(m.origin() == V3d(ref.ext.min), "origin", "origin");
  VF_CHECK(m.resolution() == V3d(ref.ext.max - ref.ext.min + V3i(1)), "resolution", "resolution");
  for (int q = 0; q < 4; q++) {
    V3d l = rndIn(r, ref.kind == 2 ? 0.0 : 1.5), o;
    if (r.chance(0.2)) l = V3d(r.range(0, 1), r.range(0, 1), r.range(0, 1));
    LD mr = ref.maxRes();
    P3 v = ref.l2v(p3(l));
    m.localToVoxel(l, o);
    NEAR(o, v, 1e-12L * mr * 4, "localToVoxel", "localToVoxel");
    V3d back;
    m.voxelToLocal(o, back);
    NEAR(back, p3(l), 1e-12L * mr * 4, "voxelToLocal", "voxelToLocal(localToVoxel)");
    V3d vv((double)v.x, (double)v.y, (double)v.z);
    // times: at, between, before and after the samples; and the time-less form
    float t = 0;
    bool timeless = r.chance(0.3);
    if (!timeless) {
      if (!ref.ls.empty() && r.chance(0.4)) { auto it = ref.ls.begin(); std::advance(it, r.u(ref.ls.size())); t = it->first; }
      else t = (float)r.real(-3, 3);
    }
    P3 w; LD tol;
    if (!ref.l2w(p3(l), t, w, tol)) { vf::count("ill_conditioned"); continue; }
    V3d g;
    if (timeless) m.localToWorld(l, g); else m.localToWorld(l, g, t);
    NEAR(g, w, tol, "localToWorld", "localToWorld t=" << t << (timeless ? " (no time)" : ""));
    if (timeless) m.voxelToWorld(vv, g); else m.voxelToWorld(vv, g, t);
    NEAR(g, w, tol * (1 + 1e-3L * mr), "voxelToWorld", "voxelToWorld t=" << t);
    V3d ws((double)w.x, (double)w.y, (double)w.z);
    P3 lb; LD tol2;
    vf::count("conversions", 4);
    if (!ref.w2l(w, t, lb, tol2)) { vf::count("ill_conditioned"); continue; }
    if (timeless) m.worldToLocal(ws, g); else m.worldToLocal(ws, g, t);
    NEAR(g, lb, tol2, "worldToLocal", "worldToLocal t=" << t);
    V3d gl = g;
    if (timeless) m.worldToVoxel(ws, g); else m.worldToVoxel(ws, g, t);
    NEAR(g, ref.l2v(lb), tol2 * mr, "worldToVoxel", "worldToVoxel t=" << t);
    // there and back: always for affine and perspective distributions; with uniform depth the
    // definition is only invertible where the samples are one frustum
    bool ex; at(ref.ls, t, ex);
    if (ref.kind != 2 || !ref.uniform || ex) {
      NEAR(gl, p3(l), tol2 * 2 + 1e-9L, "thereAndBack", "worldToLocal(localToWorld) t=" << t);
      vf::count("round_trips");
    }
    vf::seen("query_states", Hash().add((uint64_t)ref.kind).add((uint64_t)ref.uniform).add(ref.ls.size()).add((uint64_t)timeless).add((uint64_t)ex).h);
  }
}

// world-space edge lengths of a voxel measured with the reference
void checkVoxelSize(Ctx& c, const FieldMapping& m, const Ref& ref) {
  Rng& r = c.rng;
  V3i rs = ref.ext.max - ref.ext.min + V3i(1);
  int k = r.range(ref.ext.min.z, ref.ext.max.z);
  V3d got = m.wsVoxelSize(r.range(ref.ext.min.x, ref.ext.max.x), r.range(ref.ext.min.y, ref.ext.max.y), k);
  P3 want;
  LD tol = 0, t1, t2;
  if (ref.kind == 2) {
    // measured between voxel centres in the middle column; the last slice repeats the one before
    int kk = (rs.z > 1 && k == ref.ext.max.z) ? k - 1 : k;
    int i = (int)(ref.ext.min.x + rs.x / 2.0), j = (int)(ref.ext.min.y + rs.y / 2.0);
    P3 o{i + 0.5L, j + 0.5L, kk + 0.5L}, px = o, py = o, z0 = o, z1 = o, wo, wx, wy, w0, w1;
    px.x += 1; py.y += 1;
    if (rs.z == 1) { z0.z -= 0.5L; z1.z += 0.5L; } else z1.z += 1;
    bool ok = ref.l2w(ref.v2l(o), 0, wo, t1) && ref.l2w(ref.v2l(px), 0, wx, t2) && ref.l2w(ref.v2l(py), 0, wy, t2) &&
              ref.l2w(ref.v2l(z0), 0, w0, t2) && ref.l2w(ref.v2l(z1), 0, w1, t2);
    if (!ok) return;
    want = P3{dist(wo, wx), dist(wo, wy), dist(w0, w1)};
    tol = 20 * (t1 + t2) + 1e-7L * (1 + len(want));
  } else {
    P3 o, x, y, z;
    P3 b = ref.l2v(P3{0, 0, 0});
    P3 bx = b, by = b, bz = b;
    bx.x += 1; by.y += 1; bz.z += 1;
    if (!ref.l2w(ref.v2l(b), 0, o, t1) || !ref.l2w(ref.v2l(bx), 0, x, t2) || !ref.l2w(ref.v2l(by), 0, y, t2) || !ref.l2w(ref.v2l(bz), 0, z, t2)) return;
    want = P3{dist(o, x), dist(o, y), dist(o, z)};
    tol = 4 * (t1 + t2) * (1 + 1e-3L * ref.maxRes());
  }
  NEAR(got, want, tol, "wsVoxelSize", "wsVoxelSize at slice " << k);
  vf::count("voxel_sizes");
}

void checkMatrixExtras(Ctx& c, const MatrixFieldMapping& m, const Ref& ref) {
  Rng& r = c.rng;
  bool ex;
  Mx l2w = at(ref.ls, 0.0f, ex), w2l, v2l, v2w, w2v;
  LD cn = cond(l2w), sc = ex ? 1e-12L : 2e-6L;
  if (cn > 1e7L || !inv(l2w, w2l)) return;
  inv(ref.lsToVs(), v2l);
  v2w = mul(v2l, l2w);
  inv(v2w, w2v);
  LD mr = ref.maxRes();
  auto cmp = [&](const M44d& a, const Mx& b, LD tol, const char* what) {
    LD d = 0;
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) d = std::max(d, fabsl(a[i][j] - b.a[i][j]));
    VF_CHECK(d <= tol, std::string("matrix:") + what, what << " matrix differs by " << (double)d);
  };
  cmp(m.localToWorld(), l2w, sc * (1 + norm(l2w)) * 10, "localToWorld");
  cmp(m.voxelToWorld(), v2w, sc * (1 + norm(l2w)) * mr * 10, "voxelToWorld");
  cmp(m.worldToVoxel(), w2v, sc * (1 + norm(w2v)) * cn * mr * 10, "worldToVoxel");
  V3d d(r.real(-2, 2), r.real(-2, 2), r.real(-2, 2)), o;
  m.localToWorldDir(d, o); NEAR(o, dir(l2w, p3(d)), sc * (1 + norm(l2w)) * 20, "localToWorldDir", "localToWorldDir");
  m.voxelToWorldDir(d, o); NEAR(o, dir(v2w, p3(d)), sc * (1 + norm(v2w)) * mr * 20, "voxelToWorldDir", "voxelToWorldDir");
  m.worldToLocalDir(d, o); NEAR(o, dir(w2l, p3(d)), sc * (1 + norm(w2l)) * cn * 20, "worldToLocalDir", "worldToLocalDir");
  m.worldToVoxelDir(d, o); NEAR(o, dir(w2v, p3(d)), sc * (1 + norm(w2v)) * cn * mr * 20, "worldToVoxelDir", "worldToVoxelDir");
  float t = (float)r.real(-3, 3);
  Mx mt = at(ref.ls, t, ex), vt = mul(v2l, mt), vi;
  if (cond(mt) < 1e6L && inv(vt, vi))
    cmp(m.worldToVoxel(t), vi, (ex ? 1e-12L : 2e-6L) * (1 + norm(vi)) * cond(mt) * mr * 10, "worldToVoxel(t)");
  // sample list: sorted, exactly what was set
  const MatrixFieldMapping::MatrixCurve::SampleVec& s = m.localToWorldSamples();
  VF_CHECK(s.size() == ref.ls.size(), "samples", "sample count " << s.size() << " expected " << ref.ls.size());
  size_t i = 0;
  for (auto& kv : ref.ls) {
    VF_CHECK(s[i].first == kv.first, "samples", "sample time");
    cmp(s[i].second, kv.second, 0, "sample");
    i++;
  }
}

void checkFrustumExtras(const FrustumFieldMapping& m, const Ref& ref) {
  auto n = m.nearPlaneSamples(), f = m.farPlaneSamples();
  auto ss = m.screenToWorldSamples(), cs = m.cameraToWorldSamples();
  VF_CHECK(n.size() == ref.nearD.size() && f.size() == ref.farD.size() && ss.size() == ref.ls.size() && cs.size() == ref.cs.size(),
           "frustum:samples", "sample counts " << n.size() << "," << f.size() << "," << ss.size() << "," << cs.size() << " expected " << ref.ls.size());
  size_t i = 0;
  for (auto& kv : ref.nearD) {
    LD fd = ref.farD.at(kv.first);
    VF_CHECK(n[i].first == kv.first && f[i].first == kv.first && ss[i].first == kv.first && cs[i].first == kv.first, "frustum:times", "sample times");
    VF_CHECK(fabsl(n[i].second - kv.second) <= 1e-7L * (1 + fd), "frustum:near", "near plane " << n[i].second << " expected " << (double)kv.second);
    VF_CHECK(fabsl(f[i].second - fd) <= 1e-7L * (1 + fd * fd), "frustum:far", "far plane " << f[i].second << " expected " << (double)fd);
    i++;
  }
  VF_CHECK((m.zDistribution() == FrustumFieldMapping::UniformDistribution) == ref.uniform, "frustum:dist", "zDistribution");
}

Box3i rndExt(Rng& r) {
  if (r.chance(0.1)) { V3i o(r.range(-500, 500), r.range(-500, 500), r.range(-500, 500)); return Box3i(o, o + V3i(r.range(0, 300), r.range(0, 3), r.range(0, 60))); }
  return rndBox(r, 12, 9);
}

void frustumDefault(Ref& ref) {
  // 45 degree camera at the origin looking down -z, near 1, far 2 (see the class documentation)
  double f = 2, n = 1, it = 1.0 / std::tan(45.0 * M_PI / 180.0 / 2.0);
  M44d persp(1, 0, 0, 0, 0, 1, 0, 0, 0, 0, f / (f - n), 1, 0, 0, -f * n / (f - n), 0), fov, flip;
  fov.setScale(V3d(it, it, 1)); flip.setScale(V3d(1, 1, -1));
  Mx c2s = mul(mul(Mx(flip), Mx(persp)), Mx(fov)), s2w, l2s;
  inv(c2s, s2w);
  l2s.a[0][0] = l2s.a[1][1] = 2; l2s.a[3][0] = l2s.a[3][1] = -1;
  ref.ls.clear(); ref.cs.clear(); ref.nearD.clear(); ref.farD.clear();
  ref.ls[0.0f] = mul(l2s, s2w);
  ref.cs[0.0f] = Mx();
  ref.nearD[0.0f] = n; ref.farD[0.0f] = f;
}
void setFrustum(Rng& r, FrustumFieldMapping& m, Ref& ref, bool timed, float t, bool& dflt) {
  double n = r.real(0.1, 2), f = n + r.real(1, 20), w = r.real(0.2, 1.5) * n, h = r.real(0.2, 1.5) * n, l = -w, b = -h;
  if (r.chance(0.4)) { l = -w * r.real(0.3, 1); b = -h * r.real(0.3, 1); }
  Imath::Frustum<double> fr(n, f, l, w, h, b, false);
  M44d rot, tr;
  if (r.chance(0.7)) rot.rotate(V3d(r.real(-3, 3), r.real(-3, 3), r.real(-3, 3)));
  if (r.chance(0.7)) tr.translate(V3d(r.real(-10, 10), r.real(-10, 10), r.real(-10, 10)));
  M44d cs = rot * tr, pm = fr.projectionMatrix();
  // OpenGL z runs -1..1; the library's screen space runs 0..1: compose z' = 2z - 1
  M44d z; z.makeIdentity(); z[2][2] = 2; z[3][2] = -1;
  M44d s2w = z * pm.inverse() * cs;
  if (!timed) { m.setTransforms(s2w, cs); ref.ls.clear(); ref.cs.clear(); ref.nearD.clear(); ref.farD.clear(); t = 0; }
  else {
    if (dflt) { ref.ls.clear(); ref.cs.clear(); ref.nearD.clear(); ref.farD.clear(); }
    m.setTransforms(t, s2w, cs);
  }
  dflt = false;
  Mx l2s;
  l2s.a[0][0] = l2s.a[1][1] = 2; l2s.a[3][0] = l2s.a[3][1] = -1;
  ref.ls[t] = mul(l2s, Mx(s2w));
  ref.cs[t] = Mx(cs);
  ref.nearD[t] = n; ref.farD[t] = f;
}

// near and far plane and depth semantics of a single frustum, from the camera's point of view
void checkDepths(Ctx& c, const FrustumFieldMapping& m, const Ref& ref) {
  for (auto& kv : ref.cs) {
    LD n = ref.nearD.at(kv.first), f = ref.farD.at(kv.first);
    Mx ci; inv(kv.second, ci);
    V3d l = rndIn(c.rng, 0), w;
    P3 cp;
    LD cn = cond(ref.ls.at(kv.first));
    if (cn > 1e6L) continue;
    for (int e = 0; e < 3; e++) {
      if (e < 2) l.z = e;
      else if (!ref.uniform) break;
      m.localToWorld(l, w, kv.first);
      pt(ci, p3(w), cp);
      LD want = n + (f - n) * l.z;
      VF_CHECK(fabsl(-cp.z - want) <= 1e-9L * cn * (1 + f), "frustum:depth", "depth " << (double)-cp.z << " expected " << (double)want << " at local z " << l.z);
      vf::count("depth_checks");
    }
  }
}

void isIdenticalChecks(Ctx& c, FieldMapping::Ptr a, FieldMapping::Ptr other) {
  // reflexive, also through clones; symmetric
  double tol = c.rng.chance(0.5) ? 0.0 : 1e-10;
  VF_CHECK(a->isIdentical(a, tol), "identical:reflexive", a->className() << " is not identical to itself");
  FieldMapping::Ptr cl = a->clone();
  VF_CHECK(cl && cl.get() != a.get(), "clone", "clone returned nothing new");
  VF_CHECK(a->isIdentical(cl, tol) && cl->isIdentical(a, tol), "identical:clone", a->className() << " differs from its clone");
  std::string s = mappingDiff(a, cl);
  VF_CHECK(s.empty(), "clone", "clone: " << s);
  bool ab = a->isIdentical(other, tol), ba = other->isIdentical(a, tol);
  VF_CHECK(ab == ba, "identical:symmetric", a->className() << " vs " << other->className() << ": " << ab << " / " << ba);
  if (ab && tol == 0.0)  // null and frustum equality leave the extents out
    for (int i = 0; i < 3; i++) {
      V3d l(0.2 + 0.3 * i, 0.9 - 0.4 * i, 0.1 * i), x, y;
      float t = -1.5f + 1.2f * i;
      a->localToWorld(l, x, t);
      other->localToWorld(l, y, t);
      VF_CHECK((x - y).length() <= 1e-5 * (1 + x.length()), "identical:differs", "identical mappings differ at t=" << t);
    }
}

void curveCase(Ctx& c) {
  Rng& r = c.rng;
  Curve<double> cd; Curve<float> cf; Curve<V3d> cv;
  std::map<float, LD> ref;
  VF_CHECK(cd.linear(0.3f) == 0.0 && cv.linear(1.f) == V3d(0) && Curve<M44d>().linear(0) == M44d(), "curve:empty", "empty curve default");
  int n = r.range(1, 12);
  for (int i = 0; i < n; i++) {
    float t = r.chance(0.4) ? r.range(-3, 3) * 0.5f : (float)r.real(-100, 100);
    if (r.chance(0.1)) t *= 1e6f;
    double v = r.real(-10, 10);
    cd.addSample(t, v); cf.addSample(t, (float)v); cv.addSample(t, V3d(v, -v, 2 * v));
    ref[t] = v;
    VF_CHECK(cd.numSamples() == ref.size(), "curve:count", "numSamples");
    size_t j = 0;
    for (auto& kv : ref) { VF_CHECK(cd.samples()[j].first == kv.first && cd.samples()[j].second == (double)kv.second, "curve:sample", "sample " << j); j++; }
    for (int q = 0; q < 4; q++) {
      float u = r.chance(0.3) ? cd.samples()[r.u(ref.size())].first : (float)r.real(-120, 120);
      LD w = at(ref, u);
      VF_CHECK(fabsl(cd.linear(u) - w) <= 1e-5L * 20, "curve:linear", "linear(" << u << ") = " << cd.linear(u) << " expected " << (double)w);
      VF_CHECK(fabsl(cf.linear(u) - w) <= 2e-5L * 20, "curve:linear", "float linear");
      V3d x = cv.linear(u);
      VF_CHECK(fabsl(x.x - w) < 4e-4L && fabsl(x.y + w) < 4e-4L && fabsl(x.z - 2 * w) < 8e-4L, "curve:linear", "vector linear");
      vf::count("curve_queries");
    }
  }
  cd.clear();
  VF_CHECK(cd.numSamples() == 0 && cd.linear(1.f) == 0.0, "curve:clear", "clear");
  c.desc = "curve n=" + std::to_string(n);
  vf::nontrivial(Hash().add((uint64_t)c.idx).add(c.desc).h);
}

// bounds helpers and voxel-aligned coordinate systems
void boundsCase(Ctx& c) {
  Rng& r = c.rng;
  for (int q = 0; q < 20; q++) {
    Box3i b = rndBox(r, 40, 60), d = rndBox(r, 40, 60), cl = clipBounds(b, d);
    for (int k = 0; k < 3; k++) {
      VF_CHECK(cl.min[k] == std::max(b.min[k], d.min[k]) && cl.max[k] == std::min(b.max[k], d.max[k]), "clipBounds", "clipBounds");
    }
    Box3d cb = continuousBounds(b);
    VF_CHECK(cb.min == V3d(b.min) && cb.max == V3d(b.max + V3i(1)), "continuousBounds", "continuousBounds");
    Box3d x;
    for (int k = 0; k < 3; k++) {
      double p = r.real(-60, 60), s = r.real(0, 30);
      if (r.chance(0.2)) p = std::floor(p);
      if (r.chance(0.05)) p = r.chance(0.5) ? 1e12 : -1e12;
      x.min[k] = p; x.max[k] = p + s;
    }
    Box3i db = discreteBounds(x);
    for (int k = 0; k < 3; k++) {
      double lo = std::max(std::min(x.min[k], 2147483647.0), -2147483648.0), hi = std::max(std::min(x.max[k], 2147483647.0), -2147483648.0);
      // every voxel touched by the box is inside, and the box grows by at most one voxel
      VF_CHECK(db.min[k] == (int)std::floor(lo) && db.max[k] >= (int)std::floor(hi) && (double)db.max[k] <= std::ceil(hi), "discreteBounds",
               "discreteBounds of [" << x.min[k] << "," << x.max[k] << "] is [" << db.min[k] << "," << db.max[k] << "]");
    }
    double y = r.real(-50, 50);
    int i = r.range(-50, 50);
    VF_CHECK(contToDisc(discToCont(i)) == i && discToCont(contToDisc(y)) - y <= 0.5 && discToCont(contToDisc(y)) - y >= -0.5, "contToDisc", "contToDisc");
    V3i vi(i, -i, i * 2);
    VF_CHECK(contToDisc(discToCont(vi)) == vi && contToDisc(discToCont(V2i(i, 3))) == V2i(i, 3), "contToDisc", "vector contToDisc");
    // coordinate systems
    V3d a(r.real(-9, 9), r.real(-9, 9), r.real(-9, 9)), sz(r.real(0.5, 9), r.real(0.5, 9), r.real(0.5, 9));
    Box3d bb(a, a + sz), tb;
    M44d m = coordinateSystem(bb);
    V3d o;
    m.multVecMatrix(V3d(0), o);
    VF_CHECK((o - bb.min).length() < 1e-9, "coordinateSystem", "lower corner");
    m.multVecMatrix(V3d(1), o);
    VF_CHECK((o - bb.max).length() < 1e-9, "coordinateSystem", "upper corner");
    V3d vs(r.real(0.05, 1), r.real(0.05, 1), r.real(0.05, 1));
    if (r.chance(0.5)) vs = V3d(0.1 * r.range(1, 9));
    Box3i ext;
    m = coordinateSystem(bb, vs, ext);
    VF_CHECK(m == coordinateSystem(bb, vs), "coordinateSystem", "variants differ");
    // a field with these extents and this transform has voxels of the requested size whose
    // corners sit on multiples of it, and covers the bounds
    MatrixFieldMapping mm(ext);
    mm.setLocalToWorld(m);
    V3d g = mm.wsVoxelSize(0, 0, 0);
    VF_CHECK((g - vs).length() < 1e-7, "coordinateSystem:size", "voxel size " << g << " expected " << vs << " bounds " << bb.min << bb.max);
    V3d p(r.range(-5, 5), r.range(-5, 5), r.range(-5, 5));
    mm.voxelToWorld(p, o);
    VF_CHECK((o - p * vs).length() < 1e-6, "coordinateSystem:align", "voxel corner " << p << " at " << o << " expected " << p * vs << " extents " << str(ext));
    mm.voxelToWorld(V3d(ext.min), o);
    VF_CHECK(o.x <= bb.min.x + 1e-7 && o.y <= bb.min.y + 1e-7 && o.z <= bb.min.z + 1e-7, "coordinateSystem:cover", "lower");
    mm.voxelToWorld(V3d(ext.max + V3i(1)), o);
    VF_CHECK(o.x >= bb.max.x - 1e-7 && o.y >= bb.max.y - 1e-7 && o.z >= bb.max.z - 1e-7, "coordinateSystem:cover", "upper");
    // bounds through matrices and mappings: exactly the hull of the eight corners
    M44d x2 = rndMatrix(r);
    transformBounds(x2, bb, tb);
    mm.setLocalToWorld(x2);
    Box3d vb;
    worldToVoxel(&mm, bb, vb);
    P3 lo{1e30L, 1e30L, 1e30L}, hi{-1e30L, -1e30L, -1e30L}, vlo = lo, vhi = hi;
    Mx wi; inv(Mx(x2), wi);
    for (int k = 0; k < 8; k++) {
      P3 cr{k & 1 ? bb.min.x : bb.max.x, k & 2 ? bb.min.y : bb.max.y, k & 4 ? bb.min.z : bb.max.z}, t, l;
      pt(Mx(x2), cr, t);
      lo = P3{std::min(lo.x, t.x), std::min(lo.y, t.y), std::min(lo.z, t.z)};
      hi = P3{std::max(hi.x, t.x), std::max(hi.y, t.y), std::max(hi.z, t.z)};
      pt(wi, cr, l);
      Ref rf; rf.kind = 1; rf.ext = ext;
      P3 v = rf.l2v(l);
      vlo = P3{std::min(vlo.x, v.x), std::min(vlo.y, v.y), std::min(vlo.z, v.z)};
      vhi = P3{std::max(vhi.x, v.x), std::max(vhi.y, v.y), std::max(vhi.z, v.z)};
    }
    NEAR(tb.min, lo, 1e-8L, "transformBounds", "transformBounds min");
    NEAR(tb.max, hi, 1e-8L, "transformBounds", "transformBounds max");
    LD vt = 1e-10L * cond(Mx(x2)) * (1 + len(vhi) + len(vlo));
    NEAR(vb.min, vlo, vt, "worldToVoxel:bounds", "worldToVoxel(bounds) min");
    NEAR(vb.max, vhi, vt, "worldToVoxel:bounds", "worldToVoxel(bounds) max");
    vf::count("bounds_checks");
  }
  c.desc = "bounds";
  vf::nontrivial(Hash().add((uint64_t)c.idx).h);
}
}  // namespace

void vf_case(Ctx& c) {
  Rng& r = c.rng;
  double pick = r.f01();
  if (pick < 0.06) return curveCase(c);
  if (pick < 0.14) return boundsCase(c);
  Ref ref;
  ref.kind = pick < 0.22 ? 0 : pick < 0.6 ? 1 : 2;
  std::ostringstream d;
  bool useField = r.chance(0.25);  // through a field's resize instead of setExtents
  ref.ext = rndExt(r);
  FieldMapping::Ptr m;
  bool extCtor = r.chance(0.5);
  if (!extCtor) ref.ext = Box3i(V3i(0), V3i(0));
  if (ref.kind == 0) m = extCtor ? new NullFieldMapping(ref.ext) : new NullFieldMapping;
  else if (ref.kind == 1) m = extCtor ? new MatrixFieldMapping(ref.ext) : new MatrixFieldMapping;
  else { m = extCtor ? new FrustumFieldMapping(ref.ext) : new FrustumFieldMapping; frustumDefault(ref); }
  bool dflt = true;
  EmptyField<float>::Ptr field;
  if (useField) {
    field = new EmptyField<float>;
    field->setSize(ref.ext, rndBox(r, 5, 3));
    field->setMapping(m);
    VF_CHECK(field->mapping().get() != m.get(), "setMapping", "setMapping keeps the caller's object");
    m = field->mapping();
  }
  d << (ref.kind == 0 ? "null" : ref.kind == 1 ? "matrix" : "frustum") << (extCtor ? " ext" : "") << (useField ? " field" : "");
  c.desc = d.str();
  MatrixFieldMapping* mm = dynamic_cast<MatrixFieldMapping*>(m.get());
  FrustumFieldMapping* fm = dynamic_cast<FrustumFieldMapping*>(m.get());
  int steps = r.range(2, 8);
  for (int s = 0; s <= steps; s++) {
    if (s) {
      int op = (int)r.u(7);
      float t = r.chance(0.6) ? r.range(-4, 4) * 0.25f : (float)r.real(-2, 2);
      if (op == 0) {
        ref.ext = rndExt(r);
        if (field) field->setSize(ref.ext, rndBox(r, 5, 3)); else m->setExtents(ref.ext);
        d << " ext" << str(ref.ext);
      } else if (op == 1) {  // continue on a clone; the old one must keep its state
        FieldMapping::Ptr old = m;
        Ref oref = ref;
        if (!field) {
          m = m->clone();
          m->setExtents(ref.ext = rndExt(r));
          mm = dynamic_cast<MatrixFieldMapping*>(m.get());
          fm = dynamic_cast<FrustumFieldMapping*>(m.get());
          checkConversions(c, *old, oref);
          checkVoxelSize(c, *old, oref);
          d << " clone";
        }
      } else if (mm) {
        if (op == 2) { mm->makeIdentity(); ref.ls.clear(); d << " id"; }
        else if (op == 3) { M44d x = rndMatrix(r); mm->setLocalToWorld(x); ref.ls.clear(); ref.ls[0.0f] = Mx(x); d << " set"; }
        else { M44d x = rndMatrix(r); mm->setLocalToWorld(t, x); ref.ls[t] = Mx(x); d << " set@" << t; }
      } else if (fm) {
        if (op == 2) { fm->reset(); frustumDefault(ref); dflt = true; d << " reset"; }
        else if (op == 3) { setFrustum(r, *fm, ref, false, 0, dflt); d << " set"; }
        else if (op == 4) { ref.uniform = r.chance(0.5); fm->setZDistribution(ref.uniform ? FrustumFieldMapping::UniformDistribution : FrustumFieldMapping::PerspectiveDistribution); d << " dist" << ref.uniform; }
        else { setFrustum(r, *fm, ref, true, t, dflt); d << " set@" << t; }
      }
      c.desc = d.str();
    }
    checkConversions(c, *m, ref);
    checkVoxelSize(c, *m, ref);
    if (mm) checkMatrixExtras(c, *mm, ref);
    if (fm) { checkFrustumExtras(*fm, ref); checkDepths(c, *fm, ref); }
    if (r.chance(0.4)) {
      FieldMapping::Ptr other = r.chance(0.5) ? rndMapping(r, (int)r.u(MapKinds)) : m->clone();
      if (r.chance(0.5)) other->setExtents(ref.ext);
      if (MatrixFieldMapping* om = dynamic_cast<MatrixFieldMapping*>(other.get()))
        if (r.chance(0.5)) {
          M44d a = om->localToWorld();
          a[r.u(4)][r.u(3)] += r.chance(0.5) ? 1e-3 : 0.5;
          om->setLocalToWorld((float)r.range(-1, 1), a);
        }
      isIdenticalChecks(c, m, other);
      vf::count("identity_checks");
    }
    vf::count("steps");
  }
  Hash h;
  h.add(d.str()).add((uint64_t)c.idx);
  vf::nontrivial(h.h);
}

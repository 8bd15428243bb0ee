// P15: interpolators against an independent model of their definition.
#include "gen.h"
#include <Field3D/FieldInterp.h>
#include <Field3D/ProceduralField.h>
using namespace gen;

const char* vf_id() { return "P15"; }
void vf_init() { initIO(); Msg::setVerbosity(0); }

namespace {
template <class T> double epsOf();
template <> double epsOf<half>() { return 1.0 / 1024; }
template <> double epsOf<float>() { return 1.2e-7; }
template <> double epsOf<double>() { return 2.3e-16; }

struct D3 {
  double v[3];
  D3() { v[0] = v[1] = v[2] = 0; }
};
// values of one field component grid: get(component, i, j, k)
typedef std::function<D3(int, int, int)> Get;
struct Lin { D3 val; double mx; };

// trilinear blend at p (already relative to the sample positions) with coordinates clamped to b
Lin linModel(const Get& g, const Box3i& b, const V3d& p) {
  Lin r;
  r.mx = 0;
  int c[3][2];
  double w[3][2];
  for (int a = 0; a < 3; a++) {
    double lo = b.min[a], hi = b.max[a], x = p[a];
    if (!(x > lo)) { c[a][0] = c[a][1] = b.min[a]; w[a][0] = 1; w[a][1] = 0; }
    else if (x >= hi) { c[a][0] = c[a][1] = b.max[a]; w[a][0] = 1; w[a][1] = 0; }
    else {
      double f = std::floor(x);
      c[a][0] = (int)f;
      c[a][1] = std::min(c[a][0] + 1, b.max[a]);
      w[a][1] = x - f;
      w[a][0] = 1 - w[a][1];
    }
  }
  for (int q = 0; q < 8; q++) {
    int x = q & 1, y = (q >> 1) & 1, z = q >> 2;
    D3 v = g(c[0][x], c[1][y], c[2][z]);
    double ww = w[0][x] * w[1][y] * w[2][z];
    for (int n = 0; n < 3; n++) { r.val.v[n] += ww * v.v[n]; r.mx = std::max(r.mx, std::fabs(v.v[n])); }
  }
  return r;
}

struct Cub { double val, mx; bool skip; };
double cub1(const double f[4], double t, double mx, bool first, double thr, bool& skip) {
  double d = 0.5 * (f[2] - f[0]), d1 = 0.5 * (f[3] - f[1]), de = f[2] - f[1];
  if (!first && t != 0 && std::fabs(de) < thr * mx && !(f[0] == f[1] && f[1] == f[2] && f[2] == f[3])) skip = true;
  if (de == 0) d = d1 = 0;
  return f[1] + t * (d + t * ((3 * de - 2 * d - d1) + t * (d + d1 - 2 * de)));
}
// tensor product spline with coordinates clamped to b
Cub cubModel(const std::function<double(int, int, int)>& g, const Box3i& b, const V3d& pp, double thr) {
  int ix[3][4];
  double t[3];
  for (int a = 0; a < 3; a++) {
    double x = std::max((double)b.min[a], std::min((double)b.max[a] + 0.0, pp[a]));
    double f = std::floor(x);
    t[a] = x - f;
    for (int q = 0; q < 4; q++) ix[a][q] = std::max(b.min[a], std::min(b.max[a], (int)f - 1 + q));
  }
  Cub r;
  r.mx = 0;
  r.skip = false;
  double v[4][4][4];
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) for (int k = 0; k < 4; k++) {
    v[i][j][k] = g(ix[0][i], ix[1][j], ix[2][k]);
    r.mx = std::max(r.mx, std::fabs(v[i][j][k]));
  }
  double x[4];
  for (int i = 0; i < 4; i++) {
    double y[4];
    for (int j = 0; j < 4; j++) y[j] = cub1(v[i][j], t[2], r.mx, true, thr, r.skip);
    x[i] = cub1(y, t[1], r.mx, false, thr, r.skip);
  }
  r.val = cub1(x, t[0], r.mx, false, thr, r.skip);
  return r;
}

template <class T> D3 d3(const T& v) {
  D3 r;
  for (int c = 0; c < TT<T>::n; c++) r.v[c] = comp(v, c);
  return r;
}
template <class T> Get getter(const Field<T>& f) {
  return [&f](int i, int j, int k) { return d3<T>(f.value(i, j, k)); };
}
// interesting query points in voxel space
V3d rndPoint(Rng& r, const Box3i& b) {
  V3d p;
  int mode = (int)r.u(10);
  for (int a = 0; a < 3; a++) {
    double lo = b.min[a], hi = b.max[a] + 1;
    int m = mode < 4 ? 0 : mode < 8 ? (int)r.u(6) : mode == 8 ? 6 : (int)r.u(8);
    switch (m) {
      case 0: p[a] = r.real(lo, hi); break;
      case 1: p[a] = r.real(lo - 3, hi + 3); break;
      case 2: p[a] = r.range(b.min[a] - 1, b.max[a] + 2); break;
      case 3: p[a] = r.range(b.min[a] - 1, b.max[a] + 2) + 0.5; break;
      case 4: p[a] = std::nextafter(r.range(b.min[a] - 1, b.max[a] + 2) + 0.5 * r.u(2), r.chance(0.5) ? 1e9 : -1e9); break;
      case 5: p[a] = r.chance(0.5) ? r.real(lo - 0.6, lo + 0.6) : r.real(hi - 0.6, hi + 0.6); break;
      case 6: p[a] = r.range(b.min[a], b.max[a]) + 0.5; break;
      default: {
        static const double far[] = {1e5, 1e9, 3e9, 1e12, 1e300};
        p[a] = (r.chance(0.5) ? 1 : -1) * (r.chance(0.1) ? std::numeric_limits<double>::infinity() : far[r.u(5)]);
      }
    }
  }
  return p;
}
bool centre(const V3d& p, const Box3i& b, V3i& v) {
  for (int a = 0; a < 3; a++) {
    double x = p[a] - 0.5;
    if (!(x >= b.min[a] && x <= b.max[a]) || x != std::floor(x)) return false;
    v[a] = (int)x;
  }
  return true;
}
template <class T> void cmp(const char* key, const T& got, const D3& want, double tol, const V3d& p, const Box3i& b) {
  for (int c = 0; c < TT<T>::n; c++) {
    double g = comp(got, c), d = std::fabs(g - want.v[c]);
    VF_CHECK(d <= tol, key, "sample at (" << p.x << "," << p.y << "," << p.z << ") of window " << str(b) << " is " << str(got) << " expected component " << c << " = " << want.v[c] << " off by " << d << " > " << tol);
  }
}
template <class T> double relTol() { return epsOf<typename TT<T>::S>() * 12; }
template <class T> void checkLinear(const char* key, const Field<T>& f, const T& got, const V3d& p) {
  Lin m = linModel(getter(f), f.dataWindow(), p - V3d(0.5));
  cmp<T>(key, got, m.val, relTol<T>() * m.mx + 1e-7 * (epsOf<typename TT<T>::S>() > 1e-4), p, f.dataWindow());
  V3i v;
  if (centre(p, f.dataWindow(), v)) {
    T e = f.value(v.x, v.y, v.z);
    VF_CHECK(got == e, key, "sample at the centre of voxel " << str(v) << " is " << str(got) << " expected " << str(e));
    vf::count("exact_centres");
  }
  vf::count("linear_samples");
}
template <class T> void checkCubic(const char* key, const Box3i& b, const Get& g, const T& got, const V3d& p, int stag = -1) {
  typedef typename TT<T>::S S;
  Box3i bb = b;
  V3d q = p - V3d(0.5);
  if (stag >= 0) { bb.max[stag]++; q[stag] = p[stag]; }
  for (int c = 0; c < TT<T>::n; c++) {
    Cub m = cubModel([&](int i, int j, int k) { return g(i, j, k).v[c]; }, bb, q, epsOf<S>() * 1000);
    if (m.skip) { vf::count("cubic_ambiguous"); continue; }
    double x = comp(got, c), d = std::fabs(x - m.val), tol = epsOf<S>() * 300 * m.mx + 1e-5 * (epsOf<S>() > 1e-4);
    VF_CHECK(d <= tol, key, "sample at (" << p.x << "," << p.y << "," << p.z << ") of window " << str(b) << " is " << x << " expected " << m.val << " off by " << d << " > " << tol);
  }
  vf::count("cubic_samples");
}
template <class T> T val(Rng& r, int mode) {
  if (mode == 0) return rndVal<T>(r, ValSmall);
  return mkVal<T>(r.real(-8, 8));
}
template <class T, class F> void fill(Rng& r, F& f) {
  int mode = (int)r.u(3);
  T cst = rndVal<T>(r, ValSmall);
  forBox(f.dataWindow(), [&](int i, int j, int k) {
    if (mode == 2) { if (r.chance(0.5)) f.lvalue(i, j, k) = cst; }
    else if (r.chance(0.9)) f.lvalue(i, j, k) = val<T>(r, mode);
  });
}
template <class T> struct Proc : public ProceduralField<T> {
  typedef boost::intrusive_ptr<Proc> Ptr;
  V3d a;
  virtual T lsSample(const V3d& p) const { return mkVal<T>(a.x * p.x + a.y * p.y + a.z * p.z); }
  virtual T value(int i, int j, int k) const {
    V3d l;
    const_cast<Proc*>(this)->mapping()->voxelToLocal(V3d(i + 0.5, j + 0.5, k + 0.5), l);
    return lsSample(l);
  }
  virtual long long int memSize() const { return sizeof(*this); }
  virtual FieldBase::Ptr clone() const { return FieldBase::Ptr(new Proc(*this)); }
  virtual std::string className() const { return "Proc"; }
  virtual bool checkRTTI(const char*) { return false; }
  void size(const Box3i& e, const Box3i& w) { this->m_extents = e; this->m_dataWindow = w; this->m_mapping->setExtents(e); }
};
FieldMapping::Ptr affine(Rng& r) {
  MatrixFieldMapping::Ptr m(new MatrixFieldMapping);
  M44d x, s, t;
  s.setScale(V3d(r.real(0.5, 4), r.real(0.5, 4), r.real(0.5, 4)));
  x.setEulerAngles(V3d(r.real(-3, 3), r.real(-3, 3), r.real(-3, 3)));
  t.setTranslation(V3d(r.real(-9, 9), r.real(-9, 9), r.real(-9, 9)));
  m->setLocalToWorld(s * x * t);
  return m;
}
// constants are reproduced, up to rounding
template <class T, class I, class F> void constant(Rng& r, const char* key, const I& in, F& f, int n) {
  T cst = rndVal<T>(r, ValSmall);
  forBox(f.dataWindow(), [&](int i, int j, int k) { f.lvalue(i, j, k) = cst; });
  for (int q = 0; q < n; q++) {
    V3d p = rndPoint(r, f.dataWindow());
    T s = in.sample(f, p);
    for (int c = 0; c < TT<T>::n; c++) {
      double d = std::fabs(comp(s, c) - comp(cst, c));
      VF_CHECK(d <= relTol<T>() * std::fabs(comp(cst, c)), key, "constant " << str(cst) << " sampled as " << str(s) << " at (" << p.x << "," << p.y << "," << p.z << ") of " << str(f.dataWindow()));
    }
  }
}
template <class T, class F> void world(Rng& r, F f) {
  // sampling at a world position is sampling at its voxel position
  f->setMapping(affine(r));
  LinearFieldInterp<T> lin;
  CubicFieldInterp<T> cub;
  typename Field<T>::Ptr b = f;
  for (int q = 0; q < 5; q++) {
    V3d p = rndPoint(r, f->dataWindow());
    if (std::fabs(p.x) + std::fabs(p.y) + std::fabs(p.z) > 1e3) continue;
    V3d w, v;
    f->mapping()->voxelToWorld(p, w);
    f->mapping()->worldToVoxel(w, v);
    T a = wsSample<T>(b, lin, w), e = lin.sample(*b, v);
    VF_CHECK(a == e, "wsSample", "world sample " << str(a) << " differs from voxel sample " << str(e));
    T a2 = wsSample<T>(b, cub, w), e2 = cub.sample(*b, v);
    VF_CHECK(a2 == e2, "wsSample", "world sample " << str(a2) << " differs from voxel sample " << str(e2));
  }
}
template <class T> double diff(const T& a, const T& b) {
  double d = 0;
  for (int c = 0; c < TT<T>::n; c++) d = std::max(d, std::fabs(comp(a, c) - comp(b, c)));
  return d;
}
template <class T, int V = TT<T>::vec> struct Mac { static void go(Rng&, std::string&) {} };
template <class T> struct Mac<T, 1> {
  typedef typename TT<T>::S S;
  static void go(Rng& r, std::string& d) {
    Box3i e, w;
    rndWindows(r, e, w, 7);
    typename MACField<T>::Ptr f(new MACField<T>);
    f->setSize(e, w);
    f->clear(T(S(0)));
    int mode = (int)r.u(2);
    for (int c = 0; c < 3; c++) {
      Box3i b = w;
      b.max[c]++;
      forBox(b, [&](int i, int j, int k) {
        S v = val<T>(r, mode)[0];
        if (c == 0) f->u(i, j, k) = v; else if (c == 1) f->v(i, j, k) = v; else f->w(i, j, k) = v;
      });
    }
    d += str(w);
    const MACField<T>& cf = *f;
    typename MACField<T>::LinearInterp lin;
    typename MACField<T>::CubicInterp cub;
    LinearFieldInterp<T> gl;
    CubicFieldInterp<T> gc;
    auto gen1 = [&](int c) -> Get {
      return [&cf, c](int i, int j, int k) { D3 q; q.v[0] = q.v[1] = q.v[2] = c == 0 ? cf.u(i, j, k) : c == 1 ? cf.v(i, j, k) : cf.w(i, j, k); return q; };
    };
    MACComponent comps[3] = {MACCompU, MACCompV, MACCompW};
    for (int n = 0; n < 60; n++) {
      V3d p = rndPoint(r, w);
      T s = lin.sample(cf, p), cs = cub.sample(cf, p);
      for (int c = 0; c < 3; c++) {
        Box3i b = w;
        b.max[c]++;
        V3d q = p - V3d(0.5);
        q[c] = p[c];
        Lin m = linModel(gen1(c), b, q);
        double tol = relTol<T>() * m.mx + 1e-7 * (epsOf<S>() > 1e-4);
        VF_CHECK(std::fabs((double)s[c] - m.val.v[c]) <= tol, "mac:linear", "component " << c << " at (" << p.x << "," << p.y << "," << p.z << ") of " << str(w) << " is " << s[c] << " expected " << m.val.v[c]);
        double sc = lin.sample(cf, comps[c], p);
        VF_CHECK(std::fabs(sc - m.val.v[c]) <= tol, "mac:linear:comp", "component " << c << " at (" << p.x << "," << p.y << "," << p.z << ") of " << str(w) << " is " << sc << " expected " << m.val.v[c]);
        checkCubic<S>("mac:cubic", w, gen1(c), cs[c], p, c);
        bool face = true;
        V3i fv;
        for (int a = 0; a < 3; a++) { face = face && q[a] == std::floor(q[a]) && q[a] >= b.min[a] && q[a] <= b.max[a]; if (face) fv[a] = (int)q[a]; }
        if (face) {
          S want = (S)gen1(c)(fv.x, fv.y, fv.z).v[0];
          VF_CHECK(s[c] == want && cs[c] == want && sc == (double)want, "mac:face", "face " << c << " " << str(fv) << " sampled as " << s[c] << " / " << cs[c] << " / " << sc << " expected " << want);
          vf::count("exact_faces");
        }
      }
      checkLinear<T>("mac:generic", cf, gl.sample(cf, p), p);
      checkCubic<T>("mac:generic:cubic", w, getter<T>(cf), gc.sample(cf, p), p);
    }
  }
};
template <class T, class MIP> void mip(Rng& r, typename MIP::Ptr m, const std::vector<Box3i>& lv) {
  typedef typename TT<T>::S S;
  m->setMapping(affine(r));
  if (r.chance(0.5)) m->setMIPOffset(V3i(r.range(-9, 9), r.range(-9, 9), r.range(-9, 9)));
  typename MIP::LinearInterp in(*m);
  LinearFieldInterp<T> gl;
  V3d vs = m->mapping()->wsVoxelSize(0, 0, 0);
  double mn = std::min(vs.x, std::min(vs.y, vs.z));
  int n = (int)lv.size();
  V3i off = m->mipOffset();
  for (int q = 0; q < 40; q++) {
    V3d p = rndPoint(r, lv[0]);
    if (!(std::fabs(p.x) + std::fabs(p.y) + std::fabs(p.z) < 1e4)) continue;
    double size = r.chance(0.1) ? 0 : mn * std::pow(2.0, r.real(-1.5, n + 0.5));
    if (r.chance(0.2)) size = mn * std::pow(2.0, r.range(0, n));
    float sz = (float)size;
    T s = in.sample(p, sz);
    // the two levels around the spot size
    double l = sz <= mn ? 0 : 0;
    int lo = 0, hi = 0;
    double t = 0;
    if (sz > mn) {
      lo = hi = n - 1;
      for (int i = 1; i < n; i++) if (sz <= mn * std::pow(2.0, i)) { lo = i - 1; hi = i; t = (sz - mn * std::pow(2.0, i - 1)) / (mn * std::pow(2.0, i - 1)); break; }
    }
    (void)l;
    D3 e;
    double mx = 0, cmax = 0;
    for (int b = 0; b < 2; b++) {
      int L = b ? hi : lo;
      V3d x = p;
      for (int a = 0; a < 3; a++) {
        double base = std::floor((double)off[a] / (1 << L)) * (1 << L);
        x[a] = (p[a] - (base - off[a])) / (1 << L);
        cmax = std::max(cmax, std::fabs(x[a]));
      }
      Lin k = linModel(getter<T>(*m->mipLevel(L)), lv[L], x - V3d(0.5));
      mx = std::max(mx, k.mx);
      for (int c = 0; c < 3; c++) e.v[c] += (b ? t : 1 - t) * k.val.v[c];
    }
    cmp<T>("mip:linear", s, e, (relTol<T>() + 4e-6 + (cmax + 32) * 3e-6) * mx + 1e-7, p, lv[0]);
    vf::count("mip_samples");
    // the generic interpolator sees the finest level
    checkLinear<T>("mip:generic", *m, gl.sample(*m, p), p);
  }
}
}  // namespace

void vf_case(Ctx& c) {
  Rng& r = c.rng;
  int type = (int)r.u(6), kind = (int)r.u(7);
  if (kind == 2 && type < 3) type += 3;
  static const char* kn[] = {"dense", "sparse", "mac", "mipdense", "mipsparse", "other", "sparse"};
  std::string d = std::string(kn[kind]) + " t" + std::to_string(type) + " ";
  withType(type, [&](auto z) {
    typedef decltype(z) T;
    Box3i e, w;
    rndWindows(r, e, w, r.chance(0.15) ? 22 : 8);
    LinearFieldInterp<T> gl;
    CubicFieldInterp<T> gc;
    if (kind == 0 || kind == 1 || kind == 6) {
      typename DenseField<T>::Ptr df(new DenseField<T>);
      typename SparseField<T>::Ptr sf(new SparseField<T>);
      df->setSize(e, w);
      df->clear(rndVal<T>(r, ValSmall));
      int order = r.range(0, 4);
      sf->setBlockOrder(order);
      sf->setSize(e, w);
      sf->clear(df->value(w.min.x, w.min.y, w.min.z));
      d += str(w) + " order " + std::to_string(order);
      fill<T>(r, *df);
      // the same voxels in the sparse field, with some blocks unallocated where they are constant
      forBox(w, [&](int i, int j, int k) {
        T v = df->value(i, j, k);
        if (!vf::bitEq(v, sf->fastValue(i, j, k)) || r.chance(0.02)) sf->fastLValue(i, j, k) = v;
      });
      // a block of its own constant
      if (r.chance(0.5)) {
        V3i br = sf->blockRes();
        int bi = (int)r.u(br.x), bj = (int)r.u(br.y), bk = (int)r.u(br.z);
        if (!sf->blockIsAllocated(bi, bj, bk)) {
          T v = rndVal<T>(r, ValSmall);
          sf->setBlockEmptyValue(bi, bj, bk, v);
        }
        forBox(w, [&](int i, int j, int k) { df->fastLValue(i, j, k) = sf->fastValue(i, j, k); });
      }
      typename DenseField<T>::LinearInterp dl;
      typename DenseField<T>::CubicInterp dc;
      typename SparseField<T>::LinearInterp sl;
      typename SparseField<T>::CubicInterp sc;
      const DenseField<T>& cd = *df;
      const SparseField<T>& cs = *sf;
      for (int n = 0; n < 80; n++) {
        V3d p = rndPoint(r, w);
        checkLinear<T>("dense:linear", cd, dl.sample(cd, p), p);
        checkLinear<T>("sparse:linear", cs, sl.sample(cs, p), p);
        checkLinear<T>("generic:linear", n & 1 ? (const Field<T>&)cd : cs, gl.sample(n & 1 ? (const Field<T>&)cd : cs, p), p);
        if (n % 4 == 0) {
          T a = dc.sample(cd, p), b = sc.sample(cs, p), g = gc.sample(n & 4 ? (const Field<T>&)cd : cs, p);
          checkCubic<T>("dense:cubic", w, getter<T>(cd), a, p);
          double tol = epsOf<typename TT<T>::S>() * 10 * 500;
          VF_CHECK(diff(a, b) <= tol * 1e-3 || diff(a, b) <= tol, "cubic:agree", "dense " << str(a) << " sparse " << str(b) << " at (" << p.x << "," << p.y << "," << p.z << ") of " << str(w));
          checkCubic<T>("sparse:cubic", w, getter<T>(cd), b, p);
          checkCubic<T>("generic:cubic", w, getter<T>(cd), g, p);
          V3i v;
          if (centre(p, w, v)) {
            T x = cd.value(v.x, v.y, v.z);
            VF_CHECK(a == x && b == x && g == x, "cubic:centre", "voxel " << str(v) << " of " << str(w) << " is " << str(x) << " sampled as " << str(a) << " / " << str(b) << " / " << str(g));
            vf::count("exact_centres_cubic");
          }
        }
      }
      if (r.chance(0.3)) { if (r.chance(0.5)) world<T>(r, df); else world<T>(r, sf); }
      if (r.chance(0.3)) {
        constant<T>(r, "constant", dl, *df, 8);
        constant<T>(r, "constant", dc, *df, 8);
        constant<T>(r, "constant", gl, *df, 8);
        constant<T>(r, "constant", gc, *df, 8);
        constant<T>(r, "constant", sl, *sf, 8);
        constant<T>(r, "constant", sc, *sf, 8);
      }
    } else if (kind == 2) {
      Mac<T>::go(r, d);
    } else if (kind == 3 || kind == 4) {
      std::vector<Box3i> lv = rndLevels(r, 9, 4);
      d += str(lv[0]) + " levels " + std::to_string(lv.size());
      if (kind == 3) {
        typedef MIPField<DenseField<T> > M;
        typename M::Ptr m(new M);
        typename M::FieldVec v;
        for (auto& b : lv) { v.push_back(mkDense<T>(r, b, b, ValSmall)); fill<T>(r, *v.back()); }
        m->setup(v);
        mip<T, M>(r, m, lv);
      } else {
        typedef MIPField<SparseField<T> > M;
        typename M::Ptr m(new M);
        typename M::FieldVec v;
        for (auto& b : lv) v.push_back(mkSparse<T>(r, b, b, r.range(0, 3), ValSmall));
        m->setup(v);
        mip<T, M>(r, m, lv);
      }
    } else {
      // proxy and procedural fields through the generic interpolators
      typename EmptyField<T>::Ptr f(new EmptyField<T>);
      f->setSize(e, w);
      f->clear(rndVal<T>(r, ValSmall));
      typename Proc<T>::Ptr pf(new Proc<T>);
      pf->size(e, w);
      if (r.chance(0.5)) pf->setMapping(affine(r));
      pf->a = V3d(r.real(-3, 3), r.real(-3, 3), r.real(-3, 3));
      typename ProceduralField<T>::LinearInterp pl;
      d += str(w);
      for (int n = 0; n < 40; n++) {
        V3d p = rndPoint(r, w);
        checkLinear<T>("proxy:linear", *f, gl.sample(*f, p), p);
        checkLinear<T>("procedural:generic", *pf, gl.sample(*pf, p), p);
        if (!(std::fabs(p.x) + std::fabs(p.y) + std::fabs(p.z) < 1e6)) continue;
        V3d l;
        for (int a = 0; a < 3; a++) l[a] = (p[a] - e.min[a]) / res(e)[a];
        T s = pl.sample(*pf, p), x = pf->lsSample(l);
        VF_CHECK(diff(s, x) <= (relTol<T>() + 1e-12) * (1 + 9 * (std::fabs(l.x) + std::fabs(l.y) + std::fabs(l.z))), "procedural", "lookup at (" << p.x << "," << p.y << "," << p.z << ") of extents " << str(e) << " window " << str(w) << " is " << str(s) << " expected the value at its local position " << str(x));
      }
    }
  });
  c.desc = d;
  vf::nontrivial(Hash().add(c.desc).add(r.next()).h);
}

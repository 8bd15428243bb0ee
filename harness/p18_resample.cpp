// P18: resampling against a double-precision model of separable filtering.
#include "filt.h"
using namespace gen;
using namespace filt;

const char* vf_id() { return "P18"; }
void vf_init() { initIO(); Msg::setVerbosity(0); }

namespace {
template <class T> T val(Rng& r, int mode) {
  if (mode == 0) return rndVal<T>(r, ValSmall);
  if (mode == 1) return mkVal<T>(r.real(-8, 8));
  if (mode == 2) return mkVal<T>(r.real(20000, 60000));
  double big = sizeof(typename TT<T>::S) == 8 ? 1e300 : std::numeric_limits<float>::max();
  static const double f[] = {0, 1, -1, 0.5};
  switch (r.u(6)) {
    case 0: return mkVal<T>(big);
    case 1: return mkVal<T>(-big);
    case 2: return mkVal<T>(std::numeric_limits<float>::max());
    case 3: return mkVal<T>(-std::numeric_limits<float>::max());
    default: return mkVal<T>(f[r.u(4)]);
  }
}
struct Fl { int kind; double width, alpha; };
double evalF(const Fl& f, double d) {
  double t = d / f.width;
  if (f.kind == Gauss) return std::max(0.0, std::exp(-f.alpha * t * t) - std::exp(-f.alpha * f.width * f.width));
  return eval(f.kind, t);
}
double pos(int t, int src, int dst) { return (t + 0.5) * src / dst; }
Grid model(const Grid& s, const V3i& nr, const Fl& f, double widen) {
  Grid g = s;
  for (int a = 0; a < 3; a++) {
    int sr = s.res[a], n = nr[a];
    double unit = n > sr ? 1.0 : (double)sr / n;
    g = passEv(g, a, n, f.kind, 0.5 * f.width, unit, [&](double d) { return f.kind == Min || f.kind == Max ? (d / f.width <= 0.5 + widen ? 1.0 : 0.0) : evalF(f, d); },
               [&](int t) { return pos(t, sr, n); });
  }
  return g;
}
// reach of a target voxel in the source, for the range check
template <class F, class Filter> void one(Rng& r, std::string& d, const F& src, const Filter& flt, const Fl& fl, const V3i& nr, F& tgt, int mode) {
  typedef typename F::value_type T;
  std::string key = std::string("resample:") + nm(fl.kind);
  Grid s = toGrid<T>(src);
  typename F::Ptr before = field_dynamic_cast<F>(src.clone());
  V3d w0, w1;
  V3d q(r.real(-3, 9), r.real(-3, 9), r.real(-3, 9));
  const_cast<F&>(src).mapping()->voxelToWorld(q, w0);
  VF_CHECK(resample(src, tgt, nr, flt), key, "refused: window " << str(src.dataWindow()) << " to " << str(nr));
  const_cast<F&>(src).mapping()->voxelToWorld(q, w1);
  VF_CHECK(w0 == w1, "resample:source", "the source's mapping changed: " << str(q) << " was at " << str(w0) << " now " << str(w1));
  std::string e = fieldDiff<T>(&src, before.get());
  VF_CHECK(e.empty(), "resample:source", "the source changed: " << e);
  Box3i want(V3i(0), nr - V3i(1));
  VF_CHECK(tgt.extents() == want && tgt.dataWindow() == want, key, "windows " << str(tgt.extents()) << " " << str(tgt.dataWindow()) << " expected " << str(want));
  VF_CHECK(tgt.name == src.name && tgt.attribute == src.attribute, key, "name or attribute: " << tgt.name << " " << tgt.attribute);
  e = metaDiff(tgt.metadata(), const_cast<F&>(src).metadata());
  VF_CHECK(e.empty(), key, "metadata: " << e);
  // same world region
  if (src.extents() == src.dataWindow() && !field_dynamic_cast<NullFieldMapping>(const_cast<F&>(src).mapping()))
    for (int n = 0; n < 3; n++) {
      V3d a(r.real(0, 1), r.real(0, 1), r.real(0, 1)), b, c, x, y;
      float t = (float)r.real(-1, 2);
      for (int k = 0; k < 3; k++) { b[k] = a[k] * s.res[k]; c[k] = a[k] * nr[k]; }
      const_cast<F&>(src).mapping()->voxelToWorld(b, x, t);
      tgt.mapping()->voxelToWorld(c, y, t);
      VF_CHECK((x - y).length() <= 1e-6 * (1 + x.length()), "resample:mapping", "relative position " << str(a) << " at time " << t << " is at " << str(y) << " expected " << str(x));
      vf::count("positions");
    }
  // values
  Grid got = toGrid<T>(tgt);
  bool mm = fl.kind == Min || fl.kind == Max;
  Grid g = model(s, nr, fl, mm ? 1e-5 : 0), g2;
  if (mm) g2 = model(s, nr, fl, -1e-5);
  bool half_ = sizeof(typename TT<T>::S) == 2;
  double tol = (half_ ? 2e-3 : 3e-5) * (s.mx + 1e-6);
  std::vector<double> lo(s.nc, 1e300), hi(s.nc, -1e300);
  for (size_t k = 0; k < s.v.size(); k++) { lo[k % s.nc] = std::min(lo[k % s.nc], s.v[k]); hi[k % s.nc] = std::max(hi[k % s.nc], s.v[k]); }
  size_t nAmb = 0;
  for (int k = 0; k < nr.z; k++) for (int j = 0; j < nr.y; j++) for (int i = 0; i < nr.x; i++)
    for (int c = 0; c < s.nc; c++) {
      double v = got.at(i, j, k, c), w = g.at(i, j, k, c);
      if (mm) {
        double w2 = g2.at(i, j, k, c);
        VF_CHECK(v >= std::min(w, w2) && v <= std::max(w, w2), key, "voxel " << i << "," << j << "," << k << " component " << c << " is " << v << " expected " << w << " (or " << w2 << ")");
        continue;
      }
      if (fl.kind != Mitchell) VF_CHECK(v >= lo[c] - tol && v <= hi[c] + tol, key, "voxel " << i << "," << j << "," << k << " component " << c << " is " << v << ", outside the source's range " << lo[c] << ".." << hi[c]);
      if (g.amb[g.ix(i, j, k)]) { nAmb++; continue; }
      VF_CHECK(std::fabs(v - w) <= tol, key, "voxel " << i << "," << j << "," << k << " component " << c << " is " << v << " expected " << w << " (tolerance " << tol << ", width " << fl.width << ")");
    }
  vf::count("voxels", got.v.size());
  vf::count("border_voxels", nAmb);
  // interpolating filters keep the values at the same resolution
  if (nr == s.res && fl.width == 1 && (fl.kind == Box || fl.kind == Tri || mm)) {
    for (size_t k = 0; k < got.v.size(); k++) VF_CHECK(got.v[k] == s.v[k] || (fl.kind == Tri && std::fabs(got.v[k] - s.v[k]) <= tol), "resample:same", nm(fl.kind) << " at the same resolution: value " << got.v[k] << " was " << s.v[k]);
    vf::count("same_resolution");
  }
  if (got.v.size() > (size_t)s.nc) vf::nontrivial(Hash().add(d).add(r.next()).h);
}
template <class T, class Filter> void both(Rng& r, std::string& d, DenseField<T>& df, SparseField<T>& sf, const Filter& flt, const Fl& fl, const V3i& nr, int mode) {
  d += std::string(" ") + nm(fl.kind) + " width " + std::to_string(fl.width) + " to " + str(nr);
  vf::g_ctx->desc = d;
  // targets may have been used before
  typename DenseField<T>::Ptr a(new DenseField<T>);
  typename SparseField<T>::Ptr b(new SparseField<T>);
  if (r.chance(0.5)) {
    Box3i e, w;
    rndWindows(r, e, w, 6);
    a = mkDense<T>(r, e, w, ValSmall);
    b = mkSparse<T>(r, e, w, r.range(0, 4), ValSmall);
    if (r.chance(0.5)) { a->setSize(nr); b->setSize(nr); T j = rndVal<T>(r, ValSmall); a->clear(j); b->clear(j); }
    rndMetadata(r, a->metadata());
    rndMetadata(r, b->metadata());
    a->name = "old"; b->attribute = "old";
  }
  one(r, d, df, flt, fl, nr, *a, mode);
  one(r, d, sf, flt, fl, nr, *b, mode);
  Grid ga = toGrid<T>(*a), gb = toGrid<T>(*b);
  for (size_t k = 0; k < ga.v.size(); k++) VF_CHECK(ga.v[k] == gb.v[k] || std::fabs(ga.v[k] - gb.v[k]) <= 1e-7 * std::fabs(ga.v[k]), "resample:agree", "dense gives " << ga.v[k] << ", sparse " << gb.v[k]);
  vf::count("pairs");
}
}  // namespace

void vf_case(Ctx& c) {
  Rng& r = c.rng;
  int type = (int)r.u(6);
  std::string d = "t" + std::to_string(type) + " ";
  withType(type, [&](auto z) {
    typedef decltype(z) T;
    V3i rs, nr;
    int mr = r.chance(0.1) ? 40 : r.chance(0.5) ? 16 : 7;
    for (int a = 0; a < 3; a++) {
      rs[a] = r.range(1, mr);
      switch (r.u(4)) {
        case 0: nr[a] = rs[a]; break;
        case 1: nr[a] = std::max(1, rs[a] + (int)r.range(-2, 2)); break;
        default: nr[a] = r.range(1, mr);
      }
    }
    if (r.chance(0.15)) nr = rs;
    int kind = (int)r.u(N);
    int mode = (int)r.u(2);
    if (kind == Min || kind == Max) mode = (int)r.u(4);
    else if (r.chance(0.2)) mode = 2;
    Box3i w(V3i(0), rs - V3i(1)), e = w;
    if (r.chance(0.15)) {
      e.min -= V3i(r.u(3), r.u(3), r.u(3));
      e.max += V3i(r.u(3), r.u(3), r.u(3));
    }
    bool bad = r.chance(0.05);
    if (bad) { w.min[r.u(3)] = r.chance(0.5) ? -1 : 1; for (int a = 0; a < 3; a++) w.max[a] = std::max(w.max[a], w.min[a]); }
    typename DenseField<T>::Ptr df(new DenseField<T>);
    typename SparseField<T>::Ptr sf(new SparseField<T>);
    sf->setBlockOrder(r.range(0, 4));
    df->setSize(e, w);
    sf->setSize(e, w);
    T bg = r.chance(0.6) ? T(typename TT<T>::S(0)) : val<T>(r, mode);
    df->clear(bg);
    sf->clear(bg);
    int fm = (int)r.u(4);
    d += str(e) + " " + str(w) + " order " + std::to_string(sf->blockOrder()) + " fill " + std::to_string(fm) + " values " + std::to_string(mode);
    auto put = [&](int i, int j, int k) { T v = val<T>(r, mode); df->fastLValue(i, j, k) = v; sf->fastLValue(i, j, k) = v; };
    if (fm == 0) forBox(w, put);
    else if (fm == 1) forBox(rndSub(r, w), put);
    else if (fm == 2) for (int n = (int)r.u(6); n >= 0; n--) put(r.range(w.min.x, w.max.x), r.range(w.min.y, w.max.y), r.range(w.min.z, w.max.z));
    df->name = sf->name = rndName(r);
    df->attribute = sf->attribute = rndName(r);
    rndMetadata(r, df->metadata());
    sf->copyMetadata(*df);
    FieldMapping::Ptr map = rndMapping(r, (int)r.u(6));
    df->setMapping(map);
    sf->setMapping(map);
    if (bad) {
      DenseField<T> a;
      SparseField<T> b;
      VF_CHECK(!resample(*df, a, nr, BoxFilter()) && !resample(*sf, b, nr, BoxFilter()), "resample:refused", "source window " << str(w) << " not refused");
      vf::count("refused");
      return;
    }
    Fl fl = {kind, 1.0, 2.0};
    bool def = r.chance(0.5);
    if (!def) fl.width = r.range(4, 10) / 4.0;
    switch (kind) {
      case Box: both<T>(r, d, *df, *sf, BoxFilter((float)fl.width), fl, nr, mode); break;
      case Tri: both<T>(r, d, *df, *sf, TriangleFilter((float)fl.width), fl, nr, mode); break;
      case Gauss: fl.width = def ? 2 : r.range(4, 8) / 4.0; if (!def) fl.alpha = r.range(2, 12) / 4.0; both<T>(r, d, *df, *sf, GaussianFilter((float)fl.alpha, (float)fl.width), fl, nr, mode); break;
      case Mitchell: if (!def) fl.width = r.range(4, 6) / 4.0; both<T>(r, d, *df, *sf, MitchellFilter((float)fl.width), fl, nr, mode); break;
      case Min: both<T>(r, d, *df, *sf, MinFilter((float)fl.width), fl, nr, mode); break;
      default: both<T>(r, d, *df, *sf, MaxFilter((float)fl.width), fl, nr, mode);
    }
  });
  c.desc = d;
}

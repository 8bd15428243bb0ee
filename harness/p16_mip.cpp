// P16: generated resolution pyramids against a double-precision model of their definition.
#include "filt.h"
#include <Field3D/MIPUtil.h>
using namespace gen;
using namespace filt;

const char* vf_id() { return "P16"; }
void vf_init() { initIO(); Msg::setVerbosity(0); }

namespace {
template <class T> T val(Rng& r, int mode) {
  if (mode == 0) return rndVal<T>(r, ValSmall);
  return mkVal<T>(r.real(-8, 8));
}
int flo2(int a) { return (a - (a & 1)) / 2; }

// mapping of a random kind whose levels can be checked
FieldMapping::Ptr rndMap(Rng& r, int& kind) {
  kind = (int)r.u(5);
  if (kind == 0) return FieldMapping::Ptr(new NullFieldMapping);
  if (kind == 1) {
    FrustumFieldMapping::Ptr f(new FrustumFieldMapping);
    M44d a, b;
    rndFrustum(r, a, b);
    f->setTransforms(a, b);
    return f;
  }
  MatrixFieldMapping::Ptr m(new MatrixFieldMapping);
  if (kind == 2) { m->setLocalToWorld(rndMatrix(r)); return m; }
  std::vector<float> ts = rndTimes(r, kind == 3 ? 2 : 3);
  for (float t : ts) m->setLocalToWorld(t, rndMatrix(r));
  return m;
}
void checkMapping(Rng& r, int kind, FieldMapping::Ptr base, FieldMapping::Ptr lvl, const V3i& bres, const V3i& lres, const V3i& off, int L) {
  for (int q = 0; q < 4; q++) {
    V3d p, b;
    for (int a = 0; a < 3; a++) {
      p[a] = q == 0 ? 0.0 : q == 1 ? lres[a] : r.real(0, lres[a]);
      double o = std::floor((double)off[a] / (1 << L)) * (1 << L) - off[a];
      b[a] = p[a] * (1 << L) + o;
    }
    float t = q & 1 ? 0.0f : (float)r.real(-1, 2);
    V3d w0, w1, e0, e1;
    if (kind == 0) {
      // local space of the level is the level itself
      lvl->voxelToWorld(p, w1);
      for (int a = 0; a < 3; a++) w0[a] = p[a] / lres[a];
      VF_CHECK((w0 - w1).length() < 1e-6, "mip:mapping", "null mapping of level " << L << " maps " << str(p) << " to " << str(w1));
      continue;
    }
    if (kind == 1) {
      // perspective: each level spans the base's own frustum
      V3d l(p.x / lres.x, p.y / lres.y, p.z / lres.z);
      base->localToWorld(l, w0, t);
      lvl->voxelToWorld(p, w1, t);
      VF_CHECK((w0 - w1).length() <= 1e-6 * (1 + w0.length()), "mip:mapping", "frustum of level " << L << " maps " << str(p) << " to " << str(w1) << " expected " << str(w0));
      continue;
    }
    base->voxelToWorld(b, w0, t);
    lvl->voxelToWorld(p, w1, t);
    base->voxelToWorld(V3d(0), e0, t);
    base->voxelToWorld(V3d(bres), e1, t);
    double sc = (e0 - e1).length() + w0.length() + e0.length();
    // size of the axes at this time
    for (int a = 0; a < 3; a++) { V3d x(0), y; x[a] = bres[a]; base->voxelToWorld(x, y, t); sc += (y - e0).length(); }
    VF_CHECK((w0 - w1).length() <= 3e-5 * sc, "mip:mapping", "level " << L << " voxel position " << str(p) << " is at " << str(w1) << " expected " << str(w0) << " (time " << t << ", offset " << str(off) << ", res " << str(bres) << ")");
  }
  vf::count("mapping_levels");
}
std::string cmpLevel(const Grid& want, const Grid& got, double tol) {
  if (want.res != got.res) return "resolution " + str(got.res) + " expected " + str(want.res);
  for (int k = 0; k < want.res.z; k++) for (int j = 0; j < want.res.y; j++) for (int i = 0; i < want.res.x; i++)
    for (int c = 0; c < want.nc; c++) {
      double a = got.at(i, j, k, c), b = want.at(i, j, k, c);
      if (!(std::fabs(a - b) <= tol)) { std::ostringstream o; o << "voxel " << i << "," << j << "," << k << " component " << c << " is " << a << " expected " << b << " (tolerance " << tol << ")"; return o.str(); }
    }
  return "";
}

template <class T, class M, class Filter> typename M::Ptr go(Rng& r, std::string& d, const typename M::NestedType& src, int minSize, bool useOff, V3i off, int mapKind) {
  enum { K = KindOf<Filter>::k };
  int nt = r.range(1, 4);
  typename M::Ptr m = useOff ? makeMIP<M, Filter>(src, minSize, off, nt) : makeMIP<M, Filter>(src, minSize, nt);
  if (!useOff) off = V3i(0);
  std::string key = std::string("mip:") + nm(K);
  VF_CHECK(m, key, "no result");
  V3i bres = res(src.dataWindow());
  // expected levels
  std::vector<Grid> lv;
  lv.push_back(toGrid<T>(src));
  V3i o = off;
  while (true) {
    V3i cr = lv.back().res;
    if (!((cr.x > minSize || cr.y > minSize || cr.z > minSize) && cr.x > 2 && cr.y > 2 && cr.z > 2)) break;
    size_t L = lv.size();
    VF_CHECK(m->numLevels() > L, key, "only " << m->numLevels() << " levels, expected more (level " << L - 1 << " is " << str(cr) << ", minimum " << minSize << ")");
    // the next level is computed from the library's own finer level, so that rounding does not accumulate
    Grid fin = toGrid<T>(*m->mipLevel(L - 1));
    Grid g = fin;
    for (int a = 0; a < 3; a++) {
      int add = o[a] & 1;
      int n = (cr[a] + add + 1) / 2;
      g = pass(g, a, n, K, 2.0, [&](int t) { return (t + 0.5) * 2 - add; });
    }
    Grid got = toGrid<T>(*m->mipLevel(L));
    std::string s = cmpLevel(g, got, tol<T>() * (fin.mx + 1e-3));
    VF_CHECK(s.empty(), key, "level " << L << " (from " << str(cr) << ", offset " << str(o) << "): " << s);
    VF_CHECK(m->mipLevel(L)->extents() == m->mipLevel(L)->dataWindow() && m->mipLevel(L)->dataWindow().min == V3i(0), key, "level " << L << " windows " << str(m->mipLevel(L)->extents()) << " " << str(m->mipLevel(L)->dataWindow()));
    if (K == Box || K == Tri || K == Gauss || K == Min || K == Max) {
      // stays within the finer level's range
      for (int c = 0; c < fin.nc; c++) {
        double lo = 1e300, hi = -1e300, t = tol<T>() * fin.mx;
        for (size_t q = c; q < fin.v.size(); q += fin.nc) { lo = std::min(lo, fin.v[q]); hi = std::max(hi, fin.v[q]); }
        for (size_t q = c; q < got.v.size(); q += got.nc) VF_CHECK(got.v[q] >= lo - t && got.v[q] <= hi + t, key, "level " << L << " value " << got.v[q] << " leaves the range " << lo << ".." << hi << " of the finer level");
      }
    }
    for (int a = 0; a < 3; a++) o[a] = flo2(o[a]);
    lv.push_back(got);
    vf::count("levels");
  }
  VF_CHECK(m->numLevels() == lv.size(), key, m->numLevels() << " levels, expected " << lv.size());
  // the finest level is the source
  std::string s = fieldDiff<T>(m->mipLevel(0).get(), &src);
  VF_CHECK(s.empty(), key, "finest level differs from the source: " << s);
  for (size_t L = 0; L < lv.size(); L++) {
    VF_CHECK(m->mipResolution(L) == lv[L].res, key, "reported resolution " << str(m->mipResolution(L)) << " of level " << L << " is " << str(lv[L].res));
    checkMapping(r, mapKind, const_cast<typename M::NestedType&>(src).mapping(), m->mipLevel(L)->mapping(), bres, lv[L].res, off, (int)L);
  }
  VF_CHECK(m->name == src.name && m->attribute == src.attribute, key, "name " << m->name << " attribute " << m->attribute);
  VF_CHECK(m->mipOffset() == off, key, "offset " << str(m->mipOffset()) << " expected " << str(off));
  typename M::NestedType::Ptr ref = field_dynamic_cast<typename M::NestedType>(src.clone());
  FieldMetadata &a = m->metadata(), &b = ref->metadata();
  b.setVecIntMetadata("mipoffset", off);
  a.setVecIntMetadata("mipoffset", off);
  s = metaDiff(a, b);
  VF_CHECK(s.empty(), key, "metadata: " << s);
  s = windowDiff(*m, src);
  VF_CHECK(s.empty(), key, "windows of the result: " << s);
  if (lv.size() > 1) vf::nontrivial(Hash().add(d).add(r.next()).h);
  return m;
}
template <class T, class MA, class MB> void agree(const char* key, const MA& a, const MB& b) {
  VF_CHECK(a.numLevels() == b.numLevels(), key, "dense " << a.numLevels() << " levels, sparse " << b.numLevels());
  for (size_t L = 0; L < a.numLevels(); L++) {
    Grid ga = toGrid<T>(*a.mipLevel(L)), gb = toGrid<T>(*b.mipLevel(L));
    std::string s = cmpLevel(ga, gb, 1e-7 * (1 + ga.mx));
    VF_CHECK(s.empty(), key, "level " << L << ": " << s);
  }
  vf::count("dense_sparse_pairs");
}
template <class T, class Filter> void both(Rng& r, std::string& d, DenseField<T>& df, SparseField<T>& sf, int mk) {
  typedef MIPDenseField<T> MD;
  typedef MIPSparseField<T> MS;
  V3i rs = res(df.dataWindow());
  int minSize = r.range(1, std::max(rs.x, std::max(rs.y, rs.z)));
  if (r.chance(0.6)) minSize = r.range(1, 4);
  bool useOff = r.chance(0.6);
  V3i off(r.range(-9, 9), r.range(-9, 9), r.range(-9, 9));
  d += " min " + std::to_string(minSize) + " off " + (useOff ? str(off) : "-") + " " + nm(KindOf<Filter>::k);
  vf::g_ctx->desc = d;
  typename MD::Ptr a = go<T, MD, Filter>(r, d, df, minSize, useOff, off, mk);
  typename MS::Ptr b = go<T, MS, Filter>(r, d, sf, minSize, useOff, off, mk);
  agree<T>("mip:agree", *a, *b);
}
}  // namespace

void vf_case(Ctx& c) {
  Rng& r = c.rng;

  int type = (int)r.u(6);
  std::string d = "t" + std::to_string(type) + " ";
  withType(type, [&](auto z) {
    typedef decltype(z) T;
    V3i rs;
    int mr = r.chance(0.15) ? 40 : r.chance(0.5) ? 18 : 9;
    for (int a = 0; a < 3; a++) rs[a] = r.range(1, mr);
    if (r.chance(0.2)) rs[r.u(3)] = r.range(1, 3);
    typename DenseField<T>::Ptr df(new DenseField<T>);
    typename SparseField<T>::Ptr sf(new SparseField<T>);
    int order = r.range(0, 4);
    sf->setBlockOrder(order);
    df->setSize(rs);
    sf->setSize(rs);
    T bg = r.chance(0.6) ? T(typename TT<T>::S(0)) : rndVal<T>(r, ValSmall);
    df->clear(bg);
    sf->clear(bg);
    Box3i w = df->dataWindow();
    int fm = (int)r.u(5), vm = (int)r.u(2);
    d += str(rs) + " order " + std::to_string(order) + " fill " + std::to_string(fm);
    auto put = [&](int i, int j, int k, const T& v) { df->fastLValue(i, j, k) = v; sf->fastLValue(i, j, k) = v; };
    if (fm == 0) forBox(w, [&](int i, int j, int k) { put(i, j, k, val<T>(r, vm)); });
    else if (fm == 1) {  // few voxels
      for (int n = (int)r.u(6); n >= 0; n--) put(r.range(0, rs.x - 1), r.range(0, rs.y - 1), r.range(0, rs.z - 1), val<T>(r, vm));
    } else if (fm == 2) {  // a box
      Box3i b = rndSub(r, w);
      forBox(b, [&](int i, int j, int k) { put(i, j, k, val<T>(r, vm)); });
    } else if (fm == 3) {  // values cancelling to zero
      forBox(w, [&](int i, int j, int k) { put(i, j, k, (i + j + k) & 1 ? T(typename TT<T>::S(1)) : T(typename TT<T>::S(-1))); });
    }  // else constant
    df->name = sf->name = rndName(r);
    df->attribute = sf->attribute = rndName(r);
    rndMetadata(r, df->metadata());
    sf->copyMetadata(*df);
    int mk;
    FieldMapping::Ptr map = rndMap(r, mk);
    df->setMapping(map);
    sf->setMapping(map);
    switch (r.u(6)) {
      case 0: both<T, BoxFilter>(r, d, *df, *sf, mk); break;
      case 1: both<T, TriangleFilter>(r, d, *df, *sf, mk); break;
      case 2: both<T, GaussianFilter>(r, d, *df, *sf, mk); break;
      case 3: both<T, MitchellFilter>(r, d, *df, *sf, mk); break;
      case 4: both<T, MinFilter>(r, d, *df, *sf, mk); break;
      default: both<T, MaxFilter>(r, d, *df, *sf, mk);
    }
    // the voxel offset of a field is where the world's origin lies
    if (mk >= 2) {
      V3d o;
      df->mapping()->worldToVoxel(V3d(0), o);
      V3i off = computeOffset(*df);
      for (int a = 0; a < 3; a++)
        if (std::fabs(o[a]) < 1e6) VF_CHECK(std::fabs(off[a] + o[a]) <= 0.5 + 1e-6, "mip:offset", "offset " << str(off) << " of a field with the world origin at voxel " << str(o));
    }
    // fields whose data window is not their extents, or does not start at zero, are refused
    if (r.chance(0.1)) {
      Box3i e, q;
      rndWindows(r, e, q, 6);
      if (r.chance(0.5)) q = e;
      if (e != q || q.min != V3i(0)) {
        typename DenseField<T>::Ptr bad = mkDense<T>(r, e, q, ValSmall);
        typename SparseField<T>::Ptr bads = mkSparse<T>(r, e, q, order, ValSmall);
        VF_CHECK((!makeMIP<MIPDenseField<T>, BoxFilter>(*bad, 1, 2)) && (!makeMIP<MIPSparseField<T>, BoxFilter>(*bads, 1, 2)), "mip:refused", "pyramid of extents " << str(e) << " window " << str(q) << " not refused");
        vf::count("refused");
      }
    }
  });
  c.desc = d;
}

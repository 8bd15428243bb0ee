// P23: min/max companions bound every source voxel, at every level, and are attained.
#include "filt.h"
#include <Field3D/MinMaxUtil.h>
#include <set>
using namespace gen;
using namespace filt;

const char* vf_id() { return "P23"; }
void vf_init() { initIO(); Msg::setVerbosity(0); }

namespace {
template <class T> T val(Rng& r, int mode) {
  if (mode == 0) return rndVal<T>(r, ValSmall);
  if (mode == 1) return mkVal<T>(r.real(-8, 8));
  if (mode == 2) return mkVal<T>(r.real(2, 9));
  double big = sizeof(typename TT<T>::S) == 8 ? 1e300 : std::numeric_limits<float>::max();
  switch (r.u(6)) {
    case 0: return mkVal<T>(big);
    case 1: return mkVal<T>(-big);
    case 2: return mkVal<T>(std::numeric_limits<float>::max());
    case 3: return mkVal<T>(-std::numeric_limits<float>::max());
    default: return mkVal<T>(r.range(-3, 3));
  }
}
// value of each voxel within what the samples certainly / possibly inside its footprint give
void bracket(const char* key, const std::string& where, const Grid& got, const Grid& sup, const Grid& sub) {
  VF_CHECK(got.res == sup.res, key, where << ": resolution " << str(got.res) << " expected " << str(sup.res));
  for (size_t q = 0; q < got.v.size(); q++) {
    double lo = std::min(sup.v[q], sub.v[q]), hi = std::max(sup.v[q], sub.v[q]);
    VF_CHECK(got.v[q] >= lo && got.v[q] <= hi, key, where << ": value " << got.v[q] << " of voxel number " << q / got.nc << " expected " << lo << (lo != hi ? " to " + std::to_string(hi) : ""));
  }
}
Grid step(const Grid& s, int axis, int n, int kind, double unit, double widen, double ratio) {
  return passEv(s, axis, n, kind, 0.5, unit, [&](double d) { return d <= 0.5 + widen ? 1.0 : 0.0; }, [&](int t) { return (t + 0.5) * ratio; });
}
template <class T, class M> void check(Rng& r, const std::string& d, const typename M::NestedType& src, typename M::Ptr m, int kind, double mult) {
  const char* key = kind == Min ? "minmax:min" : "minmax:max";
  VF_CHECK(m, key, "no result");
  Grid s = toGrid<T>(src);
  Box3i w = src.dataWindow();
  V3i r0 = m->mipResolution(0);
  for (int a = 0; a < 3; a++) {
    double x = s.res[a] * std::min(1.0, mult);
    int lo = std::max(2, (int)std::floor(x - 1e-3)), hi = std::max(2, (int)std::floor(x + 1e-3));
    VF_CHECK(r0[a] >= lo && r0[a] <= hi, key, "finest resolution " << str(r0) << " for source " << str(s.res) << " times " << mult);
  }
  // finest level
  Grid g[2];
  for (int q = 0; q < 2; q++) {
    g[q] = s;
    for (int a = 0; a < 3; a++) {
      double ratio = (double)s.res[a] / r0[a];
      g[q] = step(g[q], a, r0[a], kind, std::max(1.0, ratio), q ? -1e-5 : 1e-5, ratio);
    }
  }
  std::vector<std::set<double> > have(s.nc);
  for (size_t q = 0; q < s.v.size(); q++) have[q % s.nc].insert(s.v[q]);
  Grid fin;
  bool odd = false;
  for (size_t L = 0; L < m->numLevels(); L++) {
    typename M::NestedType::Ptr lv = field_dynamic_cast<typename M::NestedType>(m->mipLevel(L)->clone());
    VF_CHECK(lv, key, "level " << L << " missing");
    Grid got = toGrid<T>(*lv);
    std::string at = "level " + std::to_string(L);
    if (L) {
      for (int q = 0; q < 2; q++) {
        g[q] = fin;
        for (int a = 0; a < 3; a++) g[q] = step(g[q], a, (fin.res[a] + 1) / 2, kind, 2, q ? -1e-5 : 1e-5, 2);
      }
    }
    bracket(key, at, got, g[0], g[1]);
    for (size_t q = 0; q < got.v.size(); q++)
      VF_CHECK(have[q % s.nc].count(got.v[q]), "minmax:attained", at << ": value " << got.v[q] << " is no value of the source");
    // every source voxel lies within the bounds found at its centre
    FieldMapping::Ptr sm = const_cast<typename M::NestedType&>(src).mapping(), lm = lv->mapping();
    bool null = (bool)field_dynamic_cast<NullFieldMapping>(sm);
    double t = r.chance(0.5) ? 0 : r.real(-1, 2);
    FrustumFieldMapping::Ptr ff = field_dynamic_cast<FrustumFieldMapping>(sm);
    if (ff && ff->screenToWorldSamples().size()) t = r.pick(ff->screenToWorldSamples()).first;  // in between, two frusta blend to something that is none
    for (int a = 0; a < 3; a++) odd = odd || (L && (fin.res[a] & 1));
    bool reported = false, finding = (ff || null) && odd;
    if (finding) vf::count("unaligned_levels");
    forBox(w, [&](int i, int j, int k) {
      V3d c(i + 0.5, j + 0.5, k + 0.5), p, v;
      if (null) for (int a = 0; a < 3; a++) v[a] = c[a] / s.res[a] * got.res[a];
      else { sm->voxelToWorld(c, p, (float)t); lm->worldToVoxel(p, v, (float)t); }
      int lo[3], hi[3];
      for (int a = 0; a < 3; a++) {
        double e = 1e-4 * (1 + std::fabs(v[a]));
        VF_CHECK(v[a] > -e && v[a] < got.res[a] + e, "minmax:covers", at << " of resolution " << str(got.res) << " does not cover voxel " << i << "," << j << "," << k << " of " << str(s.res) << ": it is at " << str(v));
        lo[a] = std::max(0, std::min(got.res[a] - 1, (int)std::floor(v[a] - e)));
        hi[a] = std::max(0, std::min(got.res[a] - 1, (int)std::floor(v[a] + e)));
      }
      T x = src.value(i, j, k);
      for (int q = 0; q < s.nc; q++) {
        double y = comp(x, q);
        auto within = [&](int pad) {
          for (int kk = std::max(0, lo[2] - pad); kk <= std::min(got.res.z - 1, hi[2] + pad); kk++)
            for (int jj = std::max(0, lo[1] - pad); jj <= std::min(got.res.y - 1, hi[1] + pad); jj++)
              for (int ii = std::max(0, lo[0] - pad); ii <= std::min(got.res.x - 1, hi[0] + pad); ii++)
                if (kind == Min ? got.at(ii, jj, kk, q) <= y : got.at(ii, jj, kk, q) >= y) return true;
          return false;
        };
        if (!within(finding ? 1 : 0)) VF_CHECK(false, "minmax:bound", at << " (" << nm(kind) << ") at voxel " << i << "," << j << "," << k << " of " << str(s.res) << " component " << q << " is " << got.at(lo[0], lo[1], lo[2], q) << ", the source has " << y);
        if (finding && !reported && !within(0)) {
          reported = true;
          vf::failSoft("minmax:bound-unaligned-levels", at + " of a field with a frustum or null mapping is not aligned with the source and does not bound it everywhere");
        }
      }
    });
    vf::count("levels");
    vf::count("voxels_bounded", s.v.size());
    fin = got;
  }
  VF_CHECK(m->name == src.name && m->attribute == src.attribute, "minmax:names", "name " << m->name << " attribute " << m->attribute);
  if (s.v.size() > 8) vf::nontrivial(Hash().add(d).add(r.next()).h);
}
template <class T, class M, class F> void run(Rng& r, const std::string& d, typename F::Ptr f, double mult) {
  typename F::Ptr before = field_dynamic_cast<F>(f->clone());
  int nt = r.range(1, 4);
  std::pair<typename M::Ptr, typename M::Ptr> p;
  if (r.chance(0.3)) {  // as the finest level of a pyramid
    typename M::Ptr mip = makeMIP<M, BoxFilter>(*f, 2, nt);
    VF_CHECK(mip, "minmax:mip", "no pyramid");
    p = makeMinMax<M>(*mip->concreteMipLevel(0), (float)mult, nt);
    vf::count("from_pyramids");
  } else p = makeMinMax<M>(*f, (float)mult, nt);
  std::string e = fieldDiff<T>(f.get(), before.get());
  VF_CHECK(e.empty(), "minmax:source", "the source changed: " << e);
  check<T, M>(r, d, *f, p.first, Min, mult);
  check<T, M>(r, d, *f, p.second, Max, mult);
  VF_CHECK(p.first->numLevels() == p.second->numLevels(), "minmax:levels", p.first->numLevels() << " and " << p.second->numLevels() << " levels");
}
}  // namespace

void vf_case(Ctx& c) {
  Rng& r = c.rng;
  int type = (int)r.u(6);
  std::string d = "t" + std::to_string(type) + " ";
  withType(type, [&](auto z) {
    typedef decltype(z) T;
    V3i rs;
    int mr = r.chance(0.1) ? 36 : r.chance(0.5) ? 16 : 8;
    for (int a = 0; a < 3; a++) rs[a] = r.range(1, mr);
    Box3i w(V3i(0), rs - V3i(1)), e = w;
    int mode = (int)r.u(4);
    bool bad = r.chance(0.06);
    if (bad) {
      rndWindows(r, e, w, 8);
      if (r.chance(0.4)) e = w;
      if (e == w && w.min == V3i(0)) return;
    }
    typename DenseField<T>::Ptr df(new DenseField<T>);
    typename SparseField<T>::Ptr sf(new SparseField<T>);
    sf->setBlockOrder(r.range(0, 4));
    df->setSize(e, w);
    sf->setSize(e, w);
    T bg = r.chance(0.4) ? T(typename TT<T>::S(0)) : val<T>(r, mode);
    df->clear(bg);
    sf->clear(bg);
    int fm = (int)r.u(4);
    auto put = [&](int i, int j, int k) { T v = val<T>(r, mode); df->fastLValue(i, j, k) = v; sf->fastLValue(i, j, k) = v; };
    if (fm == 0) forBox(w, put);
    else if (fm == 1) forBox(rndSub(r, w), put);
    else if (fm == 2) for (int n = (int)r.u(6); n >= 0; n--) put(r.range(w.min.x, w.max.x), r.range(w.min.y, w.max.y), r.range(w.min.z, w.max.z));
    df->name = sf->name = rndName(r);
    df->attribute = sf->attribute = rndName(r);
    FieldMapping::Ptr map = rndMapping(r, (int)r.u(6));
    df->setMapping(map);
    sf->setMapping(map);
    double mult = r.chance(0.3) ? r.range(1, 8) / 8.0 : r.chance(0.2) ? r.real(1, 3) : r.real(0.02, 1);
    d += str(e) + " " + str(w) + " order " + std::to_string(sf->blockOrder()) + " fill " + std::to_string(fm) + " values " + std::to_string(mode) + " times " + std::to_string(mult);
    c.desc = d;
    if (bad) {
      auto p = makeMinMax<MIPDenseField<T> >(*df, (float)mult, 2);
      auto q = makeMinMax<MIPSparseField<T> >(*sf, (float)mult, 2);
      VF_CHECK(!p.first && !p.second && !q.first && !q.second, "minmax:refused", "extents " << str(e) << " window " << str(w) << " not refused");
      vf::count("refused");
      return;
    }
    if (r.chance(0.5)) run<T, MIPDenseField<T>, DenseField<T> >(r, d + " dense", df, mult);
    else run<T, MIPSparseField<T>, SparseField<T> >(r, d + " sparse", sf, mult);
  });
  c.desc = d;
}

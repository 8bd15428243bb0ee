// P07: every multi-threaded operation terminates and gives bit-identical results for every thread count.
#include "gen.h"
#include "par.h"
#include <Field3D/MIPUtil.h>
#include <Field3D/MinMaxUtil.h>
#include <fstream>
using namespace gen;

const char* vf_id() { return "P07"; }
void vf_init() { initIO(); Msg::setVerbosity(0); vf::setCaseTimeout(100); }

namespace {
SparseFileManager& mgr() { return SparseFileManager::singleton(); }
std::string slurp(const std::string& p) {
  std::ifstream f(p.c_str(), std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
struct Limit {
  Limit(Rng& r) {
    static const double f[] = {0.0, 0.0001, 0.001, 0.01, 1, 1000};
    mgr().setLimitMemUse(true);
    mgr().setMaxMemUse((float)f[r.u(6)]);
  }
  ~Limit() { mgr().setLimitMemUse(false); mgr().setMaxMemUse(1000); setNumIOThreads(1); }
};
std::vector<int> counts(Rng& r) {
  std::vector<int> v{1};
  for (int n = r.range(1, 2); n-- > 0;) v.push_back(r.chance(0.1) ? r.range(9, 40) : r.chance(0.05) ? 0 : r.range(2, 8));
  return v;
}
int delay(Rng& r) { static const int d[] = {0, 0, 1, 4, 12}; return d[r.u(5)]; }

template <class T> typename SparseField<T>::Ptr rndSparse(Rng& r, std::ostream& d, bool origin) {
  int order = r.range(0, 4);
  if (r.chance(0.4)) order = r.range(1, 2);
  int mx = order < 2 ? 13 : order < 3 ? 22 : 34;
  Box3i ext, dw;
  rndWindows(r, ext, dw, mx, 7);
  if (origin) { dw = Box3i(V3i(0), dw.max - dw.min); ext = dw; }
  double dens = r.chance(0.3) ? 1.0 : r.chance(0.2) ? 0.03 : r.f01();
  ValMode m = origin ? ValSmall : (r.chance(0.5) ? ValSpecial : ValSmall);
  typename SparseField<T>::Ptr f = mkSparse<T>(r, ext, dw, order, m, (SparseModel<T>*)0, dens);
  f->name = "part";
  f->attribute = "lay";
  d << kindName(1) << " " << TT<T>::nm() << " " << str(dw) << " order " << order << " density " << dens;
  return f;
}
template <class T> void saveOnce(vf::Ctx& c, const std::string& p, typename Field<T>::Ptr f, bool og) {
  Field3DOutputFile out;
  Field3DOutputFile::useOgawa(og);
  VF_CHECK(out.create(p), "create", "create failed");
  VF_CHECK(IO<T>::write(out, f), "write", "writing a field failed");
  VF_CHECK(out.close(), "close", "close failed");
}
template <class T> typename SparseField<T>::Ptr loadSparse(vf::Ctx& c, const std::string& p) {
  Field3DInputFile in;
  VF_CHECK(in.open(p), "open", "open failed");
  typename Field<T>::Vec v = IO<T>::read(in);
  VF_CHECK(v.size() == 1 && v[0], "read", "expected one field, got " << v.size());
  typename SparseField<T>::Ptr s = field_dynamic_cast<SparseField<T> >(v[0]);
  VF_CHECK(s, "read-class", "read back as " << v[0]->className());
  return s;
}

template <class T> void fileCase(vf::Ctx& c, std::ostream& d) {
  Rng& r = c.rng;
  typename SparseField<T>::Ptr src = rndSparse<T>(r, d, false);
  typename SparseField<T>::Ptr f = src;
  bool dynamic = r.chance(0.35);
  std::unique_ptr<Limit> lim;
  bool ogSrc = r.chance(0.7);
  if (dynamic) {
    d << " on-demand source (" << (ogSrc ? "Ogawa" : "HDF5") << ")";
    saveOnce<T>(c, c.path("src.f3d"), src, ogSrc);
    lim.reset(new Limit(r));
    f = loadSparse<T>(c, c.path("src.f3d"));
    VF_CHECK(f->isDynamicLoad() || vox(f->dataWindow()) == 0, "dynamic", "the source is not on demand");
  }
  std::vector<int> n = counts(r);
  std::string first;
  for (size_t i = 0; i < n.size(); i++) {
    d << " w" << n[i];
    std::string p = c.path("w" + std::to_string(i) + ".f3d");
    setNumIOThreads(n[i]);
    {
      par::Workers w(c, delay(r));
      saveOnce<T>(c, p, f, true);
    }
    vf::count("threaded_writes", 1);
    std::string s = slurp(p);
    vf::count("file_bytes_compared", s.size());
    if (i == 0) first = s;
    else if (s != first) {
      size_t k = 0;
      while (k < s.size() && k < first.size() && s[k] == first[k]) k++;
      vf::fail("write-differs", "file written by " + std::to_string(n[i]) + " threads differs from the one written by 1 at byte " + std::to_string(k) + " (sizes " + std::to_string(s.size()) + ", " + std::to_string(first.size()) + ")");
    }
  }
  f.reset();
  lim.reset();
  std::vector<int> m = counts(r);
  for (size_t i = 0; i < m.size(); i++) {
    d << " r" << m[i];
    setNumIOThreads(m[i]);
    typename SparseField<T>::Ptr g;
    {
      par::Workers w(c, delay(r));
      g = loadSparse<T>(c, c.path("w0.f3d"));
    }
    setNumIOThreads(1);
    vf::count("threaded_reads", 1);
    VF_CHECK(!g->isDynamicLoad(), "still-dynamic", "field is on demand although memory isn't limited");
    std::string s = fullDiff<T>(src.get(), g.get());
    VF_CHECK(s.empty(), "read-differs", "field read by " << m[i] << " threads: " << s);
  }
  if (!r.chance(0.3)) return;
  // a damaged file fails, or gives the same field, with any number of threads
  std::string img = slurp(c.path("w0.f3d")), bad = c.path("bad.f3d");
  if (img.size() < 40) return;
  for (int k = r.range(1, 2); k > 0; k--) {
    size_t at = 16 + r.u(img.size() - 16);
    std::string x = img;
    x[at] ^= (char)(1 << r.u(8));
    typename Field<T>::Vec ref;
    bool refOk = false;
    for (size_t i = 0; i < m.size(); i++) {
      setNumIOThreads(m[i]);
      typename Field<T>::Vec v;
      bool ok = false;
      try {
        // (a name of its own: fields in memory are shared)
        std::string fn = bad + std::to_string(k * 10 + i);
        { std::ofstream o(fn, std::ios::binary); o << x; }
        Field3DInputFile in;
        if (in.open(fn)) { v = IO<T>::read(in); ok = !v.empty(); }
      } catch (std::exception&) { ok = false; }
      unlink((bad + std::to_string(k * 10 + i)).c_str());
      setNumIOThreads(1);
      vf::count(ok ? "damaged_reads_fine" : "damaged_reads_failed");
      if (i == 0) { ref = v; refOk = ok; continue; }
      VF_CHECK(ok == refOk, "damaged-outcome", "a file with byte " << at << " of " << img.size() << " damaged " << (ok ? "can" : "can't") << " be read by " << m[i] << " threads, but " << (refOk ? "can" : "can't") << " by " << m[0]);
      if (!ok) continue;
      VF_CHECK(v.size() == ref.size(), "damaged-differs", "a damaged file gives " << v.size() << " fields with " << m[i] << " threads, " << ref.size() << " with " << m[0]);
      for (size_t q = 0; q < v.size(); q++) {
        std::string e = fullDiff<T>(ref[q].get(), v[q].get());
        VF_CHECK(e.empty(), "damaged-differs", "a file with byte " << at << " damaged gives different fields with " << m[i] << " and " << m[0] << " threads: " << e);
      }
    }
  }
}

template <class M, class Filter> typename M::Ptr mip(const typename M::NestedType& f, int minSize, const V3i& off, int n) {
  return makeMIP<M, Filter>(f, minSize, off, n);
}
template <class M> typename M::Ptr mipBy(int filter, const typename M::NestedType& f, int minSize, const V3i& off, int n) {
  switch (filter) {
  case 0: return mip<M, BoxFilter>(f, minSize, off, n);
  case 1: return mip<M, MinFilter>(f, minSize, off, n);
  case 2: return mip<M, MaxFilter>(f, minSize, off, n);
  case 3: return mip<M, TriangleFilter>(f, minSize, off, n);
  default: return mip<M, GaussianFilter>(f, minSize, off, n);
  }
}
template <class M> void levelsCase(vf::Ctx& c, std::ostream& d, typename M::NestedType::Ptr f, bool minmax) {
  typedef typename M::value_type T;
  Rng& r = c.rng;
  std::vector<int> n = counts(r);
  int filter = r.u(5), minSize = r.range(1, 5);
  V3i off(r.range(-3, 3), r.range(-3, 3), r.range(-3, 3));
  float mult = r.chance(0.5) ? 0.5f : 1.0f;
  typename M::Ptr first[2];
  if (minmax) d << " minmax*" << mult;
  else d << " mip filter " << filter << " min " << minSize << " offset " << str(off);
  for (size_t i = 0; i < n.size(); i++) {
    d << " t" << n[i];
    typename M::Ptr q[2];
    {
      par::Workers w(c, delay(r));
      if (minmax) { std::pair<typename M::Ptr, typename M::Ptr> p = makeMinMax<M>(*f, mult, n[i]); q[0] = p.first; q[1] = p.second; }
      else q[0] = mipBy<M>(filter, *f, minSize, off, n[i]);
    }
    for (int k = 0; k <= (int)minmax; k++) {
      VF_CHECK(q[k], "null-result", "no result with " << n[i] << " threads");
      vf::count("threaded_levels", q[k]->numLevels());
      if (i == 0) { first[k] = q[k]; continue; }
      std::string s;
      if (first[k]->numLevels() != q[k]->numLevels()) s = "level count";
      for (size_t l = 0; s.empty() && l < q[k]->numLevels(); l++) {
        s = fieldDiff<T>(first[k]->concreteMipLevel(l).get(), q[k]->concreteMipLevel(l).get());
        if (s.empty()) s = mappingDiff(first[k]->concreteMipLevel(l)->mapping(), q[k]->concreteMipLevel(l)->mapping());
        if (s.size()) s = "level " + std::to_string(l) + " " + s;
      }
      if (s.empty()) s = metaDiff(first[k]->metadata(), q[k]->metadata());
      VF_CHECK(s.empty(), minmax ? "minmax-differs" : "mip-differs", n[i] << " threads differ from 1: " << s);
    }
  }
}
template <class T> void genCase(vf::Ctx& c, std::ostream& d, bool minmax) {
  Rng& r = c.rng;
  if (r.chance(0.35)) {
    Box3i b = rndBox(r, 24, 0);
    b = Box3i(V3i(0), b.max - b.min);
    typename DenseField<T>::Ptr f = mkDense<T>(r, b, b, ValSmall);
    d << "dense " << TT<T>::nm() << " " << str(b);
    f->setMapping(rndMapping(r, r.u(3)));
    levelsCase<MIPField<DenseField<T> > >(c, d, f, minmax);
    return;
  }
  typename SparseField<T>::Ptr f = rndSparse<T>(r, d, true);
  f->setMapping(rndMapping(r, r.u(3)));
  std::unique_ptr<Limit> lim;
  if (r.chance(0.3)) {
    bool og = r.chance(0.6);
    d << " on demand (" << (og ? "Ogawa" : "HDF5") << ")";
    saveOnce<T>(c, c.path("src.f3d"), f, og);
    lim.reset(new Limit(r));
    f = loadSparse<T>(c, c.path("src.f3d"));
  }
  levelsCase<MIPField<SparseField<T> > >(c, d, f, minmax);
}
// a pyramid written and read by several threads
template <class T> void mipFileCase(vf::Ctx& c, std::ostream& d) {
  typedef MIPField<SparseField<T> > M;
  Rng& r = c.rng;
  typename SparseField<T>::Ptr f = rndSparse<T>(r, d, true);
  typename M::Ptr m = makeMIP<M, BoxFilter>(*f, r.range(1, 3), r.range(1, 4));
  VF_CHECK(m, "null-result", "no pyramid");
  m->name = "part";
  m->attribute = "lay";
  d << " pyramid of " << m->numLevels();
  std::vector<int> n = counts(r);
  std::string first;
  for (size_t i = 0; i < n.size(); i++) {
    d << " w" << n[i];
    std::string p = c.path("w" + std::to_string(i) + ".f3d");
    setNumIOThreads(n[i]);
    {
      par::Workers w(c, delay(r));
      saveOnce<T>(c, p, m, true);
    }
    vf::count("threaded_writes", m->numLevels());
    std::string s = slurp(p);
    vf::count("file_bytes_compared", s.size());
    if (i == 0) first = s;
    VF_CHECK(s == first, "write-differs", "pyramid written by " << n[i] << " threads differs");
  }
  int k = r.range(2, 8);
  setNumIOThreads(k);
  d << " r" << k;
  std::string s;
  {
    par::Workers w(c, delay(r));
    Field3DInputFile in;
    VF_CHECK(in.open(c.path("w0.f3d")), "open", "open failed");
    typename Field<T>::Vec v = IO<T>::read(in);
    VF_CHECK(v.size() == 1 && v[0], "read", "expected one pyramid, got " << v.size());
    s = fieldDiff<T>(m.get(), v[0].get());
  }
  setNumIOThreads(1);
  VF_CHECK(s.empty(), "read-differs", "pyramid read by " << k << " threads: " << s);
  vf::count("threaded_reads", m->numLevels());
}
}  // namespace

void vf_case(vf::Ctx& c) {
  Rng& r = c.rng;
  std::ostringstream d;
  int kind = r.u(10);
  setNumIOThreads(1);
  mgr().setLimitMemUse(false);
  try {
    withType(r.u(6), [&](auto z) {
      typedef decltype(z) T;
      if (kind < 4) fileCase<T>(c, d);
      else if (kind < 6) genCase<T>(c, d, false);
      else if (kind < 8) genCase<T>(c, d, true);
      else mipFileCase<T>(c, d);
    });
  } catch (vf::Abort&) {
    c.desc = d.str();
    setNumIOThreads(1);
    mgr().setLimitMemUse(false);
    throw;
  }
  setNumIOThreads(1);
  c.desc = d.str();
  vf::nontrivial(vf::Hash().add(d.str()).h);
}

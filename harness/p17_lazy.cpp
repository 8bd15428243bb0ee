// P17: levels of multi-resolution fields load lazily, once and exactly.
#include "gen.h"
#include "par.h"
#include <Field3D/FieldCache.h>
#include <dirent.h>
#include <memory>
#include <sys/stat.h>
using namespace gen;

const char* vf_id() { return "P17"; }
void vf_init() { initIO(); Msg::setVerbosity(0); vf::setCaseTimeout(60); }

namespace {
SparseFileManager& mgr() { return SparseFileManager::singleton(); }
int openFds() {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  if (!d) return -1;
  while (readdir(d)) n++;
  closedir(d);
  return n;
}

// one multi-resolution layer: the field that was written, and what is known of it
struct Layer {
  virtual ~Layer() {}
  virtual void write(Field3DOutputFile&) = 0;
  virtual void read(Rng&, Field3DInputFile&) = 0;
  virtual void history(Ctx&, const std::string& fn, const std::string& other, std::ostringstream& log) = 0;
  virtual void prepare(Rng&, int threads) = 0;
  virtual void op(int t, Rng&, par::Err&) = 0;
  virtual void finish(par::Err&) = 0;
  std::string layer;
};

template <class T> typename DenseField<T>::Ptr mkLevel(Rng& r, const Box3i& b, const Box3i& w, DenseField<T>*) { return mkDense<T>(r, b, w, ValSmall); }
template <class T> typename SparseField<T>::Ptr mkLevel(Rng& r, const Box3i& b, const Box3i& w, SparseField<T>*) { return mkSparse<T>(r, b, w, r.range(1, 3), ValSmall); }
// a level's data window may be smaller or larger than its extents
Box3i levelWindow(Rng& r, const Box3i& b) {
  Box3i w = b;
  for (int a = 0; a < 3; a++) { w.min[a] += r.range(-2, 2); w.max[a] = std::max(w.min[a], b.max[a] + r.range(-2, 2)); }
  return w;
}

template <class F> struct LayerT : Layer {
  typedef typename F::value_type T;
  typedef MIPField<F> M;
  typename M::Ptr ref, got;
  size_t n;
  // pointers seen by each thread, to be compared at the end
  std::vector<std::vector<const F*> > seen_;

  LayerT(Rng& r, const std::string& l) {
    layer = l;
    std::vector<Box3i> lv = rndLevels(r, 14, 5);
    typename M::FieldVec v;
    bool windows = r.chance(0.3);
    for (auto& b : lv) v.push_back(mkLevel<T>(r, b, windows ? levelWindow(r, b) : b, (F*)0));
    ref = new M;
    if (r.chance(0.5)) ref->setMIPOffset(V3i(r.range(-3, 3), r.range(-3, 3), r.range(0, 2)));
    ref->setup(v);
    ref->name = "p"; ref->attribute = l;
    rndMetadata(r, ref->metadata());
    ref->setMapping(rndMapping(r, r.chance(0.7) ? (int)MapMatrix : (int)r.u(MapKinds)));
    n = v.size();
  }
  void write(Field3DOutputFile& out) {
    VF_CHECK(IO<T>::write(out, "p", layer, ref), "write", "writing " << layer);
  }
  std::string levelDiff(const Field<T>& a, size_t l) {
    std::string d = fieldDiff<T>(&a, ref->mipLevel(l).get());
    if (d.empty()) d = mappingNear(const_cast<Field<T>&>(a).mapping(), ref->mipLevel(l)->mapping());
    if (d.empty() && (a.name != ref->name || a.attribute != ref->attribute)) d = "name " + a.name + ":" + a.attribute;
    if (d.empty()) d = metaDiff(a.metadata(), ref->metadata());
    return d;
  }
  // everything known without loading
  void headers(M& m, const std::vector<bool>& loaded, const char* when) {
    VF_CHECK(m.numLevels() == n, "header:levels", when << ": " << m.numLevels() << " levels, wrote " << n);
    long vc = 0;
    for (size_t l = 0; l < n; l++) {
      VF_CHECK(m.mipResolution(l) == ref->mipResolution(l), "header:resolution", when << ": resolution of level " << l << " is " << str(m.mipResolution(l)) << " wrote " << str(ref->mipResolution(l)));
      VF_CHECK(m.levelLoaded(l) == loaded[l], "lazy", when << ": level " << l << (loaded[l] ? " isn't loaded any more" : " is loaded though nothing asked for it"));
      if (loaded[l]) vc += ref->rawMipLevel(l)->voxelCount();
    }
    VF_CHECK(m.extents() == ref->extents() && m.dataWindow() == ref->dataWindow(), "header:windows", when << ": windows differ");
    VF_CHECK(m.mipOffset() == ref->mipOffset(), "header:offset", when << ": MIP offset " << str(m.mipOffset()) << " wrote " << str(ref->mipOffset()));
    VF_CHECK((long)m.voxelCount() == vc, "memory", when << ": voxelCount " << m.voxelCount() << " but the loaded levels hold " << vc);
    VF_CHECK(m.memSize() >= (long long)sizeof(M), "memory", when << ": memSize " << m.memSize());
  }
  void read(Rng& r, Field3DInputFile& in) {
    typename Field<T>::Vec v = r.chance(0.5) ? IO<T>::read(in, "p", layer) : IO<T>::read(in, layer);
    VF_CHECK(v.size() == 1, "read", "layer " << layer << " read " << v.size() << " times");
    got = field_dynamic_cast<M>(v[0]);
    VF_CHECK(got, "read", "read back as " << v[0]->className());
    headers(*got, std::vector<bool>(n, false), "after reading");
    std::string d = mappingDiff(got->mapping(), ref->mapping());
    if (d.empty()) d = metaDiff(got->metadata(), ref->metadata());
    VF_CHECK(d.empty(), "header:info", "after reading: " << d);
    headers(*got, std::vector<bool>(n, false), "after looking at mapping and metadata");
  }
  V3i rp(Rng& r, size_t l) {
    Box3i b = ref->rawMipLevel(l)->dataWindow();
    V3i s = b.size() + V3i(1);
    return b.min + V3i((int)r.u(s.x), (int)r.u(s.y), (int)r.u(s.z));
  }
  // touches a level through one accessor; returns a description when it's wrong
  std::string touch(Rng& r, const M& m, size_t& l, const F*& ptr, std::string& how) {
    static const char* nm[] = {"mipValue", "fastMipValue", "value", "mipLevel", "concreteMipLevel", "rawMipLevel", "interpolation"};
    int k = (int)r.u(7);
    how = nm[k];
    ptr = NULL;
    if (k == 2) l = 0;
    V3i p = rp(r, l);
    T want = ref->fastMipValue(l, p.x, p.y, p.z), v = want;
    switch (k) {
      case 0: v = m.mipValue(l, p.x, p.y, p.z); break;
      case 1: v = m.fastMipValue(l, p.x, p.y, p.z); break;
      case 2: v = m.value(p.x, p.y, p.z); break;
      case 3: {
        typename Field<T>::Ptr f = m.mipLevel(l);
        if (!f) return "null level";
        ptr = dynamic_cast<const F*>(f.get());
        break;
      }
      case 4: { typename F::Ptr f = m.concreteMipLevel(l); ptr = f.get(); if (!f) return "null level"; break; }
      case 5: ptr = m.rawMipLevel(l); if (!ptr) return "null level"; break;
      case 6: {  // spot sizes beyond the coarsest voxel use that level alone; tiny ones the finest
        bool fine = l == 0;
        typename M::LinearInterp a(m), b(*ref);
        l = fine ? 0 : n - 1;
        float spot = fine ? 0.0f : 1e30f;
        V3d q;
        for (int c = 0; c < 3; c++) q[c] = r.real(ref->dataWindow().min[c] - 0.5, ref->dataWindow().max[c] + 1.5);
        T x = a.sample(q, spot), y = b.sample(q, spot);
        if (!vf::bitEq(x, y)) return "interpolated " + str(x) + " expected " + str(y);
        break;
      }
    }
    if (ptr) {
      v = ptr->fastValue(p.x, p.y, p.z);
      if (ptr->name != ref->name || ptr->attribute != ref->attribute) return "level is named " + ptr->name + ":" + ptr->attribute;
      if (ptr->extents() != ref->rawMipLevel(l)->extents()) return "level has extents " + str(ptr->extents());
      if (r.chance(0.3)) {
        std::string d = mappingNear(const_cast<F*>(ptr)->mapping(), ref->mipLevel(l)->mapping());
        if (d.empty()) d = metaDiff(ptr->metadata(), ref->metadata());
        if (d.size()) return d;
      }
    }
    if (!vf::bitEq(v, want)) return "voxel " + str(p) + " is " + str(v) + " expected " + str(want);
    return "";
  }

  // ---- sequential histories
  struct Copy { typename M::Ptr f; std::vector<bool> loaded; std::vector<const F*> ptr; };
  void history(Ctx& c, const std::string& fn, const std::string& other, std::ostringstream& log) {
    Rng& r = c.rng;
    std::vector<Copy> pool(1);
    pool[0].f = got;
    pool[0].loaded.assign(n, false);
    pool[0].ptr.assign(n, NULL);
    got = NULL;
    int ops = r.range(5, 25);
    for (int i = 0; i < ops; i++) {
      Copy& x = pool[r.u(pool.size())];
      size_t l = r.u(n);
      switch (r.u(10)) {
        default: {
          std::string how;
          const F* p;
          std::string d = touch(r, *x.f, l, p, how);
          log << " " << how << l;
          VF_CHECK(d.empty(), "level:" + how, how << " of level " << l << ": " << d);
          x.loaded[l] = true;
          if (p) {
            VF_CHECK(!x.ptr[l] || x.ptr[l] == p, "once", how << ": level " << l << " was loaded again");
            x.ptr[l] = p;
          }
          vf::count("touches");
          break;
        }
        case 6: {  // copies take what is loaded and load the rest themselves
          if (pool.size() > 5) break;
          Copy y;
          int k = (int)r.u(3);
          if (k == 0) y.f = new M(*x.f);
          else if (k == 1) y.f = field_dynamic_cast<M>(x.f->clone());
          else { y.f = new M; *y.f = *x.f; }
          VF_CHECK(y.f, "copy", "copy is null");
          y.loaded = x.loaded;
          y.ptr.assign(n, NULL);
          log << " copy" << k;
          headers(*y.f, y.loaded, "copy");
          pool.push_back(y);
          vf::count("copies");
          break;
        }
        case 7: {
          if (pool.size() < 2) break;
          log << " drop";
          size_t q = r.u(pool.size());
          pool.erase(pool.begin() + q);
          break;
        }
        case 8: {  // the file is gone, or another one took its place: an exception, and another try works
          size_t q = n;
          for (size_t k = 0; k < n; k++) if (!x.loaded[k]) q = k;
          if (q == n) break;
          bool swap = r.chance(0.6);
          log << (swap ? " swapped" : " gone") << q;
          int fds = openFds();
          rename(fn.c_str(), (fn + ".away").c_str());
          if (swap) link(other.c_str(), fn.c_str());
          bool thrown = false;
          try { x.f->rawMipLevel(q); }
          catch (Exc::Exception&) { thrown = true; }
          if (swap) unlink(fn.c_str());
          rename((fn + ".away").c_str(), fn.c_str());
          VF_CHECK(thrown, "missing", "level " << q << " loaded without its file");
          int fds2 = openFds();
          VF_CHECK(fds2 == fds, "missing:leak", "failing to load a level left " << fds2 - fds << " files open");
          headers(*x.f, x.loaded, "after a failed load");
          vf::count("failed_loads");
          break;
        }
        case 9: headers(*x.f, x.loaded, "later"); break;
      }
    }
    // a new mapping reaches loaded levels and those loaded afterwards alike
    bool remap = r.chance(0.3);
    if (remap) {
      FieldMapping::Ptr m = rndMapping(r, MapMatrix);
      ref->setMapping(m);
      for (auto& x : pool) x.f->setMapping(m->clone());
      log << " remap";
    }
    for (auto& x : pool) {
      headers(*x.f, x.loaded, "before the last look");
      for (size_t l = 0; l < n; l++) {
        std::string d = levelDiff(*x.f->mipLevel(l), l);
        VF_CHECK(d.empty(), "final", "level " << l << ": " << d);
        VF_CHECK(!x.ptr[l] || x.ptr[l] == x.f->rawMipLevel(l), "once", "level " << l << " was loaded again");
        x.loaded[l] = true;
        vf::count("levels");
      }
      headers(*x.f, x.loaded, "at the end");
    }
  }

  // ---- concurrent first use
  void prepare(Rng&, int threads) { seen_.assign(threads, std::vector<const F*>(n, (const F*)NULL)); }
  void op(int t, Rng& r, par::Err& e) {
    e.ops++;
    const M& m = *got;
    size_t l = r.chance(0.5) ? 0 : r.u(n);
    switch (r.u(8)) {
      default: {
        std::string how;
        const F* p;
        std::string d = touch(r, m, l, p, how);
        PAR_CHECK(e, d.empty(), "level:" + how, how << " of level " << l << ": " << d);
        PAR_CHECK(e, m.levelLoaded(l), "lazy", how << " of level " << l << " did not load it");
        if (p) {
          PAR_CHECK(e, !seen_[t][l] || seen_[t][l] == p, "once", "level " << l << " was replaced");
          seen_[t][l] = p;
        }
        break;
      }
      case 5: {
        typename M::Ptr y;
        switch (r.u(3)) {
          case 0: y = new M(m); break;
          case 1: y = field_dynamic_cast<M>(m.clone()); break;
          default: y = new M; *y = m;
        }
        PAR_CHECK(e, y && y->numLevels() == n, "copy", "copy has no levels");
        std::string how;
        const F* p;
        std::string d = touch(r, *y, l, p, how);
        PAR_CHECK(e, d.empty(), "copy:" + how, how << " of level " << l << " of a copy: " << d);
        break;
      }
      case 6:
        PAR_CHECK(e, m.numLevels() == n && m.mipResolution(l) == ref->mipResolution(l), "header", "level count or resolution");
        PAR_CHECK(e, m.memSize() > 0, "memory", "memSize");
        m.voxelCount();
        m.levelLoaded(l);
        break;
      case 7: FieldCache<T>::singleton().memSize(); break;
    }
  }
  void finish(par::Err& e) {
    for (size_t l = 0; l < n; l++) {
      std::string d = levelDiff(*got->mipLevel(l), l);
      PAR_CHECK(e, d.empty(), "final", "level " << l << ": " << d);
      for (auto& s : seen_) PAR_CHECK(e, !s[l] || s[l] == got->rawMipLevel(l), "once", "level " << l << " was loaded more than once");
    }
  }
};

template <class F> void neverSetUp(Ctx& c) {
  typedef MIPField<F> M;
  c.desc = "never set up";
  typename M::Ptr a(new M), b(new M(*a));
  for (M* m : {a.get(), b.get()})
    for (size_t l = 0; l < m->numLevels(); l++) {
      VF_CHECK(!m->levelLoaded(l), "unset", "level " << l << " of a field that was never set up is loaded");
      m->mipResolution(l);
      int thrown = 0;
      try { m->rawMipLevel(l); } catch (Exc::Exception&) { thrown++; }
      try { m->mipLevel(l); } catch (Exc::Exception&) { thrown++; }
      try { m->concreteMipLevel(l); } catch (Exc::Exception&) { thrown++; }
      try { m->mipValue(l, 0, 0, 0); } catch (Exc::Exception&) { thrown++; }
      VF_CHECK(thrown == 4, "unset", "level of a field that was never set up: " << thrown << " of 4 accessors threw");
    }
}
}  // namespace

void vf_case(Ctx& c) {
  Rng& r = c.rng;
  std::ostringstream log;
  bool conc = r.chance(0.6), og = r.chance(0.5), lim = r.chance(0.4);
  if (r.chance(0.03)) {
    withType((int)r.u(6), [&](auto z) { typedef decltype(z) T; neverSetUp<DenseField<T> >(c); neverSetUp<SparseField<T> >(c); });
    return;
  }
  std::string fn = c.path("m" + std::to_string(c.idx) + ".f3d"), other = c.path("o" + std::to_string(c.idx) + ".f3d");
  log << (og ? "ogawa" : "hdf5") << (lim ? " limit" : "");
  std::vector<std::unique_ptr<Layer> > layers;
  int nl = conc ? r.range(1, 3) : 1;
  for (int i = 0; i < nl; i++)
    withType((int)r.u(6), [&](auto z) {
      typedef decltype(z) T;
      bool sp = r.chance(0.6);
      std::string l = "l" + std::to_string(i);
      log << " " << (sp ? "sparse " : "dense ") << TT<T>::nm();
      if (sp) { auto* p = new LayerT<SparseField<T> >(r, l); layers.emplace_back(p); log << p->n; }
      else { auto* p = new LayerT<DenseField<T> >(r, l); layers.emplace_back(p); log << p->n; }
    });
  Field3DOutputFile::useOgawa(og);
  {
    Field3DOutputFile out;
    VF_CHECK(out.create(fn), "create", "create");
    for (auto& l : layers) l->write(out);
    VF_CHECK(out.close(), "close", "close");
  }
  if (!conc) {
    Field3DOutputFile::useOgawa(r.chance(0.7) ? og : !og);
    Field3DOutputFile out;
    VF_CHECK(out.create(other), "create", "create");
    VF_CHECK(out.writeScalarLayer<float>("q", "z", mkDense<float>(r, Box3i(V3i(0), V3i(2)), Box3i(V3i(0), V3i(2)))), "write", "write");
    out.close();
  }
  mgr().setLimitMemUse(lim);
  if (lim) mgr().setMaxMemUse(r.chance(0.5) ? 0.001f : 100.0f);
  std::unique_ptr<Field3DInputFile> in(new Field3DInputFile);
  VF_CHECK(in->open(fn), "open", "open");
  for (auto& l : layers) l->read(r, *in);
  int end = (int)r.u(3);
  if (end == 0) in->close();
  if (end == 1) in.reset();
  log << " end" << end;
  if (!conc) {
    if (in) { in->close(); }  // the number of open files is observed below
    c.desc = log.str();
    layers[0]->history(c, fn, other, log);
    c.desc = log.str();
  } else {
    int n = r.range(2, 8), delay = (int)r.u(4) * 2, ops = r.range(2, 10);
    log << " threads" << n << " delay" << delay << " ops" << ops;
    c.desc = log.str();
    for (auto& l : layers) l->prepare(r, n);
    par::run(c, n, delay, [&](int t, Rng& tr, par::Err& e) {
      for (int i = 0; i < ops; i++) layers[tr.u(layers.size())]->op(t, tr, e);
    });
    par::run(c, 1, 0, [&](int, Rng&, par::Err& e) { for (auto& l : layers) l->finish(e); });
  }
  vf::nontrivial(Hash().add(log.str()).add(r.s).h);
  if (c.idx % 97 == 0) vf::sample(c.desc);
  layers.clear();
  mgr().setLimitMemUse(false);
  unlink(fn.c_str());
  unlink(other.c_str());
}

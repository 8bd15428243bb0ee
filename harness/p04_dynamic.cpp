// P04: on-demand loading of sparse blocks never changes what is read.
#include "gen.h"
#include <dirent.h>
#include <memory>
using namespace gen;

const char* vf_id() { return "P04"; }
void vf_init() { initIO(); Msg::setVerbosity(0); }

namespace {
int openFds() {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (d && readdir(d)) n++;
  if (d) closedir(d);
  return n;
}
SparseFileManager& mgr() { return SparseFileManager::singleton(); }

struct Slot {
  virtual ~Slot() {}
  virtual std::string what() const = 0;
  virtual void op(Ctx& c, std::vector<std::unique_ptr<Slot> >& all, std::ostringstream& log) = 0;
  virtual void finish(Ctx& c) = 0;
  virtual size_t blockBytes() const = 0;
};

template <class T> struct SlotT : Slot {
  typedef SparseField<T> F;
  typedef typename F::Ptr Ptr;
  typedef typename F::const_iterator It;
  struct Cursor { It it; Box3i w; V3i p; bool done; };
  Ptr dyn, full;                 // field under test, and the fully loaded copy
  SparseModel<T> m;
  bool dynamic;
  std::string src, part, layer;  // file it came from
  std::vector<std::unique_ptr<Cursor> > cur;  // live iterators over dyn

  SlotT() : dynamic(true) {}
  ~SlotT() { cur.clear(); }
  std::string what() const { return std::string(TT<T>::nm()) + str(m.dw) + "o" + std::to_string(m.order); }
  size_t blockBytes() const { return (sizeof(T) << (3 * m.order)); }
  const T& exp(const V3i& p) const { return m.data[lin(m.dw, p.x, p.y, p.z)]; }
  V3i rp(Rng& r) const { return V3i(r.range(m.dw.min.x, m.dw.max.x), r.range(m.dw.min.y, m.dw.max.y), r.range(m.dw.min.z, m.dw.max.z)); }
  void chk(const T& got, const V3i& p, const char* how) {
    VF_CHECK(vf::bitEq(got, exp(p)), std::string("value:") + how, how << " at " << str(p) << " gave " << str(got) << ", file holds " << str(exp(p)) << " (" << what() << ")");
  }
  bool bump(Cursor& k) {  // our own idea of the next position
    if (k.p == k.w.max) { k.done = true; return false; }
    if (++k.p.x > k.w.max.x) { k.p.x = k.w.min.x; if (++k.p.y > k.w.max.y) { k.p.y = k.w.min.y; ++k.p.z; } }
    return true;
  }
  void stepCursor(Rng& r, Cursor& k) {
    if (k.done) return;
    VF_CHECK(V3i(k.it.x, k.it.y, k.it.z) == k.p, "iter-pos", "iterator at " << k.it.x << "," << k.it.y << "," << k.it.z << " expected " << str(k.p));
    if (r.chance(0.7)) {
      chk(*k.it, k.p, "iterator");
      if (r.chance(0.2)) chk(*k.it.operator->(), k.p, "iterator->");
    }
    ++k.it;
    if (!bump(k)) {
      It e = dyn->cend(k.w);
      VF_CHECK(k.it == e, "iter-end", "iterator does not reach the end of " << str(k.w));
    }
  }
  void walk(Rng& r, const Box3i& w, const char* how) {
    V3i p = w.min;
    Cursor k = {dyn->cbegin(w), w, p, false};
    double pd = r.chance(0.5) ? 1.0 : r.f01();
    long n = 0;
    for (It e = dyn->cend(w); k.it != e; ++k.it) {
      VF_CHECK(!k.done && V3i(k.it.x, k.it.y, k.it.z) == k.p, "iter-pos", how << " at " << k.it.x << "," << k.it.y << "," << k.it.z << " expected " << str(k.p));
      if (r.chance(pd)) chk(*k.it, k.p, how);
      bump(k);
      n++;
    }
    VF_CHECK(k.done, "iter-short", how << " stopped after " << n << " of " << vox(w));
    vf::count("iterated_voxels", n);
  }
  void compareAll(const F& f, const char* how) {
    std::string s = sparseModelDiff<T>(f, m);
    VF_CHECK(s.empty(), std::string("content:") + how, how << ": " << s << " (" << what() << ")");
  }
  void finish(Ctx&) { cur.clear(); compareAll(*dyn, "final"); }

  void op(Ctx& c, std::vector<std::unique_ptr<Slot> >& all, std::ostringstream& log) {
    Rng& r = c.rng;
    int o = (int)r.u(22);
    log << " " << o;
    vf::count(("op_" + std::to_string(o)).c_str());
    switch (o) {
      case 0: case 1:
        for (int n = 40; n > 0; n--) { V3i p = rp(r); chk(r.chance(0.5) ? dyn->fastValue(p.x, p.y, p.z) : dyn->value(p.x, p.y, p.z), p, "value"); }
        break;
      case 2: {  // row sweeps along a random axis
        V3i p = rp(r);
        int a = (int)r.u(3);
        for (p[a] = m.dw.min[a]; p[a] <= m.dw.max[a]; p[a]++) chk(dyn->fastValue(p.x, p.y, p.z), p, "sweep");
        break;
      }
      case 3: walk(r, m.dw, "full iteration"); break;
      case 4: walk(r, rndSub(r, m.dw), "sub-window iteration"); break;
      case 5: case 6: {  // keep an iterator alive
        if (cur.size() >= 6) { cur.erase(cur.begin() + r.u(cur.size())); break; }
        Box3i w = r.chance(0.5) ? m.dw : rndSub(r, m.dw);
        cur.emplace_back(new Cursor{dyn->cbegin(w), w, w.min, false});
        for (int n = r.range(0, 20); n > 0; n--) stepCursor(r, *cur.back());
        break;
      }
      case 7: case 8:
        if (cur.size()) { Cursor& k = *cur[r.u(cur.size())]; for (int n = r.range(1, 60); n > 0; n--) stepCursor(r, k); }
        break;
      case 9:  // copy / assign iterators; drop either
        if (cur.size()) {
          Cursor& k = *cur[r.u(cur.size())];
          if (r.chance(0.5)) {
            std::unique_ptr<Cursor> n(new Cursor(k));
            for (int i = r.range(0, 9); i > 0; i--) stepCursor(r, *n);
            if (r.chance(0.5)) cur.push_back(std::move(n));
          } else {
            Cursor& d = *cur[r.u(cur.size())];
            Cursor t(k);
            d = t;
            for (int i = r.range(0, 9); i > 0; i--) stepCursor(r, d);
          }
        }
        break;
      case 10: {  // interpolation, through every interpolator, against the loaded field
        typename F::LinearInterp li;
        typename F::CubicInterp ci;
        LinearFieldInterp<T> lf;
        CubicFieldInterp<T> cf;
        for (int n = 12; n > 0; n--) {
          V3d p;
          for (int a = 0; a < 3; a++) p[a] = r.chance(0.2) ? r.range(m.dw.min[a], m.dw.max[a] + 1) : r.real(m.dw.min[a] - 1.0, m.dw.max[a] + 2.0);
          VF_CHECK(vf::bitEq(li.sample(*dyn, p), li.sample(*full, p)), "interp-linear", "linear interpolation at " << p.x << "," << p.y << "," << p.z << " differs from the loaded field: " << str(li.sample(*dyn, p)) << " vs " << str(li.sample(*full, p)));
          VF_CHECK(vf::bitEq(lf.sample(*dyn, p), lf.sample(*full, p)), "interp-linear", "generic linear interpolation differs");
          VF_CHECK(vf::bitEq(ci.sample(*dyn, p), ci.sample(*full, p)), "interp-cubic", "cubic interpolation differs");
          VF_CHECK(vf::bitEq(cf.sample(*dyn, p), cf.sample(*full, p)), "interp-cubic", "generic cubic interpolation differs");
        }
        break;
      }
      case 11: {  // block queries
        VF_CHECK(dyn->blockRes() == m.bres && dyn->blockOrder() == m.order, "blocks", "block layout differs");
        forBox(Box3i(V3i(0), m.bres - V3i(1)), [&](int i, int j, int k) {
          size_t b = m.bid(i, j, k);
          VF_CHECK(dyn->blockIsAllocated(i, j, k) == (bool)m.alloc[b], "block-alloc", "block " << str(V3i(i, j, k)) << " allocated state");
          T e = dyn->getBlockEmptyValue(i, j, k);
          VF_CHECK(vf::bitEq(e, m.empty[b]), "block-empty", "block " << str(V3i(i, j, k)) << " empty value");
        });
        V3i p = rp(r);
        int bi, bj, bk;
        m.blockOf(p.x, p.y, p.z, bi, bj, bk);
        VF_CHECK(dyn->voxelIsInAllocatedBlock(p.x, p.y, p.z) == (bool)m.alloc[m.bid(bi, bj, bk)], "voxel-alloc", "voxelIsInAllocatedBlock " << str(p));
        break;
      }
      case 12: case 13: {  // copies: constructor, clone, assignment over dynamic / plain fields
        Ptr n;
        int how = (int)r.u(4);
        if (how == 0) n = new F(*dyn);
        else if (how == 1) n = field_dynamic_cast<F>(FieldBase::Ptr(dyn->clone()));
        else if (how == 2) { n = mkSparse<T>(r, rndBox(r, 6, 3), rndBox(r, 6, 3), 1); *n = *dyn; }
        else { n = new F(*dyn); V3i p = rp(r); chk(n->fastValue(p.x, p.y, p.z), p, "copy"); *n = *dyn; }
        log << "." << how;
        std::unique_ptr<SlotT> s(new SlotT);
        s->dyn = n; s->full = full; s->m = m; s->src = src; s->part = part; s->layer = layer;
        V3i p = rp(r);
        s->chk(n->fastValue(p.x, p.y, p.z), p, "copy");
        if (r.chance(0.3)) s->compareAll(*n, "copy");
        if (all.size() < 8) all.push_back(std::move(s));
        break;
      }
      case 14: {  // the field is given up: overwritten, resized or cleared, and used as an ordinary field afterwards
        Ptr n(new F(*dyn));
        for (int i = 0; i < 10; i++) { V3i p = rp(r); chk(n->fastValue(p.x, p.y, p.z), p, "copy"); }
        int how = (int)r.u(4);
        log << "." << how;
        if (how == 0) {
          SparseModel<T> mm;
          Ptr other = mkSparse<T>(r, rndBox(r, 9, 3), rndBox(r, 9, 3), r.range(1, 3), ValSpecial, &mm);
          *n = *other;
          std::string s = sparseModelDiff<T>(*n, mm);
          VF_CHECK(s.empty(), "reused-field", "after assigning an in-memory field: " << s);
          V3i p = n->dataWindow().min;
          T v = rndVal<T>(r);
          n->lvalue(p.x, p.y, p.z) = v;
          VF_CHECK(vf::bitEq(n->value(p.x, p.y, p.z), v), "reused-field", "write after assignment lost");
          VF_CHECK(vf::bitEq(other->value(p.x, p.y, p.z), mm.data[0]), "reused-field", "source changed");
        } else {
          Box3i w = m.dw;
          T v = T(0);
          if (how == 1) { v = rndVal<T>(r); n->clear(v); }
          else if (how == 2) { w = rndBox(r, 9, 3); n->setSize(w); }
          else n->setBlockOrder(r.range(1, 4));
          forBox(w, [&](int i, int j, int k) { VF_CHECK(vf::bitEq(n->value(i, j, k), v), "reused-field", "voxel " << i << "," << j << "," << k << " is " << str(n->value(i, j, k)) << " after op " << how); });
          T x = rndVal<T>(r);
          n->lvalue(w.max.x, w.max.y, w.max.z) = x;
          VF_CHECK(vf::bitEq(n->value(w.max.x, w.max.y, w.max.z), x), "reused-field", "write lost after op " << how);
        }
        V3i p = rp(r);
        chk(dyn->fastValue(p.x, p.y, p.z), p, "value");
        break;
      }
      case 15: {  // copy to an in-memory representation
        typename DenseField<T>::Ptr d(new DenseField<T>);
        d->copyFrom(typename Field<T>::Ptr(dyn));
        std::string s = voxelDiff<T>(*d, *full);
        VF_CHECK(s.empty(), "copyFrom", "dense copy: " << s);
        Ptr q(new F);
        q->copyFrom(typename Field<T>::Ptr(dyn));
        s = voxelDiff<T>(*q, *full);
        VF_CHECK(s.empty(), "copyFrom", "sparse copy: " << s);
        break;
      }
      case 16: {  // writing the field to another file
        bool og = r.chance(0.5);
        log << (og ? "o" : "h");
        std::string fn = c.path("w.f3d");
        {
          Field3DOutputFile::useOgawa(og);
          Field3DOutputFile out;
          VF_CHECK(out.create(fn), "create", "create");
          VF_CHECK(IO<T>::write(out, "a", "b", dyn), "rewrite", "writing an on-demand field failed");
          out.close();
        }
        bool lim = mgr().doLimitMemUse();
        mgr().setLimitMemUse(r.chance(0.5));
        {
          Field3DInputFile in;
          VF_CHECK(in.open(fn), "open", "open of re-written file");
          auto v = IO<T>::read(in, "a", "b");
          VF_CHECK(v.size() == 1, "rewrite", "re-written layer not found");
          typename F::Ptr f = field_dynamic_cast<F>(v[0]);
          VF_CHECK(f, "rewrite", "re-written layer is no sparse field");
          compareAll(*f, "re-written field");
        }
        mgr().setLimitMemUse(lim);
        remove(fn.c_str());
        break;
      }
      case 17: mgr().flushCache(); break;
      case 18: {
        double b = blockBytes() / 1048576.0, f[] = {0, 0.5 * b, b, 3 * b, 20 * b, 100};
        mgr().setMaxMemUse((float)f[r.u(6)]);
        break;
      }
      case 19: mgr().setLimitMemUse(r.chance(0.5)); break;
      case 20: if (r.chance(0.3)) mgr().resetCacheStatistics(); break;
      case 21: if (cur.size() && r.chance(0.5)) cur.erase(cur.begin() + r.u(cur.size())); break;
    }
  }
};
}  // namespace

template <class T> static void addSlot(Ctx& c, std::vector<std::unique_ptr<Slot> >& slots, Field3DInputFile& in, const std::string& fn,
                                       const std::string& p, const std::string& l, const SparseModel<T>& m, typename SparseField<T>::Ptr full) {
  auto v = IO<T>::read(in, p, l);
  VF_CHECK(v.size() == 1, "read", "layer " << l << " read " << v.size() << " times");
  typename SparseField<T>::Ptr f = field_dynamic_cast<SparseField<T> >(v[0]);
  VF_CHECK(f, "read", "no sparse field");
  VF_CHECK(f->isDynamicLoad(), "not-dynamic", "field is not loaded on demand");
  std::unique_ptr<SlotT<T> > s(new SlotT<T>);
  s->dyn = f; s->full = full; s->m = m; s->src = fn; s->part = p; s->layer = l;
  slots.push_back(std::move(s));
}

void vf_case(Ctx& c) {
  Rng& r = c.rng;
  std::ostringstream log;
  mgr().setLimitMemUse(false);
  mgr().setMaxMemUse(1000);
  int fd0 = openFds();
  {
    std::vector<std::unique_ptr<Slot> > slots;
    int nf = r.range(1, 2);
    std::vector<std::string> files;
    for (int fi = 0; fi < nf; fi++) {
      bool og = r.chance(0.5);
      std::string fn = c.path("d" + std::to_string(fi) + ".f3d");
      files.push_back(fn);
      Field3DOutputFile::useOgawa(og);
      Field3DOutputFile out;
      VF_CHECK(out.create(fn), "create", "create failed");
      std::vector<std::function<void(Field3DInputFile&, bool)> > readers;
      int nl = r.range(1, 3);
      log << (og ? " ogawa" : " hdf5");
      auto fulls = std::make_shared<std::vector<FieldBase::Ptr> >(nl);
      for (int li = 0; li < nl; li++) {
        std::string l = "l" + std::to_string(li);
        withType((int)r.u(6), [&](auto z) {
          typedef decltype(z) T;
          Box3i e, w;
          rndWindows(r, e, w, r.chance(0.2) ? 30 : 14);
          int order = r.range(1, 4);
          auto m = std::make_shared<SparseModel<T> >();
          auto f = mkSparse<T>(r, e, w, order, r.chance(0.5) ? ValWide : ValSpecial, m.get());
          log << " " << TT<T>::nm() << str(w) << "o" << order;
          VF_CHECK(IO<T>::write(out, "p", l, f), "write", "write failed");
          readers.push_back([&c, &slots, fn, l, m, fulls, li](Field3DInputFile& in, bool dyn) {
            if (!dyn) {
              auto v = IO<T>::read(in, "p", l);
              VF_CHECK(v.size() == 1, "read", "full read");
              // (the library caches live fields by file and layer: keep a copy, drop the original)
              auto ff = field_dynamic_cast<SparseField<T> >(v[0]);
              if (ff) (*fulls)[li] = ff->clone();
              VF_CHECK(ff && !ff->isDynamicLoad(), "read", "full read is dynamic");
              std::string s = sparseModelDiff<T>(*ff, *m);
              VF_CHECK(s.empty(), "full-read", "fully loaded field: " << s);
            } else
              addSlot<T>(c, slots, in, fn, "p", l, *m, field_dynamic_cast<SparseField<T> >((*fulls)[li]));
          });
        });
      }
      out.close();
      Field3DInputFile in;
      VF_CHECK(in.open(fn), "open", "open");
      mgr().setLimitMemUse(false);
      for (auto& f : readers) f(in, false);
      if (r.chance(0.5)) { in.close(); VF_CHECK(in.open(fn), "open", "open"); }
      mgr().setLimitMemUse(true);
      for (auto& f : readers) if (r.chance(0.9)) f(in, true);
      if (r.chance(0.2)) for (auto& f : readers) if (r.chance(0.5)) f(in, true);
      mgr().setLimitMemUse(r.chance(0.7));
      if (r.chance(0.5)) in.close();
    }
    if (slots.size()) {
      double b = slots[0]->blockBytes() / 1048576.0, f[] = {0, 0.5 * b, b, 2 * b, 5 * b, 40 * b, 100};
      int q = (int)r.u(7);
      mgr().setMaxMemUse((float)f[q]);
      log << " limit" << q << " ops:";
    }
    c.desc = log.str();
    vf::nontrivial(Hash().add(log.str()).h);
    int n = r.range(10, 60);
    for (int i = 0; i < n && slots.size(); i++) {
      size_t s = r.u(slots.size());
      log << " #" << s;
      c.desc = log.str();
      slots[s]->op(c, slots, log);
      c.desc = log.str();
      if (r.chance(0.05)) { slots.erase(slots.begin() + r.u(slots.size())); log << " del"; }
    }
    c.desc = log.str();
    while (slots.size()) {
      size_t s = r.u(slots.size());
      if (r.chance(0.5)) slots[s]->finish(c);
      slots.erase(slots.begin() + s);
    }
    for (auto& f : files) remove(f.c_str());
  }
  vf::count("fields_closed");
  VF_CHECK(mgr().numLoadedBlocks() == 0, "blocks-left", "blocks still counted as loaded after all fields are gone: " << mgr().numLoadedBlocks());
  int fd1 = openFds();
  VF_CHECK(fd1 == fd0, "fd-leak", "open file descriptors: " << fd0 << " before, " << fd1 << " after all files and fields are gone");
}

// P06: concurrent readers of on-demand sparse fields are safe and exact.
#include "gen.h"
#include "par.h"
#include <memory>
using namespace gen;

const char* vf_id() { return "P06"; }
void vf_init() {
  initIO();
  Msg::setVerbosity(0);
  vf::setCaseTimeout(60);
  // the first use of the manager, from several threads at once
  std::atomic<int> ready(0);
  std::vector<SparseFileManager*> got(4);
  std::vector<std::thread> th;
  for (int i = 0; i < 4; i++)
    th.emplace_back([&, i] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < 4) {} got[i] = &SparseFileManager::singleton(); });
  for (auto& t : th) t.join();
  for (auto* g : got) if (g != got[0]) { fprintf(stderr, "runtime error: two managers\n"); abort(); }
}

namespace {
SparseFileManager& mgr() { return SparseFileManager::singleton(); }

struct Slot {
  virtual ~Slot() {}
  virtual void op(Rng&, par::Err&) const = 0;
  virtual void reopen(Rng&, par::Err&) const = 0;
  virtual void storm(Rng&, par::Err&) const = 0;
  virtual void write(Rng&, par::Err&, const std::string&) const = 0;
  virtual void fin(par::Err&) const = 0;
  virtual size_t blockBytes() const = 0;
};

template <class T> struct SlotT : Slot {
  typedef SparseField<T> F;
  typename F::Ptr f, full;
  SparseModel<T> m;
  std::string file, layer;
  size_t blockBytes() const { return sizeof(T) << (3 * m.order); }
  V3i rp(Rng& r) const { return V3i(r.range(m.dw.min.x, m.dw.max.x), r.range(m.dw.min.y, m.dw.max.y), r.range(m.dw.min.z, m.dw.max.z)); }
  void chk(par::Err& e, const T& got, const V3i& p, const char* how) const {
    const T& w = m.data[lin(m.dw, p.x, p.y, p.z)];
    PAR_CHECK(e, vf::bitEq(got, w), std::string("value:") + how, how << " at " << str(p) << " gave " << str(got) << ", file holds " << str(w));
  }
  void reads(const F& g, Rng& r, par::Err& e, int n) const {
    for (; n > 0; n--) { V3i p = rp(r); chk(e, g.fastValue(p.x, p.y, p.z), p, "value"); }
  }
  void walk(const F& g, Rng& r, par::Err& e, int maxn) const {
    Box3i w = rndSub(r, m.dw);
    V3i p = w.min;
    typename F::const_iterator it = g.cbegin(w), end = g.cend(w);
    double pd = r.chance(0.5) ? 1.0 : r.f01();
    for (int n = 0; it != end && n < maxn; ++it, ++n) {
      PAR_CHECK(e, V3i(it.x, it.y, it.z) == p, "iter-pos", "iterator at " << it.x << "," << it.y << "," << it.z);
      if (r.chance(pd)) chk(e, *it, p, "iterator");
      if (++p.x > w.max.x) { p.x = w.min.x; if (++p.y > w.max.y) { p.y = w.min.y; ++p.z; } }
    }
  }
  void op(Rng& r, par::Err& e) const {
    e.ops++;
    switch (r.u(9)) {
      case 0: case 1: case 2: reads(*f, r, e, 30); break;
      case 3: {  // all threads hammer one block
        V3i p = m.dw.min;
        for (int n = 20; n > 0; n--) chk(e, f->fastValue(p.x, p.y, p.z), p, "value");
        break;
      }
      case 4: walk(*f, r, e, 200); break;
      case 5: {  // two iterators interleaved with reads elsewhere
        typename F::const_iterator a = f->cbegin(), end = f->cend();
        int skip = (int)r.u(vox(m.dw));
        for (int i = 0; i < skip && a != end; i++) ++a;
        for (int i = 0; i < 20 && a != end; i++, ++a) {
          V3i p(a.x, a.y, a.z);
          chk(e, *a, p, "held iterator");
          reads(*f, r, e, 2);
          chk(e, *a, p, "held iterator again");
        }
        break;
      }
      case 6: case 7: {
        typename F::LinearInterp li;
        for (int n = 15; n > 0; n--) {
          V3d p;
          for (int a = 0; a < 3; a++) p[a] = r.real(m.dw.min[a] - 1.0, m.dw.max[a] + 2.0);
          T x = li.sample(*f, p), y = li.sample(*full, p);
          PAR_CHECK(e, vf::bitEq(x, y), "interp", "linear interpolation at " << p.x << "," << p.y << "," << p.z << " gave " << str(x) << ", loaded field gives " << str(y));
        }
        break;
      }
      case 8: {
        typename F::Ptr g(new F(*f));
        reads(*g, r, e, 20);
        if (r.chance(0.3)) walk(*g, r, e, 100);
        break;
      }
    }
  }
  void reopen(Rng& r, par::Err& e) const {
    e.ops++;
    Field3DInputFile in;
    PAR_CHECK(e, in.open(file), "reopen", "cannot open " << file);
    auto v = IO<T>::read(in, "p", layer);
    PAR_CHECK(e, v.size() == 1, "reopen", "layer " << layer << " read " << v.size() << " times");
    auto g = field_dynamic_cast<F>(v[0]);
    PAR_CHECK(e, g && g->isDynamicLoad(), "reopen", "not a dynamic sparse field");
    if (r.chance(0.5)) in.close();
    reads(*g, r, e, 20);
    walk(*g, r, e, 60);
  }
  void write(Rng& r, par::Err& e, const std::string& fn) const {  // written to another file while others read it
    e.ops++;
    Field3DOutputFile out;
    PAR_CHECK(e, out.create(fn), "copy", "cannot create " << fn);
    PAR_CHECK(e, IO<T>::write(out, "q", "copy", f), "copy", "couldn't write the field");
    PAR_CHECK(e, out.close(), "copy", "couldn't close the file");
    Field3DInputFile in;
    PAR_CHECK(e, in.open(fn), "copy", "cannot open " << fn);
    auto v = IO<T>::read(in, "q", "copy");
    PAR_CHECK(e, v.size() == 1, "copy", "the copy was read " << v.size() << " times");
    auto g = field_dynamic_cast<F>(v[0]);
    PAR_CHECK(e, g && g->dataWindow() == m.dw, "copy", "the copy isn't a sparse field of that size");
    forBox(m.dw, [&](int i, int j, int k) { chk(e, g->fastValue(i, j, k), V3i(i, j, k), "copy"); });
  }
  void storm(Rng& r, par::Err& e) const {  // many short-lived copies: the manager's tables grow under the readers
    e.ops++;
    for (int n = r.range(50, 300); n > 0; n--) {
      typename F::Ptr g(new F(*f));
      if (n % 50 == 0) reads(*g, r, e, 2);
    }
  }
  void fin(par::Err& e) const {
    forBox(m.dw, [&](int i, int j, int k) { chk(e, f->fastValue(i, j, k), V3i(i, j, k), "final"); });
  }
};
typedef std::vector<std::unique_ptr<Slot> > Slots;
}  // namespace

void vf_case(Ctx& c) {
  Rng& r = c.rng;
  std::ostringstream log;
  Slots slots;
  std::vector<std::string> files;
  int nf = r.range(1, 2);
  for (int fi = 0; fi < nf; fi++) {
    std::string fn = c.path("f" + std::to_string(fi) + "_" + std::to_string(c.idx) + ".f3d");
    files.push_back(fn);
    bool og = r.chance(0.6);
    Field3DOutputFile::useOgawa(og);
    log << (og ? " og" : " h5");
    std::vector<std::function<void(Field3DInputFile&, bool)> > readers;
    {
      Field3DOutputFile out;
      VF_CHECK(out.create(fn), "create", "create");
      int nl = r.range(1, 2);
      for (int li = 0; li < nl; li++)
        withType(r.u(6), [&](auto tag) {
          typedef decltype(tag) T;
          Box3i ext, dw;
          V3i lo(r.range(-3, 3), r.range(-3, 3), r.range(-3, 3));
          dw = Box3i(lo, lo + V3i(r.range(2, 12), r.range(2, 12), r.range(2, 12)));
          ext = dw;
          int order = r.range(1, 3);
          auto m = std::make_shared<SparseModel<T> >();
          auto f = mkSparse<T>(r, ext, dw, order, ValSmall, m.get(), r.chance(0.5) ? 0.9 : 0.5);
          std::string l = "l" + std::to_string(li);
          f->name = "p"; f->attribute = l;
          VF_CHECK(IO<T>::write(out, "p", l, f), "write", "write");
          log << " " << TT<T>::nm() << str(dw) << "o" << order;
          auto sl = std::make_shared<SlotT<T>*>(nullptr);
          readers.push_back([=, &slots](Field3DInputFile& in, bool dyn) {
            auto v = IO<T>::read(in, "p", l);
            VF_CHECK(v.size() == 1, "read", "read");
            auto g = field_dynamic_cast<SparseField<T> >(v[0]);
            VF_CHECK(g && g->isDynamicLoad() == dyn, "read", "dynamic flag");
            if (!dyn) {
              SlotT<T>* s = new SlotT<T>;
              slots.emplace_back(s);
              *sl = s;
              s->m = *m; s->full = g->clone() ? field_dynamic_cast<SparseField<T> >(g->clone()) : NULL; s->file = fn; s->layer = l;
            } else (*sl)->f = g;
          });
        });
      out.close();
    }
    Field3DInputFile in;
    VF_CHECK(in.open(fn), "open", "open");
    mgr().setLimitMemUse(false);
    for (auto& f : readers) f(in, false);
    mgr().setLimitMemUse(true);
    for (auto& f : readers) f(in, true);
  }
  double b = slots[0]->blockBytes() / 1048576.0, lim[] = {0, b, 3 * b, 10 * b, 100};
  int q = (int)r.u(5);
  mgr().setMaxMemUse((float)lim[q]);
  int n = r.range(2, 8), delay = (int)r.u(4) * 2;
  bool same = r.chance(0.4), opener = r.chance(0.4), admin = r.chance(0.4), storm = r.chance(0.1), writer = r.chance(0.15);
  int ops = r.range(3, 12);
  bool ogw = r.chance(0.5);
  Field3DOutputFile::useOgawa(ogw);
  setNumIOThreads(r.range(1, 3));
  std::string copy = c.path("copy_" + std::to_string(c.idx) + ".f3d");
  log << " lim" << q << " threads" << n << " delay" << delay << " same" << same << " opener" << opener << " admin" << admin << " storm" << storm << " writer" << writer << (ogw ? "og" : "h5") << " ops" << ops;
  c.desc = log.str();
  vf::nontrivial(Hash().add(log.str()).add(r.s).h);
  par::run(c, n, delay, [&](int t, Rng& tr, par::Err& e) {
    for (int i = 0; i < ops; i++) {
      Slot& s = *slots[same ? 0 : tr.u(slots.size())];
      if (t == 0 && storm) s.storm(tr, e);
      else if (t == 0 && opener) s.reopen(tr, e);
      else if (t == n - 1 && writer && i < 1) s.write(tr, e, copy);
      else if (t == 1 && admin && n > 2) {
        switch (tr.u(5)) {
          case 0: mgr().flushCache(); break;
          case 1: { long a = mgr().numLoadedBlocks(); PAR_CHECK(e, a >= 0, "stats", "negative block count"); break; }
          case 2: mgr().totalLoads(); mgr().totalLoadedBlocks(); mgr().cacheEfficiency(); break;
          case 3: if (tr.chance(0.3)) mgr().resetCacheStatistics(); mgr().memSize(); break;
          case 4: usleep(200); break;
        }
        e.ops++;
      } else s.op(tr, e);
    }
  });
  // afterwards the cache is intact: everything still reads, and is accounted for
  long loaded = mgr().numLoadedBlocks();
  par::Err e;
  try { for (auto& s : slots) s->fin(e); } catch (vf::Abort&) { vf::fail(e.key, "after the threads: " + e.msg); }
  vf::count("checks", e.checks);
  vf::count("blocks_loaded_after", loaded);
  mgr().flushCache();
  VF_CHECK(mgr().numLoadedBlocks() == 0, "blocks-pinned", mgr().numLoadedBlocks() << " blocks cannot be flushed although nothing uses them");
  slots.clear();
  VF_CHECK(mgr().numLoadedBlocks() == 0, "blocks-left", "blocks left after all fields are gone");
  for (auto& f : files) remove(f.c_str());
  remove(copy.c_str());
}

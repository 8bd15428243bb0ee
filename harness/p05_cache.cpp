// P05: the block cache keeps to its memory limit and its statistics are true.
#include "gen.h"
#include <atomic>
#include <malloc.h>
#include <memory>
#include <new>
using namespace gen;

// ---- allocator monitor: follows the arrays that were seen as a sparse block's data until they are freed
#include <unordered_map>
namespace {
struct Rec { size_t n; bool block; };
bool g_on = false, g_in = false;
std::unordered_map<void*, Rec>& recs() { static std::unordered_map<void*, Rec> m; return m; }
std::set<size_t>& sizes() { static std::set<size_t> s; return s; }
long g_liveBlocks = 0;
int64_t g_liveBytes = 0;
void onNew(void* p, size_t n) {
  if (!g_on || g_in) return;
  g_in = true;
  if (sizes().count(n)) recs()[p] = Rec{n, false};
  g_in = false;
}
void onDel(void* p) {
  if (!g_on || g_in || !p) return;
  g_in = true;
  auto i = recs().find(p);
  if (i != recs().end()) {
    if (i->second.block) { g_liveBlocks--; g_liveBytes -= (int64_t)i->second.n; }
    recs().erase(i);
  }
  g_in = false;
}
void mark(const void* p) {
  auto i = recs().find(const_cast<void*>(p));
  if (i == recs().end()) vf::fail("unknown-block", "a sparse block's data was not allocated at the block's size");
  if (!i->second.block) { i->second.block = true; g_liveBlocks++; g_liveBytes += (int64_t)i->second.n; }
}
void watch(size_t n) { sizes().insert(n); }
long liveBlocks() { return g_liveBlocks; }
int64_t liveBytes() { return g_liveBytes; }
}  // namespace
void* operator new[](size_t n) { void* p = malloc(n); if (!p) throw std::bad_alloc(); onNew(p, n); return p; }
void operator delete[](void* p) noexcept { onDel(p); free(p); }
void operator delete[](void* p, size_t) noexcept { onDel(p); free(p); }

const char* vf_id() { return "P05"; }
void vf_init() { initIO(); Msg::setVerbosity(0); }

namespace {
SparseFileManager& mgr() { return SparseFileManager::singleton(); }
int64_t g_limit;          // bytes
int64_t g_bound;          // what the live bytes may not exceed at present (the limit may have been lowered meanwhile)
bool g_resetSince;        // statistics were reset while blocks were loaded

struct Slot {
  virtual ~Slot() {}
  virtual size_t bytes() const = 0;
  virtual long loaded() const = 0;
  virtual int64_t pinnedBytes() const = 0;
  virtual void op(Ctx&, std::vector<std::unique_ptr<Slot> >&, std::ostringstream&) = 0;
  virtual void checkMem() = 0;
  virtual void markAll() = 0;
  long loads = 0;
  std::vector<char> ever;  // blocks loaded at least once
  long everCount() const { long n = 0; for (char e : ever) n += e; return n; }
};
typedef std::vector<std::unique_ptr<Slot> > Slots;
int64_t pinnedAll(const Slots& v) { int64_t s = 0; for (auto& x : v) s += x->pinnedBytes(); return s; }
size_t maxBytes(const Slots& v) { size_t s = 0; for (auto& x : v) s = std::max(s, x->bytes()); return s; }

template <class T> struct SlotT : Slot {
  typedef SparseField<T> F;
  typename F::Ptr f;
  SparseModel<T> m;
  int64_t base;
  struct Cur { typename F::const_iterator it; Box3i w; long left; };
  std::vector<std::unique_ptr<Cur> > cur;
  SlotT(typename F::Ptr p, const SparseModel<T>& mm) : f(p), m(mm) { ever.assign(m.alloc.size(), 0); base = f->memSize() - loaded() * (int64_t)bytes(); }
  ~SlotT() { cur.clear(); f = NULL; }
  size_t bytes() const { return sizeof(T) << (3 * m.order); }
  bool isLoaded(int bi, int bj, int bk) const { return f->blockData(bi, bj, bk) != NULL; }
  long loaded() const {
    long n = 0;
    forBox(Box3i(V3i(0), m.bres - V3i(1)), [&](int i, int j, int k) { n += isLoaded(i, j, k); });
    return n;
  }
  std::set<size_t> pins() const {
    std::set<size_t> s;
    for (auto& c : cur) {
      // (an iterator at the end of a sub-window stands on the voxel after it)
      int bi, bj, bk;
      m.blockOf(c->it.x, c->it.y, c->it.z, bi, bj, bk);
      if (bk < m.bres.z && isLoaded(bi, bj, bk)) s.insert(m.bid(bi, bj, bk));
    }
    return s;
  }
  int64_t pinnedBytes() const { return (int64_t)pins().size() * (int64_t)bytes(); }
  void checkMem() {
    int64_t want = base + loaded() * (int64_t)bytes();
    VF_CHECK(f->memSize() == want, "field-bytes", "memSize() of the field is " << f->memSize() << ", blocks in memory account for " << want);
  }
  void markAll() {
    forBox(Box3i(V3i(0), m.bres - V3i(1)), [&](int i, int j, int k) { if (const void* p = f->blockData(i, j, k)) mark(p); });
  }
  V3i rp(Rng& r) const { return V3i(r.range(m.dw.min.x, m.dw.max.x), r.range(m.dw.min.y, m.dw.max.y), r.range(m.dw.min.z, m.dw.max.z)); }
  // one monitored voxel access: `get` must load the block exactly when it is not in memory
  template <class G> void touch(const Slots& all, const V3i& p, G get) {
    int bi, bj, bk;
    m.blockOf(p.x, p.y, p.z, bi, bj, bk);
    size_t b = m.bid(bi, bj, bk);
    bool need = m.alloc[b] && !isLoaded(bi, bj, bk);
    int64_t before = liveBytes(), pinned = pinnedAll(all);
    long n0 = liveBlocks();
    const void* p0 = f->blockData(bi, bj, bk);
    T v = get();
    VF_CHECK(vf::bitEq(v, m.data[lin(m.dw, p.x, p.y, p.z)]), "value", "voxel " << str(p) << " reads " << str(v) << ", file holds " << str(m.data[lin(m.dw, p.x, p.y, p.z)]));
    const void* p1 = f->blockData(bi, bj, bk);
    if (p1) mark(p1);
    long evicted = n0 + (need ? 1 : 0) - liveBlocks();
    if (!need) VF_CHECK(p0 == p1, "loads", "reading a voxel of a block that was in memory moved the block");
    if (m.alloc[b]) VF_CHECK(isLoaded(bi, bj, bk), "not-kept", "the block just read is not in memory");
    if (!need) { VF_CHECK(evicted == 0, "evict-idle", evicted << " blocks evicted by a read that needed no room"); return; }
    loads++;
    ever[b] = 1;
    int64_t s = (int64_t)bytes();
    vf::count("block_loads");
    if (before + s <= g_limit) { VF_CHECK(evicted == 0, "evict-room", evicted << " blocks evicted although " << before << "+" << s << " bytes fit the limit of " << g_limit); }
    else { vf::count("evictions", evicted); }
    g_bound = std::max(g_limit, pinned + s);
    VF_CHECK(liveBytes() <= g_bound, "budget", "after loading a block of " << s << " bytes the cache holds " << liveBytes() << " bytes; limit " << g_limit << ", pinned by iterators " << pinned);
  }
  // an operation that may load many blocks
  template <class G> void bulk(const Slots& all, long maxLoads, G go) {
    std::set<const void*> before;
    long was = mgr().totalLoads(), newly = 0;
    forBox(Box3i(V3i(0), m.bres - V3i(1)), [&](int i, int j, int k) { if (!isLoaded(i, j, k)) before.insert(&m.alloc[m.bid(i, j, k)]); });
    go();
    forBox(Box3i(V3i(0), m.bres - V3i(1)), [&](int i, int j, int k) { if (isLoaded(i, j, k) && before.count(&m.alloc[m.bid(i, j, k)])) newly++; });
    int64_t pinned = pinnedAll(all);  // blocks only become pinned-and-loaded while iterators stand still
    long a1 = mgr().totalLoads() - was;
    VF_CHECK(a1 >= newly && a1 <= maxLoads, "bulk-loads", "totalLoads() grew by " << a1 << ", blocks that came into memory: " << newly);
    loads += a1;
    if (a1) g_bound = std::max(g_limit, pinned + (int64_t)maxBytes(all));
  }
  void op(Ctx& c, Slots& all, std::ostringstream& log) {
    Rng& r = c.rng;
    int o = (int)r.u(15);
    log << " " << o;
    switch (o) {
      case 0: case 1: case 2: for (int n = 30; n > 0; n--) { V3i p = rp(r); touch(all, p, [&] { return f->fastValue(p.x, p.y, p.z); }); } break;
      case 3: {
        V3i p = rp(r);
        int a = (int)r.u(3);
        for (p[a] = m.dw.min[a]; p[a] <= m.dw.max[a]; p[a]++) touch(all, p, [&] { return f->value(p.x, p.y, p.z); });
        break;
      }
      case 4:
        if (cur.size() > 4) cur.erase(cur.begin() + r.u(cur.size()));
        else { Box3i w = rndSub(r, m.dw); cur.emplace_back(new Cur{f->cbegin(w), w, (long)vox(w)}); }
        break;
      case 5: case 6:
        if (cur.size()) {
          Cur& k = *cur[r.u(cur.size())];
          for (int n = r.range(1, 40); n > 0 && k.left; n--) {
            V3i p(k.it.x, k.it.y, k.it.z);
            if (r.chance(0.8)) touch(all, p, [&] { return *k.it; });
            ++k.it; k.left--;
          }
        }
        break;
      case 7: if (cur.size()) cur.erase(cur.begin() + r.u(cur.size())); break;
      case 8:
        if (all.size() < 5) {
          long before = liveBlocks();
          typename F::Ptr n = r.chance(0.5) ? typename F::Ptr(new F(*f)) : field_dynamic_cast<F>(f->clone());
          VF_CHECK(liveBlocks() == before, "copy-loads", "copying an on-demand field changed the blocks in memory");
          all.emplace_back(new SlotT<T>(n, m));
        }
        break;
      case 9: {
        mgr().flushCache();
        long kept = 0, pinned = 0;
        for (auto& s : all) { kept += s->loaded(); pinned += s->pinnedBytes() / (int64_t)s->bytes(); }
        VF_CHECK(kept == pinned, "flush", "after flushCache() " << kept << " blocks are in memory, " << pinned << " of them in use by iterators");
        vf::count("flushes");
        break;
      }
      case 10: {
        static const double f[] = {0, 0.4, 1, 2.5, 6, 30, 1000};
        g_limit = (int64_t)(f[r.u(7)] * bytes());
        g_limit &= ~63LL;
        mgr().setMaxMemUse((float)(g_limit / 1048576.0));
        g_bound = std::max(g_bound, g_limit);
        log << "L" << g_limit;
        break;
      }
      case 11: {
        mgr().resetCacheStatistics();
        VF_CHECK(mgr().totalLoads() == 0, "reset", "totalLoads() is " << mgr().totalLoads() << " after a reset");
        for (auto& s : all) { s->loads = 0; std::fill(s->ever.begin(), s->ever.end(), 0); }
        g_resetSince = true;
        break;
      }
      case 12: mgr().setLimitMemUse(r.chance(0.5)); break;
      case 13: {
        bulk(all, 40, [&] {
          typename F::LinearInterp li;
          for (int n = 5; n > 0; n--) {
            V3d p;
            for (int a = 0; a < 3; a++) p[a] = r.real(m.dw.min[a], m.dw.max[a] + 1.0);
            li.sample(*f, p);
          }
        });
        g_resetSince = true;  // the set of blocks touched is not modelled here
        break;
      }
      case 14: {  // written to another file, its blocks are needed one after the other
        if (!r.chance(0.4)) break;
        bool og = r.chance(0.5);
        std::string fn = c.path(og ? "copy.og" : "copy.h5");
        log << (og ? "og" : "h5");
        setNumIOThreads(1);
        bulk(all, (long)m.alloc.size(), [&] {
          Field3DOutputFile::useOgawa(og);
          Field3DOutputFile out;
          VF_CHECK(out.create(fn), "copy-create", "cannot create " << fn);
          f->name = "p"; f->attribute = "copy";
          VF_CHECK(IO<T>::write(out, "p", "copy", f), "copy-write", "an on-demand field couldn't be written to another file");
          VF_CHECK(out.close(), "copy-write", "close failed");
        });
        remove(fn.c_str());
        vf::count("fields_written_again");
        g_resetSince = true;
        break;
      }
    }
  }
};

void invariants(const Slots& v) {
  long loaded = 0, loads = 0, ever = 0;
  for (auto& s : v) { loaded += s->loaded(); loads += s->loads; ever += s->everCount(); s->checkMem(); s->markAll(); }
  VF_CHECK(liveBlocks() == loaded, "leak", liveBlocks() << " blocks allocated, the fields hold " << loaded);
  VF_CHECK(mgr().numLoadedBlocks() == loaded, "numLoadedBlocks", "numLoadedBlocks() is " << mgr().numLoadedBlocks() << ", in memory are " << loaded);
  VF_CHECK(mgr().totalLoads() == loads, "totalLoads", "totalLoads() is " << mgr().totalLoads() << ", blocks were loaded " << loads << " times");
  long tl = mgr().totalLoadedBlocks();
  if (!g_resetSince) VF_CHECK(tl == ever, "totalLoadedBlocks", "totalLoadedBlocks() is " << tl << ", distinct blocks loaded: " << ever);
  VF_CHECK(tl >= loaded && tl >= ever, "totalLoadedBlocks", "totalLoadedBlocks() is " << tl << " with " << loaded << " in memory");
  float a = mgr().cacheFractionLoaded(), b = mgr().cacheLoadsPerBlock(), e = mgr().cacheEfficiency();
  VF_CHECK(std::fabs(a - (double)loaded / std::max(1L, tl)) < 1e-6, "fraction", "cacheFractionLoaded() " << a);
  VF_CHECK(std::fabs(b - (double)loads / std::max(1L, tl)) < 1e-6 * (1 + b), "loads-per-block", "cacheLoadsPerBlock() " << b);
  VF_CHECK(std::fabs(e - (double)tl / std::max(1L, loads)) < 1e-6 * (1 + e), "efficiency", "cacheEfficiency() " << e);
  VF_CHECK(liveBytes() <= g_bound, "budget", "cache holds " << liveBytes() << " bytes; limit " << g_limit << " allowed " << g_bound);
  vf::count("quiescent_states");
  vf::seen("cache_states", Hash().add(loaded).add(loads).add(tl).add(liveBytes()).add(g_limit).h);
}
}  // namespace

void vf_case(Ctx& c) {
  Rng& r = c.rng;
  std::ostringstream log;
  mgr().setLimitMemUse(false);
  g_on = false;
  sizes().clear();
  g_resetSince = false;
  {
    Slots slots;
    int nl = r.range(1, 4);
    std::string fn[2] = {c.path("a.f3d"), c.path("b.f3d")};
    std::vector<std::function<void()> > readers;
    for (int fi = 0; fi < 2; fi++) {
      bool og = r.chance(0.6);
      Field3DOutputFile::useOgawa(og);
      Field3DOutputFile out;
      VF_CHECK(out.create(fn[fi]), "create", "create failed");
      log << (og ? " ogawa" : " hdf5");
      for (int li = 0; li < nl; li++) {
        if (li % 2 != fi) continue;
        withType((int)r.u(6), [&](auto z) {
          typedef decltype(z) T;
          Box3i e, w;
          rndWindows(r, e, w, 20);
          int order = r.range(1, 4);
          SparseModel<T> m;
          auto f = mkSparse<T>(r, e, w, order, ValWide, &m, 0.7);
          log << " " << TT<T>::nm() << str(w) << "o" << order;
          std::string l = "l" + std::to_string(li), path = fn[fi];
          VF_CHECK(IO<T>::write(out, "p", l, f), "write", "write failed");
          readers.push_back([&slots, m, l, path] {
            Field3DInputFile in;
            VF_CHECK(in.open(path), "open", "open");
            auto v = IO<T>::read(in, "p", l);
            VF_CHECK(v.size() == 1, "read", "read");
            auto f = field_dynamic_cast<SparseField<T> >(v[0]);
            VF_CHECK(f && f->isDynamicLoad(), "read", "not loaded on demand");
            slots.emplace_back(new SlotT<T>(f, m));
          });
          watch(sizeof(T) << (3 * order));
        });
      }
      out.close();
    }
    recs().clear(); g_liveBlocks = 0; g_liveBytes = 0; g_on = true;
    mgr().setLimitMemUse(true);
    for (auto& f : readers) f();
    mgr().setLimitMemUse(r.chance(0.6));
    if (r.chance(0.5)) mgr().resetCacheStatistics();
    static const double fl[] = {0, 0.4, 1, 2.5, 6, 30, 1000};
    g_limit = (int64_t)(fl[r.u(7)] * slots[0]->bytes()) & ~63LL;
    mgr().setMaxMemUse((float)(g_limit / 1048576.0));
    g_bound = g_limit;
    log << " limit" << g_limit << " ops:";
    vf::nontrivial(Hash().add(log.str()).h);
    int n = r.range(10, 70);
    for (int i = 0; i < n && slots.size(); i++) {
      size_t s = r.u(slots.size());
      log << " #" << s;
      c.desc = log.str();
      slots[s]->op(c, slots, log);
      c.desc = log.str();
      invariants(slots);
      if (r.chance(0.04)) { slots.erase(slots.begin() + r.u(slots.size())); log << " del"; c.desc = log.str(); invariants(slots); }
    }
    while (slots.size()) {
      slots.erase(slots.begin() + r.u(slots.size()));
      invariants(slots);
    }
    vf::count("histories");
  }
  g_on = false;
  remove(c.path("a.f3d").c_str());
  remove(c.path("b.f3d").c_str());
}

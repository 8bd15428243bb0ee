// P01: fields with more values than an int can count survive the round trip (thorough tier only: several GB).
#include "gen.h"
#include <array>
using namespace gen;

const char* vf_id() { return "P01"; }
void vf_init() { initIO(); }

template <class T> static void large(Ctx& c, bool ogawa, const V3i& res) {
  Rng& r = c.rng;
  typedef typename DenseField<T>::Ptr Ptr;
  const std::string path = c.path("large.f3d");
  unlink(path.c_str());
  // a few scattered values; index -> value, so that reading can be compared in a single sweep
  std::map<size_t, T> marks;
  const size_t n = (size_t)res.x * res.y * res.z;
  marks[0] = rndVal<T>(r);
  marks[n - 1] = rndVal<T>(r);
  for (size_t edge : {size_t(1) << 31, (size_t(1) << 31) / 3, size_t(1) << 32})
    for (int o = -1; o <= 1; o++) if (edge + o < n) marks[edge + o] = rndVal<T>(r);
  for (int i = 0; i < 2000; i++) marks[((uint64_t)r.u(1u << 31) << 1 ^ r.u(1u << 31)) % n] = rndVal<T>(r);
  const V3i org(r.range(-5, 5), r.range(-5, 5), r.range(-5, 5));
  {
    Ptr f(new DenseField<T>);
    f->name = "p"; f->attribute = "a";
    f->setSize(Box3i(org, org + res - V3i(1)));
    f->setMapping(rndMapping(r, 1));
    f->clear(T(0));
    for (auto& m : marks) {
      size_t x = m.first % res.x, y = m.first / res.x % res.y, z = m.first / res.x / res.y;
      f->lvalue(org.x + (int)x, org.y + (int)y, org.z + (int)z) = m.second;
    }
    Field3DOutputFile out;
    Field3DOutputFile::useOgawa(ogawa);
    VF_CHECK(out.create(path), "large-create", "create failed");
    VF_CHECK(IO<T>::write(out, f), "large-write", "a field of " << n << " voxels couldn't be written");
    VF_CHECK(out.close(), "large-close", "close failed");
  }
  {
    Field3DInputFile in;
    VF_CHECK(in.open(path), "large-open", "open failed");
    auto v = IO<T>::read(in, "p", "a");
    VF_CHECK(v.size() == 1, "large-read", v.size() << " fields of " << n << " voxels read");
    Ptr f = field_dynamic_cast<DenseField<T> >(v[0]);
    VF_CHECK(f, "large-class", "not a dense field");
    VF_CHECK(f->dataWindow() == Box3i(org, org + res - V3i(1)), "large-window", "window " << str(f->dataWindow()));
    const T* p = &*f->cbegin();
    size_t at = 0, bad = 0, first = 0;
    auto zeros = [&](size_t to) {
      const char* b = (const char*)(p + at); const char* e = (const char*)(p + to);
      for (; b < e && *b == 0; b++) {}
      if (b < e && !bad++) first = (b - (const char*)p) / sizeof(T);
    };
    for (auto& m : marks) {
      zeros(m.first);
      if (!vf::bitEq(p[m.first], m.second) && !bad++) first = m.first;
      at = m.first + 1;
    }
    zeros(n);
    VF_CHECK(!bad, "large-voxels", "voxel " << first << " of " << n << " is wrong");
  }
  unlink(path.c_str());
  vf::count("large_voxels", n);
}

// more voxels in allocated blocks than an int can count, in a window of many more
template <class T> static void largeSparse(Ctx& c, bool ogawa, int order, int blocks, size_t minVoxels) {
  Rng& r = c.rng;
  typedef SparseField<T> S;
  const std::string path = c.path("large.f3d");
  unlink(path.c_str());
  const int bs = 1 << order;
  const V3i org(r.range(-5, 5), r.range(-5, 5), r.range(-5, 5));
  const V3i res(blocks * bs - r.range(0, bs - 1), blocks * bs - r.range(0, bs - 1), blocks * bs - r.range(0, bs - 1));
  const size_t numBlocks = (size_t)blocks * blocks * blocks, perBlock = (size_t)1 << (3 * order);
  struct M { V3i p; T v; };
  std::vector<M> marks;
  std::vector<char> alloc(numBlocks, 0);
  T bg = rndVal<T>(r, ValWide);
  {
    typename S::Ptr f(new S);
    f->name = "p"; f->attribute = "a";
    f->setBlockOrder(order);
    f->setSize(Box3i(org, org + res - V3i(1)));
    f->setMapping(rndMapping(r, 1));
    f->clear(bg);
    size_t done = 0;
    while (done * perBlock < minVoxels) {
      V3i b(r.u(blocks), r.u(blocks), r.u(blocks));
      size_t id = b.x + blocks * (b.y + (size_t)blocks * b.z);
      if (alloc[id]) continue;
      alloc[id] = 1;
      done++;
      for (int k = 0; k < 2; k++) {
        M m;
        for (int d = 0; d < 3; d++) m.p[d] = std::min(res[d] - 1, b[d] * bs + (int)r.u(bs));
        m.v = rndVal<T>(r, ValWide);
        f->lvalue(org.x + m.p.x, org.y + m.p.y, org.z + m.p.z) = m.v;
        bool again = false;
        for (size_t q = marks.size(); q-- > 0 && q + 3 > marks.size();) if (marks[q].p == m.p) { marks[q].v = m.v; again = true; }
        if (!again) marks.push_back(m);
      }
    }
    Field3DOutputFile out;
    Field3DOutputFile::useOgawa(ogawa);
    VF_CHECK(out.create(path), "large-create", "create failed");
    VF_CHECK(IO<T>::write(out, f), "large-write", "a sparse field of " << done << " blocks couldn't be written");
    VF_CHECK(out.close(), "large-close", "close failed");
    vf::count("large_blocks", done);
  }
  for (int dyn = 0; dyn < 2; dyn++) {
    SparseFileManager::singleton().setLimitMemUse(dyn);
    SparseFileManager::singleton().setMaxMemUse(200.0f);
    Field3DInputFile in;
    VF_CHECK(in.open(path), "large-open", "open failed");
    auto v = IO<T>::read(in, "p", "a");
    VF_CHECK(v.size() == 1, "large-read", v.size() << " sparse fields read");
    typename S::Ptr f = field_dynamic_cast<S>(v[0]);
    VF_CHECK(f, "large-class", "not a sparse field");
    VF_CHECK(f->dataWindow() == Box3i(org, org + res - V3i(1)) && f->blockOrder() == order, "large-window", "window " << str(f->dataWindow()));
    for (size_t id = 0; id < numBlocks; id++) {
      int bi = id % blocks, bj = id / blocks % blocks, bk = id / blocks / blocks;
      VF_CHECK(f->blockIsAllocated(bi, bj, bk) == !!alloc[id], "large-alloc", "allocation of block " << id << " differs");
    }
    for (auto& m : marks) {
      T x = f->value(org.x + m.p.x, org.y + m.p.y, org.z + m.p.z);
      VF_CHECK(vf::bitEq(x, m.v), "large-voxels", "voxel " << str(m.p) << " is " << str(x) << " not " << str(m.v));
    }
    std::set<std::array<int, 3> > known;
    for (auto& m : marks) known.insert({m.p.x, m.p.y, m.p.z});
    for (int t = 0; t < 20000; t++) {
      V3i p(r.u(res.x), r.u(res.y), r.u(res.z));
      if (known.count({p.x, p.y, p.z})) continue;
      T x = f->value(org.x + p.x, org.y + p.y, org.z + p.z);
      VF_CHECK(vf::bitEq(x, bg), "large-voxels", "voxel " << str(p) << " is " << str(x) << " not the background " << str(bg));
    }
    v.clear();
    f.reset();
    SparseFileManager::singleton().setLimitMemUse(false);
  }
  unlink(path.c_str());
}

void vf_case(Ctx& c) {
  vf::setCaseTimeout(800);
  const bool ogawa = c.idx % 2 == 0;
  if (c.idx % 4 > 1) {
    int order = c.rng.range(5, 7), blocks = c.rng.range(45, 60);
    std::ostringstream d;
    d << "large sparse " << (ogawa ? "ogawa" : "hdf5") << " order " << order << " blocks " << blocks;
    c.desc = d.str();
    if (c.rng.chance(0.5)) largeSparse<half>(c, ogawa, order, blocks, ((size_t)1 << 31) + 1);
    else largeSparse<V3h>(c, ogawa, order, blocks, ((size_t)1 << 31) / 3 + 1);
    vf::nontrivial(Hash().add(c.desc).h);
    return;
  }
  const int extra = c.rng.range(0, 9);
  V3i res = ogawa ? V3i(1291 + extra, 1291, 1291) : V3i(895 + extra, 895, 895);
  if (c.rng.chance(0.5)) std::swap(res.x, res.z);
  std::ostringstream d;
  d << "large " << (ogawa ? "ogawa half " : "hdf5 V3h ") << res.x << "x" << res.y << "x" << res.z;
  c.desc = d.str();
  if (ogawa) large<half>(c, true, res); else large<V3h>(c, false, res);
  vf::nontrivial(Hash().add(c.desc).h);
}

// P11: a field behaves as an exact map from voxel coordinates to values.
#include "gen.h"
using namespace gen;

const char* vf_id() { return "P11"; }
void vf_init() { initIO(); Msg::setVerbosity(0); }

namespace {
std::string g_ops;
void op(const std::string& s) { g_ops += " " + s; }

// ------------------------------------------------------------------ dense
template <class T> struct DModel {
  Box3i ext, dw;
  bool sized = false;
  std::vector<T> v;
  std::vector<char> known;
};
template <class T> void checkDense(const DenseField<T>& f, const DModel<T>& m) {
  const Field<T>& base = f;
  if (!m.sized) {
    VF_CHECK(f.voxelCount() == 0 && f.dataResolution() == V3i(0), "dense:fresh", "fresh field not empty" << g_ops);
    return;
  }
  VF_CHECK(f.extents() == m.ext && f.dataWindow() == m.dw, "dense:windows", "windows " << str(f.extents()) << str(f.dataWindow()) << " expected " << str(m.ext) << str(m.dw) << g_ops);
  VF_CHECK(f.dataResolution() == res(m.dw), "dense:res", "dataResolution" << g_ops);
  VF_CHECK(f.voxelCount() == vox(m.dw), "dense:voxelCount", "voxelCount " << f.voxelCount() << " expected " << vox(m.dw) << g_ops);
  long long ms = f.memSize(), pay = (long long)(vox(m.dw) * sizeof(T));
  VF_CHECK(ms >= pay && ms <= pay + 4096, "dense:memSize", "memSize " << ms << " for payload " << pay << g_ops);
  forBox(m.dw, [&](int i, int j, int k) {
    size_t l = lin(m.dw, i, j, k);
    if (!m.known[l]) return;
    T a = f.value(i, j, k), b = f.fastValue(i, j, k), c = base.value(i, j, k);
    VF_CHECK(vf::bitEq(a, m.v[l]) && vf::bitEq(b, a) && vf::bitEq(c, a), "dense:voxel",
             "voxel " << str(V3i(i, j, k)) << " reads " << str(a) << "/" << str(b) << "/" << str(c) << " expected " << str(m.v[l]) << " after" << g_ops);
  });
  vf::count("voxels_compared", vox(m.dw));
}
template <class F> void checkGrains(const F& f, const char* key) {
  Box3i dw = f.dataWindow();
  std::vector<int> n(vox(dw), 0);
  for (size_t g = 0; g < f.numGrains(); g++) {
    Box3i b;
    f.getGrainBounds(g, b);
    VF_CHECK(b.min.x >= dw.min.x && b.min.y >= dw.min.y && b.min.z >= dw.min.z && b.max.x <= dw.max.x && b.max.y <= dw.max.y && b.max.z <= dw.max.z,
             key, "grain " << g << " " << str(b) << " leaves the data window " << str(dw) << g_ops);
    forBox(b, [&](int i, int j, int k) { n[lin(dw, i, j, k)]++; });
  }
  for (size_t i = 0; i < n.size(); i++) VF_CHECK(n[i] == 1, key, "voxel #" << i << " is in " << n[i] << " grains" << g_ops);
}
void checkBounds(Rng& r, const FieldRes& f) {
  Box3i dw = f.dataWindow();
  for (int n = 0; n < 6; n++) {
    V3i p;
    for (int c = 0; c < 3; c++) p[c] = r.chance(0.6) ? r.range(dw.min[c] - 1, dw.max[c] + 1) : (r.chance(0.5) ? dw.min[c] : dw.max[c]);
    bool in = true;
    for (int c = 0; c < 3; c++) in &= p[c] >= dw.min[c] && p[c] <= dw.max[c];
    VF_CHECK(f.isInBounds(p.x, p.y, p.z) == in, "isInBounds", "isInBounds " << str(p) << " for " << str(dw) << g_ops);
  }
}
template <class F> void rndSetSize(Rng& r, F& f, Box3i& ext, Box3i& dw, int maxRes = 9) {
  int how = (int)r.u(4);
  rndWindows(r, ext, dw, maxRes, 8);
  if (how == 0) {
    V3i s = res(ext);
    f.setSize(s);
    ext = dw = Box3i(V3i(0), s - V3i(1));
  } else if (how == 1) {
    f.setSize(ext);
    dw = ext;
  } else if (how == 2) {
    f.setSize(ext, dw);
  } else {
    V3i s = res(ext);
    int p = r.range(0, 3);
    f.setSize(s, p);
    ext = Box3i(V3i(0), s - V3i(1));
    dw = Box3i(V3i(-p), s + V3i(p - 1));
  }
  op("setSize" + str(ext) + str(dw));
}
V3i rndPos(Rng& r, const Box3i& b) {
  V3i p;
  for (int c = 0; c < 3; c++) p[c] = r.chance(0.3) ? (r.chance(0.5) ? b.min[c] : b.max[c]) : r.range(b.min[c], b.max[c]);
  return p;
}
template <class T> void denseCase(Rng& r) {
  typename DenseField<T>::Ptr fp(new DenseField<T>);
  DenseField<T>& f = *fp;
  WritableField<T>& wf = f;
  DModel<T> m;
  checkDense(f, m);
  int n = r.range(4, 14);
  for (int s = 0; s < n; s++) {
    int o = m.sized ? (int)r.u(8) : 0;
    if (o == 0) {
      rndSetSize(r, f, m.ext, m.dw);
      m.sized = true;
      m.v.assign(vox(m.dw), T(0));
      m.known.assign(vox(m.dw), 0);
    } else if (o == 1) {
      T v = rndVal<T>(r);
      if (r.chance(0.5)) f.clear(v); else wf.clear(v);
      m.v.assign(m.v.size(), v);
      m.known.assign(m.v.size(), 1);
      op("clear");
    } else if (o == 2 && r.chance(0.4)) {
      // an inverted window is refused, and the field is usable again after the next resize
      bool threw = false;
      try { f.setSize(Box3i(V3i(0), V3i(3)), Box3i(V3i(2), V3i(1, 4, 4))); } catch (Exc::ResizeException&) { threw = true; }
      VF_CHECK(threw, "dense:negative", "inverted data window accepted" << g_ops);
      op("bad-size");
      rndSetSize(r, f, m.ext, m.dw);
      m.v.assign(vox(m.dw), T(0));
      m.known.assign(vox(m.dw), 0);
    } else {
      for (int q = r.range(1, 6); q > 0; q--) {
        V3i p = rndPos(r, m.dw);
        T v = rndVal<T>(r);
        switch (r.u(3)) {
          case 0: f.lvalue(p.x, p.y, p.z) = v; break;
          case 1: f.fastLValue(p.x, p.y, p.z) = v; break;
          default: wf.lvalue(p.x, p.y, p.z) = v;
        }
        m.v[lin(m.dw, p.x, p.y, p.z)] = v;
        m.known[lin(m.dw, p.x, p.y, p.z)] = 1;
        op("w" + str(p));
      }
    }
    checkDense(f, m);
    checkBounds(r, f);
  }
  checkGrains(f, "dense:grains");
}

// ------------------------------------------------------------------ sparse
template <class T> void checkSparse(Rng& r, const SparseField<T>& f, const SparseModel<T>& m) {
  std::string s = sparseModelDiff(f, m);
  VF_CHECK(s.empty(), "sparse:content", s << " after" << g_ops);
  const Field<T>& base = f;
  int bs = 1 << m.order;
  VF_CHECK(f.blockSize() == bs, "sparse:blockSize", "blockSize" << g_ops);
  size_t na = 0;
  for (char a : m.alloc) na += a;
  size_t per = (size_t)bs * bs * bs;
  VF_CHECK(f.voxelCount() == na * per, "sparse:voxelCount", "voxelCount " << f.voxelCount() << " with " << na << " blocks of " << per << g_ops);
  long long ms = f.memSize(), pay = (long long)(na * per * sizeof(T));
  VF_CHECK(ms >= pay && ms <= pay + 4096 + 64 * (long long)m.alloc.size(), "sparse:memSize", "memSize " << ms << " for payload " << pay << g_ops);
  for (int n = 0; n < 8; n++) {
    V3i p = rndPos(r, m.dw);
    int bi, bj, bk;
    m.blockOf(p.x, p.y, p.z, bi, bj, bk);
    int i = p.x, j = p.y, k = p.z, ci, cj, ck, vi, vj, vk;
    f.applyDataWindowOffset(i, j, k);
    f.getBlockCoord(i, j, k, ci, cj, ck);
    f.getVoxelInBlock(i, j, k, vi, vj, vk);
    VF_CHECK(ci == bi && cj == bj && ck == bk, "sparse:blockCoord", "block of " << str(p) << g_ops);
    VF_CHECK(f.blockIndexIsValid(ci, cj, ck) && !f.blockIndexIsValid(m.bres.x, cj, ck) && !f.blockIndexIsValid(ci, m.bres.y, ck) &&
             !f.blockIndexIsValid(ci, cj, m.bres.z) && !f.blockIndexIsValid(-1, cj, ck) && !f.blockIndexIsValid(ci, -1, ck) && !f.blockIndexIsValid(ci, cj, -1),
             "sparse:blockIndex", "blockIndexIsValid" << g_ops);
    VF_CHECK(f.blockId(ci, cj, ck) == (int)m.bid(bi, bj, bk), "sparse:blockId", "blockId" << g_ops);
    bool al = m.alloc[m.bid(bi, bj, bk)];
    VF_CHECK(f.voxelIsInAllocatedBlock(p.x, p.y, p.z) == al, "sparse:allocated", "voxelIsInAllocatedBlock " << str(p) << g_ops);
    T a = f.value(p.x, p.y, p.z), b = base.value(p.x, p.y, p.z), e = m.data[lin(m.dw, p.x, p.y, p.z)];
    VF_CHECK(vf::bitEq(a, e) && vf::bitEq(b, e), "sparse:voxel", "voxel " << str(p) << g_ops);
    T* d = f.blockData(bi, bj, bk);
    VF_CHECK((d != NULL) == al, "sparse:blockData", "blockData null-ness" << g_ops);
    if (d) {
      T x = d[vi + vj * bs + vk * bs * bs];
      VF_CHECK(vf::bitEq(x, e), "sparse:blockData", "blockData value" << g_ops);
    }
    // the blocks covering a sub-window
    Box3i sub = rndSub(r, m.dw), bc = blockCoords(sub, &f);
    int b0[3], b1[3];
    m.blockOf(sub.min.x, sub.min.y, sub.min.z, b0[0], b0[1], b0[2]);
    m.blockOf(sub.max.x, sub.max.y, sub.max.z, b1[0], b1[1], b1[2]);
    VF_CHECK(bc.min == V3i(b0[0], b0[1], b0[2]) && bc.max == V3i(b1[0], b1[1], b1[2]), "sparse:blockCoords", "blockCoords of " << str(sub) << " = " << str(bc) << g_ops);
  }
}
template <class T> bool sameEq(const T& a, const T& b) { return a == b; }
template <class T> void sparseCase(Rng& r) {
  typename SparseField<T>::Ptr fp(new SparseField<T>);
  SparseField<T>& f = *fp;
  WritableField<T>& wf = f;
  SparseModel<T> m;
  int order = f.blockOrder();
  if (r.chance(0.7)) { order = r.range(0, 4); f.setBlockOrder(order); op("order" + std::to_string(order)); }
  Box3i e, d;
  rndSetSize(r, f, e, d, 10);
  m.init(e, d, order);
  checkSparse(r, f, m);
  int n = r.range(4, 14);
  auto blockBox = [&](int bi, int bj, int bk) {
    int bs = 1 << m.order;
    Box3i b(m.dw.min + V3i(bi, bj, bk) * bs, m.dw.min + V3i(bi + 1, bj + 1, bk + 1) * bs - V3i(1));
    for (int c = 0; c < 3; c++) b.max[c] = std::min(b.max[c], m.dw.max[c]);
    return b;
  };
  auto release = [&](bool maxAbs, T lim) {
    int cnt = 0;
    forBox(Box3i(V3i(0), m.bres - V3i(1)), [&](int bi, int bj, int bk) {
      size_t b = m.bid(bi, bj, bk);
      if (!m.alloc[b]) return;
      Box3i bb = blockBox(bi, bj, bk);
      T first = m.data[lin(m.dw, bb.min.x, bb.min.y, bb.min.z)];
      bool all = true;
      forBox(bb, [&](int i, int j, int k) {
        T v = m.data[lin(m.dw, i, j, k)];
        if (maxAbs) { for (int c = 0; c < TT<T>::n; c++) if (std::abs(comp(v, c)) < comp(lim, c)) all = false; }
        else if (!(v == first)) all = false;
      });
      if (!all) return;
      m.alloc[b] = 0;
      m.empty[b] = first;
      forBox(bb, [&](int i, int j, int k) { m.data[lin(m.dw, i, j, k)] = first; });
      cnt++;
    });
    return cnt;
  };
  for (int s = 0; s < n; s++) {
    switch (r.u(9)) {
      case 0:
        rndSetSize(r, f, e, d, 10);
        m.init(e, d, m.order);
        break;
      case 1: {
        int o = r.range(0, 4);
        f.setBlockOrder(o);
        m.init(m.ext, m.dw, o);
        op("order" + std::to_string(o));
        break;
      }
      case 2: {
        T v = rndVal<T>(r);
        if (r.chance(0.5)) f.clear(v); else wf.clear(v);
        m.init(m.ext, m.dw, m.order);
        for (auto& x : m.empty) x = v;
        for (auto& x : m.data) x = v;
        op("clear");
        break;
      }
      case 3: {
        V3i b(r.range(0, m.bres.x - 1), r.range(0, m.bres.y - 1), r.range(0, m.bres.z - 1));
        T v = rndVal<T>(r);
        f.setBlockEmptyValue(b.x, b.y, b.z, v);
        m.alloc[m.bid(b.x, b.y, b.z)] = 0;
        m.empty[m.bid(b.x, b.y, b.z)] = v;
        forBox(blockBox(b.x, b.y, b.z), [&](int i, int j, int k) { m.data[lin(m.dw, i, j, k)] = v; });
        op("empty" + str(b));
        break;
      }
      case 4: {
        // fill a block with one value so that it can be released
        V3i b(r.range(0, m.bres.x - 1), r.range(0, m.bres.y - 1), r.range(0, m.bres.z - 1));
        T v = rndVal<T>(r, ValSmall);
        bool hole = r.chance(0.3);
        Box3i bb = blockBox(b.x, b.y, b.z);
        V3i h = rndPos(r, bb);
        forBox(bb, [&](int i, int j, int k) {
          T x = hole && V3i(i, j, k) == h ? mkVal<T>(17) : v;
          f.fastLValue(i, j, k) = x;
          m.data[lin(m.dw, i, j, k)] = x;
        });
        m.alloc[m.bid(b.x, b.y, b.z)] = 1;
        op("fill" + str(b));
        if (r.chance(0.3)) break;
      }
      // fall through
      case 5: {
        int got, want;
        if (r.chance(0.75)) {
          got = f.releaseBlocks(Sparse::CheckAllEqual<T>());
          want = release(false, T(0));
        } else {
          T lim = mkVal<T>(r.range(0, 4));
          got = f.releaseBlocks(Sparse::CheckMaxAbs<T>(lim));
          want = release(true, lim);
        }
        op("release");
        VF_CHECK(got == want, "sparse:release", "releaseBlocks returned " << got << " expected " << want << g_ops);
        break;
      }
      default:
        for (int q = r.range(1, 6); q > 0; q--) {
          V3i p = rndPos(r, m.dw);
          T v = rndVal<T>(r);
          int bi, bj, bk;
          m.blockOf(p.x, p.y, p.z, bi, bj, bk);
          switch (r.u(4)) {
            case 0: f.lvalue(p.x, p.y, p.z) = v; break;
            case 1: f.fastLValue(p.x, p.y, p.z) = v; break;
            case 2: wf.lvalue(p.x, p.y, p.z) = v; break;
            default: *f.begin(Box3i(p, p)) = v;
          }
          m.alloc[m.bid(bi, bj, bk)] = 1;
          m.data[lin(m.dw, p.x, p.y, p.z)] = v;
          op("w" + str(p));
        }
    }
    checkSparse(r, f, m);
    checkBounds(r, f);
  }
  checkGrains(f, "sparse:grains");
}

// ------------------------------------------------------------------ MAC
template <class T, class Get, class S> void checkFace(const Box3i& b, const std::vector<S>& v, Get get, const char* key) {
  forBox(b, [&](int i, int j, int k) {
    S x = get(i, j, k);
    VF_CHECK(vf::bitEq(x, v[lin(b, i, j, k)]), key, "face " << str(V3i(i, j, k)) << " reads " << str(x) << " expected " << str(v[lin(b, i, j, k)]) << g_ops);
  });
}
template <class T> void macCase(Rng& r) {
  typedef typename TT<T>::S S;
  typename MACField<T>::Ptr fp(new MACField<T>);
  MACField<T>& f = *fp;
  const MACField<T>& cf = f;
  Box3i e, d;
  rndSetSize(r, f, e, d, 7);
  f.clear(T(0));
  Box3i b[3];
  std::vector<S> v[3];
  auto shape = [&](S a, S bb, S c) {
    S x[3] = {a, bb, c};
    for (int q = 0; q < 3; q++) { b[q] = d; b[q].max[q]++; v[q].assign(vox(b[q]), x[q]); }
  };
  shape(S(0), S(0), S(0));
  for (int s = r.range(3, 10); s > 0; s--) {
    int o = (int)r.u(6);
    if (o == 0) {
      rndSetSize(r, f, e, d, 7);
      T z = rndVal<T>(r);
      f.clear(z);
      shape(z.x, z.y, z.z);
    } else if (o == 1) {
      T z = rndVal<T>(r);
      f.clear(z);
      shape(z.x, z.y, z.z);
      op("clear");
    } else if (o == 2) {
      V3i p = rndPos(r, d);
      f.lvalue(p.x, p.y, p.z) = rndVal<T>(r);  // documented as having no effect on a staggered field
    } else
      for (int q = 0; q < 5; q++) {
        int c = (int)r.u(3);
        V3i p = rndPos(r, b[c]);
        S x = toS<S>(randScalarD(r, ValSpecial));
        if (c == 0) f.u(p.x, p.y, p.z) = x;
        if (c == 1) f.v(p.x, p.y, p.z) = x;
        if (c == 2) f.w(p.x, p.y, p.z) = x;
        v[c][lin(b[c], p.x, p.y, p.z)] = x;
        op("f" + std::to_string(c) + str(p));
      }
    VF_CHECK(f.extents() == e && f.dataWindow() == d, "mac:windows", "windows" << g_ops);
    VF_CHECK(f.voxelCount() == vox(d), "mac:voxelCount", "voxelCount" << g_ops);
    V3i cs = f.getComponentSize();
    VF_CHECK(cs == V3i((int)vox(b[0]), (int)vox(b[1]), (int)vox(b[2])), "mac:sizes", "component sizes " << str(cs) << g_ops);
    long long ms = f.memSize(), pay = (long long)((vox(b[0]) + vox(b[1]) + vox(b[2])) * sizeof(S));
    VF_CHECK(ms >= pay, "mac:memSize", "memSize " << ms << " < payload " << pay << g_ops);
    checkFace<T>(b[0], v[0], [&](int i, int j, int k) { return cf.u(i, j, k); }, "mac:u");
    checkFace<T>(b[1], v[1], [&](int i, int j, int k) { return cf.v(i, j, k); }, "mac:v");
    checkFace<T>(b[2], v[2], [&](int i, int j, int k) { return cf.w(i, j, k); }, "mac:w");
    forBox(d, [&](int i, int j, int k) {
      T x = cf.value(i, j, k);
      for (int c = 0; c < 3; c++) {
        V3i p(i, j, k), q = p;
        q[c]++;
        double want = 0.5 * (comp(v[c][lin(b[c], p.x, p.y, p.z)], 0) + comp(v[c][lin(b[c], q.x, q.y, q.z)], 0));
        double got = comp(x, c);
        bool ok = std::isfinite(want) ? (std::abs(got - want) <= 2e-3 * std::abs(want) + 1e-4 || (sizeof(S) == 2 && std::abs(want) > 6e4)) : !std::isfinite(got);
        VF_CHECK(ok, "mac:center", "center value " << got << " expected " << want << " at " << str(p) << " comp " << c << g_ops);
      }
    });
    checkBounds(r, f);
    vf::count("voxels_compared", 4 * vox(d));
  }
}
template <class T, int V = TT<T>::vec> struct MacGo { static bool go(Rng&) { return false; } };
template <class T> struct MacGo<T, 1> { static bool go(Rng& r) { macCase<T>(r); return true; } };

// ------------------------------------------------------------------ empty (proxy) field
template <class T> void emptyCase(Rng& r) {
  typename EmptyField<T>::Ptr fp(new EmptyField<T>);
  EmptyField<T>& f = *fp;
  Box3i e, d;
  T cur = T(0), cst = T(0);
  rndSetSize(r, f, e, d);
  if (r.chance(0.2)) {
    // proxies stand for fields far larger than memory
    V3i s(r.range(1000, 9000), r.range(1000, 9000), r.range(1000, 9000)), o(r.range(-4000, 4000), r.range(-4000, 4000), 0);
    Box3i b(o, o + s - V3i(1));
    f.setSize(b);
    VF_CHECK(f.voxelCount() == (size_t)s.x * s.y * s.z, "empty:voxelCount", "voxelCount of " << str(b) << " is " << f.voxelCount());
    f.setSize(e, d);
  }
  for (int s = r.range(3, 8); s > 0; s--) {
    switch (r.u(4)) {
      case 0: rndSetSize(r, f, e, d); break;
      case 1: cur = cst = rndVal<T>(r); f.clear(cur); op("clear"); break;
      case 2: cst = rndVal<T>(r); f.setConstantvalue(cst); op("const"); break;
      default: { V3i p = rndPos(r, d); f.lvalue(p.x, p.y, p.z) = rndVal<T>(r); op("w"); }
    }
    VF_CHECK(f.extents() == e && f.dataWindow() == d, "empty:windows", "windows" << g_ops);
    VF_CHECK(f.voxelCount() == vox(d), "empty:voxelCount", "voxelCount" << g_ops);
    VF_CHECK(f.memSize() < 8192, "empty:memSize", "memSize" << g_ops);
    T c = f.constantvalue();
    VF_CHECK(vf::bitEq(c, cst), "empty:constant", "constantvalue " << str(c) << " expected " << str(cst) << g_ops);
    forBox(d, [&](int i, int j, int k) {
      T x = f.value(i, j, k);
      VF_CHECK(vf::bitEq(x, cur), "empty:voxel", "voxel reads " << str(x) << " expected " << str(cur) << g_ops);
    });
    checkBounds(r, f);
  }
}
}  // namespace

void vf_case(Ctx& c) {
  Rng& r = c.rng;
  g_ops.clear();
  int type = (int)r.u(6), kind = (int)r.u(8);
  if (kind == 7 && type < 3) kind = 1;
  static const char* kn[] = {"dense", "dense", "sparse", "sparse", "sparse", "sparse", "empty", "mac"};
  c.desc = std::string(kn[kind]) + " t" + std::to_string(type);
  withType(type, [&](auto z) {
    typedef decltype(z) T;
    if (kind < 2) denseCase<T>(r);
    else if (kind < 6) sparseCase<T>(r);
    else if (kind == 6) emptyCase<T>(r);
    else MacGo<T>::go(r);
  });
  c.desc += g_ops;
  vf::seen("kind_type", Hash().add((uint64_t)kind).add((uint64_t)type).h);
  vf::nontrivial(Hash().add(c.desc).h);
}

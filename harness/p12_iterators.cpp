// P12: iterators visit every voxel of their range exactly once, in order, with the right values.
#include "gen.h"
#include <algorithm>
using namespace gen;

const char* vf_id() { return "P12"; }
void vf_init() { initIO(); Msg::setVerbosity(0); }

namespace {
Box3i emptyBox(Rng& r, const Box3i& dw) {
  Box3i b = rndSub(r, dw);
  int c = (int)r.u(3);
  b.max[c] = b.min[c] - 1 - (int)r.u(2);
  return b;
}
struct Range { bool whole, empty; Box3i box; std::string s; };
Range pickRange(Rng& r, const Box3i& dw) {
  Range g;
  g.whole = r.chance(0.25);
  g.empty = !g.whole && r.chance(0.1);
  g.box = g.whole ? dw : g.empty ? emptyBox(r, dw) : rndSub(r, dw);
  g.s = (g.whole ? "whole" : g.empty ? "empty" : "sub") + str(g.box);
  return g;
}
// values through operator-> where the iterator has one
template <class It> auto arrow(It& it, int) -> decltype(it.operator->()) { return it.operator->(); }
template <class It> void* arrow(It&, long) { return nullptr; }
template <class T> bool setArrow(T* p, const T& v) { *p = v; return true; }
template <class T> bool setArrow(const T*, const T&) { return false; }
template <class T> bool setArrow(void*, const T&) { return false; }
template <class T> bool getArrow(const T* p, T& v) { v = *p; return true; }
template <class T> bool getArrow(void*, T&) { return false; }
// next expected position, x fastest
struct Walk {
  Box3i b;
  V3i p;
  bool done;
  explicit Walk(const Range& g) : b(g.box), p(g.box.min), done(g.empty) {}
  void next() {
    if (++p.x > b.max.x) { p.x = b.min.x; if (++p.y > b.max.y) { p.y = b.min.y; if (++p.z > b.max.z) done = true; } }
  }
};
template <class It, class Val> void visit(const char* key, It it, const It& end, const Range& g, Val val) {
  Walk w(g);
  size_t n = 0;
  for (; it != end; ++it, w.next()) {
    VF_CHECK(!(it == end), key, "== and != disagree");
    VF_CHECK(!w.done, key, "iterator visits more than the " << vox(g.box) << " voxels of " << g.s);
    VF_CHECK(it.x == w.p.x && it.y == w.p.y && it.z == w.p.z, key, "visit " << n << " of " << g.s << " at " << str(V3i(it.x, it.y, it.z)) << " expected " << str(w.p));
    val(it, w.p);
    n++;
  }
  VF_CHECK(it == end, key, "== and != disagree at the end");
  VF_CHECK(w.done, key, "iterator stopped after " << n << " voxels of " << g.s);
  vf::count("visits", n);
}
template <class T, class Model> struct ReadVal {
  const Model& m;
  const char* key;
  template <class It> void operator()(It& it, const V3i& p) {
    T e = m(p), v = e;
    // either access first
    if ((p.x + 3 * p.y + p.z) & 1) {
      if (getArrow<T>(arrow(it, 0), v)) vf::count("arrow_reads");
      VF_CHECK(vf::bitEq(v, e), key, "value through -> at " << str(p) << " is " << str(v) << " expected " << str(e));
    }
    v = *it;
    VF_CHECK(vf::bitEq(v, e), key, "value at " << str(p) << " is " << str(v) << " expected " << str(e));
  }
};
template <class T, class F, class Model> void readAll(Rng& r, const char* key, const F& f, const Model& m) {
  Range g = pickRange(r, f.dataWindow());
  std::string k = std::string(key) + ":read";
  ReadVal<T, Model> rv{m, k.c_str()};
  if (g.whole) visit(k.c_str(), f.cbegin(), f.cend(), g, rv);
  else visit(k.c_str(), f.cbegin(g.box), f.cend(g.box), g, rv);
  // copies are independent
  if (!g.empty) {
    auto a = f.cbegin(g.box);
    size_t n = vox(g.box), s = r.u(n);
    for (size_t i = 0; i < s; i++) ++a;
    auto b(a);
    size_t adv = r.u(n - s);
    Field3D::advance(b, (int)adv);
    T va = *a;
    V3i pa(a.x, a.y, a.z), pb(b.x, b.y, b.z);
    VF_CHECK(lin(g.box, pa.x, pa.y, pa.z) == s, k, "advancing a copy moved the original iterator");
    VF_CHECK(vf::bitEq(va, m(pa)), k, "value after copying an iterator");
    VF_CHECK(lin(g.box, pb.x, pb.y, pb.z) == s + adv, k, "advance(" << adv << ") landed on voxel " << lin(g.box, pb.x, pb.y, pb.z) << " from " << s);
    T vb = *b;
    VF_CHECK(vf::bitEq(vb, m(pb)), k, "value after advance");
    auto e = f.cend(g.box);
    auto c(a);
    Field3D::advance(c, (int)(n - s + r.u(5)), e);
    VF_CHECK(c == e, k, "bounded advance did not stop at the end");
    // a second walk from the copy sees the rest
    size_t rest = 0;
    for (auto q(b); q != e; ++q) rest++;
    VF_CHECK(rest == n - s - adv, k, "copy visits " << rest << " of " << n - s - adv);
  }
}
template <class T, class F> void writeAll(Rng& r, const char* key, F& f, std::vector<T>& model) {
  const Box3i dw = f.dataWindow();
  Range g = pickRange(r, dw);
  std::string k = std::string(key) + ":write";
  double pw = r.chance(0.3) ? 1.0 : r.f01();
  auto w = [&](auto& it, const V3i& p) {
    if (!r.chance(pw)) return;
    size_t l = lin(dw, p.x, p.y, p.z);
    // reading, writing and reading back, each through * or ->
    int ops = (int)r.u(8), style = (int)r.u(8);
    T cur = model[l];
    if (ops & 1) {
      if (!(style & 1) || !getArrow<T>(arrow(it, 0), cur)) cur = *it;
      VF_CHECK(vf::bitEq(cur, model[l]), k, "value at " << str(p) << " before writing is " << str(cur) << " expected " << str(model[l]));
    }
    if (ops & 6) {
      T v = rndVal<T>(r);
      if ((style & 2) && setArrow<T>(arrow(it, 0), v)) vf::count("arrow_writes");
      else *it = v;
      model[l] = v;
    }
    if (ops & 4) {
      T now = model[l];
      if (!(style & 4) || !getArrow<T>(arrow(it, 0), now)) now = *it;
      VF_CHECK(vf::bitEq(now, model[l]), k, "value at " << str(p) << " after writing");
    }
  };
  if (g.whole) visit(k.c_str(), f.begin(), f.end(), g, w);
  else visit(k.c_str(), f.begin(g.box), f.end(g.box), g, w);
}
template <class T, class F> void compareAll(const char* key, const F& f, const std::vector<T>& model) {
  forBox(f.dataWindow(), [&](int i, int j, int k) {
    T v = f.value(i, j, k);
    VF_CHECK(vf::bitEq(v, model[lin(f.dataWindow(), i, j, k)]), std::string(key) + ":write",
             "voxel " << str(V3i(i, j, k)) << " is " << str(v) << " expected " << str(model[lin(f.dataWindow(), i, j, k)]) << " after writing through iterators");
  });
}
template <class T, class F> std::vector<T> snapshot(const F& f) {
  std::vector<T> v;
  v.reserve(vox(f.dataWindow()));
  forBox(f.dataWindow(), [&](int i, int j, int k) { v.push_back(f.value(i, j, k)); });
  return v;
}
template <class T, class F> void readBoth(Rng& r, const char* key, const F& f) {
  std::vector<T> s = snapshot<T>(f);
  Box3i dw = f.dataWindow();
  auto model = [&](const V3i& p) { return s[lin(dw, p.x, p.y, p.z)]; };
  readAll<T>(r, key, f, model);
  readAll<T>(r, (std::string(key) + ":generic").c_str(), static_cast<const Field<T>&>(f), model);
}
template <class T> void sparseBlocks(const SparseField<T>& f) {
  std::vector<int> n(vox(f.dataWindow()), 0);
  size_t cnt = 0;
  Walk w(Range{true, false, Box3i(V3i(0), f.blockRes() - V3i(1)), ""});
  for (auto b = f.blockBegin(), e = f.blockEnd(); b != e; ++b, w.next()) {
    VF_CHECK(!w.done && V3i(b.x, b.y, b.z) == w.p, "sparse:blocks", "block iterator at " << str(V3i(b.x, b.y, b.z)) << " expected " << str(w.p));
    Box3i bb = b.blockBoundingBox();
    VF_CHECK(!bb.isEmpty(), "sparse:blocks", "empty block box");
    forBox(bb, [&](int i, int j, int k) {
      VF_CHECK(f.isInBounds(i, j, k), "sparse:blocks", "block box " << str(bb) << " of block " << str(w.p) << " leaves the data window " << str(f.dataWindow()));
      n[lin(f.dataWindow(), i, j, k)]++;
      int vi = i, vj = j, vk = k, bi, bj, bk;
      f.applyDataWindowOffset(vi, vj, vk);
      f.getBlockCoord(vi, vj, vk, bi, bj, bk);
      VF_CHECK(V3i(bi, bj, bk) == w.p, "sparse:blocks", "voxel " << str(V3i(i, j, k)) << " in the box of block " << str(w.p) << " belongs to block " << str(V3i(bi, bj, bk)));
    });
    cnt++;
  }
  VF_CHECK(w.done, "sparse:blocks", "block iterator stopped after " << cnt);
  for (int x : n) VF_CHECK(x == 1, "sparse:blocks", "voxel covered by " << x << " block boxes");
  vf::count("blocks_visited", cnt);
}
template <class T, int V = TT<T>::vec> struct MacGo { static void go(Rng&, std::string&) {} };
template <class T> struct MacGo<T, 1> {
  typedef typename TT<T>::S S;
  static void go(Rng& r, std::string& d) {
    Box3i e, w;
    rndWindows(r, e, w, 7);
    typename MACField<T>::Ptr f = mkMAC<T>(r, e, w);
    const MACField<T>& cf = *f;
    d += str(w);
    readAll<T>(r, "mac:generic", static_cast<const Field<T>&>(cf), [&](const V3i& p) { return cf.value(p.x, p.y, p.z); });
    MACComponent comps[3] = {MACCompU, MACCompV, MACCompW};
    for (int c = 0; c < 3; c++) {
      auto get = [&](const V3i& p) -> S { return c == 0 ? cf.u(p.x, p.y, p.z) : c == 1 ? cf.v(p.x, p.y, p.z) : cf.w(p.x, p.y, p.z); };
      Range g = pickRange(r, w), gc = g;
      if (!g.empty) gc.box.max[c]++;
      auto rd = [&](auto& it, const V3i& p) {
        S x = get(p), v = x;
        if (r.chance(0.5) || !getArrow<S>(arrow(it, 0), v)) v = *it;
        VF_CHECK(vf::bitEq(v, x), "mac:comp", "component " << c << " at " << str(p) << " is " << str(v) << " expected " << str(x));
      };
      if (g.whole) visit("mac:comp", cf.cbegin_comp(comps[c]), cf.cend_comp(comps[c]), gc, rd);
      else visit("mac:comp", cf.cbegin_comp(comps[c], g.box), cf.cend_comp(comps[c], g.box), gc, rd);
      // writing changes exactly that face
      MACField<T> before(cf);
      Range g2 = pickRange(r, w), gc2 = g2;
      if (!g2.empty) gc2.box.max[c]++;
      std::map<size_t, S> wr;
      Box3i all = w;
      all.max[c]++;
      auto wt = [&](auto& it, const V3i& p) {
        if (r.chance(0.3)) return;
        S v = toS<S>(randScalarD(r, ValSpecial));
        if (r.chance(0.5) || !setArrow<S>(arrow(it, 0), v)) *it = v;
        wr[lin(all, p.x, p.y, p.z)] = v;
      };
      if (g2.whole) visit("mac:comp", f->begin_comp(comps[c]), f->end_comp(comps[c]), gc2, wt);
      else visit("mac:comp", f->begin_comp(comps[c], g2.box), f->end_comp(comps[c], g2.box), gc2, wt);
      for (int q = 0; q < 3; q++) {
        Box3i fb = w;
        fb.max[q]++;
        forBox(fb, [&](int i, int j, int k) {
          const MACField<T>& b = before;
          S now = q == 0 ? cf.u(i, j, k) : q == 1 ? cf.v(i, j, k) : cf.w(i, j, k);
          S want = q == 0 ? b.u(i, j, k) : q == 1 ? b.v(i, j, k) : b.w(i, j, k);
          if (q == c) { auto x = wr.find(lin(fb, i, j, k)); if (x != wr.end()) want = x->second; }
          VF_CHECK(vf::bitEq(now, want), "mac:comp", "face " << q << " " << str(V3i(i, j, k)) << " after writing component " << c);
        });
      }
    }
  }
};
}  // namespace

void vf_case(Ctx& c) {
  Rng& r = c.rng;
  int type = (int)r.u(6), kind = (int)r.u(7);
  if (kind == 2 && type < 3) type += 3;
  static const char* kn[] = {"dense", "sparse", "mac", "mipdense", "mipsparse", "empty", "sparse"};
  std::string d = std::string(kn[kind]) + " t" + std::to_string(type) + " ";
  withType(type, [&](auto z) {
    typedef decltype(z) T;
    Box3i e, w;
    rndWindows(r, e, w, r.chance(0.1) ? 24 : 9);
    if (kind == 0) {
      typename DenseField<T>::Ptr f = mkDense<T>(r, e, w);
      d += str(w);
      readBoth<T>(r, "dense", *f);
      std::vector<T> m = snapshot<T>(*f);
      writeAll<T>(r, "dense", *f, m);
      compareAll<T>("dense", *f, m);
      writeAll<T>(r, "dense:generic", static_cast<WritableField<T>&>(*f), m);
      compareAll<T>("dense:generic", *f, m);
      readBoth<T>(r, "dense", *f);
    } else if (kind == 1 || kind == 6) {
      int order = r.range(0, 4);
      typename SparseField<T>::Ptr f = mkSparse<T>(r, e, w, order);
      d += str(w) + " order " + std::to_string(order);
      readBoth<T>(r, "sparse", *f);
      sparseBlocks(*f);
      std::vector<T> m = snapshot<T>(*f);
      writeAll<T>(r, "sparse", *f, m);
      compareAll<T>("sparse", *f, m);
      writeAll<T>(r, "sparse:generic", static_cast<WritableField<T>&>(*f), m);
      compareAll<T>("sparse:generic", *f, m);
      readBoth<T>(r, "sparse", *f);
    } else if (kind == 2) {
      MacGo<T>::go(r, d);
    } else if (kind == 3 || kind == 4) {
      std::vector<Box3i> lv = rndLevels(r, 9, 3);
      if (kind == 3) {
        typename MIPField<DenseField<T> >::Ptr m(new MIPField<DenseField<T> >);
        typename MIPField<DenseField<T> >::FieldVec v;
        for (auto& b : lv) v.push_back(mkDense<T>(r, b, b));
        m->setup(v);
        readBoth<T>(r, "mip", *m);
        for (size_t l = 0; l < lv.size(); l++) readBoth<T>(r, "mip:level", *m->concreteMipLevel(l));
      } else {
        typename MIPField<SparseField<T> >::Ptr m(new MIPField<SparseField<T> >);
        typename MIPField<SparseField<T> >::FieldVec v;
        for (auto& b : lv) v.push_back(mkSparse<T>(r, b, b, r.range(0, 3)));
        m->setup(v);
        readBoth<T>(r, "mip", *m);
        for (size_t l = 0; l < lv.size(); l++) readBoth<T>(r, "mip:level", *m->concreteMipLevel(l));
      }
      d += str(lv[0]);
    } else {
      typename EmptyField<T>::Ptr f(new EmptyField<T>);
      f->setSize(e, w);
      f->clear(rndVal<T>(r));
      readBoth<T>(r, "empty", *f);
      d += str(w);
    }
    // a field that was never sized has no voxels
    if (r.chance(0.1)) {
      DenseField<T> a;
      SparseField<T> b;
      EmptyField<T> q;
      VF_CHECK(!(a.cbegin() != a.cend()) && !(a.begin() != a.end()), "fresh", "fresh dense field iterates");
      VF_CHECK(!(b.cbegin() != b.cend()) && !(b.begin() != b.end()) && !(b.blockBegin() != b.blockEnd()), "fresh", "fresh sparse field iterates");
      VF_CHECK(!(q.cbegin() != q.cend()), "fresh", "fresh proxy field iterates");
    }
  });
  c.desc = d;
  vf::nontrivial(Hash().add(c.desc).add(r.next()).h);
}

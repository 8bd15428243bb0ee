// P13: copies of fields are equal to their source and independent of it afterwards.
#include "gen.h"
#include <memory>
using namespace gen;

const char* vf_id() { return "P13"; }
void vf_init() { initIO(); Msg::setVerbosity(0); }

namespace {
std::string g_ops;
void op(const std::string& s) { g_ops += " " + s; }

// ------------------------------------------------------- independent snapshot of everything observable
struct MapSnap {
  std::string cls;
  std::vector<std::pair<float, M44d> > a, b;
  std::vector<std::pair<float, double> > n, f;
  int zd = 0;
  V3d org, rs;
  std::vector<V3d> probes;
  bool same(const MapSnap& o) const {
    auto eqM = [](const std::vector<std::pair<float, M44d> >& x, const std::vector<std::pair<float, M44d> >& y) {
      if (x.size() != y.size()) return false;
      for (size_t i = 0; i < x.size(); i++) if (x[i].first != y[i].first || !(x[i].second == y[i].second)) return false;
      return true;
    };
    if (cls != o.cls || zd != o.zd || org != o.org || rs != o.rs || n != o.n || f != o.f || !eqM(a, o.a) || !eqM(b, o.b)) return false;
    for (size_t i = 0; i < probes.size(); i++) if (!vf::bitEq(probes[i], o.probes[i])) return false;
    return true;
  }
};
template <class SV, class V> void cp(const SV& s, std::vector<V>& v) { for (size_t i = 0; i < s.size(); i++) v.push_back(V(s[i].first, s[i].second)); }
MapSnap snapMap(FieldMapping::Ptr m) {
  MapSnap s;
  s.cls = m->className();
  s.org = m->origin(); s.rs = m->resolution();
  if (MatrixFieldMapping* x = dynamic_cast<MatrixFieldMapping*>(m.get())) cp(x->localToWorldSamples(), s.a);
  if (FrustumFieldMapping* x = dynamic_cast<FrustumFieldMapping*>(m.get())) {
    cp(x->screenToWorldSamples(), s.a); cp(x->cameraToWorldSamples(), s.b);
    cp(x->nearPlaneSamples(), s.n); cp(x->farPlaneSamples(), s.f);
    s.zd = x->zDistribution();
  }
  for (float t : {0.0f, 0.4f, -1.0f}) {
    V3d w, l;
    m->localToWorld(V3d(0.3, 0.6, 0.8), w, t); s.probes.push_back(w);
    if (s.rs.x > 0 && s.rs.y > 0 && s.rs.z > 0) { m->worldToVoxel(w, l, t); s.probes.push_back(l); }
  }
  return s;
}
template <class T> struct Snap {
  std::string cls, name, attr;
  Box3i ext, dw;
  std::vector<T> v;
  MapSnap map;
  std::vector<double> mac;
  int order = -1;
  std::vector<char> alloc;
  std::vector<T> empty;
  FieldMetadata::StrMetadata sm; FieldMetadata::IntMetadata im; FieldMetadata::FloatMetadata fm;
  FieldMetadata::VecIntMetadata vim; FieldMetadata::VecFloatMetadata vfm;
  V3i mipOff = V3i(0);
  size_t lowest = 0;
  std::vector<Snap> lev;
};
template <class T, int V = TT<T>::vec> struct MacPart { static void take(const Field<T>*, Snap<T>&) {} };
template <class T> struct MacPart<T, 1> {
  static void take(const Field<T>* f, Snap<T>& s) {
    const MACField<T>* m = dynamic_cast<const MACField<T>*>(f);
    if (!m) return;
    Box3i b[3] = {m->dataWindow(), m->dataWindow(), m->dataWindow()};
    b[0].max.x++; b[1].max.y++; b[2].max.z++;
    forBox(b[0], [&](int i, int j, int k) { s.mac.push_back(comp(m->u(i, j, k), 0)); });
    forBox(b[1], [&](int i, int j, int k) { s.mac.push_back(comp(m->v(i, j, k), 0)); });
    forBox(b[2], [&](int i, int j, int k) { s.mac.push_back(comp(m->w(i, j, k), 0)); });
  }
};
template <class T> Snap<T> snap(Field<T>* f) {
  Snap<T> s;
  s.cls = f->className(); s.name = f->name; s.attr = f->attribute;
  s.ext = f->extents(); s.dw = f->dataWindow();
  s.map = snapMap(f->mapping());
  const FieldMetadata& md = f->metadata();
  s.sm = md.strMetadata(); s.im = md.intMetadata(); s.fm = md.floatMetadata(); s.vim = md.vecIntMetadata(); s.vfm = md.vecFloatMetadata();
  MIPBase<T>* mb = dynamic_cast<MIPBase<T>*>(f);
  if (mb) {
    s.mipOff = mb->mipOffset(); s.lowest = mb->lowestLevel();
    for (size_t l = 0; l < mb->numLevels(); l++) s.lev.push_back(snap<T>(mb->mipLevel(l).get()));
  } else if (s.dw.max.x >= s.dw.min.x) {
    forBox(s.dw, [&](int i, int j, int k) { s.v.push_back(f->value(i, j, k)); });
    vf::count("voxels_compared", s.v.size());
  }
  if (SparseField<T>* sp = dynamic_cast<SparseField<T>*>(f)) {
    s.order = sp->blockOrder();
    V3i br = sp->blockRes();
    forBox(Box3i(V3i(0), br - V3i(1)), [&](int i, int j, int k) { s.alloc.push_back(sp->blockIsAllocated(i, j, k)); s.empty.push_back(sp->getBlockEmptyValue(i, j, k)); });
  }
  MacPart<T>::take(f, s);
  return s;
}
enum Level { Values, ValuesMapping, Everything };
template <class T> std::string diff(const Snap<T>& a, const Snap<T>& b, Level lv = Everything) {
  if (a.ext != b.ext) return "extents " + str(a.ext) + " vs " + str(b.ext);
  if (a.dw != b.dw) return "data window " + str(a.dw) + " vs " + str(b.dw);
  if (a.v.size() != b.v.size()) return "voxel count";
  for (size_t i = 0; i < a.v.size(); i++) if (!vf::bitEq(a.v[i], b.v[i])) return "voxel #" + std::to_string(i) + " " + str(a.v[i]) + " vs " + str(b.v[i]);
  if (lv >= ValuesMapping && !a.map.same(b.map)) return "mapping differs";
  if (lv == Everything) {
    if (a.cls != b.cls) return "class";
    if (a.name != b.name) return "name '" + a.name + "' vs '" + b.name + "'";
    if (a.attr != b.attr) return "attribute";
    if (a.mac.size() != b.mac.size() || (a.mac.size() && memcmp(&a.mac[0], &b.mac[0], a.mac.size() * sizeof(double)))) return "staggered components differ";
    if (a.order != b.order) return "block order";
    if (a.alloc != b.alloc) return "block allocation";
    for (size_t i = 0; i < a.empty.size(); i++) if (!vf::bitEq(a.empty[i], b.empty[i])) return "block empty value";
    if (a.sm != b.sm || a.im != b.im || a.fm != b.fm || a.vim != b.vim || a.vfm != b.vfm) return "metadata differ";
    if (a.mipOff != b.mipOff) return "MIP offset";
    if (a.lowest != b.lowest) return "lowest MIP level";
    if (a.lev.size() != b.lev.size()) return "MIP level count";
    for (size_t l = 0; l < a.lev.size(); l++) { std::string d = diff(a.lev[l], b.lev[l]); if (d.size()) return "level " + std::to_string(l) + ": " + d; }
  }
  return "";
}

// ------------------------------------------------------- building
enum K { Dense, Sparse, MAC, MIPD, MIPS, Empty, Ks };
const char* kn[] = {"dense", "sparse", "mac", "mipdense", "mipsparse", "proxy"};
template <class T, int V = TT<T>::vec> struct MkMac { static typename Field<T>::Ptr go(Rng&, const Box3i&, const Box3i&) { return 0; } };
template <class T> struct MkMac<T, 1> { static typename Field<T>::Ptr go(Rng& r, const Box3i& e, const Box3i& d) { return mkMAC<T>(r, e, d); } };

void decorate(Rng& r, FieldRes& f) {
  f.setMapping(rndMapping(r, (int)r.u(MapKinds)));
  f.name = r.chance(0.8) ? rndName(r) : "";
  f.attribute = r.chance(0.8) ? rndName(r) : "";
  rndMetadata(r, f.metadata());
}
template <class T> void fill(Rng& r, DenseField<T>& f) { fillDense(r, f); }
template <class T> void fill(Rng& r, SparseField<T>& f) {
  f.setBlockOrder(r.range(1, 4));
  if (r.chance(0.5)) f.clear(rndVal<T>(r));
  double p = r.f01();
  forBox(f.dataWindow(), [&](int i, int j, int k) { if (r.chance(p)) f.lvalue(i, j, k) = rndVal<T>(r); });
}
template <class F> typename Field<typename F::value_type>::Ptr mkMip(Rng& r) {
  std::vector<Box3i> lv = rndLevels(r, 9, 4);
  typename MIPField<F>::FieldVec v;
  for (const Box3i& b : lv) { typename F::Ptr f(new F); f->setSize(b); fill(r, *f); v.push_back(f); }
  typename MIPField<F>::Ptr m(new MIPField<F>);
  m->setup(v);
  m->name = rndName(r); m->attribute = rndName(r);
  rndMetadata(r, m->metadata());
  if (r.chance(0.5)) m->setMIPOffset(V3i(r.range(-2, 2) * 16, r.range(0, 2) * 16, 0));
  m->setMapping(rndMapping(r, (int)r.u(MapKinds)));
  if (r.chance(0.3)) m->setLowestLevel(r.u(m->numLevels()));
  return m;
}
template <class T> typename Field<T>::Ptr mk(Rng& r, int k, int maxRes) {
  Box3i e, d;
  rndWindows(r, e, d, maxRes, 8);
  typename Field<T>::Ptr f;
  switch (k) {
    case Dense: if (r.chance(0.05)) f = new DenseField<T>; else f = mkDense<T>(r, e, d); break;
    case Sparse: if (r.chance(0.05)) f = new SparseField<T>; else f = mkSparse<T>(r, e, d, r.range(0, 4)); break;
    case MAC: f = MkMac<T>::go(r, e, d); break;
    case MIPD: return mkMip<DenseField<T> >(r);
    case MIPS: return mkMip<SparseField<T> >(r);
    default: {
      typename EmptyField<T>::Ptr p(new EmptyField<T>);
      p->setSize(e, d);
      p->setConstantvalue(rndVal<T>(r));
      f = p;
    }
  }
  decorate(r, *f);
  return f;
}

// ------------------------------------------------------- mutations
V3i pos(Rng& r, const Box3i& b) { return V3i(r.range(b.min.x, b.max.x), r.range(b.min.y, b.max.y), r.range(b.min.z, b.max.z)); }
void mutMapping(Rng& r, FieldRes& f) {
  FieldMapping::Ptr m = f.mapping();
  if (MatrixFieldMapping* x = dynamic_cast<MatrixFieldMapping*>(m.get())) {
    if (r.chance(0.5)) { x->setLocalToWorld(rndMatrix(r)); op("m.setL2W"); }
    else { x->setLocalToWorld((float)r.real(-1, 1), rndMatrix(r)); op("m.setL2W(t)"); }
    return;
  }
  if (FrustumFieldMapping* x = dynamic_cast<FrustumFieldMapping*>(m.get())) {
    M44d a, b;
    rndFrustum(r, a, b);
    switch (r.u(3)) {
      case 0: x->setTransforms(a, b); break;
      case 1: x->setTransforms((float)r.real(-1, 1), a, b); break;
      default: x->setZDistribution(x->zDistribution() == FrustumFieldMapping::UniformDistribution ? FrustumFieldMapping::PerspectiveDistribution : FrustumFieldMapping::UniformDistribution);
    }
    op("m.frustum");
    return;
  }
  m->setExtents(Box3i(V3i(r.range(-5, 0)), V3i(r.range(1, 9))));
  op("m.setExtents");
}
void mutCommon(Rng& r, FieldRes& f) {
  switch (r.u(5)) {
    case 0: f.name = rndName(r); f.attribute = rndName(r); op("name"); break;
    case 1: {
      f.metadata().setStrMetadata("k0_", rndText(r));
      f.metadata().setIntMetadata("extra", (int)r.next());
      for (auto& x : f.metadata().strMetadata()) { f.metadata().setStrMetadata(x.first, x.second + "!"); break; }
      op("metadata");
      break;
    }
    case 2: f.setMapping(rndMapping(r, (int)r.u(MapKinds))); op("setMapping"); break;
    default: mutMapping(r, f);
  }
}
template <class F> void mutRes(Rng& r, F& f) {
  Box3i e, d;
  rndWindows(r, e, d, 8, 5);
  f.setSize(e, d);
  f.clear(rndVal<typename F::value_type>(r));
  op("resize");
}
template <class T, int V = TT<T>::vec> struct MutMac { static bool go(Rng&, Field<T>*) { return false; } };
template <class T> struct MutMac<T, 1> {
  static bool go(Rng& r, Field<T>* f) {
    typedef typename TT<T>::S S;
    MACField<T>* m = dynamic_cast<MACField<T>*>(f);
    if (!m) return false;
    if (r.chance(0.2)) { mutRes(r, *m); return true; }
    V3i p = pos(r, m->dataWindow());
    m->u(p.x, p.y, p.z) = S(1.5f); m->v(p.x, p.y, p.z) = S(-7.25f); m->w(p.x, p.y, p.z) = S(99.0f);
    op("mac-write");
    return true;
  }
};
template <class T> void mutate(Rng& r, Field<T>* f) {
  if (r.chance(0.4)) { mutCommon(r, *f); return; }
  Box3i dw = f->dataWindow();
  bool has = dw.max.x >= dw.min.x;
  if (DenseField<T>* d = dynamic_cast<DenseField<T>*>(f)) {
    if (!has || r.chance(0.2)) { mutRes(r, *d); return; }
    if (r.chance(0.2)) { d->clear(rndVal<T>(r)); op("clear"); return; }
    for (int n = 0; n < 5; n++) { V3i p = pos(r, dw); d->lvalue(p.x, p.y, p.z) = rndVal<T>(r); }
    op("write");
    return;
  }
  if (SparseField<T>* s = dynamic_cast<SparseField<T>*>(f)) {
    if (!has || r.chance(0.15)) { mutRes(r, *s); return; }
    switch (r.u(5)) {
      case 0: s->clear(rndVal<T>(r)); op("clear"); return;
      case 1: s->setBlockOrder(r.range(0, 4)); op("order"); return;
      case 2: { V3i b = s->blockRes(); s->setBlockEmptyValue(r.u(b.x), r.u(b.y), r.u(b.z), rndVal<T>(r)); op("emptyval"); return; }
      default:
        for (int n = 0; n < 5; n++) { V3i p = pos(r, dw); s->lvalue(p.x, p.y, p.z) = rndVal<T>(r); }
        op("write");
    }
    return;
  }
  if (MutMac<T>::go(r, f)) return;
  if (MIPBase<T>* m = dynamic_cast<MIPBase<T>*>(f)) {
    if (m->numLevels() == 0) return;
    switch (r.u(4)) {
      case 0: m->setLowestLevel(r.u(m->numLevels())); op("lowest"); return;
      case 1: m->setMIPOffset(V3i(r.range(-2, 2) * 16, 0, r.range(0, 2) * 16)); op("mipoff"); return;
      default: op("level:"); mutate<T>(r, m->mipLevel(r.u(m->numLevels())).get()); return;
    }
  }
  if (EmptyField<T>* e = dynamic_cast<EmptyField<T>*>(f)) {
    if (r.chance(0.3)) { Box3i a, b; rndWindows(r, a, b, 8, 5); e->setSize(a, b); op("resize"); return; }
    e->setConstantvalue(rndVal<T>(r));
    op("const");
  }
}

// ------------------------------------------------------- copy paths
template <class C, class T> typename Field<T>::Ptr assignAs(Rng& r, Field<T>* src, int k) {
  C* s = dynamic_cast<C*>(src);
  switch (r.u(4)) {
    case 0: { op("copy-ctor"); return typename Field<T>::Ptr(new C(*s)); }
    case 1: { op("assign-to-fresh"); typename C::Ptr d(new C); *d = *s; return d; }
    case 2: {  // over a field of another size, with its own content
      op("assign-over");
      typename Field<T>::Ptr o = mk<T>(r, k, r.chance(0.5) ? 14 : 4);
      C* d = dynamic_cast<C*>(o.get());
      *d = *s;
      return o;
    }
    default: {
      op("copy-then-self-assign");
      typename C::Ptr d(new C(*s));
      C& alias = *d;
      *d = alias;
      return d;
    }
  }
}
template <class T, int V = TT<T>::vec> struct AssMac { static typename Field<T>::Ptr go(Rng&, Field<T>*) { return 0; } };
template <class T> struct AssMac<T, 1> { static typename Field<T>::Ptr go(Rng& r, Field<T>* s) { return assignAs<MACField<T>, T>(r, s, MAC); } };
template <class T> typename Field<T>::Ptr copyOf(Rng& r, Field<T>* a, int k) {
  if (r.chance(0.35)) {
    op("clone");
    FieldBase::Ptr c = a->clone();
    typename Field<T>::Ptr f = field_dynamic_cast<Field<T> >(c);
    VF_CHECK(f, "clone:type", "clone of " << a->className() << " is not a field of the same voxel type" << g_ops);
    VF_CHECK(c.get() != a, "clone:same", "clone returned the object itself");
    return f;
  }
  switch (k) {
    case Dense: return assignAs<DenseField<T>, T>(r, a, k);
    case Sparse: return assignAs<SparseField<T>, T>(r, a, k);
    case MAC: return AssMac<T>::go(r, a);
    case MIPD: return assignAs<MIPField<DenseField<T> >, T>(r, a, k);
    case MIPS: return assignAs<MIPField<SparseField<T> >, T>(r, a, k);
    default: return assignAs<EmptyField<T>, T>(r, a, k);
  }
}
template <class T> void independent(Rng& r, typename Field<T>::Ptr a, typename Field<T>::Ptr b, const char* key) {
  int n = r.range(2, 8);
  for (int i = 0; i < n; i++) {
    bool ma = r.chance(0.5);
    Field<T>* m = ma ? a.get() : b.get();
    Field<T>* o = ma ? b.get() : a.get();
    Snap<T> before = snap<T>(o);
    op(ma ? "A." : "B.");
    mutate<T>(r, m);
    std::string d = diff(before, snap<T>(o));
    VF_CHECK(d.empty(), key, "a change to " << (ma ? "the source" : "the copy") << " shows in the other: " << d << " after" << g_ops);
    vf::count("mutations");
  }
  bool da = r.chance(0.5);
  Snap<T> before = snap<T>(da ? b.get() : a.get());
  op(da ? "destroy A" : "destroy B");
  if (da) a = 0; else b = 0;
  typename Field<T>::Ptr o = da ? b : a;
  std::string d = diff(before, snap<T>(o.get()));
  VF_CHECK(d.empty(), key, "destroying one changed the other: " << d << " after" << g_ops);
  for (int i = 0; i < 3; i++) mutate<T>(r, o.get());
  snap<T>(o.get());
}
template <class T> void copyCase(Rng& r, Ctx& c) {
  int k;
  do k = (int)r.u(Ks); while (k == MAC && !TT<T>::vec);
  typename Field<T>::Ptr a = mk<T>(r, k, 10);
  Snap<T> sa = snap<T>(a.get());
  c.desc = std::string("copy ") + kn[k] + "<" + TT<T>::nm() + "> " + str(a->extents()) + str(a->dataWindow());
  typename Field<T>::Ptr b = copyOf<T>(r, a.get(), k);
  std::string d = diff(sa, snap<T>(b.get()));
  VF_CHECK(d.empty(), "copy:equal", kn[k] << " copy differs: " << d << " via" << g_ops);
  d = diff(sa, snap<T>(a.get()));
  VF_CHECK(d.empty(), "copy:source-changed", kn[k] << " copying changed the source: " << d << " via" << g_ops);
  if (r.chance(0.3)) {  // a copy of the copy
    typename Field<T>::Ptr e = copyOf<T>(r, b.get(), k);
    d = diff(sa, snap<T>(e.get()));
    VF_CHECK(d.empty(), "copy:equal", kn[k] << " copy of copy differs: " << d << " via" << g_ops);
    a = e;
  }
  independent<T>(r, a, b, "copy:independent");
  vf::nontrivial(Hash().add(c.desc).add(g_ops).h);
}
template <class T> void convertCase(Rng& r, Ctx& c) {
  // copyFrom / matchDefinition between kinds
  int ks;
  do ks = (int)r.u(Ks); while (ks == MAC && !TT<T>::vec);
  typename Field<T>::Ptr a = mk<T>(r, ks, 9);
  if (a->dataWindow().max.x < a->dataWindow().min.x) return;
  c.desc = std::string("convert ") + kn[ks] + "<" + TT<T>::nm() + "> " + str(a->extents()) + str(a->dataWindow());
  Snap<T> sa = snap<T>(a.get());
  if (sa.v.empty()) forBox(sa.dw, [&](int i, int j, int k) { sa.v.push_back(a->value(i, j, k)); });  // the finest level
  typename ResizableField<T>::Ptr b;
  bool sparse = r.chance(0.5), reuse = r.chance(0.5);
  if (sparse) b = reuse ? mkSparse<T>(r, rndBox(r, 8, 5), rndBox(r, 8, 5), r.range(0, 4)) : typename SparseField<T>::Ptr(new SparseField<T>);
  else b = reuse ? typename ResizableField<T>::Ptr(mkDense<T>(r, rndBox(r, 8, 5), rndBox(r, 8, 5))) : typename ResizableField<T>::Ptr(new DenseField<T>);
  op(std::string(sparse ? "to sparse" : "to dense") + (reuse ? " reused" : ""));
  if (reuse) decorate(r, *b);
  std::string d;
  if (r.chance(0.7)) {
    op("copyFrom");
    b->copyFrom(typename Field<T>::Ptr(a));
    Snap<T> sb = snap<T>(b.get());
    d = diff(sa, sb, ValuesMapping);
    VF_CHECK(d.empty(), "copyFrom:equal", "copyFrom " << kn[ks] << ": " << d << g_ops);
    bool nan = false;
    for (auto& v : sa.v) for (int q = 0; q < TT<T>::n; q++) nan |= std::isnan(comp(v, q));
    bool same = isIdentical<T>(a, typename Field<T>::Ptr(b));
    VF_CHECK(same || nan, "isIdentical", "isIdentical() of a field and its copy is false" << g_ops);
    bool def = sameDefinition<T, T>(a, typename Field<T>::Ptr(b));
    VF_CHECK(def, "sameDefinition", "sameDefinition() of a field and its copy is false" << g_ops);
    if (same && !nan) {
      V3i p = pos(r, sa.dw);
      T v = b->value(p.x, p.y, p.z);
      b->lvalue(p.x, p.y, p.z) = toS<T>(1234.0);
      VF_CHECK(!isIdentical<T>(a, typename Field<T>::Ptr(b)), "isIdentical", "isIdentical() misses a changed voxel" << g_ops);
      b->lvalue(p.x, p.y, p.z) = v;
    }
  } else {
    op("matchDefinition");
    b->matchDefinition(FieldRes::Ptr(a));
    VF_CHECK(b->extents() == sa.ext && b->dataWindow() == sa.dw, "matchDefinition", "windows" << g_ops);
    VF_CHECK(snapMap(b->mapping()).same(sa.map), "matchDefinition", "mapping differs" << g_ops);
    b->clear(rndVal<T>(r));
  }
  d = diff(sa, [&] { Snap<T> x = snap<T>(a.get()); if (x.v.empty()) x.v = sa.v; return x; }());
  VF_CHECK(d.empty(), "convert:source-changed", d << g_ops);
  independent<T>(r, a, b, "convert:independent");
  vf::nontrivial(Hash().add(c.desc).add(g_ops).h);
}
// copyFrom between voxel types
template <class A, class B> void xtype(Rng& r, Ctx& c) {
  Box3i e, d;
  rndWindows(r, e, d, 8, 5);
  typename Field<A>::Ptr a = r.chance(0.5) ? typename Field<A>::Ptr(mkDense<A>(r, e, d, ValSmall)) : typename Field<A>::Ptr(mkSparse<A>(r, e, d, r.range(0, 4), ValSmall));
  decorate(r, *a);
  typename ResizableField<B>::Ptr b = r.chance(0.5) ? typename ResizableField<B>::Ptr(new DenseField<B>) : typename ResizableField<B>::Ptr(new SparseField<B>);
  b->template copyFrom<A>(a);
  c.desc = std::string("xtype ") + TT<A>::nm() + ">" + TT<B>::nm() + str(e) + str(d);
  VF_CHECK(b->extents() == e && b->dataWindow() == d, "xtype:windows", c.desc);
  VF_CHECK(snapMap(b->mapping()).same(snapMap(a->mapping())), "xtype:mapping", c.desc);
  forBox(d, [&](int i, int j, int k) {
    A x = a->value(i, j, k);
    B y = b->value(i, j, k);
    for (int q = 0; q < TT<A>::n; q++) VF_CHECK(comp(x, q) == comp(y, q), "xtype:value", str(V3i(i, j, k)) << " " << str(x) << " vs " << str(y));
  });
  vf::nontrivial(Hash().add(c.desc).add(c.idx).h);
}
template <class T> void emptyMip(Ctx& c) {
  // fields that were never set up, or were cleared, can be copied, mapped and destroyed too
  typedef MIPField<DenseField<T> > M;
  c.desc = "never-set-up MIP field";
  typename M::Ptr a(new M), b(new M(*a)), d(new M);
  *d = *a;
  FieldBase::Ptr e = a->clone();
  b->clear();
  *a = *b;
  a->setMapping(MatrixFieldMapping::Ptr(new MatrixFieldMapping));
  VF_CHECK(a->numLevels() == 0 && a->voxelCount() == 0, "mip:empty", "cleared field has levels");
}
}  // namespace

void vf_case(Ctx& c) {
  g_ops.clear();
  int w = (int)c.rng.u(20);
  if (w == 19) { withType((int)c.rng.u(6), [&](auto t) { emptyMip<decltype(t)>(c); }); return; }
  if (w == 18) {
    switch (c.rng.u(5)) {
      case 0: xtype<float, double>(c.rng, c); break;
      case 1: xtype<double, float>(c.rng, c); break;
      case 2: xtype<float, half>(c.rng, c); break;
      case 3: xtype<half, float>(c.rng, c); break;
      default: xtype<V3f, V3d>(c.rng, c);
    }
    return;
  }
  withType((int)c.rng.u(6), [&](auto t) {
    typedef decltype(t) T;
    if (w < 12) copyCase<T>(c.rng, c); else convertCase<T>(c.rng, c);
  });
  if (c.idx % 997 == 0) vf::sample(c.desc + g_ops);
}

// P19: conversions between cell-centred and staggered fields against the averaging definition.
#include "gen.h"
#include <Field3D/MACFieldUtil.h>
using namespace gen;

const char* vf_id() { return "P19"; }
void vf_init() { initIO(); Msg::setVerbosity(0); }

namespace {
enum Map { Null, Unrotated, Rotated, Moving, Frustum, Maps };
FieldMapping::Ptr mkMap(Rng& r, int kind, M44d& rot) {
  rot.makeIdentity();
  if (kind == Null) return FieldMapping::Ptr(new NullFieldMapping);
  if (kind == Frustum) return rndMapping(r, MapFrustum);
  MatrixFieldMapping::Ptr m(new MatrixFieldMapping);
  int n = kind == Moving ? r.range(2, 3) : 1;
  for (int q = 0; q < n; q++) {
    M44d s, R, t;
    s.makeIdentity(); R.makeIdentity(); t.makeIdentity();
    s.scale(r.chance(0.3) ? V3d(r.real(0.01, 0.1), r.real(0.01, 100), r.real(0.3, 5)) : V3d(r.real(0.3, 5), r.real(0.3, 5), r.real(0.3, 5)));
    if (kind != Unrotated) {
      if (r.chance(0.3)) { V3d a(0); a[r.u(3)] = r.chance(0.3) ? M_PI / 2 * r.range(-2, 2) : r.real(-3, 3); R.rotate(a); }
      else R.rotate(V3d(r.real(-3, 3), r.real(-3, 3), r.real(-3, 3)));
      if (q == 0 && r.chance(0.1)) { R.makeIdentity(); R.rotate(V3d(1e-3 * r.real(1, 2), 1e-3 * r.real(-1, 1), 0)); }
    }
    t.translate(V3d(r.real(-20, 20), r.real(-20, 20), r.real(-20, 20)));
    if (n == 1 && r.chance(0.5)) m->setLocalToWorld(s * R * t);
    else m->setLocalToWorld((float)q, s * R * t);
    if (q == 0) rot = R;
  }
  return m;
}
V3d face(const V3d& a, const V3d& b) { return (a + b) * 0.5; }

template <class T, class F> struct Cell;
template <class T> struct Cell<T, DenseField<T> > {
  static typename DenseField<T>::Ptr make(Rng&) { return typename DenseField<T>::Ptr(new DenseField<T>); }
};
template <class T> struct Cell<T, SparseField<T> > {
  static typename SparseField<T>::Ptr make(Rng& r) { typename SparseField<T>::Ptr f(new SparseField<T>); f->setBlockOrder(r.range(0, 4)); return f; }
};
template <class T> T rv(Rng& r) {
  typedef typename TT<T>::S S;
  return T(toS<S>(r.real(-4, 4)), toS<S>(r.real(-4, 4)), toS<S>(r.real(-4, 4)));
}

template <class T, class F> void go(Ctx& c) {
  Rng& r = c.rng;
  typedef typename TT<T>::S S;
  int mk = (int)r.u(Maps);
  M44d R;
  FieldMapping::Ptr map = mkMap(r, mk, R);
  Box3i e, w;
  rndWindows(r, e, w, r.chance(0.3) ? 12 : 6);
  double tol = (sizeof(S) == 2 ? 1.2e-2 : 2e-5);
  bool toMac = r.chance(0.5), uniform = r.chance(0.2);
  typename F::Ptr cc = Cell<T, F>::make(r);
  typename MACField<T>::Ptr mac(new MACField<T>);
  c.desc = std::string(toMac ? "to staggered " : "to cells ") + TT<T>::nm() + " " + F::staticClassName() + " " + str(e) + str(w) + " mapping " + std::to_string(mk) + (uniform ? " uniform" : "");
  // the target may hold anything before: another size, content, mapping
  int used = (int)r.u(3);
  Box3i te = e, tw = w;
  if (used == 2) rndWindows(r, te, tw, 6);
  M44d R2;
  FieldMapping::Ptr old = r.chance(0.5) ? map : mkMap(r, (int)r.u(Maps), R2);
  V3d u0(r.real(-4, 4), r.real(-4, 4), r.real(-4, 4));
  if (toMac) {
    cc->setSize(e, w);
    if (r.chance(0.5)) cc->clear(rv<T>(r));
    cc->setMapping(map);
    double p = r.chance(0.5) ? 1 : r.f01();
    forBox(w, [&](int i, int j, int k) { if (r.chance(p)) cc->fastLValue(i, j, k) = rv<T>(r); });
    if (uniform) forBox(w, [&](int i, int j, int k) { cc->fastLValue(i, j, k) = T(toS<S>(u0.x), toS<S>(u0.y), toS<S>(u0.z)); });
    if (used) { mac->setSize(te, tw); mac->clear(rv<T>(r)); mac->setMapping(old); }
    typename F::Ptr before = field_dynamic_cast<F>(cc->clone());
    convertCellCenteredToMAC<F, T>(cc, mac);
    std::string s = fullDiff<T>(cc.get(), before.get());
    VF_CHECK(s.empty(), "mac:source", "the source changed: " << s);
  } else {
    mac->setSize(e, w);
    mac->setMapping(map);
    Box3i u = w, v = w, x = w;
    u.max.x++; v.max.y++; x.max.z++;
    forBox(u, [&](int i, int j, int k) { mac->u(i, j, k) = toS<S>(uniform ? u0.x : r.real(-4, 4)); });
    forBox(v, [&](int i, int j, int k) { mac->v(i, j, k) = toS<S>(uniform ? u0.y : r.real(-4, 4)); });
    forBox(x, [&](int i, int j, int k) { mac->w(i, j, k) = toS<S>(uniform ? u0.z : r.real(-4, 4)); });
    if (used) { cc->setSize(te, tw); cc->clear(rv<T>(r)); cc->setMapping(old); }
    typename MACField<T>::Ptr before = field_dynamic_cast<MACField<T> >(mac->clone());
    convertMACToCellCentered<T, F>(mac, cc);
    std::string s = fullDiff<T>(mac.get(), before.get());
    VF_CHECK(s.empty(), "mac:source", "the source changed: " << s);
  }
  std::string s = windowDiff(*mac, *cc);
  VF_CHECK(s.empty() && mac->extents() == e && mac->dataWindow() == w, "mac:windows", "windows: " << s);
  V3i rs = res(w);
  V3i want((rs.x + 1) * rs.y * rs.z, rs.x * (rs.y + 1) * rs.z, rs.x * rs.y * (rs.z + 1));
  VF_CHECK(mac->getComponentSize() == want, "mac:windows", "component size " << str(mac->getComponentSize()) << " of window " << str(w));
  s = mappingNear(mac->mapping(), cc->mapping());
  VF_CHECK(s.empty(), "mac:mapping", "mapping of the result: " << s);
  M44d Ri = R.inverse();
  auto frame = [&](int i, int j, int k) { V3d v; T x = cc->value(i, j, k); Ri.multDirMatrix(V3d(comp(x, 0), comp(x, 1), comp(x, 2)), v); return v; };
  auto cell = [&](int i, int j, int k) {
    V3d v((comp(mac->u(i, j, k), 0) + comp(mac->u(i + 1, j, k), 0)) / 2, (comp(mac->v(i, j, k), 0) + comp(mac->v(i, j + 1, k), 0)) / 2,
          (comp(mac->w(i, j, k), 0) + comp(mac->w(i, j, k + 1), 0)) / 2), x;
    R.multDirMatrix(v, x);
    return x;
  };
  if (toMac) {
    for (int a = 0; a < 3; a++) {
      Box3i fb = w;
      fb.max[a]++;
      forBox(fb, [&](int i, int j, int k) {
        V3i p(i, j, k), q = p;
        q[a]--;
        p[a] = std::min(p[a], w.max[a]);
        q[a] = std::max(q[a], w.min[a]);
        double x = face(frame(p.x, p.y, p.z), frame(q.x, q.y, q.z))[a];
        double got = comp(a == 0 ? mac->u(i, j, k) : a == 1 ? mac->v(i, j, k) : mac->w(i, j, k), 0);
        VF_CHECK(std::fabs(got - x) <= tol, "mac:faces", "face " << i << "," << j << "," << k << " of axis " << a << " is " << got << " expected " << x);
      });
    }
    vf::count("faces", vox(w) * 3);
  }
  if (!toMac || uniform) {
    typename F::Ptr back = cc;
    if (toMac) {
      back = Cell<T, F>::make(r);
      convertMACToCellCentered<T, F>(mac, back);
    }
    forBox(w, [&](int i, int j, int k) {
      V3d x = cell(i, j, k);
      T y = back->value(i, j, k);
      for (int a = 0; a < 3; a++) VF_CHECK(std::fabs(comp(y, a) - x[a]) <= tol, "mac:cells", "cell " << i << "," << j << "," << k << " component " << a << " is " << comp(y, a) << " expected " << x[a]);
      if (toMac) for (int a = 0; a < 3; a++) VF_CHECK(std::fabs(comp(y, a) - u0[a]) <= 2 * tol, "mac:uniform", "uniform " << str(u0) << " became " << str(y));
    });
    vf::count("cells", vox(w));
  }
  // staggered values, face iterators and cell values agree
  T m0 = mac->value(w.min.x, w.min.y, w.min.z);
  V3d lc;
  Ri.multDirMatrix(cell(w.min.x, w.min.y, w.min.z), lc);
  for (int a = 0; a < 3; a++) VF_CHECK(std::fabs(comp(m0, a) - lc[a]) <= tol, "mac:value", "value of the first cell");
  size_t n[3] = {0, 0, 0};
  const MACField<T>& cm = *mac;
  static const MACComponent cs[3] = {MACCompU, MACCompV, MACCompW};
  for (int a = 0; a < 3; a++) {
    double sum = 0, want = 0;
    for (typename MACField<T>::const_mac_comp_iterator i = cm.cbegin_comp(cs[a]), end = cm.cend_comp(cs[a]); i != end; ++i) { n[a]++; sum += comp(*i, 0); want += comp(a == 0 ? cm.u(i.x, i.y, i.z) : a == 1 ? cm.v(i.x, i.y, i.z) : cm.w(i.x, i.y, i.z), 0); }
    V3i q = rs;
    q[a]++;
    VF_CHECK(n[a] == (size_t)q.x * q.y * q.z && std::fabs(sum - want) < 1e-6 * (1 + n[a]), "mac:iterate", n[a] << " faces of axis " << a << " for window " << str(w));
  }
  vf::nontrivial(Hash().add(c.desc).add(r.next()).h);
}
}  // namespace

void vf_case(Ctx& c) {
  withVec((int)c.rng.u(3), [&](auto z) {
    typedef decltype(z) T;
    if (c.rng.chance(0.5)) go<T, DenseField<T> >(c);
    else go<T, SparseField<T> >(c);
  });
}

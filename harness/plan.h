// Random file contents: layers that can be written to any output file and compared with what an input file holds.
#pragma once
#include "gen.h"
#include <functional>
namespace plan {
using namespace gen;

struct Layer {
  std::string part, name, desc;
  FieldRes::Ptr field;
  std::function<bool(Field3DOutputFile&)> write;
  std::function<std::string(Field3DInputFile&)> check;  // empty if the layer was read back exactly
  std::function<int(Field3DInputFile&, std::string&)> look;  // number of fields read; what's wrong with the first one
};
struct Plan {
  bool ogawa;
  std::vector<Layer> layers;
  std::shared_ptr<Field3DOutputFile> holder;  // keeps the metadata
  FieldMetadata& meta() const { return holder->metadata(); }
  std::string desc;
};

template <class T> void bind(Layer& l, typename Field<T>::Ptr f) {
  l.field = f;
  std::string p = l.part, n = l.name;
  l.write = [=](Field3DOutputFile& o) { return IO<T>::write(o, p, n, f); };
  l.look = [=](Field3DInputFile& i, std::string& s) {
    typename Field<T>::Vec v = IO<T>::read(i, p, n);
    if (v.size()) s = v[0] ? fieldDiff<T>(f.get(), v[0].get()) : "null field";
    if (v.size() && s.empty()) s = mappingNear(f->mapping(), v[0]->mapping());
    if (v.size() && s.empty()) s = metaDiff(f->metadata(), v[0]->metadata());
    return (int)v.size();
  };
  auto look = l.look;
  l.check = [=](Field3DInputFile& i) {
    std::string s;
    int k = look(i, s);
    if (k != 1) s = std::to_string(k) + " fields";
    return s.empty() ? s : "layer " + p + "/" + n + ": " + s;
  };
}
template <class T, int V = TT<T>::vec> struct Mac {
  static typename Field<T>::Ptr mk(Rng& r, const Box3i& e, const Box3i& w) { return mkMAC<T>(r, e, w); }
};
template <class T> struct Mac<T, 0> {
  static typename Field<T>::Ptr mk(Rng&, const Box3i&, const Box3i&) { return typename Field<T>::Ptr(); }
};
template <class T> typename Field<T>::Ptr mkField(Rng& r, int kind, int maxRes, std::string& d) {
  Box3i e, w;
  rndWindows(r, e, w, maxRes, 5);
  typename Field<T>::Ptr out;
  if (kind == KDense) out = mkDense<T>(r, e, w);
  else if (kind == KSparse) {
    int order = r.range(0, 3);
    out = mkSparse<T>(r, e, w, order);
    d += " order " + std::to_string(order);
  } else if (kind == KMAC) out = Mac<T>::mk(r, e, w);
  else {
    std::vector<Box3i> lv = rndLevels(r, maxRes, 3);
    w = lv[0];
    if (kind == KMIPDense) {
      typename MIPField<DenseField<T> >::Ptr m(new MIPField<DenseField<T> >);
      typename MIPField<DenseField<T> >::FieldVec v;
      for (auto& b : lv) v.push_back(mkDense<T>(r, b, b));
      m->setup(v);
      out = m;
    } else {
      typename MIPField<SparseField<T> >::Ptr m(new MIPField<SparseField<T> >);
      typename MIPField<SparseField<T> >::FieldVec v;
      int order = r.range(1, 3);
      for (auto& b : lv) v.push_back(mkSparse<T>(r, b, b, order));
      m->setup(v);
      out = m;
    }
    d += " levels " + std::to_string(lv.size());
  }
  d += " " + str(w);
  return out;
}
inline Plan rndPlan(Rng& r, int maxLayers = 3, int maxRes = 8, int encoding = -1) {
  Plan p;
  p.holder.reset(new Field3DOutputFile);
  p.ogawa = encoding < 0 ? r.chance(0.6) : encoding == 1;
  std::ostringstream d;
  d << (p.ogawa ? "ogawa" : "hdf5");
  int n = r.range(1, maxLayers);
  FieldMapping::Ptr shared;
  for (int a = 0; a < n; a++) {
    Layer l;
    int type = r.u(6), kind = r.u(Kinds);
    if (kind == KMAC && (p.ogawa || type < 3)) kind = r.u(2);
    bool join = a && r.chance(0.4);
    l.part = join ? p.layers.back().part : "p" + std::to_string(a) + rndName(r, 5);
    l.name = "l" + std::to_string(a) + rndName(r, 5);
    std::string fd = kindName(kind);
    withType(type, [&](auto z) {
      typedef decltype(z) T;
      fd += std::string(" ") + TT<T>::nm();
      typename Field<T>::Ptr f = mkField<T>(r, kind, maxRes, fd);
      if (!join || !shared) shared = rndMapping(r, r.u(3));
      f->setMapping(shared);
      rndMetadata(r, f->metadata());
      l.desc = fd;
      bind<T>(l, f);
    });
    d << " | " << l.part << "/" << l.name << " " << fd;
    p.layers.push_back(l);
  }
  rndMetadata(r, p.meta());
  p.desc = d.str();
  return p;
}
// what the file lacks or has wrong; empty when it holds the whole plan
inline std::string planDiff(const Plan& p, const std::string& path) {
  Field3DInputFile in;
  if (!in.open(path)) return "cannot be opened";
  for (auto& l : p.layers) {
    std::string s = l.check(in);
    if (s.size()) return s;
  }
  std::string s = metaDiff(p.meta(), in.metadata());
  if (s.size()) return "global " + s;
  return "";
}
}  // namespace plan

// P01: what is written to a field file is what is read back, bit for bit.
#include "gen.h"
using namespace gen;

const char* vf_id() { return "P01"; }
void vf_init() { initIO(); Msg::setVerbosity(0); }

namespace {
struct Item {
  int type, kind;
  std::string part, layer;
  FieldRes::Ptr field;  // kept alive as the expectation
};

template <class T> FieldRes::Ptr build(Rng& r, int kind, bool& nontriv, std::string& d) {
  Box3i e, w;
  bool big = r.chance(0.06);
  rndWindows(r, e, w, big ? 40 : 12);
  typename Field<T>::Ptr out;
  if (kind == KDense) out = mkDense<T>(r, e, w);
  else if (kind == KSparse) {
    int order = big ? r.range(3, 5) : r.range(0, 4);
    out = mkSparse<T>(r, e, w, order);
    d += " order=" + std::to_string(order);
  } else {
    std::vector<Box3i> lv = rndLevels(r, 12, 4);
    int order = r.range(1, 3);
    V3i off(r.range(-3, 3), r.range(-3, 3), r.range(0, 2));
    FieldMapping::Ptr mp = rndMapping(r, MapMatrix);
    if (kind == KMIPDense) {
      typename MIPField<DenseField<T> >::Ptr m(new MIPField<DenseField<T> >);
      typename MIPField<DenseField<T> >::FieldVec v;
      for (auto& b : lv) v.push_back(mkDense<T>(r, b, b));
      m->setMIPOffset(off);
      m->setup(v);
      m->setMapping(mp);
      out = m;
    } else {
      typename MIPField<SparseField<T> >::Ptr m(new MIPField<SparseField<T> >);
      typename MIPField<SparseField<T> >::FieldVec v;
      for (auto& b : lv) v.push_back(mkSparse<T>(r, b, b, order));
      m->setMIPOffset(off);
      m->setup(v);
      m->setMapping(mp);
      out = m;
    }
    d += " levels=" + std::to_string(lv.size());
    w = lv[0];
  }
  nontriv |= vox(w) > 1;
  d += " ext=" + str(e) + " dw=" + str(w);
  return out;
}
template <class S> FieldRes::Ptr buildMac(Rng& r, FIELD3D_VEC3_T<S>, std::string& d) {
  Box3i e, w;
  rndWindows(r, e, w, 8);
  d += " ext=" + str(e) + " dw=" + str(w);
  return mkMAC<FIELD3D_VEC3_T<S> >(r, e, w);
}
template <class S> FieldRes::Ptr buildMac(Rng&, S, std::string&) { return FieldRes::Ptr(); }

// sparse fields whose blocks take more memory than readers handle in one go (50 MB)
void manyBlocks(Ctx& c) {
  typedef SparseField<V3d> S;
  Rng& r = c.rng;
  const bool ogawa = r.chance(0.2);
  const int order = r.range(4, 6), bs = 1 << order;
  const size_t perBlock = (size_t)1 << (3 * order), want = (size_t)r.range(45, r.chance(0.4) ? 170 : 100) * 1024 * 1024 / 24 / perBlock + 1;
  int nb = 1;
  while ((size_t)nb * nb * nb < want + want / 4) nb++;
  setNumIOThreads(r.range(1, 4));
  const V3i org(r.range(-9, 9), r.range(-9, 9), r.range(-9, 9));
  V3i res(nb * bs - r.range(0, bs - 1), nb * bs - r.range(0, bs - 1), nb * bs);
  S::Ptr f(new S);
  f->name = "p"; f->attribute = "a";
  f->setBlockOrder(order);
  f->setSize(Box3i(org, org + res - V3i(1)));
  f->clear(V3d(1, 2, 3));
  size_t done = 0;
  const double p = (double)want / ((size_t)nb * nb * nb);
  // blocks in the order of the file, so that gaps of unallocated blocks are anywhere
  for (int k = 0; k < nb; k++) for (int j = 0; j < nb; j++) for (int i = 0; i < nb; i++) {
    if (!r.chance(p)) continue;
    for (int t = 0; t < 3; t++) {
      V3i v(std::min(res.x - 1, i * bs + (int)r.u(bs)), std::min(res.y - 1, j * bs + (int)r.u(bs)), std::min(res.z - 1, k * bs + (int)r.u(bs)));
      f->lvalue(org.x + v.x, org.y + v.y, org.z + v.z) = rndVal<V3d>(r);
    }
    done++;
  }
  std::ostringstream d;
  d << "many blocks " << (ogawa ? "ogawa" : "hdf5") << " order " << order << " blocks " << done << " of " << nb * nb * nb << " res " << str(res);
  c.desc = d.str();
  f->setMapping(rndMapping(r, 1));
  std::string fn = c.path("rt.f3d");
  Field3DOutputFile::useOgawa(ogawa);
  {
    Field3DOutputFile out;
    VF_CHECK(out.create(fn) && out.writeVectorLayer<double>(f) && out.close(), "write", "writing failed");
  }
  Field3DInputFile in;
  VF_CHECK(in.open(fn), "open", "open failed");
  Field<V3d>::Vec v = in.readVectorLayers<double>("p", "a");
  VF_CHECK(v.size() == 1, "read-count", v.size() << " fields");
  std::string diff = fullDiff<V3d>(f.get(), v[0].get());
  VF_CHECK(diff.empty(), "content:many-blocks", "read back differs: " << diff);
  vf::count("many_block_files");
  vf::nontrivial(Hash().add(c.desc).h);
  unlink(fn.c_str());
}
}  // namespace

void vf_case(Ctx& c) {
  Rng& r = c.rng;
  if (c.idx % 256 == 33) return manyBlocks(c);
  bool ogawa = r.chance(0.6);
  // MAC fields are an HDF5-only class: the Ogawa writer has no implementation for them (see P08)
  int n = r.range(1, 4);
  std::vector<Item> items;
  bool nontriv = false;
  size_t threads = r.chance(0.7) ? 1 : r.range(2, 5);
  setNumIOThreads(threads);
  std::ostringstream d;
  d << (ogawa ? "ogawa" : "hdf5") << " threads=" << threads;
  for (int a = 0; a < n; a++) {
    Item it;
    it.type = (int)r.u(6);
    it.kind = (int)r.u(Kinds);
    if (it.kind == KMAC && (ogawa || it.type < 3)) it.kind = (int)r.u(2);
    it.part = rndName(r);
    for (auto& o : items) while (o.part == it.part) it.part = rndName(r) + "x";
    it.layer = rndName(r);
    std::string dd;
    withType(it.type, [&](auto z) {
      typedef decltype(z) T;
      it.field = it.kind == KMAC ? buildMac(r, z, dd) : build<T>(r, it.kind, nontriv, dd);
      it.field->name = it.part;
      it.field->attribute = it.layer;
    });
    d << " | " << kindName(it.kind) << " t" << it.type << dd;
    if (it.kind != KMIPDense && it.kind != KMIPSparse)
      it.field->setMapping(rndMapping(r, (int)r.u(MapKinds)));
    d << " map=" << it.field->mapping()->className();
    rndMetadata(r, it.field->metadata());
    items.push_back(it);
  }
  c.desc = d.str();
  std::string fn = c.path("rt.f3d");
  Field3DOutputFile::useOgawa(ogawa);
  {
    Field3DOutputFile out;
    VF_CHECK(out.create(fn), "create", "create failed");
    for (auto& it : items)
      withType(it.type, [&](auto z) {
        typedef decltype(z) T;
        typename Field<T>::Ptr f = field_dynamic_cast<Field<T> >(it.field);
        VF_CHECK(f, "cast", "field_dynamic_cast<Field<T>> of a field of T returned null");
        bool ok = r.chance(0.5) ? IO<T>::write(out, it.part, it.layer, f) : IO<T>::write(out, f);
        VF_CHECK(ok, "write", "writing layer " << it.layer << " returned false");
      });
    VF_CHECK(out.close(), "close", "close returned false");
  }
  setNumIOThreads(r.chance(0.5) ? 1 : r.range(2, 5));
  Field3DInputFile in;
  VF_CHECK(in.open(fn), "open", "open failed");
  VF_CHECK(in.encoding() == (ogawa ? "Ogawa" : "HDF5"), "encoding", "encoding " << in.encoding());
  for (auto& it : items)
    withType(it.type, [&](auto z) {
      typedef decltype(z) T;
      typename Field<T>::Vec v = IO<T>::read(in, it.part, it.layer);
      VF_CHECK(v.size() == 1, "read-count", "reading " << it.part << ":" << it.layer << " gave " << v.size() << " fields");
      VF_CHECK(v[0]->name == it.part && v[0]->attribute == it.layer, "name",
               "read back as " << v[0]->name << ":" << v[0]->attribute << " expected " << it.part << ":" << it.layer);
      typename Field<T>::Ptr f = field_dynamic_cast<Field<T> >(it.field);
      std::string diff = fullDiff<T>(f.get(), v[0].get());
      VF_CHECK(diff.empty(), std::string("content:") + kindName(it.kind), it.part << ":" << it.layer << " read back differs: " << diff);
    });
  vf::seen("configs", Hash().add((uint64_t)ogawa).add((uint64_t)items[0].kind).add((uint64_t)items[0].type).h);
  vf::count("layers", items.size());
  if (nontriv) vf::nontrivial(Hash().add(c.desc).h);
  unlink(fn.c_str());
}

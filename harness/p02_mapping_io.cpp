// P02: every layer comes back with the coordinate mapping it was written with.
#include "gen.h"
using namespace gen;

const char* vf_id() { return "P02"; }
void vf_init() { initIO(); Msg::setVerbosity(0); }

namespace {
// a mapping that differs from m in one small respect
FieldMapping::Ptr variant(Rng& r, FieldMapping::Ptr m) {
  if (MatrixFieldMapping* mm = dynamic_cast<MatrixFieldMapping*>(m.get())) {
    MatrixFieldMapping::Ptr n(new MatrixFieldMapping);
    MatrixFieldMapping::MatrixCurve::SampleVec s = mm->localToWorldSamples();
    if (s.empty()) { n->setLocalToWorld(rndMatrix(r)); return n; }
    size_t w = r.u(s.size());
    int how = (int)r.u(6);
    for (size_t i = 0; i < s.size(); i++) {
      M44d a = s[i].second;
      float t = s[i].first;
      if (i == w) {
        M44d t2;
        t2.makeIdentity();
        switch (how) {
          case 0: a[3][r.u(3)] += r.chance(0.5) ? 1 : 1e-9; break;
          case 1: t2.shear(V3d(r.real(0.1, 0.9), 0, 0)); a = t2 * a; break;
          case 2: t2.rotate(V3d(0, r.real(0.01, 1), 0)); a = a * t2; break;
          case 3: t2.scale(V3d(1, 1, r.real(1.1, 2))); a = t2 * a; break;
          case 4: t += 0.125f; break;
          default: a[r.u(3)][r.u(3)] += 0.25; break;
        }
      }
      n->setLocalToWorld(t, a);
    }
    if (r.chance(0.15)) n->setLocalToWorld(7.5f, rndMatrix(r));
    return n;
  }
  if (FrustumFieldMapping* fm = dynamic_cast<FrustumFieldMapping*>(m.get())) {
    FrustumFieldMapping::Ptr n(new FrustumFieldMapping);
    auto ss = fm->screenToWorldSamples();
    auto cs = fm->cameraToWorldSamples();
    int how = (int)r.u(6);
    n->setZDistribution(how == 0 ? (fm->zDistribution() == FrustumFieldMapping::UniformDistribution
                                        ? FrustumFieldMapping::PerspectiveDistribution
                                        : FrustumFieldMapping::UniformDistribution)
                                 : fm->zDistribution());
    size_t w = r.u(ss.size());
    for (size_t i = 0; i < ss.size(); i++) {
      M44d a = ss[i].second, b = cs[i].second;
      if (i == w && how == 1) rndFrustum(r, a, b);
      if (i == w && how == 2) { M44d t; t.makeIdentity(); t.translate(V3d(0, 0, 0.5)); a = a * t; b = b * t; }
      float t = ss[i].first;
      if (i == w && how == 3) t += r.chance(0.5) ? 0.0625f : -0.0625f;
      if (how == 4 && i == w && ss.size() > 1) continue;  // one sample fewer
      if (i == w && how == 5) { M44d q; q.rotate(V3d(0, 0, r.real(0.01, 1))); a = a * q; b = b * q; }
      n->setTransforms(t, a, b);
    }
    if (r.chance(0.15)) { M44d a, b; rndFrustum(r, a, b); n->setTransforms(9.25f, a, b); }
    return n;
  }
  return rndMapping(r, 1 + (int)r.u(MapKinds - 1));
}
}  // namespace

void vf_case(Ctx& c) {
  Rng& r = c.rng;
  bool ogawa = r.chance(0.6);
  Field3DOutputFile::useOgawa(ogawa);
  int nm = r.range(1, 3), nl = r.range(2, 7);
  std::vector<FieldMapping::Ptr> pool;
  int baseKind = (int)r.u(MapKinds);
  pool.push_back(rndMapping(r, baseKind));
  while ((int)pool.size() < nm) pool.push_back(r.chance(0.8) ? variant(r, pool[0]) : rndMapping(r, (int)r.u(MapKinds)));
  std::vector<std::string> parts = {rndName(r), rndName(r) + "2"}, layers = {"a", "b", rndName(r) + "3"};
  Box3i e0, w0;
  rndWindows(r, e0, w0, 5);
  struct W { int type; std::string part, layer; FieldMapping::Ptr expect; };
  std::vector<W> ws;
  std::ostringstream d;
  d << (ogawa ? "ogawa" : "hdf5") << " base=" << baseKind << " pool=" << nm;
  std::string fn = c.path("map.f3d");
  bool sawTV = false;
  {
    Field3DOutputFile out;
    VF_CHECK(out.create(fn), "create", "create failed");
    FieldRes::Ptr prev;
    for (int i = 0; i < nl; i++) {
      W w;
      w.type = (int)r.u(6);
      w.part = parts[r.u(2)];
      w.layer = layers[r.u(3)];
      withType(w.type, [&](auto z) {
        typedef decltype(z) T;
        typename Field<T>::Ptr f;
        Box3i e = e0, dw = w0;
        if (r.chance(0.3)) rndWindows(r, e, dw, 5);
        if (r.chance(0.5)) f = mkDense<T>(r, e, dw);
        else f = mkSparse<T>(r, e, dw, 2);
        FieldMapping::Ptr m = pool[r.u(pool.size())];
        // mutate the mapping of an already written field, then write the next layer
        if (prev && r.chance(0.25)) {
          if (MatrixFieldMapping* mm = dynamic_cast<MatrixFieldMapping*>(prev->mapping().get())) mm->setLocalToWorld(rndMatrix(r));
          if (FrustumFieldMapping* fm = dynamic_cast<FrustumFieldMapping*>(prev->mapping().get())) {
            M44d a, b; rndFrustum(r, a, b); fm->setTransforms(a, b);
          }
          if (r.chance(0.5)) m = prev->mapping();
          d << " mutated";
        }
        f->setMapping(m);
        w.expect = f->mapping()->clone();
        if (MatrixFieldMapping* mm = dynamic_cast<MatrixFieldMapping*>(w.expect.get())) sawTV |= mm->localToWorldSamples().size() > 1;
        f->metadata().setIntMetadata("uid", i);
        VF_CHECK(IO<T>::write(out, w.part, w.layer, f), "write", "write returned false for layer " << i);
        prev = f;
      });
      d << " " << w.expect->className() << ":t" << w.type;
      ws.push_back(w);
    }
    out.close();
  }
  c.desc = d.str();
  Field3DInputFile in;
  VF_CHECK(in.open(fn), "open", "open failed");
  for (int i = 0; i < nl; i++)
    withType(ws[i].type, [&](auto z) {
      typedef decltype(z) T;
      typename Field<T>::Vec v = IO<T>::read(in, ws[i].part, ws[i].layer);
      int found = 0;
      for (auto& f : v)
        if (f->metadata().intMetadata("uid", -1) == i) {
          found++;
          std::string s = mappingDiff(ws[i].expect, f->mapping());
          VF_CHECK(s.empty(), "mapping:" + ws[i].expect->className(), "layer " << i << ": " << s);
        }
      VF_CHECK(found == 1, "missing", "layer " << i << " (" << ws[i].part << ":" << ws[i].layer << ") found " << found << " times");
      vf::seen("mapping_states", Hash().add((uint64_t)ogawa).add(ws[i].expect->className()).h);
    });
  vf::count("layers", nl);
  Hash h;
  h.add(c.desc);
  V3d p;
  ws[0].expect->localToWorld(V3d(0.3, 0.2, 0.1), p);
  h.bytes(&p, sizeof p);
  vf::nontrivial(h.h);
  unlink(fn.c_str());
}

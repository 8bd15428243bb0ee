// P03: layers are listed and found exactly as written; file objects can be reused.
#include "gen.h"
using namespace gen;

const char* vf_id() { return "P03"; }
void vf_init() { initIO(); Msg::setVerbosity(0); }

namespace {
struct L {
  int type, uid;
  std::string part, layer;
  Box3i ext, dw;
  FieldMapping::Ptr map;
  int levels;
};
std::string key(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += "'" + x + "' "; return s; }
std::string ids(const std::multiset<int>& v) { std::string s; for (int x : v) s += std::to_string(x) + " "; return s; }
template <class V> std::multiset<int> uids(const V& v) {
  std::multiset<int> s;
  for (auto& f : v) s.insert(f->metadata().intMetadata("uid", -1));
  return s;
}
// the calls for one kind of layer, in every form the file classes offer
template <class T, int V = TT<T>::vec> struct Calls {
  static bool dflt(Field3DOutputFile& o, const std::string& l, typename Field<T>::Ptr f) { return o.writeScalarLayer<T>(l, f); }
  static typename EmptyField<T>::Vec proxies(Field3DInputFile& i, const std::string& l) { return i.readProxyScalarLayers<T>(l); }
  template <template <class> class F> static typename F<T>::Vec as(Field3DInputFileHDF5& i, const std::string& l) { return i.readScalarLayersAs<F, T>(l); }
  template <template <class> class F> static typename F<T>::Vec as(Field3DInputFileHDF5& i, const std::string& p, const std::string& l) { return i.readScalarLayersAs<F, T>(p, l); }
};
template <class T> struct Calls<T, 1> {
  typedef typename TT<T>::S S;
  static bool dflt(Field3DOutputFile& o, const std::string& l, typename Field<T>::Ptr f) { return o.writeVectorLayer<S>(l, f); }
  static typename EmptyField<T>::Vec proxies(Field3DInputFile& i, const std::string& l) { return i.readProxyVectorLayers<T>(l); }
  template <template <class> class F> static typename F<T>::Vec as(Field3DInputFileHDF5& i, const std::string& l) { return i.readVectorLayersAs<F, S>(l); }
  template <template <class> class F> static typename F<T>::Vec as(Field3DInputFileHDF5& i, const std::string& p, const std::string& l) { return i.readVectorLayersAs<F, S>(p, l); }
};
void noDup(const std::vector<std::string>& v, const char* what) {
  std::set<std::string> s(v.begin(), v.end());
  VF_CHECK(s.size() == v.size(), std::string("dup:") + what, what << " contains duplicates: " << key(v));
}
}  // namespace

static std::vector<L> writeOne(Ctx& c, Field3DOutputFile& out, const std::string& fn, bool ogawa, bool global,
                               FieldMetadata& gm, std::ostringstream& d) {
  Rng& r = c.rng;
  Field3DOutputFile::useOgawa(ogawa);
  VF_CHECK(out.create(fn), "create", "create failed");
  std::vector<std::string> parts = {rndName(r), rndName(r) + "2", "p.1"}, layers = {"a", "b.0", rndName(r) + "3"};
  std::vector<FieldMapping::Ptr> maps = {rndMapping(r, 1), rndMapping(r, 0), rndMapping(r, 2)};
  std::vector<L> ls;
  int n = r.range(0, 9);
  for (int i = 0; i < n; i++) {
    L l;
    l.type = (int)r.u(6);
    l.uid = i;
    l.part = parts[r.u(r.chance(0.5) ? 1 : 3)];
    l.layer = layers[r.u(r.chance(0.4) ? 1 : 3)];
    l.levels = 0;
    withType(l.type, [&](auto z) {
      typedef decltype(z) T;
      typename Field<T>::Ptr f;
      Box3i e, w;
      rndWindows(r, e, w, 4);
      int k = (int)r.u(5);
      if (k < 2) f = mkDense<T>(r, e, w);
      else if (k < 4) f = mkSparse<T>(r, e, w, 1);
      else {
        auto lv = rndLevels(r, 6, 3);
        typename MIPField<DenseField<T> >::Ptr m(new MIPField<DenseField<T> >);
        typename MIPField<DenseField<T> >::FieldVec v;
        for (auto& b : lv) v.push_back(mkDense<T>(r, b, b));
        m->setup(v);
        l.levels = (int)lv.size();
        f = m;
      }
      f->setMapping(maps[r.u(r.chance(0.6) ? 1 : 3)]);
      f->metadata().setIntMetadata("uid", i);
      l.ext = f->extents(); l.dw = f->dataWindow(); l.map = f->mapping()->clone();
      bool ok = false;
      int form = (int)r.u(6);
      if (form < 2) ok = IO<T>::write(out, l.part, l.layer, f);
      else if (form == 2) ok = out.template writeLayer<T>(l.part, l.layer, f);
      else if (form == 3) {
        f->name = l.part; f->attribute = l.layer;
        ok = r.chance(0.5) ? IO<T>::write(out, f) : out.template writeLayer<T>(f);
      } else if (form == 4) {
        l.part = "default";
        ok = Calls<T>::dflt(out, l.layer, f);
      } else {
        l.part = "default";
        ok = out.template writeLayer<T>(l.layer, f);
      }
      VF_CHECK(ok, std::string("write:") + (ogawa ? "ogawa" : "hdf5"), "layer " << i << " " << l.part << ":" << l.layer << " not written; so far: " << d.str());
    });
    d << " " << l.part << ":" << l.layer << "/t" << l.type;
    ls.push_back(l);
  }
  if (global) {
    rndMetadata(r, out.metadata());
    gm = out.metadata();
    VF_CHECK(out.writeGlobalMetadata(), "global", "writeGlobalMetadata returned false");
  }
  VF_CHECK(out.close(), "close", "close failed");
  return ls;
}

static void checkOne(Ctx& c, Field3DInputFile& in, const std::string& fn, bool ogawa, const std::vector<L>& ls,
                     bool global, const FieldMetadata& gm) {
  Rng& r = c.rng;
  VF_CHECK(in.open(fn), "open", "open failed");
  VF_CHECK(in.encoding() == (ogawa ? "Ogawa" : "HDF5"), "encoding", "encoding reported as " << in.encoding());
  FieldMetadata none(NULL);
  std::string md = metaDiff(in.metadata(), global ? gm : none);
  VF_CHECK(md.empty(), "global-metadata", "global metadata: " << md);
  std::vector<std::string> names;
  in.getPartitionNames(names);
  noDup(names, "partition names");
  std::set<std::string> want, got(names.begin(), names.end());
  for (auto& l : ls) want.insert(l.part);
  VF_CHECK(want == got, "partitions", "partition names " << key(names));
  for (auto& p : want) {
    std::set<std::string> sc, ve, all;
    for (auto& l : ls) if (l.part == p) { (l.type < 3 ? sc : ve).insert(l.layer); all.insert(l.layer); }
    for (int vec = 0; vec < 2; vec++) {
      std::vector<std::string> ln;
      if (vec) in.getVectorLayerNames(ln, p); else in.getScalarLayerNames(ln, p);
      noDup(ln, vec ? "vector layer names" : "scalar layer names");
      std::set<std::string> g(ln.begin(), ln.end());
      for (auto& x : vec ? ve : sc) VF_CHECK(g.count(x), "layer-missing", (vec ? "vector" : "scalar") << " layer " << x << " of " << p << " not listed: " << key(ln));
      for (auto& x : g) VF_CHECK(all.count(x), "layer-extra", "listed layer " << x << " was never written to " << p);
      if (!ogawa) VF_CHECK(g == (vec ? ve : sc), "layer-kind", "HDF5 listing mixes scalar and vector layers");
    }
  }
  std::set<std::string> lnames;
  for (auto& l : ls) lnames.insert(l.layer);
  lnames.insert("");
  lnames.insert("nosuch");
  std::unique_ptr<Field3DInputFileHDF5> h5;
  if (!ogawa && r.chance(0.3)) {
    h5.reset(new Field3DInputFileHDF5);
    VF_CHECK(h5->open(fn), "open-hdf5", "Field3DInputFileHDF5 can't open the file");
  }
  for (int t = 0; t < 6; t++)
    withType(t, [&](auto z) {
      typedef decltype(z) T;
      for (auto& ln : lnames) {
        std::multiset<int> exp;
        for (auto& l : ls) if (l.type == t && (ln.empty() || l.layer == ln)) exp.insert(l.uid);
        auto v = IO<T>::read(in, ln);
        if (r.chance(0.4)) {
        auto any = in.readLayers<T>(ln);
        VF_CHECK(uids(any) == exp, "readLayers", "readLayers of type " << t << " layers named '" << ln << "' gave uids " << ids(uids(any)) << " expected " << ids(exp));
        std::multiset<int> kindExp, allExp;
        for (auto& l : ls) if (ln.empty() || l.layer == ln) { allExp.insert(l.uid); if ((l.type >= 3) == !!TT<T>::vec) kindExp.insert(l.uid); }
        auto px = uids(Calls<T>::proxies(in, ln));
        // Ogawa files don't tell scalar from vector layers
        bool pok = ogawa ? std::includes(px.begin(), px.end(), kindExp.begin(), kindExp.end()) && std::includes(allExp.begin(), allExp.end(), px.begin(), px.end()) : px == kindExp;
        VF_CHECK(pok, "proxies-by-name", "proxies named '" << ln << "' have uids " << ids(px) << " expected " << ids(kindExp));
        }
        VF_CHECK(uids(v) == exp, "read-by-name", "reading type " << t << " layers named '" << ln << "' gave uids " << ids(uids(v)) << " expected " << ids(exp));
        for (auto& p : want) {
          std::multiset<int> e2;
          for (auto& l : ls) if (l.type == t && l.layer == ln && l.part == p) e2.insert(l.uid);
          auto v2 = IO<T>::read(in, p, ln);
          VF_CHECK(uids(v2) == e2, "read-by-partition", "reading type " << t << " layer " << p << ":" << ln << " gave " << ids(uids(v2)) << " expected " << ids(e2));
          auto any2 = r.chance(0.3) ? in.readLayers<T>(p, ln) : v2;
          VF_CHECK(uids(any2) == e2, "readLayers-by-partition", "readLayers of type " << t << " " << p << ":" << ln << " gave " << ids(uids(any2)) << " expected " << ids(e2));
          for (auto& f : v2) VF_CHECK(f->name == p && f->attribute == ln, "field-name", "field named " << f->name << ":" << f->attribute);
        }
      }
      if (h5) {
        auto conv = [&](auto vec, const std::multiset<int>& exp, const std::string& ln, auto& orig) {
          std::multiset<int> got;
          for (auto& f : vec) got.insert(f->metadata().intMetadata("uid", -1));
          VF_CHECK(got == exp, "read-as", "layers '" << ln << "' converted: uids " << ids(got) << " expected " << ids(exp));
          for (auto& f : vec)
            for (auto& o : orig)
              if (o->metadata().intMetadata("uid", -1) == f->metadata().intMetadata("uid", -1)) {
                VF_CHECK(f->name == o->name && f->attribute == o->attribute, "read-as-name", "converted field named " << f->name << ":" << f->attribute);
                std::string s = voxelDiff<T>(*f, *o);
                if (s.empty()) s = mappingDiff(f->mapping(), o->mapping());
                VF_CHECK(s.empty(), "read-as-content", s);
                vf::count("converted_layers");
              }
        };
        std::string ln = r.chance(0.5) ? "" : *r.pick(std::vector<std::set<std::string>::iterator>{lnames.begin(), --lnames.end()});
        std::multiset<int> exp;
        for (auto& l : ls) if (l.type == t && (ln.empty() || l.layer == ln)) exp.insert(l.uid);
        auto orig = IO<T>::read(in, ln);
        if (r.chance(0.5)) conv(Calls<T>::template as<DenseField>(*h5, ln), exp, ln, orig);
        else conv(Calls<T>::template as<SparseField>(*h5, ln), exp, ln, orig);
        for (auto& p : want) {
          if (ln.empty()) continue;
          std::multiset<int> e2;
          for (auto& l : ls) if (l.type == t && l.layer == ln && l.part == p) e2.insert(l.uid);
          auto o2 = IO<T>::read(in, p, ln);
          if (r.chance(0.5)) conv(Calls<T>::template as<DenseField>(*h5, p, ln), e2, p + ":" + ln, o2);
          else conv(Calls<T>::template as<SparseField>(*h5, p, ln), e2, p + ":" + ln, o2);
        }
      }
      // proxies
      for (auto& l : ls) {
        if (l.type != t || !r.chance(0.5)) continue;
        typename EmptyField<T>::Vec pv = in.readProxyLayer<T>(l.part, l.layer, TT<T>::vec);
        int found = 0;
        for (auto& f : pv)
          if (f->metadata().intMetadata("uid", -1) == l.uid) {
            found++;
            VF_CHECK(f->extents() == l.ext && f->dataWindow() == l.dw, "proxy-window", "proxy windows " << str(f->extents()) << " " << str(f->dataWindow()) << " expected " << str(l.ext) << " " << str(l.dw));
            VF_CHECK(f->name == l.part && f->attribute == l.layer, "proxy-name", "proxy named " << f->name << ":" << f->attribute);
            VF_CHECK(f->metadata().intMetadata("mip_levels", -1) == l.levels, "proxy-levels", "mip_levels " << f->metadata().intMetadata("mip_levels", -1) << " expected " << l.levels);
            std::string s = mappingDiff(l.map, f->mapping());
            VF_CHECK(s.empty(), "proxy-mapping", s);
          }
        VF_CHECK(found == 1, "proxy-count", "proxy for " << l.part << ":" << l.layer << " found " << found << " times");
      }
    });
}

void vf_case(Ctx& c) {
  Rng& r = c.rng;
  Field3DOutputFile out;
  Field3DInputFile in;
  int rounds = r.range(1, 3);
  std::ostringstream d;
  struct F { std::string fn; bool og, gl; std::vector<L> ls; };
  std::vector<F> fs;
  std::vector<FieldMetadata*> gms;
  bool interleave = r.chance(0.5);
  for (int i = 0; i < rounds; i++) {
    F f;
    f.fn = c.path("l" + std::to_string(i) + ".f3d");
    f.og = r.chance(0.6);
    f.gl = r.chance(0.5);
    gms.push_back(new FieldMetadata(NULL));
    d << (i ? " || " : "") << (f.og ? "ogawa" : "hdf5") << (f.gl ? "+meta" : "");
    c.desc = d.str();
    if (f.gl || !interleave) {
      // metadata set on a reused object would accumulate by design; use a fresh object then
      Field3DOutputFile o2;
      f.ls = writeOne(c, o2, f.fn, f.og, f.gl, *gms[i], d);
    } else
      f.ls = writeOne(c, out, f.fn, f.og, f.gl, *gms[i], d);
    c.desc = d.str();
    fs.push_back(f);
    if (interleave) {
      checkOne(c, in, f.fn, f.og, f.ls, f.gl, *gms[i]);
      if (r.chance(0.2)) VF_CHECK(!in.open(c.path("nosuch.f3d")), "open-missing", "opening a missing file succeeded");
      if (r.chance(0.3)) VF_CHECK(in.close(), "close", "close failed");
    }
  }
  for (int k = 0; k < rounds; k++) {
    size_t i = r.u(rounds);
    checkOne(c, in, fs[i].fn, fs[i].og, fs[i].ls, fs[i].gl, *gms[i]);
  }
  for (auto g : gms) delete g;
  vf::count("files", rounds);
  size_t tot = 0;
  for (auto& f : fs) { tot += f.ls.size(); unlink(f.fn.c_str()); }
  vf::count("layers", tot);
  if (tot) vf::nontrivial(Hash().add(c.desc).h);
}

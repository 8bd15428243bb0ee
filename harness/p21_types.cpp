// P21: run-time type checks and creation by name are exact.
#include "gen.h"
#include "par.h"
#include <Field3D/ClassFactory.h>
#include <Field3D/EmptyField.h>
#include <Field3D/FieldIO.h>
#include <Field3D/FieldMappingIO.h>
#include <Field3D/ProceduralField.h>
#include <fstream>
#include <sys/stat.h>
#include <typeinfo>
using namespace gen;

const char* vf_id() { return "P21"; }

namespace {
// --- user-defined classes, written as the documentation asks -----------------------------------
template <class T> struct UserProc : ProceduralField<T> {
  typedef UserProc class_type;
  typedef boost::intrusive_ptr<UserProc> Ptr;
  typedef ProceduralField<T> base;
  DEFINE_FIELD_RTTI_CONCRETE_CLASS
  static const char* staticClassName() { return "UserProc"; }
  static const char* staticClassType() {
    static std::string s = std::string("UserProc<") + DataTypeTraits<T>::name() + ">";
    return s.c_str();
  }
  virtual std::string className() const { return staticClassName(); }
  virtual std::string classType() const { return staticClassType(); }
  virtual T value(int, int, int) const { return T(1); }
  virtual T lsSample(const V3d&) const { return T(2); }
  virtual FieldBase::Ptr clone() const { return FieldBase::Ptr(new UserProc(*this)); }
};
// Tag: two different classes that report the same name; K: different names
template <class T, int K, int Tag> struct UserDense : DenseField<T> {
  typedef UserDense class_type;
  typedef boost::intrusive_ptr<UserDense> Ptr;
  typedef DenseField<T> base;
  DEFINE_FIELD_RTTI_CONCRETE_CLASS
  static const char* staticClassName() { static std::string s = "UserDense" + std::to_string(K); return s.c_str(); }
  static const char* staticClassType() {
    static std::string s = "UserDense" + std::to_string(K) + "." + std::to_string(Tag) + "<" + DataTypeTraits<T>::name() + ">";
    return s.c_str();
  }
  virtual std::string className() const { return staticClassName(); }
  virtual std::string classType() const { return staticClassType(); }
  virtual FieldBase::Ptr clone() const { return FieldBase::Ptr(new UserDense(*this)); }
  static FieldRes::Ptr create() { return FieldRes::Ptr(new UserDense); }
};
template <int K, int Tag> struct UserMapping : MatrixFieldMapping {
  typedef UserMapping class_type;
  typedef boost::intrusive_ptr<UserMapping> Ptr;
  typedef MatrixFieldMapping base;
  DEFINE_FIELD_RTTI_CONCRETE_CLASS
  static const char* staticClassName() { static std::string s = "UserMapping" + std::to_string(K); return s.c_str(); }
  static const char* staticClassType() { static std::string s = "UserMapping" + std::to_string(K) + "." + std::to_string(Tag); return s.c_str(); }
  virtual std::string className() const { return staticClassName(); }
  virtual FieldMapping::Ptr clone() const { return FieldMapping::Ptr(new UserMapping(*this)); }
  static FieldMapping::Ptr create() { return FieldMapping::Ptr(new UserMapping); }
};
template <int K, int Tag> struct UserIO : FieldIO {
  typedef UserIO class_type;
  typedef boost::intrusive_ptr<UserIO> Ptr;
  typedef FieldIO base;
  DEFINE_FIELD_RTTI_CONCRETE_CLASS
  static const char* staticClassType() { static std::string s = "UserIO" + std::to_string(K) + "." + std::to_string(Tag); return s.c_str(); }
  virtual std::string className() const { return "UserIO" + std::to_string(K); }
  virtual FieldBase::Ptr read(hid_t, const std::string&, const std::string&, DataTypeEnum) { return FieldBase::Ptr(); }
  virtual FieldBase::Ptr read(const OgIGroup&, const std::string&, const std::string&, OgDataType) { return FieldBase::Ptr(); }
  virtual bool write(hid_t, FieldBase::Ptr) { return false; }
  virtual bool write(OgOGroup&, FieldBase::Ptr) { return false; }
  static FieldIO::Ptr create() { return FieldIO::Ptr(new UserIO); }
};
template <int K, int Tag> struct UserMappingIO : FieldMappingIO {
  typedef UserMappingIO class_type;
  typedef boost::intrusive_ptr<UserMappingIO> Ptr;
  typedef FieldMappingIO base;
  DEFINE_FIELD_RTTI_CONCRETE_CLASS
  static const char* staticClassType() { static std::string s = "UserMappingIO" + std::to_string(K) + "." + std::to_string(Tag); return s.c_str(); }
  virtual std::string className() const { return "UserMappingIO" + std::to_string(K); }
  virtual FieldMapping::Ptr read(hid_t) { return FieldMapping::Ptr(); }
  virtual FieldMapping::Ptr read(const OgIGroup&) { return FieldMapping::Ptr(); }
  virtual bool write(hid_t, FieldMapping::Ptr) { return false; }
  virtual bool write(OgOGroup&, FieldMapping::Ptr) { return false; }
  static FieldMappingIO::Ptr create() { return FieldMappingIO::Ptr(new UserMappingIO); }
};

// --- the matrix of casts -------------------------------------------------------------------------
struct Target {
  std::string name;
  std::function<void*(const RefBase::Ptr&, bool&)> viaField;  // field_dynamic_cast
  std::function<void*(RefBase*)> viaCxx;                      // dynamic_cast
};
struct Source { std::string name; std::function<RefBase::Ptr(Rng&)> make; };
std::vector<Target> g_targets;
std::vector<Source> g_sources;

template <class X> void target(const std::string& n) {
  Target t;
  t.name = n;
  t.viaField = [](const RefBase::Ptr& p, bool& counted) -> void* {
    size_t before = p ? p->refcnt() : 0;
    typename X::Ptr q = field_dynamic_cast<X>(p);
    counted = !q || p->refcnt() == before + 1;
    return q ? dynamic_cast<void*>(q.get()) : nullptr;
  };
  t.viaCxx = [](RefBase* p) -> void* { X* q = dynamic_cast<X*>(p); return q ? dynamic_cast<void*>(q) : nullptr; };
  g_targets.push_back(t);
}
template <class X> void source(const std::string& n) {
  g_sources.push_back({n, [](Rng&) { return RefBase::Ptr(new X); }});
}
template <class T> void typesFor(const std::string& t) {
  target<Field<T>>("Field<" + t + ">");
  target<WritableField<T>>("WritableField<" + t + ">");
  target<ResizableField<T>>("ResizableField<" + t + ">");
  target<DenseField<T>>("DenseField<" + t + ">");
  target<SparseField<T>>("SparseField<" + t + ">");
  target<EmptyField<T>>("EmptyField<" + t + ">");
  target<ProceduralField<T>>("ProceduralField<" + t + ">");
  target<UserProc<T>>("UserProc<" + t + ">");
  target<UserDense<T, 0, 0>>("UserDense0<" + t + ">");
  target<MIPField<DenseField<T>>>("MIPField<DenseField<" + t + ">>");
  target<MIPField<SparseField<T>>>("MIPField<SparseField<" + t + ">>");
  source<DenseField<T>>("DenseField<" + t + ">");
  source<SparseField<T>>("SparseField<" + t + ">");
  source<EmptyField<T>>("EmptyField<" + t + ">");
  source<UserProc<T>>("UserProc<" + t + ">");
  source<UserDense<T, 0, 0>>("UserDense0<" + t + ">");
  source<UserDense<T, 0, 1>>("UserDense0.1<" + t + ">");
  source<MIPField<DenseField<T>>>("MIPField<DenseField<" + t + ">>");
  source<MIPField<SparseField<T>>>("MIPField<SparseField<" + t + ">>");
  target<FieldInterp<T>>("FieldInterp<" + t + ">");
  target<LinearFieldInterp<T>>("LinearFieldInterp<" + t + ">");
  target<CubicFieldInterp<T>>("CubicFieldInterp<" + t + ">");
  source<LinearFieldInterp<T>>("LinearFieldInterp<" + t + ">");
  source<CubicFieldInterp<T>>("CubicFieldInterp<" + t + ">");
}
template <class T> void vecTypesFor(const std::string& t) {
  target<MACField<T>>("MACField<" + t + ">");
  source<MACField<T>>("MACField<" + t + ">");
  target<MIPField<MACField<T>>>("MIPField<MACField<" + t + ">>");
}
void buildTables() {
  target<FieldBase>("FieldBase");
  target<FieldRes>("FieldRes");
  typesFor<half>("half"); typesFor<float>("float"); typesFor<double>("double");
  typesFor<V3h>("V3h"); typesFor<V3f>("V3f"); typesFor<V3d>("V3d");
  vecTypesFor<V3h>("V3h"); vecTypesFor<V3f>("V3f"); vecTypesFor<V3d>("V3d");
  target<FieldMapping>("FieldMapping");
  target<NullFieldMapping>("NullFieldMapping");
  target<MatrixFieldMapping>("MatrixFieldMapping");
  target<FrustumFieldMapping>("FrustumFieldMapping");
  target<UserMapping<0, 0>>("UserMapping0");
  source<NullFieldMapping>("NullFieldMapping");
  source<MatrixFieldMapping>("MatrixFieldMapping");
  source<FrustumFieldMapping>("FrustumFieldMapping");
  source<UserMapping<0, 0>>("UserMapping0");
  target<FieldIO>("FieldIO");
  target<FieldMappingIO>("FieldMappingIO");
  target<NullFieldMappingIO>("NullFieldMappingIO");
  target<MatrixFieldMappingIO>("MatrixFieldMappingIO");
  target<FrustumFieldMappingIO>("FrustumFieldMappingIO");
  source<NullFieldMappingIO>("NullFieldMappingIO");
  source<MatrixFieldMappingIO>("MatrixFieldMappingIO");
  source<FrustumFieldMappingIO>("FrustumFieldMappingIO");
  for (const char* n : {"DenseField", "SparseField", "MACField", "MIPField"})
    g_sources.push_back({std::string("FieldIO:") + n, [n](Rng&) { return RefBase::Ptr(ClassFactory::singleton().createFieldIO(n)); }});
  target<File::Partition>("Partition");
  source<File::Partition>("Partition");
}

// --- registration model --------------------------------------------------------------------------
typedef ClassFactory::CreateFieldFnPtr FFn;
typedef ClassFactory::CreateFieldIOFnPtr IFn;
typedef ClassFactory::CreateFieldMappingFnPtr MFn;
typedef ClassFactory::CreateFieldMappingIOFnPtr NFn;
template <class T> FieldRes::Ptr mkD() { return FieldRes::Ptr(new T); }
FieldRes::Ptr nullField() { return FieldRes::Ptr(); }
FieldIO::Ptr nullIO() { return FieldIO::Ptr(); }
FieldMapping::Ptr nullMap() { return FieldMapping::Ptr(); }
FieldMappingIO::Ptr nullMIO() { return FieldMappingIO::Ptr(); }
FieldMapping::Ptr mkMat() { return FieldMapping::Ptr(new MatrixFieldMapping); }
FieldMapping::Ptr mkFru() { return FieldMapping::Ptr(new FrustumFieldMapping); }
const std::vector<FFn>& fieldFns() {
  static std::vector<FFn> v = {
      UserDense<float, 0, 0>::create, UserDense<float, 0, 1>::create, UserDense<float, 1, 0>::create, UserDense<V3f, 0, 0>::create,
      UserDense<V3f, 0, 1>::create, UserDense<half, 0, 0>::create, UserDense<double, 1, 2>::create, mkD<DenseField<float>>,
      mkD<DenseField<V3d>>, mkD<SparseField<float>>, mkD<SparseField<V3h>>, mkD<MACField<V3f>>, mkD<EmptyField<float>>, mkD<EmptyField<double>>,
      mkD<UserProc<float>>, nullField};
  return v;
}
const std::vector<IFn>& ioFns() { static std::vector<IFn> v = {UserIO<0, 0>::create, UserIO<0, 1>::create, UserIO<1, 0>::create, UserIO<2, 0>::create, nullIO}; return v; }
const std::vector<MFn>& mapFns() { static std::vector<MFn> v = {UserMapping<0, 0>::create, UserMapping<0, 1>::create, UserMapping<1, 0>::create, mkMat, mkFru, nullMap}; return v; }
const std::vector<NFn>& mioFns() { static std::vector<NFn> v = {UserMappingIO<0, 0>::create, UserMappingIO<0, 1>::create, UserMappingIO<1, 0>::create, UserMappingIO<2, 0>::create, nullMIO}; return v; }
std::string fieldKey(FFn f) { FieldRes::Ptr p = f(); return p ? p->className() + "<" + p->dataTypeString() + ">" : std::string(); }

struct Model {
  std::map<std::string, FFn> f;
  std::map<std::string, IFn> i;
  std::map<std::string, MFn> m;
  std::map<std::string, NFn> n;
};
template <class P, class Fn> void same(const P& got, Fn want, const std::string& name, const char* kind) {
  if (!want) { VF_CHECK(!got, std::string(kind) + "-unknown", kind << " '" << name << "' was never registered but something was created"); return; }
  VF_CHECK(!!got, std::string(kind) + "-missing", kind << " '" << name << "' is registered but nothing was created");
  auto w = want();
  VF_CHECK(typeid(*got.get()) == typeid(*w.get()), std::string(kind) + "-class",
           kind << " '" << name << "': created a " << typeid(*got.get()).name() << ", registered " << typeid(*w.get()).name());
  VF_CHECK(got->refcnt() == 1, std::string(kind) + "-shared", kind << " '" << name << "': the created object is already shared");
}
template <class M> typename M::mapped_type lookup(const M& m, const std::string& k) {
  auto i = m.find(k);
  return i == m.end() ? typename M::mapped_type(nullptr) : i->second;
}
void registerOne(ClassFactory& cf, Model& mo, Rng& r) {
  switch (r.u(4)) {
    case 0: { FFn f = r.pick(fieldFns()); cf.registerField(f); std::string k = fieldKey(f); if (!k.empty()) mo.f.insert({k, f}); break; }
    case 1: { IFn f = r.pick(ioFns()); cf.registerFieldIO(f); auto p = f(); if (p) mo.i.insert({p->className(), f}); break; }
    case 2: { MFn f = r.pick(mapFns()); cf.registerFieldMapping(f); auto p = f(); if (p) mo.m.insert({p->className(), f}); break; }
    default: { NFn f = r.pick(mioFns()); cf.registerFieldMappingIO(f); auto p = f(); if (p) mo.n.insert({p->className(), f}); }
  }
}
std::string anyName(Rng& r) {
  switch (r.u(6)) {
    case 0: { auto p = r.pick(ioFns())(); return p ? p->className() : "nothing"; }
    case 1: { auto p = r.pick(mapFns())(); return p ? p->className() : "nothing"; }
    case 2: { auto p = r.pick(mioFns())(); return p ? p->className() : "nothing"; }
    case 3: { std::string k = fieldKey(r.pick(fieldFns())); if (k.size() > 2 && r.chance(0.5)) k.resize(k.size() - 1); return k; }
    case 4: return rndName(r);
    default: return fieldKey(r.pick(fieldFns()));
  }
}
void checkAll(ClassFactory& cf, const Model& mo, Rng& r) {
  for (FFn f : fieldFns()) { std::string k = fieldKey(f); if (!k.empty()) same(cf.createField(k), lookup(mo.f, k), k, "field"); }
  for (IFn f : ioFns()) { auto p = f(); if (p) same(cf.createFieldIO(p->className()), lookup(mo.i, p->className()), p->className(), "field IO"); }
  for (MFn f : mapFns()) { auto p = f(); if (p) same(cf.createFieldMapping(p->className()), lookup(mo.m, p->className()), p->className(), "mapping"); }
  for (NFn f : mioFns()) { auto p = f(); if (p) same(cf.createFieldMappingIO(p->className()), lookup(mo.n, p->className()), p->className(), "mapping IO"); }
  for (int q = 0; q < 4; q++) {
    std::string k = anyName(r);
    same(cf.createField(k), lookup(mo.f, k), k, "field");
    same(cf.createFieldIO(k), lookup(mo.i, k), k, "field IO");
    same(cf.createFieldMapping(k), lookup(mo.m, k), k, "mapping");
    same(cf.createFieldMappingIO(k), lookup(mo.n, k), k, "mapping IO");
  }
}
std::string g_initError;
void copyFile(const std::string& a, const std::string& b) {
  std::ifstream i(a, std::ios::binary);
  std::ofstream o(b, std::ios::binary);
  o << i.rdbuf();
}
}  // namespace

// The very first use of the factory: from many threads at once, with plugins on the search path.
void vf_init() {
  Msg::setVerbosity(0);
  char tmpl[] = "/tmp/vf-p21-XXXXXX";
  std::string dir;
  const char* p1 = getenv("VF_PLUGIN1");
  const char* p2 = getenv("VF_PLUGIN2");
  if (p1 && *p1 && p2 && *p2 && mkdtemp(tmpl)) {
    dir = tmpl;
    mkdir((dir + "/a").c_str(), 0700);
    mkdir((dir + "/b").c_str(), 0700);
    copyFile(p1, dir + "/a/one.so");
    copyFile(p1, dir + "/b/one.so");
    copyFile(p2, dir + "/b/two.so");
    std::ofstream(dir + "/b/broken.so") << "not a library";
    std::ofstream(dir + "/b/readme.txt") << "text";
    setenv("FIELD3D_DSO_PATH", (dir + "/missing:" + dir + "/a:" + dir + "/b").c_str(), 1);
  }
  std::vector<std::thread> th;
  std::atomic<int> ready(0), bad(0);
  for (int t = 0; t < 6; t++)
    th.emplace_back([&, t] {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < 6) sched_yield();
      if (t % 3 == 0) initIO();
      else if (t % 3 == 1) { if (!ClassFactory::singleton().createFieldIO("NoSuchField") == false) bad++; }
      else { FieldMapping::Ptr p = ClassFactory::singleton().createFieldMapping("NoSuchMapping"); if (p) bad++; }
      initIO();
      if (!ClassFactory::singleton().createFieldIO("DenseField")) bad++;
    });
  for (auto& t : th) t.join();
  unsetenv("FIELD3D_DSO_PATH");
  if (bad) g_initError = "creation from several threads at start-up gave wrong results";
  if (!dir.empty()) {
    for (const char* n : {"PluginField1<float>", "PluginField1<V3f>", "PluginField2<float>", "PluginField2<V3f>"}) {
      FieldRes::Ptr f = ClassFactory::singleton().createField(n);
      if (!f) { if (g_initError.empty()) g_initError = std::string("plugin class ") + n + " found on FIELD3D_DSO_PATH cannot be created"; }
      else if (f->className() + "<" + f->dataTypeString() + ">" != n) g_initError = std::string("plugin class ") + n + " gives a " + f->className();
    }
    for (const char* n : {"/a/one.so", "/b/one.so", "/b/two.so", "/b/broken.so", "/b/readme.txt"}) unlink((dir + n).c_str());
    for (const char* n : {"/a", "/b", ""}) rmdir((dir + n).c_str());
    vf::count("plugins", 2);
  }
  buildTables();
}

void vf_case(Ctx& c) {
  Rng& r = c.rng;
  VF_CHECK(g_initError.empty(), "plugin", g_initError);
  int kind = (int)r.u(10);
  if (kind < 4) {
    // casts: one object against every type
    const Source& s = g_sources[(c.idx + r.u(3)) % g_sources.size()];
    c.desc = "cast " + s.name;
    RefBase::Ptr p = s.make(r);
    VF_CHECK(!!p, "make", "could not make a " << s.name);
    if (FieldBase* fb = dynamic_cast<FieldBase*>(p.get())) {
      if (r.chance(0.5)) {
        FieldBase::Ptr q = fb->clone();
        VF_CHECK(q && typeid(*q.get()) == typeid(*p.get()), "clone-type", "clone of " << s.name << " is a " << (q ? typeid(*q.get()).name() : "null"));
        VF_CHECK(q->className() == fb->className() && q->classType() == fb->classType(), "clone-name", "clone of " << s.name << " has another name");
        p = q;
        fb = q.get();
      }
      // names identify types uniquely
      static std::map<std::string, const std::type_info*> byName;
      auto in = byName.insert({fb->classType(), &typeid(*fb)});
      VF_CHECK(*in.first->second == typeid(*fb), "name-clash",
               "class type string '" << fb->classType() << "' stands for two types: " << in.first->second->name() << " and " << typeid(*fb).name());
    }
    long yes = 0;
    for (const Target& t : g_targets) {
      bool counted = true;
      void* a = t.viaField(p, counted);
      void* b = t.viaCxx(p.get());
      VF_CHECK((a != nullptr) == (b != nullptr), "cast",
               "cast of a " << s.name << " to " << t.name << (a ? " succeeds although it is not one" : " fails although it is one"));
      VF_CHECK(a == b, "cast-pointer", "cast of a " << s.name << " to " << t.name << " gives another address");
      VF_CHECK(counted, "cast-refcount", "cast of a " << s.name << " to " << t.name << " does not share ownership");
      yes += a != nullptr;
      bool dummy;
      if (r.chance(0.02)) VF_CHECK(!t.viaField(RefBase::Ptr(), dummy), "cast-null", "cast of a null pointer to " << t.name << " succeeds");
    }
    vf::count("casts", g_targets.size());
    vf::count("casts_true", yes);
    vf::nontrivial(Hash().add(s.name).add((uint64_t)1).h);
    vf::seen("cast_sources", Hash().add(s.name).h);
  } else if (kind < 8) {
    // registration history on a factory of our own
    ClassFactory cf;
    Model mo;
    int n = r.range(3, 25);
    std::vector<std::pair<FieldRes::Ptr, std::string>> live;
    for (int i = 0; i < n; i++) {
      registerOne(cf, mo, r);
      if (r.chance(0.4)) checkAll(cf, mo, r);
      if (!mo.f.empty() && r.chance(0.5)) {
        auto it = mo.f.begin();
        std::advance(it, r.u(mo.f.size()));
        live.push_back({cf.createField(it->first), it->first});
      }
    }
    checkAll(cf, mo, r);
    for (size_t i = 0; i < live.size(); i++)
      for (size_t j = 0; j < i; j++) VF_CHECK(live[i].first.get() != live[j].first.get(), "field-shared", "two creations of " << live[i].second << " gave one object");
    c.desc = "register n=" + std::to_string(n);
    Hash h;
    h.add((uint64_t)2);
    for (auto& e : mo.f) h.add(e.first).add((uint64_t)(size_t)e.second);
    for (auto& e : mo.i) h.add(e.first).add((uint64_t)(size_t)e.second);
    for (auto& e : mo.m) h.add(e.first).add((uint64_t)(size_t)e.second);
    for (auto& e : mo.n) h.add(e.first).add((uint64_t)(size_t)e.second);
    vf::nontrivial(h.h);
    vf::count("registrations", n);
  } else {
    // registration and creation from several threads at once
    ClassFactory own;
    bool shared = r.chance(0.3);
    ClassFactory& cf = shared ? ClassFactory::singleton() : own;
    int nt = r.range(2, 8);
    c.desc = "threads " + std::to_string(nt) + (shared ? " singleton" : "");
    par::run(c, nt, (int)r.u(4), [&](int, Rng& q, par::Err& e) {
      for (int i = 0; i < 30; i++) {
        switch (q.u(shared ? 5 : 8)) {
          case 0: initIO(); break;
          case 1: { FieldIO::Ptr p = ClassFactory::singleton().createFieldIO("SparseField"); PAR_CHECK(e, p && p->className() == "SparseField", "mt-io", "built-in IO class lost"); break; }
          case 2: { FieldMappingIO::Ptr p = ClassFactory::singleton().createFieldMappingIO("MatrixFieldMapping"); PAR_CHECK(e, p && p->className() == "MatrixFieldMapping", "mt-mio", "built-in mapping IO class lost"); break; }
          case 3: PAR_CHECK(e, !cf.createField("NoSuchClass<float>"), "mt-unknown", "unknown class created"); break;
          case 4: {
            MFn f = q.pick(mapFns());
            cf.registerFieldMapping(f);
            FieldMapping::Ptr w = f();
            if (w) { FieldMapping::Ptr p = cf.createFieldMapping(w->className()); PAR_CHECK(e, p && p->className() == w->className(), "mt-map", "registered mapping " << w->className() << " cannot be created"); }
            break;
          }
          case 5: {
            FFn f = q.pick(fieldFns());
            cf.registerField(f);
            std::string k = fieldKey(f);
            if (!k.empty()) { FieldRes::Ptr p = cf.createField(k); PAR_CHECK(e, p && p->className() + "<" + p->dataTypeString() + ">" == k, "mt-field", "registered field " << k << " cannot be created"); }
            break;
          }
          case 6: {
            IFn f = q.pick(ioFns());
            cf.registerFieldIO(f);
            FieldIO::Ptr w = f();
            if (w) { FieldIO::Ptr p = cf.createFieldIO(w->className()); PAR_CHECK(e, p && p->className() == w->className(), "mt-io", "registered IO " << w->className() << " cannot be created"); }
            break;
          }
          default: {
            NFn f = q.pick(mioFns());
            cf.registerFieldMappingIO(f);
            FieldMappingIO::Ptr w = f();
            if (w) { FieldMappingIO::Ptr p = cf.createFieldMappingIO(w->className()); PAR_CHECK(e, p && p->className() == w->className(), "mt-mio", "registered mapping IO " << w->className() << " cannot be created"); }
          }
        }
        e.ops++;
      }
    });
    vf::nontrivial(Hash().add(c.desc).add(c.idx).h);
  }
}

// P27: field and mapping classes defined outside the library travel through files like the built-in ones.
// A child process registers the classes, writes a file, reads it back and checks it; this process knows none of them
// and reads the same file.
#include "plan.h"
#include <sys/wait.h>
#include <Field3D/FieldIO.h>
#include <Field3D/FieldMappingIO.h>
using namespace plan;
using vf::Rng;
const char* vf_id() { return "P27"; }
void vf_init() { initIO(); Msg::setVerbosity(0); }

namespace {
enum Bad { Fine, Refuses, Throws, ThrowsLate, GivesNull, GivesOther };
Bad g_write = Fine, g_read = Fine, g_mapWrite = Fine, g_mapRead = Fine;

// A field with a storage order of its own. K == 0 has IO, K == 1 hasn't.
template <class T, int K> struct Cust : ResizableField<T> {
  typedef Cust class_type;
  typedef boost::intrusive_ptr<Cust> Ptr;
  typedef ResizableField<T> base;
  std::vector<T> d;
  DEFINE_FIELD_RTTI_CONCRETE_CLASS
  static const char* staticClassName() { return K ? "OrphanField" : "CustomField"; }
  static const char* staticClassType() { static std::string s = std::string(staticClassName()) + "<" + TT<T>::nm() + ">"; return s.c_str(); }
  virtual std::string className() const { return staticClassName(); }
  virtual std::string classType() const { return staticClassType(); }
  virtual FieldBase::Ptr clone() const { return FieldBase::Ptr(new Cust(*this)); }
  size_t at(int i, int j, int k) const { return d.size() - 1 - lin(this->dataWindow(), i, j, k); }
  virtual T value(int i, int j, int k) const { return d[at(i, j, k)]; }
  virtual T& lvalue(int i, int j, int k) { return d[at(i, j, k)]; }
  virtual long long int memSize() const { return sizeof(*this) + d.size() * sizeof(T); }
  virtual void sizeChanged() { base::sizeChanged(); d.assign(vox(this->dataWindow()), T(0)); }
};
template <class T> struct CustDense : DenseField<T> {
  typedef CustDense class_type;
  typedef boost::intrusive_ptr<CustDense> Ptr;
  typedef DenseField<T> base;
  DEFINE_FIELD_RTTI_CONCRETE_CLASS
  static const char* staticClassType() { static std::string s = std::string("OrphanDense<") + TT<T>::nm() + ">"; return s.c_str(); }
  virtual std::string className() const { return "OrphanDense"; }
  virtual std::string classType() const { return staticClassType(); }
  virtual FieldBase::Ptr clone() const { return FieldBase::Ptr(new CustDense(*this)); }
};
// stores the voxels like a dense field does
struct CustIO : FieldIO {
  typedef CustIO class_type;
  typedef boost::intrusive_ptr<CustIO> Ptr;
  typedef FieldIO base;
  DEFINE_FIELD_RTTI_CONCRETE_CLASS
  static const char* staticClassType() { return "CustomFieldIO"; }
  virtual std::string className() const { return "CustomField"; }
  static FieldIO::Ptr create() { return FieldIO::Ptr(new CustIO); }
  static FieldIO::Ptr dense() { return ClassFactory::singleton().createFieldIO("DenseField"); }
  template <class T> static bool toDense(FieldBase::Ptr f, FieldBase::Ptr& out) {
    typename Cust<T, 0>::Ptr c = field_dynamic_cast<Cust<T, 0> >(f);
    if (!c) return false;
    typename DenseField<T>::Ptr x(new DenseField<T>);
    x->setSize(c->extents(), c->dataWindow());
    forBox(c->dataWindow(), [&](int i, int j, int k) { x->lvalue(i, j, k) = c->value(i, j, k); });
    out = x;
    return true;
  }
  template <class T> static bool toCust(FieldBase::Ptr f, FieldBase::Ptr& out) {
    typename DenseField<T>::Ptr x = field_dynamic_cast<DenseField<T> >(f);
    if (!x) return false;
    typename Cust<T, 0>::Ptr c(new Cust<T, 0>);
    c->setSize(x->extents(), x->dataWindow());
    forBox(c->dataWindow(), [&](int i, int j, int k) { c->lvalue(i, j, k) = x->value(i, j, k); });
    out = c;
    return true;
  }
  template <class G> bool doWrite(G g, FieldBase::Ptr f) {
    if (g_write == Refuses) return false;
    if (g_write == Throws) throw std::runtime_error("custom IO");
    FieldBase::Ptr x;
    toDense<half>(f, x) || toDense<float>(f, x) || toDense<double>(f, x) || toDense<V3h>(f, x) || toDense<V3f>(f, x) || toDense<V3d>(f, x);
    if (!x) return false;
    bool ok = g(x);
    if (g_write == ThrowsLate) throw Exc::WriteLayerException("custom IO");
    return ok;
  }
  FieldBase::Ptr doRead(FieldBase::Ptr x) {
    if (g_read == Throws) throw std::runtime_error("custom IO");
    if (g_read == ThrowsLate) throw Exc::ReadDataException("custom IO");
    if (g_read == GivesNull || !x) return FieldBase::Ptr();
    FieldBase::Ptr c;
    if (g_read == GivesOther) { 
      if (field_dynamic_cast<DenseField<float> >(x)) return FieldBase::Ptr(new DenseField<V3d>);
      return FieldBase::Ptr(new DenseField<float>);
    }
    toCust<half>(x, c) || toCust<float>(x, c) || toCust<double>(x, c) || toCust<V3h>(x, c) || toCust<V3f>(x, c) || toCust<V3d>(x, c);
    return c;
  }
  virtual FieldBase::Ptr read(hid_t g, const std::string& f, const std::string& p, DataTypeEnum t) { return doRead(dense()->read(g, f, p, t)); }
  virtual FieldBase::Ptr read(const OgIGroup& g, const std::string& f, const std::string& p, OgDataType t) { return doRead(dense()->read(g, f, p, t)); }
  virtual bool write(hid_t g, FieldBase::Ptr f) { return doWrite([&](FieldBase::Ptr x) { return dense()->write(g, x); }, f); }
  virtual bool write(OgOGroup& g, FieldBase::Ptr f) { return doWrite([&](FieldBase::Ptr x) { return dense()->write(g, x); }, f); }
};
// A mapping of its own: what MatrixFieldMapping does, with z counted the other way
template <int K> struct CustMap : FieldMapping {
  typedef CustMap class_type;
  typedef boost::intrusive_ptr<CustMap> Ptr;
  typedef FieldMapping base;
  MatrixFieldMapping m;
  DEFINE_FIELD_RTTI_CONCRETE_CLASS
  static const char* staticClassType() { return K ? "OrphanMapping" : "CustomMapping"; }
  virtual std::string className() const { return staticClassType(); }
  virtual FieldMapping::Ptr clone() const { return FieldMapping::Ptr(new CustMap(*this)); }
  static V3d flip(V3d l) { l.z = 1 - l.z; return l; }
  V3d lsToVs(const V3d& l) const { return m_origin + l * m_res; }
  V3d vsToLs(const V3d& v) const { return (v - m_origin) / m_res; }
  virtual void localToWorld(const V3d& l, V3d& w) const { m.localToWorld(flip(l), w); }
  virtual void localToWorld(const V3d& l, V3d& w, float t) const { m.localToWorld(flip(l), w, t); }
  virtual void worldToLocal(const V3d& w, V3d& l) const { m.worldToLocal(w, l); l = flip(l); }
  virtual void worldToLocal(const V3d& w, V3d& l, float t) const { m.worldToLocal(w, l, t); l = flip(l); }
  virtual void worldToVoxel(const V3d& w, V3d& v) const { V3d l; worldToLocal(w, l); v = lsToVs(l); }
  virtual void worldToVoxel(const V3d& w, V3d& v, float t) const { V3d l; worldToLocal(w, l, t); v = lsToVs(l); }
  virtual void voxelToWorld(const V3d& v, V3d& w) const { localToWorld(vsToLs(v), w); }
  virtual void voxelToWorld(const V3d& v, V3d& w, float t) const { localToWorld(vsToLs(v), w, t); }
  virtual V3d wsVoxelSize(int i, int j, int k) const { return m.wsVoxelSize(i, j, k); }
  virtual void extentsChanged() {
    V3i a(m_origin), b(m_origin + m_res);
    m.setExtents(Box3i(a, b - V3i(1)));
  }
  virtual bool isIdentical(FieldMapping::Ptr o, double tol) const {
    CustMap* c = dynamic_cast<CustMap*>(o.get());
    if (!c) return false;
    return m.isIdentical(FieldMapping::Ptr(c->m.clone()), tol);
  }
};
struct CustMapIO : FieldMappingIO {
  typedef CustMapIO class_type;
  typedef boost::intrusive_ptr<CustMapIO> Ptr;
  typedef FieldMappingIO base;
  DEFINE_FIELD_RTTI_CONCRETE_CLASS
  static const char* staticClassType() { return "CustomMappingIO"; }
  virtual std::string className() const { return "CustomMapping"; }
  static FieldMappingIO::Ptr create() { return FieldMappingIO::Ptr(new CustMapIO); }
  static FieldMappingIO::Ptr matrix() { return ClassFactory::singleton().createFieldMappingIO("MatrixFieldMapping"); }
  FieldMapping::Ptr wrap(FieldMapping::Ptr x) {
    if (g_mapRead == GivesNull) return FieldMapping::Ptr();
    if (g_mapRead == Throws) throw std::runtime_error("custom mapping IO");
    MatrixFieldMapping::Ptr mm = field_dynamic_cast<MatrixFieldMapping>(x);
    if (!mm) return FieldMapping::Ptr();
    CustMap<0>::Ptr c(new CustMap<0>);
    c->m = *mm;
    return c;
  }
  template <class G> bool doWrite(G g, FieldMapping::Ptr f) {
    if (g_mapWrite == Refuses) return false;
    if (g_mapWrite == Throws) throw std::runtime_error("custom mapping IO");
    CustMap<0>* c = dynamic_cast<CustMap<0>*>(f.get());
    return c && g(c->m.clone());
  }
  virtual FieldMapping::Ptr read(hid_t g) { return wrap(matrix()->read(g)); }
  virtual FieldMapping::Ptr read(const OgIGroup& g) { return wrap(matrix()->read(g)); }
  virtual bool write(hid_t g, FieldMapping::Ptr f) { return doWrite([&](FieldMapping::Ptr x) { return matrix()->write(g, x); }, f); }
  virtual bool write(OgOGroup& g, FieldMapping::Ptr f) { return doWrite([&](FieldMapping::Ptr x) { return matrix()->write(g, x); }, f); }
};

enum { FCust = 100, FOrphan, FOrphanDense };
enum { MBuiltin, MCust, MOrphan };
struct Item : Layer {
  int type, kind, map;
  Bad bw = Fine, bm = Fine;
  std::function<bool(const FieldRes*)> sameClass;
  std::function<int(Field3DInputFile&)> others;  // fields found under the layer's name with another data type
  std::function<std::string(Field3DInputFile&, bool&)> all;  // reads everything of the layer's type
  bool good() const { return kind != FOrphan && kind != FOrphanDense && map != MOrphan && bw == Fine && bm == Fine; }
  bool known() const { return kind < FCust && map == MBuiltin; }
};
struct Job { bool ogawa; std::vector<Item> items; std::string desc; };

template <class T, class C> typename Field<T>::Ptr custom(Rng& r, const Box3i& e, const Box3i& w) {
  typename C::Ptr c(new C);
  c->setSize(e, w);
  forBox(w, [&](int i, int j, int k) { c->lvalue(i, j, k) = rndVal<T>(r); });
  return c;
}
Job rndJob(Rng& r) {
  Job job;
  job.ogawa = r.chance(0.55);
  std::ostringstream d;
  d << (job.ogawa ? "ogawa" : "hdf5");
  int n = r.range(1, 6);
  bool calm = r.chance(0.4);
  std::vector<std::string> parts;
  for (int a = r.range(1, 3); a > 0; a--) parts.push_back("p" + std::to_string(a) + rndName(r, 4));
  std::vector<FieldMapping::Ptr> maps;
  std::vector<int> mkinds;
  for (int a = r.range(1, 3); a > 0; a--) {
    int k = r.chance(0.5) ? MBuiltin : calm || r.chance(0.75) ? MCust : MOrphan;
    FieldMapping::Ptr m = rndMapping(r, k == MBuiltin ? r.u(MapKinds) : r.range(1, 2));
    auto fill = [&](auto c) { c->m = *dynamic_cast<MatrixFieldMapping*>(m.get()); m = c; };
    if (k == MCust) fill(CustMap<0>::Ptr(new CustMap<0>));
    if (k == MOrphan) fill(CustMap<1>::Ptr(new CustMap<1>));
    maps.push_back(m); mkinds.push_back(k);
    // the same matrix under another class
    if (k == MCust && r.chance(0.4)) {
      maps.push_back(dynamic_cast<CustMap<0>*>(m.get())->m.clone());
      mkinds.push_back(MBuiltin);
    }
  }
  for (int a = 0; a < n; a++) {
    Item l;
    l.type = r.u(6);
    l.kind = r.chance(0.45) ? FCust : calm || r.chance(0.75) ? (int)r.u(Kinds) : r.chance(0.5) ? FOrphan : FOrphanDense;
    if (l.kind == KMAC && (job.ogawa || l.type < 3)) l.kind = KSparse;
    l.part = r.pick(parts);
    l.name = "l" + std::to_string(a) + rndName(r, 5);
    size_t mi = r.u(maps.size());
    l.map = mkinds[mi];
    if (!calm && l.kind == FCust && r.chance(0.3)) l.bw = (Bad)r.range(Refuses, ThrowsLate);
    if (!calm && l.map == MCust && r.chance(0.2)) l.bm = (Bad)r.range(Refuses, Throws);
    std::string fd;
    withType(l.type, [&](auto z) {
      typedef decltype(z) T;
      fd += TT<T>::nm();
      typename Field<T>::Ptr f;
      Box3i e, w;
      rndWindows(r, e, w, 9, 5);
      if (l.kind == FCust) f = custom<T, Cust<T, 0> >(r, e, w);
      else if (l.kind == FOrphan) f = custom<T, Cust<T, 1> >(r, e, w);
      else if (l.kind == FOrphanDense) f = custom<T, CustDense<T> >(r, e, w);
      else { fd += std::string(" ") + kindName(l.kind); f = mkField<T>(r, l.kind, 7, fd); }
      f->setMapping(maps[mi]);
      rndMetadata(r, f->metadata());
      plan::bind<T>(l, f);
      std::string p = l.part, nm = l.name;
      l.others = [=](Field3DInputFile& in) {
        int k = 0;
        for (int t = 0; t < 6; t++) withType(t, [&](auto y) { typedef decltype(y) U; if (!std::is_same<T, U>::value) k += IO<U>::read(in, p, nm).size(); });
        return k;
      };
      l.all = [=](Field3DInputFile& in, bool& found) {
        typename Field<T>::Vec v = IO<T>::read(in);
        found = false;
        for (auto& x : v) {
          if (!x) return std::string("null field");
          if (x->attribute != nm || x->name != p) continue;
          if (found) return std::string("two fields");
          found = true;
          std::string s = fieldDiff<T>(f.get(), x.get());
          if (s.size()) return s;
        }
        return std::string();
      };
    });
    if (l.kind == FCust) fd += " custom"; else if (l.kind >= FOrphan) fd += " orphan";
    static const char* bn[] = {"", " refuses", " throws", " throws late"};
    static const char* mn[] = {"", " mapping custom", " mapping orphan"};
    fd += bn[l.bw]; fd += mn[l.map]; fd += bn[l.bm];
    d << " | " << l.part << "/" << l.name << " " << fd;
    l.desc = fd;
    job.items.push_back(l);
  }
  job.desc = d.str();
  return job;
}

// --- in the child ---
struct Report { std::string text; void line(const std::string& s) { text += s + "\n"; } };
struct Failed { std::string key, msg; };
#define CHILD_CHECK(cond, key, msg) do { checks++; if (!(cond)) { std::ostringstream o; o << msg; throw Failed{key, o.str()}; } } while (0)

// Ogawa files open without the mappings nobody can read (with a warning); their layers then have the default mapping
bool mappingLost(const std::string& s) { return s.find("mapping class") != s.npos || s.find("mapping is null") != s.npos; }

void child(Job& job, const std::string& path, uint64_t seed, Report& rep) {
  Rng r(seed);
  long checks = 0;
  std::map<std::string, long> cnt;
  ClassFactory& cf = ClassFactory::singleton();
  cf.registerFieldIO(CustIO::create);
  cf.registerFieldMappingIO(CustMapIO::create);
  Field3DOutputFile::useOgawa(job.ogawa);
  std::vector<bool> done;
  bool closed;
  {
    Field3DOutputFile out;
    CHILD_CHECK(out.create(path), "create", "file can't be created");
    for (auto& l : job.items) {
      g_write = l.bw; g_mapWrite = l.bm;
      bool ok = false, threw = false;
      try { ok = l.write(out); } catch (std::exception& e) { threw = true; }
      g_write = g_mapWrite = Fine;
      cnt[threw ? "writes_that_threw" : ok ? "layers_written" : "writes_refused"]++;
      // the mapping's IO is only asked if no layer of the partition has that mapping yet
      bool must = l.kind == FOrphan || l.kind == FOrphanDense || l.map == MOrphan || l.bw != Fine;
      if (must) CHILD_CHECK(!ok, "bad-write-succeeds", "writing layer " << l.name << " (" << l.desc << ") is reported to have succeeded");
      if (l.good()) CHILD_CHECK(ok, "write", "layer " << l.name << " (" << l.desc << ") can't be written");
      done.push_back(ok);
    }
    closed = out.close();
  }
  (void)closed;
  for (size_t a = 0; a < done.size(); a++) rep.line(std::string("W ") + (done[a] ? "1" : "0"));
  // read back, with the classes at hand
  Field3DInputFile in;
  bool any = false, halfWritten = false;
  for (size_t a = 0; a < done.size(); a++) { any = any || done[a]; halfWritten = halfWritten || (!done[a] && job.items[a].bw != Fine); }
  bool opened = in.open(path);
  if (any) CHILD_CHECK(opened, "open", "the file can't be opened");
  for (int round = 0; opened && round < 3; round++) {
    // first all is well, then the IO misbehaves, then it's well again
    g_read = round == 1 ? (Bad)r.range(Throws, GivesOther) : Fine;
    for (size_t a = 0; a < job.items.size(); a++) {
      Item& l = job.items[a];
      std::string s;
      int k = 0;
      bool threw = false;
      try { k = l.look(in, s); } catch (std::exception& e) { threw = true; }
      if (!done[a]) { 
        // what couldn't be written isn't there, unless it is complete
        CHILD_CHECK(threw || k == 0 || s.empty(), "failed-layer-wrong", "layer " << l.name << " (" << l.desc << "), which couldn't be written, is read as something else: " << s);
        continue;
      }
      if (l.kind == FCust && g_read != Fine) { 
        CHILD_CHECK(threw || k == 0, "bad-io-field", "layer " << l.name << " (" << l.desc << ") is there although its IO gives nothing");
        cnt["reads_that_failed"]++;
        continue;
      }
      CHILD_CHECK(!threw && k == 1 && s.empty(), round == 1 ? "read-beside-bad" : round ? "read-after-bad" : "read",
                  "layer " << l.name << " (" << l.desc << ") is read as " << (threw ? "exception" : std::to_string(k) + " fields") << " " << s);
      cnt[l.kind == FCust ? "custom_layers_read" : "builtin_layers_read"]++;
      if (l.map == MCust) cnt["custom_mappings_read"]++;
      if (g_read == Fine) {
        CHILD_CHECK(l.others(in) == 0, "other-type", "layer " << l.name << " (" << l.desc << ") is also read as another data type");
        bool found, gaveUp = false;
        try { s = l.all(in, found); } catch (std::exception&) { gaveUp = true; }
        // a layer its IO gave up on is in the file without data: reading everything may say so
        if (gaveUp && halfWritten) { cnt["reads_of_everything_that_failed"]++; continue; }
        CHILD_CHECK(!gaveUp && found && s.empty(), "read-all", "layer " << l.name << " (" << l.desc << ") " << (found ? s : "isn't among all the layers"));
      }
    }
    // names are listed whatever the IO does
    std::vector<std::string> ps;
    in.getPartitionNames(ps);
    for (size_t a = 0; a < job.items.size(); a++) if (done[a]) {
      Item& l = job.items[a];
      std::vector<std::string> ns;
      if (l.type < 3) in.getScalarLayerNames(ns, l.part); else in.getVectorLayerNames(ns, l.part);
      CHILD_CHECK(std::count(ps.begin(), ps.end(), l.part) == 1 && std::count(ns.begin(), ns.end(), l.name) == 1, "listing",
                  "layer " << l.part << "/" << l.name << " (" << l.desc << ") isn't listed once");
    }
  }
  in.close();
  // mappings that can't be read
  bool custMap = false;
  for (size_t a = 0; a < done.size(); a++) custMap = custMap || (done[a] && job.items[a].map == MCust);
  if (custMap) {
    g_read = Fine;
    g_mapRead = r.chance(0.5) ? GivesNull : Throws;
    bool ok = false;
    Field3DInputFile bad;
    try { ok = bad.open(path); } catch (std::exception&) {}
    for (size_t a = 0; ok && a < job.items.size(); a++) if (done[a]) {
      Item& l = job.items[a];
      std::string s; int k = 0;
      try { k = l.look(bad, s); } catch (std::exception&) { continue; }
      CHILD_CHECK(k == 0 || s.empty() || (l.map == MCust && mappingLost(s)), "bad-mapping", "layer " << l.name << " (" << l.desc << ") is read wrong when mappings can't be read: " << s);
    }
    g_mapRead = Fine;
    cnt[ok ? "opened_without_mapping_io" : "not_opened_without_mapping_io"]++;
    Field3DInputFile again;
    CHILD_CHECK(again.open(path), "open-after", "the file can't be opened after a mapping couldn't be read");
    for (size_t a = 0; a < job.items.size(); a++) if (done[a]) {
      Item& l = job.items[a];
      std::string s; int k = l.look(again, s);
      CHILD_CHECK(k == 1 && s.empty(), "read-after-bad-mapping", "layer " << l.name << " (" << l.desc << ") is misread after a mapping couldn't be read: " << k << " fields " << s);
    }
  }
  cnt["child_checks"] = checks;
  for (auto& x : cnt) rep.line("C " + x.first + " " + std::to_string(x.second));
  rep.line("D");
}
}  // namespace

void vf_case(vf::Ctx& c) {
  Rng& r = c.rng;
  Job job = rndJob(r);
  c.desc = job.desc;
  std::string path = c.path("w.f3d");
  unlink(path.c_str());
  uint64_t seed = r.next();
  int fd[2];
  if (pipe(fd)) { perror("pipe"); abort(); }
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (!pid) {
    ::close(fd[0]);
    Report rep;
    try { child(job, path, seed, rep); }
    catch (Failed& f) { rep.line("F " + f.key + " " + f.msg); }
    catch (std::exception& e) { rep.line(std::string("F exception ") + e.what()); }
    size_t o = 0;
    while (o < rep.text.size()) { ssize_t k = ::write(fd[1], rep.text.data() + o, rep.text.size() - o); if (k <= 0) break; o += k; }
    _exit(0);
  }
  ::close(fd[1]);
  std::string text;
  char b[4096];
  ssize_t k;
  while ((k = ::read(fd[0], b, sizeof b)) > 0) text.append(b, k);
  ::close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  vf::count("child_processes");
  std::vector<bool> done;
  bool complete = false;
  std::istringstream is(text);
  std::string line;
  std::string failure;
  while (std::getline(is, line)) {
    if (line == "D") complete = true;
    else if (line[0] == 'W') done.push_back(line[2] == '1');
    else if (line[0] == 'C') {
      size_t p = line.rfind(' ');
      static std::set<std::string> names;
      vf::count(names.insert(line.substr(2, p - 2)).first->c_str(), atol(line.c_str() + p));
    } else if (line[0] == 'F') {
      size_t p = line.find(' ', 2);
      vf::fail(line.substr(2, p - 2), line.substr(p + 1));
    }
  }
  VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "crash", "the program that defines the classes died (status " << st << ")");
  VF_CHECK(complete, "monitor", "the child's report isn't complete");
  // this process knows nothing of the classes
  VF_CHECK(!ClassFactory::singleton().createFieldIO("CustomField"), "monitor", "class known");
  bool unknownMap = false, any = false;
  for (size_t a = 0; a < done.size(); a++) {
    any = any || done[a];
    unknownMap = unknownMap || (job.items[a].map == MCust && (done[a] || job.items[a].bm == Fine));
  }
  Field3DInputFile in;
  bool ok = false;
  try { ok = in.open(path); } catch (std::exception&) {}
  if (any && !unknownMap) VF_CHECK(ok, "unknown-open", "a file with fields of unknown classes can't be opened");
  vf::count(ok ? "opened_without_classes" : "not_opened_without_classes");
  if (unknownMap) vf::count(ok ? "opened_with_unknown_mapping" : "refused_with_unknown_mapping");
  for (int pass = 0; ok && pass < 2; pass++)
    for (size_t a = 0; a < job.items.size(); a++) {
      Item& l = job.items[a];
      std::string s;
      int k = 0;
      bool threw = false;
      try { k = l.look(in, s); } catch (std::exception& e) { threw = true; }
      if (l.kind >= FCust || !done[a] || l.map != MBuiltin) {
        VF_CHECK(threw || k == 0 || (l.kind < FCust && (s.empty() || (l.map == MCust && mappingLost(s)))), "unknown-misread", "layer " << l.name << " (" << l.desc << ") is read by a program that doesn't know its class: " << s);
        vf::count("unknown_layers");
        continue;
      }
      VF_CHECK(!threw && k == 1 && s.empty(), "beside-unknown", "layer " << l.name << " (" << l.desc << ") is read as " << (threw ? "exception" : std::to_string(k) + " fields") << " " << s << " by a program that doesn't know the other classes");
      bool found;
      s = l.all(in, found);
      VF_CHECK(found && s.empty(), "beside-unknown-all", "layer " << l.name << " (" << l.desc << ") " << (found ? s : "isn't among all the layers"));
      vf::count("known_layers_read");
    }
  vf::nontrivial(vf::Hash().add(c.desc).h);
}

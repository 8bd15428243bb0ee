// P28: nothing is left behind. A random history of operations, successful or failing, is repeated; memory, file
// descriptors, HDF5 handles and threads in use after it must not grow.
#include "iofault.h"
#include "plan.h"
#include "filt.h"
#include <dirent.h>
#include <malloc.h>
#include <Field3D/FieldGroup.h>
#include <Field3D/MIPUtil.h>
#include <Field3D/MinMaxUtil.h>
#include <Field3D/Resample.h>
#include <Field3D/FieldInterp.h>
#include <Field3D/MIPInterp.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define P28_ASAN
#endif
#endif
#if defined(P28_ASAN) || defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t inUse() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t inUse() { return mallinfo2().uordblks; }
#endif
using namespace plan;
using vf::Rng;
const char* vf_id() { return "P28"; }
void vf_init() {
  initIO();
  Msg::setVerbosity(0);
  H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
  H5set_free_list_limits(0, 0, 0, 0, 0, 0);
  vf::setCaseTimeout(120);
}

namespace {
SparseFileManager& mgr() { return SparseFileManager::singleton(); }
size_t entries(const char* dir) {
  DIR* d = opendir(dir);
  size_t n = 0;
  while (d && readdir(d)) n++;
  if (d) closedir(d);
  return n;
}
struct Use {
  size_t bytes, fds, threads;
  long h5files, h5objs;
};
hid_t firstId[3];
// An identifier newer than all others of its type
hid_t probe(int t) {
  if (t == 0) { hid_t i = H5Screate(H5S_SCALAR); H5Sclose(i); return i; }
  if (t == 1) { hid_t i = H5Tcopy(H5T_NATIVE_INT); H5Tclose(i); return i; }
  hid_t i = H5Pcreate(H5P_FILE_ACCESS);
  H5Pclose(i);
  return i;
}
void startIds() { for (int t = 0; t < 3; t++) firstId[t] = probe(t); }
Use now() {
  Use u;
  u.threads = entries("/proc/self/task");
  u.fds = entries("/proc/self/fd");
  u.h5files = H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_FILE);
  u.h5objs = 0;
  // Open data spaces, data types and property lists (the library has no public count of these): identifiers made since the
  // case started are consecutive
  for (int t = 0; t < 3; t++) {
    hid_t last = probe(t);
    for (hid_t i = firstId[t]; i < last; i++) if (H5Iis_valid(i) > 0) u.h5objs++;
  }
  u.bytes = inUse();
  return u;
}
enum Kind { WriteRead, FailedWrite, DamagedRead, InMemory, Refused, Kinds28 };
const char* kindName28(int k) { static const char* n[] = {"write-read", "failed-write", "damaged-read", "in-memory", "refused"}; return n[k]; }

void readAll(Rng& r, const Plan& p, const std::string& path, bool mayThrow) {
  Field3DInputFile in;
  bool ok = false;
  try { ok = in.open(path); } catch (std::exception&) {}
  if (!ok) return;
  auto guard = [&](const std::function<void()>& f) { 
    try { f(); vf::count("reads"); } catch (std::exception&) { vf::count("reads_threw"); if (!mayThrow) vf::count("unexpected_throw"); }
  };
  bool lim = r.chance(0.3);
  mgr().setLimitMemUse(r.chance(0.4));
  mgr().setMaxMemUse(lim ? 0.02f : 100.0f);
  size_t threads = r.range(1, 4);
  setNumIOThreads(threads);
  guard([&] {
    std::vector<std::string> ps, ns;
    in.getPartitionNames(ps);
    for (auto& q : ps) { in.getScalarLayerNames(ns, q); in.getVectorLayerNames(ns, q); }
  });
  std::vector<FieldRes::Ptr> keep;
  for (auto& l : p.layers) {
    int how = r.u(4);
    int type = r.u(6);
    guard([&] { std::string s; if (how != 1) l.look(in, s); });
    guard([&] {
      withType(type, [&](auto z) {
        typedef decltype(z) T;
        if (how == 0) { for (auto& f : IO<T>::read(in, l.part, l.name)) if (f) keep.push_back(f); }
        if (how == 1) { for (auto& f : IO<T>::read(in)) if (f) keep.push_back(f); }
        if (how == 2) in.readProxyLayer<T>(l.part, l.name, TT<T>::vec);
        if (how == 3) IO<T>::read(in, "nothing", "of that name");
      });
    });
  }
  if (r.chance(0.5)) in.close();
  for (auto& f : keep) {
    V3i a = f->dataWindow().min;
    guard([&] {
      if (Field<float>* q = dynamic_cast<Field<float>*>(f.get())) q->value(a.x, a.y, a.z);
      if (Field<V3f>* q = dynamic_cast<Field<V3f>*>(f.get())) q->value(a.x, a.y, a.z);
      FieldBase::Ptr cl = f->clone();
    });
  }
  mgr().setLimitMemUse(false);
}
struct Obj { std::string name; int attrs; };
herr_t visit(hid_t o, const char* name, const H5O_info_t* i, void* v) { ((std::vector<Obj>*)v)->push_back(Obj{name, (int)i->num_attrs}); return 0; }
void damage(Rng& r, bool ogawa, const std::string& path) {
  if (ogawa) {
    FILE* f = fopen(path.c_str(), "r+b");
    if (!f) return;
    fseek(f, 0, SEEK_END);
    long n = ftell(f);
    if (r.chance(0.3)) { if (ftruncate(fileno(f), r.u(n))) {} }
    else for (int a = r.range(1, 4); a > 0; a--) {
      fseek(f, r.chance(0.3) ? n - 1 - r.u(std::min(n, 400l)) : r.u(n), SEEK_SET);
      fputc(r.chance(0.5) ? r.u(256) : r.u(4), f);
    }
    fclose(f);
    return;
  }
  hid_t f = H5Fopen(path.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
  if (f < 0) return;
  for (int a = r.range(1, 2); a > 0; a--) {
    std::vector<Obj> v;
    H5Ovisit(f, H5_INDEX_NAME, H5_ITER_INC, visit, &v);
    const Obj& o = v[r.u(v.size())];
    if (o.attrs && r.chance(0.7)) {
      char name[200] = "";
      H5Aget_name_by_idx(f, o.name.c_str(), H5_INDEX_NAME, H5_ITER_INC, r.u(o.attrs), name, sizeof name, H5P_DEFAULT);
      H5Adelete_by_name(f, o.name.c_str(), name, H5P_DEFAULT);
      if (r.chance(0.5)) {
        // another type or size in its place
        hid_t g = H5Oopen(f, o.name.c_str(), H5P_DEFAULT);
        hsize_t n = r.range(1, 9);
        hid_t sp = H5Screate_simple(1, &n, NULL);
        hid_t t = r.chance(0.5) ? H5T_NATIVE_DOUBLE : H5T_NATIVE_INT;
        hid_t at = H5Acreate2(g, name, t, sp, H5P_DEFAULT, H5P_DEFAULT);
        double d[9] = {1, 2, 3, 4, 5, 6, 7, 8, 9};
        int q[9] = {1, 2, 3, 4, 5, 6, 7, 8, 9};
        H5Awrite(at, t, t == H5T_NATIVE_DOUBLE ? (void*)d : (void*)q);
        H5Aclose(at); H5Sclose(sp); H5Oclose(g);
      }
    } else if (o.name != ".") H5Ldelete(f, o.name.c_str(), H5P_DEFAULT);
  }
  H5Fclose(f);
}
bool g_closeFailed, g_hit;
void writePlan(const Plan& p, const std::string& path) {
  Field3DOutputFile::useOgawa(p.ogawa);
  Field3DOutputFile out;
  try {
    if (!out.create(path)) return;
    for (auto& x : p.meta().strMetadata()) out.metadata().setStrMetadata(x.first, x.second);
    for (auto& l : p.layers) { 
      try { if (!l.write(out)) vf::count("writes_failed"); else vf::count("writes"); } catch (std::exception&) { vf::count("writes_threw"); }
    }
    if (!out.close()) { g_closeFailed = true; vf::count("closes_failed"); }
  } catch (std::exception&) { vf::count("writes_threw"); }
}

template <class T> struct Inter {
  template <class F> static void go(Rng& r, F& f) {
    typename F::LinearInterp li;
    V3i s = f.extents().size() + V3i(1);
    for (int a = 0; a < 4; a++) li.sample(f, V3d(f.extents().min) + V3d(r.f01() * s.x, r.f01() * s.y, r.f01() * s.z));
  }
};
void inMemory(Rng& r) {
  int type = r.u(6), n = r.range(2, 6);
  withType(type, [&](auto z) {
    typedef decltype(z) T;
    typedef DenseField<T> D;
    typedef SparseField<T> S;
    Box3i e, w;
    rndWindows(r, e, w, 9, 4);
    std::vector<FieldRes::Ptr> keep;
    typename D::Ptr d = mkDense<T>(r, e, w);
    typename S::Ptr s = mkSparse<T>(r, e, w, r.range(0, 3));
    for (int a = 0; a < n; a++) {
      switch (r.u(12)) {
      case 0: keep.push_back(field_dynamic_cast<FieldRes>(s->clone())); break;
      case 1: { typename S::Ptr t(new S); *t = *s; s = t; break; }
      case 2: d->setSize(e, w); d->clear(T(1)); break;
      case 3: s->releaseBlocks(Sparse::CheckAllEqual<T>()); s->setBlockOrder(r.range(0, 3)); s->setSize(e, w); break;
      case 4: s->clear(T(2)); s->lvalue(w.min.x, w.min.y, w.min.z) = T(3); break;
      case 5: { typename D::Ptr t(new D); t->copyFrom(s); keep.push_back(t); break; }
      case 6: {
        FieldMapping::Ptr m = rndMapping(r, r.u(3));
        d->setMapping(m); s->setMapping(m); break;
      }
      case 7: {
        Box3i q(V3i(0), V3i(r.range(0, 9), r.range(0, 9), r.range(0, 9)));
        typename D::Ptr b = mkDense<T>(r, q, q);
        keep.push_back(makeMIP<MIPField<D>, TriangleFilter>(*b, r.range(2, 5), r.range(1, 4)));
        break;
      }
      case 8: {
        Box3i q(V3i(0), V3i(r.range(0, 9), r.range(0, 9), r.range(0, 9)));
        typename S::Ptr b = mkSparse<T>(r, q, q, 2);
        keep.push_back(makeMIP<MIPField<S>, BoxFilter>(*b, r.range(2, 5), r.range(1, 4)));
        break;
      }
      case 9: {
        D t;
        resample(*d, t, V3i(r.range(1, 7), r.range(1, 7), r.range(1, 7)), GaussianFilter());
        break;
      }
      case 10: Inter<T>::go(r, *d); Inter<T>::go(r, *s); break;
      case 11: rndMetadata(r, d->metadata()); rndMetadata(r, s->metadata()); keep.push_back(field_dynamic_cast<FieldRes>(d->clone())); break;
      }
      vf::count("memory_operations");
    }
  });
}
// things that don't work
void put(const std::string& path, const std::string& text) { unlink(path.c_str()); FILE* f = fopen(path.c_str(), "w"); if (f) { fwrite(text.data(), 1, text.size(), f); fclose(f); } }
void refused(Rng& r, const Plan& p, const std::string& path) {
  int n = r.range(2, 6);
  auto quiet = [](const std::function<bool()>& f) {
    bool ok = false;
    try { ok = f(); } catch (std::exception&) {}
    vf::count(ok ? "refused_operations_that_worked" : "refused_operations");
  };
  for (int a = 0; a < n; a++) {
    bool og = r.chance(0.5);
    Field3DOutputFile::useOgawa(og);
    switch (r.u(9)) {
    case 0: quiet([&] { Field3DInputFile in; return in.open(path + ".absent"); }); break;
    case 1: quiet([&] { Field3DInputFile in; return in.open("/dev/shm"); }); break;
    case 2: {
      std::string t;
      switch (r.u(4)) {
      case 0: break;
      case 1: t = std::string(r.range(1, 300), 'x'); break;
      case 2: t = std::string("Ogawa\xff\x00\x02", 8) + std::string(r.range(0, 40), '\0'); break;
      case 3: t = std::string("\x89HDF\r\n\x1a\n", 8) + std::string(r.range(0, 400), '\0'); break;
      }
      put(path, t);
      quiet([&] { Field3DInputFile in; return in.open(path); });
      break;
    }
    case 3: quiet([&] { Field3DOutputFile out; return out.create(path + ".no/such/dir"); }); break;
    case 4: quiet([&] { Field3DOutputFile out; return out.create("/dev/shm"); }); break;
    case 5: case 6: {  // metadata HDF5 refuses, layers that can't be written
      int what = r.u(4);
      quiet([&] {
        Field3DOutputFile out;
        if (!out.create(path)) return false;
        DenseField<float>::Ptr d(new DenseField<float>);
        d->setSize(V3i(2));
        d->name = "p"; d->attribute = "l";
        bool ok = true;
        if (what == 0) { d->metadata().setStrMetadata("", "v"); ok = out.writeScalarLayer<float>(d); }
        if (what == 1) { d->metadata().setStrMetadata("long", std::string(70000, 'z')); ok = out.writeScalarLayer<float>(d); }
        if (what == 2) { MACField<V3f>::Ptr m(new MACField<V3f>); m->setSize(V3i(2)); m->name = "m"; m->attribute = "v"; ok = out.writeVectorLayer<float>(m); }
        if (what == 3) { d->metadata().setIntMetadata("a", 1); d->metadata().setStrMetadata("a", "b"); ok = out.writeScalarLayer<float>(d); ok = out.writeScalarLayer<float>(d) && ok; }
        return out.close() && ok;
      });
      quiet([&] { Field3DInputFile in; return in.open(path) && !in.readScalarLayers<float>().empty(); });
      break;
    }
    case 7: quiet([&] { DenseField<float> d; d.setSize(Box3i(V3i(0), V3i(-3)), Box3i(V3i(0), V3i(-3))); return true; }); break;
    case 8: quiet([&] {
      MIPDenseField<float> m;
      DenseField<float>::Vec v;
      int k = r.range(0, 3);
      for (int b = 0; b < k; b++) { v.push_back(DenseField<float>::Ptr(new DenseField<float>)); v.back()->setSize(V3i(2 + b)); }
      m.setup(v);
      return true;
    }); break;
    }
  }
}
void history(uint64_t seed, int kind, const Plan& p, const std::string& path) {
  Rng r(seed);
  setNumIOThreads(r.range(1, 4));
  if (kind == InMemory) { inMemory(r); return; }
  if (kind == Refused) { refused(r, p, path); return; }
  if (kind == FailedWrite) {
    iof::Mode m = (iof::Mode)r.range(iof::FailFrom, iof::FailClose);
    iof::start(m, path, r.u(40), ENOSPC);
    writePlan(p, path);
    iof::stop();
    g_hit = g_hit || iof::g_hits > 0;
  } else writePlan(p, path);
  if (kind == DamagedRead) damage(r, p.ogawa, path);
  readAll(r, p, path, kind != WriteRead);
}
}  // namespace

void vf_case(vf::Ctx& c) {
  Rng& r = c.rng;
  int kind = r.u(Kinds28);
  Plan p = rndPlan(r, 3, 8);
  std::string path = c.path("a.f3d");
  uint64_t seed = r.next();
  c.desc = std::string(kindName28(kind)) + " " + (kind >= InMemory ? "seed " + std::to_string(seed) : p.desc);
  unlink(path.c_str());
  g_closeFailed = g_hit = false;
  // what is only made once
  for (int a = 0; a < 2; a++) history(seed, kind, p, path);
  const int N = 4;
  Use u[N + 1];
  startIds();
  u[0] = now();
  for (int a = 1; a <= N; a++) { history(seed, kind, p, path); u[a] = now(); }
  for (int tries = 0; u[N].threads > u[0].threads && tries < 20; tries++) { usleep(50000); u[N].threads = entries("/proc/self/task"); }
  vf::count("repetitions", N);
  // libhdf5 itself keeps a file open whose closing fails
  if (g_closeFailed && !p.ogawa && kind == FailedWrite) { vf::count("hdf5_closes_that_failed"); return; }
  auto grown = [&](const char* what, long a, long b) {
    std::ostringstream o;
    o << "after " << N << " repetitions of a history (" << kindName28(kind) << ") there are " << b << " " << what << " in use, before " << a;
    return o.str();
  };
  std::string k = kindName28(kind);
  VF_CHECK(u[N].fds <= u[0].fds, "fds:" + k, grown("file descriptors", u[0].fds, u[N].fds));
  VF_CHECK(u[N].threads <= u[0].threads, "threads:" + k, grown("threads", u[0].threads, u[N].threads));
  VF_CHECK(u[N].h5files <= u[0].h5files, "h5files:" + k, grown("HDF5 files", u[0].h5files, u[N].h5files));
  VF_CHECK(u[N].h5objs <= u[0].h5objs, "h5objs:" + k, grown("HDF5 objects", u[0].h5objs, u[N].h5objs));
  if (getenv("P28_DBG")) { fprintf(stderr, "DBG %s:", c.desc.c_str()); for (int a = 0; a <= N; a++) fprintf(stderr, " %zd", (ssize_t)(u[a].bytes - u[0].bytes)); fprintf(stderr, "\n"); }
  // libhdf5 itself loses its write buffer when the device fails
  if (g_hit && !p.ogawa && kind == FailedWrite) { vf::count("hdf5_failures_without_memory_check"); vf::nontrivial(vf::Hash().add(c.desc).h); return; }
  // growing every time
  int grew = 0;
  for (int a = 1; a <= N; a++) grew += u[a].bytes > u[a - 1].bytes;
  vf::count("bytes_measured", u[N].bytes);
  VF_CHECK(grew < N, "bytes:" + k, grown("bytes of memory", u[0].bytes, u[N].bytes));
  vf::nontrivial(vf::Hash().add(c.desc).h);
}

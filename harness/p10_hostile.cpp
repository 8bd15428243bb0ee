// P10: whatever a file holds, opening and reading it succeeds or fails with a reported error, within memory bounds and
// in time, and the library goes on working. Valid files are damaged at random and where their structure says it hurts.
#include "plan.h"
#include <Field3D/FieldCache.h>
#include <Field3D/FieldMetadata.h>
#include <algorithm>
#include <hdf5.h>
#include <sanitizer/allocator_interface.h>
#include <sys/stat.h>
#include <time.h>
using namespace gen;
using namespace plan;

const char* vf_id() { return "P10"; }

namespace {
// ---- memory
std::atomic<long long> g_live(0), g_peak(0);
void onMalloc(const volatile void* p, size_t n) {
  long long l = g_live.fetch_add(n) + (long long)n, k = g_peak.load();
  while (l > k && !g_peak.compare_exchange_weak(k, l)) {}
  (void)p;
}
void onFree(const volatile void* p) { if (p) g_live -= (long long)__sanitizer_get_allocated_size(p); }
double cpu() { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

SparseFileManager& mgr() { return SparseFileManager::singleton(); }
std::string slurp(const std::string& path) {
  std::string e; char b[65536]; size_t g;
  if (FILE* f = fopen(path.c_str(), "rb")) { while ((g = fread(b, 1, sizeof b, f)) > 0) e.append(b, g); fclose(f); }
  return e;
}
void put(const std::string& path, const std::string& img) {
  FILE* f = fopen(path.c_str(), "wb");
  if (img.size()) fwrite(img.data(), 1, img.size(), f);
  fclose(f);
}

// ---- reading everything there is
uint64_t g_sink;
template <class T> void use(const T& v) { g_sink += vf::Hash().bytes(&v, sizeof v).h; }
void useMapping(Rng& r, FieldMapping::Ptr m) {
  if (!m) return;
  for (int a = 0; a < 3; a++) {
    V3d p(r.real(-2, 2), r.real(-2, 2), r.real(-2, 2)), q;
    m->worldToVoxel(p, q); use(q);
    m->voxelToWorld(p, q); use(q);
    m->worldToVoxel(p, q, (float)r.real(-1, 2)); use(q);
    m->localToWorld(p, q, (float)r.real(-1, 2)); use(q);
  }
  use(m->wsVoxelSize(0, 0, 0));
  FieldMapping::Ptr c = m->clone();
  use(c->isIdentical(m));
}
template <class T> void useField(Rng& r, const Field<T>& f) {
  const Box3i w = f.dataWindow();
  use(f.extents()); use(f.voxelCount()); use(f.memSize());
  FieldRes& nf = const_cast<FieldRes&>(static_cast<const FieldRes&>(f));
  useMapping(r, nf.mapping());
  V3i s = f.dataResolution();
  if (s.x <= 0 || s.y <= 0 || s.z <= 0) { vf::count("fields_without_voxels"); return; }
  auto in = [&](int a, int b) { return (int)(a + (long)r.u((uint64_t)((long)b - a + 1))); };
  for (int c = 0; c < 8; c++) use(f.value(c & 1 ? w.max.x : w.min.x, c & 2 ? w.max.y : w.min.y, c & 4 ? w.max.z : w.min.z));
  for (int a = 0; a < 60; a++) use(f.value(in(w.min.x, w.max.x), in(w.min.y, w.max.y), in(w.min.z, w.max.z)));
}
template <class S> void useIter(const S& f, long n) {
  V3i s = f.dataResolution();
  if (s.x <= 0 || s.y <= 0 || s.z <= 0) return;
  for (typename S::const_iterator i = f.cbegin(), e = f.cend(); i != e && n-- > 0; ++i) use(*i);
}
template <class T> void useSparse(Rng& r, SparseField<T>& f) {
  long n = 1;
  V3i b = f.blockRes();
  use(f.blockOrder()); use(f.blockSize());
  for (int a = 0; a < 30; a++) {
    V3i q(r.u(std::max(1, b.x)), r.u(std::max(1, b.y)), r.u(std::max(1, b.z)));
    if (b.x < 1 || b.y < 1 || b.z < 1) break;
    use(f.blockIsAllocated(q.x, q.y, q.z)); use(f.getBlockEmptyValue(q.x, q.y, q.z));
    n++;
  }
  useIter(f, 3000);
}
template <class T, int V = TT<T>::vec> struct UseMAC { static void go(Rng&, typename Field<T>::Ptr) {} };
template <class T> struct UseMAC<T, 1> {
  static void go(Rng& r, typename Field<T>::Ptr f) {
    typename MACField<T>::Ptr m = field_dynamic_cast<MACField<T> >(f);
    if (!m) return;
    Box3i w = m->dataWindow();
    if (w.isEmpty()) return;
    use(m->u(w.max.x + 1, w.max.y, w.max.z)); use(m->v(w.max.x, w.max.y + 1, w.max.z)); use(m->w(w.max.x, w.max.y, w.max.z + 1));
    use(m->u(w.min.x, w.min.y, w.min.z)); use(m->v(w.min.x, w.min.y, w.min.z)); use(m->w(w.min.x, w.min.y, w.min.z));
    vf::count("mac_fields_read");
  }
};
template <class M, class T> void useMIP(Rng& r, typename Field<T>::Ptr f) {
  typename M::Ptr m = field_dynamic_cast<M>(f);
  if (!m) return;
  vf::count("mip_fields_read");
  size_t n = m->numLevels();
  for (size_t l = 0; l < n && l < 40; l++) {
    use(m->mipResolution(l));
    try { auto p = m->mipLevel(l); if (p) { useField<T>(r, *p); useIter(*p, 1000); } }
    catch (std::exception&) { vf::count("level_loads_threw"); }
  }
  use(m->mipOffset());
}
template <class T> int useLayer(Rng& r, typename Field<T>::Ptr f) {
  if (!f) return 0;
  vf::count("fields_read");
  try {
    use(f->metadata().strMetadata().size());
    useMIP<MIPField<DenseField<T> >, T>(r, f);
    useMIP<MIPField<SparseField<T> >, T>(r, f);
    useField<T>(r, *f);
    if (auto d = field_dynamic_cast<DenseField<T> >(f)) { useIter(*d, 3000); vf::count("dense_fields_read"); }
    if (auto s = field_dynamic_cast<SparseField<T> >(f)) { useSparse<T>(r, *s); vf::count("sparse_fields_read"); }
    UseMAC<T>::go(r, f);
    if (r.chance(0.2)) { FieldBase::Ptr c = f->clone(); typename Field<T>::Ptr g = field_dynamic_cast<Field<T> >(c); if (g) useField<T>(r, *g); }
  } catch (std::exception&) { vf::count("accesses_threw"); }
  return 1;
}
template <class T, int V = TT<T>::vec> struct Proxy {
  static void go(Rng& r, Field3DInputFile& in, const std::string& p, const std::string& l) {
    for (auto& f : in.readProxyLayer<T>(p, l, false)) if (f) { use(f->dataWindow()); use(f->extents()); useMapping(r, f->mapping()); vf::count("proxies_read"); }
  }
};
template <class T> struct Proxy<T, 1> {
  static void go(Rng& r, Field3DInputFile& in, const std::string& p, const std::string& l) {
    for (auto& f : in.readProxyLayer<typename TT<T>::S>(p, l, true)) if (f) { use(f->dataWindow()); use(f->extents()); useMapping(r, f->mapping()); vf::count("proxies_read"); }
  }
};
template <class F> void guarded(const char* what, F f) {
  try { f(); } catch (std::exception& e) { vf::count(what); }
}
void readAll(Rng& r, const std::string& path, const Plan& p) {
  Field3DInputFile in;
  bool ok = false;
  guarded("opens_threw", [&] { ok = in.open(path); });
  if (!ok) { vf::count("opens_refused"); return; }
  vf::count("opens_accepted");
  std::vector<std::pair<std::string, std::string> > ls;
  guarded("listings_threw", [&] {
    std::vector<std::string> parts, names;
    in.getPartitionNames(parts);
    for (auto& n : parts) {
      names.clear(); in.getScalarLayerNames(names, n);
      for (auto& m : names) ls.push_back(std::make_pair(n, m));
      names.clear(); in.getVectorLayerNames(names, n);
      for (auto& m : names) ls.push_back(std::make_pair(n, m));
    }
  });
  for (auto& l : p.layers) if (r.chance(0.3)) ls.push_back(std::make_pair(l.part, l.name));
  use(in.metadata().intMetadata().size());
  if (ls.size() > 12) ls.resize(12);
  bool every = r.chance(0.3);
  for (auto& l : ls)
    for (int t = 0; t < 6; t++) {
      // the type the layer was written with, or all of them
      bool mine = false, known = false;
      for (auto& w : p.layers)
        if (w.part == l.first && w.name == l.second) { known = true; withType(t, [&](auto z) { mine = mine || dynamic_cast<Field<decltype(z)>*>(w.field.get()); }); }
      if (known && !mine && !every && !r.chance(0.1)) continue;
      withType(t, [&](auto z) {
        typedef decltype(z) T;
        guarded("reads_threw", [&] { for (auto& f : IO<T>::read(in, l.first, l.second)) useLayer<T>(r, f); });
        if (r.chance(0.3)) guarded("proxies_threw", [&] { Proxy<T>::go(r, in, l.first, l.second); });
      });
    }
  if (r.chance(0.2))
    withType(r.u(6), [&](auto z) { typedef decltype(z) T; guarded("reads_threw", [&] { for (auto& f : IO<T>::read(in)) useLayer<T>(r, f); }); });
  guarded("closes_threw", [&] { in.close(); });
}

// ---- the structure of an Ogawa file
struct Ogawa {
  std::vector<size_t> words;                       // places of positions, counts and sizes
  std::vector<std::pair<size_t, size_t> > payload;  // data
  std::vector<uint64_t> nodes;                     // positions of groups and data
};
uint64_t rd(const std::string& s, size_t o) { uint64_t v = 0; if (o + 8 <= s.size()) memcpy(&v, &s[o], 8); return v; }
void wr(std::string& s, size_t o, uint64_t v) { if (o + 8 <= s.size()) memcpy(&s[o], &v, 8); }
void walk(const std::string& s, uint64_t pos, Ogawa& o, int depth) {
  const uint64_t top = 1ull << 63;
  if (depth > 30 || (pos & ~top) == 0) return;
  o.nodes.push_back(pos);
  size_t at = pos & ~top;
  if (at + 8 > s.size()) return;
  o.words.push_back(at);
  uint64_t n = rd(s, at);
  if (pos & top) { if (n && at + 8 + n <= s.size()) o.payload.push_back(std::make_pair(at + 8, (size_t)n)); return; }
  for (uint64_t k = 0; k < n && at + 16 + 8 * k <= s.size() && k < 10000; k++) { o.words.push_back(at + 8 + 8 * k); walk(s, rd(s, at + 8 + 8 * k), o, depth + 1); }
}
const char* const dict[] = { "DenseField", "SparseField", "MACField", "MIPField", "MIPSparseField", "MIPDenseField", "EmptyField", "MatrixFieldMapping", "FrustumFieldMapping", "NullFieldMapping",
  "mapping", "field3d_partition", "field3d_layer", "ProceduralField", "float", "half", "V3f", "", "DenseFieldXX" };
uint32_t word32(Rng& r) {
  static const uint32_t v[] = { 0, 1, 2, 3, 7, 8, 16, 31, 32, 64, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0x80000001u, 0xffffffffu, 0xfffffffeu, 0x40000000, 1000000, 0x7fc00000, 0x7f800000, 0x3fffffff, 46341, 1291 };
  return r.chance(0.8) ? v[r.u(sizeof v / 4)] : (uint32_t)r.next();
}
void damageOgawa(Rng& r, std::string& s, const std::string& other, std::string& d) {
  Ogawa o;
  if (s.size() < 16) { s += "x"; return; }
  o.words.push_back(8);
  walk(s, rd(s, 8), o, 0);
  int n = r.chance(0.7) ? 1 : r.range(2, 4);
  for (int a = 0; a < n; a++) {
    switch (r.u(12)) {
    case 0: case 1: case 2: {  // positions, counts, sizes
      size_t w = r.pick(o.words);
      uint64_t v = rd(s, w), x;
      switch (r.u(9)) {
      case 0: x = v + (int64_t)r.range(-16, 16); break;
      case 1: x = v ^ (1ull << 63); break;
      case 2: x = r.pick(o.nodes); break;
      case 3: x = w; break;
      case 4: x = (r.chance(0.5) ? 1ull << 63 : 0) | (s.size() + r.range(-24, 24)); break;
      case 5: x = r.u(20); break;
      case 6: x = ~0ull >> r.u(40); break;
      case 7: x = v ^ (1ull << r.u(64)); break;
      default: x = (r.chance(0.5) ? 1ull << 63 : 0) | r.u(s.size());
      }
      wr(s, w, x);
      d += " word@" + std::to_string(w) + "=" + std::to_string(x);
      break;
    }
    case 3: case 4: case 5: {  // values
      if (o.payload.empty()) break;
      auto p = r.pick(o.payload);
      if (p.second < 4) { s[p.first + r.u(p.second)] = (char)r.next(); d += " small@" + std::to_string(p.first); break; }
      size_t at = p.first + (r.chance(0.7) ? r.u(p.second / 4) * 4 : r.u(p.second - 3));
      if (r.chance(0.5) && p.second > 16) at = p.first + p.second - 4 * (1 + r.u(4));
      uint32_t x = word32(r);
      memcpy(&s[at], &x, 4);
      d += " value@" + std::to_string(at) + "=" + std::to_string(x);
      break;
    }
    case 6: {  // text
      std::vector<std::pair<size_t, size_t> > t;
      for (auto& p : o.payload) if (p.second >= 3 && p.second < 40) t.push_back(p);
      if (t.empty()) break;
      auto p = r.pick(t);
      std::string x = dict[r.u(sizeof dict / sizeof *dict)];
      x.resize(p.second, r.chance(0.5) ? 0 : 'x');
      memcpy(&s[p.first], x.data(), p.second);
      d += " text@" + std::to_string(p.first) + "=" + x;
      break;
    }
    case 7: {  // one child for another
      if (o.words.size() < 2) break;
      size_t w = r.pick(o.words);
      wr(s, w, rd(s, r.pick(o.words)));
      d += " swap@" + std::to_string(w);
      break;
    }
    case 8: { size_t m = r.u(s.size()); if (r.chance(0.5)) s.resize(m); else s.resize(s.size() + r.u(300), (char)r.u(256)); d += " length " + std::to_string(s.size()); break; }
    case 9: { size_t m = r.u(s.size()), k = 1 + r.u(std::min<size_t>(64, s.size() - m)); for (size_t i = 0; i < k; i++) s[m + i] = r.chance(0.5) ? 0 : (char)r.next(); d += " noise@" + std::to_string(m) + "+" + std::to_string(k); break; }
    case 10: { size_t m = r.u(s.size()); s[m] ^= 1 << r.u(8); d += " bit@" + std::to_string(m); break; }
    default: { if (other.empty()) break; size_t m = r.u(std::min(s.size(), other.size())), k = r.u(std::min(s.size(), other.size()) - m); memcpy(&s[m], &other[m], k); d += " splice@" + std::to_string(m) + "+" + std::to_string(k); }
    }
  }
}

// ---- damage to the contents of an HDF5 file, through the library that parses them
struct Obj { std::string path; bool group; };
herr_t visit(hid_t, const char* name, const H5O_info_t* info, void* p) {
  ((std::vector<Obj>*)p)->push_back(Obj{ std::string("/") + (strcmp(name, ".") ? name : ""), info->type == H5O_TYPE_GROUP });
  return 0;
}
herr_t listAttr(hid_t, const char* name, const H5A_info_t*, void* p) { ((std::vector<std::string>*)p)->push_back(name); return 0; }
struct Hid { hid_t id; herr_t (*c)(hid_t); ~Hid() { if (id >= 0) c(id); } };
void rndAttr(Rng& r, hid_t o, const std::string& name, std::string& d) {
  int k = r.u(7);
  hsize_t dims[2] = { (hsize_t)r.range(1, 8), (hsize_t)r.range(1, 3) };
  if (r.chance(0.2)) dims[0] = 0;
  Hid sp = { k == 4 || r.chance(0.2) ? H5Screate(r.chance(0.8) ? H5S_SCALAR : H5S_NULL) : H5Screate_simple(r.range(1, 2), dims, NULL), H5Sclose };
  char buf[4096];
  for (auto& c : buf) c = (char)r.next();
  for (size_t a = 0; a < 64; a++) { uint32_t x = word32(r); memcpy(buf + 4 * a, &x, 4); }
  if (k <= 1) { Hid a = { H5Acreate2(o, name.c_str(), H5T_NATIVE_INT, sp.id, H5P_DEFAULT, H5P_DEFAULT), H5Aclose }; if (a.id >= 0) H5Awrite(a.id, H5T_NATIVE_INT, buf); d += "ints"; }
  else if (k == 2) { Hid a = { H5Acreate2(o, name.c_str(), H5T_NATIVE_FLOAT, sp.id, H5P_DEFAULT, H5P_DEFAULT), H5Aclose }; if (a.id >= 0) H5Awrite(a.id, H5T_NATIVE_FLOAT, buf); d += "floats"; }
  else if (k == 3) { Hid a = { H5Acreate2(o, name.c_str(), r.chance(0.5) ? H5T_NATIVE_LLONG : H5T_NATIVE_DOUBLE, sp.id, H5P_DEFAULT, H5P_DEFAULT), H5Aclose }; if (a.id >= 0) H5Awrite(a.id, H5T_NATIVE_LLONG, buf); d += "longs"; }
  else if (k == 6) {
    Hid t = { H5Tcopy(H5T_C_S1), H5Tclose };
    H5Tset_size(t.id, H5T_VARIABLE);
    Hid s1 = { H5Screate(H5S_SCALAR), H5Sclose };
    Hid a = { H5Acreate2(o, name.c_str(), t.id, s1.id, H5P_DEFAULT, H5P_DEFAULT), H5Aclose };
    const char* v = dict[r.u(sizeof dict / sizeof *dict)];
    if (a.id >= 0 && r.chance(0.8)) H5Awrite(a.id, t.id, &v);
    d += "variable-length text";
  } else {
    Hid t = { H5Tcopy(H5T_C_S1), H5Tclose };
    std::string v = r.chance(0.7) ? dict[r.u(sizeof dict / sizeof *dict)] : std::string(r.u(300), 'y');
    H5Tset_size(t.id, std::max<size_t>(1, v.size() + r.u(3)));
    if (r.chance(0.3)) H5Tset_strpad(t.id, r.chance(0.5) ? H5T_STR_NULLPAD : H5T_STR_SPACEPAD);
    memset(buf, 'z', 1000); memcpy(buf, v.data(), v.size());
    Hid a = { H5Acreate2(o, name.c_str(), t.id, sp.id, H5P_DEFAULT, H5P_DEFAULT), H5Aclose };
    if (a.id >= 0) H5Awrite(a.id, t.id, buf);
    d += "text";
  }
}
void rndDataset(Rng& r, hid_t f, const std::string& path, std::string& d) {
  hsize_t dims[3] = { (hsize_t)r.u(200), (hsize_t)r.u(40), (hsize_t)r.u(5) };
  int rank = r.range(0, 3);
  Hid sp = { rank ? H5Screate_simple(rank, dims, NULL) : H5Screate(H5S_SCALAR), H5Sclose };
  hid_t ts[] = { H5T_NATIVE_FLOAT, H5T_NATIVE_DOUBLE, H5T_NATIVE_INT, H5T_NATIVE_CHAR, H5T_NATIVE_SHORT };
  Hid pl = { H5Pcreate(H5P_DATASET_CREATE), H5Pclose };
  if (rank && dims[0] && dims[1] && dims[2] && r.chance(0.5)) {
    hsize_t ch[3] = { 1 + r.u(dims[0]), 1 + r.u(dims[1]), 1 + r.u(dims[2]) };
    H5Pset_chunk(pl.id, rank, ch);
    if (r.chance(0.5)) H5Pset_deflate(pl.id, 5);
  }
  hid_t t = ts[r.u(5)];
  Hid ds = { H5Dcreate2(f, path.c_str(), t, sp.id, H5P_DEFAULT, pl.id, H5P_DEFAULT), H5Dclose };
  std::vector<double> v(40000);
  for (auto& x : v) x = r.chance(0.5) ? r.range(-3, 3000) : r.real(-1, 1);
  if (ds.id >= 0 && r.chance(0.8)) H5Dwrite(ds.id, r.chance(0.5) ? H5T_NATIVE_DOUBLE : t, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
  d += " dataset of rank " + std::to_string(rank);
}
void damageHDF5(Rng& r, const std::string& path, std::string& d) {
  Hid f = { H5Fopen(path.c_str(), H5F_ACC_RDWR, H5P_DEFAULT), H5Fclose };
  if (f.id < 0) { vf::fail("monitor", "the valid HDF5 file can't be opened"); return; }
  int n = r.chance(0.7) ? 1 : r.range(2, 4);
  for (int a = 0; a < n; a++) {
    std::vector<Obj> os;
    H5Ovisit(f.id, H5_INDEX_NAME, H5_ITER_NATIVE, visit, &os);
    if (os.empty()) return;
    const Obj o = r.pick(os);
    int k = r.u(10);
    if (k < 6) {
      Hid id = { H5Oopen(f.id, o.path.c_str(), H5P_DEFAULT), H5Oclose };
      std::vector<std::string> at;
      hsize_t idx = 0;
      H5Aiterate2(id.id, H5_INDEX_NAME, H5_ITER_NATIVE, &idx, listAttr, &at);
      if (at.empty()) continue;
      std::string name = r.pick(at);
      d += " " + o.path + "@" + name + ": ";
      if (k < 4) {
        // the value alone
        Hid t0 = { H5Aopen(id.id, name.c_str(), H5P_DEFAULT), H5Aclose };
        Hid t = { H5Aget_type(t0.id), H5Tclose };
        size_t sz = H5Tget_size(t.id);
        Hid sp = { H5Aget_space(t0.id), H5Sclose };
        hssize_t np = H5Sget_simple_extent_npoints(sp.id);
        if (H5Tget_class(t.id) == H5T_STRING) {
          std::string v = dict[r.u(sizeof dict / sizeof *dict)];
          if (H5Tis_variable_str(t.id)) continue;
          v.resize(std::max<size_t>(sz * np, 1), r.chance(0.5) ? 0 : 'w');
          H5Awrite(t0.id, t.id, v.data());
          d += "'" + v.substr(0, 30) + "'";
        } else {
          std::vector<char> v(sz * np + 8);
          H5Aread(t0.id, t.id, v.data());
          size_t e = np ? r.u(np) : 0;
          if (sz == 4) { uint32_t x = word32(r); memcpy(&v[4 * e], &x, 4); d += std::to_string((int)x) + " at " + std::to_string(e); }
          else for (size_t b = 0; b < sz; b++) v[sz * e + b] = (char)r.next();
          H5Awrite(t0.id, t.id, v.data());
        }
      } else {
        H5Adelete(id.id, name.c_str());
        if (k == 5) rndAttr(r, id.id, name, d); else d += "gone";
      }
    } else if (o.path != "/") {
      d += " " + o.path + ":";
      std::string other = r.pick(os).path;
      if (k == 6) { H5Ldelete(f.id, o.path.c_str(), H5P_DEFAULT); d += " gone"; }
      else if (k == 7) {
        H5Ldelete(f.id, o.path.c_str(), H5P_DEFAULT);
        if (r.chance(0.3)) { Hid g = { H5Gcreate2(f.id, o.path.c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), H5Gclose }; d += " empty group"; }
        else rndDataset(r, f.id, o.path, d);
      } else if (k == 8) {
        H5Ldelete(f.id, o.path.c_str(), H5P_DEFAULT);
        if (r.chance(0.5)) H5Lcreate_hard(f.id, other.c_str(), f.id, o.path.c_str(), H5P_DEFAULT, H5P_DEFAULT);
        else H5Lcreate_soft(r.chance(0.5) ? other.c_str() : o.path.c_str(), f.id, o.path.c_str(), H5P_DEFAULT, H5P_DEFAULT);
        d += " link to " + other;
      } else {
        std::string to = o.path + "/" + dict[r.u(13)];
        if (r.chance(0.5)) to = o.path + "x";
        if (r.chance(0.5)) H5Lmove(f.id, o.path.c_str(), f.id, to.c_str(), H5P_DEFAULT, H5P_DEFAULT);
        else H5Lcreate_hard(f.id, other.c_str(), f.id, to.c_str(), H5P_DEFAULT, H5P_DEFAULT);
        d += " moved to or joined by " + to;
      }
    }
  }
}
bool save(const Plan& p, const std::string& path) {
  Field3DOutputFile::useOgawa(p.ogawa);
  Field3DOutputFile out;
  if (!out.create(path)) return false;
  out.metadata() = p.meta();
  bool ok = out.writeGlobalMetadata();
  for (auto& l : p.layers) ok = ok && l.write(out);
  return out.close() && ok;
}
}  // namespace

void vf_init() {
  initIO(); Msg::setVerbosity(0); vf::setCaseTimeout(150); H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
  __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
}

void vf_case(vf::Ctx& c) {
  Rng& r = c.rng;
  int enc = r.chance(0.65);
  Plan p = rndPlan(r, 3, 7, enc), q = rndPlan(r, 2, 6, enc);
  std::string good = c.path("good.f3d"), two = c.path("two.f3d"), bad = c.path("bad.f3d");
  unlink(good.c_str()); unlink(two.c_str());
  c.desc = p.desc;
  VF_CHECK(save(p, good) && save(q, two), "clean-fails", "couldn't write");
  const std::string a = slurp(good), b = slurp(two);
  int n = c.thorough ? 120 : 40;
  for (int k = 0; k < n; k++) {
    std::string d;
    std::string img = a;
    setNumIOThreads(r.chance(0.7) ? 1 : r.range(2, 4));
    bool dyn = r.chance(0.3);
    int kind = r.u(20);
    if (kind == 0) {
      // not a Field3D file at all
      switch (r.u(4)) {
      case 0: img.clear(); break;
      case 1: img.assign(r.u(400), 0); for (auto& x : img) x = (char)r.next(); break;
      case 2: img = a.substr(0, 16) + b.substr(std::min<size_t>(16, b.size())); break;
      default: img = "Ogawa" + std::string(1, (char)0xff) + std::string(r.u(100), (char)r.u(3));
      }
      d = "foreign file";
      put(bad, img);
    } else if (p.ogawa) { damageOgawa(r, img, b, d); put(bad, img); }
    else {
      put(bad, img);
      damageHDF5(r, bad, d);
      img = slurp(bad);
    }
    c.desc = p.desc + " |" + d + (dyn ? " | on demand" : "");
    {
      struct Limit { Limit(bool x) { mgr().setLimitMemUse(x); } ~Limit() { mgr().setLimitMemUse(false); } } limit(dyn);
      if (getenv("VF_KEEP")) put(std::string(getenv("VF_KEEP")), img), fprintf(stderr, "MUTANT %d %s\n", k, c.desc.c_str());
      long long base = g_live;
      g_peak = base;
      double t = cpu();
      readAll(r, bad, p);
      t = cpu() - t;
      long long m = g_peak - base;
      vf::count("bytes_allocated_at_peak", m > 0 ? m : 0);
      VF_CHECK(m < (48ll << 20) + 3000ll * (long long)img.size(), "memory", "reading a file of " << img.size() << " bytes took " << m << " bytes of memory");
      VF_CHECK(t < 30, "time", "reading a file of " << img.size() << " bytes took " << t << " s");
    }
    vf::count("damaged_files");
    vf::nontrivial(vf::Hash().add(c.desc).h);
    if (k % 10 == 9) {
      setNumIOThreads(1);
      std::string s = planDiff(p, good);
      VF_CHECK(s.empty(), "afterwards", "after reading damaged files an intact one is misread: " << s);
      vf::count("intact_reads");
    }
  }
  c.desc = p.desc;
  setNumIOThreads(1);
  unlink(bad.c_str());
}

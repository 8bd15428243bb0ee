// P09: a write that was interrupted never yields wrong data. Every write call to the file is recorded; the file that
// any prefix of them leaves behind is opened and read.
#include "iofault.h"
#include "plan.h"
using namespace gen;
using namespace plan;

const char* vf_id() { return "P09"; }
void vf_init() { initIO(); Msg::setVerbosity(0); vf::setCaseTimeout(120); H5Eset_auto2(H5E_DEFAULT, NULL, NULL); }

namespace {
SparseFileManager& mgr() { return SparseFileManager::singleton(); }
// everything in b is in a with the same value
template <class M> bool subsetOf(const M& b, const M& a) {
  for (auto& x : b) {
    auto i = a.find(x.first);
    if (i == a.end() || !(i->second == x.second)) return false;
  }
  return true;
}
void apply(std::string& img, const iof::Rec& x, size_t n) {
  if (x.trunc >= 0) { img.resize(x.trunc); return; }
  if (img.size() < x.off + n) img.resize(x.off + n);
  memcpy(&img[x.off], x.bytes.data(), n);
}
void put(const std::string& path, const std::string& img) {
  FILE* f = fopen(path.c_str(), "wb");
  if (img.size()) fwrite(img.data(), 1, img.size(), f);
  fclose(f);
}
struct Seen { bool opened = false; int layers = 0; };
// opens what a crash left and compares whatever comes out of it
Seen look(vf::Ctx&, const Plan& p, const std::string& path, const std::string& at) {
  Seen q;
  std::string bad;
  Field3DInputFile in;
  try { q.opened = in.open(path); } catch (std::exception&) {}
  if (!q.opened) { vf::count("crash_files_refused"); return q; }
  vf::count("crash_files_opened");
  try {
    std::vector<std::string> parts, names;
    in.getPartitionNames(parts);
    for (auto& n : parts) {
      bool known = false;
      for (auto& l : p.layers) known = known || l.part == n;
      VF_CHECK(known, "partition", "a file cut off " << at << " lists partition '" << n << "', which was never written");
      in.getScalarLayerNames(names, n);
      for (auto& m : names) {
        bool k2 = false;
        for (auto& l : p.layers) k2 = k2 || (l.part == n && l.name == m);
        VF_CHECK(k2, "layer-name", "a file cut off " << at << " lists layer '" << m << "' in '" << n << "', which was never written");
      }
    }
  } catch (std::exception&) { vf::count("listing_threw"); }
  for (auto& l : p.layers) {
    std::string s;
    int k = 0;
    try { k = l.look(in, s); }
    catch (std::exception&) { vf::count("reads_threw"); continue; }
    if (!k) { vf::count("layers_missing"); continue; }
    VF_CHECK(k == 1, "duplicate", "a file cut off " << at << " holds " << k << " fields for layer " << l.name);
    VF_CHECK(s.empty(), "wrong-data", "a file cut off " << at << " yields a wrong layer " << l.part << "/" << l.name << " (" << l.desc << "): " << s);
    q.layers++;
    vf::count("layers_intact");
  }
  const FieldMetadata &a = p.meta(), &b = in.metadata();
  VF_CHECK(subsetOf(b.strMetadata(), a.strMetadata()) && subsetOf(b.intMetadata(), a.intMetadata()) && subsetOf(b.floatMetadata(), a.floatMetadata()) &&
           subsetOf(b.vecIntMetadata(), a.vecIntMetadata()) && subsetOf(b.vecFloatMetadata(), a.vecFloatMetadata()),
           "wrong-metadata", "a file cut off " << at << " yields global metadata that was never written");
  return q;
}
}  // namespace

void vf_case(vf::Ctx& c) {
  Rng& r = c.rng;
  Plan p = rndPlan(r, 4, r.chance(0.15) ? 28 : 9);
  setNumIOThreads(r.chance(0.5) ? 1 : r.range(2, 6));
  bool over = r.chance(0.3), dyn = r.chance(0.4);
  std::ostringstream d;
  d << p.desc << (over ? " over an older file" : "") << (dyn ? " read on demand" : "");
  c.desc = d.str();
  std::string path = c.path("w.f3d"), cut = c.path("cut.f3d");
  unlink(path.c_str());
  Field3DOutputFile::useOgawa(p.ogawa);
  std::string img;
  if (over) {
    // the writer replaces a file; nothing of it may show up
    Plan o = rndPlan(r, 2, 9);
    Field3DOutputFile::useOgawa(o.ogawa);
    Field3DOutputFile out;
    if (out.create(path)) { for (auto& l : o.layers) l.write(out); out.close(); }
    Field3DOutputFile::useOgawa(p.ogawa);
  }
  std::vector<size_t> done;  // number of calls after each step
  std::vector<iof::Rec> log;
  {
    iof::start(iof::Record, path);
    Field3DOutputFile out;
    bool ok = out.create(path);
    done.push_back(iof::g_log.size());
    out.metadata() = p.meta();
    ok = ok && out.writeGlobalMetadata();
    done.push_back(iof::g_log.size());
    for (auto& l : p.layers) {
      ok = ok && l.write(out);
      done.push_back(iof::g_log.size());
    }
    ok = ok && out.close();
    done.push_back(iof::g_log.size());
    iof::stop();
    log.swap(iof::g_log);
    VF_CHECK(ok, "clean-fails", "writing without interruption fails");
  }
  vf::count("writes_recorded", log.size());
  std::string s = planDiff(p, path);
  VF_CHECK(s.empty(), "clean-differs", "file written without interruption: " << s);
  // crash points
  struct Limit { Limit(bool b) { mgr().setLimitMemUse(b); } ~Limit() { mgr().setLimitMemUse(false); } } limit(dyn);
  size_t n = log.size(), budget = c.thorough ? 400 : 60;
  std::vector<char> pick(n, n <= budget);
  if (n > budget) {
    for (size_t k = 0; k < budget; k++) pick[r.u(n)] = 1;
    for (size_t k = n - std::min<size_t>(n, 25); k < n; k++) pick[k] = 1;
    for (size_t x : done) if (x < n) { pick[x] = 1; if (x) pick[x - 1] = 1; }
  }
  bool last = false;
  for (size_t k = 0; k < n; k++) {
    if (pick[k]) {
      // before call k, and in the middle of it
      std::ostringstream at;
      at << "before write " << k << " of " << n;
      put(cut, img);
      last = look(c, p, cut, at.str()).opened;
      vf::count("crash_points");
      size_t len = log[k].bytes.size();
      int parts = len > 1 ? (k + 8 >= n ? 4 : 1) : 0;
      for (int a = 0; a < parts; a++) {
        size_t m = len < 20 || r.chance(0.6) ? 1 + r.u(len - 1) : r.chance(0.5) ? 1 + r.u(16) : len - 1 - r.u(16);
        std::string half = img;
        apply(half, log[k], m);
        put(cut, half);
        look(c, p, cut, at.str() + " + " + std::to_string(m) + " of its " + std::to_string(len) + " bytes");
        vf::count("crash_points");
      }
    }
    apply(img, log[k], log[k].bytes.size());
  }
  (void)last;
  // the finished file is cut short
  size_t cuts = c.thorough ? 60 : 12;
  for (size_t k = 0; k < cuts && img.size(); k++) {
    size_t m = r.chance(0.3) ? img.size() - 1 - r.u(std::min<size_t>(img.size(), 300)) : r.chance(0.2) ? r.u(std::min<size_t>(img.size(), 40)) : r.u(img.size());
    put(cut, img.substr(0, m));
    look(c, p, cut, "at " + std::to_string(m) + " of its " + std::to_string(img.size()) + " bytes");
    vf::count("truncations");
  }
  // the storage fails, then the process dies, or carries on and closes the file
  for (int k = 0; k < (c.thorough ? 10 : 3); k++) {
    std::string path2 = c.path("bad.f3d");
    unlink(path2.c_str());
    Field3DOutputFile::useOgawa(p.ogawa);
    long at = r.chance(0.3) ? n - 1 - r.u(std::min<size_t>(n, 8)) : r.u(n);
    iof::Mode mode = r.chance(0.4) ? iof::FailOnce : r.chance(0.5) ? iof::FailFrom : iof::ShortThenFail;
    size_t steps = r.chance(0.4) ? 99 : r.u(p.layers.size() + 1);
    bool giveUp = r.chance(0.3), snapshot = r.chance(0.5), lift = r.chance(0.3);
    iof::start(mode, path2, at, r.chance(0.5) ? ENOSPC : EIO);
    std::unique_ptr<Field3DOutputFile> out(new Field3DOutputFile);
    std::string at2 = "after a failure of write " + std::to_string(at) + " of " + std::to_string(n) + " (mode " + std::to_string(mode) + ")";
    try {
      if (out->create(path2)) {
        out->metadata() = p.meta();
        bool ok = out->writeGlobalMetadata();
        for (size_t j = 0; j < p.layers.size() && j < steps && (ok || !giveUp); j++) {
          try { ok = p.layers[j].write(*out) && ok; } catch (std::exception&) { ok = false; }
          if (!ok && lift) iof::stop();  // room again
        }
      }
    } catch (std::exception&) {}
    if (snapshot) {
      std::string cp;
      FILE* f = fopen(path2.c_str(), "rb");
      if (f) { char b[4096]; size_t g; while ((g = fread(b, 1, sizeof b, f)) > 0) cp.append(b, g); fclose(f); }
      put(cut, cp);
      look(c, p, cut, at2);
    }
    try { out->close(); } catch (std::exception&) {}
    out.reset();
    vf::count(iof::g_hits ? "faults_hit" : "faults_not_reached");
    iof::stop();
    if (look(c, p, path2, at2 + ", then closed").opened && iof::g_hits) vf::count("opened_after_fault");
  }
  // the log is complete: it rebuilds the file
  put(cut, img);
  std::string e;
  { FILE* f = fopen(path.c_str(), "rb"); char b[4096]; size_t g; while ((g = fread(b, 1, sizeof b, f)) > 0) e.append(b, g); fclose(f); }
  VF_CHECK(e == img, "monitor", "the recorded writes don't add up to the file");
  mgr().setLimitMemUse(false);
  s = planDiff(p, cut);
  VF_CHECK(s.empty(), "after", "after reading the pieces the whole file is misread: " << s);
  vf::nontrivial(vf::Hash().add(c.desc).add(n).h);
  setNumIOThreads(1);
}

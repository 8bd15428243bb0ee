// P08: a write that fails is reported, whatever the storage refuses and whenever it does.
#include "iofault.h"
#include "plan.h"
#include <csignal>
#include <dirent.h>
#include <sys/resource.h>
using namespace gen;
using namespace plan;

const char* vf_id() { return "P08"; }
void vf_init() { initIO(); Msg::setVerbosity(0); vf::setCaseTimeout(100); signal(SIGXFSZ, SIG_IGN); H5Eset_auto2(H5E_DEFAULT, NULL, NULL); }

namespace {
SparseFileManager& mgr() { return SparseFileManager::singleton(); }
struct Result {
  bool ok = true, threw = false;
  std::string what;
  void step(bool good, const std::string& w) { if (!good && ok) { ok = false; what = w; } }
};
template <class F> void attempt(Result& q, const std::string& name, F f) {
  try { q.step(f(), name + " returned false"); }
  catch (std::exception& x) { q.threw = true; q.step(false, name + " threw " + x.what()); }
  catch (...) { q.threw = true; q.step(false, name + " threw"); }
}
// writes the plan; every step's outcome is noted
Result save(Rng& r, const Plan& p, Field3DOutputFile& out, const std::string& path, bool giveUp) {
  Result q;
  Field3DOutputFile::useOgawa(p.ogawa);
  attempt(q, "create", [&] { return out.create(path); });
  if (q.ok || !giveUp) {
    out.metadata() = p.meta();
    if (q.ok) attempt(q, "writeGlobalMetadata", [&] { return out.writeGlobalMetadata(); });
    for (auto& l : p.layers) {
      if (!q.ok && giveUp) break;
      attempt(q, "write of " + l.desc, [&] { return l.write(out); });
    }
  }
  attempt(q, "close", [&] { return out.close(); });
  return q;
}
void setFileLimit(rlim_t n) {
  struct rlimit l;
  getrlimit(RLIMIT_FSIZE, &l);
  l.rlim_cur = n == RLIM_INFINITY ? l.rlim_max : n;
  setrlimit(RLIMIT_FSIZE, &l);
}
struct Lift { ~Lift() { setFileLimit(RLIM_INFINITY); iof::stop(); } };

void faultCase(vf::Ctx& c, std::string& d) {
  Rng& r = c.rng;
  Plan p = rndPlan(r, 3, r.chance(0.2) ? 24 : 9);
  int threads = r.chance(0.5) ? 1 : r.range(2, 6);
  setNumIOThreads(threads);
  d = p.desc + " threads " + std::to_string(threads);
  // once without faults
  std::string clean = c.path("clean.f3d");
  long calls, trunc = 0;
  {
    Lift lift;
    iof::start(iof::Record, clean);
    Field3DOutputFile out;
    Result q = save(r, p, out, clean, false);
    iof::stop();
    VF_CHECK(q.ok, "clean-fails", "writing without any fault fails: " << q.what);
    calls = iof::g_n;
    for (auto& x : iof::g_log) trunc += x.trunc >= 0;
  }
  std::string s = planDiff(p, clean);
  VF_CHECK(s.empty(), "clean-differs", "file written without any fault: " << s);
  struct stat st;
  stat(clean.c_str(), &st);
  off_t size = st.st_size;
  int faults = r.range(3, 8);
  for (int a = 0; a < faults; a++) {
    int mode = r.u(8);
    std::string path = c.path("f" + std::to_string(a) + ".f3d"), fd;
    bool giveUp = r.chance(0.5), reuse = r.chance(0.5), noClose = r.chance(0.1);
    long at = r.chance(0.3) ? r.range(0, std::min(calls, 6L)) : r.chance(0.4) ? std::max(0L, calls - r.range(1, 6)) : r.range(0, (int)calls);
    off_t lim = r.chance(0.2) ? r.range(0, 20) : r.chance(0.3) ? std::max<off_t>(0, size - r.range(1, 200)) : (off_t)(r.f01() * (size + 1));
    if (mode == 6 && !trunc) mode = 0;
    std::unique_ptr<Field3DOutputFile> out(new Field3DOutputFile);
    Result q;
    {
      Lift lift;
      switch (mode) {
      case 0: case 1: fd = "file limit " + std::to_string(lim) + " of " + std::to_string(size); setFileLimit(lim); break;
      case 2: fd = "every write from " + std::to_string(at) + " of " + std::to_string(calls) + " fails"; iof::start(iof::FailFrom, path, at, r.chance(0.5) ? ENOSPC : EIO); break;
      case 3: fd = "write " + std::to_string(at) + " of " + std::to_string(calls) + " fails once"; iof::start(iof::FailOnce, path, at, r.chance(0.5) ? EIO : EDQUOT); break;
      case 4: fd = "write " + std::to_string(at) + " of " + std::to_string(calls) + " is cut short and the rest fail"; iof::start(iof::ShortThenFail, path, at); break;
      case 5: fd = "all writes are short"; iof::start(iof::Short, path); break;
      case 7: at = r.chance(0.5) ? r.range(0, 20) : r.range(0, (int)size); fd = "close fails and the last " + std::to_string(at) + " bytes are lost"; iof::start(iof::FailClose, path, at, r.chance(0.5) ? EIO : EDQUOT); break;
      default: fd = "truncation fails"; iof::start(iof::FailTruncate, path); break;
      }
      if (noClose) {
        Field3DOutputFile::useOgawa(p.ogawa);
        try { if (out->create(path)) for (auto& l : p.layers) l.write(*out); } catch (std::exception&) {}
        out.reset();
        vf::count("dropped_without_close");
      } else q = save(r, p, *out, path, giveUp);
      if (r.chance(0.5) && !reuse) out.reset();  // destroyed while the fault persists
    }
    if (iof::g_hits && mode > 1) vf::count("faults_hit");
    if (iof::g_hits && mode == 7) vf::count(p.ogawa ? "close_faults_ogawa" : "close_faults_hdf5");
    if (noClose) continue;
    if (mode == 5) VF_CHECK(q.ok, "short-writes", "writes that need several calls fail: " << q.what);
    if (q.ok) {
      vf::count("runs_reported_good");
      std::string e = planDiff(p, path);
      VF_CHECK(e.empty(), "unreported", "every step reported success, but " << e << " (" << fd << ")");
    } else {
      vf::count("runs_reported_bad");
      vf::count(q.threw ? "reported_by_exception" : "reported_by_result");
      vf::count(q.what.substr(0, 5) == "close" ? "reported_at_close" : q.what.substr(0, 6) == "create" ? "reported_at_create" : "reported_at_write");
    }
    vf::nontrivial(vf::Hash().add(d).add(fd).h);
    // the library still works, also with the same object
    if (r.chance(0.5)) {
      std::string again = c.path("again" + std::to_string(a) + ".f3d");
      std::unique_ptr<Field3DOutputFile> other;
      if (!reuse || !out) other.reset(new Field3DOutputFile);
      Result z = save(r, p, other ? *other : *out, again, false);
      VF_CHECK(z.ok, "after-fault", "writing after a failed write (" << fd << (other ? "" : ", same object") << ") fails: " << z.what);
      std::string e = planDiff(p, again);
      VF_CHECK(e.empty(), "after-fault-differs", "file written after a failed write (" << fd << (other ? "" : ", same object") << "): " << e);
      vf::count("written_after_fault");
      out.reset();
      unlink(again.c_str());
    }
    out.reset();
    unlink(path.c_str());
  }
}
// the blocks of an on-demand field can't be loaded any more when it is written
void sourceCase(vf::Ctx& c, std::string& d) {
  Rng& r = c.rng;
  setNumIOThreads(r.chance(0.4) ? 1 : r.range(2, 6));
  bool srcOgawa = r.chance(0.6), ogawa = r.chance(0.6);
  std::string sp = c.path("src.f3d"), op = c.path("out.f3d");
  withType(r.u(6), [&](auto z) {
    typedef decltype(z) T;
    Box3i e, w;
    rndWindows(r, e, w, 16, 4);
    typename SparseField<T>::Ptr f = mkSparse<T>(r, e, w, r.range(1, 3), ValSpecial, (SparseModel<T>*)0, 0.8);
    Field3DOutputFile::useOgawa(srcOgawa);
    {
      Field3DOutputFile out;
      VF_CHECK(out.create(sp) && IO<T>::write(out, "p", "l", f) && out.close(), "clean-fails", "couldn't write the source");
    }
    struct Limit { Limit() { mgr().setLimitMemUse(true); mgr().setMaxMemUse(0.001f); } ~Limit() { mgr().setLimitMemUse(false); mgr().setMaxMemUse(1000); } } limit;
    typename Field<T>::Ptr g;
    {
      Field3DInputFile in;
      VF_CHECK(in.open(sp), "open", "open failed");
      typename Field<T>::Vec v = IO<T>::read(in, "p", "l");
      VF_CHECK(v.size() == 1, "read", "read failed");
      g = v[0];
    }
    std::ostringstream o;
    o << "source " << (srcOgawa ? "ogawa" : "hdf5") << " target " << (ogawa ? "ogawa" : "hdf5") << " " << TT<T>::nm() << " " << str(w);
    if (r.chance(0.4)) { g->value(w.min.x, w.min.y, w.min.z); o << " touched"; }
    struct stat st;
    stat(sp.c_str(), &st);
    int k = r.u(3);
    // a file that HDF5 has read some of is never cut short: that library does not promise to survive it
    if (!srcOgawa && k == 0) k = 1;
    if (k == 0) { off_t n = (off_t)(r.f01() * st.st_size); truncate(sp.c_str(), n); o << " cut to " << n << " of " << st.st_size; }
    else if (k == 1) { unlink(sp.c_str()); o << " removed"; }
    else o << " intact";
    d = o.str();
    Field3DOutputFile::useOgawa(ogawa);
    Field3DOutputFile out;
    Result q;
    attempt(q, "create", [&] { return out.create(op); });
    attempt(q, "write", [&] { return IO<T>::write(out, "p", "l", g); });
    attempt(q, "close", [&] { return out.close(); });
    if (k == 2) VF_CHECK(q.ok, "clean-fails", "writing an on-demand field fails: " << q.what);
    vf::count(q.ok ? "source_ok" : "source_failure_reported");
    if (q.ok) {
      mgr().setLimitMemUse(false);
      Field3DInputFile in;
      VF_CHECK(in.open(op), "unreported", "every step reported success, but the file cannot be opened");
      typename Field<T>::Vec v = IO<T>::read(in, "p", "l");
      VF_CHECK(v.size() == 1 && v[0], "unreported", "every step reported success, but the layer is missing (" << d << ")");
      std::string s = fieldDiff<T>(f.get(), v[0].get());
      VF_CHECK(s.empty(), "unreported", "every step reported success, but " << s << " (" << d << ")");
    }
    vf::nontrivial(vf::Hash().add(d).h);
  });
}
// targets that can't be created, and fields that a format can't hold
void refusedCase(vf::Ctx& c, std::string& d) {
  Rng& r = c.rng;
  Plan p = rndPlan(r, 2, 6);
  int k = r.u(4);
  std::string path = c.path("x.f3d");
  unlink(path.c_str());
  d = p.desc;
  Field3DOutputFile out;
  if (k == 0) {
    d += " missing directory";
    Result q = save(r, p, out, c.path("no/such/dir.f3d"), r.chance(0.5));
    VF_CHECK(!q.ok, "unreported", "writing into a missing directory is not reported");
  } else if (k == 1) {
    d += " target is a directory";
    mkdir(path.c_str(), 0777);
    Result q = save(r, p, out, path, r.chance(0.5));
    VF_CHECK(!q.ok, "unreported", "writing to a directory is not reported");
    rmdir(path.c_str());
  } else if (k == 2) {
    d += " existing file";
    Result q = save(r, p, out, path, false);
    VF_CHECK(q.ok, "clean-fails", q.what);
    Field3DOutputFile::useOgawa(p.ogawa);
    Field3DOutputFile o2;
    VF_CHECK(!o2.create(path, Field3DOutputFile::FailOnExisting), "unreported", "existing file replaced");
    std::string s = planDiff(p, path);
    VF_CHECK(s.empty(), "existing-damaged", "refusing to replace a file damaged it: " << s);
  } else {
    d = "mac field to ogawa";
    Box3i e, w;
    rndWindows(r, e, w, 6);
    Field<V3f>::Ptr m = mkMAC<V3f>(r, e, w);
    Field3DOutputFile::useOgawa(true);
    Result q;
    attempt(q, "create", [&] { return out.create(path); });
    attempt(q, "write", [&] { return IO<V3f>::write(out, "p", "l", m); });
    attempt(q, "close", [&] { return out.close(); });
    if (q.ok) {
      Field3DInputFile in;
      VF_CHECK(in.open(path), "unreported", "file cannot be opened");
      Field<V3f>::Vec v = IO<V3f>::read(in, "p", "l");
      VF_CHECK(v.size() == 1 && v[0] && fieldDiff<V3f>(m.get(), v[0].get()).empty(), "unreported", "writing a MAC field reported success but the field is not in the file");
    } else {
      // what went before is still complete
      vf::count("mac_refused");
    }
  }
  vf::count("refused_targets");
  vf::nontrivial(vf::Hash().add(d).h);
}
}  // namespace

void vf_case(vf::Ctx& c) {
  int k = c.rng.u(20);
  if (k < 15) faultCase(c, c.desc);
  else if (k < 18) sourceCase(c, c.desc);
  else refusedCase(c, c.desc);
  setNumIOThreads(1);
}

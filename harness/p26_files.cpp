// P26: threads that use files of their own, or read the same ones, get what they would get alone.
#include "par.h"
#include "plan.h"
#include <csignal>
#include <fstream>
#include <sys/stat.h>
using namespace gen;
using namespace plan;

const char* vf_id() { return "P26"; }
void vf_init() { initIO(); Msg::setVerbosity(0); vf::setCaseTimeout(120); H5Eset_auto2(H5E_DEFAULT, NULL, NULL); }

namespace {
typedef std::string S;
SparseFileManager& mgr() { return SparseFileManager::singleton(); }
struct Made { Plan p; S path; };

S save(const Plan& p, const S& path, bool explicitClose) {
  Field3DOutputFile out;
  if (!out.create(path)) return "create failed";
  out.metadata() = p.meta();
  if (!out.writeGlobalMetadata()) return "global metadata not written";
  for (auto& l : p.layers) if (!l.write(out)) return "write of " + l.part + "/" + l.name + " failed";
  if (explicitClose && !out.close()) return "close failed";
  return "";
}
// the names the plan gives
S names(const Plan& p, const S& path) {
  Field3DInputFile in;
  if (!in.open(path)) return "cannot be opened";
  std::set<S> want;
  for (auto& l : p.layers) want.insert(l.part);
  std::vector<S> got;
  in.getPartitionNames(got);
  if (std::set<S>(got.begin(), got.end()) != want || got.size() != want.size()) return "partition names";
  for (auto& q : want) {
    std::set<S> ln;
    for (auto& l : p.layers) if (l.part == q) ln.insert(l.name);
    std::vector<S> a, b;
    in.getScalarLayerNames(a, q);
    in.getVectorLayerNames(b, q);
    a.insert(a.end(), b.begin(), b.end());
    if (std::set<S>(a.begin(), a.end()) != ln) return "layer names";
  }
  return "";
}
}  // namespace

void vf_case(vf::Ctx& c) {
  Rng& r = c.rng;
  int n = r.range(2, 8), delay = (int)r.u(4) * 2, io = r.chance(0.5) ? 1 : r.range(2, 4), ops = r.range(2, 6);
  int maxRes = r.chance(0.2) ? 14 : 7;
  bool limit = r.chance(0.3), ogOut = r.chance(0.5), shared = r.chance(0.6);
  setNumIOThreads(io);
  // files to be read, in both encodings
  std::vector<Made> made;
  int nm = r.range(2, 4);
  std::ostringstream d;
  d << "threads " << n << " io " << io << " delay " << delay << " ops " << ops << (limit ? " limited" : "") << (shared ? " shared" : " own") << " writing " << (ogOut ? "ogawa" : "hdf5");
  for (int k = 0; k < nm; k++) {
    Made m;
    m.p = rndPlan(r, 3, maxRes);
    m.path = c.path("r" + std::to_string(k) + "_" + std::to_string(c.idx) + ".f3d");
    Field3DOutputFile::useOgawa(m.p.ogawa);
    S s = save(m.p, m.path, true);
    VF_CHECK(s.empty(), "setup", s << " for " << m.p.desc);
    d << " ; " << m.p.desc;
    made.push_back(m);
  }
  // what each thread writes
  std::vector<std::vector<Made> > own(n);
  for (int t = 0; t < n; t++)
    for (int k = r.range(0, 3); k > 0; k--) {
      Made m;
      m.p = rndPlan(r, 3, maxRes, ogOut);
      m.path = c.path("w" + std::to_string(t) + "_" + std::to_string(k) + "_" + std::to_string(c.idx) + ".f3d");
      unlink(m.path.c_str());
      own[t].push_back(m);
    }
  S junk = c.path("junk.f3d");
  { std::ofstream f(junk.c_str(), std::ios::binary); for (int k = 0; k < 400; k++) f << (char)r.u(256); }
  Field3DOutputFile::useOgawa(ogOut);
  mgr().setLimitMemUse(limit);
  if (limit) mgr().setMaxMemUse(r.chance(0.5) ? 0.01f : 1.0f);
  c.desc = d.str();
  vf::nontrivial(vf::Hash().add(c.desc).add(r.s).h);
  std::atomic<long> wrote(0), read(0), failed(0), listed(0);
  par::run(c, n, delay, [&](int t, Rng& tr, par::Err& e) {
    size_t next = 0;
    std::unique_ptr<Field3DInputFile> held;
    const Made* heldMade = 0;
    for (int i = 0; i < ops; i++) {
      const Made& m = made[shared ? tr.u(made.size()) : t % made.size()];
      e.ops++;
      switch (tr.u(8)) {
      case 0: case 1: case 2: {
        if (next >= own[t].size()) break;
        const Made& w = own[t][next++];
        S s = save(w.p, w.path, tr.chance(0.7));
        PAR_CHECK(e, s.empty(), "write", s << ": " << w.p.desc);
        s = planDiff(w.p, w.path);
        PAR_CHECK(e, s.empty(), "write-read", "file written by the thread " << s << ": " << w.p.desc);
        wrote.fetch_add(1, std::memory_order_relaxed);
        break;
      }
      case 3: {
        S s = names(m.p, m.path);
        PAR_CHECK(e, s.empty(), "listing", s << " of " << m.p.desc);
        listed.fetch_add(1, std::memory_order_relaxed);
        break;
      }
      case 4: {
        // a file kept open while other things are done
        if (!held) {
          held.reset(new Field3DInputFile);
          heldMade = &m;
          PAR_CHECK(e, held->open(m.path), "open", "cannot open " << m.p.desc);
        } else {
          for (auto& l : heldMade->p.layers) { S s = l.check(*held); PAR_CHECK(e, s.empty(), "held-read", s << " of " << heldMade->p.desc); }
          held.reset();
        }
        break;
      }
      case 5: {
        // failures stay with whom they belong to
        Field3DInputFile a, b;
        Field3DOutputFile o;
        PAR_CHECK(e, !a.open(c.path("none.f3d")), "failure", "a file that doesn't exist was opened");
        PAR_CHECK(e, !b.open(junk), "failure", "a file of random bytes was opened");
        PAR_CHECK(e, !o.create(c.path("no/where.f3d")), "failure", "a file in a missing directory was created");
        failed.fetch_add(3, std::memory_order_relaxed);
        break;
      }
      default: {
        S s = planDiff(m.p, m.path);
        PAR_CHECK(e, s.empty(), "read", "file " << s << ": " << m.p.desc);
        read.fetch_add(1, std::memory_order_relaxed);
      }
      }
    }
    for (; next < own[t].size(); next++) {
      S s = save(own[t][next].p, own[t][next].path, true);
      PAR_CHECK(e, s.empty(), "write", s << ": " << own[t][next].p.desc);
    }
  });
  vf::count("files_written", wrote);
  vf::count("files_read", read);
  vf::count("files_listed", listed);
  vf::count("failures_seen", failed);
  // and once more, alone
  for (auto& v : own) for (auto& m : v) {
    S s = planDiff(m.p, m.path);
    VF_CHECK(s.empty(), "after", "afterwards the file " << s << ": " << m.p.desc);
    unlink(m.path.c_str());
  }
  for (auto& m : made) {
    S s = planDiff(m.p, m.path);
    VF_CHECK(s.empty(), "after", "afterwards the file " << s << ": " << m.p.desc);
    unlink(m.path.c_str());
  }
  mgr().flushCache();
  VF_CHECK(mgr().numLoadedBlocks() == 0, "blocks", mgr().numLoadedBlocks() << " blocks stay loaded");
}

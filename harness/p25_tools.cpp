// P25: the command-line tools, run as they are, against a model of what they are asked to do.
#include "pats.h"
#include "plan.h"
#include <Field3D/MIPUtil.h>
#include <Field3D/MinMaxUtil.h>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace gen;
using namespace plan;
using pats::selects;
using pats::S;

const char* vf_id() { return "P25"; }
void vf_init() { initIO(); Msg::setVerbosity(0); vf::setCaseTimeout(200); H5Eset_auto2(H5E_DEFAULT, NULL, NULL); }

namespace {
// ---- running a tool
struct Run { int rc = -1, sig = 0; bool hung = false; S out, err; };
Run run(const char* env, const std::vector<S>& args, long fileLimit = -1, bool quietLimit = true) {
  const char* exe = getenv(env);
  if (!exe) { fprintf(stderr, "no %s\n", env); abort(); }
  std::vector<char*> av;
  av.push_back((char*)exe);
  for (auto& a : args) av.push_back((char*)a.c_str());
  av.push_back(0);
  int po[2], pe[2];
  if (pipe(po) || pipe(pe)) abort();
  pid_t p = fork();
  if (p == 0) {
    dup2(po[1], 1); dup2(pe[1], 2);
    close(po[0]); close(pe[0]); close(po[1]); close(pe[1]);
    if (fileLimit >= 0) {
      struct rlimit l; l.rlim_cur = l.rlim_max = fileLimit;
      setrlimit(RLIMIT_FSIZE, &l);
      signal(SIGXFSZ, quietLimit ? SIG_IGN : SIG_DFL);
    }
    execv(exe, av.data());
    _exit(127);
  }
  close(po[1]); close(pe[1]);
  Run r;
  int open = 2;
  struct pollfd fd[2] = {{po[0], POLLIN, 0}, {pe[0], POLLIN, 0}};
  time_t end = time(0) + 120;
  while (open) {
    if (time(0) > end) { r.hung = true; kill(p, SIGKILL); break; }
    if (poll(fd, 2, 1000) <= 0) continue;
    for (int k = 0; k < 2; k++) if (fd[k].revents) {
      char b[65536];
      ssize_t n = read(fd[k].fd, b, sizeof b);
      if (n <= 0) { fd[k].fd = -1; open--; }
      else { S& s = k ? r.err : r.out; if (s.size() < (8u << 20)) s.append(b, n); }
    }
  }
  close(po[0]); close(pe[0]);
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFEXITED(st)) r.rc = WEXITSTATUS(st); else r.sig = WTERMSIG(st);
  vf::count("tool_runs");
  VF_CHECK(!r.hung, "tool:hang", "no end after 120 s");
  // the HDF5 library itself falls over files it couldn't close when the process ends, after the tool is done
  if (r.rc == 99 && fileLimit >= 0 && r.err.find("in H5F__close_cb") != S::npos && r.err.find("in H5_term_library") != S::npos) { vf::count("hdf5_exit_crashes"); return r; }
  bool san = r.err.find("ERROR: AddressSanitizer") != S::npos || r.err.find("runtime error:") != S::npos;
  VF_CHECK(!san, "tool:sanitizer", r.err.substr(0, 3000));
  VF_CHECK(!r.sig || (r.sig == SIGXFSZ && !quietLimit), "tool:signal", "killed by signal " << r.sig << "\n" << r.err.substr(0, 2000));
  VF_CHECK(r.rc != 127, "tool:exec", "cannot be run");
  return r;
}
S tail(const Run& q) { return "exit " + std::to_string(q.rc) + (q.sig ? " signal " + std::to_string(q.sig) : S()) + "; " + (q.out.size() > 700 ? q.out.substr(q.out.size() - 700) : q.out) + q.err.substr(0, 500); }

// ---- contents
struct Item { S part, layer; int type; FieldRes::Ptr f; };
typedef std::vector<Item> Items;
S show(const Item& i) { S t; withType(i.type, [&](auto z) { t = TT<decltype(z)>::nm(); }); return i.part + "/" + i.layer + " " + i.f->className() + " " + t; }

template <class T> S diffT(const Item& a, const FieldRes::Ptr& b) {
  Field<T>* x = dynamic_cast<Field<T>*>(a.f.get());
  Field<T>* y = dynamic_cast<Field<T>*>(b.get());
  if (!x || !y) return "type";
  S s = fieldDiff<T>(x, y);
  if (s.empty()) s = mappingNear(x->mapping(), y->mapping());
  if (s.empty()) s = metaDiff(x->metadata(), y->metadata());
  return s;
}
S diff(const Item& a, const FieldRes::Ptr& b) { S s; withType(a.type, [&](auto z) { s = diffT<decltype(z)>(a, b); }); return s; }
// every field of the file; 'missing' gets the layers that give none
Items contents(const S& path, S& err, std::vector<S>* missing = 0, FieldMetadata* meta = 0, Field3DInputFile* keep = 0) {
  Items v;
  Field3DInputFile own, &in = keep ? *keep : own;
  if (!in.open(path)) { err = "cannot be opened"; return v; }
  try {
  std::vector<S> ps;
  in.getPartitionNames(ps);
  for (auto& p : ps) {
    std::vector<S> ls, l2;
    in.getScalarLayerNames(ls, p);
    in.getVectorLayerNames(l2, p);
    std::set<S> all(ls.begin(), ls.end());
    all.insert(l2.begin(), l2.end());
    for (auto& l : all) {
      size_t n = v.size();
      for (int t = 0; t < 6; t++) withType(t, [&](auto z) {
        typedef decltype(z) T;
        typename Field<T>::Vec q = IO<T>::read(in, p, l);
        for (auto& f : q) v.push_back(Item{p, l, t, f});
      });
      if (v.size() == n && missing) missing->push_back(p + "/" + l);
    }
  }
  } catch (std::exception& x) { err = S("cannot be read: ") + x.what(); }
  return v;
}
// what tells the file from the expected items, in any order
S compare(const Items& want, const Items& got) {
  std::vector<char> used(got.size(), 0);
  for (auto& w : want) {
    S why = "is not there";
    bool found = false;
    for (size_t k = 0; k < got.size() && !found; k++) {
      if (used[k] || got[k].part != w.part || got[k].layer != w.layer || got[k].type != w.type) continue;
      S s = diff(w, got[k].f);
      if (s.empty()) { used[k] = 1; found = true; } else why = s;
    }
    if (!found) return show(w) + ": " + why;
    vf::count("fields_compared");
  }
  for (size_t k = 0; k < got.size(); k++) if (!used[k]) return "also holds " + show(got[k]);
  return "";
}
// ---- making inputs
// windows start at the origin (what pyramids need) unless 'wild'
Items rndItems(Rng& r, int n, int maxRes, bool ogawa, bool wild, const std::vector<S>& parts, const std::vector<S>& layers) {
  Items v;
  for (int a = 0; a < n; a++) {
    Item it;
    it.part = r.pick(parts); it.layer = r.pick(layers);
    it.type = r.u(6);
    int kind = r.u(Kinds);
    if (kind == KMAC && (ogawa || it.type < 3 || r.chance(0.5))) kind = r.u(2);
    withType(it.type, [&](auto z) {
      typedef decltype(z) T;
      S d;
      typename Field<T>::Ptr f;
      if (wild || kind >= KMAC) f = mkField<T>(r, kind, maxRes, d);
      else {
        Box3i e(V3i(0), V3i(r.u(maxRes), r.u(maxRes), r.u(maxRes)));
        if (kind == KDense) f = mkDense<T>(r, e, e, ValSmall); else f = mkSparse<T>(r, e, e, r.range(1, 3), ValSmall);
      }
      f->setMapping(rndMapping(r, r.u(3)));
      if (kind >= KMIPDense && r.chance(0.5)) f->metadata().setVecIntMetadata("mipoffset", V3i(0));
      f->name = it.part; f->attribute = it.layer;
      rndMetadata(r, f->metadata());
      it.f = f;
    });
    if (a && r.chance(0.5)) it.f->setMapping(v.back().f->mapping());
    v.push_back(it);
  }
  return v;
}
void store(Rng& r, const Items& v, const S& path, bool ogawa, FieldMetadata& meta) {
  unlink(path.c_str());
  Field3DOutputFile::useOgawa(ogawa);
  Field3DOutputFile out;
  bool ok = out.create(path);
  if (ok) {
    out.metadata() = meta;
    ok = out.writeGlobalMetadata();
  }
  for (auto& i : v) withType(i.type, [&](auto z) {
    typedef decltype(z) T;
    typename Field<T>::Ptr f = boost::dynamic_pointer_cast<Field<T> >(i.f);
    ok = ok && IO<T>::write(out, i.part, i.layer, f);
  });
  ok = out.close() && ok;
  VF_CHECK(ok, "input", "cannot write the input file");
}
struct Inputs { std::vector<S> paths, desc; std::vector<Items> items; std::vector<std::shared_ptr<Field3DOutputFile> > holders; std::vector<S> parts, layers; S text; };
Inputs rndInputs(vf::Ctx& c, int maxFiles, int maxItems, int maxRes, bool wild) {
  Rng& r = c.rng;
  Inputs in;
  int np = r.range(1, 3), nl = r.range(1, 5);
  for (int a = 0; a < np; a++) in.parts.push_back(r.chance(0.3) ? S("p") + char('a' + a) : rndName(r, 8));
  for (int a = 0; a < nl; a++) {
    S s = r.chance(0.3) ? S("l") + char('a' + a) : rndName(r, 8);
    if (r.chance(0.15)) s += r.chance(0.5) ? "_min" : r.chance(0.5) ? "_max" : "_minor";
    in.layers.push_back(s);
  }
  int nf = r.range(1, maxFiles);
  std::ostringstream d;
  for (int a = 0; a < nf; a++) {
    bool og = r.chance(0.6);
    S path = c.path((r.chance(0.2) ? "in put" : "in") + std::to_string(a) + ".f3d");
    in.items.push_back(rndItems(r, r.range(0, 3) ? r.range(1, maxItems) : r.range(0, 1), maxRes, og, wild, in.parts, in.layers));
    in.holders.emplace_back(new Field3DOutputFile);
    rndMetadata(r, in.holders.back()->metadata());
    store(r, in.items.back(), path, og, in.holders.back()->metadata());
    in.paths.push_back(path);
    d << (a ? " ; " : "") << (og ? "ogawa" : "hdf5");
    for (auto& i : in.items.back()) d << " | " << show(i);
  }
  in.text = d.str();
  return in;
}
// ---- command lines
struct Cmd {
  std::vector<S> args, names, attrs;
  S text() const { S s; for (auto& a : args) s += " '" + a + "'"; return s; }
};
S notEmpty(Rng& r, const std::vector<S>& subjects) {
  while (true) {
    S p = pats::rndPattern(r, subjects);
    bool bad = p.empty() || p == "-" || p == "^";
    for (char ch : p) if (ch < 32) bad = true;
    if (!bad) return p;
  }
}
Cmd command(Rng& r, const std::vector<S>& ins, const S& out, const Inputs& in, std::vector<std::vector<S> > options) {
  Cmd c;
  std::vector<std::vector<S> > parts = options;  // groups to be shuffled, inputs in order
  auto opt = [&](const S& lng, const S& sht, const S& val) {
    std::vector<S> g;
    bool dash = val.size() && val[0] == '-';
    switch (dash ? 0 : r.u(3)) {
    case 0: g.push_back("--" + lng + "=" + val); break;
    case 1: g.push_back("--" + lng); g.push_back(val); break;
    default: g.push_back("-" + sht); g.push_back(val);
    }
    return g;
  };
  for (int k = r.chance(0.5) ? 0 : r.range(1, 3); k > 0; k--) { S p = notEmpty(r, in.parts); c.names.push_back(p); parts.push_back(opt("name", "n", p)); }
  for (int k = r.chance(0.5) ? 0 : r.range(1, 3); k > 0; k--) { S p = notEmpty(r, in.layers); c.attrs.push_back(p); parts.push_back(opt("attribute", "a", p)); }
  if (out.size()) parts.push_back(opt("output-file", "o", out));
  for (size_t k = parts.size(); k > 1; k--) std::swap(parts[k - 1], parts[r.u(k)]);
  int style = r.u(3);  // positional, option, both
  size_t at = 0;
  for (auto& p : ins) {
    std::vector<S> g;
    if (style == 0 || (style == 2 && r.chance(0.5))) g.push_back(p); else g = opt("input-file", "i", p);
    at += r.u(parts.size() - at + 1);
    parts.insert(parts.begin() + at, g);
    at++;
  }
  for (auto& g : parts) for (auto& a : g) c.args.push_back(a);
  return c;
}
Items selected(const Inputs& in, const Cmd& cmd) {
  Items v;
  for (auto& f : in.items) for (auto& i : f)
    if (selects("", i.part, false, cmd.names, true) && selects("", i.layer, false, cmd.attrs, true)) v.push_back(i);
  return v;
}
S yes(Rng& r, bool b) { static const char* t[] = {"1", "true", "on", "yes"}; static const char* f[] = {"0", "false", "off", "no"}; return (b ? t : f)[r.u(4)]; }
bool hasMAC(const Items& v) { for (auto& i : v) if (i.f->className() == "MACField") return true; return false; }

// ---- cases
void judge(const Run& q, const Items& want, bool mustFail, const S& out, const char* tool, const S& text) {
  if (mustFail) {
    VF_CHECK(q.rc != 0, S(tool) + ":unreported", "exit status 0 although something could not be done: " << text << tail(q));
    vf::count("failures_reported");
  } else
    VF_CHECK(q.rc == 0, S(tool) + ":status", "failed: " << text << tail(q));
  S err;
  Items got = contents(out, err);
  VF_CHECK(err.empty(), S(tool) + ":output", "output " << err << ": " << text << tail(q));
  S s = compare(want, got);
  VF_CHECK(s.empty(), S(tool) + ":content", "output: " << s << "; " << text << tail(q));
}
void merge(vf::Ctx& c) {
  Rng& r = c.rng;
  Inputs in = rndInputs(c, 4, 5, 8, true);
  bool og = r.chance(0.6);
  std::vector<std::vector<S> > o;
  if (!og || r.chance(0.5)) { if (r.chance(0.5)) o.push_back({"--ogawa=" + yes(r, og)}); else o.push_back({"-g", yes(r, og)}); }
  if (r.chance(0.5)) o.push_back({"-t", std::to_string(r.range(1, 9))});
  S out = c.path("merged.f3d");
  unlink(out.c_str());
  Cmd cmd = command(r, in.paths, out, in, o);
  c.desc = "merge " + in.text + " :" + cmd.text();
  Run q = run("VF_MERGE", cmd.args);
  Items want = selected(in, cmd), kept;
  for (auto& i : want) if (!og || i.f->className() != "MACField") kept.push_back(i);
  judge(q, kept, kept.size() != want.size(), out, "merge", "");
  vf::count("merges");
  vf::seen("merge_sizes", vf::Hash().add(in.paths.size()).add(want.size()).add(og).h);
  if (want.size()) vf::nontrivial(vf::Hash().add(c.desc).h);
}
template <class T, class M, class B> void pyramid(const Item& i, const B& base, int minRes, bool mm, float mult, int th, Items& want, bool& bad) {
  auto add = [&](FieldRes::Ptr f, const S& suffix) {
    if (!f) { bad = true; return; }
    want.push_back(Item{i.part, i.layer + suffix, i.type, f});
  };
  add(makeMIP<M, TriangleFilter>(base, minRes, computeOffset(*i.f), th), "");
  if (mm) {
    auto p = makeMinMax<M>(base, mult, th);
    add(p.first, "_min");
    add(p.second, "_max");
  }
}
void mip(vf::Ctx& c) {
  Rng& r = c.rng;
  Inputs in = rndInputs(c, 2, 3, 12, r.chance(0.1));
  bool og = r.chance(0.6), mm = r.chance(0.4);
  int minRes = 4, th = 8;
  float mult = 0.5f;
  std::vector<std::vector<S> > o;
  if (!og || r.chance(0.5)) { if (r.chance(0.5)) o.push_back({"--ogawa=" + yes(r, og)}); else o.push_back({"-g", yes(r, og)}); }
  if (r.chance(0.6)) { th = r.range(1, 9); o.push_back({"-t", std::to_string(th)}); }
  if (r.chance(0.6)) { minRes = r.range(1, 16); o.push_back({"-m", std::to_string(minRes)}); }
  if (mm || r.chance(0.2)) o.push_back({"-x", yes(r, mm)});
  if (r.chance(0.4)) { static const char* ms[] = {"0.25", "0.5", "1", "0.75", "0.3"}; S m = ms[r.u(5)]; mult = strtof(m.c_str(), 0); o.push_back({"-r", m}); }
  S out = c.path("mip.f3d");
  unlink(out.c_str());
  Cmd cmd = command(r, in.paths, out, in, o);
  c.desc = "mip " + in.text + " :" + cmd.text();
  Run q = run("VF_MIP", cmd.args);
  // what the library makes of the same files
  Items want;
  bool bad = false;
  std::vector<std::shared_ptr<Field3DInputFile> > hold;
  for (auto& path : in.paths) {
    S err;
    hold.emplace_back(new Field3DInputFile);
    Items have = contents(path, err, 0, 0, hold.back().get());
    VF_CHECK(err.empty(), "input", err);
    for (auto& i : have) {
      if (!selects("", i.part, false, cmd.names, true) || !selects("", i.layer, false, cmd.attrs, true)) continue;
      auto ends = [&](const char* x) { return i.layer.size() >= 4 && i.layer.compare(i.layer.size() - 4, 4, x) == 0; };
      if (ends("_min") || ends("_max")) { vf::count("bounds_skipped"); continue; }
      withType(i.type, [&](auto z) {
        typedef decltype(z) T;
        FieldRes* f = i.f.get();
        if (auto d = dynamic_cast<DenseField<T>*>(f)) pyramid<T, MIPDenseField<T> >(i, *d, minRes, mm, mult, 3, want, bad);
        else if (auto d = dynamic_cast<SparseField<T>*>(f)) pyramid<T, MIPSparseField<T> >(i, *d, minRes, mm, mult, 3, want, bad);
        else if (auto d = dynamic_cast<MIPDenseField<T>*>(f)) pyramid<T, MIPDenseField<T> >(i, *d->concreteMipLevel(0), minRes, mm, mult, 3, want, bad);
        else if (auto d = dynamic_cast<MIPSparseField<T>*>(f)) pyramid<T, MIPSparseField<T> >(i, *d->concreteMipLevel(0), minRes, mm, mult, 3, want, bad);
        else bad = true;
      });
    }
  }
  judge(q, want, bad, out, "mip", "");
  vf::count("pyramid_runs");
  vf::seen("mip_options", vf::Hash().add(minRes).add(mm).add(og).add(th).add(want.size()).h);
  if (want.size()) vf::nontrivial(vf::Hash().add(c.desc).h);
}
// ---- f3dinfo
typedef std::map<S, std::set<S> > Sections;
Sections sections(const S& text, size_t from) {
  Sections m;
  std::istringstream is(text.substr(from));
  S line, cur;
  while (std::getline(is, line)) {
    if (line.compare(0, 4, "    ") == 0 && line.size() > 4 && line[4] != ' ') { cur = line.substr(4); m[cur]; continue; }
    if (line.compare(0, 6, "      ") == 0) m[cur].insert(line.substr(6)); else cur = "?";
  }
  return m;
}
template <class M> std::set<S> lines(const M& m) {
  std::set<S> s;
  for (auto& q : m) { std::ostringstream o; o << q.first << " : " << q.second; s.insert(o.str()); }
  if (s.empty()) s.insert("None");
  return s;
}
S metaText(const FieldMetadata& m, Sections& s) {
  if (s["Int metadata:"] != lines(m.intMetadata())) return "integer metadata";
  if (s["Float metadata:"] != lines(m.floatMetadata())) return "float metadata";
  if (s["V3i metadata:"] != lines(m.vecIntMetadata())) return "integer vector metadata";
  if (s["V3f metadata:"] != lines(m.vecFloatMetadata())) return "float vector metadata";
  if (s["String metadata:"] != lines(m.strMetadata())) return "string metadata";
  return "";
}
S field(const S& block, const S& name) {
  size_t p = block.find("    " + name);
  if (p == S::npos) return "";
  p += 4 + name.size();
  size_t e = block.find('\n', p);
  S s = block.substr(p, e - p);
  return s.substr(std::min(s.size(), s.find_first_not_of(' ')));
}
S escape(const S& s) { S o; for (char ch : s) { if (!isalnum((unsigned char)ch) && ch != '_' && ch != ' ') o += '\\'; o += ch; } return o; }
void info(vf::Ctx& c) {
  Rng& r = c.rng;
  Inputs in = rndInputs(c, 3, 4, 6, true);
  std::vector<S> args;
  std::set<S> wantP, wantL;
  bool selP = r.chance(0.3), selL = r.chance(0.3);
  S names;
  if (selP) { S p = r.pick(in.parts); wantP.insert(p); args.push_back("--name=" + escape(p)); }
  if (selL) for (int k = r.range(1, 2); k; k--) { S p = r.pick(in.layers); wantL.insert(p); args.push_back("-a"); args.push_back(escape(p)); }
  for (auto& p : in.paths) args.insert(args.begin() + r.u(2) * args.size(), p);
  Cmd t; t.args = args;
  c.desc = "info " + in.text + " :" + t.text();
  Run q = run("VF_INFO", args);
  VF_CHECK(q.rc == 0, "info:status", "failed: " << tail(q));
  // per file
  std::map<S, S> part;
  std::vector<std::pair<size_t, size_t> > at;
  for (size_t k = 0; k < in.paths.size(); k++) {
    S head = "Field3D file: " + in.paths[k] + "\n";
    size_t p = q.out.find(head);
    VF_CHECK(p != S::npos, "info:file", "nothing about " << in.paths[k] << tail(q));
    at.push_back(std::make_pair(p, k));
  }
  std::sort(at.begin(), at.end());
  for (size_t a = 0; a < at.size(); a++) {
    S txt = q.out.substr(at[a].first, a + 1 < at.size() ? at[a + 1].first - at[a].first : S::npos);
    size_t k = at[a].second;
    size_t g = txt.find("  Global metadata\n");
    VF_CHECK(g != S::npos, "info:global", "no global metadata of " << in.paths[k]);
    Sections gs = sections(txt, g);
    S s = metaText(in.holders[k]->metadata(), gs);
    VF_CHECK(s.empty(), "info:global", s << " of the file is not listed as it is" << txt.substr(g, 600));
    std::vector<S> blocks;
    for (size_t p = txt.find("  Field: \n"); p != S::npos && p < g;) { size_t e = txt.find("  Field: \n", p + 3); if (e == S::npos || e > g) e = g; blocks.push_back(txt.substr(p, e - p)); p = e; }
    size_t expect = 0;
    for (auto& i : in.items[k]) {
      if ((selP && !wantP.count(i.part)) || (selL && !wantL.count(i.layer))) continue;
      expect++;
      S why = "is not listed";
      bool found = false;
      for (size_t b = 0; b < blocks.size() && !found; b++) {
        const S& x = blocks[b];
        if (field(x, "Name: ") != i.part || field(x, "Attribute: ") != i.layer) continue;
        std::ostringstream e, w;
        e << i.f->extents().min << " " << i.f->extents().max;
        w << i.f->dataWindow().min << " " << i.f->dataWindow().max;
        S dt;
        withType(i.type, [&](auto z) { typedef decltype(z) T; dt = dynamic_cast<Field<T>*>(i.f.get())->dataTypeString(); });
        Sections m = sections(x, 0);
        if (field(x, "Field type: ") != i.f->className()) why = "type " + field(x, "Field type: ");
        else if (field(x, "Data type: ") != dt) why = "data type " + field(x, "Data type: ");
        else if (field(x, "Extents: ") != e.str()) why = "extents " + field(x, "Extents: ");
        else if (field(x, "Data window: ") != w.str()) why = "data window " + field(x, "Data window: ");
        else if (field(x, "  Type: ") != i.f->mapping()->className()) why = "mapping " + field(x, "  Type: ");
        else if ((why = metaText(i.f->metadata(), m)).empty()) {
          found = true;
          MatrixFieldMapping::Ptr mm = boost::dynamic_pointer_cast<MatrixFieldMapping>(i.f->mapping());
          if (mm && i.f->className().find("MIP") == S::npos) {
            std::ostringstream o;
            M44d l = mm->localToWorld();
            for (int j = 0; j < 4; j++) { o << "        "; for (int n = 0; n < 4; n++) o << l[n][j] << " "; o << "\n"; }
            if (x.find(o.str()) == S::npos) { found = false; why = "matrix"; }
          }
        }
        if (found) { blocks.erase(blocks.begin() + b); vf::count("fields_listed"); }
      }
      VF_CHECK(found, "info:field", show(i) << " of " << in.paths[k] << ": " << why << "\n" << txt.substr(0, 1500));
    }
    VF_CHECK(blocks.empty(), "info:extra", blocks.size() << " more than the " << expect << " selected fields of " << in.paths[k] << " are listed: " << blocks[0].substr(0, 400));
    vf::count("files_listed");
    if (expect) vf::nontrivial(vf::Hash().add(c.desc).add(k).h);
  }
}
// ---- f3dsample
void sample(vf::Ctx& c) {
  Rng& r = c.rng;
  std::vector<S> args;
  S out = c.path("sample.f3d");
  unlink(out.c_str());
  bool vec = r.chance(0.5);
  int bits = 32, type = 0;
  V3i res(64);
  S name = "field_name", attr = "field_attribute";
  if (r.chance(0.8)) { static const int b[] = {16, 32, 64}; bits = b[r.u(3)]; args.push_back("-b"); args.push_back(std::to_string(bits)); }
  if (r.chance(0.7)) { type = r.u(3); static const char* n[] = {"DenseField", "SparseField", "MACField"}; args.push_back("--type"); args.push_back(n[type]); }
  static const char* ax[] = {"-x", "-y", "-z"};
  for (int a = 0; a < 3; a++) if (r.chance(0.95)) { res[a] = r.range(1, 20); args.push_back(ax[a]); args.push_back(std::to_string(res[a])); } 
  if (r.chance(0.5)) { name = rndName(r, 8); args.push_back("--name=" + name); }
  if (r.chance(0.5)) { attr = rndName(r, 8); args.push_back("-a"); args.push_back(attr); }
  if (vec) args.push_back(r.chance(0.5) ? "-v" : "--vector");
  args.push_back("--output-file=" + out);
  Cmd t; t.args = args;
  c.desc = "sample" + t.text();
  bool badDir = r.chance(0.15);
  if (badDir) args.back() = "--output-file=" + c.path("nowhere/x.f3d");
  Run q = run("VF_SAMPLE", args);
  bool mac = type == 2 && vec;
  if (badDir || mac) { VF_CHECK(q.rc != 0, "sample:unreported", "exit status 0 although nothing could be written: " << tail(q)); vf::count("failures_reported"); vf::nontrivial(vf::Hash().add(c.desc).h); return; }
  VF_CHECK(q.rc == 0, "sample:status", "failed: " << tail(q));
  S err;
  Items v = contents(out, err);
  VF_CHECK(err.empty() && v.size() == 1, "sample:output", "output " << err << " holds " << v.size() << " fields");
  int ti = (bits == 16 ? 0 : bits == 32 ? 1 : 2) + (vec ? 3 : 0);
  VF_CHECK(v[0].part == name && v[0].layer == attr && v[0].type == ti, "sample:content", "holds " << show(v[0]));
  VF_CHECK(v[0].f->dataResolution() == res, "sample:content", "resolution " << str(v[0].f->dataResolution()));
  VF_CHECK(v[0].f->className() == (type == 1 ? "SparseField" : "DenseField"), "sample:content", "class " << v[0].f->className());
  M44d l;
  l.setScale(V3d(res));
  l *= M44d().setTranslation(V3d(1, 2, 3));
  MatrixFieldMapping::Ptr m = boost::dynamic_pointer_cast<MatrixFieldMapping>(v[0].f->mapping());
  VF_CHECK(m && m->localToWorld() == l, "sample:content", "mapping");
  FieldMetadata& fm = v[0].f->metadata();
  VF_CHECK(fm.floatMetadata("float_metadata", 0) == 1 && fm.intMetadata("int_metadata", 0) == 1 && fm.strMetadata("str_metadata", "") == "string" && fm.vecFloatMetadata("vec_float_metadata", V3f(0)) == V3f(1) && fm.vecIntMetadata("vec_int_metadata", V3i(0)) == V3i(1), "sample:content", "metadata");
  vf::count("samples_made");
  vf::nontrivial(vf::Hash().add(c.desc).h);
}
// ---- what cannot be read or written
S slurp(const S& p) { std::ifstream f(p.c_str(), std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
void spill(const S& p, const S& d) { std::ofstream f(p.c_str(), std::ios::binary | std::ios::trunc); f << d; }
void faults(vf::Ctx& c) {
  Rng& r = c.rng;
  bool mipTool = r.chance(0.4);
  const char* tool = mipTool ? "VF_MIP" : "VF_MERGE";
  Inputs in = rndInputs(c, 3, 3, 8, false);
  bool og = r.chance(0.6);
  std::vector<S> tailArgs = {"-g", og ? "1" : "0", "-t", "2"};
  S out = c.path("out.f3d");
  unlink(out.c_str());
  auto args = [&](const std::vector<S>& ins, const S& o) { std::vector<S> a = ins; a.insert(a.end(), tailArgs.begin(), tailArgs.end()); a.push_back("-o"); a.push_back(o); return a; };
  auto mustFail = [&](const Run& q, const S& what) {
    VF_CHECK(q.rc != 0, S("unreported:") + what, "exit status 0 with " << what << ": " << tail(q));
    vf::count("failures_reported");
    vf::seen("failure_kinds", vf::Hash().add(what).add(tool).add(og).h);
  };
  int kind = r.u(5);
  c.desc = S(tool) + " fault " + std::to_string(kind) + (og ? " ogawa " : " hdf5 ") + in.text;
  std::vector<S> ins = in.paths;
  if (kind == 0) {
    // an input that isn't there, is no file, or is something else
    S bad = c.path("bad.f3d");
    unlink(bad.c_str());
    int how = r.u(3);
    if (how == 0) {} else if (how == 1) { S g; for (int k = r.range(0, 300); k > 0; k--) g += (char)r.u(256); spill(bad, g); } else bad = c.tmp;
    ins.insert(ins.begin() + r.u(ins.size() + 1), bad);
    mustFail(run(tool, args(ins, out)), "an input that cannot be opened");
    mustFail(run("VF_INFO", ins), "an input that cannot be opened (info)");
  } else if (kind == 1) {
    S o = r.chance(0.5) ? c.path("nowhere/out.f3d") : r.chance(0.5) ? "/dev/full" : c.tmp;
    mustFail(run(tool, args(ins, o)), "an output that cannot be written");
  } else if (kind == 2) {
    // the storage is full at some point
    Run all = run(tool, args(ins, out));
    S whole = slurp(out);
    if (all.rc == 0 && whole.size()) {
      for (int k = 0; k < 6; k++) {
        long lim = r.chance(0.3) ? (long)whole.size() - r.range(1, 64) : r.u(whole.size());
        if (lim < 0) lim = 0;
        unlink(out.c_str());
        c.desc += " limit " + std::to_string(lim);
        Run q = run(tool, args(ins, out), lim, !r.chance(0.2));
        if (q.rc == 0) {
          // then everything has to be there
          S e1, e2;
          Items got = contents(out, e1);
          S ref = c.path("ref.f3d");
          spill(ref, whole);
          Items want = contents(ref, e2);
          VF_CHECK(e2.empty(), "full:reference", e2);
          S s = e1.empty() ? compare(want, got) : e1;
          VF_CHECK(s.empty(), "unreported:full storage", "exit status 0 with the file limited to " << lim << " of " << whole.size() << " bytes, but the output " << s << ": " << tail(q));
        } else { vf::count("failures_reported"); vf::seen("failure_kinds", vf::Hash().add("limit").add(tool).add(og).h); }
      }
    }
  } else if (kind == 3) {
    // damaged inputs: what is left out is reported
    size_t k = r.u(ins.size());
    S d = slurp(ins[k]);
    int how = r.u(3);
    size_t a = r.u(d.size()), n = std::min<size_t>(r.range(1, 40), d.size() - a);
    if (how == 0) d.resize(a); else for (size_t x = a; x < a + n; x++) d[x] = how == 1 ? 0 : (char)r.u(256);
    spill(ins[k], d);
    c.desc += " damage " + std::to_string(how) + " at " + std::to_string(a) + "+" + std::to_string(n);
    Run i = run("VF_INFO", ins);
    Run q = run("VF_MERGE", args(ins, out));
    Items want;
    S err;
    std::vector<S> missing;
    for (auto& p : ins) { Items v = contents(p, err, &missing); want.insert(want.end(), v.begin(), v.end()); }
    if (err.size() || missing.size()) {
      mustFail(i, "damaged input (info)");
      mustFail(q, "damaged input");
    } else if (q.rc == 0) {
      S e;
      Items got = contents(out, e);
      S s = e.empty() ? compare(want, got) : e;
      VF_CHECK(s.empty(), "unreported:damaged input", "exit status 0, but the output " << s << ": " << tail(q));
      vf::count("damage_survived");
    } else vf::count("failures_reported");
  } else {
    // wrong usage
    std::vector<S> a = args(ins, out);
    switch (r.u(4)) {
    case 0: a.push_back("--nonsense"); break;
    case 1: a.push_back("-t"); a.push_back("many"); break;
    case 2: a.resize(a.size() - 2); break;  // no output
    default: a.push_back("-g"); a.push_back("maybe");
    }
    mustFail(run(tool, a), "wrong usage");
  }
  vf::nontrivial(vf::Hash().add(c.desc).h);
}
}  // namespace

void vf_case(vf::Ctx& c) {
  switch (c.idx % 8) {
  case 0: case 1: case 2: merge(c); break;
  case 3: case 4: mip(c); break;
  case 5: info(c); break;
  case 6: if (c.idx % 16 == 6) sample(c); else info(c); break;
  default: faults(c);
  }
}

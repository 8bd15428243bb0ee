// P24: name patterns select exactly the names the rules select; file sequences expand exactly.
#include "pats.h"
#include <Field3D/FileSequence.h>
#include <Field3D/PatternMatch.h>
#include <sys/stat.h>
using namespace gen;
using namespace pats;

const char* vf_id() { return "P24"; }
void vf_init() { initIO(); Msg::setVerbosity(0); vf::setCaseTimeout(60); }

namespace {
void patterns(vf::Ctx& c) {
  Rng& r = c.rng;
  const char* al = r.chance(0.5) ? "ab_" : "abcxyz_.:0/- ^*";
  for (int a = 0; a < 60; a++) {
    S name = word(r, al, 6), attr = word(r, al, 6);
    std::vector<S> ps, subj;
    subj.push_back(name + ":" + attr); subj.push_back(attr); subj.push_back(attr + "x");
    int n = r.chance(0.1) ? 0 : r.range(1, 4);
    S joined;
    for (int k = 0; k < n; k++) {
      S p = r.chance(0.05) ? S() : rndPattern(r, subj);
      ps.push_back(p);
      joined += (k || r.chance(0.1) ? S(1 + r.u(2), ' ') : S()) + p;
    }
    std::ostringstream d;
    d << "name '" << name << "' attribute '" << attr << "' patterns";
    for (auto& p : ps) d << " '" << p << "'";
    c.desc = d.str();
    // the text form is split at blanks
    std::vector<S> words;
    for (size_t i = 0; i < joined.size();) { size_t e = joined.find(' ', i); if (e == S::npos) e = joined.size(); if (e > i) words.push_back(joined.substr(i, e - i)); i = e + 1; }
    VF_CHECK(split(joined) == words, "split", "'" << joined << "' is split into " << split(joined).size() << " words, not " << words.size());
    S seps = word(r, ",;: ab", 3);
    if (seps.size()) {
      std::vector<S> w2; S cur;
      for (char x : joined) { if (seps.find(x) != S::npos) { if (cur.size()) w2.push_back(cur); cur.clear(); } else cur += x; }
      if (cur.size()) w2.push_back(cur);
      VF_CHECK(split(joined, seps) == w2, "split", "'" << joined << "' is split wrongly at '" << seps << "'");
    }
    for (int fl = 0; fl < 2; fl++) {
      MatchFlags f = fl ? MatchEmptyPattern : MatchNoFlags;
      bool full = selects(name, attr, true, ps, fl), half = selects(name, attr, false, ps, fl);
      bool fullT = selects(name, attr, true, words, fl), halfT = selects(name, attr, false, words, fl);
      EmptyField<float>::Ptr e(new EmptyField<float>);
      e->name = name; e->attribute = attr;
      VF_CHECK(match(name, attr, ps, f) == full, "match", "match(name, attribute, list) is " << !full);
      VF_CHECK(match(e.get(), ps, f) == full, "match-field", "match(field, list) is " << !full);
      VF_CHECK(match(attr, ps, f) == half, "match-attribute", "match(attribute, list) is " << !half);
      VF_CHECK(match(name, attr, joined, f) == fullT, "match-text", "match(name, attribute, '" << joined << "') is " << !fullT);
      VF_CHECK(match(e.get(), joined, f) == fullT, "match-text", "match(field, '" << joined << "') is " << !fullT);
      VF_CHECK(match(attr, joined, f) == halfT, "match-text", "match(attribute, '" << joined << "') is " << !halfT);
      if (fl) VF_CHECK(match(name, attr, ps) == full && match(attr, ps) == half, "match-default", "the default flags don't match the empty pattern list");
      vf::count(full ? "selected" : "not_selected");
    }
    vf::nontrivial(vf::Hash().add(c.desc).h);
  }
}
bool digit(char c) { return c >= '0' && c <= '9'; }
// <base><start>-<end><mark><rest>, exactly one mark
std::vector<S> expand(const S& s) {
  std::vector<S> out;
  size_t m = S::npos, n = 0;
  for (size_t k = 0; k < s.size(); k++) if (s[k] == '#' || s[k] == '@') { m = k; n++; }
  if (n != 1) return out;
  size_t e = m; while (e > 0 && digit(s[e - 1])) e--;
  if (e == m || e == 0 || s[e - 1] != '-') return out;
  size_t b = e - 1; while (b > 0 && digit(s[b - 1])) b--;
  if (b == e - 1) return out;
  S first = s.substr(b, e - 1 - b), last = s.substr(e, m - e);
  auto num = [](S x) -> long long { while (x.size() > 1 && x[0] == '0') x.erase(0, 1); return x.size() > 10 ? 1ll << 40 : atoll(x.c_str()); };
  long long i = num(first), l = num(last);
  if (i > 2147483647ll || l > 2147483647ll) return out;
  for (; i <= l; i++) out.push_back(s.substr(0, b) + std::to_string(i) + s.substr(m + 1));
  return out;
}
S number(Rng& r, long long v) {
  S s = std::to_string(v);
  if (r.chance(0.2)) s = S(r.u(4), '0') + s;
  return s;
}
void sequences(vf::Ctx& c) {
  Rng& r = c.rng;
  for (int a = 0; a < 60; a++) {
    S s;
    if (r.chance(0.6)) {
      long long b = r.chance(0.2) ? 2147483647ll - r.u(6) : r.chance(0.1) ? (long long)r.u(1ull << 31) : r.u(12), e = b + r.range(-2, 20);
      if (b > 2000000000ll && r.chance(0.6)) e = std::min(e, 2147483647ll);
      s = word(r, "ab./_-1", 4) + number(r, b) + "-" + number(r, std::max(0ll, e)) + (r.chance(0.5) ? "#" : "@") + (r.chance(0.6) ? ".f3d" : word(r, "ab.1-", 4));
      if (r.chance(0.2)) s.erase(r.u(s.size()), 1);
      if (r.chance(0.2)) s.insert(r.u(s.size() + 1), 1, "0-#@a9."[r.u(7)]);
      if (r.chance(0.03)) s.insert(r.u(s.size()), S(r.range(5, 30), '9'));
    } else s = word(r, "01-#@a", 8);
    // keep the expansion small
    long total = 0;
    { S t = s; size_t m = t.find_first_of("#@"); if (m != S::npos) { size_t e = m; while (e > 0 && digit(t[e - 1])) e--; S last = t.substr(e, m - e); while (last.size() > 1 && last[0] == '0') last.erase(0, 1);
      if (e > 0) { size_t b = e - 1; while (b > 0 && digit(t[b - 1])) b--; S first = t.substr(b, e - 1 - b); while (first.size() > 1 && first[0] == '0') first.erase(0, 1);
        if (last.size() <= 10 && first.size() <= 10) total = atoll(last.c_str()) - atoll(first.c_str()); if (atoll(last.c_str()) > 2147483647ll) total = 0; if (first.size() > 10) total = 0; } } }
    if (total > 5000) { vf::count("too_long"); continue; }
    c.desc = "sequence '" + s + "'";
    struct stat st;
    std::vector<S> want = expand(s);
    if (s.size() && stat(s.c_str(), &st) == 0) want.assign(1, s);
    FileSequence q(s);
    VF_CHECK(q.size() == want.size() && q.filenames() == want, "sequence", "expands to " << q.size() << " names" << (q.size() ? " starting with '" + q.filename(0) + "'" : S()) << ", not " << want.size() << (want.size() ? " starting with '" + want[0] + "'" : S()));
    for (size_t k = 0; k < want.size(); k++) VF_CHECK(q.filename(k) == want[k], "sequence", "name " << k << " is '" << q.filename(k) << "', not '" << want[k] << "'");
    vf::count(want.empty() ? "rejected" : "expanded");
    vf::count("names", want.size());
    vf::nontrivial(vf::Hash().add(c.desc).h);
  }
  // a file of that name is a sequence of its own
  S leaf = word(r, "ab", 3) + "1-3#" + word(r, "ab", 2) + ".f3d", p = c.path(leaf);
  c.desc = "existing file " + leaf;
  fclose(fopen(p.c_str(), "wb"));
  FileSequence q(p);
  VF_CHECK(q.size() == 1 && q.filename(0) == p, "existing", "an existing file is expanded to " << q.size() << " names");
  unlink(p.c_str());
  VF_CHECK(FileSequence(p).size() == 3 && FileSequence().size() == 0, "existing", "a missing file isn't expanded");
}
}  // namespace

void vf_case(vf::Ctx& c) {
  if (c.rng.chance(0.6)) patterns(c); else sequences(c);
}

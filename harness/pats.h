// Name patterns as documented: the selection model shared by the harnesses.
#pragma once
#include "gen.h"
namespace pats {
using vf::Rng;
typedef std::string S;
// ---- glob: * ? [set] [!set], no escapes; an unclosed [ is itself
// returns the index after the set, or npos if it isn't closed; 'hit' tells whether ch belongs to it
size_t bracket(const S& p, size_t i, unsigned char ch, bool& hit) {
  size_t k = i + 1;
  bool neg = k < p.size() && (p[k] == '!' || p[k] == '^');
  if (neg) k++;
  bool any = false, first = true;
  while (true) {
    if (k >= p.size()) return S::npos;
    if (p[k] == ']' && !first) break;
    first = false;
    unsigned char lo = p[k++], hi = lo;
    if (k + 1 < p.size() && p[k] == '-' && p[k + 1] != ']') { hi = p[k + 1]; k += 2; }
    if (lo <= ch && ch <= hi) any = true;
  }
  hit = any != neg;
  return k + 1;
}
bool glob(const S& p, size_t i, const S& s, size_t j) {
  while (i < p.size()) {
    if (p[i] == '*') {
      for (size_t k = j; k <= s.size(); k++) if (glob(p, i + 1, s, k)) return true;
      return false;
    }
    if (j >= s.size()) return false;
    if (p[i] == '?') { i++; j++; continue; }
    if (p[i] == '[') {
      bool hit = false;
      size_t e = bracket(p, i, s[j], hit);
      if (e != S::npos) { if (!hit) return false; i = e; j++; continue; }
    }
    if (p[i] != s[j]) return false;
    i++; j++;
  }
  return j == s.size();
}
bool selects(const S& name, const S& attr, bool haveName, const std::vector<S>& ps, bool emptyMatches) {
  if (ps.empty()) return emptyMatches;
  bool in = false;
  for (auto& p : ps) {
    if (p.empty()) continue;
    bool ex = p[0] == '-' || p[0] == '^';
    S q = ex ? p.substr(1) : p, subject = attr;
    size_t c = q.find(':');
    if (c != S::npos) {
      if (haveName) subject = name + ":" + attr;
      else q = q.substr(c + 1);
    }
    if (!glob(q, 0, subject, 0)) continue;
    if (ex) return false;
    in = true;
  }
  return in;
}
S word(Rng& r, const char* al, int n) {
  S s; int k = r.u(n + 1);
  for (int a = 0; a < k; a++) s += al[r.u(strlen(al))];
  return s;
}
S rndPattern(Rng& r, const std::vector<S>& subjects) {
  S p;
  if (r.chance(0.7)) {
    // start from a subject and blur it
    p = r.pick(subjects);
    int n = r.u(4);
    for (int a = 0; a < n && p.size(); a++) {
      size_t i = r.u(p.size());
      switch (r.u(6)) {
      case 0: p[i] = '?'; break;
      case 1: p.replace(i, 1 + r.u(p.size() - i), "*"); break;
      case 2: p.insert(i, "*"); break;
      case 3: { S b = "["; if (r.chance(0.3)) b += r.chance(0.5) ? "!" : "^"; if (r.chance(0.5)) b += S(1, p[i]); if (r.chance(0.5)) { b += "a-"; b += (char)('a' + r.u(6)); } b += word(r, "abc_", 2); if (b.back() == '[' || b.back() == '!' || b.back() == '^') b += "a"; b += "]"; p.replace(i, 1, b); break; }
      case 4: p.insert(i, word(r, "ab", 1)); break;
      default: p.erase(i, 1);
      }
    }
  } else p = word(r, "ab_:*?.", 6);
  if (r.chance(0.3)) p = (r.chance(0.5) ? "-" : "^") + p;
  return p;
}
}  // namespace pats

// Monitoring framework shared by every harness.
//
// A harness defines vf_id(), vf_case(Ctx&) and optionally vf_finish(). vf_main.cpp drives
// it: case number + seed fully determine the workload (thread schedules excepted).
// Everything the monitors observe is reported on stdout in lines starting with "@@".
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

namespace vf {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
  // uniform in [0,n)
  uint64_t u(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)u((uint64_t)((int64_t)b - a + 1)); }
  double f01() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double a, double b) { return a + (b - a) * f01(); }
  bool chance(double p) { return f01() < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[u(v.size())]; }
};

struct Hash {
  uint64_t h = 1469598103934665603ull;
  Hash& bytes(const void* p, size_t n) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return *this;
  }
  Hash& add(uint64_t v) { return bytes(&v, sizeof v); }
  Hash& add(const std::string& s) { add((uint64_t)s.size()); return bytes(s.data(), s.size()); }
};

struct Abort {};  // thrown to end a case after a violation

struct Ctx {
  uint64_t seed;
  long idx;
  bool thorough;
  Rng rng;
  std::string tmp;          // private scratch directory of this process
  std::string desc;         // what the case is, for reports and samples
  Ctx(uint64_t s, long i, bool th, const std::string& t)
      : seed(s), idx(i), thorough(th), rng(mix(s) ^ mix((uint64_t)i * 2654435761u + 17)), tmp(t) {}
  std::string path(const std::string& leaf) const { return tmp + "/" + leaf; }
};

extern Ctx* g_ctx;

void fail(const std::string& key, const std::string& msg);     // record a violation, throw Abort
void failSoft(const std::string& key, const std::string& msg); // record, continue
void count(const char* name, uint64_t n = 1);
void voxels(uint64_t n);                                      // counts compared voxels without synchronising threads
void seen(const char* name, uint64_t hash);                    // distinct-set membership
void nontrivial(uint64_t hash);                                // seen("nontrivial", hash)
void sample(const std::string& s);
void setCaseTimeout(int seconds);

#define VF_CHECK(cond, key, msg)                                       \
  do {                                                                 \
    vf::count("checks");                                               \
    if (!(cond)) {                                                     \
      std::ostringstream vf_os;                                        \
      vf_os << msg;                                                    \
      vf::fail(key, vf_os.str());                                      \
    }                                                                  \
  } while (0)

template <class T>
inline bool bitEq(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }

}  // namespace vf

// provided by each harness
const char* vf_id();
void vf_init();
void vf_case(vf::Ctx& c);

#include "vf.h"
#include <csignal>
#include <exception>
#include <atomic>
#include <mutex>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unordered_set>

namespace vf {
Ctx* g_ctx = nullptr;
static std::mutex g_mu;
static std::map<std::string, uint64_t> g_counts;
static std::map<std::string, std::unordered_set<uint64_t>> g_seen;
static std::vector<std::string> g_samples;
static int g_timeout = 60;
static long g_cur = -1;
static int g_out = 1;

static void emit(const std::string& s) {
  std::string line = "\n@@" + s + "\n";
  size_t o = 0;
  while (o < line.size()) {
    ssize_t n = ::write(g_out, line.data() + o, line.size() - o);
    if (n <= 0) break;
    o += (size_t)n;
  }
}
static std::string esc(std::string s) {
  for (auto& c : s) if (c == '\n' || c == '\t' || c == '\r') c = ' ';
  if (s.size() > 900) s = s.substr(0, 900) + "...";
  return s;
}
void failSoft(const std::string& key, const std::string& msg) {
  emit("VIOL\t" + std::to_string(g_cur) + "\t" + esc(key) + "\t" +
       esc((g_ctx ? "[" + g_ctx->desc + "] " : std::string()) + msg));
}
void fail(const std::string& key, const std::string& msg) {
  failSoft(key, msg);
  throw Abort();
}
void count(const char* name, uint64_t n) {
  std::lock_guard<std::mutex> l(g_mu);
  g_counts[name] += n;
}
void seen(const char* name, uint64_t h) {
  std::lock_guard<std::mutex> l(g_mu);
  auto& s = g_seen[name];
  if (s.size() < 200000) s.insert(h);
}
static std::atomic<uint64_t> g_voxels(0);
void voxels(uint64_t n) { g_voxels.fetch_add(n, std::memory_order_relaxed); }
void nontrivial(uint64_t h) { seen("nontrivial", h); }
void sample(const std::string& s) {
  std::lock_guard<std::mutex> l(g_mu);
  if (g_samples.size() < 3) g_samples.push_back(s);
}
void setCaseTimeout(int s) {
  static double scale = getenv("VF_TIMEOUT_SCALE") ? atof(getenv("VF_TIMEOUT_SCALE")) : 1.0;
  g_timeout = s;
  if (g_cur >= 0) alarm((unsigned)(s * scale));
}
static void onAlarm(int) {
  char buf[96];
  int n = snprintf(buf, sizeof buf, "\n@@HANG\t%ld\n", g_cur);
  if (::write(g_out, buf, n)) {}
  _exit(97);
}
}  // namespace vf

using namespace vf;

int main(int argc, char** argv) {
  uint64_t seed = 1;
  long start = 0, step = 1, count_ = 1000000000, only = -1;
  double limit = 1e9;
  bool thorough = false;
  std::string tmp = "/tmp";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--seed") seed = std::stoull(nx());
    else if (a == "--start") start = std::stol(nx());
    else if (a == "--step") step = std::stol(nx());
    else if (a == "--count") count_ = std::stol(nx());
    else if (a == "--only") only = std::stol(nx());
    else if (a == "--limit") limit = std::stod(nx());
    else if (a == "--tmp") tmp = nx();
    else if (a == "--thorough") thorough = true;
  }
  // keep a private copy of stdout for reports; library chatter goes to stderr
  g_out = dup(1);
  dup2(2, 1);
  signal(SIGALRM, onAlarm);
  signal(SIGPIPE, SIG_IGN);
  vf_init();
  struct timespec t0;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  int dflt = g_timeout;
  for (long k = 0;; k++) {
    long idx = only >= 0 ? only : start + k * step;
    if (only >= 0 ? k > 0 : idx >= count_) break;
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > limit) break;
    Ctx c(seed, idx, thorough, tmp);
    g_ctx = &c;
    g_cur = idx;
    emit("START\t" + std::to_string(idx));
    setCaseTimeout(dflt);
    try {
      vf_case(c);
    } catch (Abort&) {
      // violation already reported
    } catch (std::exception& e) {
      failSoft("uncaught-exception", std::string("exception escaped: ") + e.what());
    } catch (...) {
      failSoft("uncaught-exception", "unknown exception escaped");
    }
    alarm(0);
    count("cases");
    if (k < 3) sample(c.desc);
    g_ctx = nullptr;
  }
  g_cur = -1;
  if (g_voxels) g_counts["voxels_compared"] = g_voxels;
  for (auto& p : g_counts) emit("COUNT\t" + p.first + "\t" + std::to_string(p.second));
  for (auto& p : g_seen) {
    std::string line = "SEEN\t" + p.first;
    size_t n = 0;
    char b[24];
    for (auto h : p.second) {
      snprintf(b, sizeof b, "\t%llx", (unsigned long long)h);
      line += b;
      if (++n % 2000 == 0) { emit(line); line = "SEEN\t" + p.first; }
    }
    emit(line);
  }
  for (auto& s : g_samples) emit("SAMPLE\t" + esc(s));
  emit("DONE");
  fflush(stdout);
  // skip global destructors: not a monitored behaviour of any property
  _exit(0);
}

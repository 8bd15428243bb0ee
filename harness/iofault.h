// Faults in the calls that write to files under one directory, and a log of what reaches them.
#pragma once
#include "vf.h"
#include <atomic>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <mutex>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace iof {
enum Mode { Off, Record, FailFrom, FailOnce, Short, ShortThenFail, FailTruncate, FailClose };
struct Rec { off_t off; std::string bytes; off_t trunc; };  // trunc >= 0: file set to that length
static std::atomic<int> g_mode(Off);
static std::string g_path;      // the one file that is watched
static dev_t g_dev; static ino_t g_ino; static bool g_known;
static std::atomic<long> g_n(0), g_at(0), g_hits(0);
static int g_err = ENOSPC;
static std::vector<Rec> g_log;
static std::recursive_mutex g_mx;

inline bool watched(int fd) {
  if (g_mode.load(std::memory_order_relaxed) == Off || fd <= 2) return false;
  struct stat a, b;
  if (fstat(fd, &a) || !S_ISREG(a.st_mode)) return false;
  if (stat(g_path.c_str(), &b)) return false;
  return a.st_dev == b.st_dev && a.st_ino == b.st_ino;
}
inline void start(Mode m, const std::string& path, long at = 0, int err = ENOSPC) {
  g_path = path; g_n = 0; g_at = at; g_hits = 0; g_err = err; g_log.clear();
  g_mode = m;
}
inline void stop() { g_mode = Off; }
// decides one call writing n bytes: returns bytes to let through, or -1 to fail
inline ssize_t decide(size_t n) {
  long k = g_n.fetch_add(1);
  switch (g_mode.load()) {
  case FailFrom: if (k >= g_at) { g_hits++; return -1; } break;
  case FailOnce: if (k == g_at) { g_hits++; return -1; } break;
  case Short: { size_t m = 1 + (k * 2654435761u >> 7) % 97; if (m < n) { g_hits++; return m; } break; }
  case ShortThenFail: if (k == g_at && n > 1) { g_hits++; return n / 2; } if (k > g_at) { g_hits++; return -1; } break;
  default: break;
  }
  return n;
}
// the data that wasn't on disk when the file is closed is lost, and the close says so
inline bool failsClose(int fd) {
  if (g_mode.load(std::memory_order_relaxed) != FailClose || !watched(fd)) return false;
  int fl = fcntl(fd, F_GETFL);
  if (fl == -1 || (fl & O_ACCMODE) == O_RDONLY) return false;
  struct stat a;
  if (!fstat(fd, &a)) syscall(SYS_ftruncate, fd, a.st_size > g_at ? a.st_size - g_at.load() : 0);
  g_hits++;
  return true;
}
inline void log(off_t off, const void* p, size_t n) {
  if (g_mode.load() != Record) return;
  std::lock_guard<std::recursive_mutex> l(g_mx);
  g_log.push_back(Rec{off, std::string((const char*)p, n), -1});
}
}  // namespace iof

extern "C" ssize_t write(int fd, const void* p, size_t n) {
  if (iof::watched(fd)) {
    ssize_t m = iof::decide(n);
    if (m < 0) { errno = iof::g_err; return -1; }
    off_t o = lseek(fd, 0, SEEK_CUR);
    ssize_t r = syscall(SYS_write, fd, p, (size_t)m);
    if (r > 0) iof::log(o, p, r);
    return r;
  }
  return syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
  if (iof::watched(fd)) {
    std::string all;
    for (int i = 0; i < c; i++) all.append((const char*)v[i].iov_base, v[i].iov_len);
    return write(fd, all.data(), all.size());
  }
  return syscall(SYS_writev, fd, v, c);
}
extern "C" ssize_t pwrite64(int fd, const void* p, size_t n, off64_t o) {
  if (iof::watched(fd)) {
    ssize_t m = iof::decide(n);
    if (m < 0) { errno = iof::g_err; return -1; }
    ssize_t r = syscall(SYS_pwrite64, fd, p, (size_t)m, o);
    if (r > 0) iof::log(o, p, r);
    return r;
  }
  return syscall(SYS_pwrite64, fd, p, n, o);
}
extern "C" ssize_t pwrite(int fd, const void* p, size_t n, off_t o) { return pwrite64(fd, p, n, o); }
extern "C" int ftruncate64(int fd, off64_t len) {
  if (iof::watched(fd)) {
    if (iof::g_mode.load() == iof::FailTruncate) { iof::g_hits++; errno = iof::g_err; return -1; }
    if (iof::g_mode.load() == iof::Record) {
      std::lock_guard<std::recursive_mutex> l(iof::g_mx);
      iof::g_log.push_back(iof::Rec{0, std::string(), (off_t)len});
    }
  }
  return (int)syscall(SYS_ftruncate, fd, len);
}
extern "C" int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }
extern "C" int close(int fd) {
  bool f = iof::failsClose(fd);
  int r = (int)syscall(SYS_close, fd);
  if (!f) return r;
  errno = iof::g_err;
  return -1;
}
extern "C" int fclose(FILE* p) {
  static int (*real)(FILE*) = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
  bool f = p && iof::failsClose(fileno(p));
  int r = real(p);
  if (!f) return r;
  errno = iof::g_err;
  return EOF;
}

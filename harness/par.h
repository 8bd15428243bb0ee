// Threads for concurrency harnesses: start together, random delays around lock operations
// (link with -Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock), an order log of the
// lock acquisitions, and error capture that adds no synchronisation unless something failed.
#pragma once
#include "vf.h"
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <thread>
#include <unistd.h>

extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*);
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t*);

namespace par {
enum { LOG = 1 << 14 };
static std::atomic<unsigned> g_ticket(0);
static std::atomic<unsigned char> g_log[LOG];
static std::atomic<int> g_delay(0);   // 0 none; larger = more frequent and longer
static std::atomic<long> g_delays(0), g_locks(0);
struct TL { int id; uint64_t s; };
static thread_local TL t_me = {-1, 0};
static std::atomic<int> g_all(0), g_next(0);  // g_all: threads the library starts itself take part, too
static std::atomic<unsigned long long> g_seed(0);
inline bool me() {
  if (t_me.id >= 0) return true;
  if (!g_all.load(std::memory_order_relaxed)) return false;
  t_me.id = g_next.fetch_add(1, std::memory_order_relaxed) & 127;
  t_me.s = vf::mix(g_seed.load(std::memory_order_relaxed) + t_me.id * 977);
  return true;
}

inline void pause(bool after) {
  if (!me()) return;
  int d = g_delay.load(std::memory_order_relaxed);
  if (!d) return;
  t_me.s = vf::mix(t_me.s + 0x9e37);
  uint64_t x = t_me.s % 1000;
  if (x < (uint64_t)d * 8) { usleep((useconds_t)(1 + (t_me.s >> 20) % (after ? 60 : 150))); g_delays.fetch_add(1, std::memory_order_relaxed); }
  else if (x < (uint64_t)d * 60) sched_yield();
}
inline void mark() {
  if (!me()) return;
  unsigned k = g_ticket.fetch_add(1, std::memory_order_relaxed);
  if (k < LOG) g_log[k].store((unsigned char)t_me.id, std::memory_order_relaxed);
}

struct Err {
  bool bad = false;
  std::string key, msg;
  long checks = 0, ops = 0;
  bool set(const std::string& k, const std::string& m) { if (!bad) { bad = true; key = k; msg = m; } return false; }
};
#define PAR_CHECK(e, cond, k, m)                                                  \
  do {                                                                            \
    (e).checks++;                                                                 \
    if (!(cond)) { std::ostringstream po; po << m; (e).set(k, po.str()); throw vf::Abort(); } \
  } while (0)

// reports the lock order seen since g_ticket was reset
inline void flush() {
  unsigned m = std::min<unsigned>(g_ticket, LOG);
  vf::Hash h;
  int last = -1;
  long sw = 0;
  for (unsigned i = 0; i < m; i++) { int v = g_log[i]; h.add(v); if (v != last) { sw++; last = v; } }
  vf::count("lock_events", g_ticket);
  vf::count("injected_delays", g_delays.exchange(0));
  vf::count("thread_switches_at_locks", sw);
  if (m) vf::seen("interleavings", h.h);
}

// while it lives, threads that the library starts are delayed and their lock order is recorded
struct Workers {
  Workers(vf::Ctx& c, int delay) {
    g_ticket = 0;
    g_next = 0;
    g_seed = c.rng.next();
    g_delay = delay;
    g_all = 1;
  }
  ~Workers() {
    g_delay = 0;
    g_all = 0;
    t_me.id = -1;
    vf::count("worker_threads", g_next);
    flush();
  }
};

// runs fn(thread number, rng, err) on n threads; reports the first error after joining
template <class Fn> void run(vf::Ctx& c, int n, int delay, Fn fn) {
  std::vector<Err> err(n);
  std::vector<std::thread> th;
  std::atomic<int> ready(0);
  std::atomic<bool> go(false);
  g_ticket = 0;
  g_delay = delay;
  uint64_t seed = c.rng.next();
  for (int t = 0; t < n; t++)
    th.emplace_back([&, t] {
      t_me.id = t;
      t_me.s = vf::mix(seed + t * 977);
      vf::Rng r(seed ^ vf::mix(t + 1));
      ready.fetch_add(1, std::memory_order_relaxed);
      while (!go.load(std::memory_order_relaxed)) sched_yield();
      try { fn(t, r, err[t]); }
      catch (vf::Abort&) {}
      catch (std::exception& x) { err[t].set("thread-exception", std::string("exception escaped: ") + x.what()); }
      catch (...) { err[t].set("thread-exception", "unknown exception escaped in a thread"); }
      t_me.id = -1;
    });
  while (ready.load(std::memory_order_relaxed) < n) sched_yield();
  go.store(true, std::memory_order_relaxed);
  for (auto& t : th) t.join();
  g_delay = 0;
  long k = 0, ops = 0;
  for (auto& e : err) { k += e.checks; ops += e.ops; }
  vf::count("checks", k);
  vf::count("thread_ops", ops);
  vf::count("threads", n);
  flush();
  for (auto& e : err) if (e.bad) vf::fail(e.key, e.msg);
}
}  // namespace par

extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  par::pause(false);
  int r = __real_pthread_mutex_lock(m);
  par::mark();
  return r;
}
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  int r = __real_pthread_mutex_unlock(m);
  par::pause(true);
  return r;
}

// P20: shared fields and caches survive any use by many threads.
#include "gen.h"
#include "par.h"
#include <memory>
using namespace gen;

const char* vf_id() { return "P20"; }
void vf_init() { initIO(); Msg::setVerbosity(0); vf::setCaseTimeout(60); }

namespace {
// An object that knows whether it is alive and how often it was destroyed
struct Canary : public RefBase {
  typedef boost::intrusive_ptr<Canary> Ptr;
  typedef Canary class_type;
  DEFINE_FIELD_RTTI_CONCRETE_CLASS;
  static const char* staticClassName() { return "Canary"; }
  static const char* staticClassType() { return "Canary"; }
  typedef RefBase base;
  std::atomic<int>* died;
  long payload;
  Canary(std::atomic<int>* d, long p) : died(d), payload(p) {}
  ~Canary() { died->fetch_add(1, std::memory_order_relaxed); payload = -1; }
};

// copies, casts, moves and drops of shared pointers; the last owner may be any thread
void lifetimes(Ctx& c) {
  Rng& r = c.rng;
  int n = r.range(2, 8), k = r.range(1, 60), delay = (int)r.u(3) * 2;
  bool sync = r.chance(0.5);
  std::vector<std::atomic<int> > died(k);
  for (auto& d : died) d = 0;
  std::vector<std::vector<Canary::Ptr> > own(n);
  std::vector<Canary::Ptr> keep;
  {
    std::vector<Canary::Ptr> o;
    for (int i = 0; i < k; i++) o.push_back(new Canary(&died[i], i));
    for (int t = 0; t < n; t++) own[t] = o;
    if (r.chance(0.2)) keep = o;
  }
  std::ostringstream log;
  log << "lifetimes: " << n << " threads, " << k << " objects, kept " << keep.size() << " sync" << sync << " delay" << delay;
  c.desc = log.str();
  std::vector<std::atomic<int> > gate(k);
  for (auto& g : gate) g = 0;
  par::run(c, n, delay, [&](int t, Rng& tr, par::Err& e) {
    std::vector<Canary::Ptr>& mine = own[t];
    for (int i = 0; i < k; i++) {
      // meet at each object, so that the drops happen together
      if (sync) { gate[i].fetch_add(1, std::memory_order_relaxed); for (int q = 0; q < 20000 && gate[i].load(std::memory_order_relaxed) < n; q++) if (q > 200) sched_yield(); }
      Canary::Ptr p = mine[i];
      PAR_CHECK(e, p->payload == i, "payload", "a live object reads " << p->payload << " expected " << i);
      int m = (int)tr.u(4);
      for (int q = 0; q < m; q++) {
        RefBase::Ptr b = p;
        Canary::Ptr x = field_dynamic_cast<Canary>(b);
        PAR_CHECK(e, x.get() == p.get(), "cast", "cast returned another object");
        PAR_CHECK(e, !p->weakPtr().expired(), "expired", "a live object's weak pointer is expired");
        Canary::Ptr y = x;
        x.swap(y);
      }
      PAR_CHECK(e, died[i].load(std::memory_order_relaxed) == 0, "early", "object destroyed while still referenced");
      p = NULL;
      mine[i] = NULL;
      e.ops++;
    }
  });
  for (int i = 0; i < k; i++) {
    int want = keep.size() ? 0 : 1;
    VF_CHECK(died[i] == want, "destroy-count", "object " << i << " was destroyed " << died[i] << " times, expected " << want);
  }
  for (auto& p : keep) VF_CHECK(p->refcnt() == 1, "count", "reference count is " << p->refcnt() << " with one reference left");
  keep.clear();
  for (int i = 0; i < k; i++) VF_CHECK(died[i] == 1, "destroy-count", "object " << i << " was destroyed " << died[i] << " times in the end");
  vf::count("objects", k);
}

template <class T> std::string layerName(int i) { return std::string("p/") + TT<T>::nm() + "_l" + std::to_string(i); }

// the field cache: look up, insert, replace and release by many threads
template <class T> void cacheCase(Ctx& c) {
  typedef FieldCache<T> FC;
  typedef DenseField<T> DF;
  Rng& r = c.rng;
  int n = r.range(2, 8), k = r.range(1, 4), delay = (int)r.u(3) * 3, ops = r.range(20, 200);
  std::ostringstream log;
  log << "cache<" << TT<T>::nm() << ">: " << n << " threads, " << k << " keys, delay" << delay << " ops" << ops;
  c.desc = log.str();
  std::vector<std::string> file(k), lay(k);
  for (int i = 0; i < k; i++) { file[i] = "/f" + std::to_string(c.idx) + "_" + std::to_string(i); lay[i] = layerName<T>(i); }
  std::vector<std::vector<typename Field<T>::Ptr> > held(n);
  par::run(c, n, delay, [&](int t, Rng& tr, par::Err& e) {
    std::vector<typename Field<T>::Ptr>& mine = held[t];
    for (int o = 0; o < ops; o++) {
      e.ops++;
      int i = (int)tr.u(k);
      switch (tr.u(6)) {
        case 0: case 1: case 2: {
          typename Field<T>::Ptr f = FC::singleton().getCachedField(file[i], lay[i]);
          if (f) {
            PAR_CHECK(e, f->name == lay[i], "wrong-field", "lookup of " << lay[i] << " returned field '" << f->name << "'");
            typename DF::Ptr d = field_dynamic_cast<DF>(f);
            PAR_CHECK(e, d, "wrong-type", "cached field has another type");
            V3i m = d->dataWindow().max;
            PAR_CHECK(e, vf::bitEq(d->value(0, 0, 0), d->value(m.x, m.y, m.z)), "content", "cached field was changed");
            if (tr.chance(0.3)) mine.push_back(f);
          }
          break;
        }
        case 3: {
          typename DF::Ptr d(new DF);
          d->setSize(V3i(2));
          d->clear(TT<T>::vec ? rndVal<T>(tr, ValSmall) : rndVal<T>(tr, ValSmall));
          d->name = lay[i];
          FC::singleton().cacheField(d, file[i], lay[i]);
          if (tr.chance(0.6)) mine.push_back(d);
          break;
        }
        case 4: if (mine.size()) mine.erase(mine.begin() + tr.u(mine.size())); break;
        case 5: if (tr.chance(0.2)) mine.clear(); else FC::singleton().memSize(); break;
      }
    }
  });
  // quiescent: what is looked up is the newest one held, and the memory report adds up
  std::set<const Field<T>*> live;
  for (auto& v : held) for (auto& f : v) live.insert(f.get());
  long long sum = 0;
  for (int i = 0; i < k; i++) {
    typename Field<T>::Ptr f = FC::singleton().getCachedField(file[i], lay[i]);
    if (f) {
      VF_CHECK(live.count(f.get()), "dead-field", "lookup returns a field that nobody holds");
      VF_CHECK(f->name == lay[i], "wrong-field", "lookup of " << lay[i] << " returns " << f->name);
      sum += f->memSize();
    }
    vf::count(f ? "cache_hits_at_end" : "cache_misses_at_end");
  }
  VF_CHECK(FC::singleton().memSize() == sum, "memsize", "memSize() of the cache is " << FC::singleton().memSize() << ", live cached fields use " << sum);
  for (auto& v : held) v.clear();
  for (int i = 0; i < k; i++) VF_CHECK(!FC::singleton().getCachedField(file[i], lay[i]), "dead-field", "lookup returns a field after all were released");
  VF_CHECK(FC::singleton().memSize() == 0, "memsize", "memSize() is " << FC::singleton().memSize() << " with nothing alive");
}

// sequential histories against an exact model of the cache
template <class T> void cacheModel(Ctx& c) {
  typedef FieldCache<T> FC;
  typedef DenseField<T> DF;
  Rng& r = c.rng;
  struct E { std::string key; typename Field<T>::Ptr p; const void* id; int slot; };
  std::map<std::string, const Field<T>*> last;   // newest field cached under a key
  std::vector<typename Field<T>::Ptr> live;
  std::string fs[4] = {"/a" + std::to_string(c.idx), "/a" + std::to_string(c.idx) + "/b", "/c" + std::to_string(c.idx), "rel" + std::to_string(c.idx)};
  std::string ls[3] = {"p/l", "b/p/l", "p/l2"};
  std::ostringstream log;
  log << "model<" << TT<T>::nm() << ">";
  int ops = r.range(5, 60);
  for (int o = 0; o < ops; o++) {
    std::string f = fs[r.u(4)], l = ls[r.u(3)], k = f + "/" + l;
    switch (r.u(3)) {
      case 0: {
        typename Field<T>::Ptr g;
        if (r.chance(0.7) || live.empty()) {
          typename DF::Ptr d(new DF);
          d->setSize(V3i(r.range(1, 5)));
          g = d;
        } else g = live[r.u(live.size())];
        FC::singleton().cacheField(g, f, l);
        last[k] = g.get();
        live.push_back(g);
        log << " +" << k;
        break;
      }
      case 1: if (live.size()) { live.erase(live.begin() + r.u(live.size())); log << " -"; } break;
      case 2: break;
    }
    std::set<const Field<T>*> al;
    for (auto& p : live) al.insert(p.get());
    long long sum = 0;
    for (auto i = last.begin(); i != last.end();) { if (!al.count(i->second)) i = last.erase(i); else { sum += const_cast<Field<T>*>(i->second)->memSize(); ++i; } }
    typename Field<T>::Ptr got = FC::singleton().getCachedField(f, l);
    auto it = last.find(k);
    const Field<T>* want = it == last.end() ? NULL : it->second;
    VF_CHECK(got.get() == want, "model", "lookup of " << k << (got ? " returned a field" : " returned nothing") << ", expected " << (want ? "another field" : "nothing"));
    VF_CHECK(FC::singleton().memSize() == sum, "memsize", "memSize() " << FC::singleton().memSize() << " expected " << sum);
    c.desc = log.str();
  }
  vf::nontrivial(Hash().add(log.str()).h);
}
}  // namespace

void vf_case(Ctx& c) {
  vf::nontrivial(Hash().add(c.rng.s).h);
  switch (c.rng.u(5)) {
    case 0: case 1: lifetimes(c); break;
    case 2: case 3: withType((int)c.rng.u(6), [&](auto z) { cacheCase<decltype(z)>(c); }); break;
    case 4: withType((int)c.rng.u(6), [&](auto z) { cacheModel<decltype(z)>(c); }); break;
  }
}

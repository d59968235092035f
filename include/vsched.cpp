// A controlled scheduler for real pthread code.
//
// The functions of the pthread API the code under test reaches (directly, via
// std:: or boost::) are defined here and so replace libc's for the whole
// process, shared libraries included.  While an exploration runs, exactly one
// managed thread executes at a time; at every synchronization operation the
// explorer picks who goes on.  All schedules with at most `bound` deviations
// (preemptions, timeouts taken early, spurious wake-ups) are enumerated by
// depth-first search with replay.
//
// Code compiled with -fsanitize=thread (and linked without its runtime) also
// reports its memory accesses: accesses to watched regions are checked for
// data races with vector clocks.
//
// Include in exactly one source file of the program; link with -rdynamic -ldl.
#include "vsched.hpp"
#include <atomic>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <unordered_map>
#include "vmc.hpp"

namespace vsched {

enum { MAXT = 32 };
struct Sem {
  std::atomic<int> v{0};
  void wait() {
    while (true) {
      int x = v.load();
      if (x > 0 && v.compare_exchange_strong(x, x - 1)) return;
      if (x <= 0) syscall(SYS_futex, (int*)&v, FUTEX_WAIT_PRIVATE, x, nullptr, nullptr, 0);
    }
  }
  void post() { v.fetch_add(1); syscall(SYS_futex, (int*)&v, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
};
typedef std::vector<uint32_t> VC;
inline void vjoin(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]); }

enum St { RUN, MUTEX, COND, JOIN, SLEEP, DONE };
struct Th {
  int id; pthread_t real; Sem sem; St st = RUN; void* obj = nullptr; void* mtx = nullptr; int target = -1, patience = 0;
  bool timed = false, timedOut = false, spurious = false, yielded = false, detached = false, reaped = false;
  void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
  VC vc;
  bool dirty = true;   // did something visible since its last scheduling point
};
struct Mx { int owner = -1; int count = 0; VC vc; int kind = 0; };
struct Cv { std::vector<int> waiters; VC vc; };

template <typename T> struct Small {   // a vector without allocation
  T d[4 * MAXT]; uint8_t n = 0;
  void push_back(T v) { d[n++] = v; }
  void clear() { n = 0; }
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  T operator[](size_t i) const { return d[i]; }
};
template <typename T> struct Range { const T* b; const T* e; const T* begin() const { return b; } const T* end() const { return e; } };
template <typename T> Range<T> range(const Small<T>& s) { return {s.d, s.d + s.n}; }
struct Point { Small<uint8_t> opt; Small<char> cost; uint8_t chosen; int costBefore; };

struct Shadow { int wt = -1; uint32_t wc = 0; uint32_t r[MAXT] = {}; };
struct Region { uintptr_t b, e; const char* name; std::vector<Shadow> sh; };

struct Sched {
  bool on = false;
  std::vector<Th*> th;
  int cur = 0;
  std::unordered_map<void*, Mx> mx;
  std::unordered_map<void*, Cv> cv;
  std::unordered_map<void*, VC> atom;
  std::vector<Point> points;
  std::vector<int> prefix;
  int bound = 2, used = 0, maxPoints = 20000;
  bool delay = false, spuriousOn = false, timeoutsEarly = true;
  std::string failed, log;
  std::vector<Region> regions;
  std::string race;
  bool logging = false;
};
inline Sched& S() { static Sched* s = new Sched; return *s; }
inline int& selfId() { static thread_local int id = -1; return id; }
inline bool managed() { return S().on && selfId() >= 0; }

#define VS_REAL(name) ((decltype(&::name))real_##name())
#define VS_DEFREAL(name) inline void* real_##name() { static void* p = dlsym(RTLD_NEXT, #name); return p; }
VS_DEFREAL(pthread_create) VS_DEFREAL(pthread_join) VS_DEFREAL(pthread_detach)
VS_DEFREAL(pthread_mutex_lock) VS_DEFREAL(pthread_mutex_trylock) VS_DEFREAL(pthread_mutex_unlock)
VS_DEFREAL(pthread_mutex_timedlock)
VS_DEFREAL(pthread_mutex_init) VS_DEFREAL(pthread_mutex_destroy)
VS_DEFREAL(pthread_cond_destroy) VS_DEFREAL(pthread_cond_init)
VS_DEFREAL(pthread_cond_signal) VS_DEFREAL(pthread_cond_broadcast)
VS_DEFREAL(pthread_cond_wait) VS_DEFREAL(pthread_cond_timedwait) VS_DEFREAL(pthread_cond_clockwait)
VS_DEFREAL(sched_yield) VS_DEFREAL(nanosleep) VS_DEFREAL(clock_nanosleep) VS_DEFREAL(usleep)
VS_DEFREAL(pthread_getschedparam) VS_DEFREAL(pthread_setschedparam)

[[noreturn]] inline void die(int code, const std::string& why) {
  // the schedule so far identifies the failure; write it where the runner looks
  Sched& s = S();
  std::string sc;
  for (auto& p : s.points) { sc += std::to_string(p.chosen); sc += '.'; }
  if (vmc::g().cur) snprintf(vmc::g().cur, vmc::g().curSize, "%s@%s", vmc::g().scen.substr(0, vmc::g().scen.find('@')).c_str(), sc.c_str());
  fprintf(stderr, "%s\nschedule %s\n%s\n", why.c_str(), sc.c_str(), s.log.c_str());
  fflush(nullptr);
  _exit(code);
}

inline void vsAlarmDump() {}

inline bool enabled(Th* t) {
  Sched& s = S();
  switch (t->st) {
    case RUN: return true;
    case MUTEX: { Mx& m = s.mx[t->obj]; return m.owner < 0; }
    case JOIN: return s.th[t->target]->st == DONE;
    default: return false;
  }
}
// A thread in a timed wait or a sleep may go on when its time is up.
inline bool canTimeout(Th* t) { return t->st == SLEEP || (t->st == COND && t->timed); }

inline std::string stateText() {
  Sched& s = S(); std::string o;
  const char* n[] = {"runnable", "waits for a mutex", "waits on a condition", "joins", "sleeps", "done"};
  for (auto t : s.th) o += vmc::fmt("thread %d %s%s; ", t->id, n[t->st], t->timed && t->st == COND ? " (timed)" : "");
  return o;
}

// Picks the next thread; called by the running thread with its own state set.
inline void reschedule(bool yieldPoint = false) {
  Sched& s = S();
  vmc::beat();
  Th* me = s.th[s.cur];
  Point p; p.costBefore = s.used;
  bool meOn = enabled(me) && !yieldPoint;
  Small<Th*> order;
  order.push_back(me);
  for (size_t k = 1; k < s.th.size(); ++k) order.push_back(s.th[(me->id + k) % s.th.size()]);
  // normal options: code = id ; timeout: id + 100 ; spurious: id + 200
  for (Th* t : range(order))
    if (enabled(t) && !(yieldPoint && t == me)) { p.opt.push_back(t->id); p.cost.push_back((meOn && t != me) || ((s.delay || yieldPoint) && !p.cost.empty()) ? 1 : 0); }
  if (p.opt.empty() && yieldPoint && enabled(me)) { p.opt.push_back(me->id); p.cost.push_back(0); }
  bool any = !p.opt.empty();
  // time passes: a timed wait ends by itself after many turns of the others
  if (yieldPoint) for (Th* t : range(order)) if (canTimeout(t)) ++t->patience;
  Th* due = nullptr;
  for (Th* t : range(order)) if (canTimeout(t) && t->patience > 12 && !due) due = t;
  if (due) {
    due->patience = 0;
    p.opt.clear(); p.cost.clear();
    p.opt.push_back(due->id + 100); p.cost.push_back(0);
  }
  else if (!any || s.timeoutsEarly)
    for (Th* t : range(order)) if (canTimeout(t)) { p.opt.push_back(t->id + 100); p.cost.push_back(any || (s.delay && !p.cost.empty()) ? 1 : 0); }
  if (s.spuriousOn && any && !due)
    for (Th* t : range(order)) if (t->st == COND) { p.opt.push_back(t->id + 200); p.cost.push_back(1); }
  if (p.opt.empty()) {
    die(98, "deadlock: " + stateText());
  }
  if ((int)s.points.size() >= s.maxPoints) die(97, "the schedule does not end within the step limit: " + stateText());
  size_t i = s.points.size();
  int c = 0;
  if (i < s.prefix.size()) {
    c = s.prefix[i];
    if (c < 0 || c >= (int)p.opt.size()) { fprintf(stderr, "diverged while replaying %s: choice %d of %zu at point %zu\n", vmc::g().scen.c_str(), c, p.opt.size(), i); _exit(3); }
  }
  p.chosen = c;
  s.used += p.cost[c];
  int o = p.opt[c];
  s.points.push_back(p);
  Th* next = s.th[o % 100];
  if (s.logging) s.log += vmc::fmt("%d ", o);
  if (o >= 200) next->spurious = true;
  else if (o >= 100) next->timedOut = true;
  if (o >= 100) {
    if (next->st == COND) {
      auto& w = s.cv[next->obj].waiters;
      for (size_t k = 0; k < w.size(); ++k) if (w[k] == next->id) { w.erase(w.begin() + k); break; }
      next->st = MUTEX; next->obj = next->mtx;
      if (!enabled(next)) {  // must get its mutex back first: choose again
        reschedule(); return;
      }
    } else next->st = RUN;
  }
  if (next == me) { me->dirty = false; return; }
  s.cur = next->id;
  bool done = me->st == DONE;
  next->sem.post();   // from here on, a finished thread's record may go away
  if (done) return;
  me->sem.wait();
  me->dirty = false;
}

// A point before an operation is only needed if the thread did something
// visible since its last point (everything else commutes).
inline void before() {
  Sched& s = S();
  if (s.regions.empty() || s.th[s.cur]->dirty) reschedule();
}
inline void acquire(Th* me, void* m) {  // me has been scheduled with m free
  Mx& x = S().mx[m];
  x.owner = me->id; x.count = 1;
  vjoin(me->vc, x.vc);
  me->st = RUN; me->obj = nullptr; me->dirty = true;
}
inline void tick(Th* t) { if ((int)t->vc.size() <= t->id) t->vc.resize(t->id + 1); ++t->vc[t->id]; }

inline void lockM(pthread_mutex_t* m) {
  Sched& s = S(); Th* me = s.th[selfId()];
  before();
  Mx& x = s.mx[m];
  if (x.owner == me->id) {
    if (x.kind == PTHREAD_MUTEX_RECURSIVE) { ++x.count; return; }
    die(98, "a thread locks a mutex it already holds");
  }
  if (x.owner >= 0) {
    me->st = MUTEX; me->obj = m;
    reschedule();
  }
  acquire(me, m);
}
inline int unlockM(pthread_mutex_t* m, bool point = true) {
  Sched& s = S(); Th* me = s.th[selfId()];
  Mx& x = s.mx[m];
  if (x.owner != me->id) die(96, "a thread unlocks a mutex it does not hold");
  if (--x.count > 0) return 0;
  x.owner = -1; x.vc = me->vc; tick(me);
  if (point) reschedule();
  return 0;
}
inline int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  Sched& s = S(); Th* me = s.th[selfId()];
  before();
  Mx& x = s.mx[m];
  if (x.owner != me->id) die(96, "a thread waits on a condition without holding its mutex");
  int cnt = x.count;
  x.owner = -1; x.count = 0; x.vc = me->vc; tick(me);
  s.cv[c].waiters.push_back(me->id);
  me->st = COND; me->obj = c; me->mtx = m; me->timed = timed; me->timedOut = me->spurious = false; me->patience = 0;
  reschedule();
  acquire(me, m);
  s.mx[m].count = cnt;
  me->timed = false;
  return me->timedOut ? ETIMEDOUT : 0;
}
inline void wake(pthread_cond_t* c, bool all) {
  Sched& s = S();
  before();
  s.th[s.cur]->dirty = true;
  auto& w = s.cv[c].waiters;
  size_t n = all ? w.size() : std::min<size_t>(1, w.size());
  for (size_t i = 0; i < n; ++i) { Th* t = s.th[w[i]]; t->st = MUTEX; t->obj = t->mtx; }
  w.erase(w.begin(), w.begin() + n);
}

inline void* trampoline(void* a) {
  Th* me = (Th*)a;
  selfId() = me->id;
  me->sem.wait();
  struct End {  // also on pthread_exit
    Th* me;
    ~End() { me->st = DONE; tick(me); selfId() = -1; reschedule(); }
  } end{me};
  return me->fn(me->arg);
}

void point() { if (managed()) reschedule(); }
void yield() { if (managed()) reschedule(true); }

inline int& inHook() { static thread_local int v = 0; return v; }
struct Guard { Guard() { inHook() = 1; } ~Guard() { inHook() = 0; } };
inline void onAccess(const void* addr, int size, bool write, const void* pc, bool atomic = false) {
  if (inHook()) return;
  Guard gd;
  Sched& s = S();
  if (!s.on || selfId() < 0 || s.regions.empty()) return;
  uintptr_t a = (uintptr_t)addr;
  Region* reg = nullptr;
  for (auto& r : s.regions) if (a >= r.b && a < r.e) { reg = &r; break; }
  if (!reg) return;
  const char* name = reg->name;
  Th* me = s.th[selfId()];
  me->dirty = true;
  if ((int)me->vc.size() < MAXT) me->vc.resize(MAXT);
  for (uintptr_t k = a; k < a + size && k < reg->e; ++k) {
    Shadow& sh = reg->sh[k - reg->b];
    bool bad = sh.wt >= 0 && sh.wt != me->id && sh.wc > me->vc[sh.wt];
    int other = sh.wt;
    if (write) for (int t = 0; t < MAXT; ++t) if (t != me->id && sh.r[t] > me->vc[t]) { bad = true; other = t; }
    if (bad && s.race.empty())
      s.race = vmc::fmt("unsynchronized %s of %d bytes at %s+%ld by thread %d, concurrent with thread %d", write ? "write" : "read",
                        size, name, (long)(a - reg->b), me->id, other);
    if (write) { sh.wt = me->id; sh.wc = me->vc[me->id]; }
    else sh.r[me->id] = me->vc[me->id];
  }
}
inline void onAtomic(const void* addr) {
  if (inHook()) return;
  Guard gd;
  Sched& s = S();
  if (!s.on || selfId() < 0) return;
  Th* me = s.th[selfId()];
  me->dirty = true;
  VC& v = s.atom[(void*)addr];
  vjoin(me->vc, v); v = me->vc; tick(me);
}

// Runs body once under the schedule given by prefix; false: replay diverged.
inline void execute(const std::function<void()>& body) {
  Sched& s = S();
  s.points.clear(); s.mx.clear(); s.cv.clear(); s.atom.clear(); s.regions.clear(); s.race.clear(); s.log.clear();
  s.used = 0; s.cur = 0;
  for (auto t : s.th) delete t;
  s.th.clear();
  Th* m = new Th; m->id = 0; m->real = pthread_self(); tick(m);
  s.th.push_back(m);
  selfId() = 0;
  s.on = true;
  body();
  // all threads the body started must have ended: let them run out
  Th* me = s.th[0];
  while (true) {
    bool alive = false;
    for (auto t : s.th) if (t != me && t->st != DONE) alive = true;
    if (!alive) break;
    reschedule(true);
    bool progress = false;
    for (auto t : s.th) if (t != me && (enabled(t) || canTimeout(t))) progress = true;
    alive = false;
    for (auto t : s.th) if (t != me && t->st != DONE) alive = true;
    if (alive && !progress) die(98, "threads are left blocked for ever: " + stateText());
  }
  s.on = false;
  selfId() = -1;
  for (auto t : s.th) if (t != me && !t->reaped) { VS_REAL(pthread_join)(t->real, nullptr); }
}



// Enumerates every schedule of `body` with at most `bound` deviations.
// check() runs after each execution (scheduler off).  The scenario text is
// NAME@choices for replay.
// One CPU is enough, and handing over on one CPU is much faster.
inline void pin() {
  cpu_set_t c; CPU_ZERO(&c);
  if (sched_getaffinity(0, sizeof c, &c)) return;
  std::vector<int> l; for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &c)) l.push_back(i);
  if (l.empty()) return;
  int k = l[vmc::g().shard % l.size()];
  CPU_ZERO(&c); CPU_SET(k, &c); sched_setaffinity(0, sizeof c, &c);
}
Result explore(const std::string& name, int bound, const std::function<void()>& body,
                      const std::function<void()>& check, uint64_t cap) {
  Sched& s = S();
  Result r;
  vmc::G& g = vmc::g();
  static bool pinned = false; if (!pinned) { pinned = true; pin(); }
  s.bound = bound;
  if (g.haveOnly) {
    size_t at = g.only.find('@');
    if (g.only.substr(0, at) != name) return r;
    s.prefix.clear();
    if (at != std::string::npos) {
      std::stringstream ss(g.only.substr(at + 1)); std::string tok;
      while (std::getline(ss, tok, '.')) if (!tok.empty()) s.prefix.push_back(atoi(tok.c_str()));
    }
    g.scen = g.only;
    if (g.cur) snprintf(g.cur, g.curSize, "%s", g.scen.c_str());
    ++g.evaluations;
    execute(body); check();
    return r;
  }
  if (!vmc::scenario(name)) return r;   // one shard explores the whole harness
  std::vector<std::vector<int>> stack; stack.push_back({});
  while (!stack.empty()) {
    std::vector<int> pre = stack.back(); stack.pop_back();
    s.prefix = pre;
    if (g.cur) {
      std::string sc = name + "@";
      for (int p : pre) { sc += std::to_string(p); sc += '.'; }
      snprintf(g.cur, g.curSize, "%s", sc.c_str());
    }
    execute(body);
    ++r.executions; r.pointsTotal += s.points.size(); r.maxPoints = std::max<uint64_t>(r.maxPoints, s.points.size());
    std::vector<Point>& pts = s.points;
    // states: distinct scheduling prefixes (those of the search tree are distinct by construction)
    vmc::countStates(pts.size() - (pre.empty() ? 0 : pre.size() - 1));
    vmc::transition(pts.size() - (pre.empty() ? 0 : pre.size() - 1));
    std::string sc = name + "@";
    for (auto& p : pts) { sc += std::to_string(p.chosen); sc += '.'; }
    g.scen = sc;
    if (r.executions > 1) ++g.evaluations;
    check();
    if (vmc::tooMany()) break;
    if (r.executions >= cap) { if (!stack.empty()) { r.capped = true; vmc::cap(name + ": stopped after " + std::to_string(cap) + " schedules"); } break; }
    for (size_t i = pts.size(); i-- > pre.size();) {
      const Point& p = pts[i];
      for (int alt = (int)p.opt.size() - 1; alt >= 1; --alt) {
        if (p.costBefore + p.cost[alt] > bound) continue;
        std::vector<int> n;
        for (size_t k = 0; k < i; ++k) n.push_back(pts[k].chosen);
        n.push_back(alt);
        stack.push_back(n);
      }
    }
  }
  if (getenv("VSCHED_VERBOSE")) fprintf(stderr, "%s: %llu schedules, at most %llu points\n", name.c_str(), (unsigned long long)r.executions, (unsigned long long)r.maxPoints);
  vmc::noteAdd("schedules", r.executions);
  vmc::noteMax("max_points_per_schedule", r.maxPoints);
  vmc::noteMax("bound_deviations", bound);
  return r;
}

}  // namespace vsched

extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  using namespace vsched;
  if (!managed()) return VS_REAL(pthread_create)(t, a, fn, arg);
  Sched& s = S(); Th* me = s.th[selfId()];
  if (s.th.size() >= MAXT) { fprintf(stderr, "too many threads\n"); _exit(3); }
  Th* n = new Th; n->id = s.th.size(); n->fn = fn; n->arg = arg;
  n->vc = me->vc; tick(n); tick(me);
  int det = 0; if (a) pthread_attr_getdetachstate(a, &det);
  n->detached = det == PTHREAD_CREATE_DETACHED; me->dirty = true;
  s.th.push_back(n);
  // Every thread number has its own stack and so always the same pthread_t;
  // really the threads are joinable, and joined at the end of the execution.
  static char* stacks[MAXT];
  const size_t SZ = 2 << 20;
  if (!stacks[n->id]) stacks[n->id] = (char*)mmap(nullptr, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pthread_attr_t attr; pthread_attr_init(&attr); pthread_attr_setstack(&attr, stacks[n->id], SZ);
  int rc = VS_REAL(pthread_create)(&n->real, &attr, trampoline, n);
  pthread_attr_destroy(&attr);
  if (rc) { fprintf(stderr, "pthread_create failed: %d\n", rc); _exit(3); }
  *t = n->real;
  reschedule();
  return 0;
}
int pthread_join(pthread_t t, void** ret) {
  using namespace vsched;
  if (!managed()) return VS_REAL(pthread_join)(t, ret);
  Sched& s = S(); Th* me = s.th[selfId()];
  for (size_t k = s.th.size(); k-- > 1;) {   // newest first: identifiers are reused
    Th* x = s.th[k];
    if (!pthread_equal(x->real, t) || x->reaped) continue;
    before();
    if (x->st != DONE) { me->st = JOIN; me->target = x->id; reschedule(); me->st = RUN; }
    vjoin(me->vc, x->vc);
    x->reaped = true;
    return VS_REAL(pthread_join)(t, ret);
  }
  return ESRCH;
}
int pthread_detach(pthread_t t) {
  using namespace vsched;
  if (managed()) {
    for (auto x : S().th) if (pthread_equal(x->real, t)) x->detached = true;
    return 0;
  }
  return VS_REAL(pthread_detach)(t);
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  using namespace vsched;
  if (managed()) {
    S().mx.erase(m);
    int k = 0; if (a) pthread_mutexattr_gettype(a, &k);
    S().mx[m].kind = k;
  }
  return VS_REAL(pthread_mutex_init)(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  using namespace vsched;
  if (managed()) {
    Sched& s = S();
    if (s.mx[m].owner >= 0) die(96, "a locked mutex is destroyed");
    for (auto t : s.th) if ((t->st == MUTEX && t->obj == m) || (t->st == COND && t->mtx == m)) die(96, "a mutex is destroyed while a thread waits for it");
    s.mx.erase(m);
    return 0;
  }
  return VS_REAL(pthread_mutex_destroy)(m);
}
int pthread_mutex_lock(pthread_mutex_t* m) { using namespace vsched; if (!managed()) return VS_REAL(pthread_mutex_lock)(m); lockM(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { using namespace vsched; if (!managed()) return VS_REAL(pthread_mutex_unlock)(m); return unlockM(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) {
  using namespace vsched;
  if (!managed()) return VS_REAL(pthread_mutex_trylock)(m);
  before();
  S().th[selfId()]->dirty = true;
  Mx& x = S().mx[m];
  if (x.owner >= 0) { if (x.owner == selfId() && x.kind == PTHREAD_MUTEX_RECURSIVE) { ++x.count; return 0; } return EBUSY; }
  acquire(S().th[selfId()], m);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  using namespace vsched;
  if (!managed()) return VS_REAL(pthread_mutex_timedlock)(m, ts);
  lockM(m); return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
  using namespace vsched;
  if (managed()) S().cv.erase(c);
  return VS_REAL(pthread_cond_init)(c, a);
}
int pthread_cond_destroy(pthread_cond_t* c) {
  using namespace vsched;
  if (managed()) {
    if (!S().cv[c].waiters.empty()) die(96, "a condition is destroyed while a thread waits on it");
    S().cv.erase(c);
    return 0;
  }
  return VS_REAL(pthread_cond_destroy)(c);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { using namespace vsched; if (!managed()) return VS_REAL(pthread_cond_wait)(c, m); return condWait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { using namespace vsched; if (!managed()) return VS_REAL(pthread_cond_timedwait)(c, m, t); return condWait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { using namespace vsched; if (!managed()) return VS_REAL(pthread_cond_clockwait)(c, m, k, t); return condWait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) { using namespace vsched; if (!managed()) return VS_REAL(pthread_cond_signal)(c); wake(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { using namespace vsched; if (!managed()) return VS_REAL(pthread_cond_broadcast)(c); wake(c, true); return 0; }
int sched_yield() { using namespace vsched; if (!managed()) return VS_REAL(sched_yield)(); yield(); return 0; }
static int vs_sleep() { using namespace vsched; Th* me = S().th[selfId()]; me->st = SLEEP; reschedule(); me->st = RUN; return 0; }
int nanosleep(const struct timespec* a, struct timespec* b) { using namespace vsched; if (!managed()) return VS_REAL(nanosleep)(a, b); return vs_sleep(); }
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) { using namespace vsched; if (!managed()) return VS_REAL(clock_nanosleep)(c, f, a, b); return vs_sleep(); }
int usleep(useconds_t u) { using namespace vsched; if (!managed()) return VS_REAL(usleep)(u); return vs_sleep(); }
int pthread_setschedparam(pthread_t t, int p, const struct sched_param* q) { using namespace vsched; if (!managed()) return VS_REAL(pthread_setschedparam)(t, p, q); return 0; }

#define VS_NI __attribute__((no_sanitize("thread")))
#define VS_RA __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define VS_RW(n) \
  void __tsan_read##n(void* a) { vsched::onAccess(a, n, false, VS_RA); } \
  void __tsan_write##n(void* a) { vsched::onAccess(a, n, true, VS_RA); } \
  void __tsan_unaligned_read##n(void* a) { vsched::onAccess(a, n, false, VS_RA); } \
  void __tsan_unaligned_write##n(void* a) { vsched::onAccess(a, n, true, VS_RA); } \
  void __tsan_volatile_read##n(void* a) { vsched::onAccess(a, n, false, VS_RA); } \
  void __tsan_volatile_write##n(void* a) { vsched::onAccess(a, n, true, VS_RA); } \
  void __tsan_unaligned_volatile_read##n(void* a) { vsched::onAccess(a, n, false, VS_RA); } \
  void __tsan_unaligned_volatile_write##n(void* a) { vsched::onAccess(a, n, true, VS_RA); }
VS_RW(1) VS_RW(2) VS_RW(4) VS_RW(8) VS_RW(16)
void __tsan_read_range(void* a, unsigned long n) { vsched::onAccess(a, (int)n, false, VS_RA); }
void __tsan_write_range(void* a, unsigned long n) { vsched::onAccess(a, (int)n, true, VS_RA); }
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define VS_AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile void* a, int) { vsched::onAtomic((void*)a); return __atomic_load_n((T*)a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile void* a, T v, int) { vsched::onAtomic((void*)a); __atomic_store_n((T*)a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile void* a, T v, int) { vsched::onAtomic((void*)a); return __atomic_exchange_n((T*)a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile void* a, T v, int) { vsched::onAtomic((void*)a); return __atomic_fetch_add((T*)a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile void* a, T v, int) { vsched::onAtomic((void*)a); return __atomic_fetch_sub((T*)a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile void* a, T v, int) { vsched::onAtomic((void*)a); return __atomic_fetch_and((T*)a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile void* a, T v, int) { vsched::onAtomic((void*)a); return __atomic_fetch_or((T*)a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile void* a, T v, int) { vsched::onAtomic((void*)a); return __atomic_fetch_xor((T*)a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile void* a, T c, T v, int, int) { vsched::onAtomic((void*)a); __atomic_compare_exchange_n((T*)a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; } \
  bool __tsan_atomic##bits##_compare_exchange_strong(volatile void* a, void* c, T v, int, int) { vsched::onAtomic((void*)a); return __atomic_compare_exchange_n((T*)a, (T*)c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##bits##_compare_exchange_weak(volatile void* a, void* c, T v, int m, int n) { vsched::onAtomic((void*)a); return __atomic_compare_exchange_n((T*)a, (T*)c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
VS_AT(8, unsigned char) VS_AT(16, unsigned short) VS_AT(32, unsigned int) VS_AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}

namespace vsched {
void watch(const void* p, size_t n, const char* name) { S().regions.push_back({(uintptr_t)p, (uintptr_t)p + n, name, std::vector<Shadow>(n)}); }
void delayBounding(bool on) { S().delay = on; }
void spurious(bool on) { S().spuriousOn = on; }
void earlyTimeouts(bool on) { S().timeoutsEarly = on; }
void stepLimit(int n) { S().maxPoints = n; }
std::string raceFound() { return S().race; }
}

namespace vsched {
void warm(const std::function<void()>& body) { S().prefix.clear(); execute(body); }
}

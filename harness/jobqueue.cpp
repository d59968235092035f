// The worker pool (sm::JobQueue) under every schedule up to a deviation bound.
#include "vsched.hpp"
#include <sm_boost/JobQueue.hpp>
#include <sys/mman.h>

using namespace vmc;
typedef sm::JobQueue Q;

static const size_t AREA = 1 << 16;
static char* area;          // the queue lives here; unmapped once destroyed
static int ran[16], active, maxActive;
static bool destroyed, badLate;
static std::string problem;

static void bad(const std::string& s) { if (problem.empty()) problem = s; }

static Q* make() {
  area = (char*)mmap(nullptr, AREA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  Q* q = new (area) Q;
  vsched::watch(q, sizeof(Q), "JobQueue");
  return q;
}
static void kill(Q* q) {
  q->~Q();
  destroyed = true;
  mprotect(area, AREA, PROT_NONE);   // a worker still using the queue faults
}
static void reset() {
  memset(ran, 0, sizeof ran); active = maxActive = 0; destroyed = badLate = false; problem.clear();
}
static void job(int i) {
  if (destroyed) bad("a job runs after the queue is destroyed");
  ++active; if (active > maxActive) maxActive = active;
  vsched::point();
  ++ran[i];
  --active;
}
static void nested(Q* q, int i, int j) { job(i); q->scheduleWork(boost::bind(&job, j)); }
static int value(int i) { job(i); return 10 + i; }
static int thrower(int i) { job(i); throw std::runtime_error("job"); }

struct Cfg { std::string name; std::function<void()> body; int bound; int must, may; /* jobs that must/may have run once */ };

static void producer(Q* q, int from, int n) { for (int i = 0; i < n; ++i) q->scheduleWork(boost::bind(&job, from + i)); }
struct Prod { Q* q; int from, n; };
static void* producerMain(void* p) { Prod* x = (Prod*)p; producer(x->q, x->from, x->n); return nullptr; }
static void* waiterMain(void* p) { ((Q*)p)->waitForEmptyQueue(); return nullptr; }

int main(int argc, char** argv) {
  init(argc, argv);
  std::vector<Cfg> cfgs;
  bool th = thorough();
  for (int spurious = 0; spurious < 2; ++spurious)
  for (int nT = 1; nT <= (th ? 3 : 2); ++nT)
    for (int nJ = 0; nJ <= (th ? 3 : 2); ++nJ) {
      int b = th ? (nT == 3 ? 1 : nT * nJ >= 4 ? 1 : nT == 1 ? 3 : 2) : (nT == 1 ? 2 : nJ == 0 ? 2 : 1);
      if (spurious && !th && nJ == 2) continue;
      auto add = [&](const char* kind, int must, int may, std::function<void()> f, int bb) {
        cfgs.push_back({fmt("%s workers=%d jobs=%d spurious=%d", kind, nT, nJ, spurious), f, bb, must, may});
      };
      add("wait-then-destroy", nJ, nJ, [=] {
        Q* q = make(); q->start(nT);
        for (int i = 0; i < nJ; ++i) q->scheduleWork(boost::bind(&job, i));
        q->waitForEmptyQueue();
        for (int i = 0; i < nJ; ++i) if (ran[i] != 1) bad("waitForEmptyQueue returned before every job had run");
        if (active) bad("waitForEmptyQueue returned while a job was running");
        if (!q->empty()) bad("the queue is not empty after waitForEmptyQueue");
        kill(q);
      }, b);
      add("schedule-before-start", nJ, nJ, [=] {
        Q* q = make();
        for (int i = 0; i < nJ; ++i) q->scheduleWork(boost::bind(&job, i));
        if (q->empty() != (nJ == 0)) bad("empty() is wrong before the start");
        q->start(nT);
        q->waitForEmptyQueue();
        for (int i = 0; i < nJ; ++i) if (ran[i] != 1) bad("waitForEmptyQueue returned before every job had run");
        kill(q);
      }, b);
      add("join-pending", 0, nJ, [=] {
        Q* q = make(); q->start(nT);
        for (int i = 0; i < nJ; ++i) q->scheduleWork(boost::bind(&job, i));
        q->join();
        if (active) bad("join returned while a job was running");
        int snap[16]; memcpy(snap, ran, sizeof snap);
        vsched::yield();
        if (memcmp(snap, ran, sizeof snap)) bad("a job ran after join");
        kill(q);
      }, b);
      add("destroy-pending", 0, nJ, [=] {
        Q* q = make(); q->start(nT);
        for (int i = 0; i < nJ; ++i) q->scheduleWork(boost::bind(&job, i));
        kill(q);   // no deviation needed for most of these
        if (active) bad("the destructor returned while a job was running");
      }, b);
      add("wait-join-destroy", nJ, nJ, [=] {
        Q* q = make(); q->start(nT);
        for (int i = 0; i < nJ; ++i) q->scheduleWork(boost::bind(&job, i));
        q->waitForEmptyQueue();
        q->stop(); q->join(); q->join();
        kill(q);
      }, std::min(b, 2));
      if (nJ >= 1) add("futures", nJ, nJ, [=] {
        Q* q = make(); q->start(nT);
        std::vector<boost::unique_future<int>> f(nJ);
        for (int i = 0; i < nJ; ++i) q->scheduleFuture<int>(boost::bind(i == 1 ? &thrower : &value, i), f[i]);
        for (int i = 0; i < nJ; ++i) {
          if (i == 1) { bool t = false; try { f[i].get(); } catch (const std::exception&) { t = true; } if (!t) bad("the exception of a job did not reach its future"); }
          else if (f[i].get() != 10 + i) bad("a future has the wrong value");
        }
        kill(q);
      }, std::min(b, th ? 2 : 1));
      if (nJ >= 1) add("nested", nJ + 1, nJ + 1, [=] {
        Q* q = make(); q->start(nT);
        q->scheduleWork(boost::bind(&nested, q, 0, nJ));
        for (int i = 1; i < nJ; ++i) q->scheduleWork(boost::bind(&job, i));
        q->waitForEmptyQueue();
        for (int i = 0; i <= nJ; ++i) if (ran[i] != 1) bad("waitForEmptyQueue returned before a job scheduled by a job had run");
        kill(q);
      }, std::min(b, 2));
      if (nJ >= 1) add("two-producers", 2 * nJ, 2 * nJ, [=] {
        Q* q = make(); q->start(nT);
        Prod p{q, nJ, nJ}; pthread_t t;
        pthread_create(&t, nullptr, producerMain, &p);
        producer(q, 0, nJ);
        pthread_join(t, nullptr);
        q->waitForEmptyQueue();
        for (int i = 0; i < 2 * nJ; ++i) if (ran[i] != 1) bad("waitForEmptyQueue returned before every job had run");
        kill(q);
      }, std::min(b, nJ == 1 && nT == 1 ? 2 : 1));
      if (nJ >= 1) add("two-waiters", nJ, nJ, [=] {
        Q* q = make(); q->start(nT);
        for (int i = 0; i < nJ; ++i) q->scheduleWork(boost::bind(&job, i));
        pthread_t t; pthread_create(&t, nullptr, waiterMain, q);
        q->waitForEmptyQueue();
        pthread_join(t, nullptr);
        for (int i = 0; i < nJ; ++i) if (ran[i] != 1) bad("waitForEmptyQueue returned before every job had run");
        kill(q);
      }, std::min(b, nJ == 1 && nT == 1 ? 2 : 1));
    }
  {
    Cfg c; c.name = "never-started"; c.bound = 3; c.must = c.may = 0;
    c.body = [] { Q* q = make(); q->stop(); q->join(); kill(q); };
    cfgs.push_back(c);
    c.name = "never-started-with-job"; c.may = 0;
    c.body = [] { Q* q = make(); q->scheduleWork(boost::bind(&job, 0)); kill(q); };
    cfgs.push_back(c);
  }
  // the pool really is one: with w workers, w jobs can be under way at once
  bool first = true;
  for (auto& c : cfgs) {
    bool sp = c.name.find("spurious=1") != std::string::npos;
    if (sp && c.bound > (th ? 2 : 1)) c.bound = th ? 2 : 1;
    vsched::spurious(sp);
    if (first) { reset(); vsched::warm(c.body); munmap(area, AREA); first = false; reset(); }
    vsched::explore(c.name, c.bound, [&] { reset(); c.body(); }, [&] {
      munmap(area, AREA);
      if (!problem.empty()) fail("jobqueue: " + problem, c.name);
      for (int i = 0; i < c.must; ++i) if (ran[i] != 1) fail("jobqueue: a job does not run exactly once", fmt("job %d ran %d times", i, ran[i]));
      for (int i = 0; i < 16; ++i) if (ran[i] > (i < c.may ? 1 : 0)) fail("jobqueue: a job runs more than once", fmt("job %d ran %d times", i, ran[i]));
      if (!vsched::raceFound().empty()) fail("jobqueue: data race", vsched::raceFound());
      std::string o; for (int i = 0; i < 8; ++i) o += std::to_string(ran[i]); o += fmt("/%d", maxActive);
      if (maxActive > 3) fail("jobqueue: more jobs at once than workers", o);
      nontrivial(c.name + o); sawValue("jobs run/most at once", o);
    }, th ? 300000 : 2000000);
  }
  return finish();
}

// Threads, mutexes and conditions of aslam_incremental_calibration under every
// schedule up to a deviation bound.
#include "vsched.hpp"
#include <pthread.h>
#include <memory>
#include "aslam_incremental_calibration/base/Condition.h"
#include "aslam_incremental_calibration/base/Mutex.h"
#include "aslam_incremental_calibration/base/Thread.h"
#include "aslam_incremental_calibration/base/Threads.h"
#include "aslam_incremental_calibration/base/Timer.h"
#include "aslam_incremental_calibration/exceptions/InvalidOperationException.h"
using namespace vmc;
using namespace aslam::calibration;

static std::string problem;
static void bad(const std::string& s) { if (problem.empty()) problem = s; }
#define REQ(c, msg) do { if (!(c)) bad(msg); } while (0)

struct Go { std::function<void()> f; pthread_t t; };
static void* goMain(void* p) {
  try { ((Go*)p)->f(); } catch (const std::exception& e) { bad(std::string("unexpected exception: ") + e.what()); }
  return nullptr;
}
struct Client {
  Go g;
  Client(std::function<void()> f) { g.f = f; pthread_create(&g.t, nullptr, goMain, &g); }
  bool joined = false;
  void join() { if (!joined) pthread_join(g.t, nullptr); joined = true; }
  ~Client() { join(); }
};

struct Worker : Thread {
  int calls = 0, inside = 0; bool stopped = false; std::function<void(int)> work;
  Worker(double cycle) : Thread(cycle) {}
  ~Worker() { interrupt(); }
  void process() override {
    if (stopped) bad("the thread works after interrupt() returned");
    if (++inside > 1) bad("two threads run the same thread object");
    ++calls;
    if (work) work(calls);
    vsched::yield();
    --inside;
  }
};

static int depth; static int enterCount; static std::string outcome;
static void crit() {   // a critical section
  if (depth++) bad("two threads hold the mutex at once");
  ++enterCount; vsched::point();
  --depth;
}

struct Cfg { std::string name; int bound; std::function<void()> body; };

int main(int argc, char** argv) {
  init(argc, argv);
  bool th = thorough();
  std::vector<Cfg> c;
  auto add = [&](const std::string& n, int b, std::function<void()> f) { c.push_back({n, b, f}); };
  const double ET = Timer::eternal();
  int B = th ? 4 : 3;

  // --- mutex
  for (int rec = 0; rec < 2; ++rec)
    for (int n = 2; n <= 3; ++n) {
      add(fmt("mutex clients=%d recursive=%d", n, rec), n == 2 ? B : B - 1, [=] {
        Mutex m(rec);
        std::vector<std::unique_ptr<Client>> cl;
        auto f = [&] { for (int k = 0; k < (n == 2 ? 2 : 1); ++k) { REQ(m.lock(), "lock() without a time limit fails");
            if (rec) { m.lock(); REQ(m.getNumLocks() == 2, "a nested lock is not counted"); }
            crit();
            if (rec) { m.unlock(); REQ(m.isLocked(), "a recursive mutex is released by its first unlock"); crit(); }
            m.unlock(); } };
        for (int i = 1; i < n; ++i) cl.emplace_back(new Client(f));
        f();
        for (auto& x : cl) x->join();
        REQ(!m.isLocked() && m.getNumLocks() == 0, "the mutex stays locked");
        REQ(enterCount == (n == 2 ? 4 : 3) * (rec ? 2 : 1), "a critical section is skipped");
      });
      add(fmt("mutex-trylock clients=%d recursive=%d", n, rec), n == 2 ? B : B - 1, [=] {
        Mutex m(rec);
        std::vector<std::unique_ptr<Client>> cl;
        int got = 0;
        auto f = [&] { if (m.tryLock()) { ++got; crit(); m.unlock(); } };
        for (int i = 1; i < n; ++i) cl.emplace_back(new Client(f));
        m.lock(); crit(); m.unlock();
        f();
        for (auto& x : cl) x->join();
        REQ(m.tryLock(), "tryLock fails on a free mutex"); 
        REQ(m.isLocked(), "the mutex is free after tryLock succeeded"); m.unlock();
        REQ(!m.isLocked(), "the mutex stays locked");
        outcome = fmt("%d", got);
      });
      add(fmt("mutex-timed clients=%d recursive=%d", n, rec), n == 2 ? B : B - 1, [=] {
        Mutex m(rec);
        std::vector<std::unique_ptr<Client>> cl;
        int got = 0, missed = 0;
        auto f = [&] { if (m.lock(1e3)) { ++got; crit(); m.unlock(); } else ++missed; };
        for (int i = 1; i < n; ++i) cl.emplace_back(new Client(f));
        m.lock(); crit(); vsched::point(); m.unlock();
        f();
        for (auto& x : cl) x->join();
        REQ(got + missed == n, "a timed lock neither succeeds nor fails");
        REQ(!m.isLocked(), "the mutex stays locked");
        outcome = fmt("%d", got);
      });
    }
  add("mutex-misuse", B, [=] {
    Mutex m(false);
    bool t = false; try { m.unlock(); } catch (const InvalidOperationException&) { t = true; }
    REQ(t, "unlocking a free mutex is accepted");
    m.lock(); t = false; try { m.lock(); } catch (const InvalidOperationException&) { t = true; }
    REQ(t, "locking a non-recursive mutex twice is accepted");
    bool u = false;
    Client cl([&] { try { m.unlock(); } catch (const InvalidOperationException&) { u = true; } });
    cl.join();
    REQ(u, "a thread unlocks the mutex of another one");
    REQ(m.isLocked(), "the mutex is lost by misuse");
    m.unlock();
  });
  add("mutex-waitunlock", B, [=] {
    Mutex m; bool done = false;
    m.lock();
    Client cl([&] { REQ(m.waitUnlock(), "waitUnlock without a time limit fails"); done = true; });
    Client c2([&] { m.lock(); crit(); m.unlock(); });
    crit();
    m.unlock(); cl.join(); c2.join();
    REQ(m.waitUnlock(), "waitUnlock fails on a free mutex");
    REQ(done, "waitUnlock does not return");
    m.lock();
    Client c3([&] { REQ(!m.waitUnlock(0.0), "waitUnlock with no time to wait succeeds on a locked mutex"); });
    c3.join();
    m.unlock();
  });
  // --- condition
  for (int n = 1; n <= 2; ++n)
    for (int br = 0; br < 2; ++br)
      for (int timed = 0; timed < 2; ++timed)
        add(fmt("condition waiters=%d broadcast=%d timed=%d", n, br, timed), n == 1 ? B : B - 1, [=] {
          Mutex m; Condition cond; int tokens = 0, taken = 0;
          std::vector<std::unique_ptr<Client>> cl;
          auto f = [&] {
            m.lock();
            while (!tokens) {
              bool r = cond.wait(m, timed ? 1e3 : ET);
              REQ(r || timed, "a wait without a time limit times out");
              REQ(m.isLocked(), "wait returns without the mutex");
            }
            crit();
            --tokens; ++taken;
            m.unlock();
          };
          for (int i = 0; i < n; ++i) cl.emplace_back(new Client(f));
          if (br) { m.lock(); tokens = n; crit(); cond.signal(Condition::broadcast); m.unlock(); }
          else for (int i = 0; i < n; ++i) { m.lock(); ++tokens; crit(); m.unlock(); cond.signal(); }
          for (auto& x : cl) x->join();
          REQ(taken == n && !m.isLocked(), "a waiter is not woken");
        });
  // --- threads
  for (int runs = 1; runs <= 2; ++runs)
    add(fmt("oneshot runs=%d", runs), B, [=] {
      Worker w(-1.0);
      REQ(w.getState() == Thread::initialized && !w.isBusy() && !w.exists(), "a new thread is busy");
      for (int r = 1; r <= runs; ++r) {
        REQ(w.start(), "start fails");
        if (r == 1 || runs == 2) {}
        REQ(w.wait(), "wait without a time limit fails");
        REQ(!w.isBusy(), "the thread is busy after wait returned");
        REQ(w.getState() == Thread::finished, "the thread is not finished after wait returned");
        REQ(w.calls == r, "a one-shot thread does not work exactly once");
        REQ(w.getNumCycles() == 1, "a one-shot thread does not count one cycle");
        REQ(!w.exists(), "a finished thread exists");
      }
      REQ(Threads::getInstance().getNumThreads() == 0, "a finished thread stays registered");
    });
  for (double cyc : {0.0, ET, -1.0, 1e3})
    for (int second = 0; second < 3; ++second)
      add(fmt("interrupt cycle=%g clients=%d", cyc == ET ? 1e300 : cyc, second), second ? B - 1 : B, [=] {
        Worker w(cyc);
        REQ(w.start(), "start fails");
        if (cyc >= 0) REQ(w.isBusy() && w.exists(), "a started thread is not busy");
        std::vector<std::unique_ptr<Client>> cl;
        if (second >= 1) cl.emplace_back(new Client([&] { w.interrupt(); REQ(!w.isBusy(), "the thread is busy after interrupt returned"); }));
        if (second >= 2) cl.emplace_back(new Client([&] { REQ(w.wait(), "wait without a time limit fails"); REQ(!w.isBusy(), "the thread is busy after wait returned"); }));
        w.interrupt();
        w.stopped = true;
        REQ(!w.isBusy(), "the thread is busy after interrupt returned");
        Thread::State s = w.getState();
        REQ(s == Thread::interrupted || (cyc < 0 && s == Thread::finished), "the thread is not interrupted after interrupt returned");
        REQ(w.calls >= 1, "an interrupted thread never worked");
        REQ((int)w.getNumCycles() == w.calls, "the cycles are counted wrong");
        for (auto& x : cl) x->join();
        REQ(Threads::getInstance().getNumThreads() == 0, "an interrupted thread stays registered");
        outcome = fmt("%d", w.calls > 3 ? 3 : w.calls);
      });
  add("trigger", B, [=] {   // a thread that works once per trigger
    Worker w(ET);
    Mutex m; Condition done; int seen = 0;
    w.work = [&](int k) { m.lock(); seen = k; done.signal(Condition::broadcast); m.unlock(); };
    w.start();
    m.lock(); while (seen < 1) done.wait(m); m.unlock();
    while (w.calls < 2) { w.getTrigger().signal(); vsched::yield(); }
    w.interrupt(); w.stopped = true;
    REQ(w.getState() == Thread::interrupted, "the thread is not interrupted after interrupt returned");
  });
  add("restart-after-interrupt", B, [=] {
    Worker w(0.0);
    w.start(); w.interrupt(); int k = w.calls;
    REQ(w.start(), "start fails after an interrupt");
    w.interrupt(); w.stopped = true;
    REQ(w.calls > k, "a restarted thread does not work");
    REQ((int)w.getNumCycles() == w.calls - k, "the cycles are not counted from the restart");
  });
  add("timed-wait", B - 1, [=] {
    Worker w(0.0);
    w.start();
    bool r = w.wait(1e3);
    REQ(!r, "wait succeeds while the thread runs");
    w.interrupt(); w.stopped = true;
    REQ(w.wait(1e3) && w.wait(0.0), "wait fails after the thread has ended");
  });
  add("start-busy", B - 1, [=] {   // a busy thread is not started a second time
    Worker w(0.0);
    w.start();
    bool r = w.start(Thread::inherit, 1e3);
    REQ(!r, "a busy thread is started a second time");
    r = w.start(Thread::inherit, 0.0);
    REQ(!r, "a busy thread is started a second time");
    w.interrupt(); w.stopped = true;
    REQ(!w.isBusy(), "the thread is busy after interrupt returned");
  });
  for (int n = 1; n <= 2; ++n)
    add(fmt("registry threads=%d", n), n == 1 ? B : (th ? 2 : 1), [=] {
      Worker a(0.0), b(0.0);
      Thread* self = nullptr; a.work = [&](int) { self = &Threads::getInstance().getSelf(); };
      a.start(); if (n == 2) b.start();
      REQ((int)Threads::getInstance().getNumThreads() == n, "the registry does not hold the running threads");
      bool t = false; try { Threads::getInstance().getSelf(); } catch (...) { t = true; }
      REQ(t, "an unregistered thread finds itself in the registry");
      Threads::getInstance().interrupt();
      REQ(!a.isBusy() && !b.isBusy(), "a thread runs after all were interrupted");
      a.stopped = b.stopped = true;
      REQ(self == &a, "a thread does not find itself in the registry");
      REQ(Threads::getInstance().getNumThreads() == 0, "the registry keeps ended threads");
    });
  add("destroy-running", B, [=] { Worker* w = new Worker(0.0); w->start(); delete w; REQ(Threads::getInstance().getNumThreads() == 0, "a destroyed thread stays registered"); });
  add("self-wait", B, [=] {
    Worker w(-1.0); bool t = false;
    w.work = [&](int) { try { w.wait(); } catch (const InvalidOperationException&) { t = true; } };
    w.start(); w.wait();
    REQ(t, "a thread may wait for itself");
  });
  add("exit-self", B, [=] {
    Worker w(0.0); w.work = [&](int k) { if (k == 2) Thread::exit(); };
    w.start(); REQ(w.wait(), "wait without a time limit fails");
    REQ(w.calls == 2, "a thread that exits works on"); w.stopped = true;
  });

  try { Threads::getInstance().getSelf(); } catch (...) {}
  vsched::delayBounding(true);
  bool first = true;
  for (auto& x : c) {
    auto reset = [] { problem.clear(); depth = enterCount = 0; outcome.clear(); };
    if (first) { reset(); vsched::warm(x.body); first = false; }
    vsched::explore(x.name, x.bound, [&] {
      reset();
      try { x.body(); } catch (const std::exception& e) { bad(std::string("unexpected exception: ") + e.what()); }
    }, [&] {
      if (!problem.empty()) fail("threads: " + problem, x.name);
      nontrivial(x.name + outcome);
      sawValue("outcomes", x.name + ":" + outcome);
    }, th ? 300000 : 60000);
  }
  return finish();
}

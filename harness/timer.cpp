// Timers on a virtual clock: every operation sequence up to a depth against a
// list of samples; nanosecond conversions.
#include "vmc.hpp"
#include <sm_timing/Timer.hpp>
#include <sm_timing/NsecTimeUtilities.hpp>
#include <sys/time.h>
#include <memory>
using namespace vmc;
using namespace sm::timing;
static bool fake = false; static long long clockUs = 1700000000000000LL;
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  long long us = clockUs;
  if (!fake) { timespec t; clock_gettime(CLOCK_REALTIME, &t); us = t.tv_sec * 1000000LL + t.tv_nsec / 1000; }
  tv->tv_sec = us / 1000000; tv->tv_usec = us % 1000000; return 0;
}
struct Model { std::vector<double> s; };
static void check(const std::string& tag, const std::vector<double>& s, const std::string& text) {
  size_t h = Timing::getHandle(tag);
  expect(Timing::getTag(h) == tag, "a handle does not lead back to its tag", text);
  for (int k = 0; k < 2; ++k) {
    expect((k ? Timing::getNumSamples(h) : Timing::getNumSamples(tag)) == s.size(), "number of samples", text + fmt(" got %zu", Timing::getNumSamples(tag)));
    if (s.empty()) continue;
    double sum = 0, mn = 1e300, mx = -1e300, q = 0;
    for (double x : s) { sum += x; mn = std::min(mn, x); mx = std::max(mx, x); q += x * x; }
    double mean = sum / s.size(), var = q / s.size() - mean * mean;
    double win = 0; size_t w = std::min<size_t>(50, s.size()); for (size_t i = s.size() - w; i < s.size(); ++i) win += s[i];
    expectNear(k ? Timing::getTotalSeconds(h) : Timing::getTotalSeconds(tag), sum, 1e-9, "total", text);
    expectNear(k ? Timing::getMeanSeconds(h) : Timing::getMeanSeconds(tag), mean, 1e-9, "mean", text);
    expectNear(k ? Timing::getMinSeconds(h) : Timing::getMinSeconds(tag), mn, 1e-9, "minimum", text);
    expectNear(k ? Timing::getMaxSeconds(h) : Timing::getMaxSeconds(tag), mx, 1e-9, "maximum", text);
    expectNear(k ? Timing::getVarianceSeconds(h) : Timing::getVarianceSeconds(tag), var, 1e-7, "variance", text);
    if (win > 1e-9) expectNear(k ? Timing::getHz(h) : Timing::getHz(tag), w / win, 1e-9, "rate", text);
  }
}
int main(int argc, char** argv) {
  setenv("TZ", "UTC", 1);
  init(argc, argv);
  bool th = thorough();
  const char* tags[2] = {"a", "long tag"};
  // operations on two timers (tags may coincide): start/stop each, time passes, reset tag, destroy+recreate
  static const char* names[] = {"start1", "stop1", "start2", "stop2", "1us", "2.5s", "reset", "renew1"};
  const int NOPS = 8; int depth = th ? 7 : 6;
  long n = 1; for (int i = 0; i < depth; ++i) n *= NOPS;
  for (int same = 0; same < 2; ++same)
    for (long code = 0; code < n; ++code) {
      // sequences that start by passing time repeat shorter ones
      int f = code % NOPS; if (f == 4 || f == 5 || f == 1 || f == 3 || f == 6) { if (code >= NOPS) continue; }
      run(fmt("timers same=%d sequence=%ld depth=%d", same, code, depth), [&] {
        fake = true;
        std::vector<double> samples[2]; Timing::reset(tags[0]); Timing::reset(tags[1]);
        std::unique_ptr<Timer> t[2]; long long started[2] = {-1, -1}; std::string text; int tag[2] = {0, same ? 0 : 1};
        for (int i = 0; i < 2; ++i) { t[i].reset(i ? new Timer(Timing::getHandle(tags[tag[i]]), true) : new Timer(tags[tag[i]], true)); expect(!t[i]->isTiming(), "a stopped timer runs"); }
        long c = code;
        for (int d = 0; d < depth; ++d) {
          int o = c % NOPS; c /= NOPS; text += std::string(names[o]) + " "; transition();
          bool thrown = false, want = false; int i = o / 2;
          if (o < 4) {
            bool start = o % 2 == 0;
            want = start == (started[i] >= 0);
            try { if (start) t[i]->start(); else t[i]->stop(); } catch (const TimerException&) { thrown = true; }
            if (!want) { if (start) started[i] = clockUs; else { samples[tag[i]].push_back((clockUs - started[i]) * 1e-6); started[i] = -1; nontrivial(text); } }
            expect(thrown == want, "starting a running or stopping a stopped timer", text);
          } else if (o == 4) clockUs += 1;
          else if (o == 5) clockUs += 2500000;
          else if (o == 6) { Timing::reset(tags[0]); samples[0].clear(); }
          else { t[0].reset(); if (started[0] >= 0) samples[tag[0]].push_back((clockUs - started[0]) * 1e-6); t[0].reset(new Timer(tags[tag[0]])); started[0] = clockUs; }
          for (int k = 0; k < 2; ++k) expect(t[k]->isTiming() == (started[k] >= 0), "isTiming", text);
        }
        u64 hs = mix(started[0] >= 0, started[1] >= 0); for (auto& s : samples) { hs = mix(hs, s.size()); for (double x : s) hs = mix(hs, hashD(x)); } state(hs);
        check(tags[0], samples[0], text); check(tags[1], samples[1], text);
        for (int i = 0; i < 2; ++i) { t[i].reset(); if (started[i] >= 0) samples[tag[i]].push_back((clockUs - started[i]) * 1e-6); }
        check(tags[0], samples[0], text + "destroy"); check(tags[1], samples[1], text + "destroy");
        fake = false;
      });
      if (tooMany()) break;
    }
  for (int count : {1, 2, 49, 50, 51, 52, 100, 150})
    run(fmt("window %d", count), [&] {
      fake = true; Timing::reset(tags[0]); std::vector<double> s; Timer t(tags[0], true);
      for (int i = 0; i < count; ++i) { t.start(); long us = 1000 + 137 * i * (i % 3); clockUs += us; t.stop(); s.push_back(us * 1e-6); check(tags[0], s, fmt("%d", i)); transition(); state(hashStr(fmt("w%d", i))); }
      std::string p = Timing::print(); expect(p.find(tags[0]) != std::string::npos && p.find(fmt("%d", count)) != std::string::npos, "print");
      fake = false;
    });
  run("handles", [&] {
    std::vector<size_t> h;
    for (int i = 0; i < 40; ++i) h.push_back(Timing::getHandle(fmt("tag%d", i * 7 % 40)));
    for (int i = 0; i < 40; ++i) { expect(Timing::getHandle(fmt("tag%d", i * 7 % 40)) == h[i], "a tag changes its handle"); for (int j = 0; j < i; ++j) expect(h[i] != h[j], "two tags share a handle"); }
    size_t bad = h.size() + 1000; int thrown = 0;
    try { Timing::getTag(bad); } catch (const TimerException&) { ++thrown; }
    try { Timing::getTotalSeconds(bad); } catch (const TimerException&) { ++thrown; }
    try { Timing::reset(bad); } catch (const TimerException&) { ++thrown; }
    try { Timer t(bad); } catch (const TimerException&) { ++thrown; }
    expect(thrown == 4, "an unknown handle is accepted");
  });
  // h:mm:ss
  for (long h : {0L, 1L, 9L, 10L, 99L, 100L, 1000L}) for (long m : {0L, 1L, 9L, 10L, 59L}) for (double s : {0.0, 0.000001, 0.5, 1.0, 9.999999, 10.0, 59.0, 59.999999})
    run(fmt("time string %ld %ld %g", h, m, s), [&] { countStates(1); nontrivial(g().scen);
      std::string got = Timing::secondsToTimeString(h * 3600.0 + m * 60.0 + s);
      long gh, gm; double gs; expect(sscanf(got.c_str(), "%ld:%ld:%lf", &gh, &gm, &gs) == 3 && gm < 60 && fabs(gh * 3600.0 + gm * 60 + gs - (h * 3600.0 + m * 60 + s)) < 2e-6, "secondsToTimeString", got);
      if (s != 59.999999 && s != 9.999999) expect(got == fmt("%02ld:%02ld:%09.6f", h, m, s), "secondsToTimeString", got); });
  // nanosecond times
  std::vector<long long> ns; for (long long b : {0LL, 1LL, 999LL, 1000LL, 999999999LL, 1000000000LL, 1234567890123456789LL, 1700000000123456789LL, 9000000000000000000LL}) for (int k = -2; k <= 2; ++k) { ns.push_back(b + k); ns.push_back(-(b + k)); }
  for (long long v : ns) run(fmt("nsec %lld", v), [&] { countStates(1);
      expect(chronoToNsec(nsecToChrono(v)) == v, "nanoseconds to chrono and back");
      expect(std::chrono::duration_cast<std::chrono::nanoseconds>(nsecToChrono(v).time_since_epoch()).count() == v, "nanoseconds to chrono");
      expectNear(nsecToSec(v), (double)((long double)v / 1e9L), 1e-15, "nanoseconds to seconds");
      long double d = fabsl((long double)secToNsec(nsecToSec(v)) - v);
      expect(d <= 1.0L + fabsl((long double)v) * 4e-16L, "seconds to nanoseconds", fmt("%lld gives %lld", v, (long long)secToNsec(nsecToSec(v)))); });
  run("now", [&] { auto a = nsecNow(); auto b = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count(); expect(a <= b && b - a < 60LL * 1000000000, "nsecNow"); });
  return finish();
}

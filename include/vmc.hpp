// Bounded exhaustive exploration: bookkeeping shared by the harnesses.
//
// A harness enumerates scenarios (one input, operation sequence or schedule
// each); every scenario is executed against the real code and compared with an
// oracle.  The scenario text identifies it completely and is what a replay
// file holds:   BINARY --only "<scenario>"
#ifndef VMC_HPP
#define VMC_HPP
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vmc {

typedef uint64_t u64;

inline u64 mix(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
inline u64 hashStr(const std::string& s) {
  u64 h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return mix(h, s.size());
}
inline u64 hashD(double v) {
  if (v == 0) v = 0;
  u64 b; memcpy(&b, &v, 8); return b;
}

struct Violation { std::string key, scenario, detail; };

struct G {
  int shard = 0, nshards = 1;
  bool thorough = false;
  std::string out, only, part;
  bool haveOnly = false;
  char* cur = nullptr;      // mapped file: the scenario being executed
  size_t curSize = 65536;
  volatile u64 beat = 0;
  u64 lastBeat = 0; int idle = 0; int hangSeconds = 60;
  u64 extraStates = 0, evaluations = 0, transitions = 0, scenarioIndex = 0;
  std::unordered_set<u64> states, nontrivial;
  std::vector<std::string> samples;
  std::vector<Violation> violations;
  std::map<std::string, double> notes;
  std::map<std::string, std::set<std::string>> seen;
  std::set<std::string> violKeys;
  std::string scen;
  u64 nextSample = 1;
  bool capped = false; std::string capText;
};
#define VMC_PLAIN __attribute__((no_sanitize("thread"), noinline))
VMC_PLAIN inline G& g() { static G* x = new G; return *x; }
inline bool thorough() { return g().thorough; }

inline std::string fmt(const char* f, ...) {
  char b[16384]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

inline std::string jesc(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

VMC_PLAIN inline void onAlarm(int) {
  G& x = g();
  if (x.beat == x.lastBeat) {
    if (++x.idle >= x.hangSeconds) _exit(97);
  } else { x.idle = 0; x.lastBeat = x.beat; }
}

inline void init(int argc, char** argv) {
  G& x = g();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--shard") x.shard = atoi(next().c_str());
    else if (a == "--nshards") x.nshards = atoi(next().c_str());
    else if (a == "--tier") x.thorough = next() == "thorough";
    else if (a == "--out") x.out = next();
    else if (a == "--part") x.part = next();
    else if (a == "--hang") x.hangSeconds = atoi(next().c_str());
    else if (a == "--only") { x.only = next(); x.haveOnly = true; }
  }
  if (!x.out.empty()) {
    int fd = open((x.out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, x.curSize) == 0)
      x.cur = (char*)mmap(nullptr, x.curSize, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (x.cur == MAP_FAILED) x.cur = nullptr;
    close(fd);
  }
  signal(SIGALRM, onAlarm);
  itimerval t; t.it_interval.tv_sec = 1; t.it_interval.tv_usec = 0; t.it_value = t.it_interval;
  setitimer(ITIMER_REAL, &t, nullptr);
}

inline bool part(const char* p) { return g().part.empty() || g().part == p; }

// Begins a scenario; false if this process is not the one to run it.
inline bool scenario(const std::string& text) {
  G& x = g();
  u64 idx = x.scenarioIndex++;
  if (x.haveOnly) { if (text != x.only) return false; }
  else if (x.nshards > 1 && (idx % x.nshards) != (u64)x.shard) return false;
  x.scen = text;
  ++x.beat;
  if (x.cur) {
    size_t n = std::min(text.size(), x.curSize - 1);
    memcpy(x.cur, text.data(), n); x.cur[n] = 0;
  }
  ++x.evaluations;
  if (x.evaluations == x.nextSample && x.samples.size() < 12) { x.samples.push_back(text); x.nextSample = x.nextSample * 5 + 1; }
  return true;
}
VMC_PLAIN inline void beat() { ++g().beat; }
inline void transition(u64 n = 1) { g().transitions += n; }
inline void countStates(u64 n) { g().extraStates += n; }  // known to be distinct
inline bool state(u64 h) { return g().states.insert(h).second; }
inline bool state(const std::string& s) { return state(hashStr(s)); }
inline void nontrivial(u64 h) { g().nontrivial.insert(h); }
inline void nontrivial(const std::string& s) { nontrivial(hashStr(s)); }
inline void note(const std::string& k, double v) { g().notes[k] = v; }
inline void noteAdd(const std::string& k, double v = 1) { g().notes[k] += v; }
inline void noteMax(const std::string& k, double v) { auto i = g().notes.find(k); if (i == g().notes.end() || !(i->second >= v)) g().notes[k] = v; }
inline void sawValue(const std::string& k, const std::string& v) { auto& s = g().seen[k]; if (s.size() < 64) s.insert(v); }
inline void cap(const std::string& t) { g().capped = true; g().capText = t; }

// Key: what fails, independent of the run (names the input, call or history).
inline void fail(const std::string& key, const std::string& detail) {
  G& x = g();
  if (x.violations.size() >= 40) return;
  if (!x.violKeys.insert(key + "|" + x.scen).second) return;
  Violation v; v.key = key; v.scenario = x.scen; v.detail = detail;
  x.violations.push_back(v);
}
inline bool expect(bool ok, const std::string& key, const std::string& detail = "") {
  if (!ok) fail(key, detail);
  return ok;
}
inline bool near(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b)) return false;
  if (a == b) return true;
  return std::fabs(a - b) <= tol * (1.0 + std::max(std::fabs(a), std::fabs(b)));
}
inline bool expectNear(double a, double b, double tol, const std::string& key, const std::string& detail = "") {
  bool ok = near(a, b, tol);
  if (!ok) fail(key, fmt("got %.17g, expected %.17g (tolerance %g) ", a, b, tol) + detail);
  return ok;
}

inline bool tooMany() { return g().violations.size() >= 40; }

inline int finish() {
  G& x = g();
  itimerval t; memset(&t, 0, sizeof t); setitimer(ITIMER_REAL, &t, nullptr);
  FILE* f = x.out.empty() ? stderr : fopen(x.out.c_str(), "w");
  fprintf(f, "{\"extra_states\": %llu, \"evaluations\": %llu, \"transitions\": %llu, \"nstates\": %llu, \"nnontrivial\": %llu,\n",
          (unsigned long long)x.extraStates, (unsigned long long)x.evaluations, (unsigned long long)x.transitions,
          (unsigned long long)x.states.size(), (unsigned long long)x.nontrivial.size());
  fprintf(f, " \"capped\": %s, \"cap_text\": %s,\n \"samples\": [", x.capped ? "true" : "false", jesc(x.capText).c_str());
  for (size_t i = 0; i < x.samples.size(); ++i) fprintf(f, "%s%s", i ? ",\n  " : "", jesc(x.samples[i]).c_str());
  fprintf(f, "],\n \"notes\": {");
  bool first = true;
  for (auto& n : x.notes) {
    if (!std::isfinite(n.second)) continue;
    fprintf(f, "%s%s: %.17g", first ? "" : ", ", jesc(n.first).c_str(), n.second); first = false;
  }
  fprintf(f, "},\n \"seen\": {");
  first = true;
  for (auto& n : x.seen) {
    fprintf(f, "%s%s: [", first ? "" : ", ", jesc(n.first).c_str()); first = false;
    bool ff = true;
    for (auto& v : n.second) { fprintf(f, "%s%s", ff ? "" : ", ", jesc(v).c_str()); ff = false; }
    fprintf(f, "]");
  }
  fprintf(f, "},\n \"violations\": [");
  for (size_t i = 0; i < x.violations.size(); ++i) {
    Violation& v = x.violations[i];
    fprintf(f, "%s{\"key\": %s, \"scenario\": %s, \"detail\": %s}", i ? ",\n  " : "", jesc(v.key).c_str(),
            jesc(v.scenario).c_str(), jesc(v.detail).c_str());
  }
  fprintf(f, "]}\n");
  if (f != stderr) fclose(f);
  if (!x.out.empty()) {
    for (int k = 0; k < 2; ++k) {
      FILE* b = fopen((x.out + (k ? ".nontrivial" : ".states")).c_str(), "wb");
      auto& s = k ? x.nontrivial : x.states;
      std::vector<u64> v(s.begin(), s.end());
      if (!v.empty()) fwrite(v.data(), 8, v.size(), b);
      fclose(b);
    }
  }
  fflush(nullptr);
  _exit(x.violations.empty() ? 0 : 1);
}

// Runs one scenario; an escaping exception is a violation.
template <typename F>
inline void run(const std::string& text, F f) {
  if (!scenario(text)) return;
  try { f(); }
  catch (const std::exception& e) { fail("exception", std::string("unexpected exception: ") + e.what()); }
  catch (...) { fail("exception", "unexpected exception of unknown type"); }
}

// Backtracking choice: enumerates all paths through choose() calls.
struct Chooser {
  std::vector<int> pick, lim; size_t pos = 0;
  int choose(int n) {
    if (pos == pick.size()) { pick.push_back(0); lim.push_back(n); }
    if (lim[pos] != n) { fprintf(stderr, "nondeterministic choice\n"); abort(); }
    return pick[pos++];
  }
  bool next() {
    pos = 0;
    while (!pick.empty() && pick.back() + 1 >= lim.back()) { pick.pop_back(); lim.pop_back(); }
    if (pick.empty()) return false;
    ++pick.back();
    return true;
  }
  std::string str() const { std::string s; for (int p : pick) { if (!s.empty()) s += ','; s += std::to_string(p); } return s; }
};

}  // namespace vmc
#endif

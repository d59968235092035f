// Logging (C29): a message is printed whole, once, by the logger set, exactly
// if its level and its stream are enabled -- in every history of settings, and
// under every schedule of threads that log and change the settings.
#include "vsched.hpp"
#include <pthread.h>
#include <sys/wait.h>
#include <memory>
#include <boost/make_shared.hpp>
#include <iostream>
#include <sm_logging/logging.hpp>
#include <sm_logging/logging/StdOutLogger.hpp>
#include <sm_logging/logging/Formatter.hpp>
using namespace vmc;
using namespace sm::logging;
namespace lv = sm::logging::levels;

static std::string problem;
static void bad(const std::string& s) { if (problem.empty()) problem = s; }
#define REQ(c, msg) do { if (!(c)) bad(msg); } while (0)

struct Seen { std::string stream, file, message, time, function; int level, line, logger; };
static std::vector<Seen> seen;
static double now = 1000.25;
static int inside;
static bool slow;      // lets others run while it prints
struct Rec : Logger {
  int id; bool alive = true; std::function<void(const LoggingEvent&)> extra;
  Rec(int i) : id(i) {}
  ~Rec() { alive = false; if (inside && slow) bad("a logger is destroyed while it prints"); }
  Time currentTimeImplementation() const override { return Time(std::chrono::duration_cast<Duration>(std::chrono::microseconds((long long)std::llround(now * 1e6)))); }
  void logImplementation(const LoggingEvent& e) override {
    if (inside) { if (slow) bad("two threads print at once"); }
    ++inside;
    if (slow) vsched::point();
    struct Out { ~Out() { --inside; } } out;
    if (extra) extra(e);
    if (slow) vsched::point();
    if (!alive) bad("a destroyed logger prints");
    Seen s; s.stream = e.streamName; s.file = e.file; s.message = e.message; s.time = e.timestring; s.function = e.function; s.level = e.level; s.line = e.line; s.logger = id;
    seen.push_back(s);
  }
};
static void fresh(boost::shared_ptr<Logger> l = boost::shared_ptr<Logger>()) {   // as at the start of the program
  for (auto* p : g_logging_globals._log_locations) *p = LogLocation();
  g_logging_globals.~LoggingGlobals();
  new (&g_logging_globals) LoggingGlobals();
  seen.clear(); inside = 0; now = 1000.25; slow = false;
  if (l) setLogger(l);
}

// ---------------------------------------------------------------- statements
static int evaluated;
static int asked;
static int arg(int v) { ++evaluated; return v; }
static bool cond(int v) { ++asked; return v % 2; }
struct Stmt {
  const char* name; std::string stream; int level; int kind;   // kind 0 plain, 1 once, 2 throttled (2 s), 3 if the condition holds, 4 any level
  bool streamed; int line;
  std::function<void(int v, int level)> run;
};
static std::vector<Stmt> statements() {
  std::vector<Stmt> s;
#define ST(kind, stream, level, streamed, ...) s.push_back({#__VA_ARGS__, stream, level, kind, streamed, __LINE__, [](int v, int l) { (void)v; (void)l; __VA_ARGS__; }})
  ST(0, "sm", lv::Info, false, SM_INFO("m%d", arg(v)));
  ST(0, "sm", lv::Warn, true, SM_WARN_STREAM("m" << arg(v)));
  ST(0, "sm", lv::Debug, true, SM_DEBUG_STREAM("m" << arg(v)));
  ST(0, "sm", lv::All, false, SM_ALL("m%d", arg(v)));
  ST(0, "sm", lv::Fatal, true, SM_FATAL_STREAM("m" << arg(v)));
  ST(0, "sm.a", lv::Info, false, SM_INFO_NAMED("a", "m%d", arg(v)));
  ST(0, "sm.a", lv::Error, true, SM_ERROR_STREAM_NAMED("a", "m" << arg(v)));
  ST(3, "sm", lv::Warn, false, SM_WARN_COND(cond(v), "m%d", arg(v)));
  ST(3, "sm.a", lv::Info, true, SM_INFO_STREAM_COND_NAMED(cond(v), "a", "m" << arg(v)));
  ST(1, "sm", lv::Info, false, SM_INFO_ONCE("m%d", arg(v)));
  ST(1, "sm.a", lv::Warn, true, SM_WARN_STREAM_ONCE_NAMED("a", "m" << arg(v)));
  ST(2, "sm", lv::Info, false, SM_INFO_THROTTLE(2.0, "m%d", arg(v)));
  ST(2, "sm", lv::Error, true, SM_ERROR_STREAM_THROTTLE(2.0, "m" << arg(v)));
  ST(4, "sm", 0, true, SM_LOG_STREAM((Level)l, "sm", "m" << arg(v)));
  ST(4, "sm.a", 0, false, SM_LOG((Level)l, "sm.a", "m%d", arg(v)));
  ST(0, "", lv::Info, true, SM_LOG_STREAM_NAME("", lv::Info, "m" << arg(v)));
  ST(0, "sm", lv::Finest, true, SM_FINEST_STREAM("m" << arg(v)));
  ST(0, "sm", lv::Verbose, false, SM_VERBOSE("m%d", arg(v)));
  ST(0, "sm", lv::Finer, true, SM_FINER_STREAM("m" << arg(v)));
  ST(0, "sm", lv::Trace, false, SM_TRACE("m%d", arg(v)));
  ST(0, "sm", lv::Fine, true, SM_FINE_STREAM("m" << arg(v)));
  return s;
}

struct Model {
  int level = lv::Info; std::set<std::string> on{"sm"}; int logger = 1; double t = 1000.25;
  std::vector<char> hit; std::vector<double> last;
};

// One history in a process of its own: the statements keep static state.
static std::string inChild(const std::function<void()>& f) {
  static char* text = nullptr;
  if (!text) text = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  text[0] = 0;
  pid_t p = fork();
  if (p == 0) {
    signal(SIGALRM, SIG_DFL); alarm(20);
    problem.clear();
    try { f(); } catch (const std::exception& e) { bad(std::string("unexpected exception: ") + e.what()); }
    strncpy(text, problem.c_str(), 4000);
    _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? "a log statement or setting never returns" : fmt("killed by signal %d", WTERMSIG(st));
  if (!WIFEXITED(st) || WEXITSTATUS(st)) return "the process ends";
  return text;
}

static const int LEVELS[] = {lv::All, lv::Debug, lv::Warn, lv::Fatal};
static const char* NAMES[] = {"sm", "sm.a", "a", ""};
enum { OP_LEVEL = 0, OP_ON = 4, OP_OFF = 8, OP_TIME = 12, OP_LOGGER = 13, OP_NULL = 14, OP_ALL = 15, OP_STMT = 16 };
static std::string opName(int op, const std::vector<Stmt>& st) {
  if (op < OP_ON) return fmt("level %d", LEVELS[op]);
  if (op < OP_OFF) return std::string("enable '") + NAMES[op - OP_ON] + "'";
  if (op < OP_TIME) return std::string("disable '") + NAMES[op - OP_OFF] + "'";
  if (op == OP_TIME) return "1.5 s later";
  if (op == OP_LOGGER) return "another logger";
  if (op == OP_NULL) return "no logger";
  if (op == OP_ALL) return "every statement";
  return st[op - OP_STMT].name;
}

static void history(const std::vector<int>& ops, const std::vector<Stmt>& st) {
  boost::shared_ptr<Logger> a(new Rec(1)), b(new Rec(2));
  fresh(a);
  Model m; m.hit.assign(st.size(), 0); m.last.assign(st.size(), 0.0);
  int v = 0;
  auto statement = [&](size_t k) {
    const Stmt& s = st[k]; ++v;
    int lev = s.kind == 4 ? (v % 3 == 0 ? lv::Debug : v % 3 == 1 ? lv::Error : lv::Info) : s.level;
    bool want = lev >= m.level && (s.stream.empty() || m.on.count(s.stream));
    if (s.kind == 1) { if (m.hit[k]) want = false; if (want) m.hit[k] = 1; }
    if (s.kind == 2) { if (m.last[k] + 2.0 > m.t) want = false; if (want) m.last[k] = m.t; }
    bool on = want;
    if (s.kind == 3 && v % 2 == 0) want = false;
    seen.clear(); evaluated = asked = 0;
    s.run(v, lev);
    std::string where = std::string(s.name) + fmt(" (level %d)", lev);
    if (s.kind == 3) REQ(asked == (on ? 1 : 0), "the condition of a statement is not evaluated once exactly if it is enabled: " + where);
    if (!want) { REQ(seen.empty(), "printed though not enabled: " + where); REQ(evaluated == 0, "arguments of a disabled statement are evaluated: " + where); return; }
    REQ(seen.size() == 1, fmt("printed %d times instead of once: ", (int)seen.size()) + where);
    if (seen.size() != 1) return;
    const Seen& e = seen[0];
    REQ(evaluated == 1, "arguments are evaluated more than once: " + where);
    REQ(e.message == fmt("m%d", v), "another message: '" + e.message + "' " + where);
    REQ(e.stream == s.stream, "another stream: '" + e.stream + "' " + where);
    REQ(e.level == lev, "another level: " + where);
    REQ(e.logger == m.logger, "printed by another logger: " + where);
    REQ(e.line == s.line && e.file == __FILE__ && !e.function.empty(), "another place in the source: " + where);
    REQ(e.time == fmt("%.6f", m.t), "another time: " + e.time + " " + where);
  };
  for (int op : ops) {
    if (op < OP_ON) { setLevel((Level)LEVELS[op]); m.level = LEVELS[op]; }
    else if (op < OP_OFF) { enableNamedStream(NAMES[op - OP_ON]); m.on.insert(NAMES[op - OP_ON]); }
    else if (op < OP_TIME) { disableNamedStream(NAMES[op - OP_OFF]); m.on.erase(NAMES[op - OP_OFF]); }
    else if (op == OP_TIME) { now += 1.5; m.t += 1.5; }
    else if (op == OP_LOGGER) { m.logger = 3 - m.logger; setLogger(m.logger == 1 ? a : b); }
    else if (op == OP_NULL) setLogger(boost::shared_ptr<Logger>());
    else if (op == OP_ALL) for (size_t k = 0; k < st.size(); ++k) statement(k);
    else statement(op - OP_STMT);
    REQ((int)getLevel() == m.level, "getLevel is not the level set");
    for (auto n : NAMES) REQ(isNamedStreamEnabled(n) == (m.on.count(n) > 0), std::string("isNamedStreamEnabled is wrong for '") + n + "'");
    REQ(getLogger() == (m.logger == 1 ? a : b), "getLogger is not the logger set");
  }
  for (size_t k = 0; k < st.size(); ++k) statement(k);
}

static void histories() {
  std::vector<Stmt> st = statements();
  auto go = [&](const std::vector<int>& ops) {
    std::string t = "history:";
    for (int o : ops) t += " " + opName(o, st) + ";";
    if (!scenario(t) || tooMany()) return;
    std::string p = inChild([&] { history(ops, st); });
    transition(ops.size() + st.size()); state(t);
    bool set = false, stm = false; for (int o : ops) { if (o >= OP_ALL) stm = true; else if (stm) set = true; }
    if (set) nontrivial(t);   // a setting changes after a statement has been reached
    expect(p.empty(), p, t);
  };
  int nst = OP_STMT + (int)st.size();
  std::vector<int> seq;
  std::function<void(int, int, bool)> rec = [&](int depth, int n, bool all) {
    if (depth == 0) { go(seq); return; }
    for (int o = 0; o < n; ++o) {
      if (all && !seq.empty() && seq.back() == OP_ALL && o == OP_ALL) continue;
      seq.push_back(o); rec(depth - 1, n, all); seq.pop_back();
    }
  };
  for (int d = 0; d <= (thorough() ? 3 : 2); ++d) rec(d, nst, false);   // with single statements
  // every statement reached between settings, or before them
  rec(thorough() ? 4 : 3, OP_ALL + 1, true);
  for (int d = 2; d <= (thorough() ? 4 : 3); ++d) { seq = {OP_ALL}; rec(d, OP_ALL + 1, true); seq.clear(); }
}

// ------------------------------------------------------------------- messages
static void messages() {
  for (int n : {0, 1, 2, 100, 4093, 4094, 4095, 4096, 4097, 4098, 5000, 8191, 8192, 8193, 20000})
    for (int before : {0, 10, 4096, 9000})
      for (int kind = 0; kind < 2; ++kind)
        run(fmt("message of %d characters after one of %d, %s", n, before, kind ? "stream" : "printf"), [&] {
          boost::shared_ptr<Logger> a(new Rec(1)); fresh(a);
          std::string x, y;
          for (int i = 0; i < n; ++i) x += (char)('a' + i * 7 % 26);
          for (int i = 0; i < before; ++i) y += (char)('A' + i * 5 % 26);
          if (before) { if (kind) SM_INFO_STREAM(y); else SM_INFO("%s", y.c_str()); expect(seen.size() == 1 && seen[0].message == y, "long-message", fmt("%d characters", before)); }
          seen.clear();
          if (kind) SM_INFO_STREAM(x << 7 << "%d"); else SM_INFO("%s%d%%d", x.c_str(), 7);
          nontrivial(fmt("%d %d %d", n, before, kind));
          expect(seen.size() == 1 && seen[0].message == x + "7%d", "long-message", fmt("%d characters come back as %d", n + 3, seen.empty() ? -1 : (int)seen[0].message.size()));
          a.reset(); fresh();
        });
  for (int kind = 0; kind < 2; ++kind)
    for (int what = 0; what < 3; ++what)
      run(fmt("%s logger, %s", what == 0 ? "logging" : what == 1 ? "throwing" : "odd", kind ? "stream" : "printf"), [&] {
        int calls = 0;
        auto l = boost::make_shared<Rec>(1); fresh(l);
        l->extra = [&](const LoggingEvent& e) {
          ++calls;
          if (calls > 1) return;
          if (what == 0) { if (kind) SM_WARN_STREAM("inner"); else SM_WARN("inner %d", 1); }
          if (what == 1) throw std::runtime_error("full");
          if (what == 2) throw 7;
        };
        FILE* keep = stderr; stderr = fopen("/dev/null", "w");
        try { if (kind) SM_INFO_STREAM("first"); else SM_INFO("first %d", 1); }
        catch (int) { expect(what == 2, "exception", "unexpected"); }
        catch (const std::exception&) { fail("logger-exception-escapes", ""); }
        for (int k = 0; k < 2; ++k) { if (kind) SM_INFO_STREAM("next" << k); else SM_INFO("next%d", k); }
        fclose(stderr); stderr = keep;
        nontrivial(fmt("%d %d", kind, what));
        expect(calls == 3, "lost-after-failure", fmt("the logger is called %d times for 3 messages", calls));
        std::vector<std::string> got, want = {"next0", "next1"};
        if (what == 0) want.insert(want.begin(), kind ? "first" : "first 1");
        for (auto& s : seen) got.push_back(s.message);
        expect(got == want, "messages-after-failure", fmt("%d messages", (int)got.size()));
        l->extra = nullptr; l.reset(); fresh();
      });
  run("after shutdown", [&] {
    boost::shared_ptr<Logger> a(new Rec(1)); fresh(a);
    SM_INFO("one"); SM_INFO_STREAM("two");
    expect(seen.size() == 2, "printed", "");
    g_logging_globals.shutdown(); seen.clear();
    SM_INFO("one"); SM_INFO_STREAM("two");
    expect(seen.empty(), "printed-after-shutdown", "");
    a.reset(); fresh();
  });
}

// -------------------------------------------------------------------- formats
static std::string strip(const std::string& s) {   // without colours
  std::string o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == 27) { while (i < s.size() && s[i] != 'm') ++i; continue; } o += s[i]; } return o;
}
static void formats() {
  static const char* LN[] = {"ALL", "FINES", "VERBO", "FINER", "TRACE", "FINE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"};
  std::vector<std::string> piece = {"${severity}", "${message}", "${time}", "${file}", "${line}", "${function}", "${streamname}", "${unknown}", "${known}", "${KnoWn}", "x ", "$", "{", "}", "${", "${}", "${a1}", "%d"};
  auto render = [&](const std::string& f, const LoggingEvent& e) {
    std::string o;
    for (size_t i = 0; i < f.size();) {
      size_t j = i + 2;
      if (f[i] == '$' && i + 1 < f.size() && f[i + 1] == '{') {
        while (j < f.size() && isalpha(f[j])) ++j;
        if (j > i + 2 && j < f.size() && f[j] == '}') {
          std::string k = f.substr(i + 2, j - i - 2);
          if (k == "severity") { std::string n = LN[e.level]; o += std::string(5 - n.size(), ' ') + n; }
          else if (k == "message") o += e.message; else if (k == "time") o += e.timestring; else if (k == "file") o += e.file;
          else if (k == "line") o += fmt("%d", e.line); else if (k == "function") o += e.function; else if (k == "streamname") o += e.streamName;
          else if (k == "known") o += "KNOWN"; else if (k == "KnoWn") o += "CAPS"; else o += f.substr(i, j - i + 1);
          i = j + 1; continue;
        }
      }
      o += f[i++];
    }
    return o;
  };
  auto check = [&](const std::string& f) {
    run("format '" + f + "'", [&] {
      setenv("SMCONSOLE_FORMAT", f.c_str(), 1);
      Formatter F; F.extra_fixed_tokens_["known"] = "KNOWN"; F.extra_fixed_tokens_["KnoWn"] = "CAPS";
      unsetenv("SMCONSOLE_FORMAT");
      state("format " + f); nontrivial(f);
      for (int l = 0; l < lv::Count; ++l)
        for (int color = 0; color < 2; ++color) {
          LoggingEvent e("str", (Level)l, "f.cpp", 10 * l - 3, "void f()", l == 3 ? "" : l == 5 ? "${time} %s $1" : "the message", "12.5");
          F.doColor_ = color; transition();
          std::stringstream ss; F.print(e, ss);
          std::string got = ss.str(), want = render(f, e) + "\n";
          if (color) { expect(got.size() >= 4 && got.substr(0, 2) == "\033[" && got.compare(got.size() - 5, 5, "\033[0m\n") == 0, "colour", got); got = strip(got); }
          expect(got == want, "format", fmt("level %d: '", l) + got + "' instead of '" + want + "'");
        }
    });
  };
  check("");
  for (auto& a : piece) { check(a); for (auto& b : piece) { check(a + b); for (auto& c : piece) if (thorough() || piece.size() > 0) { check(a + b + c); if (thorough()) for (auto& d : piece) check(a + b + c + d); } } }
  for (int l = 0; l < lv::Count; ++l)
    run(fmt("standard logger, level %d", l), [&] {
      unsetenv("SMCONSOLE_FORMAT");
      std::stringstream cap; auto* keep = std::cout.rdbuf(cap.rdbuf());
      fresh(); setLevel(lv::All);
      SM_LOG_STREAM((Level)l, "sm", "hello " << l);
      SM_LOG((Level)l, "sm", "hello %d", l);
      std::cout.rdbuf(keep);
      std::string s = strip(cap.str()), n = LN[l]; n = std::string(5 - n.size(), ' ') + n;
      std::vector<std::string> lines; std::string x; std::stringstream in(s); while (std::getline(in, x)) lines.push_back(x);
      nontrivial(fmt("standard %d", l));
      expect(lines.size() == 2, "lines", s);
      for (auto& q : lines) {
        expect(q.compare(0, 9, "[" + n + "] [") == 0, "line", q);
        std::string e = fmt("]: hello %d", l);
        expect(q.size() > e.size() && q.compare(q.size() - e.size(), e.size(), e) == 0, "line", q);
      }
      fresh();
    });
}

// ------------------------------------------------------------------ schedules
struct Go { std::function<void()> f; pthread_t t; };
static void* goMain(void* p) {
  try { ((Go*)p)->f(); } catch (const std::exception& e) { bad(std::string("unexpected exception: ") + e.what()); }
  return nullptr;
}
struct Client {
  Go g; bool joined = false;
  Client(std::function<void()> f) { g.f = f; pthread_create(&g.t, nullptr, goMain, &g); }
  void join() { if (!joined) pthread_join(g.t, nullptr); joined = true; }
  ~Client() { join(); }
};
struct Cfg { std::string name; int bound; std::function<void()> body; };
static int count(const std::string& m) { int n = 0; for (auto& s : seen) n += s.message == m; return n; }

static void s1(int v) { SM_INFO("p%d", v); }
static void s2(int v) { SM_INFO_STREAM("q" << v); }
static void s3(int v) { SM_WARN_STREAM_NAMED("a", "r" << v); }
static void s4(const char* t) { SM_INFO("%s", t); }
static void s5(int v) { SM_FINE("f%d", v); }

static void schedules() {
  bool th = thorough(); int B = th ? 4 : 3;
  std::vector<Cfg> c;
  auto add = [&](const std::string& n, int b, std::function<void()> f) { c.push_back({n, b, f}); };
  auto start = [] {
    boost::shared_ptr<Logger> l(new Rec(1)); fresh(l); slow = true;
    vsched::watch(&g_logging_globals._namedStreamsEnabled, sizeof g_logging_globals._namedStreamsEnabled, "the names of the streams");
    vsched::watch(&g_logging_globals._log_locations, sizeof g_logging_globals._log_locations, "the list of statements");
    vsched::watch(&g_logging_globals._globalCharBuffer, sizeof g_logging_globals._globalCharBuffer, "the message buffer");
  };
  auto both = [](std::function<void()> f, std::function<void()> g) { Client a(f); g(); a.join(); };
  auto last = [] { slow = false; seen.clear(); };
  for (int n = 2; n <= 3; ++n)
    for (int k = 0; k < 3; ++k)
      add(fmt("%d threads print, statement kind %d", n, k), n == 2 ? B : B - 1, [=] {
        start(); if (k == 2) enableNamedStream("sm.a");
        std::vector<std::unique_ptr<Client>> cl;
        auto f = [=](int v) { for (int r = 0; r < (n == 2 ? 2 : 1); ++r) (k == 0 ? s1 : k == 1 ? s2 : s3)(v * 10 + r); };
        for (int i = 1; i < n; ++i) cl.emplace_back(new Client([=] { f(i); }));
        f(0);
        for (auto& x : cl) x->join();
        REQ((int)seen.size() == (n == 2 ? 4 : 3), fmt("%d messages printed", (int)seen.size()));
        for (int v = 0; v < n; ++v) for (int r = 0; r < (n == 2 ? 2 : 1); ++r) REQ(count(std::string(k == 0 ? "p" : k == 1 ? "q" : "r") + std::to_string(v * 10 + r)) == 1, "a message is lost or changed");
      });
  add("long and short messages", B, [=] {
    start(); static std::string L(5000, 'L'), M(9000, 'M');
    both([] { s4(L.c_str()); s4("x"); }, [] { s4("y"); s4(M.c_str()); });
    REQ(seen.size() == 4 && count(L) == 1 && count(M) == 1 && count("x") == 1 && count("y") == 1, "messages are mixed");
  });
  for (int on = 0; on < 2; ++on)
    for (int other = 0; other < 3; ++other)
      add(fmt("%s a stream while a statement is reached%s", on ? "enable" : "disable", other == 1 ? " again" : other == 2 ? ", two statements" : ""), B, [=] {
        start(); if (!on) enableNamedStream("sm.a");
        if (other == 1) { s3(0); seen.clear(); }
        both([=] { s3(1); if (other == 2) s1(1); }, [=] { if (on) enableNamedStream("sm.a"); else disableNamedStream("sm.a"); s3(2); });
        REQ(count("r2") == on, "a statement does not follow the setting made before by its thread");
        REQ(count("r1") <= 1, "a message is printed twice");
        last(); s3(3);
        REQ(count("r3") == on, "a statement does not follow the last setting");
        REQ(isNamedStreamEnabled("sm.a") == (on > 0), "a setting is lost");
      });
  for (int up = 0; up < 2; ++up)
    add(up ? "lower level while a statement is reached" : "raise level while a statement is reached", B, [=] {
      start(); setLevel(up ? lv::Info : lv::All);
      both([=] { s5(1); }, [=] { setLevel(up ? lv::Fine : lv::Info); s5(2); });
      REQ(count("f2") == up, "a statement does not follow the level set before by its thread");
      last(); s5(3); s1(1);
      REQ(count("f3") == up && count("p1") == 1, "a statement does not follow the last level");
    });
  // both threads make the same setting: each may rely on it afterwards
  for (int what = 0; what < 4; ++what)
    add(fmt("the same setting by two threads: %s", what == 0 ? "level up" : what == 1 ? "level down" : what == 2 ? "enable" : "disable"), B, [=] {
      start(); setLevel(what == 0 ? lv::All : lv::Info); if (what == 3) enableNamedStream("sm.a");
      s5(0); s3(0); seen.clear();
      auto set = [=] { if (what == 0) setLevel(lv::Warn); else if (what == 1) setLevel(lv::All); else if (what == 2) enableNamedStream("sm.a"); else disableNamedStream("sm.a"); };
      auto use = [=](int v) { if (what < 2) s5(v); else s3(v); };
      both([=] { set(); use(1); }, [=] { set(); use(2); });
      int want = what == 1 || what == 2 ? 1 : 0;
      for (int v = 1; v <= 2; ++v) REQ(count((what < 2 ? "f" : "r") + std::to_string(v)) == want, "a statement does not follow the setting made before by its thread");
    });
  add("different settings by two threads", B - 1, [=] {
    start(); s1(0); s3(0);
    both([=] { setLevel(lv::All); enableNamedStream("sm.a"); }, [=] { setLevel(lv::Error); disableNamedStream("sm"); });
    last(); s1(1); s3(1); s5(1);
    bool low = getLevel() == lv::All;
    REQ(low || getLevel() == lv::Error, "no thread's level is set");
    REQ(isNamedStreamEnabled("sm.a") && !isNamedStreamEnabled("sm"), "a setting is lost");
    REQ(count("p1") == 0 && count("f1") == 0, "a disabled stream prints");
    REQ(count("r1") == (low ? 1 : 0), "a statement does not follow the settings");
  });
  add("a setting by the logger", B, [=] {
    start(); auto l = boost::make_shared<Rec>(1); setLogger(l);
    l->extra = [](const LoggingEvent& e) { if (e.message[0] == 'p') enableNamedStream("sm.a"); };
    both([=] { s1(1); s3(1); }, [=] { s3(2); disableNamedStream("other"); s2(2); });
    l->extra = nullptr;
    REQ(count("p1") == 1 && count("r1") == 1 && count("q2") == 1, "a message is lost");
  });
  for (int k = 0; k < 2; ++k)
    add(fmt("another logger while a message is printed, kind %d", k), B, [=] {
      start();
      both([=] { (k ? s2 : s1)(1); (k ? s2 : s1)(2); }, [=] { setLogger(boost::shared_ptr<Logger>(new Rec(2))); (k ? s2 : s1)(3); });
      REQ(seen.size() == 3, "a message is lost or printed twice");
      for (auto& s : seen) if (s.message[1] == '3') REQ(s.logger == 2, "a message is printed by the logger set before");
    });
  try { fresh(); s1(0); s2(0); s3(0); s4("w"); s5(0); SM_INFO_STREAM("warm"); } catch (...) {}
  vsched::delayBounding(true);
  bool first = true;
  for (auto& x : c) {
    auto reset = [] { problem.clear(); };
    if (first) { reset(); vsched::warm(x.body); first = false; }
    vsched::explore(x.name, x.bound, [&] {
      reset();
      try { x.body(); } catch (const std::exception& e) { bad(std::string("unexpected exception: ") + e.what()); }
      slow = false;
    }, [&] {
      if (!problem.empty()) fail("logging: " + problem, x.name);
      std::string o; for (auto& s : seen) o += s.message.substr(0, 4) + fmt("@%d,", s.logger);
      nontrivial(x.name + o);
      fresh();
    }, th ? 300000 : 60000);
  }
}

int main(int argc, char** argv) {
  init(argc, argv);
  histories();
  messages();
  formats();
  schedules();
  return finish();
}

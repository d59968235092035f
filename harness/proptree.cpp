// Property trees: every sequence of mutations up to a depth, through several
// namespace views, against a map from paths to text; files.
#include "vmc.hpp"
#include <sm_property_tree/BoostPropertyTree.hpp>
#include <sm_property_tree/BoostPropertyTreeSupport.hpp>
#include <fstream>
#include <sys/stat.h>
#include <boost/filesystem.hpp>
#include <algorithm>
#include <boost/optional.hpp>
using namespace vmc;
typedef std::map<std::string, std::string> Model;  // path without leading slash -> text
static std::string dir;

static void put(Model& m, const std::string& p, const std::string& v) {
  for (size_t i = p.find('/'); i != std::string::npos; i = p.find('/', i + 1)) m.insert({p.substr(0, i), ""});
  m[p] = v;
}
static std::string trim(const std::string& s) {
  size_t a = s.find_first_not_of(" \t\n"), b = s.find_last_not_of(" \t\n");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
static bool asDouble(const std::string& s, double& v) {
  std::string t = trim(s); if (t.empty() || t != std::string(t.c_str())) return false;
  if (t.find_first_not_of("0123456789+-.eE") != std::string::npos) return false;
  char* e; v = strtod(t.c_str(), &e); return !*e;
}
static bool asInt(const std::string& s, int& v) {
  std::string t = trim(s); if (t.empty() || t.find_first_not_of("0123456789+-") != std::string::npos) return false;
  char* e; long l = strtol(t.c_str(), &e, 10); v = (int)l; return !*e && l == v;
}
static bool asBool(const std::string& s, bool& v) {
  std::string t = trim(s); int i;
  if (t == "true") { v = true; return true; }
  if (t == "false") { v = false; return true; }
  if (asInt(s, i) && (i == 0 || i == 1)) { v = i; return true; }
  return false;
}
enum { OK, BADKEY, BADVALUE, OTHER };
template <class F> static int outcome(F f) {
  try { f(); return OK; }
  catch (const sm::PropertyTree::InvalidKeyException&) { return BADKEY; }
  catch (const sm::PropertyTree::InvalidValueException&) { return BADVALUE; }
  catch (const std::exception&) { return OTHER; }
}
static const char* oname[] = {"a value", "InvalidKeyException", "InvalidValueException", "another exception"};

struct View { sm::PropertyTree* t; std::string ns; };  // ns: "" or "a/"
static std::string absolute(const View& v, const std::string& key) { return key[0] == '/' ? key.substr(1) : v.ns + key; }

template <class T, class G, class A> static void observe1(const char* what, const std::string& text, const std::string* s, G get, A as, const std::string& where) {
  T v = T(), w = T();
  int want = !s ? BADKEY : as(*s, w) ? OK : BADVALUE;
  int got = outcome([&] { v = get(); });
  if (got != want) fail(std::string(what) + ": wrong outcome", where + " gave " + oname[got] + ", expected " + oname[want] + "; after " + text);
  else if (got == OK && !(v == w)) fail(std::string(what) + ": wrong value", where + "; after " + text);
}
static void observe(const Model& m, const std::vector<View>& views, const std::vector<std::string>& keys, const std::string& text) {
  for (auto& v : views)
    for (auto& k : keys) {
      auto i = m.find(absolute(v, k)); const std::string* s = i == m.end() ? nullptr : &i->second;
      const sm::PropertyTree& t = *v.t; std::string where = "key " + k + " in namespace /" + v.ns;
      int e = outcome([&] { if (t.doesKeyExist(k) != (s != nullptr)) fail("doesKeyExist", where + " after " + text); });
      expect(e == OK, "doesKeyExist throws", where + " after " + text);
      observe1<double>("getDouble", text, s, [&] { return t.getDouble(k); }, asDouble, where);
      observe1<int>("getInt", text, s, [&] { return t.getInt(k); }, asInt, where);
      observe1<bool>("getBool", text, s, [&] { return t.getBool(k); }, asBool, where);
      observe1<std::string>("getString", text, s, [&] { return t.getString(k); }, [](const std::string& x, std::string& y) { y = x; return true; }, where);
      // defaults of a constant tree
      double d; int n; bool b;
      if (!s || !asDouble(*s, d)) d = 77.25;
      if (!s || !asInt(*s, n)) n = -77;
      if (!s || !asBool(*s, b)) b = true;
      int o = outcome([&] {
        expect(t.getDouble(k, 77.25) == d, "getDouble with default", where + " after " + text);
        expect(t.getInt(k, -77) == n, "getInt with default", where + " after " + text);
        expect(t.getBool(k, true) == b, "getBool with default", where + " after " + text);
        expect(t.getString(k, "dflt") == (s ? *s : "dflt"), "getString with default", where + " after " + text);
      });
      expect(o == OK, "a getter with default throws", where + " after " + text);
      transition(13);
    }
}
struct Val { int kind; double d; int i; bool b; std::string s; };
static std::vector<Val> vals() {
  std::vector<Val> r;
  r.push_back({0, 0.1, 0, false, ""});
  r.push_back({0, -1.7976931348623157e308, 0, false, ""});
  r.push_back({1, 0, std::numeric_limits<int>::min(), false, ""});
  r.push_back({1, 0, 1, false, ""});
  r.push_back({2, 0, 0, true, ""});
  r.push_back({2, 0, 0, false, ""});
  r.push_back({3, 0, 0, false, "x <&y> \"z\""});
  r.push_back({3, 0, 0, false, "12"});
  r.push_back({3, 0, 0, false, "2.5 m"});
  r.push_back({3, 0, 0, false, ""});
  r.push_back({4, 3.25, 0, false, ""});   // getters with default of a modifiable tree
  r.push_back({5, 0, 9, false, ""});
  r.push_back({6, 0, 0, true, ""});
  r.push_back({7, 0, 0, false, "def"});
  return r;
}
static std::string apply(const Val& v, View& w, const std::string& k, Model& m, const std::string& text) {
  std::string p = absolute(w, k); sm::PropertyTree& t = *w.t; std::string sayit;
  auto num = [](double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return std::string(b); };
  auto it = m.find(p); const std::string* s = it == m.end() ? nullptr : &it->second;
  switch (v.kind) {
    case 0: t.setDouble(k, v.d); put(m, p, num(v.d)); break;
    case 1: t.setInt(k, v.i); put(m, p, std::to_string(v.i)); break;
    case 2: t.setBool(k, v.b); put(m, p, v.b ? "true" : "false"); break;
    case 3: t.setString(k, v.s); put(m, p, v.s); break;
    case 4: { double d; bool ok = s && asDouble(*s, d); if (!ok) d = v.d; expect(t.getDouble(k, v.d) == d, "getDouble with default", text); if (!ok) put(m, p, num(v.d)); break; }
    case 5: { int d; bool ok = s && asInt(*s, d); if (!ok) d = v.i; expect(t.getInt(k, v.i) == d, "getInt with default", text); if (!ok) put(m, p, std::to_string(v.i)); break; }
    case 6: { bool d; bool ok = s && asBool(*s, d); if (!ok) d = v.b; expect(t.getBool(k, v.b) == d, "getBool with default", text); if (!ok) put(m, p, v.b ? "true" : "false"); break; }
    case 7: { expect(t.getString(k, v.s) == (s ? *s : v.s), "getString with default", text); if (!s) put(m, p, v.s); break; }
  }
  static const char* kn[] = {"setDouble", "setInt", "setBool", "setString", "getDouble?", "getInt?", "getBool?", "getString?"};
  return fmt("%s(/%s", kn[v.kind], p.c_str()) + (v.kind % 4 == 0 ? fmt(",%g) ", v.d) : v.kind % 4 == 1 ? fmt(",%d) ", v.i) : v.kind % 4 == 2 ? fmt(",%d) ", v.b) : "," + v.s + ") ");
}
// texts that denote numbers are compared as numbers elsewhere; here exactly
static bool sameText(const std::string& a, const std::string& b) { double x, y; return a == b || (asDouble(a, x) && asDouble(b, y) && x == y); }

static void files(const sm::BoostPropertyTree& root, const Model& m, const std::vector<std::string>& paths, const std::string& text) {
  bool mixed = false, deep = false;
  for (auto& e : m) {
    int depth = std::count(e.first.begin(), e.first.end(), '/');
    if (depth > 1) deep = true;
    auto n = m.lower_bound(e.first + "/");
    bool children = n != m.end() && n->first.compare(0, e.first.size() + 1, e.first + "/") == 0;
    if (children && !e.second.empty()) mixed = true;
  }
  for (int f = 0; f < 3; ++f) {
    if (f == 2 && (mixed || deep)) continue;  // not expressible
    std::string name = dir + (f == 0 ? "/t.xml" : f == 1 ? "/t.info" : "/t.ini");
    sm::BoostPropertyTree back; back.setString("old", "x");
    if (f == 0) { root.saveXml(name); back.loadXml(name); }
    else if (f == 1) { root.saveInfo(name); back.loadInfo(name); }
    else { root.saveIni(name); back.loadIni(name); }
    const char* fn = f == 0 ? "XML" : f == 1 ? "INFO" : "INI";
    for (auto& p : paths) {
      auto i = m.find(p);
      // an INI file does not keep what has neither text nor children
      bool have = back.doesKeyExist("/" + p);
      if (have != (i != m.end())) fail(std::string(fn) + " file: keys differ", "/" + p + " after " + text);
      else if (have && back.getString(p) != i->second) fail(std::string(fn) + " file: values differ", "/" + p + " is " + back.getString(p) + ", was " + i->second + " after " + text);
    }
    expect(!back.doesKeyExist("old"), "loading keeps old entries", text);
    noteAdd(std::string("files of kind ") + fn);
  }
}
int main(int argc, char** argv) {
  init(argc, argv);
  const char* w = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : getenv("VERIF_WORK"); dir = std::string(w ? w : "/tmp") + fmt("/proptree-%d", (int)getpid()); mkdir(dir.c_str(), 0700);
  std::vector<Val> V = vals();
  const std::vector<std::string> keys = {"a", "b", "a/b", "/a", "/c/d"};
  const std::vector<std::string> paths = {"a", "b", "a/a", "a/b", "a/a/b", "a/b/b", "a/b/a", "a/b/a/b", "c", "c/d"};
  // full views, depth 2; one name per path, depth 3 (thorough: 3 and 4)
  for (int mode = 0; mode < 2; ++mode) {
    struct Op { int view; std::string key; int val; };
    std::vector<Op> ops;
    if (mode == 0) { for (int v = 0; v < 5; ++v) for (auto& k : keys) for (size_t x = 0; x < V.size(); ++x) ops.push_back({v, k, (int)x}); }
    else for (auto& vk : std::vector<std::pair<int, std::string>>{{0, "a"}, {1, "b"}, {4, "a/b"}, {0, "/c/d"}}) for (size_t x = 0; x < V.size(); ++x) if (x != 1 && x != 2 && x != 5) ops.push_back({vk.first, vk.second, (int)x});
    int depth = mode == 0 ? 2 : thorough() ? 4 : 3;
    long n = 1; for (int i = 0; i < depth; ++i) n *= ops.size();
    for (long code = 0; code < n && !tooMany(); ++code) {
      run(fmt("tree mode=%d depth=%d sequence=%ld", mode, depth, code), [&] {
        sm::BoostPropertyTree root;
        sm::PropertyTree a(root, "a"), ab(a, "b/"), absA(ab, "/a/");
        sm::PropertyTree copy(absA);
        sm::BoostPropertyTree inB("b");   // its own tree with a base namespace
        std::vector<View> views = {{&root, ""}, {&a, "a/"}, {&ab, "a/b/"}, {&absA, "a/"}, {&copy, "a/"}};
        Model m; std::string text; long c = code;
        std::vector<u64> hist;
        for (int d = 0; d < depth; ++d) {
          const Op& o = ops[c % ops.size()]; c /= ops.size();
          text += fmt("[/%s].", views[o.view].ns.c_str()) + apply(V[o.val], views[o.view], o.key, m, text); transition();
        }
        u64 h = 3; for (auto& e : m) h = mix(mix(h, hashStr(e.first)), hashStr(e.second));
        bool fresh = state(h);
        if (m.size() > 1) nontrivial(h);
        if (fresh) observe(m, views, keys, text);
        { for (auto& p : paths) { auto i = m.find(p); expect(root.doesKeyExist("/" + p) == (i != m.end()), "existing keys", "/" + p + " after " + text); if (i != m.end()) expect(sameText(root.getString("/" + p), i->second), "text of a key", "/" + p + " after " + text); } }
        if (fresh) {
          // the files must carry what the tree holds
          Model mm = m; for (auto& e : mm) e.second = root.getString("/" + e.first);
          files(root, mm, paths, text);
        }
      });
    }
  }
  run("keys without a name", [&] {
    sm::BoostPropertyTree t; const sm::BoostPropertyTree& ct = t;
    for (std::string k : {"", "/"}) {
      expect(outcome([&] { ct.getDouble(k); }) == BADKEY && outcome([&] { ct.getInt(k, 1); }) == BADKEY && outcome([&] { t.getBool(k, true); }) == BADKEY &&
             outcome([&] { ct.doesKeyExist(k); }) == BADKEY && outcome([&] { t.setString(k, "x"); }) == BADKEY, "a key without a name is not refused", "'" + k + "'");
    }
    sm::PropertyTree none(boost::shared_ptr<sm::PropertyTreeImplementation>(), "x");
    expect(outcome([&] { none.getInt("a"); }) == OTHER && outcome([&] { none.setInt("a", 1); }) == OTHER && outcome([&] { none.doesKeyExist("a"); }) == OTHER, "a tree without implementation is used");
  });
  run("base namespaces", [&] {
    for (std::string ns : {"", "/", "n", "/n", "n/", "/n/", "n/m", "/n/m/"}) {
      sm::BoostPropertyTree t(ns); std::string full = ns; while (!full.empty() && full[0] == '/') full = full.substr(1); if (!full.empty() && full.back() != '/') full += "/";
      t.setInt("k", 5); transition();
      expect(t.getInt("/" + full + "k") == 5 && t.getInt("k") == 5 && t.doesKeyExist("k"), "base namespace", ns);
      for (std::string c : {"", "/", "c", "/c", "/c/", "c/d/"}) {
        sm::PropertyTree ch(t, c); std::string cf = c.size() && c[0] == '/' ? c.substr(1) : full + c; if (!cf.empty() && cf.back() != '/') cf += "/";
        ch.setInt("q", 6);
        expect(t.getInt("/" + cf + "q") == 6, "child namespace", ns + " " + c); state("ns" + ns + "|" + c); t.setInt("/" + cf + "q", 0);
      }
    }
  });
  run("unreadable files", [&] {
    for (int f = 0; f < 3; ++f) {
      std::string name = dir + "/bad"; { std::ofstream o(name.c_str()); o << (f == 0 ? "<a><b></a>" : f == 1 ? "a { b" : "[x\ny"); }
      sm::BoostPropertyTree t; t.setInt("keep", 4);
      for (int missing = 0; missing < 2; ++missing) {
        std::string nm = missing ? dir + "/none" : name; bool th = false;
        try { if (f == 0) t.loadXml(nm); else if (f == 1) t.loadInfo(nm); else t.loadIni(nm); } catch (const std::exception&) { th = true; }
        expect(th, "an unreadable file is accepted", fmt("%d", f)); expect(t.getInt("keep") == 4, "a failed load changes the tree");
        bool ths = false; try { if (f == 0) t.saveXml(dir + "/no/x"); else if (f == 1) t.saveInfo(dir + "/no/x"); else t.saveIni(dir + "/no/x"); } catch (const std::exception&) { ths = true; }
        expect(ths, "a file that cannot be written is accepted");
        state(fmt("bad%d%d", f, missing));
      }
    }
  });
  run("findFile", [&] {
    { std::ofstream o((dir + "/there").c_str()); }
    setenv("VDIR", dir.c_str(), 1); unsetenv("VNONE");
    expect(sm::findFile("there", "VDIR").string() == dir + "/there", "findFile");
    bool a = false, b = false; try { sm::findFile("there", "VNONE"); } catch (const std::runtime_error&) { a = true; } try { sm::findFile("absent", "VDIR"); } catch (const std::runtime_error&) { b = true; }
    expect(a && b, "findFile of a file that is not there"); setenv("VDIR", (dir + "/").c_str(), 1); expect(boost::filesystem::exists(sm::findFile("there", "VDIR")), "findFile with slash");
  });
  boost::system::error_code ec; boost::filesystem::remove_all(dir, ec);
  return finish();
}

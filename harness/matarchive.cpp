// Matrix archives: every sequence of operations up to a depth against two maps;
// for every archive reached, every truncation of its file, every point at
// which writing may fail, and every subset of names.
#include "vmc.hpp"
#include <sm_matrix_archive/MatrixArchive.hpp>
#include <fstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace vmc;
using sm::MatrixArchive; using sm::MatrixArchiveException;
typedef Eigen::MatrixXd Mat;
struct Model { std::map<std::string, Mat> m; std::map<std::string, std::string> s; };
static std::string dir;
static bool eq(const Mat& a, const Mat& b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || memcmp(a.data(), b.data(), 8 * a.size()) == 0); }
static u64 hashM(const Model& M) {
  u64 h = 5;
  for (auto& e : M.m) { h = mix(mix(mix(h, hashStr(e.first)), e.second.rows()), e.second.cols()); for (int i = 0; i < e.second.size(); ++i) h = mix(h, hashD(e.second.data()[i])); }
  for (auto& e : M.s) h = mix(mix(h, hashStr(e.first)), hashStr(e.second) + 1);
  return h;
}
// 0 returned, 1 MatrixArchiveException, 2 other
template <class F> static int outcome(F f) { try { f(); return 0; } catch (const MatrixArchiveException&) { return 1; } catch (...) { return 2; } }
static bool same(const MatrixArchive& a, const Model& M, std::string& why) {
  if (a.sizeMatrices() != M.m.size() || a.sizeStrings() != M.s.size() || a.size() != M.m.size() + M.s.size()) { why = fmt("sizes %zu %zu %zu, expected %zu matrices and %zu strings", a.size(), a.sizeMatrices(), a.sizeStrings(), M.m.size(), M.s.size()); return false; }
  size_t n = 0;
  for (auto i = a.begin(); i != a.end(); ++i, ++n) { auto j = M.m.find(i->first); if (j == M.m.end() || !eq(i->second, j->second)) { why = "matrix " + i->first; return false; } }
  if (n != M.m.size()) { why = "iteration"; return false; }
  if (a.getStrings() != M.s) { why = "strings"; return false; }
  return true;
}
static void observe(MatrixArchive& a, const Model& M, const std::vector<std::string>& names, const std::string& text) {
  std::string why; if (!same(a, M, why)) fail("contents", why + " after " + text);
  const MatrixArchive& c = a;
  for (auto& n : names) {
    auto i = M.m.find(n); const Mat* m = i == M.m.end() ? nullptr : &i->second; auto j = M.s.find(n);
    Mat o; Eigen::VectorXd v; double d = 0; std::string s; transition(8);
    int r = outcome([&] { expect(eq(c.getMatrix(n), *m), "getMatrix", text); expect(eq(a.getMatrix(n), *m), "getMatrix", text); a.getMatrix(n, o); expect(eq(o, *m), "getMatrix", text); });
    expect(r == (m ? 0 : 1), "getMatrix of " + std::string(m ? "a" : "no") + " matrix", n + " after " + text);
    r = outcome([&] { c.getVector(n, v); expect(eq(v, *m), "getVector", text); });
    expect(r == (m && m->cols() == 1 ? 0 : 1), "getVector outcome", n + " after " + text);
    r = outcome([&] { d = c.getScalar(n); double e; c.getScalar(n, e); expect(hashD(d) == hashD((*m)(0, 0)) && hashD(e) == hashD(d), "getScalar", text); });
    expect(r == (m && m->cols() == 1 && m->rows() == 1 ? 0 : 1), "getScalar outcome", n + " after " + text);
    r = outcome([&] { s = c.getString(n); std::string t; c.getString(n, t); expect(s == j->second && t == s && a.getString(n) == s, "getString", text); });
    expect(r == (j != M.s.end() ? 0 : 1), "getString outcome", n + " after " + text);
    expect((c.find(n) != c.end()) == (m != nullptr), "find", n + " after " + text);
  }
}
static Mat pattern(int r, int c, int k) { Mat m(r, c); for (int i = 0; i < m.size(); ++i) m.data()[i] = k + i * 1.25 - 0.1; return m; }

struct Part { bool matrix; std::string name; size_t end; };
static std::string bytes(const std::string& f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static void put(const std::string& f, const std::string& b) { std::ofstream o(f.c_str(), std::ios::binary); o.write(b.data(), b.size()); }
// decodes a file from the description of the format; the end of each block
static bool decode(const std::string& b, std::vector<Part>& parts, Model& M) {
  size_t p = 0;
  auto u32 = [&](size_t at) { uint32_t v; memcpy(&v, &b[at], 4); return v; };
  while (p < b.size()) {
    if (b.size() - p < 38 || (b[p] != 'A' && b[p] != 'S')) return false;
    bool m = b[p] == 'A'; std::string n = b.substr(p + 1, 32); size_t x = n.find_first_not_of(' '), y = n.find_last_not_of(' '); n = n.substr(x, y - x + 1); p += 33;
    if (m) { size_t r = u32(p), c = u32(p + 4); p += 8; if (b.size() - p < r * c * 8 + 1) return false; Mat z(r, c); if (z.size()) memcpy(z.data(), &b[p], r * c * 8); p += r * c * 8; M.s.erase(n); M.m[n] = z; }
    else { size_t k = u32(p); p += 4; if (b.size() - p < k + 1) return false; M.m.erase(n); M.s[n] = b.substr(p, k); p += k; }
    if (b[p++] != 'B') return false;
    parts.push_back({m, n, p});
  }
  return true;
}
struct Failing : std::streambuf {  // accepts a number of bytes, then fails
  size_t left; uint64_t got = 0; Failing(size_t n) : left(n) {}
  int overflow(int c) override { if (!left) return traits_type::eof(); --left; ++got; return c; }
  std::streamsize xsputn(const char*, std::streamsize n) override { std::streamsize k = std::min<size_t>(n, left); left -= k; got += k; return k; }
};
static void files(const MatrixArchive& a, const Model& M, const std::string& text) {
  std::string f = dir + "/f", g = dir + "/g", why;
  if (outcome([&] { a.save(f); })) { fail("save throws", text); return; }
  std::string b = bytes(f); std::vector<Part> parts; Model D;
  if (!decode(b, parts, D)) { fail("the file is not in the documented format", text); return; }
  { MatrixArchive z; expect(same(z, Model(), why), "a new archive is not empty"); }
  MatrixArchive back; back.setScalar("old", 3); back.setString("zz", "s");
  back.load(boost::filesystem::path(f)); Model W = M; if (!W.m.count("old") && !W.s.count("old")) W.m["old"] = Mat::Constant(1, 1, 3); if (!W.m.count("zz") && !W.s.count("zz")) W.s["zz"] = "s";
  expect(same(back, W, why), "load does not restore what was saved", why + " after " + text);
  // every truncation
  for (size_t k = 0; k < b.size(); ++k) {
    put(g, b.substr(0, k)); MatrixArchive t; transition();
    int r = outcome([&] { t.load(g); });
    Model P; bool boundary = k == 0; 
    for (auto& p : parts) if (p.end <= k) { if (p.matrix) P.m[p.name] = M.m.at(p.name); else P.s[p.name] = M.s.at(p.name); if (p.end == k) boundary = true; }
    if (r != (boundary ? 0 : 1)) fail(boundary ? "a file of complete blocks is refused" : "a truncated file is accepted", fmt("%zu of %zu bytes of ", k, b.size()) + text);
    if (!same(t, P, why)) fail("loading a truncated file", fmt("%zu of %zu bytes: ", k, b.size()) + why + " of " + text);
    nontrivial(mix(hashM(M), k));
  }
  // bytes that tell where blocks start and end
  for (auto& p : parts) { std::string c = b; c[p.end - 1] ^= 1; put(g, c); MatrixArchive t; expect(outcome([&] { t.load(g); }) == 1, "a wrong end of a block is accepted", p.name); }
  for (size_t i = 0; i < parts.size(); ++i) { std::string c = b; size_t s = i ? parts[i - 1].end : 0; c[s] = 'X'; put(g, c); MatrixArchive t; expect(outcome([&] { t.load(g); }) == 1, "a wrong start of a block is accepted", parts[i].name); }
  // every point of failure while writing
  for (size_t k = 0; k <= b.size(); ++k) { Failing fb(k); std::ostream o(&fb); int r = outcome([&] { a.save(o, std::set<std::string>()); }); transition(); if (r != (k < b.size() ? 1 : 0)) fail("a failure while writing is not reported", fmt("after %zu of %zu bytes of ", k, b.size()) + text); }
  // subsets of names, for saving, loading and appending
  std::vector<std::string> all; for (auto& e : M.m) all.push_back(e.first); for (auto& e : M.s) all.push_back(e.first);
  for (int mask = 1; mask < (1 << all.size()); ++mask) {
    std::set<std::string> sel; for (size_t i = 0; i < all.size(); ++i) if (mask >> i & 1) sel.insert(all[i]);
    Model S; for (auto& e : M.m) if (sel.count(e.first)) S.m.insert(e); for (auto& e : M.s) if (sel.count(e.first)) S.s.insert(e);
    sel.insert("absent"); a.save(boost::filesystem::path(g), sel); MatrixArchive t; t.load(g); expect(same(t, S, why), "saving some names", why + " after " + text);
    MatrixArchive u; u.load(boost::filesystem::path(f), sel); expect(same(u, S, why), "loading some names", why + " after " + text); transition(2);
    // append: what stood in the file stays, later blocks win
    MatrixArchive other; for (auto& n : all) other.setString(n, "before"); other.setString("q", "kept"); other.save(g); a.append(boost::filesystem::path(g), sel);
    Model A = S; A.s["q"] = "kept"; for (auto& n : all) if (!sel.count(n)) A.s[n] = "before";
    MatrixArchive v; v.load(g); expect(same(v, A, why), "appending some names", why + " after " + text);
  }
  put(g, b); a.append(g); expect(bytes(g) == b + b, "append does not add the blocks of save", text);
}
int main(int argc, char** argv) {
  init(argc, argv);
  const char* w = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : getenv("VERIF_WORK"); dir = std::string(w ? w : "/tmp") + fmt("/matarchive-%d", (int)getpid()); mkdir(dir.c_str(), 0700);
  std::vector<std::string> names = {"A", "b_1", std::string(31, 'x') + "9"};
  std::vector<std::string> bad = {"", "1a", "_a", "a b", "a-", std::string(33, 'y'), "a."};
  const int K = 14; int NOPS = (int)names.size() * K + 3; int depth = thorough() ? 4 : 3;
  long n = 1; for (int i = 0; i < depth; ++i) n *= NOPS;
  auto exec = [&](long c, MatrixArchive& a, Model& M, std::string& text) {
      for (int d = 0; d < depth; ++d) {
        int o = c % NOPS; c /= NOPS; transition();
        if (o == NOPS - 1) { a.clear(); M = Model(); text += "clear() "; continue; }
        if (o == NOPS - 2) { a.clear("absent"); text += "clear(absent) "; continue; }
        if (o == NOPS - 3) { MatrixArchive x(a); a = x; x.clear(); text += "copy "; continue; }
        std::string nm = names[o / K]; int k = o % K; text += fmt("%d(%s) ", k, nm.c_str());
        auto setM = [&](const Mat& m) { M.s.erase(nm); M.m[nm] = m; };
        switch (k) {
          case 0: a.setScalar(nm, -2.5); setM(Mat::Constant(1, 1, -2.5)); break;
          case 1: a.setScalar(nm, std::numeric_limits<double>::infinity()); setM(Mat::Constant(1, 1, INFINITY)); break;
          case 2: a.setMatrix(nm, pattern(2, 3, 7)); setM(pattern(2, 3, 7)); break;
          case 3: a.setMatrixXd(nm, pattern(3, 1, 1)); setM(pattern(3, 1, 1)); break;
          case 4: a.setVector(nm, Eigen::VectorXd(pattern(2, 1, 4))); setM(pattern(2, 1, 4)); break;
          case 5: a.setVectorXd(nm, pattern(1, 1, 9)); setM(pattern(1, 1, 9)); break;
          case 6: a.setMatrix(nm, Eigen::MatrixXd(0, 2)); setM(Mat(0, 2)); break;
          case 7: a.setString(nm, ""); M.m.erase(nm); M.s[nm] = ""; break;
          case 8: { std::string s("B \0A\nB", 6); a.setString(nm, s); M.m.erase(nm); M.s[nm] = s; break; }
          case 9: { Mat& m = a.createMatrix(nm, 2, 2, true); m = pattern(2, 2, 3); setM(pattern(2, 2, 3)); break; }
          case 10: { int r = outcome([&] { a.createMatrix(nm, 1, 3) = pattern(1, 3, 2); }); expect(r == (M.m.count(nm) ? 1 : 0), "createMatrix over an existing matrix", text); if (!r) setM(pattern(1, 3, 2)); break; }
          case 11: a.clear(nm); M.m.erase(nm); M.s.erase(nm); break;
          case 12: { Model B; if (d == 0) break; std::string f = dir + "/s"; a.save(f); a.clear(nm); a.load(f); break; }
          case 13: { const std::string& x = bad[d % bad.size()]; int r = 0; std::string y = d % 2 ? x : bad[(d + 3) % bad.size()];
            for (auto& q : {x, y}) { r = outcome([&] { a.setScalar(q, 1); }) + outcome([&] { a.setString(q, "v"); }) + outcome([&] { a.setMatrix(q, pattern(1, 1, 1)); }) + outcome([&] { a.setVector(q, pattern(1, 1, 1)); }) + outcome([&] { a.createMatrix(q, 1, 1, true); });
              expect(r == 5, "an invalid name is accepted", "'" + q + "'"); }
            expect(outcome([&] { a.setVector(nm, pattern(2, 2, 1)); }) == 1, "a matrix is accepted as a vector"); break; }
        }
      }
  };
  std::vector<long> firsts; 
  for (long code = 0; code < n && !tooMany(); ++code) {
    run(fmt("archive depth=%d sequence=%ld", depth, code), [&] {
      MatrixArchive a; Model M; std::string text; exec(code, a, M, text); std::string why;
      state(hashM(M)); if (!same(a, M, why)) fail("contents", why + " after " + text);
    });
  }
  { // the archives that differ, found by every process alike
    std::unordered_set<u64> seen; auto viol = g().violations; auto keys = g().violKeys; u64 tr = g().transitions;
    for (long code = 0; code < n && !tooMany(); ++code) { MatrixArchive a; Model M; std::string text; try { exec(code, a, M, text); } catch (...) {} if (seen.insert(hashM(M)).second) firsts.push_back(code); if (code % 1000 == 0) beat(); }
    g().violations = viol; g().violKeys = keys; g().transitions = tr;
  }
  for (long code : firsts) {
    if (tooMany()) break;
    run(fmt("files of archive depth=%d sequence=%ld", depth, code), [&] {
      MatrixArchive a; Model M; std::string text; exec(code, a, M, text); observe(a, M, names, text); files(a, M, text);
    });
  }
  run("invalid names", [&] {
    MatrixArchive a; for (auto& q : bad) { int r = outcome([&] { a.setScalar(q, 1); }) + outcome([&] { a.setString(q, "v"); }) + outcome([&] { a.setMatrix(q, pattern(1, 1, 1)); }) + outcome([&] { a.setVector(q, pattern(1, 1, 1)); }) + outcome([&] { a.createMatrix(q, 1, 1); }); expect(r == 5, "an invalid name is accepted", "'" + q + "'"); }
    // every character at the first and at a later place
    for (int ch = 1; ch < 256; ++ch) for (int at = 0; at < 2; ++at) {
      std::string q = at ? std::string("a") + char(ch) : std::string(1, char(ch)) + "a"; bool al = (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z'), ok = al || (at && (ch == '_' || (ch >= '0' && ch <= '9')));
      MatrixArchive b; expect(outcome([&] { b.setScalar(q, 1); }) == (ok ? 0 : 1) && b.size() == (ok ? 1u : 0u), "characters of names", fmt("%d at %d", ch, at)); state(fmt("ch%d %d", ch, at)); }
    expect(a.size() == 0 && a.maxNameSize() == 32, "invalid names are stored");
  });
  run("files that cannot be opened or written", [&] {
    MatrixArchive a; a.setScalar("A", 1); a.setString("s", "t");
    expect(outcome([&] { a.save(dir + "/no/f"); }) == 1 && outcome([&] { a.append(dir + "/no/f"); }) == 1 && outcome([&] { a.load(dir + "/none"); }) == 1, "a file that cannot be opened");
    expect(outcome([&] { a.save(std::string("/dev/full")); }) == 1 && outcome([&] { a.append(std::string("/dev/full")); }) == 1, "a full device is not reported");
    expect(a.size() == 2, "failed operations change the archive");
    { std::ofstream((dir + "/e").c_str()); } MatrixArchive b; b.load(dir + "/e"); expect(b.size() == 0, "an empty file");
    // the file may grow to any limit
    a.setMatrix("M", pattern(3, 40, 1)); a.save(dir + "/ok"); size_t full = bytes(dir + "/ok").size();
    for (int app = 0; app < 2; ++app)
      for (size_t lim = 0; lim <= full + 3; lim += (lim < 100 || lim + 60 > full) ? 1 : 7) {
        std::string f = dir + "/lim"; unlink(f.c_str()); pid_t p = fork();
        if (!p) { signal(SIGXFSZ, SIG_IGN); struct rlimit l = {lim, lim}; setrlimit(RLIMIT_FSIZE, &l); int r = outcome([&] { if (app) a.append(f); else a.save(f); }); _exit(10 + r); }
        int st; waitpid(p, &st, 0); transition(); state(fmt("lim%zu %d", lim, app));
        int r = WIFEXITED(st) ? WEXITSTATUS(st) - 10 : -1; size_t sz = bytes(f).size();
        expect(r == 0 ? sz == full : r == 1 && lim < full, "saving neither wrote the whole file nor failed", fmt("limit %zu of %zu: outcome %d, %zu bytes", lim, full, r, sz));
      }
  });
  run("a matrix of 4 GiB", [&] {
    MatrixArchive a; a.createMatrix("big", 1 << 15, 1 << 14); Failing f(~size_t(0)); std::ostream o(&f); a.save(o, std::set<std::string>());
    expect(f.got == 42 + (uint64_t(1) << 32), "a large matrix is not written completely", fmt("%llu bytes", (unsigned long long)f.got)); state("big");
  });
  if (system(("rm -rf '" + dir + "'").c_str())) {}
  return finish();
}

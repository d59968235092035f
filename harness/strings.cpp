// String routines, identifiers, small mathematics: all short strings and a
// lattice of numbers against direct definitions.
#include "vmc.hpp"
#include <iostream>
#include <algorithm>
#include <iomanip>
#include <sm_common/string_routines.hpp>
#include <sm_common/hash_id.hpp>
#include <sm_common/Id.hpp>
#include <sm_common/maths.hpp>
#include <sm_common/numerical_comparisons.hpp>
#include <sm_common/round.hpp>
#include <sm_common/progress_info.hpp>
#include <boost/multiprecision/cpp_int.hpp>
using namespace vmc;
SM_DEFINE_ID(TestId)
SM_DEFINE_ID_HASH(TestId)
template <class F> static void allStrings(const std::string& alphabet, int maxLen, F f) {
  for (int n = 0; n <= maxLen; ++n) {
    std::vector<int> c(n, 0); std::string s(n, alphabet.empty() ? 'x' : alphabet[0]);
    for (;;) {
      f(s);
      int i = n - 1; while (i >= 0 && ++c[i] == (int)alphabet.size()) { c[i] = 0; s[i] = alphabet[0]; --i; }
      if (i < 0) break;
      s[i] = alphabet[c[i]];
    }
  }
}
static std::string subst(const std::string& s, const std::map<std::string, std::string>& env) {
  std::string out;
  for (size_t i = 0; i < s.size();) {
    if (s.compare(i, 2, "$(") == 0) {
      size_t e = i + 2; while (e < s.size() && s[e] != ')') ++e;
      if (e < s.size()) { auto v = env.find(s.substr(i + 2, e - i - 2)); out += v != env.end() ? v->second : s.substr(i, e + 1 - i); i = e + 1; continue; }
      return out + s.substr(i);
    }
    out += s[i++];
  }
  return out;
}
static std::string c(const char* f, int w, int p, double v) { char b[512]; snprintf(b, sizeof b, f, w, p, v); return b; }
int main(int argc, char** argv) {
  init(argc, argv);
  bool th = thorough();
  allStrings("ab/", th ? 9 : 7, [&](const std::string& s) {
    run("string '" + s + "'", [&] {
      int na = std::count(s.begin(), s.end(), 'a'); if (na > 1) nontrivial(s);
      for (char t : {'a', '/', 'z'}) for (char r : {'b', 'a', 'z'}) for (unsigned skip = 0; skip <= 4; ++skip) {
        std::string f = s, b = s; unsigned k = 0; for (auto& x : f) if (x == t && k++ >= skip) x = r;
        k = 0; for (auto i = b.rbegin(); i != b.rend(); ++i) if (*i == t && k++ >= skip) *i = r;
        std::string got = sm::replace(s, t, r, skip); if (got != f) fail("replace", fmt("%c by %c skipping %u: ", t, r, skip) + got + " expected " + f);
        got = sm::replace_reverse(s, t, r, skip); if (got != b) fail("replace_reverse", fmt("%c by %c skipping %u: ", t, r, skip) + got + " expected " + b);
        transition(2);
      }
      for (unsigned w = 0; w < 10; ++w) { std::string p = s; while (p.size() < w) p = "." + p; expect(sm::leading_pad(s, w, '.') == p, "leading_pad", fmt("%u", w)); expect(sm::padded(s, w, '.') == p, "padded", fmt("%u", w)); }
      expect(sm::ensureTrailingBackslash(s) == (s.empty() || s.back() != '/' ? s + "/" : s), "ensureTrailingBackslash");
      expect(sm::ts(s) == s, "ts");
      std::string j, t; for (size_t i = 0; i < s.size(); ++i) { j += (i ? "," : "") + std::string(1, s[i]); t += (i ? "<>" : "") + std::string(1, s[i]); }
      expect(sm::arrToString(s.begin(), s.end()) == "[" + j + "]", "arrToString"); std::ostringstream o; sm::toStream(o, s.begin(), s.end(), "<>", "{", "}"); expect(o.str() == "{" + t + "}", "toStream"); expect(sm::arrToString(s.c_str(), (unsigned)s.size()) == "[" + j + "]", "arrToString of a pointer");
    });
  });
  // environment variables: a set one, an empty one, one whose value looks like another
  setenv("A", "one", 1); setenv("B", "", 1); setenv("AB", "$(A)", 1); unsetenv("BA"); unsetenv("AA"); unsetenv("BB");
  std::map<std::string, std::string> env = {{"A", "one"}, {"B", ""}, {"AB", "$(A)"}};
  allStrings("$()AB", th ? 9 : 8, [&](const std::string& s) {
    if (s.size() >= 8 && s.find("$(") == std::string::npos) return;
    if (s.size() >= 8 && s.compare(0, 1, "$") != 0) return;
    run("environment '" + s + "'", [&] { std::string got = sm::substituteEnvVars(s), want = subst(s, env); if (want != s) nontrivial(s); if (got != want) fail("substituteEnvVars", got + " expected " + want); });
  });
  std::vector<double> nums = {0, 1, -1, 0.5, -0.5, 9.995, 1234.5678, -1e-7, 1e10, 99.9999, -0.049};
  for (double v : nums) run(fmt("number %g", v), [&] {
    for (int w = 0; w < 14; w += 1) for (int p = 0; p < 8; ++p) {
      expect(sm::padded(v, (unsigned)w, (unsigned)p) == c("%*.*f", w, p, v), "padded number", fmt("%d %d ", w, p)); expect(sm::scientific(v, w, p) == c("%*.*e", std::max(w, p + 7), p, v), "scientific", fmt("%d %d ", w, p) + sm::scientific(v, w, p));
      expect(sm::fixedFloat(v, p) == c("%*.*f", 0, p, v), "fixedFloat", fmt("%d", p));
      std::string j = c("%*.*f", w, p, v) + ";" + c("%*.*f", w, p, -2.5) + ";" + c("%*.*f", w, p, v); double a[] = {v, -2.5, v}; expect(sm::paddedToString(w, p, a, a + 3, ";", "<", ">") == "<" + j + ">", "paddedToString"); nontrivial(j);
    }
    expect(sm::padded((int)v, 5) == c("%0*.*f", 5, 0, (int)v) || (int)v < 0, "padded int");
    expect(sm::s_tuple(v) == sm::ts(v) && sm::s_tuple(v, 2) == "[" + sm::ts(v) + ",2]" && sm::s_tuple(1, 2, 3) == "[1,2,3]" && sm::s_tuple(1, 2, 3, 4) == "[1,2,3,4]" && sm::s_tuple(1, 2, 3, 4, 5) == "[1,2,3,4,5]" && sm::s_tuple(1, 2, 3, 4, 5, 6) == "[1,2,3,4,5,6]" && sm::s_tuple(1, 2, 3, 4, 5, 6, 7) == "[1,2,3,4,5,6,7]", "s_tuple");
  });
  // hash identifiers
  std::vector<std::string> hs; const char* hexd = "0123456789abcdef";
  hs.push_back(std::string(32, '0')); hs.push_back(std::string(32, 'f'));
  for (int pos = 0; pos < 32; ++pos) for (int d = 1; d < 16; d += th ? 1 : 7) { std::string s(32, '0'); s[pos] = hexd[d]; hs.push_back(s); std::string t(32, 'a'); t[pos] = hexd[d]; hs.push_back(t); }
  hs.push_back("0123456789abcdeffedcba9876543210");
  for (size_t i = 0; i < hs.size(); ++i) run("hash id " + hs[i], [&] {
    sm::HashId a; expect(!a.isValid() && a.hexString() == std::string(32, '0'), "a new id is valid"); expect(a.fromHexString(hs[i]) && a.hexString() == hs[i], "hexadecimal round trip", a.hexString());
    std::string up = hs[i]; for (auto& x : up) x = toupper(x); sm::HashId u; expect(u.fromHexString(up) && u == a && !(u != a), "upper case");
    expect(a.isValid() == (hs[i] != std::string(32, '0')), "isValid"); std::ostringstream o; o << a; expect(o.str() == hs[i], "printing");
    std::hash<sm::HashId> H; sm::HashId cpy(a), asg; asg = a; expect(cpy == a && asg == a && H(cpy) == H(a), "copies");
    for (size_t j = 0; j < hs.size(); ++j) { sm::HashId b; b.fromHexString(hs[j]); bool eq = hs[i] == hs[j]; expect((a == b) == eq && (a != b) == !eq && (a < b) + (a > b) + (a == b) == 1 && (a < b) == (b > a) && (a < b) != (b < a) | eq, "order of ids", hs[j]); transition();
      if (i < 40) for (size_t k = 0; k < hs.size(); k += 5) { sm::HashId d; d.fromHexString(hs[k]); if (a < b && b < d) expect(a < d, "the order is not transitive", hs[j] + " " + hs[k]); } }
    nontrivial(hs[i]);
    for (int pos = 0; pos < 32; ++pos) for (char ch : {'g', ' ', '-', '+', 'x', 'G', '/', ':', '\0'}) { std::string s = hs[i]; s[pos] = ch; sm::HashId b(a); expect(!b.fromHexString(s), "text that is not hexadecimal is accepted", fmt("%d at %d", ch, pos)); expect(b == a, "a refused text changes the id"); }
    for (std::string s : {hs[i].substr(1), hs[i] + "0", std::string()}) { sm::HashId b(a); expect(!b.fromHexString(s) && b == a, "text of another length", s); }
    a.setInvalid(); expect(!a.isValid(), "setInvalid");
  });
  run("random ids", [&] { std::set<sm::HashId> s; for (int i = 0; i < 2000; ++i) s.insert(sm::HashId::random()); expect(s.size() == 2000, "random ids repeat"); sm::HashId a; a.randomize(); expect(a.isValid() && !s.count(a), "randomize"); });
  std::vector<sm::id_type> ids = {0, 1, 2, 1000, (1ull << 32) - 1, 1ull << 32, (1ull << 63) - 1, 1ull << 63, ~0ull - 1, ~0ull};
  for (auto x : ids) for (auto y : ids) run(fmt("id %llu %llu", (unsigned long long)x, (unsigned long long)y), [&] {
    TestId a(x), b(y); nontrivial(mix(x, y)); expect((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y) && a.isBinaryEqual(b) == (x == y), "comparison of ids");
    expect(a.getId() == x && a.value() == x && a.isSet() == (x != ~0ull), "value of an id"); std::ostringstream o; o << a; expect(o.str() == std::to_string(x), "printing");
    sm::Id p = a++; expect(p.getId() == x && a.getId() == x + 1 && (++a).getId() == x + 2, "increment"); a.swap(b); expect(a.getId() == y && b.getId() == x + 2, "swap"); a = b; expect(a == b, "assignment"); a.clear(); expect(!a.isSet() && !TestId().isSet() && !sm::Id().isSet(), "clear");
    expect((std::hash<TestId>()(TestId(x)) == std::hash<TestId>()(TestId(y))) == (x == y) || x != y, "hash"); });
  // rounding
  std::vector<double> rs = {0.49999999999999994, 0.5, 0.50000000000000011, 1.4999999999999998, 1.5, 2.5, 3.5, 4503599627370495.5, 4503599627370497.0, 4503599627370496.5, 9007199254740991.0, 1e18, 1e300, 0, 1e-300, 2147483646.5, 2147483647.5, 4294967296.25, 123456789012.75, 7.0, 8388609.0, 4194305.5};
  for (double m : rs) for (int sg = -1; sg <= 1; sg += 2) { double x = sg * m; run(fmt("round %.17g", x), [&] {
    long double l = x, fl = floorl(fabsl(l)); long double want = fabsl(l) - fl >= 0.5L ? fl + 1 : fl; if (x < 0) want = -want;
    expect((long double)sm::round(x) == want, "round", fmt("%.17g", sm::round(x))); float f = (float)x; long double lf = fabsl((long double)f), ff = floorl(lf), wf = lf - ff >= 0.5L ? ff + 1 : ff; if (f < 0) wf = -wf; if (std::isfinite(f)) expect((long double)sm::round(f) == wf, "round of a float", fmt("%.9g", f));
    if (fabsl(want) < 2147483648.0L) { expect(sm::rint(x) == (int)want, "rint"); } if (fabsl(want) < 9e18L) expect(sm::lrint(x) == (long)want, "lrint", fmt("%ld", sm::lrint(x))); if (fabsl(wf) < 2147483648.0L) expect(sm::rint(f) == (int)wf, "rint of a float"); if (fabsl(wf) < 9e18L) expect(sm::lrint(f) == (long)wf, "lrint of a float"); nontrivial(hashD(x)); }); }
  // quadratic equations with known roots, and without real roots
  std::vector<double> roots = {0, 1, -1, 2, 0.5, -3, 1e-3, 1e4, -1e6}, lead = {1, -1, 2, 0.25, -8};
  for (double a : lead) for (double p : roots) for (double q : roots) run(fmt("quadratic %g roots %g %g", a, p, q), [&] {
    auto r = sm::solveQuadratic(a, -a * (p + q), a * p * q); double lo = std::min(r.first, r.second), hi = std::max(r.first, r.second), wl = std::min(p, q), wh = std::max(p, q);
    auto close = [](double g, double w) { return std::fabs(g - w) <= 1e-9 * std::fabs(w) + (w == 0 ? 1e-300 : 0); };
    bool dbl = p == q; auto close2 = [&](double g, double w) { return dbl ? std::fabs(g - w) <= 1e-6 * (std::fabs(w) + (w == 0 ? 0 : 0)) : close(g, w); };
    expect(close2(lo, wl) && close2(hi, wh), "roots", fmt("%.17g %.17g", r.first, r.second)); nontrivial(mix(mix(hashD(a), hashD(wl)), hashD(wh))); });
  for (double a : lead) for (double s : {0.0, 1.0, -5.0}) run(fmt("quadratic %g without roots %g", a, s), [&] { bool t = false; try { sm::solveQuadratic(a, -2 * a * s, a * (s * s + 1)); } catch (const std::runtime_error&) { t = true; } expect(t, "an equation without real roots is solved"); });
  std::vector<double> cs = {0, 1, -1, 1 + 1e-12, 1 - 1e-12, 1.1, 1000, 1000.0001, -1000.0001, 1e-300, 1 + 2.3e-16, 0.9};
  for (double a : cs) for (double b : cs) for (double e : {1e-3, 1e-7, 1e-12, 0.2, 1.0}) run(fmt("compare %.17g %.17g %g", a, b, e), [&] {
    long double d = (long double)a - b, m = std::max(std::fabs(a), std::fabs(b)) * (long double)e; if (fabsl(fabsl(d) - m) < 1e-14L * (fabsl(d) + m) && d != 0) return;
    expect(sm::approximatelyEqual(a, b, e) == (fabsl(d) <= m), "approximatelyEqual"); expect(sm::definitelyGreaterThan(a, b, e) == (d > m), "definitelyGreaterThan"); expect(sm::definitelyLessThan(a, b, e) == (-d > m), "definitelyLessThan"); if (a != b && fabsl(d) <= m) nontrivial(mix(mix(hashD(a), hashD(b)), hashD(e)));
    expect(sm::approximatelyEqual(a, b) + sm::definitelyGreaterThan(a, b) + sm::definitelyLessThan(a, b) == 1, "exactly one of the comparisons"); expect(sm::sgn(a) == (a > 0) - (a < 0), "sgn"); });
  for (double e : {0.0, -1e-3}) run(fmt("compare with precision %g", e), [&] { int t = 0; try { sm::approximatelyEqual(1.0, 1.0, e); } catch (const std::invalid_argument&) { ++t; } try { sm::definitelyGreaterThan(1.0, 1.0, e); } catch (const std::invalid_argument&) { ++t; } try { sm::definitelyLessThan(1.0, 1.0, e); } catch (const std::invalid_argument&) { ++t; } expect(t == 3, "a precision that is not positive is accepted"); });
  return finish();
}

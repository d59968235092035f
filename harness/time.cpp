// Times and durations over a lattice of extreme values, against exact integers.
#include "vmc.hpp"
#include <sstream>
#include <aslam_time/Time.hpp>
#include <aslam_time/Duration.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
using namespace vmc;
using namespace aslam;
typedef __int128 I;
static const I G9 = 1000000000;
static std::string str(I v) { if (v < 0) return "-" + str(-v); std::string s; do { s.insert(s.begin(), char('0' + (int)(v % 10))); v /= 10; } while (v); return s; }
static const I DMIN = (I)INT32_MIN * G9, DMAX = (I)INT32_MAX * G9 + 999999999, TMIN = 0, TMAX = (I)UINT32_MAX * G9 + 999999999;
static I fdiv(I a, I b) { I q = a / b; return (a % b < 0) ? q - 1 : q; }

template <class D> I val(const D& d) { return (I)d.sec * G9 + d.nsec; }
template <class X> void canon(const X& x, I want, const std::string& what) {
  expect((I)x.nsec >= 0 && (I)x.nsec < G9, what + ": nanoseconds out of range", fmt("nsec %lld", (long long)x.nsec));
  expect(val(x) == want, what + ": wrong value", "got " + str(val(x)) + " expected " + str(want));
}
template <class X, class F> void op(const std::string& what, I want, I lo, I hi, F f) {
  transition();
  bool thrown = false; X x;
  try { x = f(); } catch (const std::runtime_error&) { thrown = true; }
  if (want < lo || want > hi) { expect(thrown, what + ": an unrepresentable result is not refused", str(want)); nontrivial(what + g().scen); }
  else { expect(!thrown, what + ": a representable result is refused", str(want)); if (!thrown) canon(x, want, what); if (want < 0) nontrivial(what + g().scen); }
}
template <class X> std::string print(const X& x) { std::ostringstream s; s << x; return s.str(); }
static std::string dec(I v) { std::string s = v < 0 ? "-" : ""; if (v < 0) v = -v; std::string f = str(v % G9); return s + str(v / G9) + "." + std::string(9 - f.size(), '0') + f; }
template <class X> void serial(const X& x) {
  std::stringstream ss; { boost::archive::text_oarchive o(ss); const X& y = x; o << y; }
  X z; boost::archive::text_iarchive i(ss); i >> z;
  expect(z == x, "serialization changes a time");
}

template <class T, class D> void all(const char* name) {
  std::vector<I> dv, tv;
  std::vector<I> nss = {0, 1, 2, 499999999, 500000000, 999999998, 999999999};
  if (thorough()) for (I n : {3, 10, 1000, 999999, 1000000, 123456789, 499999998, 500000001, 999000000}) nss.push_back(n);
  std::vector<I> ds = {INT32_MIN, (I)INT32_MIN + 1, (I)INT32_MIN / 2, -100000, -2, -1, 0, 1, 2, 100000, INT32_MAX / 2, (I)INT32_MAX - 1, INT32_MAX};
  std::vector<I> ts = {0, 1, 2, 100000, 1300000000, (I)INT32_MAX - 1, INT32_MAX, (I)INT32_MAX + 1, (I)INT32_MAX + 2, (I)UINT32_MAX - 1, UINT32_MAX};
  for (I s : ds) for (I n : nss) dv.push_back(s * G9 + n);
  for (I s : ts) for (I n : nss) tv.push_back(s * G9 + n);
  auto mkD = [](I v) { D d; d.sec = (int32_t)fdiv(v, G9); d.nsec = (int32_t)(v - fdiv(v, G9) * G9); return d; };
  auto mkT = [](I v) { T d; d.sec = (uint32_t)(v / G9); d.nsec = (uint32_t)(v % G9); return d; };
  // constructors from any pair
  std::vector<I> raw = {INT32_MIN, (I)INT32_MIN + 1, -2000000001, -2000000000, -1999999999, -1000000001, -1000000000, -999999999, -500000000, -1, 0, 1, 999999999, 1000000000, 1000000001, 1999999999, 2000000000, 2000000001, (I)INT32_MAX - 1, INT32_MAX};
  for (I s : ds) for (I n : raw)
    run(fmt("%s duration(%lld,%lld)", name, (long long)s, (long long)n), [&] {
      state(g().scen);
      op<D>("constructor", s * G9 + n, DMIN, DMAX, [&] { return D((int32_t)s, (int32_t)n); });
      int64_t a = s, b = n; I want = s * G9 + n; bool ok = true;
      try { normalizeSecNSecSigned(a, b); } catch (const std::runtime_error&) { ok = false; }
      expect(ok == (want >= DMIN && want <= DMAX), "normalizeSecNSecSigned: range");
      if (ok) expect((I)a * G9 + b == want && b >= 0 && b < G9, "normalizeSecNSecSigned: value");
    });
  for (I s : ts) for (I n : {(I)0, (I)1, G9 - 1, G9, G9 + 1, 2 * G9 - 1, 2 * G9, (I)UINT32_MAX - 1, (I)UINT32_MAX})
    run(fmt("%s time(%lld,%lld)", name, (long long)s, (long long)n), [&] {
      state(g().scen);
      op<T>("constructor", s * G9 + n, TMIN, TMAX, [&] { return T((uint32_t)s, (uint32_t)n); });
    });
  for (I v : dv) run(std::string(name) + " duration " + str(v), [&] {
      state(g().scen);
      D d = mkD(v);
      op<D>("fromNSec", v, DMIN, DMAX, [&] { D x; x.fromNSec((int64_t)v); return x; });
      op<D>("negation", -v, DMIN, DMAX, [&] { return -d; });
      expect((I)d.toNSec() == v, "toNSec");
      expect(d.isZero() == (v == 0), "isZero");
      expectNear(d.toSec(), (double)((long double)v / 1e9L), 1e-15, "toSec");
      // seconds: exact to the rounding of a double
      double x = d.toSec();
      if (x < 2147483648.0) { D y(x); long double err = (long double)(val(y)) - (long double)x * 1e9L;
      expect(fabsl(err) <= 0.5L + 1e9L * fabs(x) * 2.3e-16L, "fromSec", fmt("%.17g gives %s", x, str(val(y)).c_str()));
      expect(y.nsec >= 0 && y.nsec < 1000000000, "fromSec: nanoseconds out of range"); }
      expect(print(d) == dec(v), "print", print(d) + " is not " + dec(v));
      expect(d.toBoost().total_microseconds() == (long long)((v - fdiv(v, G9) * G9) / 1000 + fdiv(v, G9) * 1000000), "toBoost", str(v));
      for (double k : {0.0, 1.0, -1.0, 0.5, 2.0, 3.0, -0.25, 1e-3}) {
        transition();
        long double want = (long double)v * k; bool thrown = false; D z, q = d;
        try { z = d * k; q *= k; } catch (const std::runtime_error&) { thrown = true; }
        long double tol = 2 + fabsl(want) * 1e-15L;
        if (want > (long double)DMIN + tol && want < (long double)DMAX - tol) {
          expect(!thrown, "scaling: a representable result is refused");
          if (!thrown) { expect(fabsl((long double)val(z) - want) <= tol, "scaling", fmt("%s * %g = %s", str(v).c_str(), k, str(val(z)).c_str()));
            expect(z == q && z.nsec >= 0 && z.nsec < 1000000000, "scaling in place"); }
        } else if (want < (long double)DMIN - tol || want > (long double)DMAX + tol) expect(thrown, "scaling: an unrepresentable result is not refused");
      }
    });
  for (I v : tv) run(std::string(name) + " time " + str(v), [&] {
      state(g().scen);
      T t = mkT(v);
      op<T>("fromNSec", v, TMIN, TMAX, [&] { T x; x.fromNSec((uint64_t)v); return x; });
      expect((I)t.toNSec() == v, "toNSec");
      expect(t.isZero() == (v == 0) && t.is_zero() == (v == 0), "isZero");
      expectNear(t.toSec(), (double)((long double)v / 1e9L), 1e-15, "toSec");
      double x = t.toSec();
      long double err = 1e9;
      if (x < 4294967296.0) { T y(x); err = (long double)(val(y)) - (long double)x * 1e9L;
        expect(fabsl(err) <= 0.5L + 1e9L * fabs(x) * 2.3e-16L, "fromSec", fmt("%.17g gives %s", x, str(val(y)).c_str()));
        expect(y.nsec < 1000000000, "fromSec: nanoseconds out of range"); }
      expect(print(t) == dec(v), "print", print(t) + " is not " + dec(v));
      expect(t.toBoost() == boost::posix_time::ptime(boost::gregorian::date(1970, 1, 1)) + boost::posix_time::seconds((long)(v / G9)) + boost::posix_time::microseconds((long)(v % G9 / 1000)), "toBoost");
    });
  // seconds near a rounding boundary
  for (double base : {-100000.0, -2.0, -1.0, 0.0, 1.0, 2.0, 100000.0})
    for (double f : {0.0, 1e-12, 4.9e-10, 5.1e-10, 1e-9, 0.1, 0.3, 0.5, 0.7, 0.9999999994, 0.9999999996, 1 - 1e-12})
      run(fmt("%s seconds %.17g", name, base + f), [&] {
        state(g().scen);
        double x = base + f;
        D d(x); expect(d.nsec >= 0 && d.nsec < 1000000000, "fromSec: nanoseconds out of range");
        expect(fabsl((long double)val(d) - (long double)x * 1e9L) <= 0.5L + 1e9L * fabs(x) * 2.3e-16L, "fromSec", str(val(d)));
        if (x >= 0) { T t(x); expect(t.nsec < 1000000000, "fromSec: nanoseconds out of range");
          expect(fabsl((long double)val(t) - (long double)x * 1e9L) <= 0.5L + 1e9L * fabs(x) * 2.3e-16L, "fromSec", str(val(t))); }
        else { bool th = false; try { T t(x); } catch (const std::runtime_error&) { th = true; } expect(th, "fromSec: a negative time is not refused"); }
      });
  // pairs
  auto cmp = [&](auto a, auto b, I x, I y) {
    expect((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "comparison");
  };
  for (I v : dv) for (I w : dv) run(std::string(name) + " durations " + str(v) + " " + str(w), [&] {
      countStates(1);
      D a = mkD(v), b = mkD(w); cmp(a, b, v, w);
      op<D>("sum", v + w, DMIN, DMAX, [&] { return a + b; });
      op<D>("difference", v - w, DMIN, DMAX, [&] { return a - b; });
      op<D>("sum in place", v + w, DMIN, DMAX, [&] { D c = a; D& r = (c += b); expect(&r == &c, "+= returns something else"); return c; });
      op<D>("difference in place", v - w, DMIN, DMAX, [&] { D c = a; c -= b; return c; });
    });
  for (I v : tv) for (I w : dv) run(std::string(name) + " time " + str(v) + " duration " + str(w), [&] {
      countStates(1);
      T a = mkT(v); D b = mkD(w);
      op<T>("time + duration", v + w, TMIN, TMAX, [&] { return a + b; });
      op<T>("time - duration", v - w, TMIN, TMAX, [&] { return a - b; });
      op<T>("time += duration", v + w, TMIN, TMAX, [&] { T c = a; c += b; return c; });
      op<T>("time -= duration", v - w, TMIN, TMAX, [&] { T c = a; T& r = (c -= b); expect(&r == &c, "-= returns something else"); return c; });
    });
  for (I v : tv) for (I w : tv) run(std::string(name) + " times " + str(v) + " " + str(w), [&] {
      countStates(1);
      T a = mkT(v), b = mkT(w); cmp(a, b, v, w);
      op<D>("time - time", v - w, DMIN, DMAX, [&] { return a - b; });
    });
}

int main(int argc, char** argv) {
  init(argc, argv);
  all<Time, Duration>("Time");
  all<WallTime, WallDuration>("WallTime");
  run("constants", [&] {
    expect(val(TIME_MAX) == TMAX && val(TIME_MIN) == 1 && val(DURATION_MAX) == DMAX && val(DURATION_MIN) == DMIN, "constants");
    serial(Time(12, 34)); serial(TIME_MAX); serial(DURATION_MIN); serial(Duration(-3, 7)); serial(WallTime(5, 6));
    Time a = Time::now(); Time b = Time::now(); expect(b >= a && !a.isZero() && a.nsec < 1000000000, "now");
  });
  return finish();
}

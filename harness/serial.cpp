// Portable binary archives, Eigen matrices in archives, files of archives.
#include "vmc.hpp"
#include <iostream>
#include <sm_boost/portable_binary_iarchive.hpp>
#include <sm_boost/portable_binary_oarchive.hpp>
#include <sm_boost/serialization.hpp>
#include <sm_boost/ptime.hpp>
#include <Eigen/Geometry>
#include <sm_eigen/serialization.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/shared_ptr.hpp>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace vmc;
namespace ba = boost::archive;
typedef __int128 i128;
static std::string dir;
static std::string hex(const std::string& s) { std::string o; for (unsigned char c : s) o += fmt("%02x ", c); return o; }
static const unsigned FLAGS[3] = {0, ba::endian_big, ba::endian_little};

// the bytes an integer takes: the number of bytes of its magnitude (negative
// for negative numbers), then the magnitude
static std::string encoded(i128 v, bool big) {
  if (v == 0) return std::string(1, '\0');
  bool neg = v < 0; unsigned __int128 m = neg ? -(unsigned __int128)v : v; std::string b;
  while (m) { b += char((unsigned char)(m & 255)); m >>= 8; }
  if (big) b = std::string(b.rbegin(), b.rend());
  return std::string(1, char(neg ? -(int)b.size() : (int)b.size())) + b;
}
template <class T> static std::vector<T> lattice() {
  std::set<T> s;
  for (int k = 0; k < 64; ++k)
    for (int d = -3; d <= 3; ++d)
      for (int sg = -1; sg <= 1; sg += 2) {
        i128 v = sg * (((i128)1 << k) + d);
        if (v >= (i128)std::numeric_limits<T>::min() && v <= (i128)std::numeric_limits<T>::max()) s.insert((T)v);
      }
  for (int d = 0; d < 3; ++d) { s.insert(std::numeric_limits<T>::max() - d); s.insert(std::numeric_limits<T>::min() + d); }
  for (i128 v : {(i128)0x0102030405060708LL, (i128)0x1234, (i128)-0x123456, (i128)0xff00ff00LL, (i128)-0x7f00ff0102LL, (i128)0x80ff}) if (v >= (i128)std::numeric_limits<T>::min() && v <= (i128)std::numeric_limits<T>::max()) s.insert((T)v);
  return std::vector<T>(s.begin(), s.end());
}
static size_t headerSize(unsigned fl) { std::ostringstream o; { ba::portable_binary_oarchive a(o, fl); } return o.str().size(); }

template <class T> static void integers(const char* name) {
  auto L = lattice<T>();
  for (int f = 0; f < 3; ++f) {
    for (T v : L)
      run(fmt("integer %s %lld flags=%d", name, (long long)v, f), [&] {
        std::ostringstream o; size_t h = headerSize(FLAGS[f]);
        { ba::portable_binary_oarchive a(o, FLAGS[f]); a << v; }
        std::string b = o.str(), body = b.substr(h);
        i128 wide = std::numeric_limits<T>::is_signed || sizeof(T) < 8 ? (i128)v : (i128)(int64_t)v;  // carried as signed 64-bit numbers
        if (body != encoded(wide, f == 1)) fail("encoding of an integer", hex(body) + "expected " + hex(encoded(wide, f == 1)));
        nontrivial(b);
        { std::istringstream i(b); ba::portable_binary_iarchive a(i); T w = 77; a >> w; expect(w == v, "an integer comes back changed", fmt("%lld", (long long)w)); }
        for (size_t k = 0; k < b.size(); ++k) {   // truncated anywhere
          std::istringstream i(b.substr(0, k)); bool th = false;
          try { ba::portable_binary_iarchive a(i); T w; a >> w; } catch (const std::exception&) { th = true; }
          expect(th, "a truncated archive is read", fmt("%zu of %zu bytes", k, b.size())); transition();
        }
        // into a narrower type: refused
        size_t bytes = body.size() - 1;
        auto narrow = [&](auto z, const char* n) {
          std::istringstream i(b); bool th = false; ba::portable_binary_iarchive a(i);
          try { a >> z; } catch (const ba::archive_exception&) { th = true; }
          if (bytes > sizeof(z)) expect(th, "an integer is cut to fit a narrower type", n);
          else { expect(!th, "an integer that fits is refused", n); if (v >= 0 && (i128)v <= (i128)std::numeric_limits<decltype(z)>::max()) expect((i128)z == (i128)v, "an integer that fits comes back changed", n); }
        };
        narrow((short)1, "short"); narrow((int)1, "int"); narrow((unsigned)1, "unsigned"); narrow((long)1, "long"); narrow((signed char)1, "signed char");
      });
  }
}
struct Inner { int a; double b; std::string s; template <class A> void serialize(A& ar, unsigned v) { ar & a & b & s; } bool operator==(const Inner& o) const { return a == o.a && b == o.b && s == o.s; } };
struct Outer { std::vector<Inner> v; std::map<int, unsigned long> m; boost::shared_ptr<Inner> p, q; unsigned version = 0;
  template <class A> void serialize(A& ar, unsigned ver) { version = ver; ar & v & m & p & q; } };
BOOST_CLASS_VERSION(Outer, 3)

template <class M> static M fill(int r, int c) { M m(r, c); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = typename M::Scalar(1 + i * 10 + j * 3 - 7 * (i == j)); return m; }
template <class O, class X> static std::string store(const X& x) { std::ostringstream o; { O a(o); a << boost::serialization::make_nvp("m", x); } return o.str(); }
template <class O, class I, class X, class Y> static void matrixPair(const char* arch, int r, int c) {
  if (X::RowsAtCompileTime != Eigen::Dynamic && X::RowsAtCompileTime != r) return;
  if (X::ColsAtCompileTime != Eigen::Dynamic && X::ColsAtCompileTime != c) return;
  run(fmt("matrix %s %dx%d saved as (%d,%d,%d) loaded as (%d,%d,%d)", arch, r, c, (int)X::RowsAtCompileTime, (int)X::ColsAtCompileTime, (int)X::IsRowMajor, (int)Y::RowsAtCompileTime, (int)Y::ColsAtCompileTime, (int)Y::IsRowMajor), [&] {
    X x = fill<X>(r, c); std::string b = store<O>(x);
    // followed by a mark, to see that exactly the data of the matrix is read
    std::ostringstream o; { O a(o); a << boost::serialization::make_nvp("m", (const X&)x); const int mark = 4711; a << boost::serialization::make_nvp("k", mark); }
    bool fits = (Y::RowsAtCompileTime == Eigen::Dynamic || Y::RowsAtCompileTime == r) && (Y::ColsAtCompileTime == Eigen::Dynamic || Y::ColsAtCompileTime == c);
    Y y; bool th = false; int mark = 0;
    std::istringstream i(o.str());
    try { I a(i); a >> boost::serialization::make_nvp("m", y); a >> boost::serialization::make_nvp("k", mark); } catch (const sm::eigen::SerializationException&) { th = true; }
    nontrivial(mix(hashStr(b), Y::RowsAtCompileTime * 10 + Y::ColsAtCompileTime));
    expect(th == !fits, "a matrix of another shape", fits ? "refused" : "accepted");
    if (fits && !th) {
      expect(y.rows() == r && y.cols() == c && mark == 4711, "the shape or what follows", fmt("%dx%d then %d", (int)y.rows(), (int)y.cols(), mark));
      bool same = y.rows() == r && y.cols() == c; for (int k = 0; same && k < r * c; ++k) same = y.data()[k] == x.data()[k];
      expect(same, "a matrix comes back changed");
    }
  });
}
template <class O, class I, class X> static void matrixFrom(const char* arch, int r, int c) {
  using namespace Eigen; typedef typename X::Scalar S;
  matrixPair<O, I, X, Matrix<S, Dynamic, Dynamic>>(arch, r, c); matrixPair<O, I, X, Matrix<S, Dynamic, 1>>(arch, r, c); matrixPair<O, I, X, Matrix<S, Dynamic, 3>>(arch, r, c);
  matrixPair<O, I, X, Matrix<S, 2, Dynamic>>(arch, r, c); matrixPair<O, I, X, Matrix<S, 2, 3>>(arch, r, c); matrixPair<O, I, X, Matrix<S, 3, 1>>(arch, r, c); matrixPair<O, I, X, Matrix<S, 1, 1>>(arch, r, c);
}
template <class O, class I> static void matrices(const char* arch) {
  using namespace Eigen;
  for (int r = 0; r <= 3; ++r) for (int c = 0; c <= 3; ++c) {
    matrixFrom<O, I, MatrixXd>(arch, r, c); matrixFrom<O, I, MatrixXi>(arch, r, c);
    matrixFrom<O, I, VectorXd>(arch, r, c); matrixFrom<O, I, Matrix<double, 2, 3>>(arch, r, c); matrixFrom<O, I, Matrix<double, 2, Dynamic>>(arch, r, c); matrixFrom<O, I, Vector3d>(arch, r, c); matrixFrom<O, I, Matrix<float, Dynamic, 3>>(arch, r, c);
    matrixPair<O, I, Matrix<double, Dynamic, Dynamic, RowMajor>, Matrix<double, Dynamic, Dynamic, RowMajor>>(arch, r, c); matrixPair<O, I, Matrix<double, 2, 3, RowMajor>, Matrix<double, 2, 3, RowMajor>>(arch, r, c);
  }
  run(fmt("transform %s", arch), [&] {
    Affine3d t = Affine3d::Identity(); t.matrix() = fill<Matrix4d>(4, 4); std::ostringstream o; { O a(o); const Affine3d& ct = t; a << boost::serialization::make_nvp("t", ct); }
    Affine3d u; std::istringstream i(o.str()); I a(i); a >> boost::serialization::make_nvp("t", u); expect(u.matrix() == t.matrix(), "a transformation comes back changed"); nontrivial(o.str());
  });
}
static std::string bytes(const std::string& f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
template <class X> static void fileKinds(const char* name, X x) {
  auto save = [&](int k, const std::string& f) { if (k == 0) sm::boost_serialization::save(x, f); else if (k == 1) sm::boost_serialization::save_txt(x, f); else if (k == 2) sm::boost_serialization::save_xml(x, f); else if (k == 3) sm::boost_serialization::save_xml(x, "top", f); else sm::boost_serialization::save_xml(x, "", f); };
  auto load = [&](int k, const std::string& f, X& y) { if (k == 0) sm::boost_serialization::load(y, f); else if (k == 1) sm::boost_serialization::load_txt(y, f); else if (k == 2) sm::boost_serialization::load_xml(y, f); else if (k == 3) sm::boost_serialization::load_xml(y, "top", f); else sm::boost_serialization::load_xml(y, "", f); };
  for (int k = 0; k < 5; ++k) {
    run(fmt("file of %s kind %d", name, k), [&] {
      std::string f = dir + "/f"; save(k, f); X y; load(k, f, y); expect(y == x, "a file comes back changed"); std::string b = bytes(f); nontrivial(b);
      if (k == 2) { X z; sm::boost_serialization::load_xml(z, "object", f); expect(z == x, "default tag"); }
      bool t1 = false, t2 = false, t3 = false;
      try { save(k, dir + "/no/f"); } catch (const std::runtime_error&) { t1 = true; } try { load(k, dir + "/none", y); } catch (const std::runtime_error&) { t2 = true; } try { save(k, "/dev/full"); } catch (const std::exception&) { t3 = true; }
      expect(t1, "a file that cannot be opened for writing"); expect(t2, "a file that cannot be opened for reading"); expect(t3, "a full device is not reported");
      if (k == 0) for (size_t n = 0; n < b.size(); n += n < 200 ? 1 : 13) { { std::ofstream o((dir + "/t").c_str(), std::ios::binary); o.write(b.data(), n); } bool th = false; try { X z; load(k, dir + "/t", z); } catch (const std::exception&) { th = true; } expect(th, "a truncated file is read", fmt("%zu of %zu bytes", n, b.size())); transition(); }
      for (size_t lim = 0; lim <= b.size() + 1; lim += std::max<size_t>(1, b.size() / 60)) {
        std::string g = dir + "/lim"; unlink(g.c_str()); pid_t p = fork();
        if (!p) { signal(SIGXFSZ, SIG_IGN); struct rlimit l = {lim, lim}; setrlimit(RLIMIT_FSIZE, &l); int r = 0; try { save(k, g); } catch (...) { r = 1; } _exit(10 + r); }
        int st; waitpid(p, &st, 0); transition(); int r = WIFEXITED(st) ? WEXITSTATUS(st) - 10 : -1;
        expect(r == 0 ? bytes(g) == b : r == 1 && lim < b.size(), "saving neither wrote the whole file nor failed", fmt("limit %zu of %zu: %d", lim, b.size(), r));
      }
    });
  }
}
int main(int argc, char** argv) {
  init(argc, argv);
  const char* w = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : getenv("VERIF_WORK"); dir = std::string(w ? w : "/tmp") + fmt("/serial-%d", (int)getpid()); mkdir(dir.c_str(), 0700);
  integers<signed char>("signed char"); integers<short>("short"); integers<unsigned short>("unsigned short"); integers<int>("int"); integers<unsigned>("unsigned");
  integers<long>("long"); integers<unsigned long>("unsigned long"); integers<long long>("long long");
  for (int f = 0; f < 3; ++f) {
    run(fmt("other primitives flags=%d", f), [&] {
      std::vector<double> ds = {0, -0.0, 1.5, -1e308, 5e-324, INFINITY}; std::vector<std::string> ss = {"", "x", std::string("\0\xff\n", 3), std::string(300, 'q')};
      std::ostringstream o; { ba::portable_binary_oarchive a(o, FLAGS[f]);
        for (int c = -128; c < 256; ++c) { const char x = (char)c; const unsigned char u = (unsigned char)c; a << x << u; } const bool t = true, n = false; a << t << n; for (const double& d : ds) { a << d; const float e = (float)d; a << e; } for (const std::string& s : ss) a << s; const std::wstring ws(L"w\x3b1"); a << ws; }
      std::istringstream i(o.str()); ba::portable_binary_iarchive a(i); bool ok = true;
      for (int c = -128; c < 256; ++c) { char x; unsigned char u; a >> x >> u; ok = ok && x == (char)c && u == (unsigned char)c; } expect(ok, "characters"); bool t = false, n = true; a >> t >> n; expect(t && !n, "bool");
      for (double d : ds) { double x; float e; a >> x >> e; expect(memcmp(&x, &d, 8) == 0 && e == (float)d, "floating point", fmt("%g", d)); } for (auto& s : ss) { std::string x; a >> x; expect(x == s, "string"); } std::wstring ws; a >> ws; expect(ws == L"w\x3b1", "wide string"); nontrivial(o.str());
    });
    for (int n = 0; n <= 3; ++n) for (int alias = 0; alias < 3; ++alias)
      run(fmt("objects flags=%d n=%d alias=%d", f, n, alias), [&] {
        Outer x; for (int k = 0; k < n; ++k) { x.v.push_back({-1000 * k, k * 0.1, std::string(k, 'z')}); x.m[k - 1] = ~0ul >> (k * 8); }
        if (alias) { x.p.reset(new Inner{5, 6, "7"}); x.q = alias == 1 ? x.p : boost::shared_ptr<Inner>(new Inner{8, 9, "0"}); }
        std::ostringstream o; { ba::portable_binary_oarchive a(o, FLAGS[f]); const Outer& cx = x; a << cx; } std::string b = o.str(); nontrivial(b);
        { std::istringstream i(b); ba::portable_binary_iarchive a(i); Outer y; a >> y; expect(y.v == x.v && y.m == x.m && y.version == 3, "an object comes back changed"); expect(!alias ? !y.p && !y.q : y.p && y.q && *y.p == *x.p && *y.q == *x.q && (y.p == y.q) == (alias == 1), "shared objects"); }
        for (size_t k = 0; k < b.size(); ++k) { std::istringstream i(b.substr(0, k)); bool th = false; try { ba::portable_binary_iarchive a(i); Outer y; a >> y; } catch (const std::exception&) { th = true; } expect(th, "a truncated archive is read", fmt("%zu of %zu bytes", k, b.size())); transition(); }
      });
  }
  run("headers", [&] {
    bool th = false; std::ostringstream o; try { ba::portable_binary_oarchive a(o, ba::endian_big | ba::endian_little); } catch (const ba::archive_exception&) { th = true; } expect(th, "two byte orders at once");
    std::ostringstream p; { ba::portable_binary_oarchive a(p); const int x = 3; a << x; } std::string b = p.str();
    for (size_t k = 0; k < 2 + 22; ++k) { std::string c = b; c[k] ^= 1; bool t = false; std::istringstream i(c); try { ba::portable_binary_iarchive a(i); } catch (const std::exception&) { t = true; } expect(t, "a changed signature is accepted", fmt("byte %zu", k)); }
    for (int f = 0; f < 3; ++f) { std::ostringstream q; { ba::portable_binary_oarchive a(q, FLAGS[f] | ba::no_header); const long x = -70000; a << x; } std::istringstream i(q.str()); ba::portable_binary_iarchive a(i, ba::no_header); long y; a >> y; expect(y == -70000, "archives without header"); nontrivial(q.str()); }
  });
  matrices<ba::text_oarchive, ba::text_iarchive>("text"); matrices<ba::binary_oarchive, ba::binary_iarchive>("binary"); matrices<ba::xml_oarchive, ba::xml_iarchive>("xml"); matrices<ba::portable_binary_oarchive, ba::portable_binary_iarchive>("portable");
  fileKinds("matrix", Eigen::MatrixXd(fill<Eigen::MatrixXd>(3, 5))); fileKinds("large matrix", Eigen::MatrixXd(fill<Eigen::MatrixXd>(40, 60))); fileKinds("vector", std::vector<int>{1, -2, 3}); fileKinds("empty", std::vector<double>()); fileKinds("string", std::string("a <b> & c"));
  {
    boost::posix_time::ptime e(boost::gregorian::date(1970, 1, 1));
    for (long long s : {0LL, 1LL, -1LL, 59LL, 86399LL, 86400LL, 951782400LL, 2147483647LL, 2147483648LL, 4294967296LL, 7258118400LL}) for (long us : {0L, 1L, 999999L, 500000L, -1L})
      run(fmt("ptime %lld %ld", s, us), [&] { boost::posix_time::ptime t = e + boost::posix_time::hours(s / 3600) + boost::posix_time::seconds(s % 3600) + boost::posix_time::microseconds(us); timeval v = sm::ptimeToTimeval(t); expect(std::labs(v.tv_usec) < 1000000 && (long long)v.tv_sec * 1000000 + v.tv_usec == s * 1000000 + us, "ptimeToTimeval", fmt("%ld s %ld us", (long)v.tv_sec, (long)v.tv_usec)); nontrivial(g().scen); });
  }
  if (system(("rm -rf '" + dir + "'").c_str())) {}
  return finish();
}

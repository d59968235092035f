// Camera geometries on a lattice of parameters and points against the model
// equations in extended precision.
#pragma once
#include <vmc.hpp>
#include <aslam_cameras/cameras.hpp>
#include <sm_kinematics/homogeneous_coordinates.hpp>
#include <sm_boost/portable_binary_oarchive.hpp>
#include <sm_boost/portable_binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <sstream>
#include <functional>
using namespace vmc; using namespace aslam::cameras;
typedef long double L; typedef std::vector<L> LV; typedef Eigen::MatrixXd M; typedef Eigen::Vector3d V3; typedef Eigen::Vector4d V4; typedef Eigen::Vector2d V2; typedef Eigen::VectorXd VX;
extern int mode;
inline std::string str(const M& m) { std::string s; for (int i = 0; i < m.size(); ++i) s += fmt("%.17g ", m.data()[i]); return s; }
inline bool close(const M& a, const M& b, double tol) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; if (!a.size()) return true; return (a - b).allFinite() && (a - b).cwiseAbs().maxCoeff() <= tol * (1 + b.cwiseAbs().maxCoeff()); }
inline void near(const M& a, const M& b, double tol, const char* key, const std::string& d) { if (!close(a, b, tol)) fail(key, d + ": " + str(a) + " instead of " + str(b)); }

enum DK { NONE, RADTAN, EQUI, FOV }; enum PK { PINHOLE, OMNI, EUCM, DS };
template <class D> struct Dis; 
template <> struct Dis<NoDistortion> { static const DK k = NONE; static NoDistortion make(const std::vector<double>&) { return NoDistortion(); } static std::vector<std::vector<double>> sets() { return {{}}; } };
template <> struct Dis<RadialTangentialDistortion> { static const DK k = RADTAN; static RadialTangentialDistortion make(const std::vector<double>& d) { return RadialTangentialDistortion(d[0], d[1], d[2], d[3]); }
  static std::vector<std::vector<double>> sets() { return {{0, 0, 0, 0}, {-0.2, 0.13, 0.0005, 0.0015}, {0.1, -0.02, -0.01, 0.02}}; } };
template <> struct Dis<EquidistantDistortion> { static const DK k = EQUI; static EquidistantDistortion make(const std::vector<double>& d) { return EquidistantDistortion(d[0], d[1], d[2], d[3]); }
  static std::vector<std::vector<double>> sets() { return {{0, 0, 0, 0}, {-0.02, 0.013, -0.005, 0.0007}, {0.07, 0.01, -0.004, 0.002}}; } };
template <> struct Dis<FovDistortion> { static const DK k = FOV; static FovDistortion make(const std::vector<double>& d) { return FovDistortion(d[0]); } static std::vector<std::vector<double>> sets() { return {{1.0}, {0.55}, {1.45}, {0.0}}; } };
template <class P> struct Pro;
template <class D> struct Pro<PinholeProjection<D>> { static const PK k = PINHOLE; typedef D dist; static const int n = 4;
  static PinholeProjection<D> make(const std::vector<double>& q, int ru, int rv, const D& d) { return PinholeProjection<D>(q[0], q[1], q[2], q[3], ru, rv, d); } static std::vector<std::vector<double>> sets() { return {{}}; } };
template <class D> struct Pro<OmniProjection<D>> { static const PK k = OMNI; typedef D dist; static const int n = 5;
  static OmniProjection<D> make(const std::vector<double>& q, int ru, int rv, const D& d) { return OmniProjection<D>(q[0], q[1], q[2], q[3], q[4], ru, rv, d); } static std::vector<std::vector<double>> sets() { return {{0.9}, {0.0}, {1.0}, {1.6}}; } };
template <class D> struct Pro<ExtendedUnifiedProjection<D>> { static const PK k = EUCM; typedef D dist; static const int n = 6;
  static ExtendedUnifiedProjection<D> make(const std::vector<double>& q, int ru, int rv, const D& d) { return ExtendedUnifiedProjection<D>(q[0], q[1], q[2], q[3], q[4], q[5], ru, rv, d); }
  static std::vector<std::vector<double>> sets() { return {{0.6, 1.1}, {0.0, 1.0}, {0.4, 0.8}, {0.5, 1.2}, {0.8, 2.0}}; } };
template <class D> struct Pro<DoubleSphereProjection<D>> { static const PK k = DS; typedef D dist; static const int n = 6;
  static DoubleSphereProjection<D> make(const std::vector<double>& q, int ru, int rv, const D& d) { return DoubleSphereProjection<D>(q[0], q[1], q[2], q[3], q[4], q[5], ru, rv, d); }
  static std::vector<std::vector<double>> sets() { return {{-0.2, 0.55}, {0.0, 0.4}, {0.3, 0.6}, {-0.3, 0.3}, {0.1, 0.5}}; } };

inline void distortL(DK k, const LV& d, L& x, L& y) {
  L r2 = x * x + y * y, r = sqrtl(r2);
  if (k == RADTAN) { L a = x * (1 + d[0] * r2 + d[1] * r2 * r2) + 2 * d[2] * x * y + d[3] * (r2 + 2 * x * x), b = y * (1 + d[0] * r2 + d[1] * r2 * r2) + d[2] * (r2 + 2 * y * y) + 2 * d[3] * x * y; x = a; y = b; }
  if (k == EQUI) { if (r == 0) return; L t = atanl(r), t2 = t * t, s = t * (1 + t2 * (d[0] + t2 * (d[1] + t2 * (d[2] + t2 * d[3])))) / r; x *= s; y *= s; }
  if (k == FOV) { L w = d[0]; if (w == 0) return; L s = r == 0 ? 2 * tanl(w / 2) / w : atanl(2 * r * tanl(w / 2)) / (r * w); x *= s; y *= s; }
}
// the part of the projection before the distortion; false behind the camera; margin: distance from that border
inline bool normalizeL(PK k, const LV& q, const L* p, L& x, L& y, L* margin = 0) {
  L X = p[0], Y = p[1], Z = p[2], n = sqrtl(X * X + Y * Y + Z * Z), lim, den;
  if (k == PINHOLE) { lim = 0; den = Z; }
  else if (k == OMNI) { lim = -(q[0] <= 1 ? q[0] : 1 / q[0]) * n; den = Z + q[0] * n; }
  else if (k == EUCM) { L a = q[0], d = sqrtl(q[1] * (X * X + Y * Y) + Z * Z); lim = -(a <= 0.5L ? a / (1 - a) : (1 - a) / a) * d; den = a * d + (1 - a) * Z; }
  else { L xi = q[0], a = q[1], w1 = a <= 0.5L ? a / (1 - a) : (1 - a) / a, w2 = (w1 + xi) / sqrtl(2 * w1 * xi + xi * xi + 1), kk = xi * n + Z; lim = -w2 * n; den = a * sqrtl(X * X + Y * Y + kk * kk) + (1 - a) * kk; }
  if (margin) *margin = fabsl(Z - lim) / n;
  x = X / den; y = Y / den; return Z > lim;
}
inline bool projectL(PK k, DK dk, const LV& q, const LV& d, const L* p, L* out, L* margin = 0) {
  L x, y; bool v = normalizeL(k, q, p, x, y, margin); distortL(dk, d, x, y); int o = q.size() - 4; out[0] = q[o] * x + q[o + 2]; out[1] = q[o + 1] * y + q[o + 3]; return v;
}
// derivative of f at x by sixth order differences
inline M diffL(const std::function<void(const LV&, L*)>& f, const LV& x, int rows, L h = 1e-3L) {
  M J(rows, x.size());
  for (size_t i = 0; i < x.size(); ++i) { L s = h * std::max<L>(1e-3L, fabsl(x[i])); L o[6][8]; int n = 0; for (int k : {-3, -2, -1, 1, 2, 3}) { LV y = x; y[i] += k * s; f(y, o[n++]); }
    for (int r = 0; r < rows; ++r) J(r, i) = (double)((-o[0][r] + 9 * o[1][r] - 45 * o[2][r] + 45 * o[3][r] - 9 * o[4][r] + o[5][r]) / (60 * s)); }
  return J;
}
inline M diff(const std::function<VX(const VX&)>& f, const VX& x, double h) {
  M J; for (int i = 0; i < x.size(); ++i) { auto at = [&](double t) -> VX { VX y = x; y[i] += t; return f(y); }; VX c = (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h); if (!i) J.resize(c.size(), x.size()); J.col(i) = c; } return J;
}
inline std::vector<V3> directions() {
  std::vector<V3> o; std::vector<double> th = {0, 1e-12, 1e-9, 1e-4, 2e-3, 0.01, 0.1, 0.35, 0.7, 1.0, 1.25, 1.45, 1.6, 2.0, 2.6, M_PI}; if (thorough()) { th.push_back(0.5); th.push_back(0.85); th.push_back(1.55); th.push_back(2.3); th.push_back(1e-6); }
  std::vector<double> az = {0, M_PI / 4, M_PI / 2, 2.2, M_PI, 4.0, 5.6}; if (thorough()) for (int i = 0; i < 8; ++i) az.push_back(0.3 + i * 0.77);
  for (double t : th) for (double a : az) { o.push_back(V3(sin(t) * cos(a), sin(t) * sin(a), cos(t))); if (t == 0) { o.back() = V3(0, 0, 1); break; } }
  o.push_back(V3(1, 0, 0)); o.push_back(V3(0, 1, 0)); o.push_back(V3(0.3, 0, 1)); return o;
}
template <class P> struct One {
  typedef typename Pro<P>::dist D; typedef CameraGeometry<P, GlobalShutter, NoMask> G; typedef CameraGeometry<P, RollingShutter, ImageMask> GM;
  std::vector<double> q, d; int ru = 640, rv = 480; LV lq, ld; std::string name; G g; bool eqLike;
  One(const std::vector<double>& q_, const std::vector<double>& d_, const std::string& n) : q(q_), d(d_), name(n), g(Pro<P>::make(q, 640, 480, Dis<D>::make(d))) { for (double x : q) lq.push_back(x); for (double x : d) ld.push_back(x); }
  // loose where the code approximates the field of view distortion
  double loose(const L* p) const { if (Dis<D>::k != FOV) return 1e-10; L x, y; normalizeL(Pro<P>::k, lq, p, x, y); return x * x + y * y < 1.1e-5L || d[0] == 0 ? 2e-5 : 1e-10; }
  std::string ds(const VX& p) const { return name + " at " + str(p); }
  void values(const V3& p) {
    L lp[3] = {p[0], p[1], p[2]}, lo[2], m; bool front = projectL(Pro<P>::k, Dis<D>::k, lq, ld, lp, lo, &m); if (m < 1e-9L) return;
    transition(); std::string s = ds(p); bool inside = lo[0] >= 0 && lo[0] < ru && lo[1] >= 0 && lo[1] < rv; double edge = std::min(std::min(fabs((double)lo[0]), fabs((double)(lo[0] - ru))), std::min(fabs((double)lo[1]), fabs((double)(lo[1] - rv)))); bool sure = !front || edge > 1e-3;
    if (front && inside) nontrivial(hashStr(s));
    V2 want(lo[0], lo[1]); double tol = loose(lp);
    auto chk = [&](bool ok, const M& k, const char* key, bool fr) { if (sure) expect(ok == (fr && inside), (std::string(key) + "-valid").c_str(), s + fmt(": %d", (int)ok)); if (fr) near(k, want, tol, key, s); };
    V2 k; Eigen::Matrix<double, 2, 3> J; VX kv; M Jv; V3 pp = p;
    k.setZero(); bool ok = g.euclideanToKeypoint(pp, k); chk(ok, k, "project", front); k.setZero(); ok = g.euclideanToKeypoint(pp, k, J); chk(ok, k, "project-jacobian", front);
    ok = g.vsEuclideanToKeypoint(p, kv); chk(ok, kv, "project-virtual", front); ok = g.vsEuclideanToKeypoint(p, kv, Jv); chk(ok, kv, "project-virtual", front);
    if (sure) { expect(g.isEuclideanVisible(p) == (front && inside), "visible", s); expect(g.vsIsEuclideanVisible(p) == (front && inside), "visible", s); }
    for (double w : {1.0, 0.25, 0.0, -1e-3, -1.0, -3.0}) {
      V4 ph; ph << (w < 0 ? V3(-p) : p), w; k.setZero(); ok = g.homogeneousToKeypoint(ph, k); chk(ok, k, "homogeneous", front); Eigen::Matrix<double, 2, 4> Jh; k.setZero(); ok = g.homogeneousToKeypoint(ph, k, Jh); chk(ok, k, "homogeneous-jacobian", front);
      ok = g.vsHomogeneousToKeypoint(ph, kv); chk(ok, kv, "homogeneous-virtual", front); ok = g.vsHomogeneousToKeypoint(ph, kv, Jv); chk(ok, kv, "homogeneous-virtual", front);
      if (sure) { expect(g.isHomogeneousVisible(ph) == (front && inside), "visible", s); expect(g.vsIsHomogeneousVisible(ph) == (front && inside), "visible", s); }
      if (w != 0) { k.setZero(); sm::kinematics::HomogeneousPoint hp(ph); ok = g.homogeneousToKeypoint(hp, k); chk(ok, k, "homogeneous-point", front);
        Eigen::Matrix4d U = Eigen::Matrix4d::Zero(); U.topLeftCorner<3, 3>() = 0.01 * Eigen::Matrix3d::Identity(); U(0, 1) = U(1, 0) = 0.004; sm::kinematics::UncertainHomogeneousPoint up(ph, U); typename G::covariance_t C; k.setZero(); ok = g.homogeneousToKeypoint(up, k, C); chk(ok, k, "homogeneous-uncertain", front);
        if (ok && tol < 1e-9) near(C, Jh * up.U4() * Jh.transpose(), 1e-9, "uncertainty", s); }
    }
  }
  bool undistortable(const V3& p) const { // the part of the image where the iterations of undistort are good
    L lp[3] = {p[0], p[1], p[2]}, x, y; if (!normalizeL(Pro<P>::k, lq, lp, x, y)) return false; double r = sqrt((double)(x * x + y * y)), th = acos(std::min(1.0, p[2] / p.norm()));
    if (Dis<D>::k == RADTAN && r > 0.75) return false; if (Dis<D>::k == EQUI && atan(r) > 0.9) return false; if (Dis<D>::k == FOV && atan(2 * r * tan(d[0] / 2)) > 1.5) return false;
    if (Pro<P>::k == OMNI && q[0] > 1 && r * r > 0.98 / (q[0] * q[0] - 1)) return false;
    if (Pro<P>::k == EUCM && q[0] > 0.5 && r * r > 0.98 / (q[1] * (2 * q[0] - 1))) return false; if (Pro<P>::k == DS && q[1] > 0.5 && r * r > 0.98 / (2 * q[1] - 1)) return false;
    if (Pro<P>::k == OMNI && q[0] >= 1 && th > 2.4) return false; return r < 30;
  }
  void back(const V3& p) {
    L lp[3] = {p[0], p[1], p[2]}, lo[2]; if (!projectL(Pro<P>::k, Dis<D>::k, lq, ld, lp, lo) || !undistortable(p)) return;
    V2 k(lo[0], lo[1]); transition(); std::string s = name + " keypoint " + str(k); bool inside = k[0] >= 0 && k[0] < ru && k[1] >= 0 && k[1] < rv; double edge = std::min(std::min(fabs(k[0]), fabs(k[0] - ru)), std::min(fabs(k[1]), fabs(k[1] - rv)));
    L x, y; normalizeL(Pro<P>::k, lq, lp, x, y); double tol = std::max(2e-7, 10 * loose(lp)) * std::max(1.0, (double)sqrtl(x * x + y * y)); V3 n = p.normalized();
    auto chk = [&](bool ok, const VX& b, const char* key) { if (Pro<P>::k == PINHOLE ? inside && edge > 1e-6 : true) expect(ok, (std::string(key) + "-valid").c_str(), s); if (Pro<P>::k == PINHOLE && !inside && edge > 1e-6) expect(!ok, (std::string(key) + "-valid").c_str(), s);
      V3 e = b.head(3); near(e.normalized(), n, tol, key, s + " of " + str(p)); if (b.size() == 4) expect(b[3] == 0, "back-at-infinity", s); };
    V3 e; V4 h; VX kv = k, ev; M Jv; bool ok = g.keypointToEuclidean(k, e); chk(ok, e, "back"); ok = g.keypointToHomogeneous(k, h); chk(ok, h, "back-homogeneous");
    ok = g.vsKeypointToEuclidean(kv, e); chk(ok, e, "back-virtual"); ok = g.vsKeypointToHomogeneous(kv, ev); chk(ok, ev, "back-virtual"); ev = VX::Zero(4); 
    if (Dis<D>::k == FOV) return; Eigen::Matrix<double, 3, 2> J; Eigen::Matrix<double, 4, 2> J4;
    ok = g.keypointToEuclidean(k, e, J); chk(ok, e, "back-jacobian"); ok = g.keypointToHomogeneous(k, h, J4); chk(ok, h, "back-jacobian");
    VX e1, e2; M J1, J2; ok = g.vsKeypointToEuclidean(kv, e1, J1); chk(ok, e1, "back-virtual"); ok = g.vsKeypointToHomogeneous(kv, e2, J2); chk(ok, e2, "back-virtual");
    if (mode == 18) {
      auto f = [&](const VX& z) -> VX { V3 o; g.keypointToEuclidean(V2(z), o); return o; };
      M want = diff(f, k, 5e-5 * q[q.size() - 4]); double jt = Dis<D>::k == NONE ? 1e-7 : 1e-5; if (x * x + y * y > 25) return;
      near(J * 100, want * 100, jt, "back-derivative", s); M w4 = M::Zero(4, 2); w4.topRows(3) = want; near(J4 * 100, w4 * 100, jt, "back-derivative", s); near(J1 * 100, want * 100, jt, "back-derivative-virtual", s); near(J2 * 100, w4 * 100, jt, "back-derivative-virtual", s);
    }
  }
  void jacobians(const V3& p) {
    L lp[3] = {p[0], p[1], p[2]}, lo[2], m; bool front = projectL(Pro<P>::k, Dis<D>::k, lq, ld, lp, lo, &m); if (!front || m < 0.05L) return; { L x, y; normalizeL(Pro<P>::k, lq, lp, x, y); if (x * x + y * y > 1e4L) return; }
    transition(); std::string s = ds(p); nontrivial(hashStr(s)); double tol = loose(lp) > 1e-6 ? 1e-3 : 1e-7; V2 k; V3 pp = p; double sc = 1; LV P3 = {lp[0], lp[1], lp[2]};
    // steps relative to the size of the point
    M Jp = diffL([&](const LV& x, L* o) { projectL(Pro<P>::k, Dis<D>::k, lq, ld, x.data(), o); }, P3, 2, 1e-3L * 0 + 5e-4L);
    { L h = 2e-4L * sqrtl(lp[0] * lp[0] + lp[1] * lp[1] + lp[2] * lp[2]); for (int i = 0; i < 3; ++i) { L o[6][2]; int n = 0; for (int t : {-3, -2, -1, 1, 2, 3}) { L x[3] = {lp[0], lp[1], lp[2]}; x[i] += t * h; projectL(Pro<P>::k, Dis<D>::k, lq, ld, x, o[n++]); } for (int r = 0; r < 2; ++r) Jp(r, i) = (double)((-o[0][r] + 9 * o[1][r] - 45 * o[2][r] + 45 * o[3][r] - 9 * o[4][r] + o[5][r]) / (60 * h)); } }
    if (Dis<D>::k == FOV && d[0] == 0) tol = 1e-7; 
    Eigen::Matrix<double, 2, 3> J; VX kv; M Jv; g.euclideanToKeypoint(pp, k, J); near(J, Jp, tol, "point", s); g.vsEuclideanToKeypoint(p, kv, Jv); near(Jv, Jp, tol, "point-virtual", s);
    for (double w : {1.0, 0.0, -2.0}) { V4 ph; ph << (w < 0 ? V3(-p) : p), w; Eigen::Matrix<double, 2, 4> Jh; M want = M::Zero(2, 4); want.leftCols(3) = w < 0 ? M(-Jp) : Jp; g.homogeneousToKeypoint(ph, k, Jh); near(Jh, want, tol, "homogeneous", s + fmt(" w %g", w)); g.vsHomogeneousToKeypoint(ph, kv, Jv); near(Jv, want, tol, "homogeneous-virtual", s + fmt(" w %g", w)); }
    M Ji = diffL([&](const LV& x, L* o) { projectL(Pro<P>::k, Dis<D>::k, x, ld, lp, o); }, lq, 2), Jd(2, 0);
    if (d.size()) { Jd = diffL([&](const LV& x, L* o) { projectL(Pro<P>::k, Dis<D>::k, lq, x, lp, o); }, ld, 2); if (Dis<D>::k == FOV && d[0] == 0) Jd.setZero(); }
    double it = tol; if (Dis<D>::k == FOV && tol > 1e-6) it = 1e-3;
    M Ki, Kd; g.euclideanToKeypointIntrinsicsJacobian(pp, Ki); near(Ki, Ji, it, "intrinsics", s); g.euclideanToKeypointDistortionJacobian(pp, Kd); if (d.size()) near(Kd, Jd, it, "distortion", s);
    for (int fl = 0; fl < 8; ++fl) { bool a = fl & 1, b = fl & 2, c = fl & 4; M want(2, (a ? Ji.cols() : 0) + (b ? Jd.cols() : 0)); if (a) want.leftCols(Ji.cols()) = Ji; if (b) want.rightCols(Jd.cols()) = Jd; const CameraGeometryBase& base = g; std::string t = s + fmt(" flags %d", fl);
      M O; base.euclideanToKeypointIntrinsicsJacobian(p, O, a, b, c); near(O, want, it, "combined", t); V4 ph; ph << p, 1; base.homogeneousToKeypointIntrinsicsJacobian(ph, O, a, b, c); near(O, want, it, "combined-homogeneous", t); ph = -ph; base.homogeneousToKeypointIntrinsicsJacobian(ph, O, a, b, c); near(O, want, it, "combined-homogeneous", t); }
  }
  void distortion() {
    D dd = Dis<D>::make(d); for (double r : {0.0, 1e-9, 1e-4, 0.003, 0.004, 0.1, 0.3, 0.55, 0.7, 1.0}) for (int a = 0; a < 9; ++a) {
      V2 y(r * cos(a * 0.7), r * sin(a * 0.7)); if (a == 8) y = V2(0, r); L x0 = y[0], x1 = y[1]; distortL(Dis<D>::k, ld, x0, x1); V2 want(x0, x1); std::string s = name + " distortion at " + str(y); transition(); bool lo = Dis<D>::k == FOV && (r * r < 1.1e-5 || d[0] == 0); double tol = lo ? 1e-6 : 1e-13;
      V2 u = y; dd.distort(u); near(u, want, tol, "distort", s); u = y; Eigen::Matrix2d J; dd.distort(u, J); near(u, want, tol, "distort", s);
      M Jw = diffL([&](const LV& x, L* o) { o[0] = x[0]; o[1] = x[1]; distortL(Dis<D>::k, ld, o[0], o[1]); }, {(L)y[0], (L)y[1]}, 2); if (mode == 18) near(J, Jw, lo ? 1e-3 : 1e-8, "distort-derivative", s);
      if (Dis<D>::k == FOV && atan(2 * r * tan(d[0] / 2)) > 1.5) continue; if (Dis<D>::k == RADTAN && r > 0.75) continue; if (Dis<D>::k == EQUI && r > 1.1) continue;
      u = want; dd.undistort(u); near(u, y, lo ? 1e-5 : 1e-7, "undistort", s); if (Dis<D>::k == FOV) continue;
      u = want; M J2(2, 2); dd.undistort(u, J2); near(u, y, 1e-7, "undistort", s); if (mode == 18) near(J2, Jw.inverse(), 1e-6, "undistort-derivative", s);
      if (mode == 18 && d.size()) { M Jd; dd.distortParameterJacobian(y, Jd); near(Jd, diffL([&](const LV& x, L* o) { o[0] = y[0]; o[1] = y[1]; distortL(Dis<D>::k, x, o[0], o[1]); }, ld, 2), 1e-9, "distortion-parameters", s); }
    }
    if (mode == 18 && Dis<D>::k == FOV) for (double r : {0.0, 1e-3, 0.2, 1.0}) { V2 y(r * 0.6, -r * 0.8); M Jd; dd.distortParameterJacobian(y, Jd); M want = diffL([&](const LV& x, L* o) { o[0] = y[0]; o[1] = y[1]; distortL(FOV, x, o[0], o[1]); }, ld, 2); if (d[0] == 0) want.setZero(); near(Jd, want, r * r < 1e-5 ? 1e-6 : 1e-8, "distortion-parameters", name + fmt(" r %g", r)); }
  }
  void validity() { // exactly at the edges of the sensor
    std::vector<double> us = {-1e300, -1, -1e-9, -0.0, 0, 1e-9, 0.5, ru - 1.0, ru - 1e-9, (double)ru, ru + 1.0, 1e300, NAN}, vs = {-1e300, -1, -1e-9, -0.0, 0, 1e-9, 0.5, rv - 1.0, rv - 1e-9, (double)rv, rv + 1.0, 1e300, NAN};
    for (double u : us) for (double v : vs) { V2 k(u, v); VX kv = k; bool in = u >= 0 && u < ru && v >= 0 && v < rv; std::string s = name + fmt(" %.17g %.17g", u, v); transition(); expect(g.isValid(k) == in, "valid", s); expect(g.vsIsValid(kv) == in, "valid", s); expect(g.projection().isValid(k) == in, "valid", s); }
  }
  void params(); void masks();
};
template <class P> void One<P>::params() {
  typedef One<P> O; const CameraGeometryBase& b = g; std::string s = name; int np = Pro<P>::n, nd = d.size();
  RollingShutter rs(1e-4); CameraGeometry<P, RollingShutter, NoMask> c0(g.projection(), rs); transition(); nontrivial(hashStr(s));
  expect(b.minimalDimensionsProjection() == np && b.minimalDimensionsDistortion() == nd && b.minimalDimensionsShutter() == 0 && c0.minimalDimensionsShutter() == 1, "dimensions", s);
  expect(b.width() == ru && b.height() == rv && b.keypointDimension() == 2, "size", s);
  VX all(np + nd + 1); for (int i = 0; i < np; ++i) all[i] = q[i]; for (int i = 0; i < nd; ++i) all[np + i] = d[i]; all[np + nd] = 1e-4;
  std::vector<V3> pts = {V3(0.1, -0.2, 1), V3(0, 0, 1), V3(-0.5, 0.3, 2)};
  auto sameAs = [&](const CameraGeometryBase& a, const VX& v, const char* key, const std::string& t) {
    std::vector<double> qq(v.data(), v.data() + np), dd(v.data() + np, v.data() + np + nd); CameraGeometry<P, RollingShutter, NoMask> f(Pro<P>::make(qq, a.width(), a.height(), Dis<D>::make(dd)), RollingShutter(v[np + nd]));
    for (const V3& p : pts) { VX k1, k2; bool o1 = a.vsEuclideanToKeypoint(p, k1), o2 = f.vsEuclideanToKeypoint(p, k2); expect(o1 == o2 && (!o1 || k1 == k2), key, t + " projects " + str(k1) + " not " + str(k2)); V3 e1, e2; VX kk(2); kk << 200, 150; o1 = a.vsKeypointToEuclidean(kk, e1); o2 = f.vsKeypointToEuclidean(kk, e2); expect(o1 == o2 && (!o1 || e1 == e2), key, t + " lifts " + str(e1) + " not " + str(e2)); V2 q2(20, 450); 
      expect(a.vsTemporalOffset(q2).toNSec() == f.vsTemporalOffset(q2).toNSec(), key, t + " offset"); }
  };
  for (int fl = 0; fl < 8; ++fl) {
    bool fp = fl & 1, fd = fl & 2, fs = fl & 4; int n = (fp ? np : 0) + (fd ? nd : 0) + (fs ? 1 : 0); std::string t = s + fmt(" flags %d", fl); transition();
    std::vector<int> idx; if (fp) for (int i = 0; i < np; ++i) idx.push_back(i); if (fd) for (int i = 0; i < nd; ++i) idx.push_back(np + i); if (fs) idx.push_back(np + nd);
    expect(c0.minimalDimensions(fp, fd, fs) == n, "dimensions", t); M Pm; c0.getParameters(Pm, fp, fd, fs); expect(Pm.rows() == n, "parameters", t); for (int i = 0; i < n && Pm.rows() == n; ++i) expect(Pm(i, 0) == all[idx[i]], "parameters", t);
    CameraGeometry<P, RollingShutter, NoMask> c = c0; VX dv(n); VX want = all; for (int i = 0; i < n; ++i) { dv[i] = 0.001 * (i + 1); want[idx[i]] += dv[i]; } if (Dis<D>::k == FOV && d[0] == 0 && fd) continue;
    c.update(dv.data(), fp, fd, fs); sameAs(c, want, "update", t); M P2; c.getParameters(P2, true, true, true); near(P2, want, 0, "update", t);
    c = c0; M set(n, 1); for (int i = 0; i < n; ++i) set(i, 0) = want[idx[i]]; c.setParameters(set, fp, fd, fs); sameAs(c, want, "set", t); c.getParameters(P2, true, true, true); near(P2, want, 0, "set", t);
    if (n) { c.setParameters(Pm, fp, fd, fs); expect(c.isBinaryEqual(c0), "restore", t); sameAs(c, all, "restore", t); }
    M T; c0.temporalOffsetIntrinsicsJacobian(V2(20, 450), T, fp, fd, fs); M wt = M::Zero(1, n); if (fs) wt(0, n - 1) = 450; near(T, wt, 0, "shutter-jacobian", t);
  }
  for (double ld : {-2e-5, 0.0, 3.0, -1e-12}) { CameraGeometry<P, RollingShutter, NoMask> c(g.projection(), RollingShutter(ld)), e = c0; VX want = all; want[np + nd] = ld; M Pm; transition(); c.getParameters(Pm, true, true, true); near(Pm, want, 0, "parameters", s + fmt(" line delay %g", ld)); c.getParameters(Pm, false, false, true); expect(Pm.rows() == 1 && Pm(0, 0) == ld, "parameters", s); e.setParameters(Pm, false, false, true); sameAs(e, want, "set", s + fmt(" line delay %g", ld)); double back = 1e-4 - ld; e.update(&back, false, false, true); M P3; e.getParameters(P3, false, false, true); expect(P3.rows() == 1 && P3(0, 0) == ld + back, "update", s + fmt(" line delay %g", ld)); }
  // every parameter matters for equality and survives serialization
  for (int i = -1; i <= np + nd; ++i) { VX v = all; if (i >= 0) v[i] += 0.001; if (Dis<D>::k == FOV && d[0] == 0 && i == np) continue; CameraGeometry<P, RollingShutter, NoMask> c = c0; c.setParameters(v, true, true, true); expect(c.isBinaryEqual(c0) == (i < 0), "equal", s + fmt(" parameter %d", i));
    std::stringstream ss; { boost::archive::binary_oarchive o(ss); const CameraGeometry<P, RollingShutter, NoMask>& cc = c; o << cc; } CameraGeometry<P, RollingShutter, NoMask> r; { boost::archive::binary_iarchive in(ss); in >> r; }
    expect(r.isBinaryEqual(c), "serialization", s + fmt(" parameter %d", i)); expect(r.width() == ru && r.height() == rv, "serialization", s); sameAs(r, v, "serialization", s); }
  for (int w = 0; w < 2; ++w) { P pr = Pro<P>::make(q, w ? 640 : 641, w ? 481 : 480, Dis<D>::make(d)); expect(!pr.isBinaryEqual(g.projection()), "equal", s + " size"); }
  for (double f : {0.5, 2.0, 0.25}) { P pr = g.projection(); pr.resizeIntrinsics(f); expect(pr.ru() == (int)(ru * f) && pr.rv() == (int)(rv * f), "resize", s); for (const V3& p : pts) { V2 a, b2; bool oa = g.projection().euclideanToKeypoint(p, a), ob = pr.euclideanToKeypoint(p, b2); expect(oa == ob, "resize", s); if (oa) near(b2, a * f, 1e-13, "resize", s); V3 e1, e2; V2 k1(201, 149); V2 k2 = k1 * f; g.projection().keypointToEuclidean(k1, e1); pr.keypointToEuclidean(k2, e2); near(e2, e1, 1e-12, "resize", s); } }
  // shutter
  for (double ld : {0.0, 1e-4, -2e-5, 0.5}) for (double v : {0.0, 0.5, 100.0, 479.0}) { RollingShutter r2(ld); transition(); expect(r2.temporalOffset(V2(3, v)).toNSec() == aslam::Duration(ld * v).toNSec(), "shutter", s); CameraGeometry<P, RollingShutter, NoMask> c(g.projection(), r2); VX k(2); k << 3, v; const CameraGeometryBase& cb = c; expect(cb.vsTemporalOffset(k).toNSec() == aslam::Duration(ld * v).toNSec() && cb.temporalOffset(k).toNSec() == aslam::Duration(ld * v).toNSec(), "shutter", s); expect(fabs(r2.temporalOffset(V2(3, v)).toSec() - ld * v) <= 1.01e-9, "shutter", s); expect(g.vsTemporalOffset(k).toNSec() == 0, "shutter", s); }
  masks();
}
template <class P> void One<P>::masks() {
  std::string s = name + " mask";
  for (double scale : {1.0, 0.5, 0.125, 2.0}) {
    int mw = (int)(ru * scale), mh = (int)(rv * scale); cv::Mat mask(mh, mw, CV_8UC1); for (int y = 0; y < mh; ++y) for (int x = 0; x < mw; ++x) mask.at<uchar>(y, x) = ((x / 3 + y / 5) % 3 == 0) ? 0 : ((x + y) % 2 ? 255 : 1);
    ImageMask im(mask, scale); GM c(g.projection(), RollingShutter(), im), e(g.projection(), RollingShutter(), ImageMask()); expect(c.hasMask() && !e.hasMask() && !g.hasMask(), "has-mask", s);
    auto lit = [&](double u, double v) { double a = u * scale, b = v * scale; return a >= 0 && b >= 0 && a < mw && b < mh && mask.at<uchar>((int)b, (int)a) > 0; };
    for (double u : {-2.0, -0.4, 0.0, 0.6, 5.0, 17.9, 100.0, 333.3, 638.9, 639.999, 640.0, 700.0, 1e7}) for (double v : {-3.0, -0.1, 0.0, 0.9, 7.0, 33.2, 211.0, 402.7, 478.5, 479.99, 480.0, 999.0, -1e7}) {
      V2 k(u, v); VX kv = k; bool in = u >= 0 && u < ru && v >= 0 && v < rv; std::string t = s + fmt(" scale %g at %g %g", scale, u, v); transition(); expect(c.isValid(k) == (in && lit(u, v)) && c.vsIsValid(kv) == (in && lit(u, v)), "mask", t); expect(e.isValid(k) == in, "no-mask", t);
      V3 p; V4 h; Eigen::Matrix<double, 3, 2> B3; Eigen::Matrix<double, 4, 2> B4; M Bv; VX pv; bool lifts = g.keypointToEuclidean(k, p); expect(c.keypointToEuclidean(k, p) == (lifts && lit(u, v)), "mask-back", t); expect(c.keypointToHomogeneous(k, h) == (lifts && lit(u, v)), "mask-back", t); VX hv; if (Dis<D>::k != FOV) expect(c.keypointToEuclidean(k, p, B3) == (lifts && lit(u, v)) && c.keypointToHomogeneous(k, h, B4) == (lifts && lit(u, v)) && c.vsKeypointToEuclidean(kv, pv, Bv) == (lifts && lit(u, v)) && c.vsKeypointToHomogeneous(kv, hv, Bv) == (lifts && lit(u, v)), "mask-back-jacobian", t); expect(c.vsKeypointToEuclidean(kv, p) == (lifts && lit(u, v)) && c.vsKeypointToHomogeneous(kv, hv) == (lifts && lit(u, v)), "mask-back", t);
      expect(im.isValid(k) == lit(u, v), "mask-only", t);
    }
    for (const V3& p : directions()) { V2 k, kc; VX kv; k.setZero(); bool ok = g.euclideanToKeypoint(p, k), w = ok && lit(k[0], k[1]); std::string t = s + " of " + str(p); transition(); V4 h; h << p, 1; Eigen::Matrix<double, 2, 3> J; Eigen::Matrix<double, 2, 4> J4; M Jv;
      expect(c.euclideanToKeypoint(p, kc) == w && c.euclideanToKeypoint(p, kc, J) == w && c.homogeneousToKeypoint(h, kc) == w && c.homogeneousToKeypoint(h, kc, J4) == w, "mask-project", t); expect(c.vsEuclideanToKeypoint(p, kv) == w && c.vsEuclideanToKeypoint(p, kv, Jv) == w && c.vsHomogeneousToKeypoint(h, kv) == w && c.vsHomogeneousToKeypoint(h, kv, Jv) == w, "mask-project", t);
      expect(c.isEuclideanVisible(p) == w && c.isHomogeneousVisible(h) == w, "mask-visible", t); expect(c.vsIsEuclideanVisible(p) == w && c.vsIsHomogeneousVisible(h) == w, "mask-visible-virtual", t); }
    Eigen::MatrixXi mm = im.getMaskAsMatrix(); ImageMask i2; expect(!i2.isSet(), "mask-matrix", s); i2.setMaskFromMatrix(mm); i2.setScale(scale); expect(i2.isSet() && i2.isBinaryEqual(im) && i2.getScale() == scale, "mask-matrix", s); mm(1, 2) ^= 1; i2.setMaskFromMatrix(mm); expect(!i2.isBinaryEqual(im), "mask-equal", s);
    ImageMask i3(mask, scale / 2); expect(!i3.isBinaryEqual(im), "mask-equal", s + " scale"); mask.at<uchar>(0, 0) = 7; expect(im.getMask().at<uchar>(0, 0) != 7, "mask-copy", s); { ImageMask i4; i4.setMask(mask); const uchar was = mask.at<uchar>(0, 0); mask.at<uchar>(0, 0) = was ^ 5; expect(i4.getMask().at<uchar>(0, 0) == was, "mask-copy", s + " set"); } mask.at<uchar>(0, 0) = im.getMask().at<uchar>(0, 0);
    std::stringstream ss; { boost::archive::binary_oarchive o(ss); const GM& cc = c; o << cc; } GM r; { boost::archive::binary_iarchive in(ss); in >> r; } expect(r.isBinaryEqual(c) && r.mask().getScale() == scale, "mask-serialization", s);
  }
}
template <class P> void all(const char* pn, const char* dn) {
  typedef typename Pro<P>::dist D; int i = 0;
  std::vector<std::vector<double>> fs = {{400, 350, 320.3, 241.7}, {90, 110, 300, 200}}; if (thorough()) { fs.push_back({800, 820, 319.5, 239.5}); fs.push_back({30, 29, 350, 260}); }
  for (auto& f : fs) for (auto& x : Pro<P>::sets()) for (auto& d : Dis<D>::sets()) { std::vector<double> q = x; q.insert(q.end(), f.begin(), f.end()); std::string n = std::string(pn) + " " + dn + fmt(" %d", i++);
    run(n, [&] { One<P> o(q, d, n); if (mode == 19) { o.params(); return; } o.distortion(); if (mode == 17) o.validity();
      for (const V3& u : directions()) for (double r : {1.0, 0.02, 40.0}) { if (mode == 17) o.values(u * r); else o.jacobians(u * r); if (r == 1.0) o.back(u); } }); }
}

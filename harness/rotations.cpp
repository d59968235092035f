// Rotations: every conversion and operation of sm_kinematics on a lattice of
// rotations against direct definitions.
#include <vmc.hpp>
#include <sm_kinematics/quaternion_algebra.hpp>
#include <sm_kinematics/rotations.hpp>
#include <sm_kinematics/RotationVector.hpp>
#include <sm_kinematics/EulerRodriguez.hpp>
#include <sm_kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm_kinematics/EulerAnglesZYX.hpp>
#include <sm_kinematics/EulerAnglesZXY.h>
#include <Eigen/Dense>
using namespace vmc; using namespace sm::kinematics;
typedef Eigen::Vector3d V3; typedef Eigen::Vector4d V4; typedef Eigen::Matrix3d M3; typedef Eigen::Matrix4d M4;

static std::string str(const Eigen::MatrixXd& m) { std::string s; for (int i = 0; i < m.size(); ++i) s += fmt("%.17g ", m.data()[i]); return s; }
static void near(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b, double tol, const char* key, const std::string& d) {
  bool ok = a.rows() == b.rows() && a.cols() == b.cols();
  double e = 0; if (ok && a.size()) { e = (a - b).cwiseAbs().maxCoeff(); ok = e <= tol && (a - b).allFinite(); }
  if (!ok) fail(key, d + ": " + str(a) + " instead of " + str(b) + fmt(" diff %g", e));
}
static M3 cross(const V3& v) { M3 m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }
// The rotation of a rotation vector in the convention of the library: exp(-v x).
static M3 rodrigues(const V3& v) {
  typedef Eigen::Matrix<long double, 3, 3> L3;
  Eigen::Matrix<long double, 3, 1> l = v.cast<long double>(); long double t = l.norm();
  L3 k; k << 0, -l[2], l[1], l[2], 0, -l[0], -l[1], l[0], 0;
  long double a = t < 1e-6L ? 1 - t * t / 6 : sinl(t) / t, b = t < 1e-4L ? 0.5L - t * t / 24 : (1 - cosl(t)) / (t * t);
  return (L3::Identity() - a * k + b * k * k).cast<double>();
}
static V4 quatOf(const V3& v) {
  long double t = v.cast<long double>().norm(), s = t < 1e-5L ? 0.5L - t * t / 48 : sinl(t / 2) / t;
  Eigen::Matrix<long double, 4, 1> q; q.head<3>() = v.cast<long double>() * s; q[3] = cosl(t / 2); return q.cast<double>();
}
static M3 elem(int axis, double a) {  // standard right handed rotation
  M3 m = M3::Identity(); int i = (axis + 1) % 3, j = (axis + 2) % 3;
  m(i, i) = m(j, j) = cos(a); m(i, j) = -sin(a); m(j, i) = sin(a); return m;
}
static std::vector<V3> axes() {
  std::vector<V3> o;
  for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) if (x || y || z) o.push_back(V3(x, y, z).normalized());
  o.push_back(V3(1, 2, 3).normalized()); o.push_back(V3(-0.3, 0.9, -0.1).normalized()); o.push_back(V3(1, 1e-9, 0).normalized()); o.push_back(V3(1e-5, 0.7, -1).normalized());
  if (thorough()) { o.push_back(V3(3, -7, 1e-3).normalized()); o.push_back(V3(-5, 2, 4).normalized()); o.push_back(V3(1e-12, 1e-3, 1).normalized()); }
  return o;
}
static std::vector<double> angles() {
  std::vector<double> o = {0, 1e-300, 1e-16, 1e-13, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1.2e-4, 1.23e-4, 1e-3, 0.01, 0.1, 0.7, 1, 1.5707963267948966, 2, 2.5, 3, 3.14, M_PI - 1e-4, M_PI - 1e-7, M_PI - 1e-9, M_PI};
  if (thorough()) for (double a : {1e-12, 3e-9, 1.5e-8, 3e-5, 5e-4, 0.03, 0.3, 1.2, 1.9, 2.2, 2.8, 3.1, M_PI - 1e-2, M_PI - 1e-5, M_PI - 1e-11}) o.push_back(a);
  return o;
}
static std::vector<double> bigAngles() { return {M_PI + 1e-9, M_PI + 1e-3, 3.5, 4, 5, 6, 2 * M_PI - 1e-2, 2 * M_PI - 1e-4}; }

static void conversions() {
  std::vector<double> an = angles(); size_t nSmall = an.size(); for (double b : bigAngles()) an.push_back(b);
  for (size_t i = 0; i < an.size(); ++i) run(fmt("convert angle=%.17g", an[i]), [&] {
    for (const V3& ax : axes()) {
      V3 v = ax * an[i]; std::string d = fmt("vector (%.17g %.17g %.17g)", v[0], v[1], v[2]); transition(); nontrivial(hashStr(d));
      M3 C = rodrigues(v); V4 q = axisAngle2quat(v);
      near(q, quatOf(v), 2e-15, "quaternion", d); near(qexp(v), q, 0, "quaternion", d);
      near(quat2r(q), C, 4e-15, "matrix-of-quaternion", d);
      near(axisAngle2R(v), C, 4e-15 + 1e-12 * (v.norm() < 1e-12), "matrix-of-vector", d);
      near(axisAngle2R(v[0], v[1], v[2]), C, 4e-15 + 1e-12 * (v.norm() < 1e-12), "matrix-of-vector", d);
      near(axisAngle2R(an[i], ax[0], ax[1], ax[2]), C, 4e-15 + 1e-12 * (v.norm() < 1e-12), "matrix-of-axis-angle", d);
      near(axisAngle2R(-an[i], -ax[0], -ax[1], -ax[2]), C, 4e-15 + 1e-12 * (v.norm() < 1e-12), "matrix-of-axis-angle", d);
      V4 r = r2quat(C); expect(r[3] >= 0, "quaternion-sign", d); near(V4(r * (r.dot(q) < 0 ? -1 : 1)), q, 1e-14, "quaternion-of-matrix", d);
      // logarithm
      V3 l = quat2AxisAngle(q); near(qlog(q), l, 0, "logarithm", d);
      double cond = 1 / std::max(1e-5, 2 * M_PI - v.norm());
      near(l, v, 1e-14 * (1 + cond) * (1 + v.norm()), "logarithm", d); near(axisAngle2quat(l), q, 1e-14, "logarithm-exp", d);
      if (an[i] > 1e-10) { V3 ln = quat2AxisAngle(V4(-q)); near(axisAngle2quat(ln), -q, 1e-14, "logarithm-negative", d); }
      Eigen::Vector4f qf = q.cast<float>(); qf.normalize();
      Eigen::Vector3f lf = quat2AxisAngle<float>(qf); near(lf.cast<double>(), quat2AxisAngle(V4(qf.cast<double>().normalized())), 3e-6 * (1 + cond), "logarithm-float", d);
      V3 a = R2AxisAngle(C); near(rodrigues(a), C, 4e-14, "vector-of-matrix", d); expect(a.norm() <= M_PI + 1e-14, "vector-norm", d);
      if (an[i] > 0 && i < nSmall && an[i] < 3.141) near(a, v, 4e-14 , "vector-of-matrix", d);
      // the classes
      RotationVector rv; EulerRodriguez er; EulerAnglesYawPitchRoll ypr; EulerAnglesZYX zyx; EulerAnglesZXY zxy;
      near(rv.parametersToRotationMatrix(v), C, 5e-15, "rotation-vector", d);
      near(rodrigues(rv.rotationMatrixToParameters(C)), C, 4e-14, "rotation-vector-inverse", d);
      if (an[i] < M_PI - 1e-6) {
        V3 p = er.rotationMatrixToParameters(C); double t = tan(an[i] / 2);
        near(p, ax * t, 2e-14 * (1 + t * t), "rodriguez-parameters", d);
        near(er.parametersToRotationMatrix(ax * t), C, 2e-14, "rodriguez", d); near(er.parametersToRotationMatrix(p), C, 2e-14, "rodriguez-inverse", d);
      }
      struct E { const RotationalKinematics* k; const char* n; double s; }; E es[] = {{&ypr, "ypr", C(2, 0)}, {&zyx, "zyx", C(2, 0)}, {&zxy, "zxy", C(2, 1)}};
      for (const E& e : es) {
        V3 p = e.k->rotationMatrixToParameters(C); expect(p.allFinite(), "euler-finite", d + e.n);
        if (fabs(e.s) < 1 - 1e-10) { near(e.k->parametersToRotationMatrix(p), C, 1e-15 / sqrt(1 - e.s * e.s) * 8, "euler-inverse", d + e.n); expect(fabs(p[1]) <= M_PI / 2 + 1e-15, "euler-range", d); }
        else expect(fabs(fabs(p[1]) - M_PI / 2) < 3e-5, "euler-pitch", d + e.n);
      }
      if (fabs(C(2, 0)) < 1 - 1e-10) { double tol = 8e-15 / sqrt(1 - C(2, 0) * C(2, 0)); near(rph2R(R2rph(C)), C, tol, "rph", d); near(rph2C(C2rph(C)), C, tol, "rphC", d); }
      expect(R2rph(C).allFinite() && C2rph(C).allFinite() && C2rph(M3(C)).allFinite(), "rph-finite", d);
    }
  });
}
static void eulers() {
  std::vector<double> g = {-3.1, -1.6, -1, -0.2, 0, 1e-9, 0.4, 1.2, 1.55, 2.4, M_PI};
  run("euler", [&] {
    EulerAnglesYawPitchRoll ypr; EulerAnglesZYX zyx; EulerAnglesZXY zxy;
    for (double a : g) {
      near(Rx(a), elem(0, a), 1e-15, "Rx", fmt("%g", a)); near(Ry(a), elem(1, a), 1e-15, "Ry", fmt("%g", a)); near(Rz(a), elem(2, a), 1e-15, "Rz", fmt("%g", a));
      near(Cx(a), elem(0, -a), 1e-15, "Cx", fmt("%g", a)); near(Cy(a), elem(1, -a), 1e-15, "Cy", fmt("%g", a)); near(Cz(a), elem(2, -a), 1e-15, "Cz", fmt("%g", a));
      for (double b : g) for (double c : g) {
        std::string d = fmt("angles %g %g %g", a, b, c); V3 p(a, b, c); transition(); nontrivial(hashStr(d));
        near(rph2R(a, b, c), elem(2, c) * elem(1, b) * elem(0, a), 2e-15, "rph2R", d); near(rph2R(p), rph2R(a, b, c), 0, "rph2R", d);
        near(rph2C(a, b, c), elem(2, -c) * elem(1, -b) * elem(0, -a), 2e-15, "rph2C", d); near(rph2C(p), rph2C(a, b, c), 0, "rph2C", d);
        near(ypr.parametersToRotationMatrix(p), elem(2, a) * elem(1, b) * elem(0, c), 2e-15, "ypr", d);
        near(zyx.parametersToRotationMatrix(p), elem(2, -a) * elem(1, -b) * elem(0, -c), 2e-15, "zyx", d);
        near(zxy.parametersToRotationMatrix(p), elem(2, a) * elem(0, b) * elem(1, c), 2e-15, "zxy", d);
        if (fabs(b) < 1.56 && fabs(a) < 3.14 && fabs(c) < 3.14) {
          near(ypr.rotationMatrixToParameters(ypr.parametersToRotationMatrix(p)), p, 1e-12, "ypr-parameters", d);
          near(zyx.rotationMatrixToParameters(zyx.parametersToRotationMatrix(p)), p, 1e-12, "zyx-parameters", d);
          near(zxy.rotationMatrixToParameters(zxy.parametersToRotationMatrix(p)), p, 1e-12, "zxy-parameters", d);
          near(R2rph(rph2R(p)), p, 1e-12, "rph-parameters", d); near(C2rph(rph2C(p)), p, 1e-12, "rphC-parameters", d);
        }
      }
      for (int k = -3; k <= 3; ++k) { double m = angleMod(a + 2 * M_PI * k); expect(m >= -M_PI - 1e-14 && m <= M_PI + 1e-14 && fabs(remainder(m - a, 2 * M_PI)) < 1e-13, "angleMod", fmt("%g %d -> %.17g", a, k, m)); }
      expect(fabs(deg2rad(a) - a * M_PI / 180) < 1e-15 && fabs(rad2deg(a) - a * 180 / M_PI) < 1e-13, "degrees", "");
    }
  });
}
// S matrix, angular velocity and its Jacobian of the parametrizations.
static void kinematics() {
  RotationVector rv; EulerRodriguez er; EulerAnglesYawPitchRoll ypr; EulerAnglesZYX zyx; EulerAnglesZXY zxy;
  struct K { const char* n; const RotationalKinematics* k; }; K ks[] = {{"vector", &rv}, {"rodriguez", &er}, {"ypr", &ypr}, {"zyx", &zyx}, {"zxy", &zxy}};
  std::vector<double> an = {0, 1e-14, 1e-12, 1e-10, 1e-9, 1e-8, 1e-6, 1e-5, 1e-4, 9e-4, 1.1e-3, 0.01, 0.1, 0.8, 1.4, 2, 3, 4, 5.5};
  std::vector<V3> rates = {V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1), V3(0.3, -1.2, 2), V3(0, 0, 0)};
  for (const K& k : ks) for (double a : an) run(fmt("kinematics %s %g", k.n, a), [&] {
    for (const V3& ax : axes()) {
      V3 p = ax * a; std::string d = fmt("%s (%g %g %g)", k.n, p[0], p[1], p[2]); transition(); nontrivial(hashStr(d));
      M3 S = k.k->parametersToSMatrix(p), S2; M3 C = k.k->parametersToRotationMatrix(p, &S2);
      near(C, k.k->parametersToRotationMatrix(p), 0, "C-with-S", d); near(C * C.transpose(), M3::Identity(), 1e-14, "orthonormal", d);
      near(S2, S, 1e-13, "S-output", d);
      // S: C(p + dp) = exp(-(S dp) x) C(p)
      double h = 1e-4;
      auto cd = [&](const std::function<Eigen::MatrixXd(double)>& f) -> Eigen::MatrixXd { return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h); };
      for (int i = 0; i < 3; ++i) {
        M3 dC = cd([&](double t) -> Eigen::MatrixXd { V3 x = p; x[i] += t; return k.k->parametersToRotationMatrix(x); }); M3 W = -dC * C.transpose();
        near(V3(W(2, 1), W(0, 2), W(1, 0)), S.col(i), 1e-9, "S", d);
      }
      for (const V3& r : rates) {
        Eigen::Matrix<double, 3, 6> J; J.setConstant(NAN); V3 w = k.k->angularVelocityAndJacobian(p, r, &J);
        near(w, S * r, 1e-13 * (1 + (S * r).norm()), "angular-velocity", d); near(k.k->angularVelocityAndJacobian(p, r, NULL), w, 0, "angular-velocity-null", d);
        near(J.rightCols<3>(), S, 1e-13, "angular-velocity-J", d);
        for (int i = 0; i < 3; ++i) near(J.col(i), cd([&](double t) -> Eigen::MatrixXd { V3 x = p; x[i] += t; return k.k->parametersToSMatrix(x) * r; }), 1e-8, "angular-velocity-J", d + fmt(" rate %g %g %g", r[0], r[1], r[2]));
      }
      if (k.k == &rv && a < 6) near(rv.parametersToInverseSMatrix(p) * S, M3::Identity(), 1e-12 / std::max(0.1, fabs(2 * M_PI - a)), "inverse-S", d);
    }
  });
}
static void algebra() {
  std::vector<V4> qs; for (double a : {0.0, 1e-9, 1e-4, 0.5, 1.7, 3.0, M_PI, 4.0, 6.0}) for (const V3& x : {V3(1, 0, 0), V3(0, -1, 0), V3(1, 2, 3), V3(-2, 0.1, 1), V3(0, 0, 1)}) { qs.push_back(quatOf(x.normalized() * a)); if (thorough()) qs.push_back(-qs.back()); }
  std::vector<V3> vs = {V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1), V3(3, -2, 0.5), V3(0, 0, 0), V3(1e6, 1, -1e-6)};
  for (size_t i = 0; i < qs.size(); ++i) run(fmt("algebra %zu", i), [&] {
    const V4& q = qs[i]; std::string d = "q " + str(q); M3 C = quat2r(q);
    near(quatInv(q), V4(-q[0], -q[1], -q[2], q[3]), 0, "inverse", d); V4 qi = q; invertQuat(qi); near(qi, quatInv(q), 0, "inverse", d);
    near(qplus(q, quatInv(q)), quatIdentity(), 1e-15, "inverse-product", d); near(qplus(quatIdentity(), q), q, 0, "identity", d);
    near(qeps(q), q.head<3>(), 0, "parts", d); expect(qeta(q) == q[3], "parts", d);
    for (const V3& v : vs) near(quatRotate(q, v), C * v, 1e-14 * (1 + v.norm()), "rotate", d);
    near(quatS(q) * quatInvS(q), M3::Identity(), 1e-14, "S-inverse", d);
    double h = 1e-3;
    auto cd = [&](const std::function<Eigen::MatrixXd(double)>& f) -> Eigen::MatrixXd { return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h); };
    Eigen::Matrix<double, 4, 3> Jn; for (int k = 0; k < 3; ++k) Jn.col(k) = cd([&](double t) -> Eigen::MatrixXd { return updateQuat(q, V3::Unit(k) * t); });
    near(quatJacobian(q), Jn, 1e-11, "update-jacobian", d); near(quatInvS(q), Jn, 1e-11, "update-jacobian-S", d);
    V3 l = quat2AxisAngle(q); double n = l.norm();
    for (int k = 0; k < 3; ++k) Jn.col(k) = cd([&](double t) -> Eigen::MatrixXd { return axisAngle2quat(l + V3::Unit(k) * t); });
    near(quatExpJacobian(l), Jn, 1e-11, "exp-jacobian", d);
    near(quatExpJacobian<float>(l.cast<float>()).cast<double>(), Jn, 1e-5, "exp-jacobian-float", d);
    if (n < 5) {
      near(quatLogJacobian2(q) * Jn, M3::Identity(), 1e-10, "log-jacobian", d);
      if (n > 1e-3) near(quatLogJacobian(q) * Jn, M3::Identity(), 1e-9, "log-jacobian1", d);
      near(logDiffMat<double>(l) * expDiffMat<double>(l), M3::Identity(), 1e-12, "diff-matrices", d);
    }
    // exp(l + t) = exp(expDiffMat t) exp(l)
    M3 E; for (int k = 0; k < 3; ++k) E.col(k) = cd([&](double t) -> Eigen::MatrixXd { return quat2AxisAngle(V4(qplus(axisAngle2quat(l + V3::Unit(k) * t), quatInv(q)).normalized())); });
    near(expDiffMat<double>(l), E, 1e-10, "exp-diff", d);
    for (size_t j = 0; j < qs.size(); ++j) {
      const V4& p = qs[j]; std::string dd = d + "p " + str(p); transition(); nontrivial(hashStr(dd));
      V4 qp = qplus(q, p);
      near(quat2r(V4(qp.normalized())), C * quat2r(p), 1e-14, "product", dd); near(quatPlus(q) * p, qp, 1e-15, "plus-matrix", dd); near(quatOPlus(p) * q, qp, 1e-15, "oplus-matrix", dd); near(qoplus(p, q), qp, 1e-15, "oplus", dd);
      near(updateQuat(q, quat2AxisAngle(p)), qplus(p, q), 1e-14, "update", dd);
      // spherical interpolation on the shorter way
      V4 rel = qplus(quatInv(q), p); if (rel[3] < 0) rel = -rel; V3 step = quat2AxisAngle(V4(rel.normalized()));
      near(qslerp(q, p, 0), q, 0, "slerp-end", dd); near(qslerp(q, p, -1), q, 0, "slerp-end", dd); near(qslerp(q, p, 1), p, 0, "slerp-end", dd); near(qslerp(q, p, 2), p, 0, "slerp-end", dd);
      if (step.norm() < M_PI - 1e-6) for (double t : {1e-9, 0.25, 0.5, 0.9}) near(quat2r(V4(qslerp(q, p, t).normalized())), C * rodrigues(step * t), 1e-13, "slerp", dd + fmt("t %g", t));
      if (i % 5 == 0) for (double t : {-1.0, 0.0, 0.3, 1.0, 2.0}) { double c = std::min(1.0, std::max(0.0, t)); near(lerp(q, p, t), (1 - c) * q + c * p, 1e-15, "lerp", dd); }
    }
    bool thrown = false; try { lerp(q, vs[0], 0.5); } catch (const std::runtime_error&) { thrown = true; } expect(thrown, "lerp-size", d);
  });
  // rotation matrices with rounding errors: an entry of one plus rounding
  for (int sgn = -1; sgn <= 1; sgn += 2) for (size_t i = 0; i < qs.size(); ++i) run(fmt("rounding %d %zu", sgn, i), [&] {
    double a = 0.1 * i, up = sgn * (1 + 2.3e-16); M3 C; RotationVector rv; EulerRodriguez er; EulerAnglesYawPitchRoll ypr; EulerAnglesZYX zyx; EulerAnglesZXY zxy; transition();
    C = elem(2, a) * elem(1, -sgn * M_PI / 2); C(2, 0) = up; std::string d = fmt("%g %d", a, sgn);
    expect(R2rph(C).allFinite() && C2rph(C).allFinite() && C2rph(Eigen::MatrixXd(C)).allFinite() && ypr.rotationMatrixToParameters(C).allFinite() && zyx.rotationMatrixToParameters(C).allFinite(), "rounding-euler", d);
    near(quat2r(r2quat(C).normalized()), C, 1e-14, "rounding-quaternion", d); near(rodrigues(rv.rotationMatrixToParameters(C)), C, 1e-14, "rounding-vector", d);
    C = elem(2, a) * elem(0, sgn * M_PI / 2); C(2, 1) = up; expect(zxy.rotationMatrixToParameters(C).allFinite(), "rounding-euler", d);
    C = M3::Identity() * (1 + 2.3e-16); C(0, 1) = 1e-9 * a; C(1, 0) = -C(0, 1);
    near(er.rotationMatrixToParameters(C), V3(0, 0, 0.5e-9 * a), 1e-15, "rounding-rodriguez", d); near(R2AxisAngle(C), V3(0, 0, 1e-9 * a), 1e-15, "rounding-vector", d);
  });
  run("cross", [&] { for (const V3& a : vs) for (const V3& b : vs) { near(crossMx(a), cross(a), 0, "cross", ""); near(crossMx(a) * b, a.cross(b), 0, "cross", ""); near(crossMx(Eigen::VectorXd(a)), cross(a), 0, "cross", ""); near(crossMx<float>(a[0], a[1], a[2]).cast<double>(), cross(a.cast<float>().cast<double>()), 0, "cross", ""); } });
}
int main(int argc, char** argv) {
  init(argc, argv);
  conversions(); eulers(); kinematics(); algebra();
  return finish();
}

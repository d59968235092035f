// Transformations, homogeneous points and their uncertainties on a lattice of
// values against matrix arithmetic and first-order propagation.
#include <vmc.hpp>
#include <sm_kinematics/Transformation.hpp>
#include <sm_kinematics/UncertainTransformation.hpp>
#include <sm_kinematics/UncertainHomogeneousPoint.hpp>
#include <sm_kinematics/transformations.hpp>
#include <sm_kinematics/homogeneous_coordinates.hpp>
#include <sm_kinematics/three_point_methods.hpp>
#include <Eigen/Dense>
using namespace vmc; using namespace sm::kinematics;
typedef Eigen::Vector3d V3; typedef Eigen::Vector4d V4; typedef Eigen::Matrix3d M3; typedef Eigen::Matrix4d M4; typedef Eigen::Matrix<double, 6, 1> V6; typedef Eigen::Matrix<double, 6, 6> M6; typedef Eigen::MatrixXd M;
static std::string str(const M& m) { std::string s; for (int i = 0; i < m.size(); ++i) s += fmt("%.17g ", m.data()[i]); return s; }
static void near(const M& a, const M& b, double tol, const char* key, const std::string& d = "") {
  bool ok = a.rows() == b.rows() && a.cols() == b.cols(); double e = 0;
  if (ok && a.size()) { e = (a - b).cwiseAbs().maxCoeff(); ok = e <= tol * (1 + b.cwiseAbs().maxCoeff()) && (a - b).allFinite(); }
  if (!ok) fail(key, d + ": " + str(a) + " instead of " + str(b) + fmt(" diff %g", e));
}
static double gen(unsigned a, unsigned b = 0, unsigned c = 0) { u64 h = mix(mix(mix(17, a), b), c); h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; return (double)(h >> 11) / 4503599627370496.0 - 1; }
static M cov(int n, unsigned seed) { M a(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a(i, j) = gen(seed, i, j); return a * a.transpose() + 0.1 * M::Identity(n, n); }
static M numJac(const std::function<M(const M&)>& f, const M& x, double h = 1e-3) {
  M J; for (int i = 0; i < x.size(); ++i) {
    auto at = [&](double t) -> M { M y = x; y(i) += t; return f(y); };
    M c = (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h); if (!i) J.resize(c.size(), x.size()); J.col(i) = Eigen::Map<Eigen::VectorXd>(c.data(), c.size());
  } return J;
}
// (1 + boxPlus(d)) T to first order, kept a rigid transformation
static M4 perturb(const M4& T, const V6& d) {
  M4 P = M4::Identity(); P.topLeftCorner<3, 3>() = quat2r(axisAngle2quat(d.tail<3>())); P.topRightCorner<3, 1>() = d.head<3>(); return P * T;
}
static std::vector<Transformation> trs() {
  std::vector<Transformation> o; o.push_back(Transformation());
  for (double a : {0.0, 1e-8, 0.5, 2.0, M_PI, 4.5}) for (const V3& x : {V3(1, 0, 0), V3(1, -2, 0.5), V3(0, 0, -1)}) for (const V3& t : {V3(0, 0, 0), V3(1, 2, 3), V3(-20, 0.1, 5)}) {
    if (!thorough() && o.size() > 3 && (o.size() * 7) % 3 == 0 && a != 2.0) { o.push_back(Transformation(axisAngle2quat(x.normalized() * a), t)); continue; }
    o.push_back(Transformation(axisAngle2quat(x.normalized() * a), t));
  }
  return o;
}
static void same(const Transformation& a, const M4& T, const char* key, const std::string& d) { near(a.T(), T, 1e-13, key, d); }
int main(int argc, char** argv) {
  init(argc, argv);
  std::vector<Transformation> ts = trs();
  std::vector<V4> ps = {V4(1, 2, 3, 1), V4(0, 0, 0, 1), V4(-4, 0.5, 2, 2), V4(0.3, -0.2, 0.1, -0.5), V4(1, 2, -2, 0), V4(0.1, 0.7, -0.5, 0.5).normalized()};
  for (size_t i = 0; i < ts.size(); ++i) run(fmt("transformation %zu", i), [&] {
    const Transformation& A = ts[i]; M4 T = A.T(); std::string d = "q " + str(A.q()) + "t " + str(A.t()); transition();
    M3 C = quat2r(A.q()); near(A.C(), C, 0, "parts", d); near(T.topLeftCorner(3, 3), C, 0, "parts", d); near(T.topRightCorner(3, 1), A.t(), 0, "parts", d); near(T.row(3), V4(0, 0, 0, 1).transpose(), 0, "parts", d);
    near(A.T3x4(), T.topRows(3), 0, "parts", d); near(rt2Transform(C, A.t()), T, 0, "parts", d); near(transform2C(T), C, 0, "parts", d); near(transform2rho(T), A.t(), 0, "parts", d); near(transform2rhoHomogeneous(T), T.col(3), 0, "parts", d);
    same(Transformation(T), T, "from-matrix", d); Transformation S; S.set(T); same(S, T, "set", d); S.setIdentity(); near(S.T(), M4::Identity(), 0, "identity", d);
    for (double s : {3.0, 0.25, -2.0, 1.0 + 1e-3, 1e-3}) same(Transformation(V4(A.q() * s), A.t()), T, "normalizes", d + fmt(" scale %g", s));
    M4 Ti = T.inverse(); same(A.inverse(), Ti, "inverse", d); near(inverseTransform(T), Ti, 1e-14, "inverse-matrix", d);
    V6 e = fromTEuler(T); if (fabs(fabs(e[4]) - M_PI / 2) > 1e-5) near(toTEuler(e), T, 1e-10, "euler", d); near(toTEuler(e[0], e[1], e[2], e[3], e[4], e[5]), toTEuler(e), 0, "euler", d);
    near(fromTEuler(T).head(3), A.t(), 0, "euler", d);
    // updates
    auto op = [&](const M& x) -> M { Transformation B = A; B.oplus(x); return B.T(); };
    Transformation B = A; V6 dx; dx << 0.1, -0.2, 0.3, 0.5, -0.7, 0.2; B.oplus(dx); M4 W = T; W.topLeftCorner<3, 3>() = quat2r(axisAngle2quat(dx.tail<3>())) * C; W.topRightCorner<3, 1>() = A.t() + dx.head<3>(); same(B, W, "oplus", d);
    M Jo = numJac(op, V6::Zero()); // of T, with S to the left perturbation
    M Jl = numJac([&](const M& x) -> M { M4 P = perturb(T, V6(x)); return P; }, V6::Zero());
    near(Jl * A.S(), Jo, 1e-9, "S", d);
    for (int k = 0; k < 6; ++k) { M4 bp = -boxPlus(V6::Unit(k)) * T; near(M(Eigen::Map<Eigen::VectorXd>(bp.data(), 16)), Jl.col(k), 1e-9, "boxPlus", d); }
    for (const V4& p : ps) {
      std::string dd = d + "p " + str(p); transition();
      near(A * p, T * p, 1e-14, "point4", dd); near((A * HomogeneousPoint(p)).toHomogeneous(), T * p, 1e-14, "point-homogeneous", dd);
      near(A * V3(p.head<3>()), (T * V4(p[0], p[1], p[2], 1)).head(3), 1e-14, "point3", dd); near(A.rotate(V3(p.head<3>())), C * p.head<3>(), 1e-14, "rotate", dd);
      V4 rp = p; rp.head<3>() = C * p.head<3>(); near(A.rotate(p), rp, 1e-14, "rotate4", dd);
      V4 o; Eigen::Matrix<double, 4, 6> Jb; transformationAndJacobian(T, p, o, Jb); near(o, T * p, 1e-14, "point-jacobian-value", dd);
      near(Jb, numJac([&](const M& x) -> M { return perturb(T, V6(x)) * p; }, V6::Zero()), 1e-9, "point-jacobian", dd); near(boxMinus(o), Jb, 0, "boxMinus", dd);
      V6 any; any << 1, -2, 3, 0.5, 2, -1; near(-boxPlus(any) * p, boxMinus(p) * any, 1e-14, "boxes", dd);
      inverseTransformationAndJacobian(T, p, o, Jb); near(o, Ti * p, 1e-13, "inverse-point-value", dd);
      near(Jb, numJac([&](const M& x) -> M { return perturb(T, V6(x)).inverse() * p; }, V6::Zero()), 1e-8, "inverse-point-jacobian", dd);
    }
    // uncertainty
    M6 U = cov(6, i); UncertainTransformation UA(A, U); near(UA.U(), U, 0, "U", d); same(UA, T, "U-mean", d); same(UA.toTransformation(), T, "U-mean", d);
    near(UncertainTransformation(A).U(), M6::Zero(), 0, "U-zero", d); V6 dg; dg << 2, 2, 2, 3, 3, 3; near(UncertainTransformation(A, 2, 3).U(), M6(dg.asDiagonal()), 0, "U-diagonal", d); near(UncertainTransformation(T, 2, 3).U(), M6(dg.asDiagonal()), 0, "U-diagonal", d); near(UncertainTransformation(A.q(), A.t(), 2, 3).U(), M6(dg.asDiagonal()), 0, "U-diagonal", d);
    near(A.S() * UA.UOplus() * A.S().transpose(), U, 1e-12, "UOplus", d); UncertainTransformation UB(A); UB.setUOplus(UA.UOplus()); near(UB.U(), U, 1e-12, "setUOplus", d); UB.setU(U); near(UB.U(), U, 0, "setU", d); expect(UB.isBinaryEqual(UA) == true, "equal", d); UB.setU(M6(2 * U)); expect(!UB.isBinaryEqual(UA), "equal", d);
    // the left perturbation of the result of each operation by finite differences
    auto left = [&](const std::function<M4(const V6&)>& f) -> M6 {
      M4 R0 = f(V6::Zero()).inverse(); return numJac([&](const M& x) -> M { M4 D = f(V6(x)) * R0; V6 l; l.head<3>() = D.topRightCorner<3, 1>(); l.tail<3>() = -V3(D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1)) / 2; return l; }, V6::Zero()); };
    M6 Ji = left([&](const V6& x) -> M4 { return perturb(T, x).inverse(); }); near(UA.inverse().U(), Ji * U * Ji.transpose(), 1e-8, "U-inverse", d); same(UA.inverse(), Ti, "U-inverse-mean", d);
    near(boxTimes(Ti), -Ji, 1e-9, "boxTimes", d);
    for (size_t j = 0; j < ts.size(); ++j) {
      const Transformation& Bj = ts[j]; std::string dd = d + " * q " + str(Bj.q()) + "t " + str(Bj.t()); M4 TB = Bj.T(); transition(); nontrivial(hashStr(dd));
      same(A * Bj, T * TB, "product", dd);
      for (double s : {-1.0, 0.0, 0.25, 0.5, 1.0, 3.0}) {
        Transformation I = slerpTransformations(A, Bj, s); near(I.t(), A.t() + std::min(1.0, std::max(0.0, s)) * (Bj.t() - A.t()), 1e-14, "interpolate-t", dd);
        near(I.q(), qslerp(A.q(), Bj.q(), s).normalized(), 1e-14, "interpolate-q", dd);
        Transformation I1 = interpolateTransformations(A, 10, Bj, 14, 10 + 4 * s), I2 = interpolateTransformations(Bj, 14, A, 10, 10 + 4 * s);
        same(I1, I.T(), "interpolate", dd); same(I2, I.T(), "interpolate-reversed", dd);
      }
      if (j % 3 == i % 3) {
        M6 V = cov(6, 100 + j); UncertainTransformation UBj(Bj, V);
        M6 J1 = left([&](const V6& x) -> M4 { return perturb(T, x) * TB; }), J2 = left([&](const V6& x) -> M4 { return T * perturb(TB, x); });
        M6 w1 = J1 * U * J1.transpose(), w2 = J2 * V * J2.transpose();
        near((UA * UBj).U(), w1 + w2, 1e-7, "U-product", dd); same(UA * UBj, T * TB, "U-product-mean", dd);
        near((UA * Bj).U(), w1, 1e-8, "U-product-right", dd); same(UA * Bj, T * TB, "U-product-mean", dd);
        near((A * UBj).U(), w2, 1e-7, "U-product-left", dd); same(A * UBj, T * TB, "U-product-mean", dd);
      }
    }
    for (size_t k = 0; k < ps.size(); ++k) {
      const V4& p = ps[k]; M4 P = cov(4, 50 + k); UncertainHomogeneousPoint up(p, P); std::string dd = d + " p " + str(p);
      M Jt = numJac([&](const M& x) -> M { return perturb(T, V6(x)) * p; }, V6::Zero());
      near((UA * up).U4(), Jt * U * Jt.transpose() + T * P * T.transpose(), 1e-8, "U-point", dd); near((UA * up).toHomogeneous(), T * p, 1e-13, "U-point-mean", dd);
      near((UA * HomogeneousPoint(p)).U4(), Jt * U * Jt.transpose(), 1e-8, "U-point-certain", dd); near((A * up).U4(), T * P * T.transpose(), 1e-12, "point-U", dd); near((A * up).toHomogeneous(), T * p, 1e-13, "U-point-mean", dd);
    }
    UncertainVector3 uv(V3(1, 2, 3), cov(3, 9)); near(A.rotate(uv).covariance(), C * cov(3, 9) * C.transpose(), 1e-13, "U-rotate", d); near(A.rotate(uv).mean(), C * V3(1, 2, 3), 1e-13, "U-rotate", d);
    // the other direction: the transformation is recovered from transformed points
    for (int n : {3, 4, 7}) { M p0(3, n), p1(3, n); for (int c = 0; c < n; ++c) { for (int r = 0; r < 3; ++r) p1(r, c) = 3 * gen(n, r, c); p0.col(c) = A * V3(p1.col(c)); }
      near(threePointSvd(p0, p1), T, 1e-11, "align", d);
      M u0 = p0, u1 = p1; Eigen::VectorXd w(n); for (int c = 0; c < n; ++c) { u1.col(c).normalize(); u0.col(c) = C * u1.col(c); w[c] = 0.5 + c; } near(qMethod(u0, u1), C, 1e-11, "qMethod", d); near(qMethod(u0, u1, w), C, 1e-11, "qMethod-weights", d); }
  });
  // homogeneous points
  for (size_t i = 0; i < ps.size(); ++i) run(fmt("point %zu", i), [&] {
    const V4& p = ps[i]; std::string d = "p " + str(p); HomogeneousPoint hp(p); near(hp.toHomogeneous(), p, 0, "homogeneous", d); expect(hp.isVector() == (p[3] == 0) && hp.atInfinity() == (p[3] == 0), "infinity", d);
    M4 U = cov(4, i); UncertainHomogeneousPoint up(p, U); near(up.U4(), U, 0, "U4", d); near(up.toHomogeneous(), p, 0, "homogeneous", d);
    HomogeneousPoint::homogeneous_jacobian_t Jh; near(hp.toHomogeneousAndJacobian(Jh), p, 0, "homogeneous", d);
    auto plus = [&](const M& x) -> V4 { HomogeneousPoint h(p); h.oplus(V3(x)); return h.toHomogeneous(); };
    near(Jh, numJac([&](const M& x) -> M { return plus(x); }, V3::Zero()), 1e-9, "oplus-jacobian", d); expect(fabs(plus(V3(0.3, 1, -2)).norm() - p.norm()) < 1e-14 * (1 + p.norm()), "oplus-norm", d);
    near(plus(V3(0.3, 1, -2)), updateQuat(p, V3(0.3, 1, -2)), 1e-15, "oplus", d);
    Eigen::Matrix<double, 4, 3> tj; near(toHomogeneous(V3(p.head<3>()), &tj), V4(p[0], p[1], p[2], 1), 0, "toHomogeneous", d); near(tj, M(M4::Identity().leftCols(3)), 0, "toHomogeneous", d);
    if (p[3] != 0) {
      V3 e = p.head<3>() / p[3]; near(hp.toEuclidean(), e, 1e-15, "euclidean", d); HomogeneousPoint::euclidean_jacobian_t Je; near(hp.toEuclideanAndJacobian(Je), e, 1e-15, "euclidean", d);
      near(Je, numJac([&](const M& x) -> M { V4 q = plus(x); return V3(q.head<3>() / q[3]); }, V3::Zero()), 1e-8, "euclidean-jacobian", d);
      M Jf = numJac([&](const M& x) -> M { return V3(x.col(0).head(3) / x(3)); }, p, 1e-4); Eigen::Matrix<double, 3, 4> jf; near(fromHomogeneous(p, &jf), e, 1e-15, "fromHomogeneous", d); near(jf, Jf, 1e-8, "fromHomogeneous-jacobian", d); near(fromHomogeneousJacobian(p), Jf, 1e-8, "fromHomogeneous-jacobian", d);
      near(up.U3(), Jf * U * Jf.transpose(), 1e-7, "U3", d);
    }
    { UncertainHomogeneousPoint n(p, U); n.normalize(); M Jn = numJac([&](const M& x) -> M { return x / x.norm(); }, p); near(n.toHomogeneous(), p.normalized(), 1e-15, "normalize", d); near(n.U4(), Jn * U * Jn.transpose(), 1e-9, "normalize-U", d);
      HomogeneousPoint m(p); m.normalize(); near(m.toHomogeneous(), p.normalized(), 1e-15, "normalize", d);
      M3 A = cov(3, i); n.setUOplus(A); near(n.U_av_form(), A, 1e-12, "U-av", d); V4 pn = p.normalized(); M J = numJac([&](const M& x) -> M { return updateQuat(pn, V3(x)); }, V3::Zero()); near(n.U4(), J * A * J.transpose(), 1e-9, "U-oplus", d);
      bool th = false; try { UncertainHomogeneousPoint b(V4(2 * pn)); b.setUOplus(A); } catch (const HomogeneousPoint::Exception&) { th = true; } expect(th, "U-oplus-norm", d); }
    { HomogeneousPoint h(p); h.scale(2.5); near(h.toHomogeneous(), V4(2.5 * p[0], 2.5 * p[1], 2.5 * p[2], p[3]), 0, "scale", d); h.convertToVector(); near(h.toHomogeneous(), V4(2.5 * p[0], 2.5 * p[1], 2.5 * p[2], 0), 0, "to-vector", d); h = V3(1, 2, 3); near(h.toHomogeneous(), V4(1, 2, 3, 1), 0, "assign", d); h = p; near(h.toHomogeneous(), p, 0, "assign", d); h.setZero(); near(h.toHomogeneous(), V4(0, 0, 0, 1), 0, "zero", d); }
    M3 U3 = cov(3, 30 + i); UncertainHomogeneousPoint e3(V3(1, 2, 3), U3); near(e3.U3(), U3, 1e-15, "U3-roundtrip", d);
    for (size_t j = 0; j < ps.size(); ++j) {
      const V4& q = ps[j]; std::string dd = d + "q " + str(q); M4 V = cov(4, 20 + j); UncertainHomogeneousPoint uq(q, V); HomogeneousPoint hq(q); transition(); nontrivial(hashStr(dd));
      for (int minus = 0; minus < 2; ++minus) {
        if (p[3] == 0 && q[3] == 0) continue;
        auto f = [&](const V4& a, const V4& b) -> V4 { V4 r; r.head<3>() = a.head<3>() * b[3] + (minus ? -1 : 1) * b.head<3>() * a[3]; r[3] = a[3] * b[3]; return r; };
        if (f(p, q).norm() == 0) continue;
        M Ja = numJac([&](const M& x) -> M { return f(V4(x), q); }, p), Jb = numJac([&](const M& x) -> M { return f(p, V4(x)); }, q);
        M wa = Ja * U * Ja.transpose(), wb = Jb * V * Jb.transpose(); const char* k = minus ? "minus" : "plus"; V4 r = f(p, q);
        near((minus ? hp - hq : hp + hq).toHomogeneous(), r, 1e-14, k, dd);
        UncertainHomogeneousPoint x = minus ? up - uq : up + uq; near(x.toHomogeneous(), r, 1e-14, k, dd); near(x.U4(), wa + wb, 1e-9, minus ? "minus-U" : "plus-U", dd);
        UncertainHomogeneousPoint y = minus ? up - hq : up + hq; near(y.toHomogeneous(), r, 1e-14, k, dd); near(y.U4(), wa, 1e-9, minus ? "minus-U-left" : "plus-U-left", dd);
        UncertainHomogeneousPoint z = minus ? hp - uq : hp + uq; near(z.toHomogeneous(), r, 1e-14, k, dd); near(z.U4(), wb, 1e-9, minus ? "minus-U-right" : "plus-U-right", dd);
        if (!minus) near(toHomogeneousPlus(p) * q, r, 1e-14, "plus-matrix", dd); else near(toHomogeneousMinus(p) * q, f(q, p), 1e-14, "minus-matrix", dd);
      }
    }
  });
  run("columns", [&] { for (int r = 1; r <= 4; ++r) for (int c = 0; c <= 3; ++c) { M m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = gen(r, i, j); M h = toHomogeneousColumns(m); M w(r + 1, c); w.topRows(r) = m; w.row(r).setOnes(); near(h, w, 0, "columns"); for (int j = 0; j < c; ++j) h.col(j) *= (j + 2); near(fromHomogeneousColumns(h), m, 1e-15, "columns-back"); } });
  // uncertain vectors
  run("vectors", [&] {
    std::vector<V3> vs = {V3(1, 2, 3), V3(-0.5, 0.1, 4), V3(0, 1, 0)}; std::vector<double> ss = {-2, 0.5, 1, 3};
    for (size_t i = 0; i < vs.size(); ++i) for (size_t j = 0; j < vs.size(); ++j) {
      V3 a = vs[i], b = vs[j]; M3 A = cov(3, i), B = cov(3, 10 + j); UncertainVector3 x(a, A), y(b, B); std::string d = str(a) + str(b); transition(); nontrivial(hashStr(d));
      near((x + y).mean(), a + b, 0, "v-plus", d); near((x + y).covariance(), A + B, 0, "v-plus", d); near((x - y).mean(), a - b, 0, "v-minus", d); near((x - y).covariance(), A + B, 0, "v-minus", d); near((x + b).covariance(), A, 0, "v-plus", d); near((x - b).covariance(), A, 0, "v-minus", d); near((x + b).mean(), a + b, 0, "v-plus", d); near((x - b).mean(), a - b, 0, "v-minus", d);
      expect(fabs(x.dot(y).mean() - a.dot(b)) < 1e-14 && fabs(x.dot(y).covariance() - (a.dot(B * a) + b.dot(A * b))) < 1e-12, "v-dot", d); expect(fabs(x.dot(b).mean() - a.dot(b)) < 1e-14 && fabs(x.dot(b).covariance() - b.dot(A * b)) < 1e-12, "v-dot", d);
      M Jn = numJac([&](const M& m) -> M { return m / m.norm(); }, a); near(x.normalized().mean(), a.normalized(), 1e-15, "v-normalized", d); near(x.normalized().covariance(), Jn * A * Jn.transpose(), 1e-9, "v-normalized", d); UncertainVector3 z = x; z.normalize(); near(z.covariance(), Jn * A * Jn.transpose(), 1e-9, "v-normalize", d); near(z.mean(), a.normalized(), 1e-15, "v-normalize", d);
      for (double s : ss) { UncertainScalar u(s, 0.3); near((x * u).mean(), a * s, 1e-15, "v-scale", d); near((x * u).covariance(), A * s * s + a * a.transpose() * 0.3, 1e-14, "v-scale", d); near((x * s).covariance(), A * s * s, 1e-14, "v-scale", d); near((x * s).mean(), a * s, 1e-15, "v-scale", d); near((u * x).mean(), a * s, 1e-15, "v-scale-left", d); near((u * x).covariance(), A * s * s + a * a.transpose() * 0.3, 1e-14, "v-scale-left", d); near((u * a).covariance(), a * a.transpose() * 0.3, 1e-14, "v-scale-left", d); near((u * a).mean(), a * s, 1e-14, "v-scale-left", d); }
    }
    for (double a : ss) for (double b : ss) { UncertainScalar x(a, 0.2), y(b, 0.7); std::string d = fmt("%g %g", a, b);
      auto is = [&](const UncertainScalar& u, double m, double c, const char* k) { expect(fabs(u.mean() - m) < 1e-14 && fabs(u.covariance() - c) < 1e-12 * (1 + fabs(c)), k, d + fmt(" %g %g", u.mean(), u.covariance())); };
      is(x + y, a + b, 0.9, "s-plus"); is(x - y, a - b, 0.9, "s-minus"); is(x + b, a + b, 0.2, "s-plus"); is(x - b, a - b, 0.2, "s-minus"); is(x * y, a * b, b * b * 0.2 + a * a * 0.7, "s-times"); is(x * b, a * b, b * b * 0.2, "s-times"); is(x.dot(y), a * b, b * b * 0.2 + a * a * 0.7, "s-times");
      is(x / y, a / b, 0.2 / (b * b) + a * a * 0.7 / (b * b * b * b), "s-divide"); is(x / b, a / b, 0.2 / (b * b), "s-divide"); }
  });
  return finish();
}

// Pose splines, spline design variables, their expressions and motion errors
// against rotations and derivatives computed from the curve.
#include "expressions_common.hpp"
#include <aslam_bsplines/BSplinePose.hpp>
#include <aslam_splines/BSplinePoseDesignVariable.hpp>
#include <aslam_splines/EuclideanBSplineDesignVariable.hpp>
#include <aslam_splines/BSplineDesignVariable.hpp>
#include <aslam_splines/BSplineMotionError.hpp>
#include <aslam_splines/BSplineMotionErrorFactory.hpp>
#include <aslam_splines/SimpleSplineError.hpp>
#include <aslam_backend/backend/OptimizationProblem.hpp>
#include <aslam_backend_expressions/Scalar.hpp>
#include <sm_kinematics/RotationVector.hpp>
#include <sm_kinematics/EulerAnglesZYX.hpp>
#include <sm_kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm_kinematics/EulerRodriguez.hpp>
#include <iostream>
using namespace aslam_bsplines; using namespace aslam::splines; using sm::kinematics::RotationalKinematics;
typedef std::vector<double> VD;
static RotationalKinematics::Ptr rotation(int i) {
  if (i == 0) return RotationalKinematics::Ptr(new sm::kinematics::RotationVector); if (i == 1) return RotationalKinematics::Ptr(new sm::kinematics::EulerAnglesZYX);
  if (i == 2) return RotationalKinematics::Ptr(new sm::kinematics::EulerAnglesYawPitchRoll); return RotationalKinematics::Ptr(new sm::kinematics::EulerRodriguez);
}
static const char* RN[] = {"rotation vector", "ZYX", "yaw pitch roll", "Euler-Rodriguez"};
template <typename F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
// derivative of f at x = 0 by central differences, sixth order
template <typename F> static VX slope(const F& f, double h = 2e-3) {
  auto d = [&](double s) { return VX((f(s) - f(-s)) / (2 * s)); }; VX a = d(h), b = d(2 * h), c = d(4 * h); VX r1 = (4 * a - b) / 3, r2 = (4 * b - c) / 3; return (16 * r1 - r2) / 15;
}
static VX flat(const MX& m) { return Eigen::Map<const VX>(m.data(), m.size()); }
static V3 unskew(const M3& m) { return V3(m(2, 1) - m(1, 2), m(0, 2) - m(2, 0), m(1, 0) - m(0, 1)) / 2; }
static VD knotSequence(int k, int segs, int kind) { VD K; double t = -1; for (int i = 0; i < 2 * k - 1 + segs; ++i) { K.push_back(t); t += kind == 0 ? 1 : kind == 1 ? 0.5 + 0.75 * (i % 3) : kind == 2 ? 3.0 : 0.8; } return K; }
static MX coefficients(int n, int seed, double rot, double wiggle) { MX C = pseudoM(6, n, seed); V3 r0(0.3, -0.5, 0.7); for (int i = 0; i < n; ++i) C.block<3, 1>(3, i) = rot * r0 + wiggle * C.block<3, 1>(3, i); return C; }
static void pose(BSplinePose& s, const std::string& h) {
  int k = s.splineOrder(); RotationalKinematics::Ptr R = s.rotation(); VD K = s.knots(); double len = 1e9; for (int i = 0; i < s.numValidTimeSegments(); ++i) len = std::min(len, s.timeInterval(i).second - s.timeInterval(i).first);
  for (int g = 0; g < s.numValidTimeSegments(); ++g) for (double f : {0.0, 0.3, 0.9}) {
    auto iv = s.timeInterval(g); double t = iv.first + f * (iv.second - iv.first); std::string d = h + fmt(" t %g", t); state(d); if (tooMany()) return;
    VX p = s.eval(t), v = s.evalD(t, 1), a = k > 2 ? s.evalD(t, 2) : VX(VX::Zero(6)); M3 C = R->parametersToRotationMatrix(p.tail<3>()); M4 T = M4::Identity(); T.topLeftCorner<3, 3>() = C; T.topRightCorner<3, 1>() = p.head<3>();
    nontrivial(hashStr(d)); transition(20);
    near(s.transformation(t), T, 1e-12, "pose", d); near(s.inverseTransformation(t), T.inverse(), 1e-12, "pose", d + " inverse"); near(s.position(t), p.head<3>(), 1e-12, "pose", d); near(s.orientation(t), C, 1e-12, "pose", d); near(s.inverseOrientation(t), C.transpose(), 1e-12, "pose", d);
    near(s.linearVelocity(t), v.head<3>(), 1e-11, "velocity", d); near(s.linearVelocityBodyFrame(t), C.transpose() * v.head<3>(), 1e-11, "velocity", d + " body"); near(s.linearAcceleration(t), a.head<3>(), 1e-11, "acceleration", d); near(s.linearAccelerationBodyFrame(t), C.transpose() * a.head<3>(), 1e-11, "acceleration", d + " body");
    near(s.curveValueToTransformation(p), T, 1e-12, "pose", d + " of value"); near(s.curveValueToTransformation(s.transformationToCurveValue(T)), T, 1e-9, "pose", d + " there and back");
    // the rotation as a polynomial continued beyond the segment
    auto rotAt = [&](const VX& p, const VX& v, const VX& a, double x) { return R->parametersToRotationMatrix(V3(p.tail<3>() + x * v.tail<3>() + x * x / 2 * a.tail<3>())); };
    M3 dC = M3(Eigen::Map<M3>(slope([&](double x) { return flat(rotAt(p, v, a, x)); }, 1e-3).data())); V3 w = unskew(dC * C.transpose()), wb = C.transpose() * w; near(s.angularVelocity(t), w, 1e-8, "angular-velocity", d); near(s.angularVelocityBodyFrame(t), wb, 1e-8, "angular-velocity", d + " body");
    near(s.angularVelocityAndJacobian(t, nullptr, nullptr), w, 1e-8, "angular-velocity", d + " with Jacobian"); near(s.angularVelocityBodyFrameAndJacobian(t, nullptr, nullptr), wb, 1e-8, "angular-velocity", d + " body with Jacobian");
    if (k > 2) { // the derivative of the angular velocity, for a curve with these derivatives
      auto wAt = [&](double x) { V3 q = p.tail<3>() + x * v.tail<3>() + x * x / 2 * a.tail<3>(), qd = v.tail<3>() + x * a.tail<3>(); return VX(-R->parametersToSMatrix(q) * qd); }; V3 dw = slope(wAt); M3 S; R->parametersToRotationMatrix(p.tail<3>(), &S); V3 part = -S * a.tail<3>();
      auto acc = [&](const V3& got, const V3& full, const V3& partial, const std::string& x) { if (!close(got, full, 1e-7)) { if (close(got, partial, 1e-10)) fail("angular-acceleration-without-change-of-S", x + ": " + str(got) + " instead of " + str(full)); else fail("angular-acceleration", x + ": " + str(got) + " instead of " + str(full)); } };
      acc(s.angularAccelerationAndJacobian(t, nullptr, nullptr), dw, part, d); acc(s.angularAccelerationBodyFrame(t), C.transpose() * dw, C.transpose() * part, d + " body"); acc(s.angularAccelerationBodyFrameAndJacobian(t, nullptr, nullptr), C.transpose() * dw, C.transpose() * part, d + " body with Jacobian"); }
    // Jacobians
    VX c0 = s.localCoefficientVector(t); int n = c0.size(); Eigen::VectorXi want = s.localCoefficientVectorIndices(t);
    auto num = [&](const std::function<VX()>& f) { MX J; for (int i = 0; i < n; ++i) { VX g = slope([&](double x) { VX c = c0; c[i] += x; s.setLocalCoefficientVector(t, c); VX r = f(); return r; }); if (!i) J.resize(g.size(), n); J.col(i) = g; } s.setLocalCoefficientVector(t, c0); return J; };
    auto turn = [&](const M3& C, const MX& J) { MX r(9, n); for (int i = 0; i < 3; ++i) r.middleRows(3 * i, 3) = cross(C.col(i)) * J; return r; };
    MX J; Eigen::VectorXi ix; auto idx = [&](const char* what) { expect(ix.size() == want.size() && ix == want, "indices", d + what); ix.resize(0); };
    double tol = 1e-6; M4 Tv = s.transformationAndJacobian(t, &J, &ix); near(Tv, T, 1e-12, "pose", d + " with Jacobian"); idx(" transformation"); near(turn(C, J.bottomRows(3)), num([&] { return flat(s.orientation(t)); }), tol, "jacobian", d + " transformation, rotation");
    for (int i = 0; i < 4; ++i) { V4 x = V4::Unit(i) + 0.3 * V4(1, -1, 0.5, i ? 0.2 : 0); MX N = num([&] { return flat(s.transformation(t) * x); }); V4 y = T * x; MX B(4, 6); B.setZero(); B.topLeftCorner(3, 3) = y[3] * M3::Identity(); B.topRightCorner(3, 3) = cross(y.head<3>()); near(B * J, N, tol, "jacobian", d + " transformation"); MX JV; near(s.transformVectorAndJacobian(t, x, &JV, &ix), y, 1e-12, "pose", d + " vector"); idx(" vector"); near(JV, N, tol, "jacobian", d + " vector");
      MX JI; near(s.inverseTransformationAndJacobian(t, &JI, &ix), T.inverse(), 1e-11, "pose", d + " inverse with Jacobian"); idx(" inverse"); V4 z = T.inverse() * x; B.topLeftCorner(3, 3) = z[3] * M3::Identity(); B.topRightCorner(3, 3) = cross(z.head<3>()); near(B * JI, num([&] { return flat(s.inverseTransformation(t) * x); }), tol, "jacobian", d + " inverse transformation"); }
    near(s.orientationAndJacobian(t, &J, &ix), C, 1e-12, "pose", d); idx(" orientation"); near(turn(C, J), num([&] { return flat(s.orientation(t)); }), tol, "jacobian", d + " orientation");
    near(s.inverseOrientationAndJacobian(t, &J, &ix), C.transpose(), 1e-12, "pose", d); idx(" inverse orientation"); near(turn(C.transpose(), J), num([&] { return flat(s.inverseOrientation(t)); }), tol, "jacobian", d + " inverse orientation");
    near(s.linearAccelerationAndJacobian(t, &J, &ix), a.head<3>(), 1e-11, "acceleration", d); idx(" acceleration"); near(J, num([&] { return VX(s.linearAcceleration(t)); }), tol, "jacobian", d + " acceleration");
    s.angularVelocityAndJacobian(t, &J, &ix); idx(" angular velocity"); near(J, num([&] { return VX(s.angularVelocity(t)); }), tol, "jacobian", d + " angular velocity"); s.angularVelocityBodyFrameAndJacobian(t, &J, &ix); idx(" angular velocity body"); near(J, num([&] { return VX(s.angularVelocityBodyFrame(t)); }), tol, "jacobian", d + " angular velocity body");
    s.angularAccelerationAndJacobian(t, &J, &ix); idx(" angular acceleration"); near(J, num([&] { return VX(s.angularAccelerationAndJacobian(t, nullptr, nullptr)); }), tol, "jacobian", d + " angular acceleration"); s.angularAccelerationBodyFrameAndJacobian(t, &J, &ix); idx(" angular acceleration body"); near(J, num([&] { return VX(s.angularAccelerationBodyFrame(t)); }), tol, "jacobian", d + " angular acceleration body");
  }
}
static void poses() {
  for (int r = 0; r < 4; ++r) for (int k = 2; k <= 6; ++k) run(fmt("pose %d %d", r, k), [&] {
    for (int kind = 0; kind < (thorough() ? 4 : 2); ++kind) for (int seed = 0; seed < (thorough() ? 4 : 1); ++seed) for (double rot : {0.0, 1.0, 1.8}) for (double wiggle : {0.0, 0.05, 0.4}) { if (tooMany()) return; beat(); if (r && r < 3 && rot > 1.5 && wiggle > 0.1) continue; int segs = thorough() ? 4 : 3; VD K = knotSequence(k, segs, kind); BSplinePose s(k, rotation(r)); s.setKnotsAndCoefficients(K, coefficients(K.size() - k, 7 * k + kind + 31 * seed, rot, wiggle)); pose(s, fmt("%s order %d knots %d seed %d rotation %g wiggle %g", RN[r], k, kind, seed, rot, wiggle)); }
    // segments of poses
    BSplinePose s(k, rotation(r)); M4 T[4]; for (int i = 0; i < 4; ++i) { VX c = coefficients(1, 50 + i, 1, 0.3).col(0); T[i] = s.curveValueToTransformation(c); }
    s.initPoseSpline(0, 2, T[0], T[1]); near(s.transformation(0), T[0], 1e-8, "segments", "first"); near(s.transformation(2), T[1], 1e-8, "segments", "second"); s.addPoseSegment(3, T[2]); near(s.transformation(3), T[2], 1e-8, "segments", "added"); near(s.transformation(2), T[1], 1e-8, "segments", "kept"); s.addPoseSegment2(4.5, T[3], 1e-4); near(s.transformation(4.5), T[3], 1e-2, "segments", "added 2"); expectNear(s.t_max(), 4.5, 0, "segments", "end"); });
}
// ---------------------------------------------------------------- expressions
struct Dvs { std::vector<DV> v; MX jac(const JacobianContainer& J) { MX m = MX::Zero(J.rows(), 0); for (DV x : v) { m.conservativeResize(Eigen::NoChange, m.cols() + x->minimalDimensions()); int q = x->minimalDimensions(); bool has = false; for (auto it = J.begin(); it != J.end(); ++it) if (it->first == x) { m.rightCols(q) = it->second; has = true; } if (!has) m.rightCols(q).setZero(); } return m; }
  template <typename F> MX num(const F& f) { MX m; for (DV x : v) { MX g = derivative(x, f); m.conservativeResize(g.rows(), m.cols() + g.cols()); m.rightCols(g.cols()) = g; } return m; } };
template <typename E> static auto chained(E& e, JacobianContainer& J, const MX& A, int) -> decltype(e.evaluateJacobians(J, A)) { e.evaluateJacobians(J, A); }
template <typename E> static auto chained(E& e, JacobianContainer& J, const MX& A, long) -> decltype(e.root()->evaluateJacobians(J, A)) { e.root()->evaluateJacobians(J, A); }
template <typename EX, typename VAL> static void checkExpr(EX& e, std::vector<DV> all, std::vector<DV> expectDvs, const VAL& value, int dim, int kind, const std::string& h) {
  for (size_t i = 0; i < all.size(); ++i) { all[i]->setActive(true); all[i]->setBlockIndex(i); } Dvs D; D.v = all; transition(3);
  DesignVariable::set_t set; e.getDesignVariables(set); expect(set.size() == expectDvs.size() && std::all_of(expectDvs.begin(), expectDvs.end(), [&](DV x) { return set.count(x); }), "design-variables", h);
  MX ref = value(); MX N = D.num([&] { return value(); });
  for (int chain = 0; chain < 3; ++chain) { MX A = chain == 0 ? MX(MX::Identity(dim, dim)) : chain == 1 ? pseudoM(dim, dim, 5) : pseudoM(1, dim, 6); JacobianContainer J(A.rows()); if (chain) chained(e, J, A, 0); else e.evaluateJacobians(J); MX got = D.jac(J);
    if (kind == 0) { near(got, A * N, 2e-6, "expression-jacobian", h + fmt(" chain %d", chain)); continue; }
    // rotations and transformations: change of the images of the unit vectors
    MX X = kind == 1 ? MX(M3::Identity()) : MX(M4::Identity()); MX full; if (chain) { JacobianContainer J0(dim); e.evaluateJacobians(J0); full = D.jac(J0); near(got, A * full, 1e-9, "expression-jacobian", h + fmt(" chain %d", chain)); continue; }
    full = got; int r = X.rows(); for (int i = 0; i < r; ++i) { MX y = ref.col(i); MX B = MX::Zero(r, dim); if (kind == 1) B = cross(V3(y.col(0))); else { B.topLeftCorner(3, 3) = y(3, 0) * M3::Identity(); B.topRightCorner(3, 3) = cross(V3(y.block(0, 0, 3, 1))); } near(B * full, N.middleRows(r * i, r), 2e-6, "expression-jacobian", h + fmt(" column %d", i)); } }
}
static void expressions() {
  for (int r = 0; r < 4; ++r) for (int k = 2; k <= 6; ++k) run(fmt("expressions %d %d", r, k), [&] { beat();
    for (int kind = 0; kind < 2; ++kind) { int segs = 4; VD K = knotSequence(k, segs, kind); BSplinePose s(k, rotation(r)); s.setKnotsAndCoefficients(K, coefficients(K.size() - k, 3 + k, 1, 0.2)); BSplinePoseDesignVariable b(s); std::vector<DV> all; for (size_t i = 0; i < b.numDesignVariables(); ++i) all.push_back(b.designVariable(i)); expect((int)all.size() == s.numVvCoefficients() && throws([&] { b.designVariable(all.size()); }), "design-variables", "count");
      for (int g = 0; g < segs; ++g) for (double f : {0.0, 0.6}) { auto iv = s.timeInterval(g); double t = iv.first + f * (iv.second - iv.first); std::string h = fmt("%s order %d knots %d t %g", RN[r], k, kind, t); if (tooMany()) return; state(h); nontrivial(hashStr(h)); const BSplinePose& q = b.spline(); std::vector<DV> act(all.begin() + g, all.begin() + g + k); Eigen::VectorXi ai = b.getActiveDesignVariableIndices(t); std::vector<DV> ad = b.getDesignVariables(t); expect(ad == act && ai.size() == k && ai[0] == g, "design-variables", h);
        auto Te = b.transformation(t); checkExpr(Te, all, act, [&] { MX m = Te.toTransformationMatrix(); return m; }, 6, 2, h + " transformation"); near(Te.toTransformationMatrix(), q.transformation(t), 0, "expression-value", h);
        auto Re = b.orientation(t); checkExpr(Re, all, act, [&] { MX m = Re.toRotationMatrix(); return m; }, 3, 1, h + " orientation"); near(Re.toRotationMatrix(), q.orientation(t), 0, "expression-value", h);
        auto one = [&](aslam::backend::EuclideanExpression e, const V3& v, const char* n) { checkExpr(e, all, act, [&] { MX m = e.toEuclidean(); return m; }, 3, 0, h + n); near(e.toEuclidean(), v, 1e-12, "expression-value", h + n); };
        one(b.position(t), q.position(t), " position"); one(b.linearVelocity(t), q.linearVelocity(t), " velocity"); one(b.linearAcceleration(t), q.linearAcceleration(t), " acceleration"); one(b.linearAccelerationBodyFrame(t), q.linearAccelerationBodyFrame(t), " acceleration body"); one(b.angularVelocityBodyFrame(t), q.angularVelocityBodyFrame(t), " angular velocity"); one(b.angularAccelerationBodyFrame(t), q.angularAccelerationBodyFrame(t), " angular acceleration"); }
      // a variable time: all initial times, buffers and times of evaluation
      for (int g = 0; g < segs; ++g) for (double left : {0.0, 0.8, 9.0}) for (double right : {0.0, 1.1, 9.0}) { auto iv = s.timeInterval(g); double t0 = iv.first + 0.4 * (iv.second - iv.first); Scalar time(t0); std::string h = fmt("%s order %d knots %d start %g buffers %g %g", RN[r], k, kind, t0, left, right); if (tooMany()) return;
        auto Te = b.transformationAtTime(time.toExpression(), left, right); int l = g, e = g; while (l > 0 && s.timeInterval(l).first > t0 - left) --l; while (e + 1 < segs && s.timeInterval(e).second <= t0 + right) ++e; double lo = s.timeInterval(l).first, hi = s.timeInterval(e).second;
        std::vector<DV> act(all.begin() + l, all.begin() + e + k), every = all; act.push_back(&time); every.push_back(&time);
        for (int q = 0; q < segs; ++q) for (double f : {0.15, 0.7}) { auto v = s.timeInterval(q); double t = v.first + f * (v.second - v.first), d = t - time.toScalar(); time.update(&d, 1); std::string hh = h + fmt(" at %g", t); state(hh); if (t < lo || t >= hi) { expect(throws([&] { Te.toTransformationMatrix(); }), "buffer", hh); JacobianContainer J(6); for (size_t i = 0; i < every.size(); ++i) { every[i]->setActive(true); every[i]->setBlockIndex(i); } expect(throws([&] { Te.evaluateJacobians(J); }), "buffer", hh); continue; }
          near(Te.toTransformationMatrix(), b.spline().transformation(t), 1e-12, "expression-value", hh); if (k > 4 || kind == 0 || thorough()) checkExpr(Te, every, act, [&] { MX m = Te.toTransformationMatrix(); return m; }, 6, 2, hh); } } } });
  for (int k = 2; k <= 6; ++k) run(fmt("vector expressions %d", k), [&] { beat(); for (int kind = 0; kind < 2; ++kind) { int segs = 4; VD K = knotSequence(k, segs, kind);
      BSpline s3(k), s1(k), s2(k); s3.setKnotsAndCoefficients(K, pseudoM(3, K.size() - k, k)); s1.setKnotsAndCoefficients(K, pseudoM(1, K.size() - k, k)); s2.setKnotsAndCoefficients(K, pseudoM(2, K.size() - k, k)); EuclideanBSplineDesignVariable b3(s3); BSplineDesignVariable<1> b1(s1); BSplineDesignVariable<2> b2(s2);
      auto dvs = [](auto& b) { std::vector<DV> all; for (size_t i = 0; i < b.numDesignVariables(); ++i) all.push_back(b.designVariable(i)); return all; }; std::vector<DV> a3 = dvs(b3), a1 = dvs(b1), a2 = dvs(b2); expect(throws([&] { BSplineDesignVariable<2> x(s2); aslam::splines::BSplineVectorExpressionNode<2> n(&s3, 0, {}, 0); }), "refused", "dimension");
      for (int g = 0; g < segs; ++g) for (double f : {0.0, 0.6}) for (int o = 0; o < k; ++o) { auto iv = s3.timeInterval(g); double t = iv.first + f * (iv.second - iv.first); std::string h = fmt("order %d knots %d t %g derivative %d", k, kind, t, o); state(h); nontrivial(hashStr(h)); auto act = [&](std::vector<DV>& a) { return std::vector<DV>(a.begin() + g, a.begin() + g + k); };
        auto e3 = b3.toEuclideanExpression(t, o); checkExpr(e3, a3, act(a3), [&] { MX m = e3.toEuclidean(); return m; }, 3, 0, h); near(e3.toEuclidean(), s3.evalD(t, o), 1e-12, "expression-value", h); near(b3.toEuclidean(t, o), s3.evalD(t, o), 1e-12, "expression-value", h);
        auto e2 = b2.toExpression(t, o); checkExpr(e2, a2, act(a2), [&] { MX m = e2.toValue(); return m; }, 2, 0, h); near(e2.toValue(), s2.evalD(t, o), 1e-12, "expression-value", h); auto e1 = b1.toExpression(t, o); checkExpr(e1, a1, act(a1), [&] { MX m = e1.toValue(); return m; }, 1, 0, h); near(e1.toValue(), s1.evalD(t, o), 1e-12, "expression-value", h); expect(b1.getDesignVariables(t) == act(a1), "design-variables", h);
        Eigen::Matrix<double, 1, 1> y; y << 0.4; SimpleSplineError<BSplineDesignVariable<1>> err(&b1, &e1, y, t); double want = s1.evalD(t, o)[0] - 0.4; expectNear(err.evaluateError(), want * want, 1e-12, "spline-error", h); JacobianContainer J(1), J0(1); err.evaluateJacobians(J); e1.evaluateJacobians(J0); Dvs D; D.v = a1; near(D.jac(J), D.jac(J0), 0, "spline-error", h); } } });
}
// ---------------------------------------------------------------- histories of the design variables
template <typename B, typename ADD, typename ADD2> static void history(B& b, const std::string& h0, const std::vector<int>& ops, ADD add, ADD2 add2) {
  std::string h = h0; auto check = [&] { const BSpline& s = b.spline(); int n = s.numVvCoefficients(); expect((int)b.numDesignVariables() == n, "history", h + " count"); if ((int)b.numDesignVariables() != n) return; MX C = s.coefficients(); for (int i = 0; i < n; ++i) { MX v; b.designVariable(i)->getParameters(v); near(v, C.col(i), 0, "history", h + fmt(" variable %d", i)); } state(h); };
  check(); MX before; bool revertible = false; std::vector<DV> last;
  for (size_t q = 0; q < ops.size(); ++q) { int o = ops[q]; h += fmt(" %d", o); const BSpline& s = b.spline(); MX C = s.coefficients(); int n = C.cols(), D = C.rows(); std::vector<DV> dvs; for (int i = 0; i < n; ++i) dvs.push_back(b.designVariable(i)); transition();
    if (o == 0 || o == 1) { double t = s.t_max() + 0.7 + 0.2 * q; BSpline want(s); VX p = pseudo(D, 60 + q); if (o == 0) { add(b, t, p); want.addCurveSegment(t, p); } else { add2(b, t, p, 1e-3); want.addCurveSegment2(t, p, 1e-3); } near(b.spline().coefficients(), want.coefficients(), 1e-6, "history", h + " curve"); for (int i = 0; i < n; ++i) expect((DV)b.designVariable(i) == dvs[i], "history", h + " same variables"); revertible = false; }
    else if (o == 2) { if (s.numValidTimeSegments() < 2) continue; b.removeSegment(); near(b.spline().coefficients(), C.rightCols(n - 1), 0, "history", h + " curve"); for (int i = 0; i + 1 < n; ++i) expect((DV)b.designVariable(i) == dvs[i + 1], "history", h + " same variables"); revertible = false; }
    else if (o == 3) { before = C; for (int i = 0; i < n; ++i) { VX d = pseudo(D, 90 + 7 * q + i); dvs[i]->update(d.data(), D); C.col(i) += d; near(b.spline().coefficients(), C, 1e-15, "history", h + fmt(" update of %d", i)); } revertible = true; }
    else if (o == 4) { if (!revertible) continue; for (int i = 0; i < n; ++i) { dvs[i]->revertUpdate(); C.col(i) = before.col(i); near(b.spline().coefficients(), C, 1e-15, "history", h + fmt(" revert of %d", i)); } revertible = false; }
    else { for (int i = 0; i < n; ++i) { MX v = pseudo(D, 120 + i + q); dvs[i]->setParameters(v); C.col(i) = v; near(b.spline().coefficients(), C, 0, "history", h + fmt(" parameters of %d", i)); } revertible = false; }
    check(); }
}
static void histories() {
  for (int k = 2; k <= 6; ++k) for (int type = 0; type < 3; ++type) run(fmt("history %d %d", k, type), [&] { int depth = thorough() ? 6 : 4; std::vector<int> ops; VD K = knotSequence(k, 2, 1);
    std::function<void()> all = [&] { if (tooMany()) return; if ((int)ops.size() < depth) { for (int o = 0; o < 6; ++o) { ops.push_back(o); all(); ops.pop_back(); } return; } beat(); std::string h = fmt("order %d type %d ops", k, type);
      if (type == 0) { BSplinePose s(k, rotation(0)); s.setKnotsAndCoefficients(K, coefficients(K.size() - k, 2, 1, 0.2)); BSplinePoseDesignVariable b(s); history(b, h, ops, [&](BSplinePoseDesignVariable& b, double t, VX& p) { p.tail<3>() *= 0.5; M4 T = b.spline().curveValueToTransformation(p); b.addSegment(t, T); p = b.spline().transformationToCurveValue(T); }, [&](BSplinePoseDesignVariable& b, double t, VX& p, double l) { p.tail<3>() *= 0.5; M4 T = b.spline().curveValueToTransformation(p); b.addSegment2(t, T, l); p = b.spline().transformationToCurveValue(T); }); }
      else if (type == 1) { BSpline s(k); s.setKnotsAndCoefficients(K, pseudoM(3, K.size() - k, 2)); EuclideanBSplineDesignVariable b(s); history(b, h, ops, [](EuclideanBSplineDesignVariable& b, double t, const VX& p) { b.addSegment(t, p); }, [](EuclideanBSplineDesignVariable& b, double t, const VX& p, double l) { b.addSegment2(t, p, l); }); }
      else { BSpline s(k); s.setKnotsAndCoefficients(K, pseudoM(2, K.size() - k, 2)); BSplineDesignVariable<2> b(s); history(b, h, ops, [](BSplineDesignVariable<2>& b, double t, const VX& p) { b.addSegment(t, p); }, [](BSplineDesignVariable<2>& b, double t, const VX& p, double l) { b.addSegment2(t, p, l); }); } };
    all(); });
}
// ---------------------------------------------------------------- motion errors
template <typename S> static VX cvec(const S& s) { return flat(s.coefficients()); }
template <typename B> static void motion(B& b, int k, const std::string& h0) {
  int D = b.spline().coefficients().rows(), n = b.spline().numVvCoefficients(); MX g = pseudoM(D, D, 3), W = g * g.transpose() + 0.1 * MX::Identity(D, D);
  for (int diag = 0; diag < 2; ++diag) for (int o = 0; o <= k; ++o) { MX Wm = diag ? MX(W.diagonal().asDiagonal()) : W; int oo = o < k ? o : k - 1; std::string h = h0 + fmt(" derivative %d diagonal %d", o, diag); nontrivial(hashStr(h)); MX Q = b.spline().curveQuadraticIntegral(Wm, oo); auto cost = [&] { VX c = cvec(b.spline()); return (c.transpose() * Q * c)(0, 0); };
    for (int i = 0; i < n; ++i) { b.designVariable(i)->setActive(true); b.designVariable(i)->setBlockIndex(i); }
    std::streambuf* cb = std::cout.rdbuf(nullptr); BSplineMotionError<B> e(&b, Wm, o); std::cout.rdbuf(cb); near(e.Q(), Q, 1e-10, "motion-error", h + " Q");
    OptimizationProblem problem; for (int i = 0; i < n; ++i) problem.addDesignVariable(b.designVariable(i), false); bool factory = o < k; if (factory) addMotionErrorTerms(problem, b, Wm, o); if (factory) expect((int)problem.numErrorTerms() == b.spline().numValidTimeSegments(), "motion-error", h + " number");
    for (int step = 0; step < 3; ++step) { std::string hs = h + fmt(" step %d", step); state(hs); transition(2); double c = cost(); expectNear(e.evaluateError(), c, 1e-9 * (1 + c), "motion-error", hs); near(e.rhs(), -Q * cvec(b.spline()), 1e-9, "motion-error", hs + " rhs");
      if (factory) { double sum = 0; for (size_t i = 0; i < problem.numErrorTerms(); ++i) { sum += problem.errorTerm(i)->evaluateError(); } expectNear(sum, c, 1e-8 * (1 + c), "motion-terms", hs); VX grad = VX::Zero(n * D); for (size_t i = 0; i < problem.numErrorTerms(); ++i) { JacobianContainer J(problem.errorTerm(i)->dimension()); problem.errorTerm(i)->getWeightedJacobians(J, false); VX err; problem.errorTerm(i)->getWeightedError(err, false); for (auto it = J.begin(); it != J.end(); ++it) grad.segment(it->first->blockIndex() * D, D) += it->second.transpose() * err; } near(grad, Q * cvec(b.spline()), 1e-8, "motion-terms", hs + " gradient"); }
      for (int mask = 0; mask < (1 << std::min(n, 6)); ++mask) { std::vector<int> act, rows; int bi = 0; std::vector<int> ends; for (int i = 0; i < n; ++i) { bool on = i >= 6 || ((mask >> i) & 1); b.designVariable(i)->setActive(on); b.designVariable(i)->setBlockIndex(on ? bi : -1); if (on) { act.push_back(i); ++bi; ends.push_back(bi * D); } } if (!bi) continue; if (!thorough() && step && mask % 5) continue;
        aslam_sparse_block_matrix::SparseBlockMatrix<MX> H(ends, ends); VX r = VX::Constant(bi * D, 0.5); e.buildHessian(H, r, false); MX Hd = MX::Zero(bi * D, bi * D); for (int x = 0; x < bi; ++x) for (int y = 0; y < bi; ++y) { const MX* blk = H.block(x, y); if (x > y) expect(!blk || blk->isZero(0), "motion-error", hs + " below the diagonal"); else near(blk ? *blk : MX(MX::Zero(D, D)), Q.block(act[x] * D, act[y] * D, D, D), 1e-9, "motion-error", hs + fmt(" Hessian mask %d", mask)); } VX w = -Q * cvec(b.spline()); for (int x = 0; x < bi; ++x) near(r.segment(x * D, D), VX::Constant(D, 0.5) + w.segment(act[x] * D, D), 1e-9, "motion-error", hs + fmt(" right hand side mask %d", mask)); }
      for (int i = 0; i < n; ++i) { b.designVariable(i)->setActive(true); b.designVariable(i)->setBlockIndex(i); VX d = pseudo(D, 40 + i + 9 * step); b.designVariable(i)->update(d.data(), D); } } }
}
static void motions() { for (int k = 2; k <= 6; ++k) run(fmt("motion %d", k), [&] { beat(); for (int segs = 1; segs <= 3; ++segs) for (int kind = 0; kind < 2; ++kind) { if (tooMany()) return; VD K = knotSequence(k, segs, kind); std::string h = fmt("order %d segments %d knots %d", k, segs, kind); BSpline s3(k), s1(k); s3.setKnotsAndCoefficients(K, pseudoM(3, K.size() - k, k)); s1.setKnotsAndCoefficients(K, pseudoM(1, K.size() - k, k)); EuclideanBSplineDesignVariable b3(s3); BSplineDesignVariable<1> b1(s1); motion(b3, k, h + " dimension 3"); motion(b1, k, h + " dimension 1"); BSplinePose s(k, rotation(0)); s.setKnotsAndCoefficients(K, coefficients(K.size() - k, 2, 1, 0.2)); BSplinePoseDesignVariable b(s); if (segs == 2) motion(b, k, h + " pose"); } }); }
int main(int c, char** v) { init(c, v); poses(); expressions(); histories(); motions(); return finish(); }

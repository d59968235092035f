// Error terms of IMU measurements, reprojections and priors against their
// formula, its derivatives, and the motion of the camera during read-out.
#include "expressions_common.hpp"
#include <kalibr/AccelerometerError.hpp>
#include <kalibr/GyroscopeError.hpp>
#include <kalibr/EuclideanError.hpp>
#include <aslam_backend_expressions/RotationQuaternion.hpp>
#include <aslam_backend_expressions/EuclideanPoint.hpp>
#include <aslam_backend_expressions/HomogeneousPoint.hpp>
#include <aslam_backend_expressions/MatrixBasic.hpp>
#include <aslam_backend_expressions/Scalar.hpp>
#include <aslam_backend_expressions/DesignVariableVector.hpp>
#include <aslam_backend_expressions/ErrorTermEuclidean.hpp>
#include <aslam_backend_expressions/ErrorTermTransformation.hpp>
#include <aslam_backend_expressions/ExpressionErrorTerm.hpp>
#include <aslam_backend_expressions/TransformationBasic.hpp>
#include <aslam_cv_error_terms/ReprojectionError.hpp>
#include <aslam_cv_error_terms/SimpleReprojectionError.hpp>
#include <aslam_cv_error_terms/CovarianceReprojectionError.hpp>
#include <aslam_cv_backend/CameraDesignVariable.hpp>
#include <aslam_cv_backend/GridCalibrationTargetDesignVariableContainer.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetCheckerboard.hpp>
#include <aslam_cameras/cameras.hpp>
#include <aslam_cameras/Frame.hpp>
#include <aslam_bsplines/BSplinePose.hpp>
#include <aslam_splines/BSplinePoseDesignVariable.hpp>
#include <sm_kinematics/RotationVector.hpp>
#include <sm_kinematics/quaternion_algebra.hpp>
using namespace aslam::cameras;
template <typename F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static MX information(int n, int seed) { MX g = pseudoM(n, n, seed); return seed % 3 == 0 ? MX(MX::Identity(n, n)) : MX(g * g.transpose() + 0.5 * MX::Identity(n, n)); }
// One error term: for every set of active variables error, cost, and Jacobians.
template <typename E, typename F> static void term(E& e, const std::vector<DV>& dvs, const F& error, const MX& invR, const std::string& h, double tol = 2e-6) {
  std::set<DV> want(dvs.begin(), dvs.end()), got; for (size_t i = 0; i < e.numDesignVariables(); ++i) got.insert(e.designVariable(i)); expect(got == want && got.size() == e.numDesignVariables(), "design-variables", h); if (got != want) return;
  int n = dvs.size(), full = (1 << n) - 1; std::vector<int> masks; if (n <= 3 || thorough()) for (int m = 0; m <= full; ++m) masks.push_back(m); else { masks = {full, 0}; for (int i = 0; i < n; ++i) { masks.push_back(1 << i); masks.push_back(full & ~(1 << i)); } }
  MX ref = error(); std::vector<MX> num; for (DV d : dvs) num.push_back(d->minimalDimensions() ? MX(derivative(d, error)) : MX(ref.rows(), 0));
  for (int m : masks) { std::string hm = h + fmt(" active %d", m); if (tooMany()) return; transition(2); for (int i = 0; i < n; ++i) { dvs[i]->setActive(m >> i & 1); dvs[i]->setBlockIndex(i); }
    double c = e.evaluateError(), want = (ref.transpose() * invR * ref)(0, 0); expectNear(c, want, 1e-9 * (1 + want), "cost", hm); near(e.vsError(), ref, 1e-10, "error", hm); near(e.vsInvR(), invR, 1e-9, "information", hm); expect((int)e.dimension() == ref.rows(), "dimension", hm);
    JacobianContainer J(ref.rows()); e.evaluateJacobians(J); int seen = 0; for (auto it = J.begin(); it != J.end(); ++it) { ++seen; int i = std::find(dvs.begin(), dvs.end(), it->first) - dvs.begin(); if (i == n || !(m >> i & 1)) { fail("jacobian", hm + " of a variable not active"); continue; } near(it->second, num[i], tol, "jacobian", hm + fmt(" variable %d", i)); }
    for (int i = 0; i < n; ++i) if (m >> i & 1) { bool has = false; for (auto it = J.begin(); it != J.end(); ++it) has |= it->first == dvs[i]; expect(has || num[i].size() == 0 || num[i].cwiseAbs().maxCoeff() < 1e-9, "jacobian", hm + fmt(" variable %d left out", i)); } }
  for (DV d : dvs) d->setActive(true); state(h); nontrivial(hashStr(h));
}
static V4 unit(int s) { if (!s) return V4(0, 0, 0, 1); V4 q = pseudo(4, s); q.normalize(); return q; }
static V3 vec(int s) { return s ? V3(2 * pseudo(3, s)) : V3(V3::Zero()); }
static Eigen::Matrix3i pattern(int p) { Eigen::Matrix3i m; for (int i = 0; i < 9; ++i) m(i / 3, i % 3) = p == 0 ? 1 : p == 1 ? (i / 3 >= i % 3) : p == 2 ? i / 3 == i % 3 : 0; return m; }
// ---------------------------------------------------------------- IMU
static void imu() {
  for (int s = 0; s < (thorough() ? 30 : 8); ++s) run(fmt("imu %d", s), [&] { beat(); auto seed = [&](int k) { return s == 0 ? 0 : s == k ? 0 : 100 * s + k; };
    RotationQuaternion q(unit(seed(1))), qi(unit(seed(2))); EuclideanPoint a(vec(seed(3))), b(vec(seed(4))), g(vec(seed(5))), w(vec(seed(6))), al(vec(seed(7))), rx(vec(seed(8))), ry(vec(seed(9))), rz(vec(seed(10)));
    V3 y = vec(s ? 777 + s : 0); MX R = information(3, s); M3 R3 = R; std::string h = fmt("seed %d ", s);
    auto C = [](RotationQuaternion& x) { return M3(x.toExpression().toRotationMatrix()); }; auto P = [](EuclideanPoint& x) { return V3(x.toExpression().toEuclidean()); };
    { kalibr::EuclideanError e(y, R3, a.toExpression()); term(e, {&a}, [&] { return MX(P(a) - y); }, R, h + "euclidean"); near(e.getMeasurement(), y, 0, "measurement", h); near(e.getPredictedMeasurement(), P(a), 1e-14, "measurement", h); }
    { kalibr::GyroscopeError e(y, R3, w.toExpression(), b.toExpression()); term(e, {&w, &b}, [&] { return MX(P(w) + P(b) - y); }, R, h + "gyroscope"); near(e.getMeasurement(), y, 0, "measurement", h); near(e.getPredictedMeasurement(), P(w) + P(b), 1e-14, "measurement", h); }
    { kalibr::GyroscopeNoBiasError e(y, R3, w.toExpression()); term(e, {&w}, [&] { return MX(P(w) - y); }, R, h + "gyroscope without bias"); }
    { kalibr::AccelerometerError e(y, R3, q.toExpression(), a.toExpression(), b.toExpression(), g.toExpression()); auto f = [&] { return MX(C(q) * (P(a) - P(g)) + P(b) - y); }; term(e, {&q, &a, &b, &g}, f, R, h + "accelerometer"); near(e.getMeasurement(), y, 0, "measurement", h); near(e.getPredictedMeasurement(), f() + y, 1e-12, "measurement", h); }
    for (int p = 0; p < 4; ++p) for (int p2 = 0; p2 < (thorough() ? 4 : 2); ++p2) { M3 m = M3::Identity() + 0.3 * pseudoM(3, 3, s + 40), ma = pseudoM(3, 3, s + 41); MatrixBasic M(m, pattern(p)), Ma(ma, pattern((p + p2) % 4)); std::vector<DV> dm, dma; auto mat = [](MatrixBasic& x) { return M3(x.toExpression().toMatrix3x3()); }; std::string hp = h + fmt("patterns %d %d ", p, p2);
      { kalibr::AccelerometerErrorEccentric e(y, R3, M.toExpression(), q.toExpression(), a.toExpression(), w.toExpression(), al.toExpression(), qi.toExpression(), rx.toExpression(), ry.toExpression(), rz.toExpression(), b.toExpression(), g.toExpression());
        auto f = [&] { V3 sum = C(q) * (P(a) - P(g)); V3 r[3] = {P(rx), P(ry), P(rz)}; for (int i = 0; i < 3; ++i) { V3 x = P(al).cross(r[i]) + P(w).cross(P(w).cross(r[i])); sum[i] += x[i]; } return MX(mat(M) * (C(qi) * sum) + P(b) - y); };
        // the selecting matrices without free elements are design variables too
        std::vector<DV> dv; for (DV d : std::vector<DV>{&M, &q, &a, &w, &al, &qi, &rx, &ry, &rz, &b, &g}) if (d->minimalDimensions()) dv.push_back(d); std::set<DV> known(dv.begin(), dv.end()); for (size_t i = 0; i < e.numDesignVariables(); ++i) { DV d = e.designVariable(i); if (!known.count(d)) { expect(d->minimalDimensions() == 0, "design-variables", hp + "accelerometer: a variable of another term"); } }
        struct Sub { kalibr::AccelerometerErrorEccentric& e; std::vector<DV> v; size_t numDesignVariables() { return v.size(); } DV designVariable(size_t i) { return v[i]; } double evaluateError() { return e.evaluateError(); } VX vsError() { return e.vsError(); } MX vsInvR() { return e.vsInvR(); } size_t dimension() { return e.dimension(); } void evaluateJacobians(JacobianContainer& J) { e.evaluateJacobians(J); } } sub{e, {}};
        for (size_t i = 0; i < e.numDesignVariables(); ++i) { e.designVariable(i)->setActive(false); if (known.count(e.designVariable(i))) sub.v.push_back(e.designVariable(i)); } for (size_t i = 0; i < e.numDesignVariables(); ++i) e.designVariable(i)->setBlockIndex(20 + i);
        if (p2 == 0) term(sub, dv, f, R, hp + "eccentric accelerometer"); }
      { kalibr::GyroscopeErrorEccentric e(y, R3, M.toExpression(), Ma.toExpression(), q.toExpression(), a.toExpression(), w.toExpression(), al.toExpression(), qi.toExpression(), rx.toExpression(), b.toExpression(), g.toExpression());
        std::vector<DV> dv; for (DV d : std::vector<DV>{&M, &Ma, &q, &a, &w, &al, &qi, &rx, &b, &g}) if (d->minimalDimensions()) dv.push_back(d); term(e, dv, [&] { V3 sf = C(q) * (P(a) - P(g)) + P(al).cross(P(rx)) + P(w).cross(P(w).cross(P(rx))); return MX(mat(M) * (C(qi) * P(w) + mat(Ma) * (C(qi) * sf)) + P(b) - y); }, R, hp + "eccentric gyroscope"); } } });
}
// ---------------------------------------------------------------- priors
static void priors() {
  for (int s = 0; s < (thorough() ? 60 : 15); ++s) run(fmt("prior %d", s), [&] { beat(); EuclideanPoint a(vec(s)); V3 y = vec(s ? s + 200 : 0); MX N = information(3, s + 1); M3 N3 = N; std::string h = fmt("seed %d", s);
    { ErrorTermEuclidean e(a.toExpression(), y, N3); term(e, {&a}, [&] { return MX(V3(a.toExpression().toEuclidean()) - y); }, N.inverse(), h + " position"); ErrorTermEuclidean e2(a.toExpression(), y, 2.5); term(e2, {&a}, [&] { return MX(V3(a.toExpression().toEuclidean()) - y); }, 2.5 * MX::Identity(3, 3), h + " weighted position"); }
    RotationQuaternion q(unit(s)); TransformationBasic T(q.toExpression(), a.toExpression()); V4 dq = unit(s + 300); double ang = 0.05 + 0.35 * (s % 7); V3 ax = V3(pseudo(3, s + 7)).normalized(); if (s == 0) ang = 0; dq << ax * std::sin(ang / 2), std::cos(ang / 2); sm::kinematics::Transformation prior(sm::kinematics::qplus(dq, unit(s)), vec(s + 5));
    MX M = information(6, s + 2); Eigen::Matrix<double, 6, 6> M6 = M; TransformationExpression te = T.toExpression();
    auto f = [&] { M4 D = M4(te.toTransformationMatrix()) * M4(prior.T()).inverse(); VX e(6); e.head<3>() = D.topRightCorner<3, 1>(); M3 R = D.topLeftCorner<3, 3>(); Eigen::AngleAxisd aa(R); V3 v = -aa.angle() * aa.axis(); e.tail<3>() = v; return MX(e); };
    if (s) { ErrorTermTransformation e(te, prior, M6); term(e, {&q, &a}, f, M.inverse(), h + " pose"); VX w(6); w << 3, 3, 3, 0.7, 0.7, 0.7; ErrorTermTransformation e2(te, prior, 0.7, 3.0); term(e2, {&q, &a}, f, w.asDiagonal(), h + " weighted pose"); }
    { EuclideanExpression x = q.toExpression() * a.toExpression(); auto e = toErrorTerm(x); e->setInvR(N3); term(*e, {&q, &a}, [&] { return MX(V3(x.toEuclidean())); }, N, h + " expression"); auto e2 = toErrorTerm(x, N3); near(e2->vsInvR(), N, 1e-12, "information", h); MX L = N.llt().matrixL(); M3 L3 = L.transpose(); auto e3 = toErrorTermSqrt(x, L3); near(e3->vsInvR(), e3->vsInvR().transpose(), 1e-12, "information", h); double c3 = e3->evaluateError(); V3 v = x.toEuclidean(); expectNear(c3, (v.transpose() * MX(e3->vsInvR()) * v)(0, 0), 1e-9 * (1 + c3), "cost", h + " square root"); }
    { DesignVariableVector<2> v(pseudo(2, s + 9)); auto e = toErrorTerm(v.toExpression()); MX N2 = information(2, s + 4); e->setInvR(Eigen::Matrix2d(N2)); term(*e, {&v}, [&] { return MX(v.value()); }, N2, h + " vector"); }
  });
}
// ---------------------------------------------------------------- reprojections
// a rolling shutter camera on a pose spline
template <typename CAM, typename... X> static void onSpline(std::false_type, X&&...) {}
template <typename CAM> static void onSpline(std::true_type, boost::shared_ptr<CAM> cam, boost::shared_ptr<CameraDesignVariable<CAM>> sdv, aslam::Frame<CAM>& frame, const std::vector<Eigen::Vector2d>& ys, aslam::Time t0, const Eigen::Matrix2d& R, const std::string& h, int s) {
  typedef aslam::Frame<CAM> Fr;
  for (int rot = 0; rot < 3; ++rot) for (int fast = 0; fast < 2; ++fast) { MX par(1, 1); par << 2e-4; cam->shutter().setParameters(par); aslam_bsplines::BSplinePose sp(4, sm::kinematics::RotationalKinematics::Ptr(new sm::kinematics::RotationVector)); std::vector<double> K; for (int i = 0; i < 14; ++i) K.push_back(10 + i * 0.5 + s); MX Cf = (fast ? 0.5 : 0.05) * pseudoM(6, 10, 3 + rot); V3 r0 = rot == 0 ? V3(0, 0, 0) : rot == 1 ? V3(0.1, 1.2, -0.3) : V3(0.5, 0.4, 2.4); for (int i = 0; i < 10; ++i) Cf.block(3, i, 3, 1) += r0; sp.setKnotsAndCoefficients(K, Cf);
      aslam::splines::BSplinePoseDesignVariable sdvp(sp); V3 inC(0.2, -0.1 + 0.2 * s, 2.0); double tm = (t0 + cam->temporalOffset(ys[1])).toSec(); M4 Twc = sp.transformation(tm); V4 W = Twc * V4(inC[0], inC[1], inC[2], 1); boost::shared_ptr<HomogeneousPoint> land(new HomogeneousPoint(W)); HomogeneousExpression pl(land); auto kt = sdv->keypointTime(t0, ys[1]); sdv->setActive(true, true, true); auto Tx = sdvp.transformationAtTime(kt, 0.1, 0.1); HomogeneousExpression pc = Tx.inverse() * pl; std::string hh = h + fmt(" rotation %d speed %d", rot, fast);
      CovarianceReprojectionError<Fr> e(&frame, 1, pc, *sdv, &sdvp), plain(&frame, 1, pc, *sdv, nullptr); double ld = cam->shutter().lineDelay(); expectNear(e.observationTime(), tm, 2e-9, "keypoint-time", hh);
      auto resid = [&](double v) { double t = t0.toSec() + ld * v; M4 T = sp.transformation(t); V4 c = T.inverse() * W; Eigen::Vector2d y; cam->homogeneousToKeypoint(c, y); return VX(Eigen::Vector2d(ys[1][0], v) - y); }; double hs = 20; VX d1 = (resid(ys[1][1] + hs) - resid(ys[1][1] - hs)) / (2 * hs), d2 = (resid(ys[1][1] + 2 * hs) - resid(ys[1][1] - 2 * hs)) / (4 * hs); VX g = (4 * d1 - d2) / 3; MX A = MX::Identity(2, 2); A.col(1) = g;
      near(e.covarianceMap(), A, 1e-5, "rolling-shutter-covariance", hh); double c = e.evaluateError(); MX S = (A * R.inverse() * A.transpose()).inverse(); near(e.invR(), S, 1e-4, "rolling-shutter-covariance", hh + " information"); VX r = e.error(); expectNear(c, (r.transpose() * e.invR() * r)(0, 0), 1e-9 * (1 + c), "cost", hh); near(r, resid(ys[1][1]), 1e-6, "error", hh);
      { JacobianContainer J(2), Jp(2); std::vector<DV> v; for (size_t i = 0; i < e.numDesignVariables(); ++i) { v.push_back(e.designVariable(i)); v.back()->setActive(true); v.back()->setBlockIndex(i); } e.evaluateJacobians(J); auto f = [&] { Eigen::Vector2d y; cam->homogeneousToKeypoint(pc.toHomogeneous(), y); return MX(ys[1] - y); }; for (auto it = J.begin(); it != J.end(); ++it) { double step = it->first == sdv->shutterDesignVariable().get() ? 1e-5 : 2e-3; MX num = derivative(it->first, f, step); near(it->second, num, it->first == sdv->shutterDesignVariable().get() ? 2e-3 : 2e-5, "jacobian", hh + " covariance term"); } expect(std::set<DV>(v.begin(), v.end()).count(sdv->shutterDesignVariable().get()) && std::set<DV>(v.begin(), v.end()).count(land.get()), "design-variables", hh); }
      Eigen::Matrix2d I; I.setIdentity(); (void)I; plain.evaluateError(); near(plain.error(), r, 1e-12, "error", hh + " without spline"); state(hh); transition(3); expect(throws([&] { CovarianceReprojectionError<Fr> bad(&frame, 3, pc, *sdv, &sdvp); }) && throws([&] { CovarianceReprojectionError<Fr> bad(nullptr, 0, pc, *sdv, &sdvp); }), "refused", hh); }
}
template <typename CAM> static void cameras(const char* name, const typename CAM::projection_t& pr, const typename CAM::shutter_t& sh, bool rolling) {
  typedef aslam::Frame<CAM> Fr; typedef typename CAM::projection_t::distortion_t D;
  for (int s = 0; s < (thorough() ? 6 : 2); ++s) for (int kind = 0; kind < 5; ++kind) run(fmt("camera %s %d %d", name, s, kind), [&] { beat(); boost::shared_ptr<CAM> cam(new CAM(pr, sh)); CameraDesignVariable<CAM> cdv(cam); CAM other(pr, sh); { VX d = VX::Constant(std::max(1, cam->projection().minimalDimensions()), 0.01); other.projection().update(d.data()); }
    std::vector<DV> camera = {cdv.projectionDesignVariable().get(), cdv.distortionDesignVariable().get(), cdv.shutterDesignVariable().get()};
    Fr frame; frame.setGeometry(cam); aslam::Time t0(12.5 + s); frame.setTime(t0); Eigen::Matrix2d R = information(2, s + kind); std::vector<Eigen::Vector2d> ys;
    for (int i = 0; i < 3; ++i) { aslam::Keypoint<2> k; ys.push_back(Eigen::Vector2d(310 + 40 * i - 7 * s, 150.25 + 60 * i + s)); k.setMeasurement(ys[i]); k.setInverseMeasurementCovariance(i == 1 ? R : Eigen::Matrix2d(3 * R)); frame.addKeypoint(k); }
    V3 x(0.21 - 0.3 * s, -0.34 + 0.1 * kind, 1.7 + s); boost::shared_ptr<EuclideanPoint> pe(new EuclideanPoint(x)); V4 hx; hx << x, 1; double scale = kind == 1 ? 1 : kind == 2 ? 3.0 : -0.5; boost::shared_ptr<HomogeneousPoint> ph(new HomogeneousPoint(scale * hx)); std::vector<DV> dvs; HomogeneousExpression p = kind == 0 ? pe->toExpression().toHomogeneousExpression() : HomogeneousExpression(ph); if (kind == 0) dvs = {pe.get()}; else dvs = {ph.get()}; RotationQuaternion q(unit(3)); boost::shared_ptr<EuclideanPoint> tr(new EuclideanPoint(V3(0.1, 0.2, -0.1)));
    boost::shared_ptr<RotationQuaternion> small; boost::shared_ptr<TransformationBasic> tb; if (kind == 4) { V4 qq(0.05, -0.04, 0.02, 1); qq.normalize(); small.reset(new RotationQuaternion(qq)); tb.reset(new TransformationBasic(small->toExpression(), tr->toExpression())); p = tb->toExpression() * p; dvs = {small.get(), tr.get(), ph.get()}; }
    std::string h = fmt("%s seed %d point %d", name, s, kind); auto proj = [&](CAM& c) { Eigen::Vector2d y; c.homogeneousToKeypoint(p.toHomogeneous(), y); return y; }; std::vector<DV> all = dvs; all.insert(all.end(), camera.begin(), camera.end()); double tol = 1e-5;
    { ReprojectionError<CAM> e(&frame, 1, p, cdv); term(e, all, [&] { return MX(ys[1] - proj(*cam)); }, R, h + " frame", tol); near(e.getMeasurement(), ys[1], 0, "measurement", h); near(e.getPredictedMeasurement(), proj(*cam), 1e-12, "measurement", h); Eigen::Vector2d y2(1, 2); e.updateMeasurement(y2); e.evaluateError(); near(e.getMeasurement(), y2, 0, "measurement", h); near(e.error(), y2 - proj(*cam), 1e-12, "measurement", h); near(e.invR(), R, 1e-12, "measurement", h); Eigen::Matrix2d R2 = information(2, 8); e.updateMeasurementAndCovariance(ys[0], R2); double c = e.evaluateError(); MX r = ys[0] - proj(*cam); expectNear(c, (r.transpose() * R2 * r)(0, 0), 1e-9 * (1 + c), "measurement", h); near(e.getMeasurement(), ys[0], 0, "measurement", h);
      near(frame.keypoint(1).y(), ys[1], 0, "measurement", h + " keypoint of the frame"); }
    { Eigen::Matrix2d Rm = 2 * R; ReprojectionError<CAM> e(ys[2], Rm, p, cdv); term(e, all, [&] { return MX(ys[2] - proj(*cam)); }, Rm, h + " measurement", tol); }
    { SimpleReprojectionError<Fr> e(&frame, 2, p); term(e, dvs, [&] { return MX(ys[2] - proj(*cam)); }, 3 * R, h + " simple", tol); SimpleReprojectionError<Fr> e2(ys[0], R, p, other); term(e2, dvs, [&] { return MX(ys[0] - proj(other)); }, R, h + " simple measurement", tol); }
    { ReprojectionError<CAM>* none = nullptr; expect(throws([&] { Fr* f = nullptr; ReprojectionError<CAM> e(f, 0, p, cdv); }) && throws([&] { Fr* f = nullptr; SimpleReprojectionError<Fr> e(f, 0, p); }), "refused", h); }
    expect(cam->projection().minimalDimensions() == camera[0]->minimalDimensions() && cam->projection().distortion().minimalDimensions() == camera[1]->minimalDimensions() && cam->shutter().minimalDimensions() == camera[2]->minimalDimensions(), "design-variables", h + " dimensions"); DesignVariable::set_t set; cdv.getDesignVariables(set); expect(set.size() == 3 && set.count(camera[0]) && set.count(camera[1]) && set.count(camera[2]), "design-variables", h + " camera");
    near(cdv.homogeneousToKeypoint(p.toHomogeneous()), proj(*cam), 0, "camera", h); { Eigen::Vector2d ye; V4 hh = p.toHomogeneous(); V3 e3 = hh.head<3>() / hh[3]; cam->euclideanToKeypoint(e3, ye); near(cdv.euclideanToKeypoint(e3), ye, 0, "camera", h); }
    for (int m = 0; m < 8; ++m) { cdv.setActive(m & 1, m & 2, m & 4); for (int i = 0; i < 3; ++i) expect(camera[i]->isActive() == bool(m >> i & 1), "active", h + fmt(" %d", m)); }
    // chain rule
    { for (int i = 0; i < 3; ++i) { camera[i]->setActive(true); camera[i]->setBlockIndex(i); } MX A = pseudoM(3, 2, 4); JacobianContainer J(2), JA(3); cdv.evaluateJacobians(J, p.toHomogeneous()); cdv.evaluateJacobians(JA, A, p.toHomogeneous()); for (auto it = J.begin(); it != J.end(); ++it) { bool has = false; for (auto jt = JA.begin(); jt != JA.end(); ++jt) if (jt->first == it->first) { has = true; near(jt->second, A * it->second, 1e-12, "camera", h + " chain rule"); } expect(has, "camera", h + " chain rule"); } }
    // times of keypoints
    boost::shared_ptr<CameraDesignVariable<CAM>> sdv(new CameraDesignVariable<CAM>(cam)); for (int act = 0; act < (rolling ? 2 : 1); ++act) for (int i = 0; i < 3; ++i) { DV sd = sdv->shutterDesignVariable().get(); sdv->setActive(false, false, act); double ld = rolling ? 3e-5 * (s + 1) : 0; if (rolling) { MX P(1, 1); P << ld; sd->setParameters(P); }
      auto kt = sdv->keypointTime(t0, ys[i]); auto off = sdv->temporalOffset(ys[i]); std::string hh = h + fmt(" keypoint %d active %d", i, act); expectNear(kt.toScalar(), t0.toSec() + ld * ys[i][1], 2e-9, "keypoint-time", hh); expectNear(off.toScalar(), ld * ys[i][1], 2e-9, "keypoint-time", hh); expectNear(frame.keypointTime(i).toSec(), t0.toSec() + ld * ys[i][1], 2e-9, "keypoint-time", hh + " of the frame");
      if (act) { sd->setBlockIndex(0); DesignVariable::set_t st; kt.getDesignVariables(st); expect(st.size() == 1 && st.count(sd), "keypoint-time", hh + " variables"); for (int chain = 0; chain < 2; ++chain) { MX A = chain ? pseudoM(3, 1, 5) : MX(MX::Identity(1, 1)); JacobianContainer J(A.rows()); if (chain) kt.evaluateJacobians(J, A); else kt.evaluateJacobians(J); MX want = A * ys[i][1]; bool has = false; for (auto it = J.begin(); it != J.end(); ++it) { has = it->first == sd; near(it->second, want, 1e-12, "keypoint-time", hh + " Jacobian"); } expect(has, "keypoint-time", hh + " Jacobian"); }
        double d = 1e-5; sd->update(&d, 1); expectNear(kt.toScalar(), t0.toSec() + (ld + d) * ys[i][1], 2e-9, "keypoint-time", hh + " after an update"); sd->revertUpdate(); } else { DesignVariable::set_t st; kt.getDesignVariables(st); expect(st.empty(), "keypoint-time", hh + " variables"); } }
    if (rolling && kind < 3) onSpline<CAM>(std::integral_constant<bool, std::is_same<typename CAM::shutter_t, RollingShutter>::value>(), cam, sdv, frame, ys, t0, R, h, s);
  });
}
static void targets() {
  for (int rows = 1; rows <= 3; ++rows) for (int cols = 1; cols <= 4; ++cols) for (int act = 0; act < 2; ++act) run(fmt("target %d %d %d", rows, cols, act), [&] { beat(); boost::shared_ptr<GridCalibrationTargetBase> t(new GridCalibrationTargetCheckerboard(rows, cols, 0.1, 0.2)); aslam::GridCalibrationTargetDesignVariableContainer c(t, act); int n = rows * cols; std::string h = fmt("%d x %d", rows, cols); expect(c.getTarget() == t, "target", h); DesignVariable::set_t set; c.getDesignVariables(set); expect((int)set.size() == n, "target", h + " variables");
    for (int i = 0; i < n; ++i) { state(h + fmt(" %d", i)); transition(3); expect(c.isPointActive(i) == bool(act), "target", h); c.setPointActive(i, !act); for (int j = 0; j < n; ++j) expect(c.isPointActive(j) == bool(j == i ? !act : act), "target", h + " activity"); c.setPointActive(i, act); auto e = c.getPoint(i); DesignVariable::set_t one; e.getDesignVariables(one); near(e.toEuclidean(), t->point(i), 0, "target", h); MX before = t->points(); expect(one.size() == 1 && set.count(*one.begin()), "target", h + " variable"); if (one.size() != 1) return; V3 d(0.01, -0.02, 0.03 + i); (*one.begin())->update(d.data(), 3); before.row(i) += d.transpose(); near(t->points(), before, 1e-14, "target", h + fmt(" update of point %d", i)); near(e.toEuclidean(), before.row(i).transpose(), 1e-14, "target", h); nontrivial(hashStr(h + fmt(" %d", i))); }
    expect(throws([&] { c.getPoint(n); }) && throws([&] { c.setPointActive(n, true); }) && throws([&] { c.isPointActive(n); }) && throws([&] { t->getPointDataPointer(n); }), "refused", h); });
}
int main(int argc, char** argv) {
  init(argc, argv); std::string part = "all"; for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--mode") part = argv[i + 1];
  imu(); priors(); targets();
  NoDistortion no; RadialTangentialDistortion rt(-0.2, 0.13, 0.0005, 0.0015); EquidistantDistortion eq(-0.02, 0.013, -0.005, 0.0007); FovDistortion fv(0.9); GlobalShutter gs; RollingShutter rs(5e-5);
  cameras<PinholeCameraGeometry>("pinhole", PinholeProjection<NoDistortion>(400, 410, 320, 240, 640, 480, no), gs, false); cameras<DistortedPinholeRsCameraGeometry>("pinhole radtan rolling", PinholeProjection<RadialTangentialDistortion>(400, 410, 320, 240, 640, 480, rt), rs, true);
  cameras<EquidistantDistortedPinholeCameraGeometry>("pinhole equidistant", PinholeProjection<EquidistantDistortion>(400, 410, 320, 240, 640, 480, eq), gs, false); cameras<FovDistortedPinholeCameraGeometry>("pinhole fov", PinholeProjection<FovDistortion>(400, 410, 320, 240, 640, 480, fv), gs, false);
  cameras<DistortedOmniRsCameraGeometry>("omni radtan rolling", OmniProjection<RadialTangentialDistortion>(0.9, 400, 410, 320, 240, 640, 480, rt), rs, true); cameras<OmniCameraGeometry>("omni", OmniProjection<NoDistortion>(0.9, 400, 410, 320, 240, 640, 480, no), gs, false);
  cameras<ExtendedUnifiedCameraGeometry>("extended unified", ExtendedUnifiedProjection<NoDistortion>(0.6, 1.1, 400, 410, 320, 240, 640, 480, no), gs, false); cameras<DoubleSphereCameraGeometry>("double sphere", DoubleSphereProjection<NoDistortion>(-0.2, 0.55, 400, 410, 320, 240, 640, 480, no), gs, false);
  return finish();
}

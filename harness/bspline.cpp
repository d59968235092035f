// B-splines against the recursive definition of their basis functions.
#include <vmc.hpp>
#include "backend_common.hpp"
#include <aslam_bsplines/BSpline.hpp>
#include <functional>
#include <iostream>
using namespace vmc; using aslam_bsplines::BSpline;
typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX; typedef std::vector<double> VD;
template <typename F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static bool near(const MX& a, const MX& b, double tol, const char* key, const std::string& d) {
  transition();
  if (a.rows() != b.rows() || a.cols() != b.cols()) { fail(key, d + fmt(": %dx%d instead of %dx%d", (int)a.rows(), (int)a.cols(), (int)b.rows(), (int)b.cols())); return false; }
  if (a.size() && !((a - b).cwiseAbs().maxCoeff() <= tol * (1 + b.cwiseAbs().maxCoeff()))) { fail(key, d + fmt(": differs by %g, %g instead of %g", (a - b).cwiseAbs().maxCoeff(), a(0), b(0))); return false; }
  return true;
}
// The d-th derivative of basis function j of order k on the polynomial piece of interval m, at t (de Boor).
static double basis(const VD& K, int k, int j, int m, double t, int d) {
  if (k == 1) return d == 0 && j == m ? 1 : 0;
  double a = K[j + k - 1] - K[j], b = K[j + k] - K[j + 1], r = 0;
  if (d == 0) { if (a > 0) r += (t - K[j]) / a * basis(K, k - 1, j, m, t, 0); if (b > 0) r += (K[j + k] - t) / b * basis(K, k - 1, j + 1, m, t, 0); return r; }
  if (a > 0) r += (k - 1) / a * basis(K, k - 1, j, m, t, d - 1); if (b > 0) r -= (k - 1) / b * basis(K, k - 1, j + 1, m, t, d - 1); return r;
}
static int interval(const VD& K, int k, double t) { int n = K.size() - k; int m = k - 1; while (m + 1 < n && K[m + 1] <= t) ++m; return m; } // last interval is closed
static VX ref(const VD& K, const MX& C, int k, double t, int d) { int m = interval(K, k, t); VX v = VX::Zero(C.rows()); for (int j = m - k + 1; j <= m; ++j) v += basis(K, k, j, m, t, d) * C.col(j); return v; }
static const double GX[6] = {0.2386191860831969, -0.2386191860831969, 0.6612093864662645, -0.6612093864662645, 0.9324695142031521, -0.9324695142031521}, GW[6] = {0.4679139345726910, 0.4679139345726910, 0.3607615730481386, 0.3607615730481386, 0.1713244923791704, 0.1713244923791704};
// composite Gauss rule on every piece: exact up to degree 11
template <typename F> static void quadrature(const VD& K, int k, double t1, double t2, F f) { for (size_t m = k - 1; m + k < K.size(); ++m) { double a = std::max(K[m], t1), b = std::min(K[m + 1], t2); if (!(a < b)) continue; for (int h = 0; h < 2; ++h) { double lo = a + h * (b - a) / 2, w = (b - a) / 4; for (int g = 0; g < 6; ++g) f(lo + w * (1 + GX[g]), GW[g] * w); } } }
static std::string dims(const VD& K) { std::string s; for (double x : K) s += fmt("%g ", x); return s; }
static VD times(const VD& K, int k) { VD t; for (size_t m = k - 1; m + k < K.size(); ++m) if (K[m + 1] > K[m]) { t.push_back(K[m]); for (double f : {0.01, 0.37, 0.5, 0.99}) t.push_back(K[m] + f * (K[m + 1] - K[m])); } t.push_back(K[K.size() - k]); return t; }
// values and derivatives by the definition; light: values only
static void checkValues(BSpline& s, int k, const std::string& h, bool light) {
  VD K = s.knots(); MX C = s.coefficients(); int D = C.rows(), segs = K.size() - 2 * k + 1; double tm = 0; for (double x : K) tm = std::max(tm, std::fabs(x)); double cm = 1 + C.cwiseAbs().maxCoeff();
  expect(s.splineOrder() == k && s.polynomialDegree() == k - 1 && s.numValidTimeSegments() == segs && s.numVvCoefficients() == segs + k - 1 && C.cols() == segs + k - 1 && s.numCoefficients() == D * C.cols() && s.coefficientVectorLength() == D * C.cols(), "counts", h);
  expect(s.t_min() == K[k - 1] && s.t_max() == K[K.size() - k] && s.timeInterval().first == s.t_min() && s.timeInterval().second == s.t_max(), "interval", h);
  VX cv = s.coefficientVector(); for (int i = 0; i < C.cols(); ++i) { expect(VX(cv.segment(i * D, D)) == VX(C.col(i)) && VX(s.vvCoefficientVector(i)) == VX(C.col(i)), "coefficients", h); }
  for (int i = 0; i < segs; ++i) expect(s.timeInterval(i).first == K[k - 1 + i] && s.timeInterval(i).second == K[k + i], "interval", h);
  expect(throws([&] { s.timeInterval(-1); }) && throws([&] { s.timeInterval(segs); }) && throws([&] { s.eval(s.t_min() - 1e-3); }) && throws([&] { s.eval(s.t_max() + 1e-3); }) && throws([&] { s.evalD(s.t_min(), -1); }) && throws([&] { s.segmentCoefficientVector(segs); }) && throws([&] { s.vvCoefficientVector(C.cols()); }), "range", h);
  for (double t : times(K, k)) { std::string ht = h + fmt(" t %.17g", t); int m = interval(K, k, t), b = m - k + 1; double len = K[m + 1] - K[m];
    for (int d = 0; d <= (light ? 1 : k); ++d) { std::string hd = ht + fmt(" derivative %d", d); double scale = 1; for (int i = 0; i < d; ++i) scale *= std::max(1.0, 4 * k / len); double tol = 1e-11 * scale * (1 + tm) * cm;
      VX want = ref(K, C, k, t, d); if (!near(s.evalD(t, d), want, tol, "value", hd)) return; if (light) continue;
      MX J, P = MX::Zero(D, k * D); Eigen::VectorXi ix; for (int j = 0; j < k; ++j) P.middleCols(j * D, D) = MX::Identity(D, D) * basis(K, k, b + j, m, t, d); near(s.evalDAndJacobian(t, d, &J, &ix), want, tol, "value", hd + " with Jacobian"); near(J, P, tol, "jacobian", hd); near(s.Phi(t, d), P, tol, "jacobian", hd + " Phi"); near(s.localBasisMatrix(t, d), P, tol, "jacobian", hd + " local"); expect(ix.size() == k * D, "indices", hd); for (int i = 0; i < ix.size(); ++i) expect(ix[i] == b * D + i, "indices", hd); near(s.evalDAndJacobian(t, d, nullptr, nullptr), want, tol, "value", hd); auto pr = s.evalDAndJacobian(t, d); near(pr.first, want, tol, "value", hd); near(pr.second, P, tol, "jacobian", hd);
      MX UM = s.U(t, d).transpose() * s.Mi(b); near(UM, P, tol, "jacobian", hd + " U M"); }
    if (light) continue;
    expect(s.segmentIndex(t) == b, "segment", ht); near(s.localCoefficientMatrix(t), C.middleCols(b, k), 0, "local", ht); VX lc = s.localCoefficientVector(t); near(lc, cv.segment(b * D, k * D), 0, "local", ht); near(s.segmentCoefficientVector(b), lc, 0, "local", ht); Eigen::VectorXi a1 = s.localCoefficientVectorIndices(t), a2 = s.segmentCoefficientVectorIndices(b), a3 = s.localVvCoefficientVectorIndices(t), a4 = s.segmentVvCoefficientVectorIndices(b); bool ok = a1.size() == k * D && a2.size() == k * D && a3.size() == k && a4.size() == k; for (int i = 0; ok && i < k * D; ++i) ok = a1[i] == b * D + i && a2[i] == a1[i]; for (int i = 0; ok && i < k; ++i) ok = a3[i] == b + i && a4[i] == b + i; expect(ok, "indices", ht);
    VX B = s.getLocalBiVector(t), cu = s.getLocalCumulativeBiVector(t); double sum = 0; for (int j = k - 1; j >= 0; --j) { expectNear(B[j], basis(K, k, b + j, m, t, 0), 1e-11 * (1 + tm), "basis", ht); expect(B[j] >= -1e-11 * (1 + tm), "basis", ht + " negative"); sum += B[j]; expectNear(cu[j], sum, 1e-11 * (1 + tm), "cumulative", ht); } expectNear(sum, 1, 1e-11 * (1 + tm), "basis", ht + " sum"); }
  nontrivial(hashStr(h)); state(h);
}
static void integrals(BSpline& s, int k, const std::string& h) {
  VD K = s.knots(), ts = times(K, k); MX C = s.coefficients(); int D = C.rows(), segs = s.numValidTimeSegments();
  for (size_t i = 0; i < ts.size(); i += 2) for (size_t j = 0; j < ts.size(); j += 3) { VX w = VX::Zero(D); double a = ts[i], b = ts[j]; quadrature(K, k, std::min(a, b), std::max(a, b), [&](double t, double q) { w += q * ref(K, C, k, t, 0); }); if (a > b) w = -w; near(s.evalIntegral(a, b), w, 1e-11, "integral", h + fmt(" %g to %g", a, b)); }
  MX g = genMat(D, D, 3), W = g * g.transpose(); VX wd = W.diagonal(); VX c = s.coefficientVector();
  for (int d = 0; d < k; ++d) for (int diag = 0; diag < 2; ++diag) { MX Wm = diag ? MX(wd.asDiagonal()) : W; std::string hd = h + fmt(" derivative %d diagonal %d", d, diag); MX all = MX::Zero(c.size(), c.size());
    for (int q = 0; q < segs; ++q) { MX Q = MX::Zero(k * D, k * D); double a = K[k - 1 + q], b = K[k + q]; if (b > a) quadrature(K, k, a, b, [&](double t, double wt) { int m = k - 1 + q; MX P(D, k * D); for (int j = 0; j < k; ++j) P.middleCols(j * D, D) = MX::Identity(D, D) * basis(K, k, q + j, m, t, d); Q += wt * P.transpose() * Wm * P; }); near(diag ? s.segmentQuadraticIntegralDiag(wd, q, d) : s.segmentQuadraticIntegral(W, q, d), Q, 1e-9, "quadratic-integral", hd + fmt(" segment %d", q)); all.block(q * D, q * D, k * D, k * D) += Q; if (!diag) { MX R = s.segmentIntegral(q, W, d); near(R.transpose() * R, Q, 1e-9, "quadratic-integral", hd + fmt(" root of segment %d", q)); } }
    near(diag ? s.curveQuadraticIntegralDiag(wd, d) : s.curveQuadraticIntegral(W, d), all, 1e-9, "quadratic-integral", hd); near(diag ? s.curveQuadraticIntegralDiagSparse(wd, d).toDense() : s.curveQuadraticIntegralSparse(W, d).toDense(), all, 1e-9, "quadratic-integral", hd + " sparse"); }
}
// knot sequences: gaps between successive knots out of a set, one pattern for every word
static void lattice() {
  for (int k = 2; k <= 6; ++k) for (int segs = 1; segs <= (thorough() ? 5 : 4); ++segs) run(fmt("spline %d %d", k, segs), [&] {
    int n = 2 * k - 1 + segs; double gaps[4] = {1, 0.25, 0, 3};
    int words = 1; for (int i = 0; i < segs; ++i) words *= 4;
    for (int w = 0; w < words; ++w) for (int pad = 0; pad < 4; ++pad) { if (tooMany()) return; beat(); VD K; std::vector<double> gs; int x = w; for (int i = 0; i < segs; ++i) { gs.push_back(gaps[x % 4]); x /= 4; } if (gs.back() == 0) continue; // the last segment has a length
        double t = pad == 3 ? 1e3 : -2.5; auto g = [&](int i) { return pad == 0 ? 1.0 : pad == 1 ? 0.0 : pad == 2 ? gaps[(i * 7 + w) % 4] : 0.5; }; for (int i = 0; i < n; ++i) { K.push_back(t); int sgi = i - (k - 1); t += sgi >= 0 && sgi < segs ? gs[sgi] : g(i); }
        int D = 1 + (w + pad) % 3; BSpline s(k); MX C = genMat(D, segs + k - 1, w, pad); s.setKnotsAndCoefficients(K, C); std::string h = fmt("order %d dim %d knots %s", k, D, dims(K).c_str()); near(s.coefficients(), C, 0, "coefficients", h); expect(s.knots() == K, "knots", h); checkValues(s, k, h, segs > 3 && pad); if (segs <= 3 && w % 3 == 0) integrals(s, k, h);
        VX cv = genMat(C.size(), 1, 9); s.setCoefficientVector(cv); near(s.coefficientVector(), cv, 0, "coefficients", h + " vector"); checkValues(s, k, h + " vector", true); s.setCoefficientMatrix(C); double tt = K[k - 1] + 0.1 * gs[0]; VX l = genMat(k * D, 1, 10); s.setLocalCoefficientVector(tt, l); int b = interval(K, k, tt) - k + 1; for (int j = 0; j < k; ++j) C.col(b + j) = l.segment(j * D, D); near(s.coefficients(), C, 0, "coefficients", h + " local");
        expect(throws([&] { s.setCoefficientVector(VX::Zero(C.size() + 1)); }) && throws([&] { s.setCoefficientMatrix(MX::Zero(D, C.cols() + 1)); }) && throws([&] { s.setLocalCoefficientVector(tt, VX::Zero(k * D + 1)); }) && throws([&] { s.setKnotsAndCoefficients(K, MX::Zero(D, C.cols() + 1)); }), "refused", h);
        for (int i = 0; i + 1 < n; ++i) { VD Q = K; Q[i] = K[i + 1] + 0.1; for (int fresh = 0; fresh < 2; ++fresh) { BSpline q(k), *p = fresh ? &q : &s; expect(throws([&] { p->setKnotsAndCoefficients(Q, C); }), "refused", h + fmt(" knot %d too late, fresh %d", i, fresh)); } } expect(throws([&] { s.setKnotsAndCoefficients(VD(K.begin(), K.begin() + 2 * k - 1), MX(C.leftCols(k - 1))); }), "refused", h + " too few"); near(s.coefficients(), C, 0, "refused", h + " and kept"); expect(s.knots() == K, "refused", h + " and kept");
        VD K2; for (int i = 0; i < n + 2; ++i) K2.push_back(i); MX C2 = genMat(D, C.cols() + 2, 4); s.setKnotsAndCoefficients(K2, C2); checkValues(s, k, h + " then others", true); } });
}
// histories
static void histories() {
  for (int k = 2; k <= 6; ++k) for (int start = 0; start < 5; ++start) run(fmt("history %d %d", k, start), [&] {
    int depth = thorough() ? 6 : 4, D = 1 + k % 2;
    std::function<void(std::vector<int>&)> all = [&](std::vector<int>& ops) { if (tooMany()) return; if ((int)ops.size() < depth) { for (int o = 0; o < 6; ++o) { ops.push_back(o); all(ops); ops.pop_back(); } return; } beat();
      std::string h = fmt("order %d start %d ops", k, start); BSpline s(k); VX p0 = genMat(D, 1, 1), p1 = genMat(D, 1, 2);
      if (start == 0) { s.initSpline(1, 3.5, p0, p1); for (double t : {1.0, 1.7, 2.9, 3.5}) { near(s.eval(t), p0 + (p1 - p0) * ((t - 1) / 2.5), 1e-9, "init", h + fmt(" %g", t)); if (k > 2) near(s.evalD(t, 1), (p1 - p0) / 2.5, 1e-8, "init", h + fmt(" velocity %g", t)); } expect(s.t_min() == 1 && s.t_max() == 3.5, "init", h); }
      else if (start == 1) { s.initConstantSpline(-1, 2, 3, p0); for (double t : {-1.0, 0.3, 2 - 1e-9}) { near(s.eval(t), p0, 1e-12, "init", h); near(s.evalD(t, 1), 0 * p0, 1e-10, "init", h); } expectNear(s.t_min(), -1, 1e-12, "init", h); expectNear(s.t_max(), 2, 1e-12, "init", h); expect(s.numValidTimeSegments() == 3, "init", h); }
      else { VD K; double t = -3; for (int i = 0; i < 2 * k + 1; ++i) { K.push_back(t); t += start == 2 ? 0.5 + (i % 3) : start == 3 ? (i == k - 1 ? 0.0 : 1.0) : 0.25 * (i + 1); } s.setKnotsAndCoefficients(K, genMat(D, k + 1, 5)); }
      for (size_t i = 0; i < ops.size(); ++i) { int o = ops[i]; h += fmt(" %d", o); VD K = s.knots(); MX C = s.coefficients(); int segs = s.numValidTimeSegments(); double end = s.t_max(); VX p = genMat(D, 1, 20 + i);
        if (o < 4) { double t = end + (o % 2 ? 0.3 : 2.0); double lam = i % 2 ? 1e-3 : 0.3; VX old = s.eval(end); if (o < 2) s.addCurveSegment(t, p); else s.addCurveSegment2(t, p, lam); VD K2 = s.knots(); MX C2 = s.coefficients(); double cm = 1 + C2.cwiseAbs().maxCoeff();
          expect(K2.size() == K.size() + 1 && s.t_max() == t && s.t_min() == K[k - 1] && s.numValidTimeSegments() == segs + 1 && s.timeInterval(segs).first == end && std::equal(K.begin(), K.end() - (k - 1), K2.begin()), "segment-added", h); near(C2.leftCols(C.cols() - 1), C.leftCols(C.cols() - 1), 0, "segment-added", h + " earlier coefficients kept");
          if (o < 2) { near(s.eval(end), old, 1e-11 * cm * cm, "segment-added", h + " old end"); near(s.eval(t), p, 1e-11 * cm * cm, "segment-added", h + " new end"); }
          else { // least squares over the two last coefficients
            auto cost = [&](const MX& Q) { return (ref(K2, Q, k, t, 0) - p).squaredNorm() + lam * lam * ref(K2, Q, k, t, 2).squaredNorm(); }; int n = C2.cols(); auto at = [&](const MX& Q, int d) { int m = interval(K2, k, end); VX v = VX::Zero(D); for (int j = m - k + 1; j <= m; ++j) v += basis(K2, k, j, m, end, d) * Q.col(j); return v; };
            auto full = [&](const MX& Q) { return cost(Q) + (at(Q, 0) - old).squaredNorm() + lam * lam * at(Q, 2).squaredNorm(); }; double c0 = full(C2); for (int j = 0; j < 2; ++j) for (int d = 0; d < D; ++d) for (double e : {1e-3, -1e-3, 0.1, -0.1}) { MX Q = C2; Q(d, n - 1 - j) += e; expect(full(Q) >= c0 - 1e-9 * (1 + c0) * cm * cm, "segment-added", h + fmt(" not the minimum: %g to %g of %g, step %g, coefficients up to %g", full(Q)-c0, full(C2), c0, e, cm)); } }
          expect(throws([&] { s.addCurveSegment(t, p); }) && throws([&] { s.addCurveSegment2(t - 0.1, p, lam); }) && throws([&] { s.addCurveSegment(t + 1, VX::Zero(D + 1)); }), "refused", h);
          // what no changed knot or coefficient reaches stays
          for (int q = 0; q + k < segs + 1; ++q) for (double f : {0.0, 0.4}) { double x = K[k - 1 + q] + f * (K[k + q] - K[k - 1 + q]); if (q + k - 1 < C.cols() - 1) near(s.eval(x), ref(K, C, k, x, 0), 1e-11 * cm, "segment-added", h + fmt(" earlier value %g", x)); } }
        else if (o == 4) { if (segs < 2) { continue; } s.removeCurveSegment(); VD K2 = s.knots(); expect(K2 == VD(K.begin() + 1, K.end()), "segment-removed", h); near(s.coefficients(), C.rightCols(C.cols() - 1), 0, "segment-removed", h); if (s.t_max() > s.t_min()) for (double t : times(K2, k)) near(s.eval(t), ref(K, C, k, t, 0), 1e-10 * (1 + C.cwiseAbs().maxCoeff()), "segment-removed", h + fmt(" value %g", t)); }
        else { VX c = genMat(C.size(), 1, 40 + i); s.setCoefficientVector(c); for (int j = 0; j < C.cols(); ++j) s.vvCoefficientVector(j) *= 2; near(s.coefficientVector(), 2 * c, 0, "coefficients", h); }
        checkValues(s, k, h, i + 1 < ops.size()); } };
    std::vector<int> ops; all(ops); });
}
// least squares fits
static void fits() {
  std::vector<VD> ts = {{0, 1}, {0, 0.1, 0.2, 1, 2}, {-2, -1, -1, 0, 0.5, 3}, {100, 100.5, 101, 101.5, 102, 102.5, 103, 104}};
  for (int k = 2; k <= 6; ++k) for (size_t a = 0; a < ts.size(); ++a) run(fmt("fit %d %zu", k, a), [&] { const VD& tv = ts[a]; VX t = Eigen::Map<const VX>(tv.data(), tv.size());
    for (int segs = 1; segs <= 6; ++segs) for (int D = 1; D <= 2; ++D) for (double lam : {1.0, 0.01}) { if (tooMany()) return; beat(); MX P = genMat(D, t.size(), 6, a); std::string h = fmt("order %d times %zu segments %d dim %d lambda %g", k, a, segs, D, lam); double T0 = tv.front(), T1 = tv.back(), dt = (T1 - T0) / segs; VD Ku; for (int i = 0; i < 2 * k - 1 + segs; ++i) Ku.push_back(T0 + (i - k + 1) * dt); int C = segs + k - 1;
      for (int kind = 0; kind < 4; ++kind) { std::string hk = h + fmt(" kind %d", kind); VD K = Ku; BSpline s(k); if (kind == 3) { for (int i = 0; i < (int)K.size(); ++i) if (i > k - 1 && i < (int)K.size() - k) K[i] += 0.2 * dt * ((i % 3) - 1); }
        try { if (kind == 0) s.initSpline2(t, P, segs, lam); else if (kind == 1) s.initSpline3(t, P, segs, lam); else if (kind == 2) s.initSplineSparse(t, P, segs, lam); else s.initSplineSparseKnots(t, P, Eigen::Map<VX>(K.data(), K.size()), lam); } catch (const std::exception& e) { bool rounding = T1 > s.t_max(); if (!rounding) fail("fit-exception", hk + e.what()); continue; }
        if (kind < 3) { VD k2 = s.knots(); expect(k2.size() == K.size(), "fit", hk); for (size_t i = 0; i < K.size() && i < k2.size(); ++i) expectNear(k2[i], K[i], 1e-12 * (1 + std::fabs(K[i])), "fit", hk + " knots"); } K = s.knots();
        if (kind == 0 && k < 3) continue; // second derivatives of lines
        // the gradient of the objective vanishes
        int n = C; MX A = MX::Zero(n, n); MX B = MX::Zero(n, D); for (int i = 0; i < t.size(); ++i) { int m = interval(K, k, t[i]); VX ph = VX::Zero(n); for (int j = m - k + 1; j <= m; ++j) ph[j] = basis(K, k, j, m, t[i], 0); A += ph * ph.transpose(); B += ph * P.col(i).transpose(); }
        if (kind == 0) for (int i = k - 1; i < (int)K.size() - k + 1; ++i) { int m = interval(K, k, K[i]); VX ph = VX::Zero(n); for (int j = m - k + 1; j <= m; ++j) ph[j] = basis(K, k, j, m, K[i], 2); A += lam * lam * ph * ph.transpose(); }
        else { int d = k == 2 ? 1 : 2; for (int q = 0; q < segs; ++q) quadrature(K, k, K[k - 1 + q], K[k + q], [&](double x, double w) { VX ph = VX::Zero(n); int m = k - 1 + q; for (int j = q; j < q + k; ++j) ph[j] = basis(K, k, j, m, x, d); A += w * lam * ph * ph.transpose(); }); }
        Eigen::SelfAdjointEigenSolver<MX> es(A); if (es.eigenvalues()[0] < 1e-7 * es.eigenvalues()[n - 1]) continue; // not determined
        MX want = A.ldlt().solve(B); near(s.coefficients(), want.transpose(), 1e-6, "fit", hk); nontrivial(hashStr(hk)); state(hk); checkValues(s, k, hk, true); }
      BSpline s(k); VX bad = t; bad[0] = t[1] + 1; expect(throws([&] { s.initSpline2(bad, P, segs, lam); }) && throws([&] { s.initSpline3(bad, P, segs, lam); }) && throws([&] { s.initSplineSparse(bad, P, segs, lam); }) && throws([&] { s.initSpline3(t, P, 0, lam); }) && throws([&] { s.initSplineSparse(t, MX(P.leftCols(1)), segs, lam); }) && throws([&] { s.initSpline2(VX(t.head(1)), MX(P.leftCols(1)), segs, lam); }), "refused", h); } });
}
int main(int argc, char** argv) { init(argc, argv); lattice(); histories(); fits(); run("order", [] { expect(throws([] { BSpline s(1); }), "refused", "order 1"); nontrivial(1); BSpline s(3); expect(throws([&] { s.initSpline(2, 2, VX::Zero(1), VX::Zero(1)); }) && throws([&] { s.initSpline(1, 2, VX::Zero(1), VX::Zero(2)); }) && throws([&] { s.initConstantSpline(2, 1, 1, VX::Zero(1)); }) && throws([&] { s.initConstantSpline(1, 2, 0, VX::Zero(1)); }) && throws([&] { s.t_min(); }), "refused", "initialization"); }); return finish(); }

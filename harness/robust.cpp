// M-estimators: weights against their formula; error terms that use them;
// robust estimates against the minimum of the robust cost.
#include <vmc.hpp>
#include "backend_common.hpp"
#include <aslam_backend/backend/OptimizationProblem.hpp>
#include <aslam_backend/backend/Optimizer2.hpp>
#include <aslam_backend/backend/Optimizer2Options.hpp>
#include <aslam_backend/backend/GaussNewtonTrustRegionPolicy.hpp>
#include <aslam_backend/backend/BlockCholeskyLinearSystemSolver.hpp>
#include <aslam_backend/backend/DenseQrLinearSystemSolver.hpp>
#include <aslam_backend/backend/SparseQrLinearSystemSolver.hpp>
#include <boost/math/special_functions/gamma.hpp>
using namespace vmc; using namespace aslam::backend; typedef long double L; typedef Eigen::VectorXd VX; typedef Eigen::MatrixXd MX;
struct Est { std::string name; boost::shared_ptr<MEstimator> m; std::function<L(L)> w, rho; };
static L gammaP(L a, L x) { return boost::math::gamma_p(a, x); }
static L chi2inv(L p, int df) { L lo = 0, hi = 1; while (gammaP(df / 2.0L, hi / 2) < p) hi *= 2; for (int i = 0; i < 200; ++i) { L m = (lo + hi) / 2; (gammaP(df / 2.0L, m / 2) < p ? lo : hi) = m; } return lo; }
static std::vector<Est> estimators() { std::vector<Est> v; v.push_back({"none", boost::make_shared<NoMEstimator>(), [](L) { return 1.0L; }, [](L s) { return s; }});
  for (double q : {0.01, 0.5, 1.0, 3.0, 10.0, 400.0}) { L s2 = q; v.push_back({fmt("geman %g", q), boost::make_shared<GemanMcClureMEstimator>(q), [=](L e) { return s2 / ((s2 + e) * (s2 + e)); }, [=](L e) { return e / (s2 + e); }}); v.push_back({fmt("cauchy %g", q), boost::make_shared<CauchyMEstimator>(q), [=](L e) { return 1 / (1 + e / s2); }, [=](L e) { return s2 * logl(1 + e / s2); }}); v.push_back({fmt("huber %g", q), boost::make_shared<HuberMEstimator>(q), [=](L e) { return e < s2 * s2 ? 1.0L : s2 / sqrtl(e); }, [=](L e) { return e < s2 * s2 ? e : 2 * s2 * sqrtl(e) - s2 * s2; }}); }
  for (int df : {1, 2, 3, 6}) for (double p : {0.5, 0.9, 0.999}) for (double c : {0.01, 0.1, 0.5, 0.9}) { L eps = (1 - (L)c) / c * expl(-chi2inv(p, df)); v.push_back({fmt("blake %d %g %g", df, p, c), boost::make_shared<BlakeZissermanMEstimator>(df, p, c), [=](L e) { return expl(-e) / (expl(-e) + eps); }, [=](L e) { return -logl((expl(-e) + eps) / (1 + eps)); }}); }
  return v; }
static void weights(const Est& e) { run("weights " + e.name, [&] { nontrivial(hashStr(e.name)); double last = HUGE_VAL; MEstimator& m = *e.m; std::vector<double> xs = {0, 1e-300, 1e-12}; for (int i = -40; i <= 60; ++i) xs.push_back(std::pow(1.5, i)); for (int i = 1; i <= 60; ++i) xs.push_back(i * 0.5); for (double k : {0.01, 0.5, 1.0, 3.0, 10.0, 400.0}) for (double f : {1 - 1e-9, 1.0, 1 + 1e-9}) xs.push_back(k * k * f); std::sort(xs.begin(), xs.end());
    for (double x : xs) { double w = m.getWeight(x); transition(); std::string d = e.name + fmt(" at %.17g", x); L r = e.w(x); expectNear(w, (double)r, 1e-11 * (double)r + 1e-300, "weight", d); expect(w >= 0 && std::isfinite(w), "weight-range", d + fmt(": %g", w)); expect(w <= last * (1 + 1e-14), "decreasing", d); last = w; if (e.name.compare(0, 5, "geman")) expect(w <= 1, "at-most-one", d); }
    expect(!m.name().empty(), "name", e.name); }); }
static void terms(const std::vector<Est>& es) { for (auto& e : es) for (int fixed = 0; fixed < 2; ++fixed) run("term " + e.name + fmt(" %d", fixed), [&] { nontrivial(hashStr("t" + e.name) + fixed); for (int s = 0; s < 6; ++s) { VecDv dv(2, s); dv.setActive(true); dv.setBlockIndex(0); ErrModel m({&dv}, 1 + s % 3, s, 0.2); m.c *= std::pow(3.0, s - 2); auto a = makeErr(m, fixed); ErrorTerm& t = *a->term(); int n = m.c.size(); MX Q = genMat(n, n, 70 + s); MX R = Q * Q.transpose() + MX::Identity(n, n); t.vsSetInvR(R); std::string d = e.name + fmt(" %d", s);
      VX err = m.error(); double chi = err.dot(R * err); MX S = a->S(), J = S.transpose() * m.jac(0); VX se = S.transpose() * err;
      for (int step = 0; step < 4; ++step) { bool robust = step == 1 || step == 3; if (step == 1) t.setMEstimatorPolicy(e.m); if (step == 2) t.clearMEstimatorPolicy(); if (step == 3) { t.setMEstimatorPolicy(boost::make_shared<CauchyMEstimator>(7)); t.setMEstimatorPolicy(e.m); } double w = robust ? (double)e.w(chi) : 1.0; transition(); std::string h = d + fmt(" step %d", step); double tol = 1e-9 * (1 + chi);
        expectNear(t.evaluateError(), w * chi, tol, "cost", h); expectNear(t.getRawSquaredError(), chi, tol, "raw", h); expectNear(t.getWeightedSquaredError(), w * chi, tol, "weighted", h); expectNear(t.getSquaredError(true), w * chi, tol, "weighted", h); expectNear(t.getSquaredError(false), chi, tol, "raw", h); expectNear(t.getCurrentMEstimatorWeight(), w, 1e-10 * (1 + w), "current-weight", h); expectNear(t.getMEstimatorWeight(2.5), robust ? (double)e.w(2.5) : 1.0, 1e-10, "weight-of", h); expect(t.getMEstimatorName() == (robust ? e.m->name() : NoMEstimator().name()), "name", h);
        for (int use = 0; use < 2; ++use) { double u = use ? w : 1; VX we; t.getWeightedError(we, use); JacobianContainer jc(n); t.getWeightedJacobians(jc, use); expect(we.size() == n && (we - std::sqrt(u) * se).norm() < 1e-9 * (1 + se.norm()), "weighted-error", h); MX j = jc.begin()->second; expect((j - std::sqrt(u) * J).norm() < 1e-9 * (1 + J.norm()), "weighted-jacobian", h); std::vector<int> b = {2}; SparseBlockMatrix H(b, b); VX rhs = VX::Zero(2); t.buildHessian(H, rhs, use); MX Hd = H.toDense(), ref = u * J.transpose() * J; expect((Hd - ref).norm() < 1e-9 * (1 + ref.norm()) && (rhs + u * J.transpose() * se).norm() < 1e-9 * (1 + (J.transpose() * se).norm()), "normal-equations", h); } } } }); }
// Gauss-Newton with constant weights descends the robust cost to a minimum.
static void estimates(const std::vector<Est>& all) { std::vector<Est> es; for (auto& e : all) for (const char* n : {"none", "geman 3", "geman 10", "cauchy 0.5", "cauchy 3", "huber 0.5", "huber 1", "huber 3", "blake 1 0.999 0.1", "blake 1 0.9 0.5"}) if (e.name == n) es.push_back(e);
  const double ys[3] = {0, 1, 7}; static const char* sn[3] = {"block_cholesky", "dense_qr", "sparse_qr"};
  for (auto& e : es) for (int line = 0; line < 2; ++line) for (int sol = 0; sol < 3; ++sol) { if (!thorough() && sol && line) continue; run("estimate " + e.name + fmt(" %s %s", line ? "line" : "mean", sn[sol]), [&] { int n = line ? 5 : 4, N = std::pow(3, n); for (int c = 0; c < N; ++c) for (int start = 0; start < 2; ++start) { beat(); std::vector<double> y; for (int i = 0, k = c; i < n; ++i, k /= 3) y.push_back(ys[k % 3] + 0.1 * gen(3, i)); VecDv dv(1 + line, 1); dv.v.setConstant(start * 0.8); dv.setActive(true); auto prob = boost::make_shared<OptimizationProblem>(); prob->addDesignVariable(&dv, false); std::vector<boost::shared_ptr<ErrAccess>> err; std::vector<double> iv; for (int i = 0; i < n; ++i) { ErrModel m; m.dv = {&dv}; MX A(1, 1 + line); A(0, 0) = 1; if (line) A(0, 1) = i - 2; m.A = {A}; m.c = VX::Constant(1, -y[i]); err.push_back(makeErr(m, i % 2)); iv.push_back(0.5 + 0.5 * (i % 3)); err.back()->term()->vsSetInvR(MX::Constant(1, 1, iv[i])); err.back()->term()->setMEstimatorPolicy(e.m); prob->addErrorTerm(err.back()->term(), false); }
      auto cost = [&](const VX& x, VX* g, MX* H) { L s = 0; if (g) g->setZero(x.size()); if (H) H->setZero(x.size(), x.size()); for (int i = 0; i < n; ++i) { MX A = err[i]->m.A[0]; double r = (A * x)(0) - y[i], q = r * r * iv[i], w = (double)e.w(q) * iv[i]; s += e.rho(q); if (g) *g += w * r * A.transpose(); if (H) *H += w * A.transpose() * A; } return (double)s; };
      double before = cost(dv.v, 0, 0); VX g; MX H; cost(dv.v, &g, &H); Eigen::JacobiSVD<MX> s0(H); if (s0.singularValues().minCoeff() < 1e-6) continue; Optimizer2Options o; o.maxIterations = 3000; o.convergenceDeltaJ = 0; o.convergenceDeltaX = 1e-10; o.nThreads = 1; o.doSchurComplement = false; if (sol == 0) o.linearSystemSolver = boost::make_shared<BlockCholeskyLinearSystemSolver>(); else if (sol == 1) o.linearSystemSolver = boost::make_shared<DenseQrLinearSystemSolver>(); else o.linearSystemSolver = boost::make_shared<SparseQrLinearSystemSolver>(); o.trustRegionPolicy = boost::make_shared<GaussNewtonTrustRegionPolicy>(); Optimizer2 opt(o); opt.setProblem(prob); auto r = opt.optimize(); transition(); std::string d = e.name + fmt(" data %d start %d", c, start); nontrivial(hashStr(d) + 3 * sol + line);
      double after = cost(dv.v, &g, &H); Eigen::JacobiSVD<MX> s1(H); if (s1.singularValues().minCoeff() < 1e-6) continue; VX step = H.ldlt().solve(g); expect(step.norm() < 1e-7, "stationary", d + fmt(": a step of %g is left after %d iterations", step.norm(), r.iterations)); expect(after <= before + 1e-9, "descent", d + fmt(": robust cost %g to %g", before, after));
      double J = 0; for (int i = 0; i < n; ++i) { double q = std::pow((err[i]->m.A[0] * dv.v)(0) - y[i], 2) * iv[i]; J += (double)e.w(q) * q; } expectNear(r.JFinal, J, 1e-7 * (1 + J), "final-cost", d);
      // the Huber cost is convex: no better estimate around
      if (e.name[0] == 'h' || e.name[0] == 'n') for (int a = -8; a <= 8; ++a) for (int b = line ? -8 : 0; b <= (line ? 8 : 0); ++b) { VX x = dv.v; x[0] += a; if (line) x[1] += 0.5 * b; expect(cost(x, 0, 0) >= after - 1e-6, "minimum", d); } } }); } }
int main(int argc, char** argv) { init(argc, argv); auto es = estimators(); for (auto& e : es) weights(e); terms(es); estimates(es);
  run("blake copies", [&] { for (int df : {1, 4}) { BlakeZissermanMEstimator a(df, 0.95, 0.2), b(a), c(3, 0.5, 0.5); c = a; c = c; for (double x : {0.0, 0.3, 2.0, 9.0}) { expect(b.getWeight(x) == a.getWeight(x) && c.getWeight(x) == a.getWeight(x), "copy", ""); transition(); } for (double p : {0.1, 0.5, 0.99}) expectNear(a.chi2InvCDF(p, df), (double)chi2inv(p, df), 1e-9, "chi2", ""); double cut = (double)chi2inv(0.95, df); expectNear(a.getWeight(cut), 0.2, 1e-9, "cut", ""); } BlakeZissermanMEstimator d(2); expectNear(d.getWeight((double)chi2inv(0.999, 2)), 0.1, 1e-9, "cut", ""); });
  return finish(); }

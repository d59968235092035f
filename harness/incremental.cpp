// The linear solver of the incremental calibration and the incremental estimator (C41).
#include <vmc.hpp>
#include "backend_common.hpp"
#include <Eigen/SVD>
#include <sm_logging/logging.hpp>
#include <aslam_incremental_calibration/core/LinearSolver.h>
#include <aslam_incremental_calibration/core/LinearSolverOptions.h>
#include <aslam_incremental_calibration/core/IncrementalEstimator.h>
#include <aslam_incremental_calibration/core/OptimizationProblem.h>
#include <aslam_incremental_calibration/core/IncrementalOptimizationProblem.h>
#include <aslam_incremental_calibration/algorithms/linalg.h>
#include <aslam_backend/backend/Optimizer2.hpp>
using namespace vmc;
namespace ac = aslam::calibration;
typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX;
template <typename F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static bool same(const MX& a, const MX& b, double tol) { return a.rows() == b.rows() && a.cols() == b.cols() && (!a.size() || (a - b).cwiseAbs().maxCoeff() <= tol * (1 + b.cwiseAbs().maxCoeff())); }
static std::string str(const MX& m) { std::string s = fmt("%dx%d:", (int)m.rows(), (int)m.cols()); for (int i = 0; i < m.rows(); ++i) { for (int j = 0; j < m.cols(); ++j) s += fmt(" %.6g", m(i, j)); s += ";"; } return s; }
static MX orth(const MX& A, int* rank = nullptr) {   // a basis of the column space
  if (!A.size()) { if (rank) *rank = 0; return MX(A.rows(), 0); }
  Eigen::JacobiSVD<MX> s(A, Eigen::ComputeThinU); int r = 0; double m = s.singularValues()[0];
  for (int i = 0; i < s.singularValues().size(); ++i) r += s.singularValues()[i] > 1e-7 * m && m > 0;
  if (rank) *rank = r; return s.matrixU().leftCols(r);
}
// The marginal system of the columns from j on
struct Marginal {
  MX omega, null, row, cov; VX b, sv, theta; int rank, rankLeft; bool vague = false; double log2sum = 0, gap = 1; MX P;
  Marginal(const MX& A, const VX& rhs, int j) {
    MX Al = A.leftCols(j), Ar = A.rightCols(A.cols() - j), Q = orth(Al, &rankLeft); P = MX::Identity(A.rows(), A.rows()) - Q * Q.transpose();
    omega = Ar.transpose() * P * Ar; b = Ar.transpose() * P * rhs;
    Eigen::JacobiSVD<MX> s(omega, Eigen::ComputeFullV); sv = s.singularValues(); rank = 0;
    for (int i = 0; i < sv.size(); ++i) { bool live = sv[i] > 1e-7 * Ar.squaredNorm() && Ar.squaredNorm() > 0; vague |= !live && sv[i] > 1e-13 * Ar.squaredNorm(); rank += live; if (live) log2sum += std::log2(sv[i]); }
    row = s.matrixV().leftCols(rank); null = s.matrixV().rightCols(omega.cols() - rank);
    cov = MX::Zero(omega.rows(), omega.cols()); for (int i = 0; i < rank; ++i) cov += row.col(i) * row.col(i).transpose() / sv[i];
    theta = cov * b;
    if (rank) gap = sv[rank - 1] / Ar.squaredNorm();
  }
};
static void compareMarginal(const Marginal& m, const VX& sv, int rank, int deficiency, const MX& null, const MX& row, const MX& cov, const MX& rowCov, const std::string& h) {
  transition();
  expect(sv.size() == m.sv.size() && same(sv, m.sv, 1e-8), "singular-values", h + ": " + str(sv) + " instead of " + str(m.sv));
  if (!expect(rank == m.rank && deficiency == m.omega.cols() - m.rank, "rank", h + fmt(": %d and %d instead of %d and %d", rank, deficiency, m.rank, (int)m.omega.cols() - m.rank))) return;
  expect(same(null * null.transpose(), m.null * m.null.transpose(), 1e-6) && same(null.transpose() * null, MX::Identity(m.null.cols(), m.null.cols()), 1e-9), "null-space", h + ": " + str(null));
  expect(same(row * row.transpose(), m.row * m.row.transpose(), 1e-6) && same(row.transpose() * row, MX::Identity(m.rank, m.rank), 1e-9), "row-space", h + ": " + str(row));
  expect(same(cov, m.cov, 1e-6), "covariance", h + ": " + str(cov) + " instead of " + str(m.cov));
  MX rc = MX::Zero(m.rank, m.rank); for (int i = 0; i < m.rank; ++i) rc(i, i) = 1 / m.sv[i];
  expect(same(rowCov, rc, 1e-6), "row-covariance", h + ": " + str(rowCov));
}
static void solveOnce(ac::LinearSolver& solver, const MX& A, const VX& b, int j, bool scaled, const std::string& h) {
  Marginal plain(A, b, j);
  MX S = A; VX g = VX::Ones(A.cols());
  if (scaled) for (int c = 0; c < A.cols(); ++c) { g[c] = A.col(c).norm() > 0 ? 1 / A.col(c).norm() : 0; S.col(c) *= g[c]; }
  Marginal m(S, b, j);
  if (!plain.rankLeft || m.vague || plain.vague || !m.rank || !plain.rank || m.gap < 1e-4 || plain.gap < 1e-4) return;   // no information, or a rank that is not clear
  cholmod_common cc; cholmod_l_start(&cc); cholmod_sparse* As = ac::eigenDenseToCholmodSparseCopy(A, &cc); cholmod_dense bd; ac::eigenDenseToCholmodDenseView(b, &bd);
  solver.getOptions().columnScaling = scaled;
  // where the rank is full the default tolerance must tell so too
  bool given = m.rank < m.omega.cols() || plain.rank < plain.omega.cols();
  solver.getOptions().svdTol = given ? 1e-7 * S.rightCols(A.cols() - j).squaredNorm() : -1;
  VX x; bool ok = true; std::string what;
  try { solver.solve(As, &bd, j, x); } catch (const std::exception& e) { ok = false; what = e.what(); }
  if (expect(ok && x.size() == A.cols(), "solve", h + ": " + what)) {
    nontrivial(h); state(h);
    compareMarginal(m, solver.getSingularValues(), solver.getSVDRank(), solver.getSVDRankDeficiency(), solver.getNullSpace(), solver.getRowSpace(), solver.getCovariance(), solver.getRowSpaceCovariance(), h);
    expectNear(solver.getSingularValuesLog2Sum(), m.log2sum, 1e-6, "log2-sum", h);
    expect(solver.getQRRank() == m.rankLeft && solver.getQRRankDeficiency() == j - m.rankLeft, "qr-rank", h);
    VX theta = g.tail(A.cols() - j).cwiseProduct(m.theta);
    expect(same(x.tail(A.cols() - j), theta, 1e-7), "marginalized-solution", h + ": " + str(x.tail(A.cols() - j)) + " instead of " + str(theta));
    VX r = A * x - b; expect(same(A.leftCols(j).transpose() * r, VX::Zero(j), 1e-7), "remaining-solution", h + ": " + str(x));
    expect(same(A.transpose() * r, VX::Zero(A.cols()), 1e-6), "least-squares", h + ": " + str(A.transpose() * r));
    // a fresh analysis of the unscaled system
    solver.clear(); if (given) solver.getOptions().svdTol = 1e-7 * A.rightCols(A.cols() - j).squaredNorm(); bool again = true; try { solver.analyzeMarginal(As, j); } catch (const std::exception& e) { again = false; }
    if (expect(again, "analyze", h)) { compareMarginal(plain, solver.getSingularValues(), solver.getSVDRank(), solver.getSVDRankDeficiency(), solver.getNullSpace(), solver.getRowSpace(), solver.getCovariance(), solver.getRowSpaceCovariance(), h + " analyzed"); }
  }
  cholmod_l_free_sparse(&As, &cc); cholmod_l_finish(&cc);
}
static void solverPart() {
  // all patterns of the rows of small matrices
  struct Shape { int l, r, maxRows; };
  std::vector<Shape> shapes = {{1, 1, 4}, {1, 2, thorough() ? 5 : 4}, {2, 1, thorough() ? 5 : 4}, {2, 2, thorough() ? 5 : 4}, {3, 2, thorough() ? 4 : 3}};
  for (auto& s : shapes) for (int rows = 1; rows <= s.maxRows; ++rows) {
    int n = s.l + s.r, K = (1 << n) - 1;   // patterns of a row that are not empty
    std::vector<int> w(rows, 1);
    for (int first = 1; first <= K; ++first) if (scenario(fmt("solve %d+%d columns %d rows, first row %x", s.l, s.r, rows, first))) {
      std::fill(w.begin(), w.end(), 1); w[0] = first; ac::LinearSolver kept;
      while (true) {
        for (int variant = 0; variant < 4; ++variant) {
          MX A = MX::Zero(rows, n); for (int i = 0; i < rows; ++i) for (int c = 0; c < n; ++c) if (w[i] >> c & 1) A(i, c) = variant >= 2 ? 1 : (gen(i, c, 3, rows) > 0 ? 0.3 : -0.3) + gen(i, c, 3, rows);
          if (variant == 3) A.col(n - 1) *= 8;
          VX b = genMat(rows, 1, 17, rows); std::string h = fmt("%d+%d columns variant %d rows", s.l, s.r, variant); for (int p : w) h += fmt(" %x", p);
          { ac::LinearSolver solver; solveOnce(solver, A, b, s.l, variant % 2, h); }
          if (rows > 2) { kept.clear(); solveOnce(kept, A, b, s.l, variant % 2, h + " solver used before"); }
          if (tooMany()) return;
        }
        int i = rows - 1; while (i > 0 && w[i] == K) { w[i] = 1; --i; } if (i <= 0) break; ++w[i];
      }
    }
  }
}

// ------------------------------------------------------------------ estimator
struct World {
  enum { T1, T2, P0, P1, P2, P4, P5, LAM, FIX, N };
  std::vector<boost::shared_ptr<VecDv>> dv; std::vector<boost::shared_ptr<ac::OptimizationProblem>> batch;
  struct Err { boost::shared_ptr<ErrAccess> a; std::vector<int> v; }; std::vector<std::vector<Err>> errs;
  World(double quad) {
    const int dims[N] = {2, 1, 1, 2, 1, 1, 1, 1, 2};
    for (int i = 0; i < N; ++i) { dv.push_back(boost::make_shared<VecDv>(dims[i], 40 + i)); dv[i]->setActive(i != FIX); }
    struct E { std::vector<int> v; int dim; double scale; int flat; };
    struct B { std::vector<int> d; std::vector<E> e; };
    std::vector<B> bs = {
      {{T1, P0}, {{{T1, P0}, 3, 1, 0}, {{P0}, 1, 1, 0}}},
      {{P1, T1, T2}, {{{P1, T2}, 2, 1, 0}, {{P1}, 2, 1, 0}}},
      {{T1, P2}, {{{P2}, 1, 1, 0}, {{T1, P2}, 1, 1e-3, 0}}},
      {{P0, T1}, {{{P0, T1}, 2, 3, 0}}},
      {{FIX, T1, P4}, {{{FIX, T1, P4}, 3, 0.05, 0}, {{P4}, 1, 1, 0}}},
      {{LAM, T2, P5}, {{{T2, LAM}, 2, 1, 0}, {{P5, LAM}, 2, 1, 0}}},
      {{T1, P2, T2}, {{{T1, P2}, 2, 1, 1}, {{P2}, 1, 2, 0}}}};
    for (size_t b = 0; b < bs.size(); ++b) {
      auto p = boost::make_shared<ac::OptimizationProblem>(); errs.emplace_back();
      for (int d : bs[b].d) p->addDesignVariable(dv[d], d == T1 || d == T2 ? 1 : d == LAM || d == FIX ? 2 : 0);
      int k = 0; for (auto& e : bs[b].e) { std::vector<VecDv*> v; for (int d : e.v) v.push_back(dv[d].get()); ErrModel m(v, e.dim, 500 + 10 * b + k++, quad);
        for (size_t i = 0; i < m.A.size(); ++i) { if (e.flat && e.v[i] == T1) m.A[i].col(1).setZero(); m.A[i] *= e.scale; } m.c *= 0.3;
        auto a = makeErr(m, b % 2); p->addErrorTerm(boost::shared_ptr<aslam::backend::ErrorTerm>(a, a->term())); errs.back().push_back({a, e.v}); }
      batch.push_back(p);
    }
  }
  std::vector<VX> values() const { std::vector<VX> r; for (auto& d : dv) r.push_back(d->v); return r; }
  void set(const std::vector<VX>& v) { for (size_t i = 0; i < dv.size(); ++i) dv[i]->v = v[i]; }
  double cost(const std::vector<int>& in) const { double c = 0; for (int b : in) for (auto& e : errs[b]) c += e.a->m.error().squaredNorm(); return c; }
};
// variables that take part, those marginalized last, each group in the order of its first batch
static void system(World& w, const std::vector<VecDv*>& order, const std::vector<int>& in, MX& J, VX& e) {
  int cols = 0, rows = 0; std::map<VecDv*, int> base; for (auto d : order) { base[d] = cols; cols += d->v.size(); } for (int b : in) for (auto& t : w.errs[b]) rows += t.a->m.c.size();
  J = MX::Zero(rows, cols); e = VX::Zero(rows); int r = 0;
  for (int b : in) for (auto& t : w.errs[b]) { ErrModel& m = t.a->m; int n = m.c.size(); e.segment(r, n) = m.error(); for (size_t i = 0; i < m.dv.size(); ++i) if (base.count(m.dv[i])) J.block(r, base[m.dv[i]], n, m.dv[i]->v.size()) = m.jac(i); r += n; }
}
struct Setting { double delta, quad; bool scaling, check; int maxIter; };
struct Solved { bool clear = true; double start = 0, end = 0; int thetaDim = 0; std::unique_ptr<Marginal> m, scaled; MX J; };
// what the optimum of these batches is, from the present values; leaves the values there
static Solved optimum(World& w, const std::vector<VecDv*>& order, int thetaDim, const std::vector<int>& in, const Setting& s) {
  Solved r; r.thetaDim = thetaDim; r.start = w.cost(in); MX J; VX e;
  for (int it = 0; it < (s.maxIter == 1 ? 1 : 60); ++it) {
    system(w, order, in, J, e); int j = J.cols() - thetaDim; VX g = VX::Ones(J.cols()); MX S = J;
    if (s.scaling) for (int c = 0; c < J.cols(); ++c) { g[c] = J.col(c).norm() > 0 ? 1 / J.col(c).norm() : 0; S.col(c) *= g[c]; }
    r.m.reset(new Marginal(J, -e, j)); r.scaled.reset(new Marginal(S, -e, j)); r.J = J;
    // ranks must be clear to both tolerances
    auto clear = [](const Marginal& m) { for (int i = 0; i < m.sv.size(); ++i) if (m.sv[i] > 1e-13 && m.sv[i] < 1e-8) return false; return m.rank > 0 && !m.vague; };
    if (!clear(*r.m) || !clear(*r.scaled) || r.m->rank != r.scaled->rank || r.m->rankLeft != j) { r.clear = false; return r; }
    VX dx(J.cols()), th = g.tail(thetaDim).cwiseProduct((s.scaling ? *r.scaled : *r.m).theta);
    dx.tail(thetaDim) = th; dx.head(j) = J.leftCols(j).colPivHouseholderQr().solve(-e - J.rightCols(thetaDim) * th);
    int c = 0; for (auto d : order) { d->v += dx.segment(c, d->v.size()); c += d->v.size(); }
    if (dx.norm() < 1e-12) break;
  }
  r.end = w.cost(in); return r;
}
struct Stats { double gain = 0, log2sum = 0, start = 0, end = 0; int rank = -1, deficiency = -1, left = -1; std::shared_ptr<Solved> s; };
static void history(const std::vector<int>& ops, const Setting& set, const std::string& h) {
  World w(set.quad);
  ac::IncrementalEstimator::Options o; o.infoGainDelta = set.delta; o.checkValidity = set.check;
  ac::LinearSolverOptions lo; lo.columnScaling = set.scaling; lo.svdTol = 1e-10;
  ac::IncrementalEstimator::OptimizerOptions oo; oo.convergenceDeltaX = 1e-9; oo.convergenceDeltaJ = 1e-14; oo.maxIterations = set.maxIter; oo.nThreads = 1; oo.verbose = false;
  ac::IncrementalEstimator est(1, o, lo, oo);
  std::vector<int> in; Stats last; const double tol = set.quad ? 1e-4 : 1e-6; int nb = w.batch.size();
  auto order = [&](std::vector<int> held, int& thetaDim) {   // from the batches, as the container documents
    std::vector<VecDv*> g[3], out; for (int b : held) for (size_t i = 0; i < w.batch[b]->numDesignVariables(); ++i) (void)i;
    const ac::IncrementalOptimizationProblem* p = est.getProblem(); thetaDim = 0;
    for (size_t i = 0; i < p->numDesignVariables(); ++i) { auto* d = static_cast<VecDv*>(const_cast<ac::IncrementalOptimizationProblem*>(p)->designVariable(i)); if (d->isActive()) { out.push_back(d); if (p->getGroupId(d) == 1) thetaDim += d->v.size(); } }
    return out;
  };
  auto checkValues = [&](const std::vector<VX>& want, double t, const char* key, const std::string& at) { for (int i = 0; i < World::N; ++i) if (!(t ? same(w.dv[i]->v, want[i], t) : w.dv[i]->v == want[i])) { fail(key, at + fmt(": variable %d is ", i) + str(w.dv[i]->v) + " instead of " + str(want[i])); return; } };
  auto checkGetters = [&](const std::string& at) {
    transition();
    expect(est.getNumBatches() == in.size() && est.getProblem()->getNumOptimizationProblems() == in.size(), "batches", at + fmt(": %d instead of %d", (int)est.getNumBatches(), (int)in.size()));
    for (size_t i = 0; i < in.size() && i < est.getNumBatches(); ++i) expect(est.getProblem()->getOptimizationProblem(i) == w.batch[in[i]].get(), "batches", at);
    expect(est.getRankTheta() == last.rank && est.getRankThetaDeficiency() == last.deficiency, "statistics-rank", at + fmt(": %d, %d instead of %d, %d", (int)est.getRankTheta(), (int)est.getRankThetaDeficiency(), last.rank, last.deficiency));
    expect(est.getRankPsi() == last.left && est.getRankPsiDeficiency() == (last.s ? 0 : -1), "statistics-rank", at);
    expectNear(est.getInformationGain(), last.gain, tol * 10, "statistics-gain", at);
    expectNear(est.getInitialCost(), last.start, tol * (1 + last.start), "statistics-cost", at); expectNear(est.getFinalCost(), last.end, tol * (1 + last.end), "statistics-cost", at);
    if (!last.s) { expect(est.getSigma2Theta().size() == 0 && est.getSingularValues().size() == 0 && est.getNobsBasis().size() == 0 && est.getObsBasis().size() == 0 && est.getSigma2ThetaObs().size() == 0, "statistics-empty", at); return; }
    for (int sc = 0; sc < 2; ++sc) {
      if (sc && !set.scaling) { expect(!est.getSigma2Theta(true).size() && !est.getSingularValues(true).size() && !est.getNobsBasis(true).size() && !est.getObsBasis(true).size() && !est.getSigma2ThetaObs(true).size(), "statistics-scaled", at); continue; }
      const Marginal& m = sc ? *last.s->scaled : *last.s->m; std::string a = at + (sc ? " scaled" : "");
      expect(same(est.getSingularValues(sc), m.sv, tol), "statistics-singular-values", a + ": " + str(est.getSingularValues(sc)) + " instead of " + str(m.sv));
      expect(same(est.getSigma2Theta(sc), m.cov, tol * 100), "statistics-covariance", a + ": " + str(est.getSigma2Theta(sc)) + " instead of " + str(m.cov));
      MX n = est.getNobsBasis(sc), b = est.getObsBasis(sc), c = est.getSigma2ThetaObs(sc);
      expect(same(n * n.transpose(), m.null * m.null.transpose(), tol * 10), "statistics-null-space", a); expect(same(b * b.transpose(), m.row * m.row.transpose(), tol * 10), "statistics-row-space", a);
      MX rc = MX::Zero(m.rank, m.rank); for (int i = 0; i < m.rank; ++i) rc(i, i) = 1 / m.sv[i]; expect(same(c, rc, tol * 100), "statistics-row-covariance", a);
    }
  };
  auto checkSystem = [&](const std::string& at) {   // the system kept is that of the batches held
    if (in.empty()) return; int td; MX J, got; VX e; system(w, order(in, td), in, J, e);
    est.getJacobianTranspose().toDenseInto(got);
    expect(same(got.transpose(), J, set.quad ? 1e-3 : 1e-9), "kept-system", at + ": " + str(got.transpose()) + " instead of " + str(J));
  };
  bool stale = false;   // the variables moved since the system was built
  for (size_t k = 0; k < ops.size(); ++k) {
    int op = ops[k]; std::string at = h + fmt(" step %d", (int)k);
    if (op < 2 * nb) {
      int b = op % nb; bool force = op >= nb;
      if (std::count(in.begin(), in.end(), b)) { auto v = w.values(); expect(throws([&] { est.addBatch(w.batch[b], force); }), "added-twice", at); checkValues(v, 0, "added-twice", at); checkGetters(at); continue; }
      // the candidate
      auto v0 = w.values(); std::vector<int> cand = in; cand.push_back(b);
      // the order of the variables is known to the container; predict with one of its own
      ac::IncrementalOptimizationProblem pc; for (int i : cand) pc.add(w.batch[i]);
      std::vector<VecDv*> rest, theta; for (size_t i = 0; i < pc.numDesignVariables(); ++i) { auto* d = static_cast<VecDv*>(pc.designVariable(i)); if (d->isActive()) (pc.getGroupId(d) == 1 ? theta : rest).push_back(d); }
      // variables already held keep their place
      { const ac::IncrementalOptimizationProblem* p = est.getProblem(); std::vector<VecDv*> t; for (size_t i = 0; i < p->numDesignVariables(); ++i) { auto* d = static_cast<VecDv*>(const_cast<ac::IncrementalOptimizationProblem*>(p)->designVariable(i)); if (d->isActive() && p->getGroupId(d) == 1) t.push_back(d); } for (auto* d : theta) if (!std::count(t.begin(), t.end(), d)) t.push_back(d); theta = t; }
      int td = 0; std::vector<VecDv*> all = rest; for (auto d : theta) { all.push_back(d); td += d->v.size(); }
      auto s = std::make_shared<Solved>(optimum(w, all, td, cand, set)); auto v1 = w.values(); w.set(v0);
      if (!s->clear) return;
      double gain = 0.5 * (s->m->log2sum - last.log2sum); bool better = s->m->rank > last.rank;
      bool moved = std::fabs(s->start - s->end) > 1e-9 * (1 + s->start);
      if ((!better && std::fabs(gain - set.delta) < 1e-5) || (set.check && !moved)) return;   // either answer
      bool valid = !set.check || set.maxIter > 1;
      bool accept = ((gain > set.delta || better) && valid) || force;
      ac::IncrementalEstimator::ReturnValue r;
      try { r = est.addBatch(w.batch[b], force); } catch (const std::exception& e) { fail("exception", at + ": " + e.what()); return; }
      if (!expect(r.batchAccepted == accept, "accepted", at + fmt(": gain %g rank %d before %d force %d, got %d gain %g rank %d", gain, s->m->rank, last.rank, force, r.batchAccepted, r.informationGain, (int)r.rankTheta))) return;
      sawValue(accept ? "accepted" : "rejected", fmt("%d", better));
      expectNear(r.informationGain, gain, tol * 10, "information-gain", at); expectNear(r.JStart, s->start, tol * (1 + s->start), "cost", at); expectNear(r.JFinal, s->end, tol * (1 + s->end), "cost", at);
      expect(r.rankPsi == s->J.cols() - td && r.rankPsiDeficiency == 0, "rank-of-the-rest", at);
      compareMarginal(*s->m, set.quad ? s->m->sv : r.singularValues, r.rankTheta, r.rankThetaDeficiency, set.quad ? s->m->null : r.nobsBasis, set.quad ? s->m->row : r.obsBasis, set.quad ? s->m->cov : r.sigma2Theta, set.quad ? MX(s->m->sv.head(s->m->rank).cwiseInverse().asDiagonal()) : r.sigma2ThetaObs, at + " returned");
      if (set.scaling) { if (!set.quad) compareMarginal(*s->scaled, r.singularValuesScaled, r.rankTheta, r.rankThetaDeficiency, r.nobsBasisScaled, r.obsBasisScaled, r.sigma2ThetaScaled, r.sigma2ThetaObsScaled, at + " returned scaled"); }
      else expect(!r.singularValuesScaled.size() && !r.nobsBasisScaled.size() && !r.obsBasisScaled.size() && !r.sigma2ThetaScaled.size() && !r.sigma2ThetaObsScaled.size(), "returned-scaled", at);
      if (accept) { in = cand; last.gain = gain; last.log2sum = s->m->log2sum; last.rank = s->m->rank; last.deficiency = td - s->m->rank; last.left = s->J.cols() - td; last.start = s->start; last.end = s->end; last.s = s; checkValues(v1, set.quad ? 1e-4 : 1e-7, "optimum", at); }
      else { checkValues(v0, 0, "restored", at); nontrivial(h); }
      checkGetters(at); checkSystem(at);
    } else if (op == 2 * nb + 6) {   // someone moves the variables
      for (int i = 0; i < World::N; ++i) if (i != World::FIX) w.dv[i]->v += 0.1 * genMat(w.dv[i]->v.size(), 1, 900 + i + 20 * k);
      stale = true; continue;
    } else {
      int what = op - 2 * nb; bool reopt = what == 5; std::vector<int> left = in; auto v0 = w.values(); bool byPtr = what == 3 || what == 4; int idx = reopt ? -1 : what == 3 ? 0 : what == 4 ? (int)in.size() - 1 : what;
      if (!reopt && (idx < 0 || idx >= (int)in.size())) {
        if (byPtr) { est.removeBatch(w.batch[0]); checkValues(v0, 0, "unknown-batch", at); }   // not held
        else { expect(throws([&] { est.removeBatch((size_t)what); }), "index", at); checkValues(v0, 0, "index", at); }
        checkGetters(at); if (!stale) checkSystem(at); continue;
      }
      if (reopt && in.empty()) { expect(throws([&] { est.reoptimize(); }), "nothing-to-optimize", at); checkGetters(at); continue; }
      if (!reopt) left.erase(left.begin() + idx);
      ac::IncrementalEstimator::ReturnValue r; std::string what2;
      // order of the variables after the removal: those left keep their order
      int td0; auto now = order(in, td0); ac::IncrementalOptimizationProblem pc; for (int i : left) pc.add(w.batch[i]);
      std::vector<VecDv*> all; int td = 0; for (auto d : now) if (pc.isDesignVariableInProblem(d)) { all.push_back(d); if (pc.getGroupId(d) == 1) td += d->v.size(); }
      std::shared_ptr<Solved> s; std::vector<VX> v1 = v0;
      if (!left.empty()) { s = std::make_shared<Solved>(optimum(w, all, td, left, set)); v1 = w.values(); w.set(v0); if (!s->clear) return; }
      try { if (reopt) r = est.reoptimize(); else if (byPtr) est.removeBatch(w.batch[in[idx]]); else est.removeBatch((size_t)idx); } catch (const std::exception& e) { fail(left.empty() ? "remove-last" : "exception", at + ": " + e.what()); return; }
      in = left; last = Stats();
      if (s) { last.log2sum = s->m->log2sum; last.rank = s->m->rank; last.deficiency = td - s->m->rank; last.left = s->J.cols() - td; last.start = s->start; last.end = s->end; last.s = s; }
      checkValues(v1, set.quad ? 1e-4 : 1e-7, reopt ? "reoptimized" : "removed", at); checkGetters(at); checkSystem(at);
      if (reopt) { expect(r.batchAccepted && r.informationGain == 0 && r.rankTheta == last.rank && r.rankThetaDeficiency == last.deficiency && r.rankPsi == last.left, "reoptimized-returned", at); expectNear(r.JFinal, last.end, tol * (1 + last.end), "reoptimized-returned", at); expect(same(r.sigma2Theta, est.getSigma2Theta(), 0) && same(r.singularValues, est.getSingularValues(), 0) && same(r.sigma2ThetaScaled, est.getSigma2Theta(true), 0) && same(r.nobsBasis, est.getNobsBasis(), 0) && same(r.obsBasis, est.getObsBasis(), 0), "reoptimized-returned", at); }
    }
    stale = false;
    if (tooMany()) return;
  }
  state(h);
}
static void estimatorPart() {
  const int nb = 7, nops = 2 * nb + 7;
  std::vector<Setting> settings = {{0.2, 0, false, false, 20}, {0.2, 0, true, false, 20}, {2.0, 0, false, true, 20}, {0.2, 0.02, false, false, 40}, {0.2, 0, false, true, 1}, {-1e9, 0, false, false, 20}};
  for (size_t q = 0; q < settings.size(); ++q) {
    int depth = thorough() || q < 2 ? 4 : 3;
    for (int a = 0; a < nops; ++a) for (int b = 0; b < nops; ++b) if (scenario(fmt("estimator %d: %d %d", (int)q, a, b))) {
      std::vector<int> w(depth, 0); w[0] = a; w[1] = b;
      while (true) {
        std::string h = fmt("setting %d ops", (int)q); for (int x : w) h += fmt(" %d", x);
        history(w, settings[q], h); g().beat++; if (tooMany()) return;
        int i = depth - 1; while (i > 1 && w[i] == nops - 1) { w[i] = 0; --i; } if (i <= 1) break; ++w[i];
      }
    }
  }
  if (thorough()) {   // longer ones with fewer operations
    const int few[] = {0, 1, 2, 5, 6, nb + 2, 2 * nb, 2 * nb + 4, 2 * nb + 5}, K = 9;
    for (int q = 0; q < 3; ++q) for (int a = 0; a < K; ++a) for (int b = 0; b < K; ++b) if (scenario(fmt("estimator %d, five or six steps: %d %d", q, few[a], few[b]))) {
      int depth = q ? 5 : 6; std::vector<int> w(depth, 0); w[0] = a; w[1] = b;
      while (true) {
        std::vector<int> ops; std::string h = fmt("setting %d ops", q); for (int x : w) { ops.push_back(few[x]); h += fmt(" %d", few[x]); }
        history(ops, settings[q], h); g().beat++; if (tooMany()) return;
        int i = depth - 1; while (i > 1 && w[i] == K - 1) { w[i] = 0; --i; } if (i <= 1) break; ++w[i];
      }
    }
  }
}
int main(int argc, char** argv) {
  init(argc, argv);
  if (part("solver")) solverPart();
  if (part("estimator")) estimatorPart();
  return finish();
}

// Optimizers and trust region policies against an adversarial objective: at
// each newly visited point the environment chooses the cost, and each linear
// solve may fail. All choices up to a depth are explored.
#include <Eigen/Dense>
#include <boost/shared_ptr.hpp>
#include <boost/thread.hpp>
#include <boost/make_shared.hpp>
#include <iostream>
#include <sstream>
#include <vector>
#include <set>
#include <map>
#define private public
#include <aslam_backend/backend/Optimizer.hpp>
#undef private
#include "vmc.hpp"
#include "backend_common.hpp"
#include <aslam_backend/backend/Optimizer2.hpp>
#include <aslam_backend/backend/OptimizationProblem.hpp>
#include <aslam_backend/backend/BlockCholeskyLinearSystemSolver.hpp>
#include <aslam_backend/backend/SparseQrLinearSystemSolver.hpp>
#include <aslam_backend/backend/DenseQrLinearSystemSolver.hpp>
using namespace vmc;
using namespace aslam::backend;
using Eigen::MatrixXd;
using Eigen::VectorXd;

struct Silence {
  std::streambuf* b; std::ostringstream o;
  Silence() { b = std::cout.rdbuf(o.rdbuf()); }
  ~Silence() { std::cout.rdbuf(b); }
};

// The objective: one error vector per visited state.
struct World {
  Chooser* c;
  std::vector<boost::shared_ptr<VecDv> > dv;
  std::vector<boost::shared_ptr<VecDv> > idle;  // inactive
  std::map<std::vector<double>, int> ids;
  std::vector<VectorXd> err;   // by state
  std::vector<MatrixXd> jac;   // unscaled, all columns
  int base = 0;                // the state costs are chosen relative to
  int reverting = 1;
  int nCosts = 6, maxChoices = 1000;
  int cols = 0, dim = 3;
  VectorXd point() const { VectorXd p(cols); int k = 0; for (auto& d : dv) { p.segment(k, d->v.size()) = d->v; k += d->v.size(); } return p; }
  static std::vector<double> keyOf(const VectorXd& p) { return std::vector<double>(p.data(), p.data() + p.size()); }
  double cost(int id) const { return err[id].squaredNorm(); }
  int visit() {
    std::vector<double> k = keyOf(point());
    auto it = ids.find(k);
    if (it != ids.end()) return it->second;
    int id = err.size();
    ids[k] = id;
    MatrixXd J = genMat(dim, cols, 300 + id);
    VectorXd e = genMat(dim, 1, 400 + id).normalized();
    if (id == 0) e *= 2.0;
    else {
      double n = err[base].norm();
      switch (id > maxChoices ? 0 : c->choose(nCosts)) {
        case 0: e *= 0.5 * n; break;
        case 1: e *= 1.4 * n; break;
        case 2: e *= 0.99 * n; break;
        case 3: e = err[base]; break;                       // exactly the same
        case 4: e[0] = std::numeric_limits<double>::quiet_NaN(); break;
        default: e *= 1e200; break;                         // the square overflows
      }
    }
    err.push_back(e); jac.push_back(J);
    return id;
  }
};
struct ScriptErr : public ErrorTermDs {
  World* w;
  ScriptErr(World* ww) : ErrorTermDs(ww->dim), w(ww) {
    std::vector<DesignVariable*> d;
    for (auto& x : w->dv) d.push_back(x.get());
    for (auto& x : w->idle) d.push_back(x.get());
    setDesignVariables(d);
  }
  double evaluateErrorImplementation() override { setError(w->err[w->visit()]); return evaluateChiSquaredError(); }
  void evaluateJacobiansImplementation(JacobianContainer& J) const override {
    int id = w->visit(), k = 0;
    for (auto& x : w->dv) { J.add(x.get(), w->jac[id].middleCols(k, x->v.size())); k += x->v.size(); }
    for (auto& x : w->idle) J.add(x.get(), MatrixXd::Ones(w->dim, x->v.size()));
  }
};
struct Events {
  Chooser* c; World* w;
  bool canFail = false;
  struct Solve { int builtAt; double cond; bool ok; VectorXd dx; int at; };
  std::vector<Solve> solves;
  int builtAt = -1; double cond = 0; bool vec = false;
};
template <class B> struct Rec : public B {
  Events* ev = nullptr;
  void buildSystem(size_t n, bool m) override { B::buildSystem(n, m); ev->builtAt = ev->w->visit(); }
  void setConstantConditioner(double d) override { B::setConstantConditioner(d); ev->cond = d; }
  bool solveSystem(VectorXd& dx) override {
    Events::Solve s; s.builtAt = ev->builtAt; s.cond = ev->cond; s.at = ev->w->visit();
    if (ev->canFail && ev->c->choose(2)) { dx.setConstant(ev->w->cols, 1e6); s.ok = false; }
    else s.ok = B::solveSystem(dx);
    s.dx = dx;
    ev->solves.push_back(s);
    return s.ok;
  }
};
// Sees what the optimizer asked for and got.
template <class P> struct RecPolicy : public P {
  struct Step { double J; bool prevFailed, ok; VectorXd dx; int at; double cond; int builtAt; int solveIdx; };
  std::vector<Step> steps; World* w = nullptr; Events* ev = nullptr;
  bool solveSystemImplementation(double J, bool pf, int n, VectorXd& dx) override {
    Step s; s.J = J; s.prevFailed = pf; s.at = w->visit();
    size_t k = ev->solves.size();
    if (w->reverting) w->base = s.at;
    s.ok = P::solveSystemImplementation(J, pf, n, dx);
    s.dx = dx; s.cond = ev->cond; s.builtAt = ev->builtAt; s.solveIdx = ev->solves.size() > k ? (int)k : -1;
    steps.push_back(s);
    return s.ok;
  }
};
static MatrixXd scaledJac(const World& w, int id) {
  MatrixXd J = w.jac[id]; int k = 0;
  for (auto& d : w.dv) { J.middleCols(k, d->v.size()) *= d->scaling(); k += d->v.size(); }
  return J;
}

static const char* POL[] = {"lm", "dogleg", "gn"};
static const char* SOL[] = {"block_cholesky", "dense_qr", "sparse_qr"};
struct Config { int policy, solver, dvs, maxIter, nThreads; double cdx, cdj; bool canFail; int nCosts, runs; };

template <class P, class S>
static void run2(const Config& k, Chooser& c) {
  Silence quiet;
  World w; w.c = &c; w.nCosts = k.nCosts;
  for (int i = 0; i < k.dvs; ++i) {
    auto d = boost::make_shared<VecDv>(i == 0 ? 2 : 1, 10 + i);
    d->setActive(true); d->setScaling(i == 0 ? 2.0 : 0.5); w.dv.push_back(d); w.cols += d->v.size();
  }
  w.idle.push_back(boost::make_shared<VecDv>(1, 20)); w.idle[0]->setActive(false);
  VectorXd idle0 = w.idle[0]->v;
  Events ev; ev.c = &c; ev.w = &w; ev.canFail = k.canFail;
  auto pol = boost::make_shared<RecPolicy<P> >(); pol->w = &w; pol->ev = &ev;
  auto sol = boost::make_shared<Rec<S> >(); sol->ev = &ev;
  w.reverting = pol->revertOnFailure();
  auto prob = boost::make_shared<OptimizationProblem>();
  for (auto& d : w.dv) prob->addDesignVariable(d.get(), false);
  for (auto& d : w.idle) prob->addDesignVariable(d.get(), false);
  ScriptErr term(&w);
  prob->addErrorTerm(&term, false);
  Optimizer2Options o;
  o.maxIterations = k.maxIter; o.convergenceDeltaX = k.cdx; o.convergenceDeltaJ = k.cdj; o.nThreads = k.nThreads; o.doSchurComplement = false;
  o.linearSystemSolver = sol; o.trustRegionPolicy = pol;
  Optimizer2 opt(o);
  opt.setProblem(prob);
  const std::string who = POL[k.policy];
  for (int round = 0; round < k.runs; ++round) {
    pol->steps.clear();
    int start = w.visit();
    w.base = start;
    VectorXd p0 = w.point();
    std::vector<int> upd0, rev0;
    for (auto& d : w.dv) { upd0.push_back(d->updates); rev0.push_back(d->reverts); }
    SolutionReturnValue r = opt.optimize();
    transition(pol->steps.size());
    int end = w.visit();
    std::string what = fmt("round %d: ", round);
    // Replay the steps.
    VectorXd cur = p0; int curId = start, iters = 0, failed = 0, rejected = 0; bool lin = false;
    double dX = k.cdx + 1, dJ = k.cdj + 1; bool prevFailed = false;
    double lastLen = -1, lastCond = -1;
    for (size_t i = 0; i <= pol->steps.size(); ++i) {
      bool go = iters < k.maxIter && failed < k.maxIter && ((dX > k.cdx && std::fabs(dJ) > k.cdj) || lin);
      std::string at = what + fmt("step %zu: ", i);
      if (i == pol->steps.size()) { expect(!go, who + "/stopped-early", at + fmt("dX %g dJ %g lin %d", dX, dJ, lin)); break; }
      expect(go, who + "/went-on", at + fmt("dX %g dJ %g lin %d", dX, dJ, lin));
      auto& s = pol->steps[i];
      expect(s.at == curId, who + "/state-before-step", at + fmt("state %d, expected %d", s.at, curId));
      expect(s.prevFailed == (w.reverting ? prevFailed : s.prevFailed), who + "/previous-failed", at);
      if (i == 0 && k.policy != 2) lastLen = -1;
      if (s.ok) {
        MatrixXd J = scaledJac(w, curId), H = J.transpose() * J; VectorXd g = -J.transpose() * w.err[curId];
        if (std::isfinite(w.cost(curId))) {
          MatrixXd A = H;
          if (k.policy == 0) A.diagonal().array() += s.cond * s.cond;
          VectorXd gn = A.ldlt().solve(g);
          double tol = 1e-6 * (1 + gn.norm());
          if (k.policy != 1) expect((s.dx - gn).norm() <= tol, who + "/step", at + fmt("error %g", (s.dx - gn).norm()));
          else {
            // The step lies on the dog leg.
            VectorXd sd = g * (g.squaredNorm() / g.dot(H * g));
            double best = 1e300;
            double t = sd.squaredNorm() > 0 ? std::min(1.0, std::max(0.0, s.dx.dot(sd) / sd.squaredNorm())) : 0; best = std::min(best, (s.dx - t * sd).norm());
            VectorXd d = gn - sd;
            t = d.squaredNorm() > 0 ? std::min(1.0, std::max(0.0, (s.dx - sd).dot(d) / d.squaredNorm())) : 0; best = std::min(best, (s.dx - sd - t * d).norm());
            expect(best <= tol, who + "/step", at + fmt("off the dog leg by %g", best));
          }
        }
        double len = s.dx.norm();
        if (prevFailed && w.reverting) {
          if (lastLen > 0) expect(k.policy == 0 ? len <= lastLen * (1 + 1e-9) : len < lastLen * (1 - 1e-9), who + "/not-shorter", at + fmt("after a rejected step of length %g one of length %g", lastLen, len));
          if (k.policy == 0 && lastCond >= 0) expect(s.cond > lastCond, who + "/conditioner", at + fmt("%g after %g", s.cond, lastCond));
          nontrivial(hashStr(who + fmt("%g %g", len, s.cond)));
        }
        lastCond = s.cond;
        VectorXd next = cur; int q = 0;
        for (auto& d : w.dv) { VectorXd dx = s.dx.segment(q, d->v.size()); dx *= d->scaling(); next.segment(q, d->v.size()) += dx; q += d->v.size(); }
        auto it = w.ids.find(World::keyOf(next));
        expect(it != w.ids.end(), who + "/update", at + "the error was not evaluated at the state the step leads to");
        if (it == w.ids.end()) return;
        double was = w.cost(curId), now = w.cost(it->second);
        dX = s.dx.array().abs().maxCoeff(); dJ = was - now; if (w.reverting && std::isnan(dJ)) dJ = -INFINITY;
        ++iters; lin = false;
        if (!w.reverting || now <= was) { cur = next; curId = it->second; prevFailed = false; lastLen = -1; }
        else { ++failed; ++rejected; prevFailed = true; lastLen = len; }
        state(fmt("%s %d %g %g %g", who.c_str(), prevFailed, now, dX, s.cond));
      } else {
        ++failed; lin = true; prevFailed = true;
        if (k.policy == 0) { expect(lastCond < 0 || !s.prevFailed || s.cond > lastCond, who + "/conditioner", at + fmt("%g after %g", s.cond, lastCond)); lastCond = s.cond; }
        state(who + "linear failure");
      }
    }
    double J = w.cost(curId);
    auto same = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-12 * std::fabs(b); };
    expect(end == curId && World::keyOf(w.point()) == World::keyOf(cur), who + "/final-state", what + fmt("state %d with cost %g instead of %d with cost %g", end, w.cost(end), curId, J));
    expect(same(r.JFinal, J), who + "/JFinal", what + fmt("%g instead of %g", r.JFinal, J));
    expect(same(opt.J(), J), who + "/J", what + fmt("%g instead of %g", opt.J(), J));
    expect(same(r.JStart, w.cost(start)), who + "/JStart", what + fmt("%g", r.JStart));
    expect(r.iterations == iters, who + "/iterations", what + fmt("%d instead of %d", r.iterations, iters));
    expect(r.failedIterations == failed, who + "/failedIterations", what + fmt("%d instead of %d", r.failedIterations, failed));
    expect(r.linearSolverFailure == lin, who + "/linearSolverFailure", what + fmt("%d", r.linearSolverFailure));
    expect(same(r.dXFinal, dX), who + "/dXFinal", what + fmt("%g instead of %g", r.dXFinal, dX));
    expect(same(r.dJFinal, dJ), who + "/dJFinal", what + fmt("%g instead of %g", r.dJFinal, dJ));
    if (w.reverting) expect(!(r.JFinal > r.JStart), who + "/increased", what + fmt("%g to %g", r.JStart, r.JFinal));
    expect(w.idle[0]->v == idle0 && w.idle[0]->updates == 0 && w.idle[0]->reverts == 0, who + "/inactive-touched", what);
    for (size_t i = 0; i < w.dv.size(); ++i) {
      expect(w.dv[i]->updates - upd0[i] == iters, who + "/updates", what);
      expect(w.dv[i]->reverts - rev0[i] == rejected, who + "/reverts", what + fmt("%d instead of %d", w.dv[i]->reverts - rev0[i], rejected));
    }
    sawValue("outcome", fmt("%s lin%d rej%d", who.c_str(), lin, std::min(rejected, 2)));
  }
}
template <class P> static void run1(const Config& k, Chooser& c) {
  switch (k.solver) {
    case 0: run2<P, BlockCholeskyLinearSystemSolver>(k, c); break;
    case 1: run2<P, DenseQrLinearSystemSolver>(k, c); break;
    default: run2<P, SparseQrLinearSystemSolver>(k, c);
  }
}

// The older optimizer.
struct FailingSolver : public aslam_sparse_block_matrix::LinearSolver<MatrixXd> {
  boost::shared_ptr<aslam_sparse_block_matrix::LinearSolver<MatrixXd> > in; Chooser* c; bool canFail; int solves = 0, fails = 0;
  bool init() override { return in->init(); }
  bool solve(const aslam_sparse_block_matrix::SparseBlockMatrix<MatrixXd>& A, double* x, double* b) override {
    ++solves;
    if (canFail && solves < 7 && c->choose(2)) { ++fails; return false; }
    bool r = in->solve(A, x, b); if (!r) ++fails; return r;
  }
};
static void runOld(bool dogleg, bool lm, bool canFail, int maxIter, int nCosts, Chooser& c) {
  Silence quiet;
  World w; w.c = &c; w.nCosts = nCosts; w.maxChoices = thorough() ? 6 : 5;  // then every step is good
  for (int i = 0; i < 2; ++i) { auto d = boost::make_shared<VecDv>(i == 0 ? 2 : 1, 10 + i); d->setActive(true); d->setScaling(i ? 0.5 : 2.0); w.dv.push_back(d); w.cols += d->v.size(); }
  w.idle.push_back(boost::make_shared<VecDv>(1, 20)); w.idle[0]->setActive(false);
  auto prob = boost::make_shared<OptimizationProblem>();
  for (auto& d : w.dv) prob->addDesignVariable(d.get(), false);
  for (auto& d : w.idle) prob->addDesignVariable(d.get(), false);
  ScriptErr term(&w); prob->addErrorTerm(&term, false);
  OptimizerOptions o; o.maxIterations = maxIter; o.convergenceDeltaX = 1e-6; o.convergenceDeltaJ = 1e-9; o.doLevenbergMarquardt = lm;
  Optimizer opt(o); opt.setProblem(prob);
  auto fs = boost::make_shared<FailingSolver>(); fs->in = opt._solver; fs->c = &c; fs->canFail = canFail; fs->init();
  opt._solver = fs;
  std::string who = dogleg ? "old-dogleg" : lm ? "old-lm" : "old-gn";
  // The caller's own update before the optimization must not be undone.
  for (auto& d : w.dv) { VectorXd dx = VectorXd::Constant(d->v.size(), 0.25); d->update(dx.data(), dx.size()); }
  VectorXd p0 = w.point();
  std::vector<VectorXd> seen;
  int start = w.visit();
  SolutionReturnValue r = dogleg ? opt.optimizeDogLeg() : opt.optimize();
  int end = w.visit();
  transition(fs->solves + r.iterations);
  // The best cost seen along the way is where it ends (ties may go either way).
  double best = w.cost(start);
  for (size_t i = 0; i < w.err.size(); ++i) if (w.cost(i) < best) best = w.cost(i);
  auto same = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-12 * std::fabs(b); };
  double J = w.cost(end);
  if (lm || dogleg) expect(same(J, best), who + "/final-state", fmt("cost %g, the best was %g", J, best));
  expect(same(r.JFinal, J), who + "/JFinal", fmt("%g instead of %g", r.JFinal, J));
  expect(same(opt.J(), J), who + "/J", fmt("%g instead of %g", opt.J(), J));
  expect(same(r.JStart, w.cost(start)), who + "/JStart", fmt("%g", r.JStart));
  expect(r.iterations <= maxIter, who + "/iterations", fmt("%d", r.iterations));
  expect(w.idle[0]->updates == 0, who + "/inactive-touched", "");
  if (fs->fails == fs->solves && !dogleg) expect(w.point() == p0, who + "/moved-without-step", "");
  state(fmt("%s %d %d %g", who.c_str(), r.iterations, r.failedIterations, J));
  nontrivial(hashStr(fmt("%s %d %d %g", who.c_str(), r.iterations, fs->fails, J)));
}

// Real least squares problems: everything that works finds the minimum.
static void real(int kind, int structure) {
  Silence quiet;
  std::vector<boost::shared_ptr<VecDv> > dv; std::vector<boost::shared_ptr<ErrAccess> > err;
  auto prob = boost::make_shared<OptimizationProblem>();
  int nd = 1 + structure % 3, ne = nd + 1 + structure / 3 % 2;
  bool weights = structure / 6 % 2, inactive = structure / 12 % 2 && nd > 1; double q = structure / 24 % 2 ? 0.05 : 0;
  std::vector<int> dims = {2, 1, 3};
  for (int i = 0; i < nd; ++i) {
    dv.push_back(boost::make_shared<VecDv>(dims[i], i + 7 * structure)); dv[i]->setActive(!(inactive && i == 0));
    if (weights) dv[i]->setScaling(0.5 + i);
    // marginalized last ones for the Schur complement
    if (kind == 7) dv[i]->setMarginalized(i == nd - 1 && nd > 1 && !(inactive && nd == 2));
    prob->addDesignVariable(dv[i].get(), false);
  }
  for (int e = 0; e < ne; ++e) {
    std::vector<VecDv*> d; for (int i = 0; i < nd; ++i) if ((e + i) % 3 != 2 || e == 0 || nd == 1) d.push_back(dv[i].get());
    if (kind == 7) { int s = 0; std::vector<VecDv*> f; for (auto* x : d) if (!x->isMarginalized() || !s++) f.push_back(x); d = f; }
    bool any = false; for (auto* x : d) any |= x->isActive();
    if (!any) continue;
    ErrModel m(d, 3, 100 + e + 31 * structure, q);
    err.push_back(makeErr(m, e % 2));
    if (weights) { MatrixXd L = genMat(3, 3, 50 + e); err.back()->term()->vsSetInvR(L * L.transpose() + MatrixXd::Identity(3, 3)); }
    prob->addErrorTerm(err.back()->term(), false);
  }
  // a variable of its own that is at its best from the start, so that its steps are zero
  if (structure % 5 < 2) {
    dv.push_back(boost::make_shared<VecDv>(1, 90 + structure)); dv.back()->setActive(true); if (kind == 7) dv.back()->setMarginalized(nd > 1 && !(inactive && nd == 2));
    prob->addDesignVariable(dv.back().get(), false);
    ErrModel m({dv.back().get()}, 3, 300 + structure, 0); m.c = -m.lin(); err.push_back(makeErr(m, structure % 2)); prob->addErrorTerm(err.back()->term(), false);
  }
  auto cost = [&](VectorXd* grad, MatrixXd* H) {
    double c = 0; int n = 0; std::map<VecDv*, int> col; for (auto& d : dv) if (d->isActive()) { col[d.get()] = n; n += d->v.size(); }
    if (grad) grad->setZero(n); if (H) H->setZero(n, n);
    for (auto& e : err) {
      VectorXd r = e->S().transpose() * e->m.error(); c += r.squaredNorm();
      MatrixXd J = MatrixXd::Zero(r.size(), n);
      for (size_t i = 0; i < e->m.dv.size(); ++i) if (e->m.dv[i]->isActive()) J.middleCols(col[e->m.dv[i]], e->m.dv[i]->v.size()) = e->S().transpose() * e->m.jac(i);
      if (grad) *grad += J.transpose() * r; if (H) *H += J.transpose() * J;
    }
    return c;
  };
  VectorXd g; MatrixXd H;
  cost(&g, &H);
  Eigen::JacobiSVD<MatrixXd> svd(H);
  if (svd.singularValues().minCoeff() < 1e-4 * svd.singularValues().maxCoeff()) { noteAdd("singular problems"); return; }
  VectorXd fixedBefore = dv[0]->v;
  double J0 = cost(0, 0);
  static const char* names[] = {"lm/block_cholesky", "lm/dense_qr", "dogleg/block_cholesky", "dogleg/dense_qr", "dogleg/sparse_qr", "gn/block_cholesky", "old-lm", "old-schur", "old-dogleg", "gn/sparse_qr"};
  std::string who = names[kind];
  SolutionReturnValue r;
  if (kind < 6 || kind == 9) {
    Optimizer2Options o; o.maxIterations = 200; o.convergenceDeltaJ = 0; o.convergenceDeltaX = 1e-10; o.nThreads = 1; o.doSchurComplement = false;
    if (kind == 0 || kind == 2 || kind == 5) o.linearSystemSolver = boost::make_shared<BlockCholeskyLinearSystemSolver>();
    else if (kind == 1 || kind == 3) o.linearSystemSolver = boost::make_shared<DenseQrLinearSystemSolver>();
    else o.linearSystemSolver = boost::make_shared<SparseQrLinearSystemSolver>();
    if (kind < 2) o.trustRegionPolicy = boost::make_shared<LevenbergMarquardtTrustRegionPolicy>();
    else if (kind < 5) o.trustRegionPolicy = boost::make_shared<DogLegTrustRegionPolicy>();
    else o.trustRegionPolicy = boost::make_shared<GaussNewtonTrustRegionPolicy>();
    Optimizer2 opt(o); opt.setProblem(prob); r = opt.optimize();
  } else {
    OptimizerOptions o; o.maxIterations = 200; o.convergenceDeltaJ = 0; o.convergenceDeltaX = 1e-10; o.doSchurComplement = kind == 7;
    Optimizer opt(o); opt.setProblem(prob); r = kind == 8 ? opt.optimizeDogLeg() : opt.optimize();
  }
  transition(r.iterations);
  double J1 = cost(&g, &H);
  // Gauss-Newton steps alone may diverge on the curved problems.
  if (q == 0 || (kind != 5 && kind != 9)) {
    VectorXd gn = H.ldlt().solve(g);
    expect(gn.norm() < 1e-5 * (1 + J0), who + "/minimum", fmt("a step of length %g is left after %d iterations (%d failed), cost %g to %g", gn.norm(), r.iterations, r.failedIterations, J0, J1));
    expect(J1 <= J0 * (1 + 1e-12), who + "/increased", fmt("%g to %g", J0, J1));
  }
  expectNear(r.JFinal, J1, 1e-9, who + "/JFinal", fmt("%d iterations", r.iterations));
  if (inactive) expect(dv[0]->v == fixedBefore, who + "/inactive-touched", "");
  nontrivial(hashStr(fmt("%s %d %.17g", who.c_str(), structure, J1)));
}

int main(int argc, char** argv) {
  init(argc, argv);
  std::vector<Config> cs;
  int D = thorough() ? 7 : 5;
  for (int p = 0; p < 3; ++p) for (int s = 0; s < 3; ++s) {
    if (p == 0 && s == 2) continue;  // sparse_qr takes no conditioner
    for (int dvs : {1, 2}) {
      cs.push_back({p, s, dvs, D, 1, 1e-12, 1e-12, false, 6, 1});
      cs.push_back({p, s, dvs, D - 1, 1, 1e-12, 1e-12, true, 5, 1});
      cs.push_back({p, s, dvs, D - 1, 2, 1e-12, 0.3, true, 4, 1});     // stops by the change of the cost
      cs.push_back({p, s, dvs, D - 1, 1, 0.5, 1e-12, true, 4, 1});     // stops by the length of the step
      cs.push_back({p, s, dvs, 2, 1, 1e-12, 1e-12, true, 4, 2});       // a second optimization
    }
    cs.push_back({p, s, 2, thorough() ? 9 : 8, 1, 1e-12, 1e-12, false, 3, 1});
    cs.push_back({p, s, 2, thorough() ? 8 : 6, 1, 1e-12, 1e-12, true, 2, 1});
  }
  for (size_t i = 0; i < cs.size(); ++i) {
    const Config k = cs[i];
    std::string base = fmt("optimizer2 %s %s dvs %d max %d dx %g dj %g fail %d costs %d runs %d threads %d", POL[k.policy], SOL[k.solver], k.dvs, k.maxIter, k.cdx, k.cdj, k.canFail, k.nCosts, k.runs, k.nThreads);
    run(base, [&] {
      Chooser c; int n = 0;
      do {
        if (k.policy == 0) run1<LevenbergMarquardtTrustRegionPolicy>(k, c);
        else if (k.policy == 1) run1<DogLegTrustRegionPolicy>(k, c);
        else run1<GaussNewtonTrustRegionPolicy>(k, c);
        if (++n % 256 == 0) beat();
        if (tooMany()) break;
      } while (c.next());
      noteAdd("choice sequences", n);
    });
  }
  for (int dl = 0; dl < 2; ++dl) for (int lm = 0; lm < 2; ++lm) for (int f = 0; f < 2; ++f) {
    if (dl && !lm) continue;
    run(fmt("optimizer dogleg %d lm %d fail %d", dl, lm, f), [&] {
      Chooser c; int n = 0;
      do { runOld(dl, lm, f, f ? D - 1 : D, f ? 4 : 5, c); if (++n % 256 == 0) beat(); if (tooMany()) break; } while (c.next());
      noteAdd("choice sequences", n);
    });
  }
  for (int kind = 0; kind < 10; ++kind) for (int s = 0; s < (thorough() ? 480 : 96); ++s) run(fmt("real %d %d", kind, s), [&] { real(kind, s); });
  return finish();
}

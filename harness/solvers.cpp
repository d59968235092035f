// Linear system solvers of aslam_backend: every solver, for all small problem
// structures and all short histories of building and solving, gives the
// solution of the (conditioned) normal equations of the system last built.
#include "vmc.hpp"
#include "backend_common.hpp"
#include <aslam_backend/backend/BlockCholeskyLinearSystemSolver.hpp>
#include <aslam_backend/backend/SparseCholeskyLinearSystemSolver.hpp>
#include <aslam_backend/backend/SparseQrLinearSystemSolver.hpp>
#include <aslam_backend/backend/DenseQrLinearSystemSolver.hpp>
#include <aslam_backend/backend/Matrix.hpp>
#include <aslam_backend/backend/SparseBlockMatrixWrapper.hpp>
using namespace vmc;
using namespace aslam::backend;
using Eigen::MatrixXd;
using Eigen::VectorXd;

struct Structure {
  std::vector<int> dims;    // of the design variables
  unsigned inactive = 0;    // mask
  std::vector<int> edim;    // of the error terms
  std::vector<unsigned> sub; // mask of the design variables of each
  int variant = 0;           // weights, scaling, ordering
  std::string str() const {
    std::string s = "dv";
    for (size_t i = 0; i < dims.size(); ++i) s += fmt("%s%d%s", i ? "," : " ", dims[i], inactive >> i & 1 ? "i" : "");
    s += " err";
    for (size_t i = 0; i < edim.size(); ++i) s += fmt("%s%d:%u", i ? "," : " ", edim[i], sub[i]);
    return s + fmt(" v%d", variant);
  }
};

struct Problem {
  std::vector<boost::shared_ptr<VecDv> > dv;
  std::vector<boost::shared_ptr<ErrAccess> > err;
  std::vector<DesignVariable*> act;
  std::vector<ErrorTerm*> terms;
  int cols = 0, rows = 0;
  std::vector<VectorXd> x0;
  Problem(const Structure& s) {
    for (size_t i = 0; i < s.dims.size(); ++i) {
      dv.push_back(boost::make_shared<VecDv>(s.dims[i], i));
      dv[i]->setActive(!(s.inactive >> i & 1));
      if (s.variant & 1) dv[i]->setScaling(i == 0 ? 2.0 : i == 1 ? 0.5 : 1.0);
      if (s.inactive >> i & 1) { dv[i]->setBlockIndex(i ? 0 : -1); dv[i]->setColumnBase(i ? 0 : -1); }  // stale indices of an earlier problem
      x0.push_back(dv[i]->v);
    }
    std::vector<int> order;
    for (size_t i = 0; i < dv.size(); ++i) order.push_back((s.variant & 2) ? dv.size() - 1 - i : i);
    int bi = 0;
    for (int i : order) if (dv[i]->isActive()) {
      dv[i]->setBlockIndex(bi++); dv[i]->setColumnBase(cols); cols += s.dims[i];
      act.push_back(dv[i].get());
    }
    for (size_t e = 0; e < s.edim.size(); ++e) {
      std::vector<VecDv*> d;
      for (size_t i = 0; i < dv.size(); ++i) if (s.sub[e] >> i & 1) d.push_back(dv[i].get());
      if (s.variant & 4) { std::reverse(d.begin(), d.end()); }
      ErrModel m(d, s.edim[e], 100 + e, 0.3);
      err.push_back(makeErr(m, e % 2 == 0));
      ErrorTerm* t = err[e]->term();
      if (s.variant & 1) {
        MatrixXd L = genMat(s.edim[e], s.edim[e], 50 + e);
        t->vsSetInvR(L * L.transpose() + MatrixXd::Identity(s.edim[e], s.edim[e]));
      }
      if (s.variant & 2) { if (e == 0) t->setMEstimatorPolicy(boost::make_shared<CauchyMEstimator>(0.7)); else if (e == 1) t->setMEstimatorPolicy(boost::make_shared<HuberMEstimator>(0.2)); }
      t->setRowBase(rows); rows += s.edim[e];
      terms.push_back(t);
    }
  }
  void state(int k) { for (size_t i = 0; i < dv.size(); ++i) dv[i]->v = x0[i] + 0.4 * k * genMat(x0[i].size(), 1, 900 + i, k); }
  double weight(size_t e, double sq) const { return err[e]->term()->getMEstimatorWeight(sq); }
  void reference(bool mest, MatrixXd& J, VectorXd& r, double& cost) {
    J.setZero(rows, cols); r.setZero(rows); cost = 0;
    int row = 0;
    for (size_t e = 0; e < err.size(); ++e) {
      ErrAccess& a = *err[e];
      VectorXd w = a.S().transpose() * a.m.error();
      double sq = w.squaredNorm(), we = weight(e, sq);
      cost += we * sq;
      double s = mest ? std::sqrt(we) : 1.0;
      r.segment(row, w.size()) = -s * w;
      for (size_t i = 0; i < a.m.dv.size(); ++i) if (a.m.dv[i]->isActive())
        J.block(row, a.m.dv[i]->columnBase(), w.size(), a.m.dv[i]->v.size()) += s * a.m.dv[i]->scaling() * a.S().transpose() * a.m.jac(i);
      row += w.size();
    }
  }
};

static const char* SOLVERS[] = {"dense_qr", "sparse_qr", "sparse_cholesky", "block_cholesky", "block_spqr"};
static boost::shared_ptr<LinearSystemSolver> make(int k) {
  switch (k) {
    case 0: return boost::make_shared<DenseQrLinearSystemSolver>();
    case 1: return boost::make_shared<SparseQrLinearSystemSolver>();
    case 2: return boost::make_shared<SparseCholeskyLinearSystemSolver>();
    case 3: return boost::make_shared<BlockCholeskyLinearSystemSolver>("cholesky");
    default: return boost::make_shared<BlockCholeskyLinearSystemSolver>("spqr");
  }
}

struct Silence {  // the solvers print failures
  std::streambuf* b; std::ostringstream o;
  Silence() { b = std::cout.rdbuf(o.rdbuf()); }
  ~Silence() { std::cout.rdbuf(b); }
};

static bool matNear(const MatrixXd& a, const MatrixXd& b, double tol) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  return a.size() == 0 || (a - b).cwiseAbs().maxCoeff() <= tol * (1 + b.cwiseAbs().maxCoeff());
}
static std::string str(const MatrixXd& m) { std::ostringstream o; o.precision(12); o << m; std::string s = o.str(); for (char& c : s) if (c == '\n') c = ';'; return s; }

// Operations: 'B','b': evaluate and build at state 0, 1 with M-estimators; 'N': state 1 without
// 'E': evaluate at a trial state and step back; 'I': initialize again
// 'J': initialize with another problem (and back)
// '0','1','2': solve with constant conditioner 0, 0.1, 3; 'V': solve with a vector conditioner
// 'S': solve with the conditioner as it is
static Structure other(const Structure& s) {  // another layout, of the same number of columns
  Structure o = s;
  std::reverse(o.dims.begin(), o.dims.end());
  o.inactive = 0;
  if (o.dims.size() > 1 && o.dims[0] == o.dims.back()) { o.dims[0] += o.dims.back(); o.dims.pop_back(); }
  o.edim = {3, 1, 2};
  unsigned all = (1u << o.dims.size()) - 1;
  o.sub = {all, 1, all & ~1u ? all & ~1u : 1u};
  o.variant = (s.variant + 1) % 8;
  return o;
}
static void history(const Structure& s, int solverKind, bool diag, const std::string& ops, int nThreads) {
  Problem first(s); boost::shared_ptr<Problem> second;
  Problem* cur = &first;
#define p (*cur)
  Silence quiet;
  boost::shared_ptr<LinearSystemSolver> sol = make(solverKind);
  sol->initMatrixStructure(p.act, p.terms, diag);
  std::string who = SOLVERS[solverKind];
  MatrixXd J, H; VectorXd r, rhs, cond = VectorXd::Zero(p.cols); double cost = 0;
  MatrixXd Jlast; VectorXd rNow; double c2;
  bool built = false, fresh = false;
  expect((int)sol->JRows() == p.rows && (int)sol->JCols() == p.cols, who + "/size", fmt("%zu x %zu", sol->JRows(), sol->JCols()));
  int step = 0;
  for (char op : ops) {
    ++step; transition();
    std::string at = fmt("after %s", ops.substr(0, step).c_str());
    if (op == 'I') { sol->initMatrixStructure(p.act, p.terms, diag); built = false; fresh = false; cond = VectorXd::Zero(p.cols); continue; }
    if (op == 'J') {
      if (!second) second = boost::make_shared<Problem>(other(s));
      cur = cur == &first ? second.get() : &first;
      sol->initMatrixStructure(p.act, p.terms, diag); built = false; fresh = false; cond = VectorXd::Zero(p.cols);
      expect((int)sol->JRows() == p.rows && (int)sol->JCols() == p.cols, who + "/size", at + fmt(" %zu x %zu", sol->JRows(), sol->JCols()));
      continue;
    }
    if (op == 'E') {
      p.state(3);
      double got = sol->evaluateError(nThreads, true);
      p.reference(true, Jlast, rNow, c2);
      expectNear(got, c2, 1e-12, who + "/cost", at);
      expect(matNear(sol->e(), rNow, 1e-12), who + "/e", at + " got " + str(sol->e().transpose()) + " expected " + str(rNow.transpose()));
      p.state(0);
      fresh = true;
      continue;
    }
    if (op == 'B' || op == 'b' || op == 'N') {
      bool mest = op != 'N';
      p.state(op == 'B' ? 0 : 1);
      double got = sol->evaluateError(nThreads, mest);
      sol->buildSystem(nThreads, mest);
      p.reference(mest, J, r, cost);
      rhs = J.transpose() * r; H = J.transpose() * J;
      built = true;
      expectNear(got, cost, 1e-12, who + "/cost", at);
      expect(matNear(sol->e(), r, 1e-12), who + "/e", at + " got " + str(sol->e().transpose()) + " expected " + str(r.transpose()));
      expect(matNear(sol->rhs(), rhs, 1e-11), who + "/rhs", at + " got " + str(sol->rhs().transpose()) + " expected " + str(rhs.transpose()));
      expectNear(sol->rhsJtJrhs(), rhs.dot(H * rhs), 1e-10, who + "/rhsJtJrhs", at);
      if (sol->Jacobian()) {
        MatrixXd G; sol->Jacobian()->toDenseInto(G);
        expect(matNear(G, J, 1e-12), who + "/jacobian", at + " got " + str(G) + " expected " + str(J));
      }
      if (sol->Hessian()) {
        MatrixXd G; sol->Hessian()->toDenseInto(G);
        MatrixXd up = H; for (int i = 0; i < up.rows(); ++i) for (int j = 0; j < i; ++j) up(i, j) = G(i, j);  // the upper triangle is the one used
        expect(matNear(G, up, 1e-11), who + "/hessian", at + " got " + str(G) + " expected " + str(H));
      }
      if (solverKind == 1) {
        SparseQrLinearSystemSolver* q = static_cast<SparseQrLinearSystemSolver*>(sol.get());
        MatrixXd G; q->getJacobianTranspose().toDenseInto(G);
        expect(matNear(G, J.transpose(), 1e-12), who + "/jacobian", at + " got " + str(G) + " expected " + str(J.transpose()));
      }
      state(who + str(H) + str(rhs.transpose()));
      continue;
    }
    if (!built) continue;
    VectorXd c = op == 'S' ? cond : op == '0' ? VectorXd::Zero(p.cols) : VectorXd::Constant(p.cols, op == '1' ? 0.1 : 3.0);
    if (op == 'V') { for (int i = 0; i < p.cols; ++i) c[i] = 0.5 + 0.25 * i; sol->setConditioner(c); }
    else if (op != 'S') sol->setConstantConditioner(c[0]);
    cond = c;
    VectorXd dx;
    bool ok = sol->solveSystem(dx);
    MatrixXd A = H;
    if (diag && solverKind != 1) A.diagonal() += c.cwiseProduct(c);
    Eigen::JacobiSVD<MatrixXd> svd(A, Eigen::ComputeThinU | Eigen::ComputeThinV);
    double lo = svd.singularValues().minCoeff(), hi = svd.singularValues().maxCoeff();
    sawValue("solved", std::string(who) + (ok ? " true" : " false"));
    if (lo > 1e-7 * hi) {
      VectorXd x = svd.solve(rhs);
      nontrivial(hashStr(who + str(x.transpose()) + str(c.transpose())));
      expect(ok, who + "/fails", at + fmt(" conditioner %g: a regular system was not solved", c[0]));
      if (ok) expect(matNear(dx, x, 1e-6), who + "/solution", at + fmt(" conditioner %g got ", c[0]) + str(dx.transpose()) + " expected " + str(x.transpose()));
      if (ok && solverKind == 1) {
        SparseQrLinearSystemSolver* q = static_cast<SparseQrLinearSystemSolver*>(sol.get());
        expect((int)q->getRank() == p.cols, who + "/rank", at);
      }
    } else noteAdd("singular systems");
    // Solving again gives the same (nothing is used up).
    if (ok && lo > 1e-7 * hi) { VectorXd d2; bool ok2 = sol->solveSystem(d2); expect(ok2 && matNear(d2, dx, 1e-9), who + "/repeat", at); }
    expect(matNear(sol->rhs(), rhs, 1e-11), who + "/rhs", at + " (after solving)");
    if (solverKind == 3 && diag && lo > 1e-7 * hi) {
      // Covariance blocks of the conditioned system.
      BlockCholeskyLinearSystemSolver* b = static_cast<BlockCholeskyLinearSystemSolver*>(sol.get());
      SparseBlockMatrix P; std::vector<std::pair<int, int> > idx;
      int n = p.act.size();
      for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) idx.push_back(std::make_pair(i, j));
      b->computeCovarianceBlocks(idx, P);
      MatrixXd inv = A.inverse();
      for (auto& ij : idx) {
        const MatrixXd* blk = P.block(ij.first, ij.second);
        DesignVariable *a = p.act[ij.first], *d = p.act[ij.second];
        MatrixXd want = inv.block(a->columnBase(), d->columnBase(), a->minimalDimensions(), d->minimalDimensions());
        expect(blk && matNear(*blk, want, 1e-6), who + "/covariance", at + fmt(" block %d,%d ", ij.first, ij.second) + (blk ? str(*blk) : "none") + " expected " + str(want));
      }
    }
  }
}

#undef p

static void forStructures(const std::function<void(const Structure&)>& f) {
  for (int nd = 1; nd <= 3; ++nd) {
    int dmax = nd == 3 ? 2 : 3, nsub = (1 << nd) - 1;
    for (int ne = 1; ne <= (nd == 3 ? (thorough() ? 3 : 2) : 3); ++ne) {
      int emax = ne == 3 ? 2 : 3;
      std::vector<int> d(nd, 1);
      for (;;) {
        for (unsigned in = 0; in + 1 < (1u << nd); ++in) {
          if (__builtin_popcount(in) > 1) continue;
          std::vector<int> code(ne, 0);
          for (;;) {
            Structure s; s.dims = d; s.inactive = in;

            bool skip = false;  // an error term without active design variables is refused
            for (int c : code) { s.edim.push_back(1 + c % emax); s.sub.push_back(1 + c / emax); if ((s.sub.back() & ~in) == 0) skip = true; }
            if (!skip) f(s);
            int k = ne - 1;
            while (k >= 0 && code[k] == nsub * emax - 1) code[k--] = 0;
            if (k < 0) break;
            ++code[k];
            for (int j = k + 1; j < ne; ++j) code[j] = (nd == 3 || ne == 3) ? code[k] : 0;  // multisets where there are many
          }
        }
        int k = nd - 1;
        while (k >= 0 && d[k] == dmax) d[k--] = 1;
        if (k < 0) break;
        ++d[k];
      }
    }
  }
}

int main(int argc, char** argv) {
  init(argc, argv);
  // All structures, one history each per solver.
  size_t n = 0;
  forStructures([&](const Structure& s0) {
    if (tooMany()) return;
    Structure s = s0; s.variant = n % 8; int nt = 1 + n % 3; ++n;
    for (int k = 0; k < 5; ++k) for (int diag = 0; diag < 2; ++diag) {
      if (k == 1 && diag) continue;
      std::string ops = diag ? "BS1021SVbSE2V0IB1N2JBS1NVJbS2" : "B0Eb0N0IB0JBS0JN0";
      run(fmt("%s | %s%s threads %d | %s", s.str().c_str(), SOLVERS[k], diag ? " conditioned" : "", nt, ops.c_str()), [&] { history(s, k, diag, ops, nt); });
    }
  });
  note("structures", n);
  // Some structures, all histories.
  std::vector<Structure> some;
  { Structure s; s.dims = {2, 1}; s.edim = {2, 2}; s.sub = {3, 1}; s.variant = 3; some.push_back(s); }
  { Structure s; s.dims = {1, 2, 1}; s.inactive = 2; s.edim = {3, 1}; s.sub = {7, 4}; s.variant = 1; some.push_back(s); }
  { Structure s; s.dims = {2, 2}; s.edim = {2}; s.sub = {3}; s.variant = 0; some.push_back(s); }  // singular
  const std::string alphabet = "BbNEIJ01VS";
  for (auto& s : some) for (int k = 0; k < 5; ++k) for (int diag = 0; diag < 2; ++diag) {
    if (k == 1 && diag) continue;
    int depth = thorough() ? (&s == &some[0] ? 6 : 5) : &s == &some[0] ? 4 : 3;
    std::vector<int> c(depth, 0);
    for (;;) {
      std::string ops = "B";
      for (int x : c) ops += alphabet[x];
      run(fmt("%s | %s%s threads 2 | %s", s.str().c_str(), SOLVERS[k], diag ? " conditioned" : "", ops.c_str()), [&] { history(s, k, diag, ops, 1); });
      int i = depth - 1;
      while (i >= 0 && c[i] == (int)alphabet.size() - 1) c[i--] = 0;
      if (i < 0) break;
      ++c[i];
      if (tooMany()) break;
    }
  }
  return finish();
}

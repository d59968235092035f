// Threaded evaluation of error terms and Jacobians: under every schedule it
// does what the serial one does, exceptions included.
#include <Eigen/Dense>
#include <boost/thread.hpp>
#include <boost/make_shared.hpp>
#include <iostream>
#include <sstream>
#include <vector>
#include <set>
#include <map>
#define private public
#define protected public
#include <aslam_backend/backend/SparseQrLinearSystemSolver.hpp>
#include <aslam_backend/backend/DenseQrLinearSystemSolver.hpp>
#include <aslam_backend/backend/BlockCholeskyLinearSystemSolver.hpp>
#undef private
#undef protected
#include "vsched.hpp"
#include "backend_common.hpp"
using namespace vmc;
using namespace aslam::backend;
using Eigen::MatrixXd;
using Eigen::VectorXd;

static std::string problem;
static void bad(const std::string& s) { if (problem.empty()) problem = s; }
static std::vector<int> evals, jacs;   // calls by error term
static std::string order;

struct Boom : public std::runtime_error { int code; Boom(int c, const std::string& s) : std::runtime_error(s), code(c) {} };
struct Odd { int code; };  // not a std::exception
struct Term : public ErrDs {
  int id, boom = 0;  // 1, 2: throws while evaluating; 3, 4: in the Jacobians; even ones are no std::exception
  Term(const ErrModel& m, int i) : ErrDs(m), id(i) {}
  double evaluateErrorImplementation() override {
    ++evals[id]; vsched::point(); order += (char)('a' + id);
    if (boom == 1) throw Boom(id, "evaluation"); if (boom == 2) throw Odd{id};
    return ErrDs::evaluateErrorImplementation();
  }
  void evaluateJacobiansImplementation(JacobianContainer& J) const override {
    ++jacs[id]; vsched::point(); order += (char)('A' + id);
    if (boom == 3) throw Boom(id, "jacobian"); if (boom == 4) throw Odd{id};
    ErrDs::evaluateJacobiansImplementation(J);
  }
};
struct Problem {
  std::vector<boost::shared_ptr<VecDv> > dv; std::vector<boost::shared_ptr<Term> > term;
  std::vector<DesignVariable*> d; std::vector<ErrorTerm*> t; int rows = 0;
  Problem(int n) {
    int cols = 0;
    for (int i = 0; i < 2; ++i) { dv.push_back(boost::make_shared<VecDv>(1 + i, i)); dv[i]->setActive(true); dv[i]->setBlockIndex(i); dv[i]->setColumnBase(cols); cols += 1 + i; d.push_back(dv[i].get()); }
    auto pol = boost::make_shared<CauchyMEstimator>(0.5);  // shared by the terms
    for (int i = 0; i < n; ++i) {
      std::vector<VecDv*> x; if (i != 1) x.push_back(dv[0].get()); if (i != 2) x.push_back(dv[1].get());
      term.push_back(boost::make_shared<Term>(ErrModel(x, 1 + i % 2, 60 + i, 0.2), i));
      term[i]->setMEstimatorPolicy(pol);
      term[i]->setRowBase(rows); rows += 1 + i % 2; t.push_back(term[i].get());
    }
  }
};
struct Out { double cost = 0; VectorXd e, rhs; MatrixXd J; std::string exc; bool operator==(const Out& o) const {
  return e == o.e && rhs == o.rhs && J == o.J && std::fabs(cost - o.cost) <= 1e-14 * std::fabs(o.cost) && exc == o.exc; } };

static Out use(LinearSystemSolver& s, int kind, int nThreads) {
  Out o;
  try {
    o.cost = s.evaluateError(nThreads, true);
    o.e = s.e();
    s.buildSystem(nThreads, true);
    o.rhs = s.rhs();
    if (kind == 0) o.J = static_cast<DenseQrLinearSystemSolver&>(s)._J._M;
    if (kind == 1) static_cast<SparseQrLinearSystemSolver&>(s).getJacobianTranspose().toDenseInto(o.J);
  } catch (const Boom& b) { o = Out(); o.exc = fmt("Boom %d %s", b.code, b.what()); }
  catch (const Odd& b) { o = Out(); o.exc = fmt("Odd %d", b.code); }
  catch (const std::exception& b) { o = Out(); o.exc = std::string("std::exception ") + b.what(); }
  return o;
}
static boost::shared_ptr<LinearSystemSolver> make(int k) {
  if (k == 0) return boost::make_shared<DenseQrLinearSystemSolver>();
  if (k == 1) return boost::make_shared<SparseQrLinearSystemSolver>();
  return boost::make_shared<BlockCholeskyLinearSystemSolver>();
}
int main(int argc, char** argv) {
  init(argc, argv);
  bool th = thorough();
  vsched::delayBounding(true);
  bool first = true;
  for (int kind = 0; kind < 3; ++kind)
    for (int n = 0; n <= (th ? 5 : 4); ++n)
      for (int nt = 2; nt <= (th ? 5 : 4); ++nt)
        for (int boom = 0; boom <= 4; ++boom)
          for (int who = 0; who < (boom ? 1 << n : 1); ++who) {
            if (boom && (who == 0 || (!th && __builtin_popcount(who) > 2) || (kind == 2 && boom > 2))) continue;
            if (n == 0 && kind != 0) continue;
            if (!th && boom && nt == 4 && n == 4 && kind) continue;
            std::string name = fmt("solver %d terms %d threads %d throw %d by %x", kind, n, nt, boom, who);
            evals.assign(n, 0); jacs.assign(n, 0);
            Problem ref(n);
            auto rs = make(kind); rs->initMatrixStructure(ref.d, ref.t, false);
            for (int i = 0; i < n; ++i) ref.term[i]->boom = who >> i & 1 ? boom : 0;
            Out want = use(*rs, kind, 1);
            for (auto& t : ref.term) t->boom = 0;
            Out good = use(*rs, kind, 1);
            auto body = [&] {
              problem.clear(); order.clear();
              evals.assign(n, 0); jacs.assign(n, 0);
              Problem p(n);
              auto s = make(kind); s->initMatrixStructure(p.d, p.t, false);
              use(*s, kind, 1);  // makes the buffers
              s->_threadLocalErrors.reserve(16);
              vsched::watch(s->_threadLocalErrors.data(), 16 * sizeof(double), "_threadLocalErrors");
              vsched::watch(s->_e.data(), s->_e.size() * sizeof(double), "_e");
              if (kind == 0) vsched::watch(static_cast<DenseQrLinearSystemSolver&>(*s)._J._M.data(), static_cast<DenseQrLinearSystemSolver&>(*s)._J._M.size() * sizeof(double), "J");
              if (kind == 1) { auto& v = static_cast<SparseQrLinearSystemSolver&>(*s)._jacobianBuilder._J_transpose._values; vsched::watch(v.data(), v.size() * sizeof(double), "J"); }
              evals.assign(n, 0); jacs.assign(n, 0);
              s->_e.setConstant(7); order.clear();
              for (int i = 0; i < n; ++i) p.term[i]->boom = who >> i & 1 ? boom : 0;
              Out got = use(*s, kind, nt);
              if (!(got == want)) bad("the threaded evaluation differs from the serial one: exception '" + got.exc + "' instead of '" + want.exc + "'" + fmt(", cost %.17g instead of %.17g", got.cost, want.cost));
              for (int i = 0; i < n; ++i) {
                bool f = boom == 0;
                if (evals[i] > 1 || jacs[i] > 1 || (f && (evals[i] != 1 || jacs[i] != 1))) bad(fmt("term %d was evaluated %d times and its Jacobians %d times", i, evals[i], jacs[i]));
              }
              // The solver is usable after an exception.
              if (boom) { for (auto& t : p.term) t->boom = 0; Out again = use(*s, kind, nt); if (!(again == good)) bad("wrong results after an exception: '" + again.exc + "'"); }
            };
            vsched::warm(body);
            vsched::explore(name, th ? (nt * n <= 9 ? 3 : 2) : (boom ? 1 : 2), body, [&] {
              std::string race = vsched::raceFound();
              if (!race.empty()) fail("race: " + race.substr(0, race.find(' ')), name + ": " + race);
              if (!problem.empty()) fail("evaluation: " + problem.substr(0, problem.find(':')), name + ": " + problem);
              nontrivial(hashStr(name + order)); state(name + order);
            }, th ? 100000 : 20000);
          }
  return finish();
}

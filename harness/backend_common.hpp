// Design variables and error terms for the aslam_backend harnesses.
#ifndef BACKEND_COMMON_HPP
#define BACKEND_COMMON_HPP
#include <Eigen/Dense>
#include <boost/make_shared.hpp>
#include <aslam_backend/backend/DesignVariable.hpp>
#include <aslam_backend/backend/ErrorTerm.hpp>
#include <aslam_backend/backend/ErrorTermDs.hpp>
#include <aslam_backend/backend/MEstimatorPolicies.hpp>

// Fixed generic numbers in (-1, 1).
inline double gen(unsigned a, unsigned b = 0, unsigned c = 0, unsigned d = 0) {
  uint64_t h = 0x9e3779b97f4a7c15ull * (a + 1) + 0xc2b2ae3d27d4eb4full * (b + 1) + 0x165667b19e3779f9ull * (c + 1) + 0x27d4eb2f165667c5ull * (d + 1);
  h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33;
  return ((double)(h >> 11) / 4503599627370496.0) - 1.0;
}
inline Eigen::MatrixXd genMat(int r, int c, unsigned a, unsigned b = 0) {
  Eigen::MatrixXd m(r, c);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = gen(a, b, i, j);
  return m;
}

struct VecDv : public aslam::backend::DesignVariable {
  Eigen::VectorXd v, pv;
  int updates = 0, reverts = 0;
  VecDv(int n, unsigned seed) : v(genMat(n, 1, seed, 77)), pv(v) {}
  void revertUpdateImplementation() override { v = pv; ++reverts; }
  void updateImplementation(const double* dp, int n) override {
    pv = v; ++updates;
    for (int i = 0; i < n; ++i) v[i] += dp[i];
  }
  int minimalDimensionsImplementation() const override { return v.size(); }
  void getParametersImplementation(Eigen::MatrixXd& o) const override { o = v; }
  void setParametersImplementation(const Eigen::MatrixXd& o) override { pv = v; v = o; }
  void minimalDifferenceImplementation(const Eigen::MatrixXd& x, Eigen::VectorXd& o) const override { o = v - Eigen::VectorXd(x); }
  void minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& x, Eigen::VectorXd& o, Eigen::MatrixXd& J) const override {
    o = v - Eigen::VectorXd(x); J.setIdentity(v.size(), v.size());
  }
};

// e = c + sum_i A_i x_i + q (sum_i A_i x_i)^2 (by component)
struct ErrModel {
  std::vector<VecDv*> dv;
  std::vector<Eigen::MatrixXd> A;
  Eigen::VectorXd c; double q = 0;
  Eigen::VectorXd lin() const {
    Eigen::VectorXd s = Eigen::VectorXd::Zero(c.size());
    for (size_t i = 0; i < dv.size(); ++i) s += A[i] * dv[i]->v;
    return s;
  }
  Eigen::VectorXd error() const { Eigen::VectorXd s = lin(); return c + s + q * s.cwiseProduct(s); }
  Eigen::MatrixXd jac(size_t i) const {
    Eigen::VectorXd s = lin(), d = Eigen::VectorXd::Ones(c.size()) + 2 * q * s;
    return d.asDiagonal() * A[i];
  }
  ErrModel() {}
  ErrModel(const std::vector<VecDv*>& d, int dim, unsigned seed, double quad) : dv(d), c(genMat(dim, 1, seed, 5)), q(quad) {
    for (size_t i = 0; i < d.size(); ++i) A.push_back(genMat(dim, d[i]->v.size(), seed, 11 + i));
  }
};
struct ErrAccess {
  ErrModel m;
  int throwAt = 0;  // 1: evaluateError throws, 2: the Jacobians
  virtual ~ErrAccess() {}
  virtual Eigen::MatrixXd S() const = 0;  // square root of the inverse covariance
  virtual aslam::backend::ErrorTerm* term() = 0;
};
struct TestError : public std::runtime_error { TestError(const std::string& s) : std::runtime_error(s) {} };

struct ErrDs : public aslam::backend::ErrorTermDs, public ErrAccess {
  ErrDs(const ErrModel& mm) : ErrorTermDs(mm.c.size()) {
    m = mm;
    std::vector<aslam::backend::DesignVariable*> d(m.dv.begin(), m.dv.end());
    setDesignVariables(d);
  }
  void sqrtInvR_(const Eigen::MatrixXd& s) { setSqrtInvR(s); }
  double evaluateErrorImplementation() override {
    if (throwAt == 1) throw TestError("evaluate");
    setError(m.error()); return evaluateChiSquaredError();
  }
  void evaluateJacobiansImplementation(aslam::backend::JacobianContainer& J) const override {
    if (throwAt == 2) throw TestError("jacobian");
    for (size_t i = 0; i < m.dv.size(); ++i) J.add(m.dv[i], m.jac(i));
  }
  Eigen::MatrixXd S() const override { return sqrtInvR(); }
  aslam::backend::ErrorTerm* term() override { return this; }
};
template <int D>
struct ErrFs : public aslam::backend::ErrorTermFs<D>, public ErrAccess {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  ErrFs(const ErrModel& mm) {
    m = mm;
    std::vector<aslam::backend::DesignVariable*> d(m.dv.begin(), m.dv.end());
    this->setDesignVariables(d);
  }
  double evaluateErrorImplementation() override {
    if (throwAt == 1) throw TestError("evaluate");
    this->setError(m.error()); return this->evaluateChiSquaredError();
  }
  void evaluateJacobiansImplementation(aslam::backend::JacobianContainer& J) const override {
    if (throwAt == 2) throw TestError("jacobian");
    for (size_t i = 0; i < m.dv.size(); ++i) J.add(m.dv[i], m.jac(i));
  }
  Eigen::MatrixXd S() const override { return this->sqrtInvR(); }
  aslam::backend::ErrorTerm* term() override { return this; }
};
inline boost::shared_ptr<ErrAccess> makeErr(const ErrModel& m, bool fixed) {
  if (fixed) switch (m.c.size()) {
    case 1: return boost::make_shared<ErrFs<1> >(m);
    case 2: return boost::shared_ptr<ErrAccess>(new ErrFs<2>(m));
    case 3: return boost::make_shared<ErrFs<3> >(m);
  }
  return boost::make_shared<ErrDs>(m);
}
#endif

// Shared by the expression harnesses: numeric derivatives along the updates of
// design variables and comparison with the Jacobians of an expression.
#pragma once
#include <vmc.hpp>
#include <aslam_backend/backend/JacobianContainer.hpp>
#include <aslam_backend/backend/DesignVariable.hpp>
#include <Eigen/Dense>
#include <set>
using namespace vmc; using namespace aslam::backend;
typedef Eigen::Vector3d V3; typedef Eigen::Vector4d V4; typedef Eigen::Matrix3d M3; typedef Eigen::Matrix4d M4; typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX;
typedef DesignVariable* DV;

static inline std::string str(const MX& m) { std::string s; for (int i = 0; i < m.rows(); ++i) { for (int j = 0; j < m.cols(); ++j) s += fmt("%.12g ", m(i, j)); s += "; "; } return s; }
static inline bool close(const MX& a, const MX& b, double tol) {
  return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || ((a - b).allFinite() && ((a - b).cwiseAbs().array() <= tol * (1 + b.cwiseAbs().array())).all()));
}
static inline void near(const MX& a, const MX& b, double tol, const char* key, const std::string& d) {
  if (!close(a, b, tol)) fail(key, d + ": " + str(a) + " instead of " + str(b));
}
static inline MX cross(const V3& v) { M3 m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }
// The rotation of a unit quaternion (vector part first) in the convention of the library: quatOf(v) -> exp(-v x).
static inline M3 rotOf(const V4& q) {
  V3 e = q.head<3>(); return M3::Identity() - 2 * q[3] * cross(e) + 2 * cross(e) * cross(e);
}
static inline VX pseudo(int n, int seed) { VX v(n); for (int i = 0; i < n; ++i) { uint64_t h = mix(seed, i + 1); v[i] = double(h % 20001) / 10000 - 1; } return v; }
static inline MX pseudoM(int r, int c, int seed) { MX m(r, c); VX v = pseudo(r * c, seed); for (int i = 0; i < r * c; ++i) m.data()[i] = v[i]; return m; }
// Derivative of f along each direction of the update of dv at the present value.
template <typename F> MX derivative(DV dv, const F& f, double h = 2e-3) {
  int n = dv->minimalDimensions(); MX J; MX p0; bool params = true;
  for (int k = 0; k < n; ++k) {
    auto at = [&](double s) { VX d = VX::Zero(n); d[k] = s; dv->update(d.data(), n); MX v = f(); dv->revertUpdate(); return VX(Eigen::Map<VX>(v.data(), v.size())); };
    VX d1 = (at(h) - at(-h)) / (2 * h), d2 = (at(2 * h) - at(-2 * h)) / (4 * h), d4 = (at(4 * h) - at(-4 * h)) / (8 * h);
    VX r1 = (4 * d1 - d2) / 3, r2 = (4 * d2 - d4) / 3; VX g = (16 * r1 - r2) / 15;
    if (!k) J.resize(g.size(), n); J.col(k) = g;
  }
  (void)params; (void)p0; return J;
}

// Design variables: all sequences of updates, reverts and parameter changes on
// every kind of design variable against a plain model of its parameters.
#include "expressions_common.hpp"
#include <aslam_backend_expressions/EuclideanPoint.hpp>
#include <aslam_backend_expressions/MappedEuclideanPoint.hpp>
#include <aslam_backend_expressions/EuclideanDirection.hpp>
#include <aslam_backend_expressions/RotationQuaternion.hpp>
#include <aslam_backend_expressions/MappedRotationQuaternion.hpp>
#include <aslam_backend_expressions/HomogeneousPoint.hpp>
#include <aslam_backend_expressions/MappedHomogeneousPoint.hpp>
#include <aslam_backend_expressions/Scalar.hpp>
#include <aslam_backend_expressions/GenericScalar.hpp>
#include <aslam_backend_expressions/MatrixBasic.hpp>
#include <aslam_backend_expressions/DesignVariableVector.hpp>
#include <aslam_backend_expressions/DesignVariableMappedVector.hpp>
#include <aslam_backend_expressions/DesignVariableGenericVector.hpp>
#include <aslam_backend_expressions/DesignVariableUnitQuaternion.hpp>
#include <aslam_backend/backend/DesignVariableAdapter.hpp>
#include <aslam_incremental_calibration/data-structures/VectorDesignVariable.h>
#include <aslam_cameras/cameras.hpp>
// The parameters after an update by d.
typedef std::function<MX(const MX&, const VX&)> Plus;
static MX addV(const MX& p, const VX& d) { MX o = p; for (int i = 0; i < d.size(); ++i) o.data()[i] += d[i]; return o; }
// quaternion of the rotation vector v times q (library convention: vector part first)
static V4 qmul(const V4& a, const V4& b) { V4 r; V3 av = a.head<3>(), bv = b.head<3>(); r.head<3>() = a[3] * bv + b[3] * av - av.cross(bv); r[3] = a[3] * b[3] - av.dot(bv); return r; }
static V4 qexp(const V3& v) { double t = v.norm(); V4 q; q.head<3>() = t < 1e-6 ? V3(v * 0.5) : V3(v / t * sin(t / 2)); q[3] = cos(t / 2); return q; }
static V3 qlogm(V4 q) { double n = q.head<3>().norm(); if (n < 1e-7) return 2 * q.head<3>() * (q[3] < 0 ? -1 : 1); double a = 2 * atan2(n, q[3]); if (a > M_PI) a -= 2 * M_PI; return q.head<3>() / n * a; }
static MX addQ(const MX& p, const VX& d) { return qmul(qexp(V3(d)), V4(p)); }
static M3 aroundY(double a) { M3 m = M3::Identity(); m(0, 0) = m(2, 2) = cos(a); m(0, 2) = sin(a); m(2, 0) = -sin(a); return m; }
static M3 aroundX(double a) { M3 m = M3::Identity(); m(1, 1) = m(2, 2) = cos(a); m(1, 2) = -sin(a); m(2, 1) = sin(a); return m; }
enum Diff { NONE, VECTOR, QUATERNION };
struct Item { std::string name; std::function<std::shared_ptr<DesignVariable>()> make; Plus plus; Diff diff; std::vector<MX> params; bool setReverts = true; double* mapped = nullptr; };
static double mem[16];
struct NoDel { template <typename T> void operator()(T*) const {} };

static void sequences(const Item& it) {
  int depth = thorough() ? 6 : 5;
  std::function<void(std::vector<int>&)> rec = [&](std::vector<int>& ops) {
    auto dv = it.make(); int n = dv->minimalDimensions(); MX cur, prev, p; dv->getParameters(cur); prev = cur; std::string h;
    std::vector<VX> d = {pseudo(n, 5) * 0.3, pseudo(n, 9) * -0.8, VX::Zero(n)}; bool can = true;
    for (int o : ops) {
      if (o < 3) { h += fmt("update%d ", o); dv->update(d[o].data(), n); prev = cur; cur = it.plus(cur, d[o]); can = true; }
      else if (o == 3) { h += "revert "; dv->revertUpdate(); cur = prev; }
      else { size_t k = o - 4; h += fmt("set%zu ", k); dv->setParameters(it.params[k]); prev = cur; cur = it.params[k]; }
      dv->getParameters(p); transition();
      near(p, cur, 1e-13, o == 3 ? "revert" : o < 3 ? "update" : "set-parameters", it.name + ": " + h);
      if (o == 3) { std::string same = close(p, cur, 0) ? "" : "x"; (void)same; }
      cur = p;
      expect(dv->minimalDimensions() == n, "dimensions", it.name + ": " + h);
      if (it.mapped) { MX m = Eigen::Map<MX>(it.mapped, p.rows(), p.cols()); near(m, p, 0, "mapped-memory", it.name + ": " + h); }
      if (it.diff != NONE) for (const MX& x : it.params) {
        VX g; dv->minimalDifference(x, g); VX want = it.diff == VECTOR ? VX(Eigen::Map<const VX>(MX(p - x).data(), n)) : VX(qlogm(qmul(V4(p), [&] { V4 c = x; c.head<3>() *= -1; return c; }())));
        if (it.diff == QUATERNION && V4(p).dot(V4(x)) < 0.05) { // either of the two rotation vectors
          V4 e = qexp(V3(g)), w = qexp(V3(want)); near(e * (e.dot(w) < 0 ? -1 : 1), w, 1e-11, "minimal-difference", it.name + ": " + h); continue; }
        near(g, want, 1e-11, "minimal-difference", it.name + ": " + h);
        VX g2; MX J; dv->minimalDifferenceAndJacobian(x, g2, J); near(g2, g, 0, "minimal-difference", it.name + ": " + h + "with Jacobian");
        auto f = [&]() -> MX { VX e; dv->minimalDifference(x, e); return e; };
        auto dv2 = it.make(); dv2->setParameters(p); auto f2 = [&]() -> MX { MX y; dv2->getParameters(y); if (it.diff == VECTOR) return VX(Eigen::Map<const VX>(MX(y - x).data(), n)); V4 c = x; c.head<3>() *= -1; return qlogm(qmul(V4(y), c)); };
        if (!it.mapped) near(J, derivative(dv2.get(), f2), 1e-6, "minimal-difference-jacobian", it.name + ": " + h);
        else { MX keep = p; MX N; { // same memory: work on the copy only through plus
            N.resize(n, n); for (int k = 0; k < n; ++k) { VX e = VX::Zero(n); auto at = [&](double s) { e[k] = s; MX y = it.plus(keep, e); if (it.diff == VECTOR) return VX(Eigen::Map<const VX>(MX(y - x).data(), n)); V4 c = x; c.head<3>() *= -1; return VX(qlogm(qmul(V4(y), c))); }; N.col(k) = (8 * (at(1e-3) - at(-1e-3)) - (at(2e-3) - at(-2e-3))) / 12e-3; } }
          near(J, N, 1e-6, "minimal-difference-jacobian", it.name + ": " + h); }
      }
    }
    state(it.name + str(p)); nontrivial(hashStr(it.name + h));
  };
  std::function<void(std::vector<int>&)> all = [&](std::vector<int>& ops) {
    if ((int)ops.size() == depth) { rec(ops); return; }
    for (int o = 0; o < 4 + (int)it.params.size(); ++o) { if (tooMany()) return; ops.push_back(o); all(ops); ops.pop_back(); }
  };
  std::vector<int> ops; all(ops);
}
template <typename T> Item adapter(const std::string& name, std::function<boost::shared_ptr<T>()> mk) {
  auto make = [mk]() -> std::shared_ptr<DesignVariable> { auto o = std::make_shared<DesignVariableAdapter<T>>(mk()); return o; };
  MX p; mk()->getParameters(p); MX q = p * 1.1; q.array() += 0.01; return Item{name, make, addV, NONE, {p, q}};
}
int main(int argc, char** argv) {
  init(argc, argv); using std::make_shared; typedef std::shared_ptr<DesignVariable> P;
  V4 qa = qexp(V3(0.3, -0.2, 0.5)), qb = qexp(V3(-0.9, 0.4, 0.1)), id(0, 0, 0, 1); M3 A = pseudoM(3, 3, 3), B = pseudoM(3, 3, 4);
  Eigen::Matrix3i pat; pat << 1, 0, 1, 0, 1, 0, 0, 1, 0;
  std::vector<Item> items = {
    {"Scalar", []() -> P { return make_shared<Scalar>(0.4); }, addV, VECTOR, {MX::Constant(1, 1, 0.4), MX::Constant(1, 1, -2.0)}},
    {"GenericScalar", []() -> P { return make_shared<GenericScalar<double>>(0.4); }, addV, VECTOR, {MX::Constant(1, 1, 0.4), MX::Constant(1, 1, -2.0)}},
    {"EuclideanPoint", []() -> P { return P(new EuclideanPoint(V3(1, 2, 3))); }, addV, VECTOR, {V3(1, 2, 3), V3(-4, 0, 0.5)}},
    {"MappedEuclideanPoint", []() -> P { mem[0] = 1; mem[1] = 2; mem[2] = 3; return P(new MappedEuclideanPoint(mem)); }, addV, VECTOR, {V3(1, 2, 3), V3(-4, 0, 0.5)}, true, mem},
    {"DesignVariableVector<3>", []() -> P { return P(new DesignVariableVector<3>(V3(1, 2, 3))); }, addV, VECTOR, {V3(1, 2, 3), V3(-4, 0, 0.5)}},
    {"DesignVariableMappedVector<3>", []() -> P { mem[0] = 1; mem[1] = 2; mem[2] = 3; return P(new DesignVariableMappedVector<3>(mem)); }, addV, VECTOR, {V3(1, 2, 3), V3(-4, 0, 0.5)}, true, mem},
    {"DesignVariableGenericVector<3>", []() -> P { return P(new DesignVariableGenericVector<3>(V3(1, 2, 3))); }, addV, NONE, {V3(1, 2, 3), V3(-4, 0, 0.5)}},
    {"VectorDesignVariable<3>", []() -> P { return P(new aslam::calibration::VectorDesignVariable<3>(V3(1, 2, 3))); }, addV, NONE, {V3(1, 2, 3), V3(-4, 0, 0.5)}},
    {"RotationQuaternion", [=]() -> P { return P(new RotationQuaternion(qa)); }, addQ, QUATERNION, {qa, qb}},
    {"MappedRotationQuaternion", [=]() -> P { Eigen::Map<V4> m(mem); m = qa; return P(new MappedRotationQuaternion(mem)); }, addQ, QUATERNION, {qa, qb}, true, mem},
    {"HomogeneousPoint", [=]() -> P { return P(new HomogeneousPoint(qa * 2)); }, addQ, QUATERNION, {qa, qb}},
    {"MappedHomogeneousPoint", [=]() -> P { Eigen::Map<V4> m(mem); m = qa * 2; return P(new MappedHomogeneousPoint(mem)); }, addQ, QUATERNION, {qa, qb}, true, mem},
    {"EuclideanDirection", []() -> P { return P(new EuclideanDirection(V3(0.5, -0.3, 1.2))); }, [](const MX& p, const VX& d) { return MX(M3(p) * (aroundY(d[0]) * aroundX(d[1])).transpose()); }, NONE, {MX(aroundX(0.4)), MX(aroundY(1) * aroundX(-2))}},
    {"MatrixBasic", [=]() -> P { return P(new MatrixBasic(A)); }, addV, NONE, {A, B}},
    {"MatrixBasic pattern", [=]() -> P { return P(new MatrixBasic(A, pat)); }, [=](const MX& p, const VX& d) { MX o = p; int k = 0; for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) if (pat(r, c)) o(r, c) += d[k++]; return o; }, NONE, {A, B}},
    {"DesignVariableUnitQuaternion", [=]() -> P { return P(new quaternion::DesignVariableUnitQuaternion<>(qa)); }, [](const MX& p, const VX& d) { V4 e = qexp(V3(d) * 2), q = p; return MX(qmul(q, e)); }, NONE, {qa, qb}},
  };
  using namespace aslam::cameras;
  items.push_back(adapter<RadialTangentialDistortion>("adapter RadialTangentialDistortion", [] { return boost::shared_ptr<RadialTangentialDistortion>(new RadialTangentialDistortion(-0.2, 0.1, 0.01, -0.02)); }));
  items.push_back(adapter<EquidistantDistortion>("adapter EquidistantDistortion", [] { return boost::shared_ptr<EquidistantDistortion>(new EquidistantDistortion(-0.2, 0.1, 0.01, -0.02)); }));
  items.push_back(adapter<RollingShutter>("adapter RollingShutter", [] { return boost::shared_ptr<RollingShutter>(new RollingShutter(1e-3)); }));
  typedef PinholeProjection<RadialTangentialDistortion> PP; items.push_back(adapter<PP>("adapter PinholeProjection", [] { return boost::shared_ptr<PP>(new PP(400, 410, 320, 240, 640, 480)); }));
  typedef OmniProjection<RadialTangentialDistortion> OP; items.push_back(adapter<OP>("adapter OmniProjection", [] { return boost::shared_ptr<OP>(new OP(0.9, 400, 410, 320, 240, 640, 480)); }));
  for (auto& it : items) run(it.name, [&] { sequences(it); });
  // identity and the flags of the base class
  run("difference at the identity", [&] { for (auto& it : items) if (it.diff == QUATERNION) { auto d = it.make(); for (const MX& p : {MX(qa), MX(qb), MX(id)}) { d->setParameters(p); VX g; MX J; d->minimalDifferenceAndJacobian(p, g, J); near(g, V3(0, 0, 0), 1e-12, "minimal-difference", it.name + " identity"); near(J, M3::Identity(), 1e-7, "minimal-difference-jacobian", it.name + " identity"); transition(); } } });
  run("revert before any update", [&] { for (auto& it : items) { auto d = it.make(); MX a, b; d->getParameters(a); try { d->revertUpdate(); } catch (std::exception& e) { fail("revert-first", it.name + " " + e.what()); continue; } d->getParameters(b); near(b, a, 1e-15, "revert-first", it.name); transition(); } });
  run("flags", [] { Scalar s(1); expect(!s.isActive() && !s.isMarginalized() && s.blockIndex() == -1 && s.columnBase() == -1 && s.scaling() == 1, "flags", "initial");
    for (int m = 0; m < 32; ++m) { s.setActive(m & 1); s.setMarginalized(m & 2); s.setBlockIndex(m & 4 ? 3 : -1); s.setColumnBase(m & 8 ? 7 : 2); s.setScaling(m & 16 ? 2.5 : 1); transition();
      expect(s.isActive() == bool(m & 1) && s.isMarginalized() == bool(m & 2) && s.blockIndex() == (m & 4 ? 3 : -1) && s.columnBase() == (m & 8 ? 7 : 2) && s.scaling() == (m & 16 ? 2.5 : 1), "flags", fmt("%d", m)); } });
  run("flags of a design variable in updates", [] { Scalar s(1); s.setActive(true); s.setScaling(3); double d = 0.5; s.update(&d, 1); expectNear(s.toScalar(), 1.5, 0, "update", "scaled variable"); s.revertUpdate(); expectNear(s.toScalar(), 1, 0, "revert", "scaled variable"); });
  return finish();
}

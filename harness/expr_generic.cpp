// Generic matrix, scalar and quaternion expressions: all trees up to depth two
// over their operators against matrix and quaternion arithmetic.
#include "expressions_common.hpp"
#include <aslam_backend_expressions/GenericMatrixExpression.hpp>
#include <aslam_backend_expressions/QuaternionExpression.hpp>
#include <aslam_backend_expressions/DesignVariableGenericVector.hpp>
#include <aslam_backend_expressions/DesignVariableUnitQuaternion.hpp>
#include <aslam_backend_expressions/DesignVariableVector.hpp>
#include <aslam_backend_expressions/VectorExpressionToGenericMatrixTraits.hpp>
#include <aslam_backend_expressions/GenericScalar.hpp>
#include <aslam_backend_expressions/FixedPointNumber.hpp>
#include <Eigen/Geometry>
using namespace aslam::backend::quaternion;
typedef std::function<MX()> Val; typedef std::set<DV> Vars;
static Vars join(const Vars& a, const Vars& b) { Vars o = a; o.insert(b.begin(), b.end()); return o; }
static MX params(DV d) { MX p; d->getParameters(p); return p; }

// value and jac give what the expression computes.
static void verify(const std::string& text, const Val& want, const Vars& vars, const MX& got, int dim, std::function<void(JacobianContainer&)> jac, std::function<void(JacobianContainer&, const MX&)> chained, const DesignVariable::set_t& ds) {
  MX w = want(); if (!w.allFinite() || w.cwiseAbs().maxCoeff() > 1e3) return;
  transition(); nontrivial(hashStr(text)); near(got, w, 1e-11, "value", text);
  expect(Vars(ds.begin(), ds.end()) == vars, "design-variables", text);
  JacobianContainer jc(dim); if (jac) jac(jc); MX chain[2] = {pseudoM(1, dim, 4), pseudoM(3, dim, 5)}; JacobianContainer c0(1), c1(3); chained(c0, chain[0]); chained(c1, chain[1]);
  for (DV d : vars) {
    auto find = [&](JacobianContainer& c) -> const MX* { for (auto& kv : c) if (kv.first == d) return &kv.second; return nullptr; };
    MX N = derivative(d, want, 2e-3), N2 = derivative(d, want, 1e-3); if (!close(N, N2, 1e-7) || N.cwiseAbs().maxCoeff() > 1e4) continue;
    if (jac) { const MX* J = find(jc); if (J) near(*J, N, 3e-7, "jacobian", fmt("%s, variable %d", text.c_str(), d->blockIndex())); else fail("jacobian-variables", text); }
    JacobianContainer* cc[2] = {&c0, &c1};
    for (int i = 0; i < 2; ++i) { const MX* C = find(*cc[i]); if (C) near(*C, chain[i] * N, 2e-6, "chain-rule", fmt("%s, variable %d", text.c_str(), d->blockIndex())); else fail("jacobian-variables", text); }
  }
}
// ---- matrices
template <int A, int B> struct GM {
  std::string text; Val val; Vars vars; GenericMatrixExpression<A, B> e;
  void check() const {
    DesignVariable::set_t ds; e.getDesignVariables(ds);
    // Jacobians exist for vectors
    checkVec(std::integral_constant<bool, B == 1>(), ds);
  }
  void checkVec(std::true_type, const DesignVariable::set_t& ds) const { const GM* s = this; verify(text, val, vars, e.evaluate(), A, [s](JacobianContainer& c) { s->e.evaluateJacobians(c); }, [s](JacobianContainer& c, const MX& m) { s->e.evaluateJacobians(c, m); }, ds); }
  void checkVec(std::false_type, const DesignVariable::set_t& ds) const { transition(); near(e.evaluate(), val(), 1e-11, "value", text); expect(Vars(ds.begin(), ds.end()) == vars, "design-variables", text); }
};
template <int A, int B> GM<A, B> gm(std::string t, Val v, Vars w, const GenericMatrixExpression<A, B>& e) { return GM<A, B>{t, v, w, e}; }
static M3 constM(int k) { return MX(pseudoM(3, 3, 40 + k)) + 1.5 * MX(M3::Identity()); }
typedef GM<3, 1> GV; typedef GM<3, 3> G3; typedef GM<1, 3> GR;
static void grow(const std::vector<GV>& a, const std::vector<GV>& b, const std::vector<G3>& ms, const std::vector<GR>& rows, std::vector<GV>& ov, std::vector<GM<1, 1>>& os, std::vector<G3>& om) {
  for (auto& x : a) {
    Val v = x.val;
    ov.push_back(gm("-(" + x.text + ")", [v] { return MX(-v()); }, x.vars, -x.e)); ov.push_back(gm("(" + x.text + ")*-1.7", [v] { return MX(v() * -1.7); }, x.vars, x.e * -1.7));
    ov.push_back(gm("(" + x.text + ")''", v, x.vars, x.e.transpose().transpose()));
    for (auto& m : ms) { Val mv = m.val; ov.push_back(gm(m.text + "*(" + x.text + ")", [=] { return MX(mv() * v()); }, join(m.vars, x.vars), m.e * x.e)); }
    for (auto& r : rows) { Val rv = r.val; os.push_back(gm(r.text + "*(" + x.text + ")", [=] { return MX(rv() * v()); }, join(r.vars, x.vars), r.e * x.e)); om.push_back(gm("(" + x.text + ")*" + r.text, [=] { return MX(v() * rv()); }, join(r.vars, x.vars), x.e * r.e)); }
    for (auto& y : b) {
      Val u = y.val; Vars w = join(x.vars, y.vars);
      ov.push_back(gm("(" + x.text + ")+(" + y.text + ")", [=] { return MX(v() + u()); }, w, x.e + y.e)); ov.push_back(gm("(" + x.text + ")-(" + y.text + ")", [=] { return MX(v() - u()); }, w, x.e - y.e));
      ov.push_back(gm("(" + x.text + ")x(" + y.text + ")", [=] { return MX(cross(v()) * u()); }, w, x.e.cross(y.e)));
      os.push_back(gm("(" + x.text + ")'*(" + y.text + ")", [=] { return MX(v().transpose() * u()); }, w, x.e.transpose() * y.e));
      om.push_back(gm("(" + x.text + ")*(" + y.text + ")'", [=] { return MX(v() * u().transpose()); }, w, x.e * y.e.transpose()));
    }
  }
}
static void matrices(int config) {
  DesignVariableGenericVector<3> d0, d1; DesignVariableVector<3> d2(V3(0.3, -0.8, 0.5)); d0.setParameters(V3(0.7, -0.4, 1.2)); d1.setParameters(config ? V3(0, 0, 0) : V3(-0.9, 0.3, 0.6));
  DV list[3] = {&d0, &d1, &d2}; for (int i = 0; i < 3; ++i) { list[i]->setBlockIndex(i); list[i]->setActive(true); }
  auto pv = [](DV d) -> Val { return [d] { return params(d); }; };
  typedef GenericMatrixExpression<3, 1> X;
  std::vector<GV> leaves = {gm<3, 1>("d0", pv(list[0]), {list[0]}, X(&d0)), gm<3, 1>("d1", pv(list[1]), {list[1]}, X(&d1)), gm<3, 1>("vec", pv(list[2]), {list[2]}, X(convertToGME(d2.toExpression()))), gm<3, 1>("k", [] { return MX(V3(0.2, 0.5, -0.3)); }, {}, X(V3(0.2, 0.5, -0.3)))};
  M3 A = constM(1); typedef GenericMatrixExpression<3, 3> Y;
  std::vector<G3> ms = {gm<3, 3>("A", [=] { return MX(A); }, {}, Y(A)), gm<3, 3>("A'", [=] { return MX(A.transpose()); }, {}, Y(A).transpose()), gm<3, 3>("inv(A)", [=] { return MX(A.inverse()); }, {}, Y(A).inverse())};
  { DV p = list[0], q = list[1]; auto M = (leaves[0].e * leaves[1].e.transpose() + Y(A));
    Val v = [=] { return MX(params(p) * params(q).transpose() + A); };
    ms.push_back(gm<3, 3>("(d0 d1'+A)", v, {p, q}, M)); ms.push_back(gm<3, 3>("inv(d0 d1'+A)", [=] { return MX(M3(v()).inverse()); }, {p, q}, M.inverse())); ms.push_back(gm<3, 3>("-(d0 d1'+A)'*2", [=] { return MX(-v().transpose() * 2); }, {p, q}, (-M.transpose()) * 2.));
    ms.push_back(gm<3, 3>("d0 x (d0 d1'+A)", [=] { return MX(cross(params(p)) * v()); }, {p, q}, leaves[0].e.cross(M))); ms.push_back(gm<3, 3>("(d0 d1'+A) x d1", [=] { return MX(-cross(params(q)) * v()); }, {p, q}, M.cross(leaves[1].e))); }
  std::vector<GR> rows = {gm<1, 3>("d1'", [q = list[1]] { return MX(params(q).transpose()); }, {list[1]}, leaves[1].e.transpose())};
  std::vector<GV> v1, v2; std::vector<GM<1, 1>> s1, s2; std::vector<G3> m1, m2; grow(leaves, leaves, ms, rows, v1, s1, m1);
  for (int k = 0; k < 2; ++k) {
    for (auto& x : leaves) x.check(); for (auto& x : v1) x.check(); for (auto& x : s1) x.check(); for (auto& x : m1) x.check();
    for (DV d : list) { VX u = pseudo(3, 50 + d->blockIndex() + k) * 0.3; d->update(u.data(), 3); }
  }
  grow(v1, leaves, ms, rows, v2, s2, m2); grow(leaves, v1, {}, {}, v2, s2, m2); if (thorough()) grow(v1, v1, {}, {}, v2, s2, m2);
  for (auto& m : m1) for (auto& x : leaves) v2.push_back(gm<3, 1>("[" + m.text + "]*" + x.text, [a = m.val, b = x.val] { return MX(a() * b()); }, join(m.vars, x.vars), m.e * x.e));
  for (auto& x : v2) { x.check(); if (tooMany()) return; } for (auto& x : s2) x.check(); for (auto& x : m2) x.check();
  beat();
}
// ---- quaternions: the product of real quaternions in one of four layouts
template <QuaternionMode M> struct Q {
  static const bool first = aslam::backend::quaternion::internal::isRealFirst(M), trad = aslam::backend::quaternion::internal::isTraditionalMultOrder(M);
  static Eigen::Quaterniond in(const MX& v) { return first ? Eigen::Quaterniond(v(0), v(1), v(2), v(3)) : Eigen::Quaterniond(v(3), v(0), v(1), v(2)); }
  static MX out(const Eigen::Quaterniond& q) { MX v(4, 1); if (first) v << q.w(), q.x(), q.y(), q.z(); else v << q.x(), q.y(), q.z(), q.w(); return v; }
  static MX mul(const MX& a, const MX& b) { return out(trad ? in(a) * in(b) : in(b) * in(a)); }
  static MX conj(const MX& a) { return out(in(a).conjugate()); }
  static MX imag(const MX& a) { return in(a).vec(); }
  static MX pure(const MX& v) { return out(Eigen::Quaterniond(0, v(0), v(1), v(2))); }
  static MX exp(const MX& v) { double n = v.norm(); Eigen::Quaterniond q; q.w() = cos(n); q.vec() = n < 1e-8 ? V3(v) : V3(V3(v) / n * sin(n)); return out(q); }
  static MX log(const MX& a) { Eigen::Quaterniond q = in(a); double n = q.vec().norm(); return n < 1e-8 ? MX(q.vec()) : MX(q.vec() / n * atan2(n, q.w())); }
  typedef QuaternionExpression<double, M> QE; typedef UnitQuaternionExpression<double, M> UE; typedef GenericMatrixExpression<3, 1> X;
  template <typename N> struct Item { std::string text; Val val; Vars vars; N e; };
  typedef Item<QE> QI; typedef Item<UE> UI; typedef Item<X> XI;
  template <typename I> static void check(const I& i, int dim) {
    DesignVariable::set_t ds; i.e.getDesignVariables(ds); auto* e = &i.e;
    verify(fmt("mode %d: %s", (int)M, i.text.c_str()), i.val, i.vars, e->evaluate(), dim, [e](JacobianContainer& c) { e->evaluateJacobians(c); }, [e](JacobianContainer& c, const MX& m) { e->evaluateJacobians(c, m); }, ds);
  }
  static MX logNear(const MX& a) { return log(a); }
  template <UnitQuaternionGeometry G> static void geometry(int config) {
    DesignVariableUnitQuaternion<double, M, G> u0, u1; DesignVariableGenericVector<4> q0, q1; DesignVariableGenericVector<3> x0;
    V4 a = pseudo(4, 3 + config).normalized(); V4 b = pseudo(4, 11 + config).normalized(); if (config == 1) { a = out(Eigen::Quaterniond(1, 0, 0, 0)); }
    if (in(a).w() < 0) a = V4(-a); if (in(b).w() < 0) b = V4(-b); u0.setParameters(a); u1.setParameters(b); q0.setParameters(V4(0.6, -1.1, 0.4, 0.9)); { V4 z = pseudo(4, 21 + config); q1.setParameters(z); }; x0.setParameters(config == 1 ? V3(0, 0, 0) : V3(0.4, -0.3, 0.8));
    DV list[5] = {&u0, &u1, &q0, &q1, &x0}; for (int i = 0; i < 5; ++i) { list[i]->setBlockIndex(i); list[i]->setActive(true); }
    auto pv = [](DV d) -> Val { return [d] { return params(d); }; };
    std::vector<UI> us = {{"u0", pv(list[0]), {list[0]}, UE(GenericMatrixExpression<4, 1>(&u0))}, {"u1", pv(list[1]), {list[1]}, UE(GenericMatrixExpression<4, 1>(&u1))}};
    std::vector<QI> qs = {{"q0", pv(list[2]), {list[2]}, QE(GenericMatrixExpression<4, 1>(&q0))}, {"q1", pv(list[3]), {list[3]}, QE(GenericMatrixExpression<4, 1>(&q1))}, {"k", [] { return out(Eigen::Quaterniond(0.3, -0.5, 0.2, 0.8)); }, {}, QE(0.3, -0.5, 0.2, 0.8)}};
    std::vector<XI> xs = {{"x0", pv(list[4]), {list[4]}, X(&x0)}, {"c", [] { return MX(V3(0.5, -0.6, 0.9)); }, {}, X(V3(0.5, -0.6, 0.9))}};
    for (int k = 0; k < 2; ++k) {
      for (auto& i : us) check(i, 4); for (auto& i : qs) check(i, 4);
      // the update: exponential of twice... on the side of the geometry
      for (auto& i : us) { DV d = *i.vars.begin(); MX p = params(d); VX v = pseudo(3, 61) * 0.4; d->update(v.data(), 3); MX w = G == UnitQuaternionGeometry::LEFT_TRANSLATED ? mul(p, exp(v)) : mul(exp(v), p); near(params(d), w, 1e-12, "unit-quaternion-update", fmt("mode %d geometry %d", (int)M, (int)G)); d->revertUpdate(); near(params(d), p, 1e-15, "unit-quaternion-revert", ""); transition(); }
      std::vector<QI> q1s; std::vector<UI> u1s; std::vector<XI> x1s;
      for (auto& s : qs) {
        Val v = s.val; q1s.push_back({"-" + s.text, [v] { return MX(-v()); }, s.vars, -s.e}); q1s.push_back({"inv " + s.text, [v] { return MX(conj(v()) / v().squaredNorm()); }, s.vars, s.e.inverse()});
        q1s.push_back({"conj " + s.text, [v] { return conj(v()); }, s.vars, s.e.conjugate()}); x1s.push_back({"imag " + s.text, [v] { return imag(v()); }, s.vars, s.e.imaginaryPart()});
        for (auto& t : qs) { Val u = t.val; Vars w = join(s.vars, t.vars); q1s.push_back({s.text + "*" + t.text, [=] { return mul(v(), u()); }, w, s.e * t.e}); q1s.push_back({s.text + "+" + t.text, [=] { return MX(v() + u()); }, w, s.e + t.e}); q1s.push_back({s.text + "-" + t.text, [=] { return MX(v() - u()); }, w, s.e - t.e}); }
      }
      for (auto& s : us) {
        Val v = s.val; u1s.push_back({"inv " + s.text, [v] { return conj(v()); }, s.vars, s.e.inverse()}); u1s.push_back({"conj " + s.text, [v] { return conj(v()); }, s.vars, s.e.conjugate()}); u1s.push_back({"-" + s.text, [v] { return MX(-v()); }, s.vars, -s.e});
        x1s.push_back({"log " + s.text, [v] { return logNear(v()); }, s.vars, UE::log(s.e)}); x1s.push_back({"imag " + s.text, [v] { return imag(v()); }, s.vars, s.e.imaginaryPart()});
        for (auto& t : us) {
          Val u = t.val; Vars w = join(s.vars, t.vars); u1s.push_back({s.text + "*" + t.text, [=] { return mul(v(), u()); }, w, s.e * t.e});
          if (s.text != t.text) { x1s.push_back({"leftlog " + s.text + t.text, [=] { return logNear(mul(conj(v()), u())); }, w, s.e.template geoLog<UnitQuaternionGeometry::LEFT_TRANSLATED>(t.e)}); x1s.push_back({"rightlog " + s.text + t.text, [=] { return logNear(mul(u(), conj(v()))); }, w, s.e.template geoLog<UnitQuaternionGeometry::RIGHT_TRANSLATED>(t.e)}); }
        }
        for (auto& x : xs) {
          Val u = x.val; Vars w = join(s.vars, x.vars); x1s.push_back({s.text + " rot " + x.text, [=] { MX q = v(); return imag(mul(mul(q, pure(u())), conj(q))); }, w, s.e.rotate3Vector(x.e)});
          u1s.push_back({s.text + " leftexp " + x.text, [=] { return mul(v(), exp(u())); }, w, s.e.template geoExp<UnitQuaternionGeometry::LEFT_TRANSLATED>(x.e)}); u1s.push_back({s.text + " rightexp " + x.text, [=] { return mul(exp(u()), v()); }, w, s.e.template geoExp<UnitQuaternionGeometry::RIGHT_TRANSLATED>(x.e)});
        }
      }
      for (auto& x : xs) { Val u = x.val; u1s.push_back({"exp " + x.text, [=] { return exp(u()); }, x.vars, UE::exp(x.e)}); }
      for (auto& i : q1s) check(i, 4); for (auto& i : u1s) check(i, 4); for (auto& i : x1s) check(i, 3);
      // depth two
      for (auto& s : q1s) for (auto& t : qs) { Val v = s.val, u = t.val; Vars w = join(s.vars, t.vars); check(QI{"(" + s.text + ")*" + t.text, [=] { return mul(v(), u()); }, w, s.e * t.e}, 4); check(QI{t.text + "*(" + s.text + ")", [=] { return mul(u(), v()); }, w, t.e * s.e}, 4); check(QI{"inv((" + s.text + ")+" + t.text + ")", [=] { MX z = v() + u(); return MX(conj(z) / z.squaredNorm()); }, w, (s.e + t.e).inverse()}, 4); }
      for (auto& s : u1s) { for (auto& x : x1s) { Val v = s.val, u = x.val; Vars w = join(s.vars, x.vars); check(XI{"(" + s.text + ") rot (" + x.text + ")", [=] { MX q = v(); return imag(mul(mul(q, pure(u())), conj(q))); }, w, s.e.rotate3Vector(x.e)}, 3); }
        for (auto& t : us) { Val v = s.val, u = t.val; Vars w = join(s.vars, t.vars); check(UI{"(" + s.text + ")*" + t.text, [=] { return mul(v(), u()); }, w, s.e * t.e}, 4); } if (tooMany()) return; }
      for (auto& x : x1s) { Val v = x.val; check(UI{"exp(" + x.text + ")", [=] { return exp(v()); }, x.vars, UE::exp(x.e)}, 4); }
      for (DV d : list) { VX w = pseudo(d->minimalDimensions(), 80 + d->blockIndex()) * 0.2; d->update(w.data(), w.size()); }
      beat();
    }
  }
  static void all(int config) { geometry<UnitQuaternionGeometry::RIGHT_TRANSLATED>(config); geometry<UnitQuaternionGeometry::LEFT_TRANSLATED>(config); }
};
// ---- scalars
typedef GenericScalarExpression<double> GS; struct SI { std::string text; Val val; Vars vars; GS e; };
static void growS(std::vector<SI> a, std::vector<SI> b, std::vector<SI>& o) {
  auto num = [](const Val& v) { return [v] { return v()(0, 0); }; };
  for (auto& x : a) {
    auto v = num(x.val); o.push_back({"-(" + x.text + ")", [=] { return MX::Constant(1, 1, -v()); }, x.vars, -x.e});
    for (auto& y : b) { auto u = num(y.val); Vars w = join(x.vars, y.vars); std::string l = "(" + x.text + ")", r = "(" + y.text + ")";
      o.push_back({l + "+" + r, [=] { return MX::Constant(1, 1, v() + u()); }, w, x.e + y.e}); o.push_back({l + "-" + r, [=] { return MX::Constant(1, 1, v() - u()); }, w, x.e - y.e}); o.push_back({l + "*" + r, [=] { return MX::Constant(1, 1, v() * u()); }, w, x.e * y.e});
      o.push_back({l + "/" + r, [=] { return MX::Constant(1, 1, v() / u()); }, w, x.e / y.e}); }
  }
}
static void scalars(double p, double q) {
  GenericScalar<double> s0(p), s1(q); DV list[2] = {&s0, &s1}; for (int i = 0; i < 2; ++i) { list[i]->setBlockIndex(i); list[i]->setActive(true); }
  DV a = list[0], b = list[1]; std::vector<SI> l = {{"s0", [=] { return params(a); }, {a}, s0.toExpression()}, {"s1", [=] { return params(b); }, {b}, s1.toExpression()}, {"2.5", [] { return MX::Constant(1, 1, 2.5); }, {}, GS(2.5)}}, l1, l2;
  growS(l, l, l1); growS(l1, l, l2); growS(l, l1, l2); growS(l1, l1, l2);
  for (auto* v : {&l, &l1, &l2}) for (auto& i : *v) { DesignVariable::set_t ds; i.e.getDesignVariables(ds); auto* e = &i.e; if (fabs(i.val()(0, 0)) > 100) continue;
    verify(i.text, i.val, i.vars, MX::Constant(1, 1, e->toScalar()), 1, [e](JacobianContainer& c) { e->evaluateJacobians(c); }, [e](JacobianContainer& c, const MX& m) { e->evaluateJacobians(c, m); }, ds); if (tooMany()) return; }
}
int main(int argc, char** argv) {
  init(argc, argv);
  for (int c = 0; c < 2; ++c) run(fmt("matrices config=%d", c), [&] { matrices(c); });
  for (int c = 0; c < (thorough() ? 6 : 3); ++c) {
    run(fmt("quaternions mode=0 config=%d", c), [&] { Q<QuaternionMode::FIRST_IS_REAL_AND_TRADITIONAL_MULT_ORDER>::all(c); });
    run(fmt("quaternions mode=1 config=%d", c), [&] { Q<QuaternionMode::FIRST_IS_REAL_AND_OPPOSITE_MULT_ORDER>::all(c); });
    run(fmt("quaternions mode=2 config=%d", c), [&] { Q<QuaternionMode::LAST_IS_REAL_AND_TRADITIONAL_MULT_ORDER>::all(c); });
    run(fmt("quaternions mode=3 config=%d", c), [&] { Q<QuaternionMode::LAST_IS_REAL_AND_OPPOSITE_MULT_ORDER>::all(c); });
  }
  for (double p : {0.7, -1.6}) for (double q : {1.3, -0.4}) run(fmt("scalars %g %g", p, q), [&] { scalars(p, q); });
  return finish();
}

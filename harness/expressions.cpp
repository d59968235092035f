// Expressions: all expression trees up to a depth over the operators of the
// expression library; value, Jacobians and design variables of each against
// matrix arithmetic and numeric derivatives.
#include "expressions_common.hpp"
#include <aslam_backend_expressions/EuclideanPoint.hpp>
#include <aslam_backend_expressions/MappedEuclideanPoint.hpp>
#include <aslam_backend_expressions/EuclideanDirection.hpp>
#include <aslam_backend_expressions/RotationQuaternion.hpp>
#include <aslam_backend_expressions/MappedRotationQuaternion.hpp>
#include <aslam_backend_expressions/HomogeneousPoint.hpp>
#include <aslam_backend_expressions/MappedHomogeneousPoint.hpp>
#include <aslam_backend_expressions/Scalar.hpp>
#include <aslam_backend_expressions/MatrixBasic.hpp>
#include <aslam_backend_expressions/TransformationBasic.hpp>
#include <aslam_backend_expressions/MapTransformation.hpp>
#include <aslam_backend_expressions/DesignVariableVector.hpp>
#include <aslam_backend_expressions/DesignVariableMappedVector.hpp>
#include <aslam_backend_expressions/Vector2RotationQuaternionExpressionAdapter.hpp>
#include <aslam_backend_expressions/MatrixExpression.hpp>
#include <aslam_backend_expressions/VectorExpression.hpp>
#include <sm_kinematics/RotationVector.hpp>
#include <sm_kinematics/EulerRodriguez.hpp>
#include <sm_kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm_kinematics/EulerAnglesZYX.hpp>

typedef std::function<MX()> Val; typedef std::set<DV> Vars;
enum Kind { S, E, R, T, H };
struct Ex {
  Kind kind; std::string text; Val val; Vars vars;
  boost::shared_ptr<ScalarExpression> s; boost::shared_ptr<EuclideanExpression> e; boost::shared_ptr<RotationExpression> r; boost::shared_ptr<TransformationExpression> t; boost::shared_ptr<HomogeneousExpression> h;
  MX value() const {
    switch (kind) { case S: return MX::Constant(1, 1, s->toScalar()); case E: return e->toEuclidean(); case R: return r->toRotationMatrix(); case T: return t->toTransformationMatrix(); default: return h->toHomogeneous(); }
  }
  void jac(JacobianContainer& c) const { switch (kind) { case S: s->evaluateJacobians(c); break; case E: e->evaluateJacobians(c); break; case R: r->evaluateJacobians(c); break; case T: t->evaluateJacobians(c); break; default: h->evaluateJacobians(c); } }
  void jac(JacobianContainer& c, const MX& m) const { switch (kind) { case S: s->evaluateJacobians(c, m); break; case E: e->evaluateJacobians(c, m); break; case R: r->root()->evaluateJacobians(c, m); break; case T: t->evaluateJacobians(c, m); break; default: h->evaluateJacobians(c, m); } }
  void dvs(DesignVariable::set_t& o) const { switch (kind) { case S: s->getDesignVariables(o); break; case E: e->getDesignVariables(o); break; case R: r->getDesignVariables(o); break; case T: t->getDesignVariables(o); break; default: h->getDesignVariables(o); } }
  int dim() const { return kind == S ? 1 : kind == T ? 6 : kind == H ? 4 : 3; }
  // derivative of the entries of the value to the derivative in the tangent space
  VX tangent(const VX& d, const MX& v) const {
    if (kind == R || kind == T) {
      int n = kind == R ? 3 : 4; MX D = Eigen::Map<const MX>(d.data(), n, n); MX W = D.topLeftCorner(3, 3) * v.topLeftCorner(3, 3).transpose();
      V3 w(-(W(2, 1) - W(1, 2)) / 2, -(W(0, 2) - W(2, 0)) / 2, -(W(1, 0) - W(0, 1)) / 2);
      if (kind == R) return w;
      VX o(6); o.head(3) = V3(D.topRightCorner(3, 1)) + V3(w.cross(V3(v.topRightCorner(3, 1)))); o.tail(3) = w; return o;
    }
    return d;
  }
};
static Vars join(const Vars& a, const Vars& b) { Vars o = a; o.insert(b.begin(), b.end()); return o; }
static Ex mk(Kind k, std::string t, Val v, Vars w) { Ex x; x.kind = k; x.text = t; x.val = v; x.vars = w; return x; }
static Ex eS(std::string t, Val v, Vars w, const ScalarExpression& e) { Ex x = mk(S, t, v, w); x.s.reset(new ScalarExpression(e)); return x; }
static Ex eE(std::string t, Val v, Vars w, const EuclideanExpression& e) { Ex x = mk(E, t, v, w); x.e.reset(new EuclideanExpression(e)); return x; }
static Ex eR(std::string t, Val v, Vars w, const RotationExpression& e) { Ex x = mk(R, t, v, w); x.r.reset(new RotationExpression(e)); return x; }
static Ex eT(std::string t, Val v, Vars w, const TransformationExpression& e) { Ex x = mk(T, t, v, w); x.t.reset(new TransformationExpression(e)); return x; }
static Ex eH(std::string t, Val v, Vars w, const HomogeneousExpression& e) { Ex x = mk(H, t, v, w); x.h.reset(new HomogeneousExpression(e)); return x; }
static MX params(DV d) { MX p; d->getParameters(p); return p; }
static M4 tr(const MX& C, const MX& t) { M4 m = M4::Identity(); m.topLeftCorner<3, 3>() = C; m.topRightCorner<3, 1>() = t; return m; }
static MX invT(const MX& t) { MX C = t.topLeftCorner(3, 3).transpose(); return tr(C, -C * t.topRightCorner(3, 1)); }

struct Mat { std::string text; Val val; Vars vars; MatrixExpression e; };

// The design variables of one world and the leaves over them.
struct World {
  V4 q1, h1; V3 p1; double v1[3]; sm::kinematics::Transformation T0;
  boost::shared_ptr<RotationQuaternion> r0; boost::shared_ptr<MappedRotationQuaternion> r1; boost::shared_ptr<EuclideanPoint> e0; boost::shared_ptr<MappedEuclideanPoint> e1;
  boost::shared_ptr<EuclideanDirection> dir; boost::shared_ptr<HomogeneousPoint> h0; boost::shared_ptr<MappedHomogeneousPoint> hm; boost::shared_ptr<Scalar> s0, s1;
  boost::shared_ptr<DesignVariableVector<3>> v3; boost::shared_ptr<DesignVariableMappedVector<3>> m3; boost::shared_ptr<DesignVariableVector<1>> v1d; boost::shared_ptr<DesignVariableVector<4>> v4;
  boost::shared_ptr<MatrixBasic> mb, mbp; boost::shared_ptr<MappedRotationQuaternion> tq; boost::shared_ptr<MappedEuclideanPoint> tt;
  boost::shared_ptr<TransformationBasic> tb;
  std::vector<DV> all; std::vector<Ex> leaves[5]; std::vector<Mat> mats; std::vector<std::pair<std::string, sm::kinematics::RotationalKinematics::Ptr>> rks;
  static V4 quat(double x, double y, double z) { V3 v(x, y, z); double a = v.norm(); V4 q; q.head<3>() = a > 0 ? V3(v / a * sin(a / 2)) : V3::Zero(); q[3] = cos(a / 2); return q; }
  World(int config) {
    double c = config == 1 ? 0 : 1;  // configuration 1: rotations at the identity
    q1 = quat(c * 0.3, -c * 0.7, c * 0.2); p1 << -0.4, 0.9, 1.3; h1 << 0.3, -0.2, 0.8, 1.1; v1[0] = 0.6; v1[1] = -1.2; v1[2] = 0.35;
    T0 = sm::kinematics::Transformation(quat(-c * 0.5, c * 0.1, c * 0.6), V3(0.2, -0.5, 0.7));
    r0.reset(new RotationQuaternion(quat(c * 0.6, c * 0.4, -c * 0.5))); r1.reset(new MappedRotationQuaternion(q1.data()));
    e0.reset(new EuclideanPoint(V3(1.1, -0.6, 0.8))); e1.reset(new MappedEuclideanPoint(p1.data())); dir.reset(new EuclideanDirection(V3(0.5, -0.3, 1.2)));
    h0.reset(new HomogeneousPoint(V4(0.7, 0.5, -0.9, 1.4))); hm.reset(new MappedHomogeneousPoint(h1.data())); s0.reset(new Scalar(1.7)); s1.reset(new Scalar(-0.8));
    v3.reset(new DesignVariableVector<3>(V3(-0.9, 0.3, 0.5))); m3.reset(new DesignVariableMappedVector<3>(v1)); v1d.reset(new DesignVariableVector<1>(Eigen::Matrix<double, 1, 1>::Constant(0.9)));
    M3 A; A << 1.1, 0.2, -0.3, 0.4, 0.9, 0.1, -0.2, 0.3, 1.2; Eigen::Matrix3i P; P << 1, 0, 1, 0, 1, 0, 0, 1, 0;
    mb.reset(new MatrixBasic(A)); mbp.reset(new MatrixBasic(A, P));
    tq.reset(); tt.reset(); TransformationExpression mapT = transformationToExpression(T0, tq, tt);
    tb.reset(new TransformationBasic(RotationExpression(r0.get()), EuclideanExpression(e0.get())));
    DV list[] = {r0.get(), r1.get(), e0.get(), e1.get(), dir.get(), h0.get(), hm.get(), s0.get(), s1.get(), v3.get(), m3.get(), v1d.get(), mb.get(), mbp.get(), tq.get(), tt.get()};
    for (DV d : list) { d->setBlockIndex((int)all.size()); d->setActive(true); all.push_back(d); }
    DV R0 = r0.get(), R1 = r1.get(), E0 = e0.get(), E1 = e1.get(), D = dir.get(), H0 = h0.get(), H1 = hm.get(), S0 = s0.get(), S1 = s1.get(), Q = tq.get(), U = tt.get(), W3 = v3.get(), N3 = m3.get(), W1 = v1d.get();
    leaves[S] = {eS("s0", [=] { return params(S0); }, {S0}, s0->toExpression()), eS("s1", [=] { return params(S1); }, {S1}, s1->toExpression()), eS("1.3", [] { return MX::Constant(1, 1, 1.3); }, {}, ScalarExpression(1.3)),
                 eS("v1", [=] { return params(W1); }, {W1}, v1d->toExpression().toScalarExpression())};
    leaves[E] = {eE("e0", [=] { return params(E0); }, {E0}, e0->toExpression()), eE("e1", [=] { return params(E1); }, {E1}, e1->toExpression()), eE("dir", [=] { return MX(params(D).col(2) * V3(0.5, -0.3, 1.2).norm()); }, {D}, dir->toExpression()),
                 eE("const", [] { return MX(V3(0.3, 0.4, -1.1)); }, {}, EuclideanExpression(V3(0.3, 0.4, -1.1))), eE("v3", [=] { return params(W3); }, {W3}, EuclideanExpression(v3->toExpression())), eE("m3", [=] { return params(N3); }, {N3}, EuclideanExpression(m3->toExpression()))};
    auto rot = [](DV d) { return [d] { return MX(rotOf(params(d))); }; };
    leaves[R] = {eR("r0", rot(R0), {R0}, r0->toExpression()), eR("r1", rot(R1), {R1}, r1->toExpression())};
    Val mapV = [=] { return MX(tr(rotOf(params(Q)), params(U))); };
    leaves[T] = {eT("map", mapV, {Q, U}, mapT), eT("basic(r0,e0)", [=] { return MX(tr(rotOf(params(R0)), params(E0))); }, {R0, E0}, tb->toExpression()),
                 eT("const", [] { return MX(tr(rotOf(quat(0.2, 0.3, -0.9)), V3(0.4, 0.1, -0.6))); }, {}, TransformationExpression(tr(rotOf(quat(0.2, 0.3, -0.9)), V3(0.4, 0.1, -0.6))))};
    leaves[H] = {eH("h0", [=] { return params(H0); }, {H0}, h0->toExpression()), eH("h1", [=] { return params(H1); }, {H1}, hm->toExpression()), eH("const", [] { return MX(V4(0.3, -0.4, 0.5, 0.9)); }, {}, HomogeneousExpression(V4(0.3, -0.4, 0.5, 0.9))),
                 eH("const3", [] { return MX(V4(0.3, -0.4, 0.5, 1)); }, {}, HomogeneousExpression(V3(0.3, -0.4, 0.5)))};
    auto m = [&](const char* n, DV d, MatrixExpression e) { mats.push_back(Mat{n, [=] { return params(d); }, {d}, e}); };
    m("A", mb.get(), mb->toExpression()); m("Apattern", mbp.get(), mbp->toExpression());
    using namespace sm::kinematics;
    rks = {{"vector", RotationalKinematics::Ptr(new RotationVector)}, {"rodriguez", RotationalKinematics::Ptr(new EulerRodriguez)}, {"ypr", RotationalKinematics::Ptr(new EulerAnglesYawPitchRoll)}, {"zyx", RotationalKinematics::Ptr(new EulerAnglesZYX)}};
  }
};
static std::string un(const char* o, const Ex& a) { return std::string(o) + "(" + a.text + ")"; }
static std::string bin(const Ex& a, const char* o, const Ex& b) { return "(" + a.text + " " + o + " " + b.text + ")"; }
// All unary operators on an expression.
static void unary(World& w, const Ex& a, std::vector<Ex> o[5]) {
  Val v = a.val; auto f = [v](std::function<MX(const MX&)> g) -> Val { return [v, g] { return g(v()); }; };
  if (a.kind == S) {
    o[S].push_back(eS(un("+2.5", a), f([](const MX& x) { return MX(x.array() + 2.5); }), a.vars, *a.s + 2.5)); o[S].push_back(eS(un("-2.5", a), f([](const MX& x) { return MX(x.array() - 2.5); }), a.vars, *a.s - 2.5));
    o[S].push_back(eS(un("*-1.5", a), f([](const MX& x) { return MX(x * -1.5); }), a.vars, *a.s * -1.5)); o[S].push_back(eS(un("/-1.5", a), f([](const MX& x) { return MX(x / -1.5); }), a.vars, *a.s / -1.5));
  } else if (a.kind == E) {
    V3 k(0.7, -0.2, 0.4);
    o[E].push_back(eE(un("-", a), f([](const MX& x) { return MX(-x); }), a.vars, -*a.e)); o[E].push_back(eE(un("-k", a), f([k](const MX& x) { return MX(x - k); }), a.vars, *a.e - k));
    o[H].push_back(eH(un("hom", a), f([](const MX& x) { MX y(4, 1); y << x, 1; return y; }), a.vars, a.e->toHomogeneousExpression()));
    for (auto& m : w.mats) { Val mv = m.val; o[E].push_back(eE(un(m.text.c_str(), a), [mv, v] { return MX(mv() * v()); }, join(m.vars, a.vars), m.e * *a.e)); }
  } else if (a.kind == R) {
    o[R].push_back(eR(un("inv", a), f([](const MX& x) { return MX(x.transpose()); }), a.vars, a.r->inverse()));
    for (auto& rk : w.rks) { auto k = rk.second; o[E].push_back(eE(un(rk.first.c_str(), a), f([k](const MX& x) { return MX(k->rotationMatrixToParameters(x)); }), a.vars, a.r->toParameters(k))); }
  } else if (a.kind == T) {
    o[T].push_back(eT(un("inv", a), f(invT), a.vars, a.t->inverse())); o[R].push_back(eR(un("rot", a), f([](const MX& x) { return MX(x.topLeftCorner(3, 3)); }), a.vars, a.t->toRotationExpression()));
    o[E].push_back(eE(un("trans", a), f([](const MX& x) { return MX(x.topRightCorner(3, 1)); }), a.vars, a.t->toEuclideanExpression()));
  } else o[E].push_back(eE(un("euclid", a), f([](const MX& x) { return MX(x.topRows(3) / x(3, 0)); }), a.vars, a.h->toEuclideanExpression()));
}
static void binary(const Ex& a, const Ex& b, std::vector<Ex> o[5]) {
  Val x = a.val, y = b.val; Vars v = join(a.vars, b.vars);
  if (a.kind == S && b.kind == S) {
    o[S].push_back(eS(bin(a, "+", b), [=] { return MX(x() + y()); }, v, *a.s + *b.s)); o[S].push_back(eS(bin(a, "-", b), [=] { return MX(x() - y()); }, v, *a.s - *b.s));
    o[S].push_back(eS(bin(a, "*", b), [=] { return MX(x() * y()); }, v, *a.s * *b.s)); o[S].push_back(eS(bin(a, "/", b), [=] { return MX(x() / y()(0, 0)); }, v, *a.s / *b.s));
  } else if (a.kind == E && b.kind == E) {
    o[E].push_back(eE(bin(a, "+", b), [=] { return MX(x() + y()); }, v, *a.e + *b.e)); o[E].push_back(eE(bin(a, "-", b), [=] { return MX(x() - y()); }, v, *a.e - *b.e));
    o[E].push_back(eE(bin(a, "x", b), [=] { return MX(cross(x()) * y()); }, v, a.e->cross(*b.e))); o[E].push_back(eE(bin(a, ".*", b), [=] { return MX(x().cwiseProduct(y())); }, v, a.e->elementwiseMultiply(*b.e)));
  } else if (a.kind == E && b.kind == S) o[E].push_back(eE(bin(a, "*", b), [=] { return MX(x() * y()(0, 0)); }, v, *a.e * *b.s));
  else if (a.kind == R && b.kind == R) o[R].push_back(eR(bin(a, "*", b), [=] { return MX(x() * y()); }, v, *a.r * *b.r));
  else if (a.kind == R && b.kind == E) {
    o[E].push_back(eE(bin(a, "*", b), [=] { return MX(x() * y()); }, v, *a.r * *b.e)); o[T].push_back(eT(bin(a, ",", b), [=] { return MX(tr(x(), y())); }, v, TransformationExpression(*a.r, *b.e)));
  } else if (a.kind == T && b.kind == H) o[H].push_back(eH(bin(a, "*", b), [=] { return MX(x() * y()); }, v, *a.t * *b.h));
  else if (a.kind == T && b.kind == T) o[T].push_back(eT(bin(a, "*", b), [=] { return MX(x() * y()); }, v, *a.t * *b.t));
}

static void checkOne(World& w, const Ex& x) {
  MX want = x.val(); if (!want.allFinite() || want.cwiseAbs().maxCoeff() > 1e3) return;
  transition(); nontrivial(hashStr(x.text));
  near(x.value(), want, 1e-11, "value", x.text);
  DesignVariable::set_t ds; x.dvs(ds); expect(Vars(ds.begin(), ds.end()) == x.vars, "design-variables", x.text);
  int n = x.dim(); JacobianContainer jc(n); x.jac(jc);
  MX chain[3] = {pseudoM(1, n, 1), pseudoM(2, n, 2), pseudoM(5, n, 3)}; std::vector<JacobianContainer> cj; for (auto& c : chain) { cj.emplace_back((int)c.rows()); x.jac(cj.back(), c); }
  expect(jc.numDesignVariables() == x.vars.size(), "jacobian-variables", x.text);
  for (DV d : x.vars) {
    auto find = [&](JacobianContainer& c) -> const MX* { for (auto& kv : c) if (kv.first == d) return &kv.second; return nullptr; };
    const MX* J = find(jc); if (!J) { fail("jacobian-variables", x.text); continue; }
    // near singularities of parameterizations numeric derivatives are not precise: require agreement of two step sizes
    auto num = [&](double h) { MX D = derivative(d, x.val, h); MX o(n, D.cols()); for (int k = 0; k < D.cols(); ++k) o.col(k) = x.tangent(D.col(k), want); return o; };
    MX N = num(2e-3), N2 = num(1e-3); if (!close(N, N2, 1e-7) || N.cwiseAbs().maxCoeff() > 1e4) continue;
    near(*J, N, 2e-7, "jacobian", fmt("%s, variable %d", x.text.c_str(), d->blockIndex()));
    for (int i = 0; i < 3; ++i) { const MX* C = find(cj[i]); if (!C) { fail("chain-rule", x.text); continue; } near(*C, chain[i] * *J, 1e-11, "chain-rule", fmt("%s, variable %d, %d rows", x.text.c_str(), d->blockIndex(), (int)chain[i].rows())); }
  }
}
static void check(World& w, const Ex& x) { try { checkOne(w, x); } catch (std::exception& e) { fail("exception", x.text + ": " + e.what()); } }
// Moves all design variables, so that the expressions built before see other values.
static void move(World& w, int seed) { for (DV d : w.all) { VX u = pseudo(d->minimalDimensions(), seed * 100 + d->blockIndex()) * 0.2; d->update(u.data(), u.size()); } }
int main(int argc, char** argv) {
  init(argc, argv);
  for (int config = 0; config < (thorough() ? 3 : 2); ++config) {
    // leaves and depth one
    run(fmt("config=%d depth<=1", config), [&] {
      World w(config); std::vector<Ex> l1[5]; std::vector<Ex> all; for (auto& l : w.leaves) all.insert(all.end(), l.begin(), l.end());
      for (auto& a : all) { unary(w, a, l1); for (auto& b : all) binary(a, b, l1); }
      for (int m = 0; m < 3; ++m) { for (auto& a : all) check(w, a); for (auto& l : l1) for (auto& a : l) check(w, a); move(w, config * 10 + m); state(fmt("%d %d", config, m)); }
      for (DV d : w.all) d->revertUpdate();
      for (auto& l : l1) for (auto& a : l) check(w, a);
    });
    // depth two: operators with one operand of depth one and, for both at depth one, all pairs in the thorough tier
    World probe(config); size_t nLeaf = 0; for (auto& l : probe.leaves) nLeaf += l.size();
    std::vector<Ex> p1[5]; { std::vector<Ex> all; for (auto& l : probe.leaves) all.insert(all.end(), l.begin(), l.end()); for (auto& a : all) { unary(probe, a, p1); for (auto& b : all) binary(a, b, p1); } }
    size_t n1 = 0; for (auto& l : p1) n1 += l.size(); int parts = thorough() ? 64 : 16;
    for (int part = 0; part < parts; ++part) run(fmt("config=%d depth=2 part=%d of %d", config, part, parts), [&] {
      World w(config); std::vector<Ex> l1[5], all, d1; for (auto& l : w.leaves) all.insert(all.end(), l.begin(), l.end());
      for (auto& a : all) { unary(w, a, l1); for (auto& b : all) binary(a, b, l1); }
      for (auto& l : l1) d1.insert(d1.end(), l.begin(), l.end());
      move(w, 77 + config); size_t k = 0;
      for (size_t i = part; i < d1.size(); i += parts) {
        std::vector<Ex> o[5]; unary(w, d1[i], o); for (auto& b : all) { binary(d1[i], b, o); binary(b, d1[i], o); }
        if (thorough()) for (size_t j = 0; j < d1.size(); j += 1) binary(d1[i], d1[j], o); else { binary(d1[i], d1[i], o); size_t j = mix(i, 7) % d1.size(); for (size_t c = 0; c < 40; ++c) binary(d1[i], d1[(j + c * 7) % d1.size()], o); }
        for (auto& l : o) for (auto& x : l) { check(w, x); ++k; if (tooMany()) return; }
        beat();
      }
      noteAdd("expressions of depth two", k);
    });
  }
  return finish();
}

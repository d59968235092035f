// Marginalization against dense least squares.
#include <vmc.hpp>
#include "backend_common.hpp"
#include <aslam_backend/backend/Marginalizer.hpp>
#include <aslam_backend/backend/JacobianContainer.hpp>
#include <sm_logging/logging.hpp>
#include <functional>
using namespace vmc; using namespace aslam::backend;
typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX;
typedef std::vector<DesignVariable*> Dvs; typedef std::vector<ErrorTerm*> Ets;
template <typename F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static void near(const MX& a, const MX& b, double tol, const char* key, const std::string& d) {
  transition();
  if (a.rows() != b.rows() || a.cols() != b.cols()) { fail(key, d + fmt(": %dx%d instead of %dx%d", (int)a.rows(), (int)a.cols(), (int)b.rows(), (int)b.cols())); return; }
  if (a.size() && !((a - b).cwiseAbs().maxCoeff() <= tol * (1 + b.cwiseAbs().maxCoeff()))) fail(key, d + fmt(": differs by %g", (a - b).cwiseAbs().maxCoeff()));
}
static const int DIM[5] = {1, 2, 1, 3, 2};
struct Problem {
  std::vector<std::unique_ptr<VecDv>> dv; std::vector<std::pair<boost::shared_ptr<ErrAccess>, std::vector<int>>> err; int n;
  // bits of edges: pairs (i < j); bits of unary: single variables
  Problem(int n_, unsigned edges, unsigned unary, double quad, int mest, int scaling, bool fixed) : n(n_) {
    for (int i = 0; i < n; ++i) { dv.emplace_back(new VecDv(DIM[i], i)); dv[i]->setActive(true); dv[i]->setScaling(scaling ? 0.5 + i : 1.0); dv[i]->setBlockIndex(40 - i); dv[i]->setColumnBase(90 - 3 * i); }
    auto add = [&](std::vector<int> v, int dim, unsigned seed) { std::vector<VecDv*> l; for (int i : v) l.push_back(dv[i].get()); auto e = makeErr(ErrModel(l, dim, seed, quad), fixed && dim < 4); MX g = genMat(dim, dim, seed, 3), R = g * g.transpose() + MX::Identity(dim, dim); if (auto* d = dynamic_cast<ErrorTermDs*>(e->term())) d->vsSetInvR(R); else e->term()->vsSetInvR(R); if (mest == 1) e->term()->setMEstimatorPolicy(boost::shared_ptr<MEstimator>(new CauchyMEstimator(1.0))); e->term()->setRowBase(70 + err.size()); err.push_back({e, v}); };
    for (int i = 0; i < n; ++i) if (unary >> i & 1) add({i}, DIM[i], 100 + i);
    int k = 0; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (edges >> k++ & 1) { if ((i + j) % 2) add({i, j}, 2, 200 + k); else add({j, i}, 3, 200 + k); }
  }
};
// Stacked weighted system over the given variables: J x = -e
static void stack(Problem& p, const Dvs& order, const Ets& ets, bool useM, MX& J, VX& e) {
  int cols = 0, rows = 0; std::map<DesignVariable*, int> base; for (auto d : order) { base[d] = cols; cols += d->minimalDimensions(); } for (auto t : ets) rows += t->dimension();
  J = MX::Zero(rows, cols); e = VX::Zero(rows); int r = 0;
  for (auto t : ets) for (auto& q : p.err) if (q.first->term() == t) { ErrAccess& a = *q.first; VX err = a.m.error(); MX R; t->vsInvR().llt(); R = t->vsInvR(); MX S = R.llt().matrixU(); double w = useM ? t->getMEstimatorWeight(err.dot(R * err)) : 1; for (size_t i = 0; i < a.m.dv.size(); ++i) J.middleCols(base[a.m.dv[i]], a.m.dv[i]->v.size()).middleRows(r, err.size()) = sqrt(w) * S * a.m.jac(i); e.segment(r, err.size()) = sqrt(w) * S * err; r += err.size(); }
}
static int rank(const MX& J) { if (!J.size()) return 0; Eigen::JacobiSVD<MX> s(J); int r = 0; for (int i = 0; i < s.singularValues().size(); ++i) r += s.singularValues()[i] > 1e-3; return r; }
static double minOver(const MX& J1, const VX& c) { if (!J1.cols()) return c.squaredNorm(); VX u = J1.colPivHouseholderQr().solve(-c); return (J1 * u + c).squaredNorm(); }
struct Save { std::vector<std::array<int, 2>> b; std::vector<size_t> r; std::vector<VX> v; };
static Save save(const Dvs& d, const Ets& e) { Save s; for (auto x : d) { s.b.push_back({x->blockIndex(), x->columnBase()}); s.v.push_back(static_cast<VecDv*>(x)->v); } for (auto t : e) s.r.push_back(t->rowBase()); return s; }
static void same(const Save& s, const Dvs& d, const Ets& e, const std::string& h) { Save n = save(d, e); expect(n.b == s.b && n.r == s.r, "indices-restored", h); for (size_t i = 0; i < n.v.size(); ++i) expect(n.v[i] == s.v[i], "values-kept", h); }
static void checkPrior(MarginalizationPriorErrorTerm& prior, const Dvs& rem, const MX& J, const VX& e, int c1, bool full, const std::string& h) {
  int c2 = J.cols() - c1; MX J1 = J.leftCols(c1), J2 = J.rightCols(c2); std::vector<VX> x0; for (auto d : rem) x0.push_back(static_cast<VecDv*>(d)->v);
  expect(prior.numDesignVariables() == (int)rem.size() && static_cast<ErrorTerm&>(prior).numDesignVariables() == rem.size() && (int)prior.dimension() == c2, "prior-variables", h);
  for (size_t i = 0; i < rem.size(); ++i) expect(prior.getDesignVariable(i) == rem[i] && static_cast<ErrorTerm&>(prior).designVariable(i) == rem[i], "prior-variables", h);
  double base = full ? minOver(J, e) : minOver(J1, e) - prior.evaluateError();
  for (int k = 0; k < 4; ++k) { VX delta = k == 0 ? VX::Zero(c2) : VX(genMat(c2, 1, 300 + k) * (k == 3 ? 10 : 1)); int o = 0; for (size_t i = 0; i < rem.size(); ++i) { auto* d = static_cast<VecDv*>(rem[i]); d->v = x0[i] + delta.segment(o, d->v.size()); o += d->v.size(); }
    double got = prior.evaluateError(), want = minOver(J1, VX(e + J2 * delta)) - base; expectNear(got, want, 1e-9 * (1 + std::fabs(want) + base), "prior-cost", h + fmt(" offset %d", k));
    JacobianContainer jc(prior.dimension()); prior.evaluateJacobians(jc); MX R(c2, c2); for (auto d : rem) { R.middleCols(d->columnBase(), d->minimalDimensions()) = jc.Jacobian(d); }
    // gradient of the cost
    VX er = prior.vsError(), g = 2 * R.transpose() * er; MX P = MX::Identity(J.rows(), J.rows()); if (c1) { MX Q = J1.colPivHouseholderQr().householderQ() * MX::Identity(J.rows(), c1); P -= Q * Q.transpose(); } near(g, 2 * J2.transpose() * P * (e + J2 * delta), 1e-9, "prior-gradient", h); near(R.transpose() * R, J2.transpose() * P * J2, 1e-9, "prior-information", h); }
  for (size_t i = 0; i < rem.size(); ++i) static_cast<VecDv*>(rem[i])->v = x0[i];
}
static void once(Problem& p, const Dvs& order, int nRemove, bool useM, int top, const std::string& h) {
  Ets ets; for (auto& q : p.err) ets.push_back(q.first->term()); MX J; VX e; stack(p, order, ets, useM, J, e);
  int c1 = 0; for (int i = 0; i < nRemove; ++i) c1 += order[i]->minimalDimensions(); int c2 = J.cols() - c1; bool full = J.rows() >= J.cols() && rank(J) == J.cols();
  Dvs in = order; Save s = save(in, ets); boost::shared_ptr<MarginalizationPriorErrorTerm> prior; MX cov; Dvs topDvs;
  auto go = [&] { marginalize(in, ets, nRemove, useM, prior, cov, topDvs, top, 1); };
  if (J.rows() < J.cols() || c2 == 0) { expect(throws(go), "refused", h); expect(!prior, "refused", h); same(s, in, ets, h + " after refusal"); return; }
  if (!full) return; // the result is not defined
  if (throws(go)) { fail("exception", h); return; }
  same(s, in, ets, h); expect(in == order, "inputs-kept", h); Dvs rem(order.begin() + nRemove, order.end()); int cb = 0, bi = 0; for (auto d : rem) { d->setBlockIndex(bi++); d->setColumnBase(cb); cb += d->minimalDimensions(); }
  if (!expect(!!prior, "prior", h)) return;
  checkPrior(*prior, rem, J, e, c1, true, h); nontrivial(hashStr(h)); state(h);
  for (size_t i = 0; i < order.size(); ++i) { order[i]->setBlockIndex(s.b[i][0]); order[i]->setColumnBase(s.b[i][1]); }
  if (top > 0) near(cov, MX(MX(J.transpose() * J).inverse()).topLeftCorner(top, top), 1e-8, "covariance", h); else expect(cov.size() == 0, "covariance", h);
  Dvs want; int d = 0; for (auto v : order) { if (d < top) want.push_back(v); d += v->minimalDimensions(); } expect(topDvs == want, "covariance-variables", h);
}
// all orders of eliminating variables one or more at a time give the same cost of the rest
static void histories(int n, unsigned edges, unsigned unary, bool move) {
  Problem ref(n, edges, unary, 0, 0, 0, true); MX Jall; VX eall; { Dvs o; for (auto& d : ref.dv) o.push_back(d.get()); Ets t; for (auto& q : ref.err) t.push_back(q.first->term()); if (t.empty()) return; stack(ref, o, t, false, Jall, eall); if (Jall.rows() < Jall.cols() || rank(Jall) < Jall.cols()) return; }
  std::function<void(std::vector<unsigned>&, unsigned)> walk = [&](std::vector<unsigned>& steps, unsigned gone) {
    if (tooMany()) return;
    for (unsigned s = 1; s < (1u << n); ++s) if (!(s & gone) && ((s | gone) != (1u << n) - 1)) { steps.push_back(s); std::string h = fmt("%d edges %x unary %x move %d steps", n, edges, unary, move); for (unsigned t : steps) h += fmt(" %x", t);
      Problem p(n, edges, unary, 0, 0, 0, true); Ets left; std::vector<std::pair<ErrorTerm*, std::vector<DesignVariable*>>> terms; std::vector<boost::shared_ptr<MarginalizationPriorErrorTerm>> priors; for (auto& q : p.err) { Dvs v; for (int i : q.second) v.push_back(p.dv[i].get()); terms.push_back({q.first->term(), v}); }
      bool ok = true; for (size_t k = 0; k < steps.size() && ok; ++k) { Dvs in, rest; Ets ets; std::vector<std::pair<ErrorTerm*, std::vector<DesignVariable*>>> keep; std::set<DesignVariable*> rm, nb; for (int i = 0; i < n; ++i) if (steps[k] >> i & 1) { in.push_back(p.dv[i].get()); rm.insert(p.dv[i].get()); }
        int rows = 0, cols = 0; for (auto& t : terms) { bool touch = false; for (auto d : t.second) touch |= rm.count(d); if (touch) { ets.push_back(t.first); rows += t.first->dimension(); for (auto d : t.second) if (!rm.count(d)) nb.insert(d); } else keep.push_back(t); }
        for (auto& d : p.dv) if (nb.count(d.get())) { in.push_back(d.get()); rest.push_back(d.get()); } for (auto d : in) cols += d->minimalDimensions(); if (rest.empty() || rows < cols) { ok = false; break; }
        boost::shared_ptr<MarginalizationPriorErrorTerm> pr; MX cov; Dvs td; if (throws([&] { marginalize(in, ets, rm.size(), false, pr, cov, td, 0, 1); })) { fail("exception", h); ok = false; break; } priors.push_back(pr); keep.push_back({pr.get(), rest}); terms = keep;
        if (move) for (auto d : rest) { auto* v = static_cast<VecDv*>(d); v->v += genMat(v->v.size(), 1, 400 + k); } }
      if (!ok) { steps.pop_back(); continue; }
      int c1 = 0; std::vector<int> ord; for (int i = 0; i < n; ++i) if ((gone | s) >> i & 1) { ord.push_back(i); c1 += DIM[i]; } for (int i = 0; i < n; ++i) if (!((gone | s) >> i & 1)) ord.push_back(i);
      Dvs o; for (int i : ord) o.push_back(ref.dv[i].get()); Ets t; for (auto& q : ref.err) t.push_back(q.first->term()); MX J; VX e; stack(ref, o, t, false, J, e); double base = 0; bool first = true;
      for (int k = 0; k < 3; ++k) { double got = 0; VX delta(J.cols() - c1); int off = 0; for (size_t a = 0; a < ord.size(); ++a) if (!((gone | s) >> ord[a] & 1)) { int i = ord[a]; p.dv[i]->v = ref.dv[i]->v + (k ? VX(genMat(DIM[i], 1, 500 + k, i)) : VX(VX::Zero(DIM[i]))); delta.segment(off, DIM[i]) = p.dv[i]->v - ref.dv[i]->v; off += DIM[i]; }
        for (auto& q : terms) got += q.first->evaluateError(); double want = minOver(J.leftCols(c1), VX(e + J.rightCols(J.cols() - c1) * delta)); if (first) { base = want - got; first = false; } expectNear(got + base, want, 1e-8 * (1 + std::fabs(want)), "elimination-order", h + fmt(" point %d", k)); }
      nontrivial(hashStr(h)); state(h); walk(steps, gone | s); steps.pop_back(); } };
  std::vector<unsigned> st; walk(st, 0);
}
int main(int argc, char** argv) {
  init(argc, argv); sm::logging::setLevel(sm::logging::levels::Fatal);
  for (int n = 1; n <= (thorough() ? 4 : 3); ++n) { int pairs = n * (n - 1) / 2;
    for (unsigned edges = 0; edges < (1u << pairs); ++edges) run(fmt("problem %d %x", n, edges), [&] { for (unsigned unary = 0; unary < (1u << n); ++unary) { if (!edges && !unary) continue; for (int quad = 0; quad < 2; ++quad) for (int mest = 0; mest < 3; ++mest) for (int sc = 0; sc < 2; ++sc) { beat(); Problem p(n, edges, unary, 0.1 * quad, mest > 0, sc, quad); Dvs order; for (auto& d : p.dv) order.push_back(d.get()); std::sort(order.begin(), order.end()); std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i;
      do { Dvs o; int tot = 0; std::string ps; for (int i : perm) { o.push_back(p.dv[i].get()); tot += DIM[i]; ps += fmt("%d", i); } for (int rm = 0; rm <= n; ++rm) for (int top = 0; top <= tot; ++top) { if (tooMany()) return; once(p, o, rm, mest == 2, top, fmt("n %d edges %x unary %x quad %d mest %d scaling %d order %s remove %d top %d", n, edges, unary, quad, mest, sc, ps.c_str(), rm, top)); } } while (std::next_permutation(perm.begin(), perm.end())); } } }); }
  int n = thorough() ? 4 : 3; for (unsigned edges = 1; edges < (1u << n * (n - 1) / 2); ++edges) run(fmt("histories %x", edges), [&] { for (unsigned unary = 0; unary < (1u << n); ++unary) for (int mv = 0; mv < 2; ++mv) { beat(); histories(n, edges, unary, mv); } });
  run("refused inputs", [] { Problem p(3, 7, 7, 0, 0, 0, true); Dvs o; for (auto& d : p.dv) o.push_back(d.get()); Ets t; for (auto& q : p.err) t.push_back(q.first->term());
    for (int k = 0; k < 9; ++k) { Dvs d = o; Ets e = t; if (k < 3) d.push_back(o[k]); else e.insert(e.begin() + (k % 2), t[k - 3]); Save s = save(o, t); boost::shared_ptr<MarginalizationPriorErrorTerm> pr; MX cov; Dvs td; expect(throws([&] { marginalize(d, e, 1, false, pr, cov, td, 0, 1); }) && !pr, "duplicates", fmt("%d", k)); same(s, o, t, fmt("duplicate %d", k)); nontrivial(k); } });
  return finish();
}

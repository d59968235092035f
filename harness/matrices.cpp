// Sparse and block matrices against dense arithmetic.
#include <vmc.hpp>
#include "backend_common.hpp"
#include <aslam_backend/backend/CompressedColumnMatrix.hpp>
#include <aslam_backend/backend/JacobianContainer.hpp>
#include <aslam_backend/backend/DenseMatrix.hpp>
#include <aslam_backend/backend/SparseBlockMatrixWrapper.hpp>
#include <aslam_backend/backend/sparse_matrix_functions.hpp>
#include <aslam_sparse_block_matrix/sparse_block_matrix.h>
#include <aslam_sparse_block_matrix/linear_solver_cholmod.h>
#include <aslam_sparse_block_matrix/linear_solver_dense.h>
#include <aslam_sparse_block_matrix/linear_solver_spqr.h>
#include <fstream>
#include <functional>
#include <unistd.h>
using namespace vmc; using namespace aslam::backend;
typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX; typedef std::vector<int> VI;
typedef aslam_sparse_block_matrix::SparseBlockMatrix<MX> SBM;
namespace sb = aslam_sparse_block_matrix;
static std::string str(const MX& m) { std::string s; for (int r = 0; r < std::min<int>(m.rows(), 6); ++r) { for (int c = 0; c < std::min<int>(m.cols(), 6); ++c) s += fmt("%.6g ", m(r, c)); s += "; "; } return s + fmt("(%dx%d)", (int)m.rows(), (int)m.cols()); }
static bool near(const MX& a, const MX& b, double tol, const std::string& key, const std::string& d) {
  transition();
  if (a.rows() != b.rows() || a.cols() != b.cols() || (a.size() && !((a - b).cwiseAbs().maxCoeff() <= tol * (1 + b.cwiseAbs().maxCoeff())))) { fail(key, d + ": " + str(a) + " instead of " + str(b)); return false; }
  return true;
}
template <typename F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

// ---- compressed column matrices: histories of operations ----
template <typename I> static void checkCcm(CompressedColumnMatrix<I>& m, const MX& want, bool diag, const std::string& h) {
  near(m.toDense(), want, 0, "ccm-value", h);
  expect(m.rows() == (size_t)want.rows() && m.cols() == (size_t)want.cols(), "ccm-size", h);
  for (int r = 0; r < want.rows(); ++r) for (int c = 0; c < want.cols(); ++c) { expect(m(r, c) == want(r, c) && m.value(r, c) == want(r, c), "ccm-element", h + fmt(" %d %d", r, c)); }
  expect(m.nnz() == m.values().size() && m.nnz() == m.row_ind().size() && m.col_ptr().size() == (size_t)want.cols() + 1 && m.col_ptr()[0] == 0 && (size_t)m.col_ptr().back() == m.nnz(), "ccm-structure", h);
  for (size_t c = 0; c + 1 < m.col_ptr().size(); ++c) { expect(m.col_ptr()[c] <= m.col_ptr()[c + 1], "ccm-structure", h + " column pointers"); for (int i = m.col_ptr()[c] + 1; i < m.col_ptr()[c + 1]; ++i) expect(m.row_ind()[i - 1] < m.row_ind()[i], "ccm-structure", h + " order of rows"); }
  int n = diag ? want.cols() - want.rows() : want.cols(); MX part = want.leftCols(n); // products leave out the diagonal
  VX x = genMat(n, 1, 3), y = genMat(want.rows(), 1, 4), o = VX::Constant(2, 7); m.rightMultiply(x, o); near(o, part * x, 1e-14, "ccm-right-multiply", h); m.leftMultiply(y, o); near(o, part.transpose() * y, 1e-14, "ccm-left-multiply", h);
  expect(throws([&] { m.rightMultiply(genMat(n + 1, 1, 1), o); }) && throws([&] { m.leftMultiply(genMat(want.rows() + 1, 1, 1), o); }), "ccm-size-check", h);
  expect(throws([&] { m.value(want.rows(), 0); }) && throws([&] { m.value(0, want.cols()); }), "ccm-size-check", h + " value");
  if (m.nnz()) { cholmod_sparse cs; m.getView(&cs); CompressedColumnMatrix<I> c2; c2.fromCholmodSparse(&cs); near(c2.toDense(), want, 0, "ccm-cholmod", h); expect(cs.nrow == m.rows() && cs.ncol == m.cols() && cs.stype == 0 && cs.packed, "ccm-cholmod", h);
  }
}
template <typename I> static void ccm(int depth) {
  // three design variables of dimensions 1, 2, 2 and one that is inactive
  std::vector<std::unique_ptr<VecDv>> dv; int base = 0; for (int i = 0; i < 4; ++i) { dv.emplace_back(new VecDv(i == 0 ? 1 : 2, i)); dv[i]->setActive(i != 3); dv[i]->setBlockIndex(i != 3 ? i : -1); if (i != 3) { dv[i]->setColumnBase(base); base += dv[i]->v.size(); } }
  int sets[4] = {7, 5, 2, 12 | 1}; MX dense = genMat(3, 4, 21); dense(1, 1) = 0; dense(0, 3) = 0; dense(2, 2) = 1e-5;
  std::function<void(std::vector<int>&)> walk = [&](std::vector<int>& ops) {
    CompressedColumnMatrix<I> m; m.init(5, 0, 10, 3); MX want(5, 0); bool diag = false; std::string h;
    for (size_t k = 0; k < ops.size(); ++k) {
      int o = ops[k]; h += fmt("%d ", o);
      if (o < 4) { int rows = 1 + o % 3; JacobianContainer jc(rows); MX add = MX::Zero(5, rows); std::vector<DesignVariable*> list;
        for (int i = 3; i >= 0; --i) if (sets[o] >> i & 1) { MX J = genMat(rows, dv[i]->v.size(), k, o + 10 * i); jc.add(dv[i].get(), J); list.push_back(dv[i].get()); if (i != 3) add.middleRows(dv[i]->columnBase(), J.cols()) = J.transpose(); }
        if (diag || want.rows() != 5) { if (diag) expect(throws([&] { m.appendJacobians(jc); }), "ccm-diagonal-check", h); else return; continue; }
        if (k % 2) m.appendJacobians(jc); else { JacobianColumnPointer p = m.appendJacobiansSymbolic(rows, list); m.writeJacobians(jc, p); }
        MX n(5, want.cols() + rows); n << want, add; want = n; }
      else if (o == 4 || o == 5) { VX d = o == 4 ? VX::Constant(want.rows(), 3.5) : VX(genMat(want.rows(), 1, 31)); auto f = [&] { if (o == 4) m.pushConstantDiagonalBlock(3.5); else m.pushDiagonalBlock(d); };
        if (diag) { expect(throws(f), "ccm-diagonal-check", h); continue; }
        f(); MX n(want.rows(), want.cols() + want.rows()); n << want, MX(d.asDiagonal()); want = n; diag = true; }
      else if (o == 6) { if (!diag) { expect(throws([&] { m.popDiagonalBlock(); }), "ccm-diagonal-check", h); continue; } m.popDiagonalBlock(); want = MX(want.leftCols(want.cols() - want.rows())); diag = false; }
      else if (o == 7) { VX d = genMat(want.rows(), 1, 41); if (!diag) { expect(throws([&] { m.updateDiagonalBlock(d); }) && throws([&] { m.updateConstantDiagonalBlock(1); }), "ccm-diagonal-check", h); continue; } if (k % 2) { m.updateConstantDiagonalBlock(2); d.setConstant(2); } else m.updateDiagonalBlock(d); want.rightCols(want.rows()) = d.asDiagonal(); }
      else if (o == 8) { m.init(5, 0, 4, 2); want.resize(5, 0); diag = false; }
      else if (o == 9) { m.clear(); want.setZero(); diag = false; }
      else if (o == 10) { m.fromDense(dense); want = dense; diag = false; }
      else if (o == 11) { m.fromDenseTolerance(dense, -1e-4); want = dense; want(2, 2) = 0; diag = false; }
      checkCcm(m, want, diag, h);
    }
    nontrivial(hashStr(h)); state(str(want) + fmt("%d", diag));
  };
  std::function<void(std::vector<int>&)> all = [&](std::vector<int>& ops) { if ((int)ops.size() == depth) { walk(ops); return; } for (int o = 0; o < 12; ++o) { if (tooMany()) return; ops.push_back(o); all(ops); ops.pop_back(); } };
  for (int a = 0; a < 12; ++a) run(fmt("compressed column %zu %d", sizeof(I), a), [&] { std::vector<int> ops{a}; all(ops); });
}

// ---- Jacobian containers ----
static void containers() {
  run("jacobian containers", [] {
    int dims[4] = {1, 3, 2, 2}; // the third one is inactive
    for (int rows = 1; rows <= 3; ++rows) for (int a = 0; a < 256; ++a) for (int b = 0; b < 16; ++b) {
      if (tooMany()) return; beat();
      std::vector<std::unique_ptr<VecDv>> dv; int bi = 0; VI ends; int tot = 0; for (int i = 0; i < 4; ++i) { dv.emplace_back(new VecDv(dims[i], i)); dv[i]->setActive(i != 2); dv[i]->setBlockIndex(i != 2 ? 2 - bi++ : -1); dv[i]->setScaling(1 + i); }
      for (int k = 0; k < 3; ++k) for (auto& d : dv) if (d->blockIndex() == k) { d->setColumnBase(tot); tot += d->v.size(); ends.push_back(tot); }
      std::string h = fmt("rows %d a %x b %x", rows, a, b); JacobianContainer x(rows), y(rows); std::map<int, MX> wx, wy;
      auto add = [&](JacobianContainer& c, std::map<int, MX>& w, int i, int seed) { MX J = genMat(rows, dims[i], seed, i); c.add(dv[i].get(), J); if (i == 2) return; int k = dv[i]->blockIndex(); if (w.count(k)) w[k] += J; else w[k] = J; };
      for (int i = 0; i < 4; ++i) if (a >> i & 1) add(x, wx, i, 1); for (int i = 3; i >= 0; --i) if (a >> (4 + i) & 1) add(x, wx, i, 2);
      for (int i = 0; i < 4; ++i) if (b >> i & 1) add(y, wy, i, 3);
      auto check = [&](JacobianContainer& c, std::map<int, MX>& w, int r, const char* what) {
        std::string d = h + " " + what; if (!expect(c.numDesignVariables() == w.size() && c.rows() == r, "container-size", d)) return;
        size_t n = 0; int cols = 0; MX all(r, tot), packed(r, 0); all.setZero();
        for (auto& p : w) { DesignVariable* v = c.designVariable(n++); if (!expect(v->blockIndex() == p.first, "container-order", d)) return; near(c.Jacobian(v), p.second, 1e-14, "container-value", d); all.middleCols(v->columnBase(), v->minimalDimensions()) = p.second; cols += p.second.cols(); MX q(r, cols); q << packed, p.second; packed = q; }
        expect(c.cols() == cols, "container-size", d + " columns"); expect(throws([&] { c.designVariable(n); }) && throws([&] { c.Jacobian(dv[2].get()); }), "container-check", d);
        if (n) near(c.asDenseMatrix(), packed, 1e-14, "container-dense", d); near(c.asDenseMatrix(ends), all, 1e-14, "container-dense", d + " all");
        VX e = genMat(r, 1, 6); MX S = genMat(r, r, 7); SBM H(ends, ends, true); VX rhs = genMat(tot, 1, 8), rhs0 = rhs; for (int q = 0; q < 3; ++q) *H.block(q, q, true) = genMat(H.rowsOfBlock(q), H.rowsOfBlock(q), 9 + q);
        MX H0 = H.toDense(); c.evaluateHessian(e, S, H, rhs); MX Js = all; for (auto& v : dv) if (v->isActive()) Js.middleCols(v->columnBase(), v->v.size()) *= v->scaling(); MX G = H0 + Js.transpose() * S * S.transpose() * Js, got = H.toDense();
        for (int p = 0; p < 3; ++p) for (int q = p; q < 3; ++q) near(got.block(H.rowBaseOfBlock(p), H.colBaseOfBlock(q), H.rowsOfBlock(p), H.colsOfBlock(q)), G.block(H.rowBaseOfBlock(p), H.colBaseOfBlock(q), H.rowsOfBlock(p), H.colsOfBlock(q)), 1e-13, "container-hessian", d);
        near(rhs, rhs0 - Js.transpose() * S * S.transpose() * e, 1e-13, "container-rhs", d); near(c.asDenseMatrix(ends), all, 1e-14, "container-dense", d + " after the Hessian");
      };
      check(x, wx, rows, "added"); check(y, wy, rows, "second");
      x.add(y); for (auto& p : wy) if (wx.count(p.first)) wx[p.first] += p.second; else wx[p.first] = p.second; check(x, wx, rows, "sum"); check(y, wy, rows, "second after sum");
      for (int r2 = 1; r2 <= 3; r2 += 2) { MX C = genMat(r2, rows, 12); JacobianContainer z = x; z.applyChainRule(C); auto wz = wx; for (auto& p : wz) p.second = C * p.second; check(z, wz, r2, "chain rule"); expect(throws([&] { z.applyChainRule(MX::Identity(r2 + 1, r2 + 1)); }) && throws([&] { z.add(JacobianContainer(r2 + 1)); }) && throws([&] { z.add(dv[0].get(), MX(MX::Zero(r2 + 1, 1))); }) && throws([&] { z.add(dv[0].get(), MX(MX::Zero(r2, 2))); }), "container-check", h); z.reset(4); std::map<int, MX> none; check(z, none, 4, "reset"); }
      x.clear(); wx.clear(); check(x, wx, rows, "clear"); add(x, wx, 1, 5); check(x, wx, rows, "reused"); nontrivial(hashStr(h));
    }
  });
}

// ---- block matrices ----
static SBM make(const VI& r, const VI& c, unsigned mask, unsigned seed) { SBM m(r, c, true); for (size_t j = 0; j < c.size(); ++j) for (size_t i = 0; i < r.size(); ++i) if (mask >> (j * r.size() + i) & 1) *m.block(i, j, true) = genMat(m.rowsOfBlock(i), m.colsOfBlock(j), seed, i * 7 + j); return m; }
static MX dense(const VI& r, const VI& c, unsigned mask, unsigned seed) { MX m = MX::Zero(r.back(), c.back()); for (size_t j = 0; j < c.size(); ++j) for (size_t i = 0; i < r.size(); ++i) if (mask >> (j * r.size() + i) & 1) { int r0 = i ? r[i - 1] : 0, c0 = j ? c[j - 1] : 0; m.block(r0, c0, r[i] - r0, c[j] - c0) = genMat(r[i] - r0, c[j] - c0, seed, i * 7 + j); } return m; }
template <typename I> static MX fromCcs(int rows, int cols, const std::vector<I>& p, const std::vector<I>& ind, const std::vector<double>& x, const std::string& d) { MX m = MX::Zero(rows, cols); for (int c = 0; c < cols; ++c) { expect(p[c] <= p[c + 1], "block-ccs", d + " columns"); for (I k = p[c]; k < p[c + 1]; ++k) { expect(ind[k] >= 0 && ind[k] < rows && (k == p[c] || ind[k] > ind[k - 1]), "block-ccs", d + " rows"); m(ind[k], c) += x[k]; } } return m; }
template <typename I> static void ccs(const SBM& A, const MX& D, bool symmetric, const std::string& d) {
  size_t n = A.nonZeros() * 2 + 1; std::vector<I> p(A.cols() + 1), ind(n); std::vector<double> x(n), x2(n);
  I nz = A.fillCCS<I>(p.data(), ind.data(), x.data(), false); near(fromCcs<I>(A.rows(), A.cols(), p, ind, x, d), D, 0, "block-ccs", d); expect(nz == p[A.cols()] && A.fillCCS<I>(x2.data(), false) == nz && std::equal(x.begin(), x.begin() + nz, x2.begin()), "block-ccs", d + " values only");
  if (!symmetric) return;
  MX U = D.triangularView<Eigen::Upper>(); // blocks below the diagonal are not stored
  nz = A.fillCCS<I>(p.data(), ind.data(), x.data(), true); near(fromCcs<I>(A.rows(), A.cols(), p, ind, x, d), U, 0, "block-ccs", d + " upper"); expect(nz == p[A.cols()] && A.fillCCS<I>(x2.data(), true) == nz && std::equal(x.begin(), x.begin() + nz, x2.begin()), "block-ccs", d + " upper, values only");
  MX full = U + MX(U.transpose()) - MX(U.diagonal().asDiagonal());
  nz = A.fillUpperTriangleCCS<I>(p.data(), ind.data(), x.data()); near(fromCcs<I>(A.rows(), A.cols(), p, ind, x, d), full, 0, "block-ccs", d + " full"); expect(nz == p[A.cols()] && A.fillUpperTriangleCCS<I>(x2.data()) == nz && std::equal(x.begin(), x.begin() + nz, x2.begin()), "block-ccs", d + " full, values only");
}
static MX denseOf(const SparseBlockMatrixWrapper& w) { MX m; w.toDenseInto(m); return m; }
static std::string dir;
static void oneBlockMatrix(const VI& r, const VI& c, unsigned mask, const std::string& h) {
  SBM A = make(r, c, mask, 1); MX D = dense(r, c, mask, 1); near(A.toDense(), D, 0, "block-dense", h); const SBM& CA = A;
  for (int i = 0; i < D.rows(); ++i) for (int j = 0; j < D.cols(); ++j) expect(CA(i, j) == D(i, j), "block-element", h); expect(throws([&] { CA(D.rows(), 0); }) && throws([&] { CA(0, D.cols()); }) && throws([&] { CA(-1, 0); }), "block-check", h);
  size_t nb = 0, nz = 0; for (size_t j = 0; j < c.size(); ++j) for (size_t i = 0; i < r.size(); ++i) { bool set = mask >> (j * r.size() + i) & 1; expect(CA.isBlockSet(i, j) == set && (CA.block(i, j) != nullptr) == set && (A.block(i, j) != nullptr) == set, "block-set", h); if (set) { ++nb; nz += A.rowsOfBlock(i) * A.colsOfBlock(j); } }
  expect(A.nonZeroBlocks() == nb && A.nonZeros() == nz && A.rows() == D.rows() && A.cols() == D.cols() && A.bRows() == (int)r.size() && A.bCols() == (int)c.size(), "block-size", h);
  near(A.transpose().toDense(), D.transpose(), 0, "block-transpose", h); { SBM t = make(c, r, ~0u, 5), *p = &t; expect(A.transpose(p), "block-transpose", h); near(t.toDense(), D.transpose(), 0, "block-transpose", h + " into another"); }
  { SBM B(A), C2 = make(r, c, 5, 3), E; B *= 2; near(B.toDense(), 2 * D, 0, "block-scale", h); near((A * 3.0).toDense(), 3 * D, 1e-15, "block-scale", h + " copy"); C2 = A; near(C2.toDense(), D, 0, "block-assign", h); C2 = C2; near(C2.toDense(), D, 0, "block-assign", h + " self"); E = std::move(B); near(E.toDense(), 2 * D, 0, "block-move", h); SBM F(std::move(E)); near(F.toDense(), 2 * D, 0, "block-move", h + " constructor"); std::unique_ptr<SBM> G(A.clone()); near(G->toDense(), D, 0, "block-clone", h); G->clear(); near(G->toDense(), 0 * D, 0, "block-clear", h); expect(G->nonZeroBlocks() == nb, "block-clear", h); G->clear(true); expect(G->nonZeroBlocks() == 0, "block-clear", h); near(A.toDense(), D, 0, "block-assign", h + " original kept"); }
  for (unsigned m2 : {0u, 0x55u, 0x1ffu & ~mask, 0x1ffu}) { SBM B = make(r, c, m2, 2), *p = &B; MX E = dense(r, c, m2, 2); expect(A.add(p), "block-add", h); near(B.toDense(), D + E, 1e-15, "block-add", h); SBM* q = nullptr; expect(A.add(q), "block-add", h); near(q->toDense(), D, 0, "block-add", h + " to nothing"); delete q;
    VI c3 = {2, 3}; SBM M = make(c, c3, m2, 4); MX DM = dense(c, c3, m2, 4); near((A * M).toDense(), D * DM, 1e-14, "block-multiply", h); SBM T = make(r, c3, ~0u, 6), *t = &T; expect(A.multiply(t, &M), "block-multiply", h); near(T.toDense(), D * DM, 1e-14, "block-multiply", h + " into another"); }
  { VI bad = c; bad.back()++; SBM B(bad, bad, true), *p = &B; SBM* q = nullptr; expect(throws([&] { A * B; }) && !A.multiply(q, &B) && !A.add(p) && !A.transpose(p), "block-check", h + " sizes"); }
  VX x = genMat(D.cols(), 1, 8), y = genMat(D.rows(), 1, 9), o = VX::Constant(D.rows(), 5), o2 = VX::Constant(D.cols(), 5); A.multiply(&o, x); near(o, D * x, 1e-14, "block-multiply-vector", h); A.rightMultiply(&o2, y); near(o2, D.transpose() * y, 1e-14, "block-multiply-vector", h + " transposed"); double* raw = nullptr; A.multiply(raw, x.data()); near(Eigen::Map<VX>(raw, D.rows()), D * x, 1e-14, "block-multiply-vector", h + " array"); delete[] raw; raw = nullptr; A.rightMultiply(raw, y.data()); near(Eigen::Map<VX>(raw, D.cols()), D.transpose() * y, 1e-14, "block-multiply-vector", h + " transposed array"); delete[] raw;
  for (size_t r0 = 0; r0 < r.size(); ++r0) for (size_t r1 = r0 + 1; r1 <= r.size(); ++r1) for (size_t c0 = 0; c0 < c.size(); ++c0) for (size_t c1 = c0 + 1; c1 <= c.size(); ++c1) {
    MX S = D.block(A.rowBaseOfBlock(r0), A.colBaseOfBlock(c0), r[r1 - 1] - A.rowBaseOfBlock(r0), c[c1 - 1] - A.colBaseOfBlock(c0)); std::string d = h + fmt(" slice %zu-%zu %zu-%zu", r0, r1, c0, c1); std::unique_ptr<SBM> v(A.slice(r0, r1, c0, c1, false)), k(A.slice(r0, r1, c0, c1, true)); near(v->toDense(), S, 0, "block-slice", d); near(k->toDense(), S, 0, "block-slice", d + " copy");
    SBM B = make(k->rowBlockIndices(), k->colBlockIndices(), 0x33, 12); A.sliceInto(r0, r1, c0, c1, B); near(B.toDense(), S, 0, "block-slice", d + " into"); *k *= 2; near(A.toDense(), D, 0, "block-slice", d + " copy is separate"); SBM other(*v); other *= 2; near(A.toDense(), D, 0, "block-slice", d + " copy of the view is separate");
    *v *= 2; near(v->toDense(), 2 * S, 0, "block-slice", d + " view scaled"); MX D2 = D; D2.block(A.rowBaseOfBlock(r0), A.colBaseOfBlock(c0), S.rows(), S.cols()) *= 2; near(A.toDense(), D2, 0, "block-slice", d + " view writes through"); *v *= 0.5;
    *v = make(r, c, 3, 14); near(A.toDense(), D, 0, "block-assign", d + " assignment to the view"); near(v->toDense(), dense(r, c, 3, 14), 0, "block-assign", d + " view"); { SBM Z(A); std::unique_ptr<SBM> w(Z.slice(r0, r1, c0, c1, false)); Z = *w; near(Z.toDense(), S, 0, "block-assign", d + " of a view to its matrix"); }
  }
  ccs<int>(A, D, false, h); ccs<long>(A, D, false, h);
  { SparseBlockMatrixWrapper w; w._M = A; near(denseOf(w), D, 0, "wrapper", h); VX q; w.rightMultiply(x, q); near(q, D * x, 1e-14, "wrapper", h); w.leftMultiply(y, q); near(q, D.transpose() * y, 1e-14, "wrapper", h); MX E = dense(r, c, 0x1ff & ~mask, 15); w.fromDense(E); near(denseOf(w), E, 0, "wrapper", h + " from dense"); w.fromDenseTolerance(E, 0.5); MX F = E; for (int i = 0; i < F.size(); ++i) if (std::fabs(F.data()[i]) <= 0.5) F.data()[i] = 0; near(denseOf(w), F, 0, "wrapper", h + " tolerance"); DenseMatrix dm; dm.fromDenseTolerance(E, 0.5); near(dm.toDense(), F, 0, "wrapper", h + " dense"); dm.rightMultiply(x, q); near(q, F * x, 1e-14, "wrapper", h); dm.leftMultiply(y, q); near(q, F.transpose() * y, 1e-14, "wrapper", h); expect(throws([&] { w.fromDense(MX::Zero(E.rows() + 1, E.cols())); }), "block-check", h); }
  nontrivial(hashStr(h)); state(str(D));
}
static const std::vector<VI> parts = {{2}, {1, 3}, {2, 3, 5}, {1, 2, 3}};
static void blocks() {
  for (size_t a = 0; a < parts.size(); ++a) for (size_t b = 0; b < parts.size(); ++b) { if (!thorough() && a + b == 6) continue;
    run(fmt("block matrices %zu %zu", a, b), [&] { unsigned n = 1u << (parts[a].size() * parts[b].size()); for (unsigned m = 0; m < n; ++m) { if (tooMany()) return; beat(); if (!thorough() && n == 512 && m % 3) continue; oneBlockMatrix(parts[a], parts[b], m, fmt("%zu %zu mask %x", a, b, m)); } }); }
}
// symmetric matrices (upper blocks stored): all patterns of blocks above the diagonal
static MX spd(const SBM& U, double diag) { MX D = U.toDense(); MX T = D.triangularView<Eigen::StrictlyUpper>(); MX S = T + MX(T.transpose()); S.diagonal() = D.diagonal(); S.diagonal().array() += 0 * diag; return S; }
static void symmetric() {
  std::vector<VI> ps = {{1}, {3}, {2, 3}, {2, 3, 5}, {1, 4, 5, 7}}; if (thorough()) ps.push_back({2, 3, 6, 7, 9});
  for (size_t a = 0; a < ps.size(); ++a) { int n = ps[a].size(), pairs = n * (n - 1) / 2;
    run(fmt("symmetric %zu", a), [&] { for (unsigned mask = 0; mask < (1u << pairs); ++mask) { if (tooMany()) return; beat(); std::string h = fmt("blocks %d mask %x", n, mask); const VI& p = ps[a];
      auto build = [&](unsigned seed) { SBM A(p, p, true); int k = 0; for (int j = 0; j < n; ++j) { for (int i = 0; i < j; ++i) if (mask >> k++ & 1) *A.block(i, j, true) = genMat(A.rowsOfBlock(i), A.colsOfBlock(j), seed, i * 9 + j); MX g = genMat(A.rowsOfBlock(j), A.rowsOfBlock(j), seed + 1, j); *A.block(j, j, true) = g + MX(g.transpose()) + 12.0 * MX::Identity(g.rows(), g.rows()); } return A; };
      SBM A = build(50); MX S = spd(A, 0), inv = S.inverse(); int N = S.rows(); VX b = genMat(N, 1, 60), x(N), bc = b; ccs<int>(A, A.toDense(), true, h); ccs<long>(A, A.toDense(), true, h);
      // permutations of the blocks
      VI perm(n); for (int i = 0; i < n; ++i) perm[i] = i; do { for (int up = 0; up < 2; ++up) { SBM* q = nullptr; std::string d = h + fmt(" permutation %d %d upper %d", perm[0], perm[n - 1], up); expect(A.symmPermutation(q, perm.data(), up), "block-permutation", d); MX src = up ? S : A.toDense(), want(N, N), got = q->toDense(); for (int pass = 0; pass < 2; ++pass) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (up && perm[i] > perm[j]) { expect(!q->block(perm[i], perm[j]) || q->block(perm[i], perm[j])->isZero(0), "block-permutation", d + " below the diagonal"); continue; } near(got.block(q->rowBaseOfBlock(perm[i]), q->colBaseOfBlock(perm[j]), A.rowsOfBlock(i), A.colsOfBlock(j)), src.block(A.rowBaseOfBlock(i), A.colBaseOfBlock(j), A.rowsOfBlock(i), A.colsOfBlock(j)), 0, "block-permutation", d); } for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) q->block(i, j, true)->setConstant(7); expect(A.symmPermutation(q, perm.data(), up), "block-permutation", d + " again"); got = q->toDense(); } delete q; } } while (std::next_permutation(perm.begin(), perm.end()));
      sb::MatrixStructure ms; A.fillBlockStructure(ms); int cnt = 0; for (int j = 0; j < n; ++j) for (int i = 0; i <= j; ++i) if (A.isBlockSet(i, j)) { expect(ms.Aii[cnt] == i && cnt >= ms.Ap[j] && cnt < ms.Ap[j + 1], "block-structure", h); ++cnt; } expect(ms.n == n && ms.m == n && ms.Ap[n] == cnt, "block-structure", h);
      // solvers, several right hand sides and matrices of the same pattern
      std::vector<std::pair<std::string, std::shared_ptr<sb::LinearSolver<MX>>>> solvers; for (int o = 0; o < 2; ++o) { auto s = std::make_shared<sb::LinearSolverCholmod<MX>>(); s->setBlockOrdering(o); solvers.push_back({fmt("cholmod %d", o), s}); } solvers.push_back({"dense", std::make_shared<sb::LinearSolverDense<MX>>()}); solvers.push_back({"qr", std::make_shared<sb::LinearSolverQr<MX>>()});
      for (auto& s : solvers) { s.second->init(); for (int round = 0; round < 3; ++round) { std::string d = h + " " + s.first + fmt(" round %d", round); SBM B = build(50 + 10 * round); MX SB_ = spd(B, 0); VX bb = genMat(N, 1, 61 + round), keep = bb; bool cov = s.first[0] == 'c';
            if (!expect(s.second->solve(B, x.data(), bb.data()), "solve", d)) continue; near(SB_ * x, keep, 1e-6, "solve", d); near(x, SB_.inverse() * keep, 1e-11, "solve", d);
            if (!cov) continue; MX inv2 = SB_.inverse(); double** bl = nullptr; if (expect(s.second->solveBlocks(bl, B), "solve-blocks", d)) { for (int i = 0; i < n; ++i) { int m = B.rowsOfBlock(i); near(Eigen::Map<MX>(bl[i], m, m), inv2.block(B.rowBaseOfBlock(i), B.rowBaseOfBlock(i), m, m), 1e-11, "solve-blocks", d); delete[] bl[i]; } delete[] bl; }
            std::vector<std::pair<int, int>> want; for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) if ((i + j + round) % 2 == 0 || i == j) want.push_back({i, j}); want.push_back({n - 1, 0}); SBM cv; if (expect(s.second->solvePattern(cv, want, B), "solve-pattern", d)) for (auto& w : want) near(*cv.block(w.first, w.second), inv2.block(B.rowBaseOfBlock(w.first), B.colBaseOfBlock(w.second), B.rowsOfBlock(w.first), B.colsOfBlock(w.second)), 1e-11, "solve-pattern", d); }
        if (s.first[0] != 'c') continue; // not positive definite: refused or solved, and usable again
        SBM B = build(50); *B.block(n - 1, n - 1) *= -1; VX bb = b; if (s.second->solve(B, x.data(), bb.data())) near(spd(B, 0) * x, b, 1e-8, "not-positive", h + s.first); double** bl = nullptr; SBM C = build(50); bb = b; if (expect(s.second->solve(C, x.data(), bb.data()), "solve", h + s.first + " after a failure")) near(x, inv * b, 1e-11, "solve", h + s.first + " after a failure"); (void)bl; }
      // Schur complement on the last blocks, which must be uncoupled from each other
      for (int m0 = 1; m0 < n; ++m0) { bool ok = true; for (int j = m0; j < n; ++j) for (int i = m0; i < j; ++i) if (A.isBlockSet(i, j)) ok = false; if (!ok) continue; for (double lambda : {0.0, 0.7}) { std::string d = h + fmt(" schur %d lambda %g", m0, lambda); VI top(p.begin(), p.begin() + m0); SBM R(top, top, true); std::vector<MX> invV(n - m0); VX r; SBM H = build(50); MX L = S; bool lm = lambda > 0; if (lm) L.diagonal().array() += lambda; int na = top.back();
          for (int pass = 0; pass < 2; ++pass) { aslam::backend::applySchurComplement(H, b, lambda, m0, lm, R, invV, r); MX V = L.bottomRightCorner(N - na, N - na), W = L.topRightCorner(na, N - na); MX want = L.topLeftCorner(na, na) - W * V.inverse() * W.transpose(); MX got = R.toDense().triangularView<Eigen::Upper>(); near(got, MX(want.triangularView<Eigen::Upper>()), 1e-12, "schur", d); near(r, b.head(na) - W * V.inverse() * b.tail(N - na), 1e-12, "schur-rhs", d); near(H.toDense(), A.toDense(), 0, "schur", d + " input kept");
            VX full = L.inverse() * b; for (int i = 0; i < n - m0; ++i) { int bi = m0 + i, rb = H.rowBaseOfBlock(bi); near(invV[i], MX(L.block(rb, rb, H.rowsOfBlock(bi), H.rowsOfBlock(bi)).inverse()), 1e-12, "schur-inverse", d); VX ds; aslam::backend::buildDsi(i, H, b, m0, invV[i], VX(full.head(na)), ds); near(ds, full.segment(rb, H.rowsOfBlock(bi)), 1e-11, "schur-back", d); } } } }
      nontrivial(hashStr(h)); state(h); } });
  }
}

// ---- error terms: weighting and checks of their Jacobians ----
template <class E> struct Wrong : public E { double off = 0, nan = 0; using E::E; void evaluateJacobiansImplementation(JacobianContainer& J) const override { for (size_t i = 0; i < this->m.dv.size(); ++i) { MX a = this->m.jac(i); if (i + 1 == this->m.dv.size()) { a(0, 0) += off; if (nan != 0) a(a.rows() - 1, a.cols() - 1) = nan == 1 ? NAN : INFINITY; } J.add(this->m.dv[i], a); } } };
template <class E> static void errorTerm(int dim, const char* name) {
  for (int nd = 1; nd <= 3; ++nd) for (int inactive = -1; inactive < nd; ++inactive) { if (nd == 1 && inactive == 0) continue; for (int quad = 0; quad < 2; ++quad) for (int mest = 0; mest < 3; ++mest) {
    std::string h = fmt("%s dim %d dvs %d inactive %d quad %d m %d", name, dim, nd, inactive, quad, mest);
    std::vector<std::unique_ptr<VecDv>> own; std::vector<VecDv*> dv; VI ends; int tot = 0; for (int i = 0; i < nd; ++i) { own.emplace_back(new VecDv(1 + i, i)); dv.push_back(own.back().get()); dv[i]->setActive(i != inactive); dv[i]->setScaling(i == 1 ? 2 : 1); if (i != inactive) { dv[i]->setBlockIndex(ends.size()); dv[i]->setColumnBase(tot); tot += 1 + i; ends.push_back(tot); } }
    Wrong<E> e(ErrModel(dv, dim, 70 + nd, quad * 0.2)); MX g = genMat(dim, dim, 71), R = g * g.transpose() + MX::Identity(dim, dim); e.vsSetInvR(R); near(e.vsInvR(), R, 1e-13, "error-invr", h); MX got; e.getInvR(got); near(got, R, 1e-13, "error-invr", h);
    if (mest == 1) e.setMEstimatorPolicy(boost::shared_ptr<MEstimator>(new CauchyMEstimator(2.0))); if (mest == 2) e.setMEstimatorPolicy(boost::shared_ptr<MEstimator>(new HuberMEstimator(0.5)));
    VX r = e.m.error(); double chi = r.dot(R * r), w = e.getMEstimatorWeight(chi); expectNear(e.evaluateError(), w * chi, 1e-12 * (1 + chi), "error-value", h); expectNear(e.getRawSquaredError(), chi, 1e-12 * (1 + chi), "error-value", h); expectNear(e.getWeightedSquaredError(), w * chi, 1e-12 * (1 + chi), "error-value", h); expectNear(e.getCurrentMEstimatorWeight(), w, 1e-12, "error-value", h); near(e.vsError(), r, 0, "error-value", h); expect((int)e.dimension() == dim && e.numDesignVariables() == (size_t)nd, "error-value", h);
    for (int use = 0; use < 2; ++use) { double sw = use ? w : 1; JacobianContainer jc(dim); e.getWeightedJacobians(jc, use); MX St = e.sqrtInvR().transpose(); VX we; e.getWeightedError(we, use); near(we, sqrt(sw) * (St * r), 1e-12, "error-weighted", h); expectNear(we.squaredNorm(), sw * chi, 1e-11 * (1 + chi), "error-weighted", h); MX full = MX::Zero(dim, tot);
      for (int i = 0; i < nd; ++i) if (i != inactive) { MX J = sqrt(sw) * dv[i]->scaling() * St * e.m.jac(i); near(jc.Jacobian(dv[i]), J, 1e-12, "error-weighted", h); full.middleCols(dv[i]->columnBase(), J.cols()) = J; } expect((int)jc.numDesignVariables() == nd - (inactive >= 0), "error-weighted", h);
      SBM H(ends, ends, true); VX rhs = VX::Zero(tot); e.buildHessian(H, rhs, use); MX up = MX(H.toDense()).triangularView<Eigen::Upper>(); near(up, MX(MX(full.transpose() * full).triangularView<Eigen::Upper>()), 1e-12, "error-hessian", h); near(rhs, -full.transpose() * we, 1e-12, "error-hessian", h); }
    JacobianContainer fd(dim); e.evaluateJacobiansFiniteDifference(fd); for (int i = 0; i < nd; ++i) if (i != inactive) near(fd.Jacobian(dv[i]), e.m.jac(i), 1e-6, "error-differences", h);
    e.evaluateError(); expect(!throws([&] { e.checkJacobiansNumerical(1e-5); }) && !throws([&] { e.checkJacobiansFinite(); }), "error-check", h + " right Jacobians refused");
    if (inactive != nd - 1) { e.off = 0.01; e.evaluateError(); expect(throws([&] { e.checkJacobiansNumerical(1e-5); }), "error-check", h + " wrong Jacobian accepted"); e.off = 0; e.nan = 1; expect(throws([&] { e.checkJacobiansFinite(); }), "error-check", h + " NaN accepted"); e.nan = 2; expect(throws([&] { e.checkJacobiansFinite(); }), "error-check", h + " infinity accepted"); }
    near(e.m.error(), r, 0, "error-check", h + " design variables kept"); transition(); nontrivial(hashStr(h)); } }
}
int main(int argc, char** argv) {
  init(argc, argv);
  ccm<int>(thorough() ? 5 : 4); ccm<SuiteSparse_long>(thorough() ? 4 : 3); containers(); blocks(); symmetric();
  run("error terms", [] { for (int d = 1; d <= 3; ++d) errorTerm<ErrDs>(d, "dynamic"); errorTerm<ErrFs<1>>(1, "fixed"); errorTerm<ErrFs<2>>(2, "fixed"); errorTerm<ErrFs<3>>(3, "fixed"); });
  return finish();
}

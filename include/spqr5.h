/* The templates of SuiteSparseQR as SuiteSparse 5 declares them (one parameter),
   passed on to those of SuiteSparse 7. For sources the build of /repo leaves out. */
#ifdef __cplusplus
#pragma once
#include <cholmod.h>
#include <SuiteSparseQR.hpp>
template <typename Entry> struct SSQR5_factorization : SuiteSparseQR_factorization<Entry, int64_t> {};
template <typename Entry> inline SSQR5_factorization<Entry>* SSQR5_symbolic(int ordering, int allow_tol, cholmod_sparse* A, cholmod_common* cc) { return static_cast<SSQR5_factorization<Entry>*>(SuiteSparseQR_symbolic<Entry, int64_t>(ordering, allow_tol, A, cc)); }
template <typename Entry> inline SSQR5_factorization<Entry>* SSQR5_factorize(int ordering, double tol, cholmod_sparse* A, cholmod_common* cc) { return static_cast<SSQR5_factorization<Entry>*>(SuiteSparseQR_factorize<Entry, int64_t>(ordering, tol, A, cc)); }
template <typename Entry> inline int SSQR5_numeric(double tol, cholmod_sparse* A, SSQR5_factorization<Entry>* f, cholmod_common* cc) { return SuiteSparseQR_numeric<Entry, int64_t>(tol, A, f, cc); }
template <typename Entry, typename M> inline M* SSQR5_qmult(int method, SSQR5_factorization<Entry>* f, M* X, cholmod_common* cc) { return SuiteSparseQR_qmult<Entry, int64_t>(method, f, X, cc); }
template <typename Entry, typename M> inline M* SSQR5_solve(int system, SSQR5_factorization<Entry>* f, M* B, cholmod_common* cc) { return SuiteSparseQR_solve<Entry, int64_t>(system, f, B, cc); }
template <typename Entry> inline int SSQR5_free(SSQR5_factorization<Entry>** f, cholmod_common* cc) { SuiteSparseQR_factorization<Entry, int64_t>* p = *f; *f = nullptr; return SuiteSparseQR_free<Entry, int64_t>(&p, cc); }
#define SuiteSparseQR_factorization SSQR5_factorization
#define SuiteSparseQR_symbolic SSQR5_symbolic
#define SuiteSparseQR_factorize SSQR5_factorize
#define SuiteSparseQR_numeric SSQR5_numeric
#define SuiteSparseQR_qmult SSQR5_qmult
#define SuiteSparseQR_solve SSQR5_solve
#define SuiteSparseQR_free SSQR5_free
#endif

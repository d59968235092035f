/* SuiteSparse 5 installs this internal header; of it the project uses one function. */
#pragma once
#include <SuiteSparseQR.hpp>
template <typename Entry, typename Int> double spqr_maxcolnorm(cholmod_sparse* A, cholmod_common* cc);   // of libspqr
template <typename Entry> inline double spqr_maxcolnorm(cholmod_sparse* A, cholmod_common* cc) { return spqr_maxcolnorm<Entry, int64_t>(A, cc); }

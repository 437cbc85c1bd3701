// Helpers for the checks of Hamiltonianmatrix.
#pragma once
#include "sym.h"
#include "pairinteraction/Hamiltonianmatrix.hpp"
#include <complex>
#include <cstring>
#include <vector>
typedef std::complex<double> cplx;

template <typename S>
static S anyval(const char *n);
template <>
double anyval<double>(const char *n) { return sym_double(n); }
template <>
cplx anyval<cplx>(const char *n) {
    double r = sym_double(n);
    return cplx(r, sym_double(n));
}
static bool bits(double a, double b) {
    uint64_t x, y;
    memcpy(&x, &a, 8);
    memcpy(&y, &b, 8);
    return x == y;
}
static bool bits(cplx a, cplx b) { return bits(a.real(), b.real()) && bits(a.imag(), b.imag()); }

// the structure is a valid compressed column matrix
template <typename S>
static bool valid(const Eigen::SparseMatrix<S> &m) {
    int n = m.outerSize();
    if (m.rows() < 0 || m.cols() < 0) return false;
    if (!m.isCompressed()) return false;
    const int *o = m.outerIndexPtr(), *in = m.innerIndexPtr();
    if (n == 0) return true;
    if (o[0] != 0) return false;
    for (int k = 0; k < n; k++)
        if (o[k] > o[k + 1]) return false;
    if ((long)o[n] != (long)m.data().size()) return false;
    for (int k = 0; k < n; k++)
        for (int p = o[k]; p < o[k + 1]; p++) {
            if (in[p] < 0 || in[p] >= m.innerSize()) return false;
            if (p > o[k] && in[p] <= in[p - 1]) return false;
        }
    return true;
}
// same dimensions, same stored elements with the same bits
template <typename S>
static void same(const Eigen::SparseMatrix<S> &a, const Eigen::SparseMatrix<S> &b, const char *what) {
    sym_assert(a.rows() == b.rows() && a.cols() == b.cols(), what);
    sym_assert(a.nonZeros() == b.nonZeros(), what);
    for (int k = 0; k < a.outerSize(); k++) {
        typename Eigen::SparseMatrix<S>::InnerIterator p(a, k), q(b, k);
        for (; p && q; ++p, ++q) {
            sym_assert(p.row() == q.row() && p.col() == q.col(), what);
            sym_assert(bits(p.value(), q.value()), what);
        }
        sym_assert(!p && !q, what);
    }
}

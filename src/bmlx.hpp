// C++ view of the public bml API + dense reference model.
#pragma once
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <numeric>
#include <complex.h>
#ifdef BML_USE_MPI
#include <mpi.h>
#endif
#undef complex
#define complex _Complex
extern "C" {
#include "bml.h"
#include "bml_adjungate_triangle.h"
#include "bml_transpose_triangle.h"
void bml_set_block_sizes(int *bsize, int nb, int mb);   // ellblock/bml_allocate_ellblock.h
#ifndef BML_COMPLEX
float _Complex bml_get_element_single_complex(bml_matrix_t *A, int i, int j);
double _Complex bml_get_element_double_complex(bml_matrix_t *A, int i, int j);
#endif
}
#undef complex
#include "choice.hpp"

typedef std::complex<double> Z;
typedef bml_matrix_t *Mat;
typedef bml_matrix_type_t MType;
typedef bml_matrix_precision_t MPrec;

inline bool is_complex(MPrec p) { return p == single_complex || p == double_complex; }
inline bool is_double(MPrec p) { return p == double_real || p == double_complex; }
inline double eps_of(MPrec p) { return is_double(p) ? 2.220446049250313e-16 : 1.1920928955078125e-07; }
inline size_t size_of(MPrec p)
{
    switch (p) { case single_real: return 4; case double_real: return 8; case single_complex: return 8; default: return 16; }
}
inline const char *tname(MType t)
{
    switch (t) { case dense: return "dense"; case ellpack: return "ellpack"; case ellblock: return "ellblock"; case csr: return "csr"; case distributed2d: return "distributed2d"; default: return "?"; }
}
inline const char *pname(MPrec p)
{
    switch (p) { case single_real: return "single_real"; case double_real: return "double_real"; case single_complex: return "single_complex"; case double_complex: return "double_complex"; default: return "?"; }
}

// value rounded to the precision
inline Z rnd(MPrec p, Z z)
{
    switch (p)
    {
        case single_real: return Z((float) z.real(), 0);
        case double_real: return Z(z.real(), 0);
        case single_complex: return Z((float) z.real(), (float) z.imag());
        default: return z;
    }
}
inline void put(MPrec p, void *buf, size_t i, Z z)
{
    switch (p)
    {
        case single_real: ((float *) buf)[i] = (float) z.real(); break;
        case double_real: ((double *) buf)[i] = z.real(); break;
        case single_complex: ((float *) buf)[2 * i] = (float) z.real(); ((float *) buf)[2 * i + 1] = (float) z.imag(); break;
        default: ((double *) buf)[2 * i] = z.real(); ((double *) buf)[2 * i + 1] = z.imag(); break;
    }
}
inline Z get(MPrec p, const void *buf, size_t i)
{
    switch (p)
    {
        case single_real: return Z(((const float *) buf)[i], 0);
        case double_real: return Z(((const double *) buf)[i], 0);
        case single_complex: return Z(((const float *) buf)[2 * i], ((const float *) buf)[2 * i + 1]);
        default: return Z(((const double *) buf)[2 * i], ((const double *) buf)[2 * i + 1]);
    }
}
// heap buffer of exactly the size needed (so that ASan sees overruns)
struct Buf
{
    MPrec p; size_t n; void *d;
    Buf(MPrec p_, size_t n_) : p(p_), n(n_), d(::operator new(n_ ? n_ * size_of(p_) : 1)) {}
    Buf(MPrec p_, const std::vector<Z> &v) : Buf(p_, v.size()) { for (size_t i = 0; i < n; i++) put(p, d, i, v[i]); }
    Buf(MPrec p_, Z z) : Buf(p_, 1) { put(p, d, 0, z); }
    Buf(const Buf &) = delete;
    ~Buf() { ::operator delete(d); }
    Z operator[](size_t i) const { return get(p, d, i); }
};

struct Dn   // dense reference matrix
{
    int n; std::vector<Z> a;
    Dn(int n_ = 0) : n(n_), a((size_t) n_ * n_, Z(0)) {}
    Z &operator()(int i, int j) { return a[(size_t) i * n + j]; }
    const Z &operator()(int i, int j) const { return a[(size_t) i * n + j]; }
    static Dn eye(int n) { Dn d(n); for (int i = 0; i < n; i++) d(i, i) = 1; return d; }
    bool operator==(const Dn &o) const { return n == o.n && a == o.a; }
};
inline Dn tr(const Dn &A) { Dn R(A.n); for (int i = 0; i < A.n; i++) for (int j = 0; j < A.n; j++) R(i, j) = A(j, i); return R; }
inline Dn conjT(const Dn &A) { Dn R(A.n); for (int i = 0; i < A.n; i++) for (int j = 0; j < A.n; j++) R(i, j) = std::conj(A(j, i)); return R; }
inline Dn mul(const Dn &A, const Dn &B)
{
    int n = A.n; Dn R(n);
    for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) { Z x = A(i, k); if (x != Z(0)) for (int j = 0; j < n; j++) R(i, j) += x * B(k, j); }
    return R;
}
inline Dn absmul(const Dn &A, const Dn &B)   // sum_k |a_ik||b_kj|
{
    int n = A.n; Dn R(n);
    for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) { double x = std::abs(A(i, k)); if (x != 0) for (int j = 0; j < n; j++) R(i, j) += x * std::abs(B(k, j)); }
    return R;
}
inline Dn lin(Z al, const Dn &A, Z be, const Dn &B) { Dn R(A.n); for (size_t i = 0; i < A.a.size(); i++) R.a[i] = al * A.a[i] + be * B.a[i]; return R; }
inline int row_nnz(const Dn &A, int i) { int c = 0; for (int j = 0; j < A.n; j++) c += A(i, j) != Z(0); return c; }
inline void (*max_row_hook)(const Dn &) = nullptr;     // told of every matrix whose rows must fit
inline int max_row(const Dn &A) { int m = 0; if (max_row_hook) max_row_hook(A); for (int i = 0; i < A.n; i++) m = std::max(m, row_nnz(A, i)); return m; }
inline int max_col(const Dn &A) { return max_row(tr(A)); }
inline double maxabs(const Dn &A) { double m = 0; for (auto &z : A.a) m = std::max(m, std::abs(z)); return m; }
inline bool allfinite(const Dn &A) { for (auto &z : A.a) if (!std::isfinite(z.real()) || !std::isfinite(z.imag())) return false; return true; }

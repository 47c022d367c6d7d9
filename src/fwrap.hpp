// C-signature functions on top of the Fortran interface.
#pragma once
#include "case.hpp"
#define FX4(ret, name, ...) ret fx_##name##_single_real(__VA_ARGS__), fx_##name##_double_real(__VA_ARGS__), fx_##name##_single_complex(__VA_ARGS__), fx_##name##_double_complex(__VA_ARGS__);
extern "C" {
Mat fx_zero(int, int, int, int, int, Mat), fx_noinit(int, int, int, int, int, Mat), fx_banded(int, int, int, int, int, Mat), fx_random(int, int, int, int, int, Mat), fx_identity(int, int, int, int, int, Mat);
void fx_deallocate(Mat *), fx_clear(Mat); int fx_allocated(Mat);
void fx_add(Mat, Mat, double, double, double, int), fx_add_deprecated(Mat, Mat, double, double, double, int); double fx_add_norm(Mat, Mat, double, double, double, int);
void fx_add_identity(Mat, double, double), fx_scale_add_identity(Mat, double, double, double);
void fx_multiply(Mat, Mat, Mat, double, double, double, int), fx_element_multiply(Mat, Mat, Mat, double, int), fx_multiply_x2(Mat, Mat, double, int, int, double *);
void fx_copy(Mat, Mat); Mat fx_copy_new(Mat, Mat), fx_transpose(Mat, Mat), fx_inverse(Mat, Mat);
void fx_reorder(Mat, int *), fx_save_domain(Mat), fx_restore_domain(Mat), fx_transpose_triangle(Mat, int), fx_adjungate_triangle(Mat, int), fx_threshold(Mat, double);
double fx_trace(Mat), fx_sum_squares(Mat), fx_fnorm(Mat), fx_trace_mult(Mat, Mat), fx_fnorm2(Mat, Mat), fx_sum_squares_submatrix(Mat, int), fx_sum_AB(Mat, Mat, double, double), fx_sum_squares2(Mat, Mat, double, double, double);
void fx_normalize(Mat, double, double), fx_gershgorin(Mat, int, double *), fx_gershgorin_partial(Mat, int, int, double *);
int fx_get_N(Mat), fx_get_M(Mat), fx_get_precision(Mat), fx_get_bandwidth(Mat), fx_get_element_precision(Mat), fx_get_row_bandwidth(Mat, int); double fx_get_sparsity(Mat, double);
void fx_get_type(Mat, char *), fx_get_deep_type(Mat, char *), fx_get_element_type(Mat, char *), fx_get_distribution_mode(Mat, char *), fx_read(Mat, char *), fx_write(Mat, char *);
void fx_matrix2submatrix_index(Mat, Mat, int *, int, int *, int *, int, int), fx_matrix2submatrix(Mat, Mat, int *, int), fx_submatrix2matrix(Mat, Mat, int *, int, int, double, int);
void fx_adjacency(Mat, int *, int *, int), fx_adjacency_group(Mat, int *, int, int *, int *, int); Mat fx_group_matrix(Mat, int *, int, double, Mat);
Mat fx_block(int, int, int, int, int, int *, int, Mat); void fx_bad(int, int);
void fx_diagonalize(Mat, double *, Mat), fx_ranks(int *), fx_print(Mat, int, int, int, int);
FX4(void, set_element, Mat, int, int, const void *) FX4(void, set_element_new, Mat, int, int, const void *) FX4(void, set_row, Mat, int, int, const void *, double, int, int)
FX4(void, set_diagonal, Mat, int, const void *, double, int, int) FX4(void, get_row, Mat, int, int, int, void *) FX4(void, get_diagonal, Mat, int, int, void *)
FX4(void, get_element, Mat, int, int, void *) FX4(void, scale1, const void *, Mat) FX4(void, scale2, const void *, Mat, Mat) FX4(void, export, Mat, int, int, void *)
FX4(Mat, import, int, int, int, const void *, double, int, int, Mat) FX4(void, print_dense, int, const void *, int, int, int, int, int)
}
#define FP(p, name) ((p) == single_real ? fx_##name##_single_real : (p) == double_real ? fx_##name##_double_real : (p) == single_complex ? fx_##name##_single_complex : fx_##name##_double_complex)
namespace fw {
inline unsigned tick() { static unsigned k = 0; return k++; }      // varies which optional arguments are present
inline Mat junk() { return tick() % 3 ? NULL : (bml_identity_matrix) (dense, double_real, 2, 2, sequential); }   // a matrix the call has to release
inline int pre(int n) { switch (tick() % 4) { case 0: return n; case 1: return n + 3; default: return 0; } }       // result array: right size, wrong size, unallocated
inline int dm() { return tick() % 2 ? 0 : -1; }
inline void *mem(size_t k) { return (bml_allocate_memory) (k ? k : 1); }
inline Mat zero_matrix(MType t, MPrec p, int n, int m, bml_distribution_mode_t) { return fx_zero(t, p, n, m, dm(), junk()); }
inline Mat noinit_matrix(MType t, MPrec p, int n, int m, bml_distribution_mode_t) { return fx_noinit(t, p, n, m, dm(), junk()); }
inline Mat banded_matrix(MType t, MPrec p, int n, int m, bml_distribution_mode_t) { return fx_banded(t, p, n, m, dm(), junk()); }
inline Mat random_matrix(MType t, MPrec p, int n, int m, bml_distribution_mode_t) { return fx_random(t, p, n, m, dm(), junk()); }
inline Mat identity_matrix(MType t, MPrec p, int n, int m, bml_distribution_mode_t) { return fx_identity(t, p, n, m, dm(), junk()); }
inline void add(Mat A, Mat B, double a, double b, double t) { unsigned k = tick(); if (k % 3 == 0) fx_add_deprecated(A, B, a, b, t, t != 0 || k & 1); else fx_add(A, B, a, b, t, t != 0 || k & 1); }
inline double add_norm(Mat A, Mat B, double a, double b, double t) { return fx_add_norm(A, B, a, b, t, t != 0 || tick() & 1); }
inline void multiply(Mat A, Mat B, Mat C, double a, double b, double t) { unsigned k = tick(); fx_multiply(A, B, C, a, b, t, ((a != 1 || k & 1) ? 1 : 0) | ((b != 0 || k & 2) ? 2 : 0) | ((t != 0 || k & 4) ? 4 : 0)); }
inline void element_multiply_AB(Mat A, Mat B, Mat C, double t) { fx_element_multiply(A, B, C, t, t != 0 || tick() & 1); }
inline void *multiply_x2(Mat A, Mat B, double t) { double *r = (double *) mem(16); fx_multiply_x2(A, B, t, t != 0 || tick() & 1, pre(2), r); return r; }
inline Mat copy_new(Mat A) { return fx_copy_new(A, junk()); }
inline Mat transpose_new(Mat A) { return fx_transpose(A, junk()); }
inline Mat inverse(Mat A) { return fx_inverse(A, junk()); }
inline void *gershgorin(Mat A) { double *r = (double *) mem(16); fx_gershgorin(A, pre(2), r); return r; }
inline void *gershgorin_partial(Mat A, int k) { double *r = (double *) mem(16); fx_gershgorin_partial(A, k, pre(2), r); return r; }
inline void transpose_triangle(Mat A, char t) { fx_transpose_triangle(A, t); }
inline void adjungate_triangle(Mat A, char *t) { fx_adjungate_triangle(A, *t); }
inline int get_row_bandwidth(Mat A, int i) { return fx_get_row_bandwidth(A, i + 1); }
inline MPrec get_precision(Mat A) { return A ? (MPrec) fx_get_precision(A) : (bml_get_precision) (A); }
inline MType get_type(Mat A)
{
    char s[21]; fx_get_type(A, s); std::string r(s); r.erase(r.find_last_not_of(' ') + 1);
    for (MType t : { dense, ellpack, ellblock, csr }) if (r == tname(t)) return t;
    return type_uninitialized;
}
inline void read_bml_matrix(Mat A, const char *f) { std::string s(f); fx_read(A, &s[0]); }
inline void write_bml_matrix(Mat A, const char *f) { std::string s(f); fx_write(A, &s[0]); }
inline void matrix2submatrix_index(Mat A, Mat B, int *nodes, int ns, int *idx, int *vs, int f) { fx_matrix2submatrix_index(A, B, nodes, ns, idx, vs, f, 0); }
inline void matrix2submatrix_index_graph(Mat B, int *nodes, int ns, int *idx, int *vs, int f) { fx_matrix2submatrix_index(NULL, B, nodes, ns, idx, vs, f, 1); }
inline void submatrix2matrix(Mat A, Mat B, int *idx, int l, int ll, double t) { fx_submatrix2matrix(A, B, idx, l, ll, t, t != 0 || tick() & 1); }
inline Mat group_matrix(Mat A, int *h, int n, double t) { return fx_group_matrix(A, h, n, t, junk()); }
inline MPrec prec(Mat A) { return (bml_get_precision) (A); }
inline int N(Mat A) { return (bml_get_N) (A); }
inline void set_element(Mat A, int i, int j, const void *v) { FP(prec(A), set_element)(A, i + 1, j + 1, v); }
inline void set_element_new(Mat A, int i, int j, const void *v) { FP(prec(A), set_element_new)(A, i + 1, j + 1, v); }
inline void set_row(Mat A, int i, const void *r, double t) { unsigned k = tick(); FP(prec(A), set_row)(A, i + 1, N(A), r, t, t != 0 || k & 1, k % 3 == 0 ? 2 : 1); }
inline void set_diagonal(Mat A, const void *r, double t) { unsigned k = tick(); FP(prec(A), set_diagonal)(A, N(A), r, t, t != 0 || k & 1, k % 3 == 0 ? 2 : 1); }
inline void *get_row(Mat A, int i) { void *r = mem(N(A) * size_of(prec(A))); FP(prec(A), get_row)(A, i + 1, N(A), pre(N(A)), r); return r; }
inline void *get_diagonal(Mat A) { void *r = mem(N(A) * size_of(prec(A))); FP(prec(A), get_diagonal)(A, N(A), pre(N(A)), r); return r; }
inline void *get_element(Mat A, int i, int j)
{
    MType t = (bml_get_type) (A);
    if ((t != dense && t != ellpack) || i < 0 || j < 0 || i >= N(A) || j >= N(A)) return (bml_get_element) (A, i, j);      // the module reads single elements of these two formats only
    static double r[2]; FP(prec(A), get_element)(A, i + 1, j + 1, r); return r;
}
inline void scale_inplace(void *al, Mat A) { FP(prec(A), scale1)(al, A); }
inline void scale(void *al, Mat A, Mat B) { FP(prec(A), scale2)(al, A, B); }
inline void *export_to_dense(Mat A, bml_dense_order_t o)
{
    int n = N(A); MPrec p = prec(A); void *r = mem((size_t) n * n * size_of(p)); FP(p, export)(A, n, pre(n), r);
    if (o == dense_row_major) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { Z x = get(p, r, (size_t) i * n + j), y = get(p, r, (size_t) j * n + i); put(p, r, (size_t) i * n + j, y); put(p, r, (size_t) j * n + i, x); }
    return r;
}
inline Mat import_from_dense(MType t, MPrec p, bml_dense_order_t o, int n, int m, const void *a, double th, bml_distribution_mode_t)
{
    Buf b(p, (size_t) n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) put(p, b.d, (size_t) j * n + i, get(p, a, o == dense_row_major ? (size_t) i * n + j : (size_t) j * n + i));
    unsigned k = tick(); int has = ((th != 0 || k & 1) ? 1 : 0) | ((t != dense || m != n || k & 2) ? 2 : 0) | (k & 4);
    return FP(p, import)(t, n, m, b.d, th, has, k / 8 % 3, junk());
}
inline void diagonalize(Mat A, void *w, Mat V)
{
    int n = N(A); double *d = (double *) malloc(n * 8); fx_diagonalize(A, d, V);    // the module returns double precision eigenvalues for every matrix
    for (int i = 0; i < n; i++) put(prec(A), w, i, Z(d[i])); free(d);
}
}
#define bml_zero_matrix fw::zero_matrix
#define bml_noinit_matrix fw::noinit_matrix
#define bml_banded_matrix fw::banded_matrix
#define bml_random_matrix fw::random_matrix
#define bml_identity_matrix fw::identity_matrix
#define bml_deallocate fx_deallocate
#define bml_clear fx_clear
#define bml_add fw::add
#define bml_add_norm fw::add_norm
#define bml_add_identity fx_add_identity
#define bml_scale_add_identity fx_scale_add_identity
#define bml_multiply fw::multiply
#define bml_element_multiply_AB fw::element_multiply_AB
#define bml_multiply_x2 fw::multiply_x2
#define bml_copy fx_copy
#define bml_copy_new fw::copy_new
#define bml_reorder fx_reorder
#define bml_save_domain fx_save_domain
#define bml_restore_domain fx_restore_domain
#define bml_transpose_new fw::transpose_new
#define bml_transpose_triangle fw::transpose_triangle
#define bml_adjungate_triangle fw::adjungate_triangle
#define bml_threshold fx_threshold
#define bml_trace fx_trace
#define bml_trace_mult fx_trace_mult
#define bml_sum_squares fx_sum_squares
#define bml_sum_squares2 fx_sum_squares2
#define bml_sum_squares_submatrix fx_sum_squares_submatrix
#define bml_sum_AB fx_sum_AB
#define bml_fnorm fx_fnorm
#define bml_fnorm2 fx_fnorm2
#define bml_normalize fx_normalize
#define bml_gershgorin fw::gershgorin
#define bml_gershgorin_partial fw::gershgorin_partial
#define bml_inverse fw::inverse
#define bml_get_N fx_get_N
#define bml_get_M fx_get_M
#define bml_get_type fw::get_type
#define bml_get_precision fw::get_precision
#define bml_get_bandwidth fx_get_bandwidth
#define bml_get_row_bandwidth fw::get_row_bandwidth
#define bml_get_sparsity fx_get_sparsity
#define bml_read_bml_matrix fw::read_bml_matrix
#define bml_write_bml_matrix fw::write_bml_matrix
#define bml_matrix2submatrix_index fw::matrix2submatrix_index
#define bml_matrix2submatrix_index_graph fw::matrix2submatrix_index_graph
#define bml_matrix2submatrix fx_matrix2submatrix
#define bml_submatrix2matrix fw::submatrix2matrix
#define bml_adjacency fx_adjacency
#define bml_adjacency_group fx_adjacency_group
#define bml_group_matrix fw::group_matrix
#define bml_diagonalize fw::diagonalize
#define bml_set_element fw::set_element
#define bml_set_element_new fw::set_element_new
#define bml_set_row fw::set_row
#define bml_set_diagonal fw::set_diagonal
#define bml_get_row fw::get_row
#define bml_get_diagonal fw::get_diagonal
#define bml_get_element fw::get_element
#define bml_scale_inplace fw::scale_inplace
#define bml_scale fw::scale
#define bml_export_to_dense fw::export_to_dense
#define bml_import_from_dense fw::import_from_dense

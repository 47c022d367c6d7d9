// C25: OpenMP teams of any size and any split of the loops, under ThreadSanitizer
#include "prog.hpp"
#include "omp_rt.hpp"

PROP(C25, program, 3)
{
    MType t = c.src.pick(ALL4); MPrec p = gen_prec(c); int n = c.src.chance(1, 4) ? c.src.range(17, 40) : c.src.range(2, 16); Cfg g; g.t = t; g.p = p; g.n = n; g.m = n; setup_blocks(c, g);
    int m = t != ellblock && n > 2 && c.src.chance(1, 4) ? c.src.range(1, n) : n;
    c.note("%s %s N=%d M=%d", tname(t), pname(p), n, m); if (!g.bs.empty()) { c.note(" blocks="); for (int b : g.bs) c.note("%d,", b); }
    c.note(":"); c.label(std::string("type:") + tname(t)); c.label(std::string("prec:") + pname(p)); if (m < n) c.label("M<N");
    Prog P(c, p, n, m, true); P.bs = g.bs; P.types = { t, t, t }; if (c.src.chance(1, 5)) { P.types.push_back(c.src.pick(ALL4)); P.types.push_back(t); }
    P.before = [&]() { rt_threads = c.src.pick({ 1, 2, 3, 4, 5, 8, 12, 17 }); rt_seed = c.src.u(1 << 20); c.note(" {%d}", rt_threads); };
    int tries = 0; P.step(); for (int k = 0; k < 12 && c.src.more(12); ) if (P.step() || ++tries > 30) k++;
    P.finish();
    if (P.nops >= 2 && rt_regions >= 4) c.nontrivial();
}

// every scalar and array result at one thread and at several
static std::vector<double> results(Case &c, const Cfg &g, Mat A, Mat B, int n, int r0, int cnt, const std::vector<int> &core)
{
    std::vector<double> r; MType t = g.t; MPrec p = g.p;
    auto arr = [&](void *x, int k) { double *d = (double *) x; for (int i = 0; i < k; i++) r.push_back(d[i]); bml_free_memory(x); };
    auto mat = [&](Mat X) { Dn R = rd(X, p, n); for (auto &z : R.a) { r.push_back(z.real()); r.push_back(z.imag()); } };
    auto vec = [&](void *x) { for (int i = 0; i < n; i++) { Z z = get(p, x, i); r.push_back(z.real()); r.push_back(z.imag()); } bml_free_memory(x); };
    r.push_back(bml_trace(A)); r.push_back(bml_trace_mult(A, B)); r.push_back(bml_sum_squares(A)); r.push_back(bml_fnorm(A)); r.push_back(bml_sum_squares2(A, B, 0.5, -1.5, 0.0));
    if (t != csr) r.push_back(bml_fnorm2(A, B)); if (t != ellblock) { r.push_back(bml_sum_squares_submatrix(A, cnt)); r.push_back(bml_get_bandwidth(A)); }
    r.push_back(bml_get_sparsity(A, 0.5));
    arr(bml_gershgorin(A), 2); if (t != ellblock) arr(bml_gershgorin_partial(A, cnt), 2);
    vec(bml_get_row(A, r0)); vec(bml_get_diagonal(A)); vec(bml_accumulate_offdiag(A, 1));
    Mat X = bml_zero_matrix(t, p, n, n, sequential); bml_multiply(A, B, X, 0.5, 0.0, 0.0); mat(X); bml_multiply(B, A, X, 1.5, -0.5, 0.01); mat(X);
    arr(bml_multiply_x2(A, X, 0.0), 2); mat(X); bml_multiply_AB(A, B, X, 0.0); mat(X); if (t == dense || t == ellpack) { bml_multiply_adjust_AB(A, B, X, 0.0); mat(X); }
    if (t != ellblock) { bml_element_multiply_AB(A, B, X, 0.0); mat(X); }
    bml_copy(A, X); bml_add(X, B, 1.5, -0.5, 0.0); mat(X); if (t != csr) { bml_copy(A, X); r.push_back(bml_add_norm(X, B, 1.5, -0.5, 0.0)); mat(X); }
    bml_copy(A, X); bml_add_identity(X, 0.75, 0.0); mat(X); bml_scale_add_identity(X, 2.0, -0.5, 0.0); mat(X); bml_transpose(X); mat(X); bml_threshold(X, 0.5); mat(X);
    { Mat T = bml_transpose_new(A); mat(T); bml_deallocate(&T); T = bml_threshold_new(A, 1.0); mat(T); bml_deallocate(&T); }
    bml_copy(A, X); bml_normalize(X, -3.0, 5.0); mat(X);
    { Mat H = bml_copy_new(A); bml_add_identity(H, 4.0 * n + 10, 0.0); Mat I = bml_inverse(H); mat(I); bml_deallocate(&H); bml_deallocate(&I); }
    bml_deallocate(&X); return r;
}
PROP(C25, results, 1)
{
    Cfg g = gen_cfg(c, ALL4, 24); int n = g.n; Dn A = gen_matrix(c, n, g.p, 1), B = gen_related(c, A, g.p, 1); dump(c, "A", A); dump(c, "B", B);
    rt_threads = 1; rt_seed = 0; Mat a = build(c, g, A), b = build(c, g, B); int r0 = c.src.u(n), cnt = 1 + c.src.u(n); std::vector<int> core;
    auto one = results(c, g, a, b, n, r0, cnt, core);
    rt_threads = c.src.pick({ 2, 3, 4, 5, 8, 12, 17 }); rt_seed = c.src.u(1 << 20); c.note(" threads %d", rt_threads);
    auto many = results(c, g, a, b, n, r0, cnt, core);
    CHECK(c, one.size() == many.size(), "number of results");
    double s = 1; for (double x : one) if (std::abs(x) < 1e300) s = std::max(s, std::abs(x));
    for (size_t k = 0; k < one.size(); k++) CHECK(c, one[k] == many[k] || std::abs(one[k] - many[k]) <= 400 * n * g.eps() * s, "result %zu is %.17g with %d threads, %.17g with one", k, many[k], rt_threads, one[k]);
    rt_threads = 1; expect_exact(c, a, g, A, "A"); expect_exact(c, b, g, B, "B"); bml_deallocate(&a); bml_deallocate(&b);
    if (n > 1 && interesting(A)) c.nontrivial();
}

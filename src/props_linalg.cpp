// C15 diagonalize, C16 inverse, C31 built-in GEMM, C34 SP2 purification
#include "gen.hpp"

static void hermitize(Dn &A) { for (int i = 0; i < A.n; i++) { A(i, i) = A(i, i).real(); for (int j = i + 1; j < A.n; j++) A(j, i) = std::conj(A(i, j)); } }
static double norm_max_row(const Dn &A) { double m = 0; for (int i = 0; i < A.n; i++) { double s = 0; for (int j = 0; j < A.n; j++) s += std::abs(A(i, j)); m = std::max(m, s); } return m; }
static Dn rounded(const Dn &A, MPrec p) { Dn R = A; for (auto &z : R.a) z = rnd(p, z); return R; }

// eigendecomposition of a Hermitian matrix by cyclic Jacobi rotations (reference)
static void jacobi(Dn A, std::vector<double> &w, Dn &V)
{
    int n = A.n; V = Dn::eye(n);
    for (int sweep = 0; sweep < 60; sweep++)
    {
        double off = 0, all = 0;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double q = std::norm(A(i, j)); all += q; if (i != j) off += q; }
        if (off <= 1e-30 * all) break;
        for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++)
        {
            double r = std::abs(A(p, q)); if (r == 0) continue;
            Z ph = A(p, q) / r;                     // a_pq = r e^{i f}
            double th = (A(q, q).real() - A(p, p).real()) / (2 * r);
            double t = (th >= 0 ? 1 : -1) / (std::abs(th) + std::sqrt(th * th + 1)), cs = 1 / std::sqrt(t * t + 1), sn = t * cs;
            // columns: new p = cs*p - sn*conj(ph)*q ; new q = sn*ph*p + cs*q
            for (int k = 0; k < n; k++)
            {
                Z x = A(k, p), y = A(k, q);
                A(k, p) = cs * x - sn * std::conj(ph) * y; A(k, q) = sn * ph * x + cs * y;
                x = V(k, p); y = V(k, q);
                V(k, p) = cs * x - sn * std::conj(ph) * y; V(k, q) = sn * ph * x + cs * y;
            }
            for (int k = 0; k < n; k++)
            {
                Z x = A(p, k), y = A(q, k);
                A(p, k) = cs * x - sn * ph * y; A(q, k) = sn * std::conj(ph) * x + cs * y;
            }
        }
    }
    std::vector<int> o(n); std::iota(o.begin(), o.end(), 0);
    std::sort(o.begin(), o.end(), [&](int a, int b) { return A(a, a).real() < A(b, b).real(); });
    w.resize(n); Dn W = V;
    for (int k = 0; k < n; k++) { w[k] = A(o[k], o[k]).real(); for (int i = 0; i < n; i++) V(i, k) = W(i, o[k]); }
}
// Q <- Q H with a random Householder reflector
static void reflect(Case &c, Dn &Q, bool cz)
{
    int n = Q.n; std::vector<Z> v(n); double s = 0;
    for (auto &x : v) { x = Z(2 * c.src.unit() - 1, cz ? 2 * c.src.unit() - 1 : 0); s += std::norm(x); }
    if (s < 1e-3) return;
    for (int i = 0; i < n; i++) { Z t = 0; for (int k = 0; k < n; k++) t += Q(i, k) * v[k]; for (int k = 0; k < n; k++) Q(i, k) -= 2.0 * t * std::conj(v[k]) / s; }
}
static Dn gen_hermitian(Case &c, const Cfg &g, std::string &kind)
{
    int n = g.n, k = c.src.u(7); Dn A(n);
    switch (k)
    {
        case 0: case 1: A = gen_matrix(c, n, g.p, 1); hermitize(A); kind = "sparse"; break;
        case 2: A = gen_matrix(c, n, g.p, 0); hermitize(A); kind = "dyadic"; break;
        case 3: for (int i = 0; i < n; i++) A(i, i) = c.src.range(-3, 3); kind = "diagonal"; break;
        case 4: case 5:
        {   // prescribed (degenerate, clustered, negative) spectrum
            Dn Q = Dn::eye(n); int r = c.src.range(1, 3); while (r--) reflect(c, Q, g.cz());
            int deg = c.src.u(3); std::vector<double> w(n);
            for (auto &x : w) x = deg == 0 ? c.src.range(-2, 2) : deg == 1 ? 1 + 1e-9 * c.src.range(0, 5) : -4 * c.src.unit();
            Dn L(n); for (int i = 0; i < n; i++) L(i, i) = w[i];
            A = mul(mul(Q, L), conjT(Q)); hermitize(A); kind = deg == 0 ? "degenerate" : deg == 1 ? "clustered" : "negative";
            break;
        }
        case 6: { A = gen_matrix(c, n, g.p, 1); hermitize(A); double s = std::pow(10.0, c.src.range(-6, 6)); for (auto &z : A.a) z *= s; kind = "scaled"; break; }
    }
    return rounded(A, g.p);
}
static bool herm_complex(const Dn &A) { for (auto &z : A.a) if (z.imag() != 0) return true; return false; }

// ---------------------------------------------------------------- C15
// complex matrices go through LAPACK's ?HEEVR, which leaves eigenvectors of
// clustered eigenvalues orthogonal only to 2e-3 (double) in rare cases; how it
// turns out depends on alignment and workspace, so that calling it again does
// not tell.  The residual bounds the product of two vectors by residual/gap.
static double heevr_slack(MPrec p) { return !is_complex(p) ? 0 : 0.1; }
static void diagonalize_case(Case &c)
{
    Cfg g = gen_cfg(c, ALL4); int n = g.n; std::string kind;
    Dn A = gen_hermitian(c, g, kind);
    c.label("kind:" + kind); c.note(" diagonalize %s", kind.c_str()); dump(c, "A", A);
    Mat a = build(c, g, A);
    Dn Junk = gen_matrix(c, n, g.p, 0);
    bool pre = c.src.chance(1, 3);
    Mat v = pre ? build(c, g, Junk) : bml_zero_matrix(g.t, g.p, n, n, sequential);
    c.note(" target %s", pre ? "prefilled" : "zero");
    Buf w(g.p, n);
    bml_diagonalize(a, w.d, v);
    expect_exact(c, a, g, A, "A after diagonalize");
    expect_meta(c, v, g, n, "eigenvectors");
    Dn V = rd(v, g.p, n); CHECK(c, allfinite(V), "eigenvectors are not finite");
    double sc = std::max(norm_max_row(A), 1e-300), tol = 60.0 * (n + 4) * g.eps();
    Dn L(n);
    for (int i = 0; i < n; i++)
    {
        CHECK(c, w[i].imag() == 0, "eigenvalue %d has imaginary part %g", i, w[i].imag());
        if (i) CHECK(c, w[i].real() >= w[i - 1].real(), "eigenvalues not ascending: w[%d]=%.17g > w[%d]=%.17g", i - 1, w[i - 1].real(), i, w[i].real());
        L(i, i) = w[i].real();
    }
    Dn T(n); for (auto &x : T.a) x = tol;
    { Dn O = T; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) { double gap = std::abs(w[i].real() - w[j].real()), s = heevr_slack(g.p); O(i, j) += gap > 0 ? std::min(s, 4 * tol * sc / gap) : s; } expect_close(c, mul(conjT(V), V), Dn::eye(n), O, "V^H V"); }
    for (auto &x : T.a) x = tol * sc;
    expect_close(c, mul(A, V), mul(V, L), T, "A V = V diag(w)");
    // the eigenvalues themselves, against an independent solver
    std::vector<double> rw; Dn RV; jacobi(A, rw, RV);
    for (int i = 0; i < n; i++) CHECK(c, std::abs(rw[i] - w[i].real()) <= tol * sc, "eigenvalue %d is %.17g, reference %.17g", i, w[i].real(), rw[i]);
    // result is an ordinary matrix
    if (c.src.coin()) check_reads(c, v, g, V, "eigenvectors");
    bml_deallocate(&a); bml_deallocate(&v);
    if (n > 1 && !(A == tr(conjT(A)) && kind == "diagonal")) { c.nontrivial(); if (herm_complex(A)) c.label("hermitian-complex"); }
}
PROP(C15, diagonalize, 1) { diagonalize_case(c); }

// ---------------------------------------------------------------- C16
// Gauss-Jordan with full row pivoting in double; false if (nearly) singular
static bool invert(const Dn &A0, Dn &X)
{
    int n = A0.n; Dn A = A0; X = Dn::eye(n); double sc = maxabs(A0); if (sc == 0) return false;
    for (int k = 0; k < n; k++)
    {
        int p = k; for (int i = k; i < n; i++) if (std::abs(A(i, k)) > std::abs(A(p, k))) p = i;
        if (std::abs(A(p, k)) < 1e-12 * sc) return false;
        for (int j = 0; j < n; j++) { std::swap(A(k, j), A(p, j)); std::swap(X(k, j), X(p, j)); }
        Z d = 1.0 / A(k, k);
        for (int j = 0; j < n; j++) { A(k, j) *= d; X(k, j) *= d; }
        for (int i = 0; i < n; i++) if (i != k) { Z f = A(i, k); if (f != Z(0)) for (int j = 0; j < n; j++) { A(i, j) -= f * A(k, j); X(i, j) -= f * X(k, j); } }
    }
    return true;
}
PROP(C16, inverse, 1)
{
    Cfg g = gen_cfg(c, ALL4, 36); int n = g.n; Dn A(n), X; std::string kind;
    int k = c.src.u(6);
    switch (k)
    {
        case 0: { A = gen_matrix(c, n, g.p, 1); for (int i = 0; i < n; i++) A(i, i) += c.src.coin() ? n + 1.0 : -(n + 1.0); kind = "dominant"; break; }
        case 1: case 2:
        {   // row-permuted dominant matrix: needs pivoting, diagonal often missing
            Dn B = gen_matrix(c, n, g.p, 1); for (int i = 0; i < n; i++) B(i, i) = (c.src.coin() ? 1 : -1) * (n + 1.0);
            std::vector<int> pm(n); std::iota(pm.begin(), pm.end(), 0); for (int i = n; i > 1; i--) std::swap(pm[i - 1], pm[c.src.u(i)]);
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(pm[i], j) = B(i, j);
            kind = "permuted"; break;
        }
        case 3: { A = gen_matrix(c, n, g.p, 1); kind = "general"; break; }
        case 4: { std::vector<int> pm(n); std::iota(pm.begin(), pm.end(), 0); for (int i = n; i > 1; i--) std::swap(pm[i - 1], pm[c.src.u(i)]); for (int i = 0; i < n; i++) A(i, pm[i]) = gen_value(c, g.p, 0); kind = "monomial"; break; }
        case 5: { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (j >= i) A(i, j) = i == j ? gen_value(c, g.p, 0) : c.src.chance(1, 3) ? gen_value(c, g.p, 1) * 0.3 : Z(0); if (c.src.coin()) A = tr(A); kind = "triangular"; break; }
    }
    A = rounded(A, g.p);
    double lim = is_double(g.p) ? 1e8 : 1e3, cond = 0;
    if (invert(A, X)) cond = norm_max_row(A) * norm_max_row(X);
    if (!(cond > 0 && cond < lim)) { kind = "general"; for (int i = 0; i < n; i++) A(i, i) += 2.0 * norm_max_row(A) + 1; A = rounded(A, g.p); CHECK(c, invert(A, X), "harness: singular"); cond = norm_max_row(A) * norm_max_row(X); }
    c.label("kind:" + kind); c.note(" inverse %s cond %.3g", kind.c_str(), cond); dump(c, "A", A);
    Mat a = build(c, g, A); Mat x = bml_inverse(a);
    expect_exact(c, a, g, A, "A after inverse");
    expect_meta(c, x, g, n, "inverse");
    Dn R = rd(x, g.p, n);
    double tol = 40.0 * (n + 4) * g.eps() * cond; Dn T(n); for (auto &z : T.a) z = tol;
    expect_close(c, mul(A, R), Dn::eye(n), T, "A*X"); expect_close(c, mul(R, A), Dn::eye(n), T, "X*A");
    if (c.src.coin())
    {   // inverting again gives A back; the inverse is an independent, ordinary matrix
        bml_deallocate(&a); check_reads(c, x, g, R, "inverse after deallocating A");
        Mat y = bml_inverse(x); Dn Y = rd(y, g.p, n); Dn S(n); for (auto &z : S.a) z = tol * norm_max_row(A) * 10;
        expect_close(c, Y, A, S, "inverse of the inverse"); bml_deallocate(&y);
    }
    else bml_deallocate(&a);
    bml_deallocate(&x);
    if (n > 1 && !(A == tr(A))) c.nontrivial();
}

// ---------------------------------------------------------------- C31
#define GEMM(s, T) extern "C" void bml_gemm_internal_##s(const char *, const char *, const int *, const int *, const int *, const T *, const T *, const int *, const T *, const int *, const T *, T *, const int *);
GEMM(single_real, void) GEMM(double_real, void) GEMM(single_complex, void) GEMM(double_complex, void)
PROP(C31, gemm, 1)
{
    MPrec p = gen_prec(c); const char *F = "NTC";
    char ta[2] = { F[c.src.u(3)], 0 }, tb[2] = { F[c.src.u(3)], 0 };
    auto dim = [&]() { return c.src.chance(1, 12) ? 0 : c.src.range(1, c.src.coin() ? 5 : 14); };
    int m = dim(), n = dim(), k = dim();
    int ra = ta[0] == 'N' ? m : k, ca = ta[0] == 'N' ? k : m, rb = tb[0] == 'N' ? k : n, cb = tb[0] == 'N' ? n : k;
    auto ldx = [&](int r) { return std::max(1, r) + (c.src.coin() ? 0 : c.src.range(1, 4)); };
    int lda = ldx(ra), ldb = ldx(rb), ldc = ldx(m);
    Z al = gen_scalar(c, p), be = gen_scalar(c, p);
    if (is_complex(p)) { if (c.src.coin()) al = rnd(p, Z(al.real(), gen_scalar(c, p))); if (c.src.coin()) be = rnd(p, Z(be.real(), gen_scalar(c, p))); }
    c.note("gemm %s '%s' '%s' m=%d n=%d k=%d lda=%d ldb=%d ldc=%d alpha=(%g,%g) beta=(%g,%g)", pname(p), ta, tb, m, n, k, lda, ldb, ldc, al.real(), al.imag(), be.real(), be.imag());
    c.label(std::string("op:") + ta + tb); c.label(std::string("prec:") + pname(p));
    int mode = c.src.u(2);
    auto fill = [&](int ld, int rows, int cols, Z pad) { std::vector<Z> v((size_t) ld * std::max(cols, 1), pad); for (int j = 0; j < cols; j++) for (int i = 0; i < rows; i++) v[(size_t) j * ld + i] = c.src.chance(1, 6) ? Z(0) : gen_value(c, p, mode); return v; };
    Z nanz(NAN, is_complex(p) ? NAN : 0), mark = rnd(p, Z(777.25, is_complex(p) ? -777.5 : 0));
    // padding of the operands is NaN: reading it shows; with beta 0, so is C
    std::vector<Z> a = fill(lda, ra, ca, nanz), b = fill(ldb, rb, cb, nanz), cc = fill(ldc, m, n, mark);
    bool nanc = be == Z(0) && c.src.coin();
    if (nanc) for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) cc[(size_t) j * ldc + i] = nanz;
    Buf A(p, a), B(p, b), C(p, cc), AL(p, al), BE(p, be);
    switch (p)
    {
        case single_real: bml_gemm_internal_single_real(ta, tb, &m, &n, &k, AL.d, A.d, &lda, B.d, &ldb, BE.d, C.d, &ldc); break;
        case double_real: bml_gemm_internal_double_real(ta, tb, &m, &n, &k, AL.d, A.d, &lda, B.d, &ldb, BE.d, C.d, &ldc); break;
        case single_complex: bml_gemm_internal_single_complex(ta, tb, &m, &n, &k, AL.d, A.d, &lda, B.d, &ldb, BE.d, C.d, &ldc); break;
        default: bml_gemm_internal_double_complex(ta, tb, &m, &n, &k, AL.d, A.d, &lda, B.d, &ldb, BE.d, C.d, &ldc);
    }
    auto same2 = [&](Z x, Z y) { return (x == y) || (std::isnan(x.real()) && std::isnan(y.real())); };
    for (size_t i = 0; i < a.size(); i++) CHECK(c, same2(A[i], a[i]), "operand A changed at %zu", i);
    for (size_t i = 0; i < b.size(); i++) CHECK(c, same2(B[i], b[i]), "operand B changed at %zu", i);
    auto op = [&](const std::vector<Z> &v, int ld, char t, int i, int j) { Z x = t == 'N' ? v[(size_t) j * ld + i] : v[(size_t) i * ld + j]; return t == 'C' ? std::conj(x) : x; };
    bool nz = false;
    for (int j = 0; j < std::max(n, 1); j++) for (int i = 0; i < ldc; i++)
    {
        size_t q = (size_t) j * ldc + i;
        if (j >= n || i >= m) { CHECK(c, C[q] == cc[q], "element %d,%d outside of the %dx%d result was written", i, j, m, n); continue; }
        Z s = 0; double mag = 0;
        if (al != Z(0)) for (int l = 0; l < k; l++) { Z t = op(a, lda, ta[0], i, l) * op(b, ldb, tb[0], l, j); s += t; mag += std::abs(t); }
        Z r = al * s + (be == Z(0) ? Z(0) : be * cc[q]); nz = nz || s != Z(0);
        double tol = 8 * (k + 4) * eps_of(p) * (std::abs(al) * mag + (be == Z(0) ? 0 : std::abs(be) * std::abs(cc[q]))) + (is_double(p) ? 1e-300 : 1e-40);
        CHECK(c, std::abs(C[q] - r) <= tol, "element (%d,%d) = %s, expected %s within %g", i, j, zs(C[q]).c_str(), zs(r).c_str(), tol);
    }
    if (nz && m > 1 && n > 1 && k > 1) c.nontrivial();
}

// ---------------------------------------------------------------- C34
PROP(C34, sp2, 1)
{
    Cfg g = gen_cfg(c, ALL4, 20); int n = g.n;
    if (n < 2) c.skip();
    int nocc = c.src.range(1, n - 1);
    // Hamiltonian: banded/sparse/dense Hermitian, then shift its spectrum apart
    // at the occupation so that there is a gap
    Dn H(n); int kind = c.src.u(3); double gap = c.src.pick({ 0.5, 0.25, 0.1 });
    std::vector<double> w; Dn V;
    if (kind == 0)
    {   // block structured: decoupled occupied and empty sites, permuted
        std::vector<int> pm(n); std::iota(pm.begin(), pm.end(), 0); for (int i = n; i > 1; i--) std::swap(pm[i - 1], pm[c.src.u(i)]);
        Dn A = gen_matrix(c, n, g.p, 1); hermitize(A);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) H(pm[i], pm[j]) = (i < nocc) == (j < nocc) ? A(i, j) / (2.0 * n) : Z(0);
        for (int i = 0; i < n; i++) H(pm[i], pm[i]) += i < nocc ? -1.0 - gap : 1.0;
    }
    else
    {
        if (kind == 1) { H = gen_matrix(c, n, g.p, 1); hermitize(H); }
        else { int b = c.src.range(1, 3); for (int i = 0; i < n; i++) for (int j = i; j <= std::min(n - 1, i + b); j++) { H(i, j) = gen_value(c, g.p, 1); H(j, i) = std::conj(H(i, j)); } for (int i = 0; i < n; i++) H(i, i) = H(i, i).real(); }
        jacobi(H, w, V);
        double width = std::max(w[n - 1] - w[0], 0.5), have = w[nocc] - w[nocc - 1];
        if (have < gap * width)
        {   // H += s * (empty projector)
            double s = gap * width - have; Dn P(n);
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int q = nocc; q < n; q++) P(i, j) += s * V(i, q) * std::conj(V(j, q));
            H = lin(1, H, 1, P); hermitize(H);
        }
    }
    H = rounded(H, g.p); hermitize(H);
    jacobi(H, w, V);
    double width = w[n - 1] - w[0], rel = (w[nocc] - w[nocc - 1]) / std::max(norm_max_row(H) + width, 1e-12);
    if (!(rel > 0.02)) c.skip();
    c.note(" SP2 kind %d nocc %d gap/width %.3f", kind, nocc, rel); dump(c, "H", H);
    c.label(kind == 0 ? "H:block" : kind == 1 ? "H:sparse" : "H:banded");
    Dn R(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int q = 0; q < nocc; q++) R(i, j) += V(i, q) * std::conj(V(j, q));
    Mat h = build(c, g, H), x = bml_copy_new(h), x2 = bml_zero_matrix(g.t, g.p, n, n, sequential);
    double *gb = (double *) bml_gershgorin(x), lo = gb[0], hi = gb[1]; bml_free_memory(gb);
    double slack = 20 * n * g.eps() * norm_max_row(H);
    CHECK(c, lo <= w[0] + slack && hi >= w[n - 1] - slack, "Gershgorin [%g,%g] does not enclose the spectrum [%g,%g]", lo, hi, w[0], w[n - 1]);
    bml_normalize(x, lo, hi);
    bool done = false; int it;
    double thr = 4.0 * n * std::sqrt((double) n) * g.eps();
    for (it = 0; it < 100 && !done; it++)
    {
        double *t = (double *) bml_multiply_x2(x, x2, 0.0); double t1 = t[0], t2 = t[1]; bml_free_memory(t);
        double tx = bml_trace(x), tx2 = bml_trace(x2), ts = 50 * n * g.eps() * n;
        CHECK(c, std::abs(tx - t1) <= ts && std::abs(tx2 - t2) <= ts, "iteration %d: traces %g %g from multiply_x2, %g %g from bml_trace", it, t1, t2, tx, tx2);
        if (std::abs(tx - tx2) <= thr) done = true;
        if (std::abs(tx2 - nocc) <= std::abs(2 * tx - tx2 - nocc)) bml_copy(x2, x);
        else bml_add(x, x2, 2.0, -1.0, 0.0);
    }
    CHECK(c, done, "SP2 did not converge in %d iterations (trace %g, occupation %d)", it, bml_trace(x), nocc);
    Dn X = rd(x, g.p, n); double tol = 300.0 * n * g.eps() / rel; Dn T(n); for (auto &z : T.a) z = tol;
    expect_close(c, X, R, T, "density matrix");
    expect_close(c, mul(X, X), X, T, "idempotency");
    expect_close(c, conjT(X), X, T, "symmetry");
    { Dn S(n); for (auto &z : S.a) z = tol * norm_max_row(H); expect_close(c, mul(X, H), mul(H, X), S, "commutation with H"); }
    CHECK(c, std::abs(bml_trace(x) - nocc) <= tol * n, "trace %g, occupation %d", bml_trace(x), nocc);
    expect_exact(c, h, g, H, "H");
    if (c.src.coin())
    {   // the density matrix assembled from bml_diagonalize
        Mat v = bml_zero_matrix(g.t, g.p, n, n, sequential); Buf ev(g.p, n); bml_diagonalize(h, ev.d, v);
        Dn W = rd(v, g.p, n), D(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int q = 0; q < nocc; q++) D(i, j) += W(i, q) * std::conj(W(j, q));
        double lo = 0; if (is_complex(g.p)) { Dn O = mul(conjT(W), W); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) lo = std::max(lo, std::abs(O(i, j))); } for (auto &z : T.a) z += 2 * n * lo; expect_close(c, X, D, T, "density matrix from bml_diagonalize"); bml_deallocate(&v);
    }
    bml_deallocate(&h); bml_deallocate(&x); bml_deallocate(&x2);
    if (it > 3) c.nontrivial();
}

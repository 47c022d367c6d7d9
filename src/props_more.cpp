// C10 transposition, C11 threshold, C12 norms, C13 trace, C14 Gershgorin and
// normalize, C17 introspection, C18 constructors
#include "gen.hpp"

static double tinyv(MPrec p) { return is_double(p) ? 1e-300 : 1e-37; }
static Dn support(const Dn &A) { Dn R(A.n); for (size_t k = 0; k < A.a.size(); k++) R.a[k] = A.a[k] != Z(0); return R; }
static int g_row(const Cfg &g, const Dn &D) { return std::max(max_row(D), 1); }
static void hermitize(Dn &A) { for (int i = 0; i < A.n; i++) { A(i, i) = A(i, i).real(); for (int j = i + 1; j < A.n; j++) A(j, i) = std::conj(A(i, j)); } }

// ---------------------------------------------------------------- C10
static bool tr_room(const Dn &W, int j, int m) { int k = 0; for (int i = 0; i < W.n; i++) k += W(i, j) != Z(0); return k < m; }
PROP(C10, transpose, 3)
{
    Cfg g = gen_cfg(c, ALL4, 0, true); int n = g.n;
    Dn D = gen_matrix(c, n, g.p, MOVED);
    int m = gen_m(c, g, std::max(max_row(D), max_col(D)));
    bool inplace = c.src.coin();
    c.note(" %s M=%d", inplace ? "transpose" : "transpose_new", m); dump(c, "A", D);
    c.label(inplace ? "op:in-place" : "op:new");
    Mat A = build(c, g, D, m);
    int reps = c.src.range(1, 3);
    Dn W = D;
    for (int r = 0; r < reps; r++)
    {
        Dn T = tr(W);
        if (inplace) { bml_transpose(A); expect_meta(c, A, g, m, "A"); expect_exact(c, A, g, T, "transposed A"); }
        else
        {
            Mat B = bml_transpose_new(A);
            expect_meta(c, B, g, m, "B");
            expect_exact(c, A, g, W, "A");
            check_reads(c, B, g, T, "B");
            // the result stands on its own
            if (c.src.coin()) { int i = c.src.u(n), j = c.src.u(n); if (T(i, j) != Z(0)) { Z v = gen_value(c, g.p, 0); set_elem(c, B, g.p, i, j, v, false); T(i, j) = v; expect_exact(c, A, g, W, "A after writing to B"); } }
            bml_deallocate(&A); A = B;
        }
        W = T;
        // stays usable
        if (c.src.coin()) { int i = c.src.u(n), j = c.src.u(n); if (W(i, j) != Z(0) || (!bctl.tight && row_nnz(W, i) < m && tr_room(W, j, m))) { Z v = gen_value(c, g.p, 0); set_elem(c, A, g.p, i, j, v, false); W(i, j) = v; } }
    }
    check_reads(c, A, g, W, "result");
    bml_deallocate(&A);
    if (n > 1 && !(D == tr(D))) c.nontrivial();
}

PROP(C10, triangle, 2)
{
    bool adj = c.src.coin();
    Cfg g = gen_cfg(c, adj ? std::vector<MType>{ dense, ellpack } : std::vector<MType>{ dense }); int n = g.n;
    Dn D = gen_matrix(c, n, g.p, MOVED); char t[2] = { c.src.coin() ? 'u' : 'l', 0 };
    Dn E(n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
    {
        bool keep = i == j || (t[0] == 'u' ? j > i : j < i);
        E(i, j) = keep ? D(i, j) : adj ? std::conj(D(j, i)) : D(j, i);
    }
    int m = gen_m(c, g, std::max(max_row(D), max_row(E)));
    c.note(" %s '%s' M=%d", adj ? "adjungate_triangle" : "transpose_triangle", t, m); dump(c, "A", D);
    c.label(adj ? "op:adjungate" : "op:triangle");
    Mat A = build(c, g, D, m);
    int reps = c.src.range(1, 2);     // mirroring twice changes nothing
    while (reps--) { if (adj) bml_adjungate_triangle(A, t); else bml_transpose_triangle(A, t[0]); }
    expect_meta(c, A, g, m, "A");
    check_reads(c, A, g, E, "mirrored A");
    if (g.t == ellpack) for (int i = 0; i < n; i++) CHECK(c, bml_get_row_bandwidth(A, i) >= row_nnz(E, i) && bml_get_row_bandwidth(A, i) <= m, "row %d holds %d entries for %d non-zeros", i, bml_get_row_bandwidth(A, i), row_nnz(E, i));
    bml_deallocate(&A);
    if (n > 1 && !(D == E)) c.nontrivial();
}

// ---------------------------------------------------------------- C11
PROP(C11, threshold, 1)
{
    Cfg g = gen_cfg(c, ALL4, 0, true); int n = g.n;
    Dn D = gen_matrix(c, n, g.p, MOVED);
    double th = gen_threshold(c, g.p, { &D });
    int m = gen_m(c, g, g_row(g, D));
    int which = c.src.u(3);      // 0,1 in place; 2 new
    c.note(" threshold%s(%g) M=%d", which == 2 ? "_new" : "", th, m); dump(c, "A", D);
    c.label(which == 2 ? "op:new" : "op:in-place");
    Mat A = build(c, g, D, m), R = A;
    if (which == 2) { R = bml_threshold_new(A, th); expect_exact(c, A, g, D, "A"); } else bml_threshold(A, th);
    expect_meta(c, R, g, g.t == csr ? 0 : m, "result");
    Dn E = rd(R, g.p, n); int kept = 0, dropped = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
    {
        double a = std::abs(D(i, j)); bool tie = g.cz() && D(i, j).imag() != 0 && std::abs(a - th) <= 4 * g.eps() * a;
        if (tie) { CHECK(c, same(E(i, j), D(i, j)) || E(i, j) == Z(0), "element (%d,%d)=%s changed to %s by threshold %g", i, j, zs(D(i, j)).c_str(), zs(E(i, j)).c_str(), th); continue; }
        Z x = a > th ? D(i, j) : Z(0); kept += x != Z(0); dropped += x != D(i, j);
        CHECK(c, same(E(i, j), x), "threshold %g left %s at (%d,%d), expected %s (was %s)", th, zs(E(i, j)).c_str(), i, j, zs(x).c_str(), zs(D(i, j)).c_str());
    }
    check_reads(c, R, g, E, "result");
    if (g.t != ellblock && g.t != dense) CHECK(c, bml_get_bandwidth(R) == max_row(E), "bandwidth %d after threshold, %d non-zeros", bml_get_bandwidth(R), max_row(E));
    bml_threshold(R, th); expect_exact(c, R, g, E, "second threshold");
    // result and source are independent and usable
    if (which == 2)
    {
        if (c.src.coin()) { bml_clear(A); check_reads(c, R, g, E, "result after clearing A"); }
        else { int i = c.src.u(n), j = c.src.u(n); if (E(i, j) != Z(0)) { set_elem(c, R, g.p, i, j, Z(3), false); E(i, j) = 3; check_reads(c, R, g, E, "result after a write"); expect_exact(c, A, g, D, "A after writing to the result"); } }
    }
    if (which == 2) bml_deallocate(&R);
    bml_deallocate(&A);
    if (kept && dropped) c.nontrivial();
    if (th > 0) c.label("threshold>0");
}

// ---------------------------------------------------------------- C12
// lower and upper bound of sum_k f(x_k) over |x_k|>th where x_k is known up to d_k
struct Rng { double lo = 0, hi = 0, mag = 0; };
static void addsq(Rng &r, Z x, double d, double th, double eps)
{
    double a = std::abs(x), e = d + 4 * eps * a;
    double l = std::max(0.0, a - e), h = a + e;
    if (a - e > th) { r.lo += l * l; r.hi += h * h; } else if (a + e > th) r.hi += h * h;
    r.mag += h * h;
}
static void in_range(Case &c, const char *what, double v, Rng r, const Cfg &g, int n)
{
    double t = r.mag * g.eps() * (n * n + 16) + tinyv(g.p);
    CHECK(c, v >= r.lo - t && v <= r.hi + t, "%s = %.17g, expected [%.17g, %.17g] +- %g", what, v, r.lo, r.hi, t);
}
PROP(C12, norms, 1)
{
    int which = c.src.u(6);     // 0 sum_squares 1 squares2 2 submatrix 3 fnorm 4 fnorm2 5 sum_AB
    static const char *nm[] = { "sum_squares", "sum_squares2", "sum_squares_submatrix", "fnorm", "fnorm2", "sum_AB" };
    Cfg g = gen_cfg(c, which == 2 ? std::vector<MType>{ dense, ellpack, csr } : which == 4 ? std::vector<MType>{ dense, ellpack, ellblock } : ALL4, 0, true);
    int n = g.n, vm = c.src.u(3); Dn DA = gen_matrix(c, n, g.p, vm), DB = gen_related(c, DA, g.p, vm);
    double al = gen_scalar(c, g.p), be = gen_scalar(c, g.p);
    bool aliased = which != 0 && which != 2 && which != 3 && c.src.chance(1, 10);
    if (aliased) DB = DA;
    Dn X = which == 5 ? DA : lin(al, DA, be, DB);
    if (which == 5) for (size_t k = 0; k < X.a.size(); k++) X.a[k] = al * DA.a[k] * DB.a[k];
    double th = which == 1 || which == 5 ? gen_threshold(c, g.p, { &X }) : 0;
    int core = c.src.range(0, n);
    max_row(DB); int ma = gen_m(c, g, max_row(DA)), mb = gen_m(c, g, max_row(DB));
    c.note(" %s alpha=%g beta=%g thr=%g core=%d M=%d,%d%s", nm[which], al, be, th, core, ma, mb, aliased ? " B is A" : ""); dump(c, "A", DA); dump(c, "B", DB);
    c.label(std::string("op:") + nm[which]);
    Mat A = build(c, g, DA, ma), B = aliased ? A : build(c, g, DB, mb);
    Rng r; double v;
    switch (which)
    {
        case 0: v = bml_sum_squares(A); for (auto &z : DA.a) addsq(r, z, 0, -1, g.eps()); in_range(c, "sum_squares", v, r, g, n); break;
        case 1:
        {
            v = bml_sum_squares2(A, B, al, be, th);
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
            {
                double d = 4 * g.eps() * (std::abs(al * DA(i, j)) + std::abs(be * DB(i, j)));
                if (g.t != ellblock) { addsq(r, X(i, j), d, th, g.eps()); continue; }
                // ellblock decides by block: blocks whose largest element exceeds t count in full, blocks whose norm does not may be left out
                int a0 = blk_lo(g, i), a1 = blk_hi(g, i), b0 = blk_lo(g, j), b1 = blk_hi(g, j); double fro = 0, mx = 0, dd = 0;
                for (int a = a0; a < a1; a++) for (int b = b0; b < b1; b++) { fro += std::norm(X(a, b)); mx = std::max(mx, std::abs(X(a, b))); dd += 4 * g.eps() * (std::abs(al * DA(a, b)) + std::abs(be * DB(a, b))); }
                Rng q; addsq(q, X(i, j), d, -1, g.eps()); r.mag += q.mag; r.hi += q.hi;
                if (mx > th * (1 + 8 * g.eps()) + dd) r.lo += q.lo;
            }
            in_range(c, "sum_squares2", v, r, g, n); break;
        }
        case 2: v = bml_sum_squares_submatrix(A, core); for (int i = 0; i < core; i++) for (int j = 0; j < core; j++) addsq(r, DA(i, j), 0, -1, g.eps()); in_range(c, "sum_squares_submatrix", v, r, g, n); break;
        case 3: v = bml_fnorm(A); for (auto &z : DA.a) addsq(r, z, 0, -1, g.eps()); CHECK(c, v >= 0, "fnorm = %g", v); in_range(c, "fnorm^2", v * v, r, g, n); break;
        case 4: v = bml_fnorm2(A, B); for (size_t k = 0; k < DA.a.size(); k++) { addsq(r, DA.a[k] - DB.a[k], 2 * g.eps() * (std::abs(DA.a[k]) + std::abs(DB.a[k])), -1, g.eps()); } CHECK(c, v >= 0, "fnorm2 = %g", v); in_range(c, "fnorm2^2", v * v, r, g, n); break;
        default:
        {
            v = bml_sum_AB(A, B, al, th);
            double lo = 0, hi = 0, mag = 0;
            for (size_t k = 0; k < X.a.size(); k++)
            {
                double a = std::abs(X.a[k]), x = X.a[k].real(), d = 16 * g.eps() * a; mag += a;
                if (a - d > th) { lo += x; hi += x; } else if (a + d > th) { lo += std::min(0.0, x); hi += std::max(0.0, x); }
            }
            double t = mag * g.eps() * (n * n + 32) + tinyv(g.p);
            CHECK(c, v >= lo - t && v <= hi + t, "sum_AB = %.17g, expected [%.17g, %.17g] +- %g", v, lo, hi, t);
        }
    }
    expect_exact(c, A, g, DA, "A"); if (!aliased) expect_exact(c, B, g, DB, "B");
    bml_deallocate(&A); if (!aliased) bml_deallocate(&B);
    if (maxabs(which == 2 ? DA : X) > 0 && n > 1 && (which != 2 || (core > 0 && core < n))) c.nontrivial();
    if (th > 0) c.label("threshold>0");
}

// ---------------------------------------------------------------- C13
PROP(C13, trace, 1)
{
    bool mult = c.src.chance(2, 3);
    Cfg g = gen_cfg(c, ALL4, 0, true); int n = g.n, vm = c.src.u(3);
    Dn DA = gen_matrix(c, n, g.p, vm), DB = gen_related(c, DA, g.p, vm); bool aliased = mult && c.src.chance(1, 8); if (aliased) DB = DA;
    int ma = gen_m(c, g, std::max(max_row(DA), mult ? max_row(DB) : 0)), mb = ma;   // bml_trace_mult asks for equal dimensions, M included
    c.note(" %s M=%d,%d%s", mult ? "trace_mult" : "trace", ma, mb, aliased ? " B is A" : ""); dump(c, "A", DA); if (mult) dump(c, "B", DB);
    c.label(mult ? "op:trace_mult" : "op:trace");
    Mat A = build(c, g, DA, ma), B = mult && !aliased ? build(c, g, DB, mb) : A;
    Z e = 0; double mag = 0, v;
    if (mult) { v = bml_trace_mult(A, B); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) { Z x = DA(i, k) * DB(k, i); e += x; mag += std::abs(x); } }
    else { v = bml_trace(A); for (int i = 0; i < n; i++) { e += DA(i, i); mag += std::abs(DA(i, i)); } }
    CHECK(c, std::abs(v - e.real()) <= mag * g.eps() * (4 * n + 16) + tinyv(g.p), "%s = %.17g, expected %.17g", mult ? "trace_mult" : "trace", v, e.real());
    expect_exact(c, A, g, DA, "A"); if (mult && !aliased) expect_exact(c, B, g, DB, "B");
    if (mult && !bctl.tight && c.src.chance(1, 3))
    {   // agreement with the product itself
        Dn S(n); { Dn a = support(DA), b = support(DB); S = mul(a, b); }
        Mat C = bml_zero_matrix(g.t, g.p, n, n, sequential);
        bml_multiply(A, B, C, 1, 0, 0);
        double w = bml_trace(C);
        CHECK(c, std::abs(v - w) <= mag * g.eps() * (8 * n + 32) + tinyv(g.p), "trace_mult = %.17g but the trace of the product is %.17g", v, w);
        bml_deallocate(&C);
    }
    bml_deallocate(&A); if (mult && !aliased) bml_deallocate(&B);
    if (mag > 0 && n > 1) c.nontrivial();
}

// ---------------------------------------------------------------- C14
PROP(C14, gershgorin, 1)
{
    int which = c.src.u(5);     // 0,1 gershgorin, 2 partial, 3 offdiag, 4 normalize
    static const char *nm[] = { "gershgorin", "gershgorin", "gershgorin_partial", "accumulate_offdiag", "normalize" };
    Cfg g = gen_cfg(c, which == 2 ? std::vector<MType>{ dense, ellpack, csr } : ALL4, 0, true); int n = g.n;
    Dn D = gen_matrix(c, n, g.p);
    int shape = c.src.u(4); if (shape < 3) hermitize(D); else for (int i = 0; i < n; i++) D(i, i) = D(i, i).real();
    int sh = c.src.u(4); if (sh) for (int i = 0; i < n; i++) D(i, i) = rnd(g.p, D(i, i) + Z(sh == 1 ? 50 : sh == 2 ? -50 : 0));
    int rows = which == 2 ? c.src.range(1, n) : n;
    Dn U = support(D); for (int i = 0; i < n; i++) U(i, i) = 1;
    int m = gen_m(c, g, which == 4 ? max_row(U) : max_row(D));
    c.note(" %s rows=%d M=%d shift=%d", nm[which], rows, m, sh); dump(c, "A", D); c.label(std::string("op:") + nm[which]);
    Mat A = build(c, g, D, m);
    double lo = 1e300, hi = -1e300, big = 0;
    std::vector<double> rad(n, 0);
    for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) if (i != j) rad[i] += std::abs(D(i, j)); }
    for (int i = 0; i < rows; i++) { double a = D(i, i).real(); lo = std::min(lo, a - rad[i]); hi = std::max(hi, a + rad[i]); big = std::max(big, std::abs(a) + rad[i]); }
    double tol = (4 * n + 16) * g.eps() * big + tinyv(g.p);
    if (which <= 2 || (which == 4 && hi > lo && c.src.coin()))
    {
        double *e = (double *) (which == 2 ? bml_gershgorin_partial(A, rows) : bml_gershgorin(A));
        CHECK(c, e != NULL, "no bounds returned");
        CHECK(c, std::abs(e[0] - lo) <= tol && std::abs(e[1] - hi) <= tol, "%s returned [%.17g, %.17g], the disc hull is [%.17g, %.17g]", nm[which], e[0], e[1], lo, hi);
        lo = e[0]; hi = e[1];
        bml_free_memory(e);
        if (sh == 2 && hi < 0) c.label("negative hull");
    }
    else if (which == 4) { lo = gen_scalar(c, g.p) * 3; hi = lo + c.src.pick({ 0.25, 1.0, 7.5, 100.0 }); }
    if (which == 3)
    {
        int incl = c.src.coin();
        void *r = bml_accumulate_offdiag(A, incl);
        for (int i = 0; i < n; i++) { double x = rad[i] + (incl ? std::abs(D(i, i)) : 0), v = get(g.p, r, i).real(); CHECK(c, std::abs(v - x) <= (4 * n + 8) * g.eps() * x + tinyv(g.p), "accumulate_offdiag(%d)[%d] = %.17g, expected %.17g", incl, i, v, x); }
        free(r);
    }
    if (which == 4 && hi > lo)
    {
        c.note(" [%g,%g]", lo, hi);
        bml_normalize(A, lo, hi);
        expect_meta(c, A, g, m, "A");
        Dn E = lin(hi / (hi - lo), Dn::eye(n), -1 / (hi - lo), D), T(n), R = rd(A, g.p, n);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) T(i, j) = 12 * g.eps() * (std::abs(D(i, j)) + (i == j ? std::abs(hi) : 0)) / (hi - lo) + tinyv(g.p);
        // 1/(hi-lo) is formed from rounded operands
        expect_close(c, R, E, T, "normalized A");
        check_reads(c, A, g, R, "A");
    }
    else expect_exact(c, A, g, D, "A");
    bml_deallocate(&A);
    if (n > 1 && big > 0) c.nontrivial();
}

// ---------------------------------------------------------------- C17
PROP(C17, introspection, 1)
{
    Cfg g = gen_cfg(c, ALL4, 0, true); int n = g.n;
    Dn D = gen_matrix(c, n, g.p); int m = gen_m(c, g, max_row(D));
    c.note(" M=%d", m); dump(c, "A", D);
    Mat A = build(c, g, D, m);
    int steps = c.src.range(1, 5);
    CHECK(c, bml_get_distribution_mode(A) == sequential, "distribution mode %d", bml_get_distribution_mode(A));
    bool changed = false;
    for (int s = 0; s <= steps; s++)
    {
        expect_meta(c, A, g, m, "A");
        CHECK(c, bml_get_deep_type(A) == g.t, "deep type %s", tname(bml_get_deep_type(A)));
        if (g.t == dense) CHECK(c, bml_get_M(A) == n, "M=%d of a dense matrix with N=%d", bml_get_M(A), n);
        if (g.t == ellblock) CHECK(c, bml_get_M(A) == m, "M=%d expected %d", bml_get_M(A), m);
        if (g.t == csr) CHECK(c, bml_get_M(A) >= max_row(D), "csr M=%d with a row of %d", bml_get_M(A), max_row(D));
        if (g.t == ellblock && !g.bs.empty()) CHECK(c, bml_get_NB(A) == (int) g.bs.size(), "NB=%d expected %zu", bml_get_NB(A), g.bs.size());
        if (g.t != ellblock)
        {
            int mx = 0;
            for (int i = 0; i < n; i++) { int w = bml_get_row_bandwidth(A, i), x = row_nnz(D, i); mx = std::max(mx, x); CHECK(c, w == x, "row bandwidth of row %d is %d, %d entries are held", i, w, x); }
            int w = bml_get_bandwidth(A); CHECK(c, w == mx, "bandwidth %d, expected %d", w, mx);
        }
        double th = gen_threshold(c, g.p, { &D }); int lo = 0, hi = 0;
        for (auto &z : D.a) { double a = std::abs(z), e = z.imag() != 0 ? 4 * g.eps() * a : 0; lo += a - e > th; hi += a + e > th; }
        double v = bml_get_sparsity(A, th), N2 = (double) n * n;
        CHECK(c, v <= 1 - lo / N2 + 1e-12 && v >= 1 - hi / N2 - 1e-12, "sparsity(%g) = %.15g, expected 1 - %d..%d / %g", th, v, lo, hi, N2);
        if (g.t == dense) { void *d = bml_get_data_ptr(A); for (int k = 0; k < n * n; k++) CHECK(c, get(g.p, d, k) == D.a[k], "data pointer [%d] is %s, element is %s", k, zs(get(g.p, d, k)).c_str(), zs(D.a[k]).c_str()); }
        expect_exact(c, A, g, D, "A");
        if (s == steps) break;
        changed = true;
        switch (c.src.u(5))
        {
            case 0: { int i = c.src.u(n), j = c.src.u(n); if (D(i, j) == Z(0) && (bctl.tight || row_nnz(D, i) >= m)) break; D(i, j) = gen_value(c, g.p, 0); set_elem(c, A, g.p, i, j, D(i, j), false); c.note(" set(%d,%d)", i, j); break; }
            case 1: { double t = gen_threshold(c, g.p, { &D }); bml_threshold(A, t); D = rd(A, g.p, n); c.note(" threshold(%g)", t); break; }
            case 2: { if (bctl.tight) break; int i = c.src.u(n); std::vector<Z> r(n, Z(0)); int k = c.src.range(0, m); while (k--) r[c.src.u(n)] = gen_value(c, g.p, 0); Buf b(g.p, r); bml_set_row(A, i, b.d, 0.0); for (int j = 0; j < n; j++) D(i, j) = r[j]; c.note(" row(%d)", i); break; }
            case 3: bml_clear(A); D = Dn(n); c.note(" clear"); break;
            case 4: { Buf b(g.p, Z(c.src.pick({ 2.0, -0.5 }))); bml_scale_inplace(b.d, A); Z f = b[0]; for (auto &z : D.a) z = rnd(g.p, f * z); D = rd(A, g.p, n); c.note(" scale"); break; }
        }
    }
    bml_deallocate(&A);
    if (n > 1 && changed) c.nontrivial();
}

// ---------------------------------------------------------------- C18
PROP(C18, constructors, 1)
{
    Cfg g = gen_cfg(c, ALL4, 0, true); int n = g.n;
    int m = c.src.coin() ? n : c.src.range(1, n);
    if (g.t == ellblock && g.n > 16) m = n;      // fewer blocks per row than the band needs is a (diagnosed) capacity error
    int which = c.src.u(5);
    static const char *nm[] = { "zero", "identity", "banded", "random", "noinit" };
    c.note(" %s M=%d", nm[which], m); c.label(std::string("op:") + nm[which]); if (m < n) c.label("M<N");
    Mat A[2]; Dn D[2];
    for (int k = 0; k < 2; k++)
    {
        Dn &E = D[k]; E = Dn(n);
        switch (which)
        {
            case 0: A[k] = bml_zero_matrix(g.t, g.p, n, m, sequential); break;
            case 1: A[k] = bml_identity_matrix(g.t, g.p, n, m, sequential); E = Dn::eye(n); break;
            case 2: A[k] = bml_banded_matrix(g.t, g.p, n, m, sequential); E = rd(A[k], g.p, n); break;
            case 3: A[k] = bml_random_matrix(g.t, g.p, n, m, sequential); E = rd(A[k], g.p, n); break;
            case 4:
            {
                A[k] = bml_noinit_matrix(g.t, g.p, n, m, sequential);
                expect_meta(c, A[k], g, m, "noinit");
                Mat S = bml_identity_matrix(g.t, g.p, n, m, sequential); bml_copy(S, A[k]); bml_deallocate(&S); E = Dn::eye(n);
                break;
            }
        }
        expect_meta(c, A[k], g, m, nm[which]);
        CHECK(c, bml_get_distribution_mode(A[k]) == sequential, "distribution mode");
        check_reads(c, A[k], g, E, nm[which]);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
        {
            double re = E(i, j).real(), im = E(i, j).imag();
            CHECK(c, std::isfinite(re) && std::isfinite(im) && std::abs(re) <= 1 && std::abs(im) <= 1, "%s element (%d,%d) = %s", nm[which], i, j, zs(E(i, j)).c_str());
            if (which == 2) { bool in = j >= i - m / 2 && j < i - m / 2 + m; CHECK(c, in == (E(i, j) != Z(0)), "banded M=%d element (%d,%d) = %s", m, i, j, zs(E(i, j)).c_str()); }
            if (which == 3 && (i == j || g.t == dense)) CHECK(c, E(i, j) != Z(0), "random element (%d,%d) is zero", i, j);
        }
        if (which == 3 && (g.t == ellpack || g.t == csr)) CHECK(c, max_row(E) <= m, "random row of %d entries with M=%d", max_row(E), m);
        if (which >= 2 && which < 4 && g.t != ellblock) CHECK(c, bml_get_bandwidth(A[k]) == max_row(E), "bandwidth %d, expected %d", bml_get_bandwidth(A[k]), max_row(E));
    }
    if (which == 3 && n > 2 && m > 1) CHECK(c, !(D[0] == D[1]), "two random matrices are equal");
    // usable at once, and independent
    int i = c.src.u(n), j = c.src.u(n); Z v = gen_value(c, g.p, 0);
    if (D[0](i, j) != Z(0) || max_row(D[0]) < m || g.t == dense || g.t == ellblock) { set_elem(c, A[0], g.p, i, j, v, false); D[0](i, j) = v; }
    check_reads(c, A[0], g, D[0], "after a write");
    Buf f(g.p, Z(2)); bml_scale_inplace(f.d, A[1]); for (auto &z : D[1].a) z *= 2;
    check_reads(c, A[1], g, D[1], "after scaling"); check_reads(c, A[0], g, D[0], "the other one after scaling");
    bml_clear(A[1]); check_reads(c, A[1], g, Dn(n), "after clear");
    set_elem(c, A[1], g.p, i, j, v, c.src.coin()); D[1] = Dn(n); D[1](i, j) = v; check_reads(c, A[1], g, D[1], "write after clear");
    bml_deallocate(&A[1]); CHECK(c, A[1] == NULL, "deallocate left the handle set");
    check_reads(c, A[0], g, D[0], "after deallocating the other");
    bml_deallocate(&A[0]); CHECK(c, A[0] == NULL, "deallocate left the handle set");
    if (n > 1) c.nontrivial();
}

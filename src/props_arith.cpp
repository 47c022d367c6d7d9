// C05 addition family, C06 multiply, C07 x2 / AB / adjust, C08 element multiply, C09 scaling
#include "gen.hpp"

static double tinyv(MPrec p) { return is_double(p) ? 1e-300 : 1e-37; }

// result of a thresholded sparse operation: each element is right up to
// rounding, or dropped although... only if not exceeding the threshold
static void expect_thresholded(Case &c, const Cfg &g, const Dn &R, const Dn &E, const Dn &tol, double th, bool may_drop, bool must_drop, const char *what)
{
    for (int i = 0; i < E.n; i++) for (int j = 0; j < E.n; j++)
    {
        double e = std::abs(R(i, j) - E(i, j)), x = std::abs(E(i, j)), t = tol(i, j).real() + tinyv(g.p);
        if (e <= t && !(must_drop && R(i, j) != Z(0) && std::abs(R(i, j)) < th * (1 - 8 * g.eps()))) continue;
        if (may_drop && R(i, j) == Z(0) && x <= th * (1 + 8 * g.eps()) + t) continue;
        c.fail("%s: element (%d,%d) = %s, exact %s, tolerance %g, threshold %g", what, i, j, zs(R(i, j)).c_str(), zs(E(i, j)).c_str(), t, th);
    }
}
// with a threshold, a sparse result stores no small entry (ellblock: no block of small entries)
static void expect_dropped(Case &c, const Cfg &g, const Dn &R, double th, bool keep_diag, const char *what)
{
    if (g.t == dense || !(th > 0)) return;
    double lim = th * (1 - 8 * g.eps());
    for (int i = 0; i < R.n; i++) for (int j = 0; j < R.n; j++)
    {
        if (R(i, j) == Z(0) || std::abs(R(i, j)) >= lim) continue;
        if (g.t != ellblock) { if (i == j && keep_diag) continue; }
        else
        {
            int a = blk_lo(g, i), b = blk_lo(g, j); if (a == b && keep_diag) continue;
            bool big = false; for (int p = a; p < blk_hi(g, i) && !big; p++) for (int q = b; q < blk_hi(g, j); q++) if (std::abs(R(p, q)) >= lim) { big = true; break; }
            if (big) continue;
        }
        c.fail("%s: element (%d,%d) = %s is stored although the threshold is %g", what, i, j, zs(R(i, j)).c_str(), th);
    }
}
static Dn scaled(const Dn &A, double f) { Dn R = A; for (auto &z : R.a) z = f * std::abs(z); return R; }
static Dn plus(const Dn &A, const Dn &B) { return lin(1, A, 1, B); }

// A, B and the capacity; both sides may have a different row capacity
static Mat build_like(Case &c, const Cfg &g, const Dn &D, int m) { return build(c, g, D, m); }
static Dn support(const Dn &A) { Dn R(A.n); for (size_t k = 0; k < A.a.size(); k++) R.a[k] = A.a[k] != Z(0); return R; }

// explicit zeros stored in the matrix (the union of structures is what needs room)
static void zero_some(Case &c, Mat A, const Cfg &g, Dn &D)
{
    if (!c.src.chance(1, 5)) return;
    for (size_t k = 0; k < D.a.size(); k++) if (D.a[k] != Z(0) && c.src.chance(1, 4)) { set_elem(c, A, g.p, k / D.n, k % D.n, Z(0), false); D.a[k] = 0; }
    c.label("stored zeros");
}

PROP(C05, add, 3)
{
    int which = c.src.u(6);     // 0,1,2 add; 3 add_norm; 4 add_identity; 5 scale_add_identity
    Cfg g = gen_cfg(c, which == 3 ? std::vector<MType>{ dense, ellpack, ellblock } : ALL4, 0, true);
    int n = g.n;
    Dn DA = gen_matrix(c, n, g.p), DB = which < 4 ? gen_related(c, DA, g.p) : Dn::eye(n);
    double al = which == 4 ? 1 : gen_scalar(c, g.p), be = gen_scalar(c, g.p);
    Dn E0 = lin(al, DA, be, DB);
    double th = gen_threshold(c, g.p, { &E0 });
    Dn U = plus(support(DA), support(DB));
    int m = gen_m(c, g, max_row(U)), mb = c.src.chance(1, 4) ? n : m;
    static const char *nm[] = { "add", "add", "add", "add_norm", "add_identity", "scale_add_identity" };
    c.note(" %s alpha=%g beta=%g thr=%g M=%d", nm[which], al, be, th, m); dump(c, "A", DA); if (which < 4) dump(c, "B", DB);
    c.label(std::string("op:") + nm[which]);
    Mat A = build(c, g, DA, m), B = NULL;
    zero_some(c, A, g, DA);
    if (which < 4) { B = build(c, g, DB, mb); zero_some(c, B, g, DB); }
    int reps = c.src.chance(1, 4) ? 2 : 1;
    for (int rep = 0; rep < reps; rep++)
    {
        Dn E = lin(al, DA, be, DB), T = plus(scaled(DA, 8 * g.eps() * std::abs(al)), scaled(DB, 8 * g.eps() * std::abs(be)));
        if (which < 3) bml_add(A, B, al, be, th);
        else if (which == 3)
        {
            double nr = bml_add_norm(A, B, al, be, th), ex = 0, mag = 0;
            for (size_t k = 0; k < DA.a.size(); k++) { ex += std::norm(DA.a[k] - DB.a[k]); mag += std::norm(DA.a[k]) + std::norm(DB.a[k]); }
            CHECK(c, std::abs(nr - ex) <= mag * g.eps() * (8 + n * n) + tinyv(g.p), "add_norm returned %.17g, expected %.17g", nr, ex);
        }
        else if (which == 4) bml_add_identity(A, be, th);
        else bml_scale_add_identity(A, al, be, th);
        expect_meta(c, A, g, m, "A");
        Dn R = rd(A, g.p, n);
        expect_thresholded(c, g, R, E, T, th, g.t != dense, g.t == ellpack || g.t == csr, nm[which]); expect_dropped(c, g, R, th, false, nm[which]);
        if (B) expect_exact(c, B, g, DB, "B");
        DA = R;
    }
    check_reads(c, A, g, DA, "result");
    bml_deallocate(&A); if (B) bml_deallocate(&B);
    if (interesting(DB) && al != 0 && be != 0) c.nontrivial();
    if (th > 0) c.label("threshold>0");
}

// ---------------------------------------------------------------- C06, C07
struct Prod { Dn E, T; int k; };
static int max_inner(const Dn &A, const Dn &) { return std::max(1, max_row(A)); }
static double gamma_(const Cfg &g, int k) { return g.eps() * (k + 6) * (g.cz() ? 4 : 2); }

PROP(C06, multiply, 3)
{
    Cfg g = gen_cfg(c, ALL4, 0, true);
    int n = g.n; int vm = c.src.u(3);
    Dn DA = gen_matrix(c, n, g.p, vm); bool same_mat = c.src.chance(1, 4);
    Dn DB = same_mat ? DA : gen_related(c, DA, g.p, vm);
    Dn DC = gen_related(c, DA, g.p, vm);
    double al = gen_scalar(c, g.p), be = gen_scalar(c, g.p);
    Dn P = mul(DA, DB);
    double th = gen_threshold(c, g.p, { &P });
    if (c.src.coin()) th = 0;
    Dn S = mul(support(DA), support(DB)), U = plus(S, support(DC));
    note_block_product(DA, DB, &DC); int m = gen_m(c, g, std::max(max_row(U), std::max(max_row(DA), max_row(DB))));
    c.note(" alpha=%g beta=%g thr=%g M=%d%s", al, be, th, m, same_mat ? " B is A" : ""); dump(c, "A", DA); if (!same_mat) dump(c, "B", DB); dump(c, "C", DC);
    Mat A = build(c, g, DA, m); zero_some(c, A, g, DA);
    Mat B = same_mat ? A : build(c, g, DB, other_m(c, g, m, max_row(DB)));
    if (same_mat) DB = DA; else zero_some(c, B, g, DB);
    int mc = other_m(c, g, m, max_row(U));
    Mat C = build(c, g, DC, mc); zero_some(c, C, g, DC);
    Dn E = lin(al, mul(DA, DB), be, DC);
    Dn T = plus(scaled(absmul(DA, DB), gamma_(g, max_row(DA)) * std::abs(al)), scaled(DC, 8 * g.eps() * std::abs(be)));
    bml_multiply(A, B, C, al, be, th);
    expect_meta(c, C, g, mc, "C");
    Dn R = rd(C, g.p, n);
    double slack = g.t == dense ? 0 : th * (1 + std::abs(al) + std::abs(be)) * (1 + 8 * g.eps());
    for (auto &z : T.a) z = z.real() + slack + tinyv(g.p);
    expect_close(c, R, E, T, "alpha*A*B+beta*C"); expect_dropped(c, g, R, th, true, "alpha*A*B+beta*C");
    expect_exact(c, A, g, DA, "A"); if (!same_mat) expect_exact(c, B, g, DB, "B");
    check_reads(c, C, g, R, "C");
    bml_deallocate(&A); if (!same_mat) bml_deallocate(&B); bml_deallocate(&C);
    if (maxabs(P) > 0 && n >= 2 && al != 0) c.nontrivial();
    if (same_mat) c.label("A==B"); if (be != 0) c.label("beta!=0"); if (th > 0) c.label("threshold>0");
}

PROP(C07, products, 3)
{
    int which = c.src.u(4);    // 0,1 x2; 2 AB; 3 adjust
    Cfg g = gen_cfg(c, ALL4, 0, true);
    int n = g.n; int vm = c.src.u(3);
    Dn DA = gen_matrix(c, n, g.p, vm), DB = which < 2 ? DA : gen_related(c, DA, g.p, vm), DC = gen_related(c, DA, g.p, vm);
    Dn P = mul(DA, DB);
    double th = gen_threshold(c, g.p, { &P });
    if (c.src.coin()) th = 0;
    note_block_product(DA, DB); int m = gen_m(c, g, std::max({ max_row(mul(support(DA), support(DB))), max_row(DA), max_row(DB), max_row(DC) }));
    static const char *nm[] = { "x2", "x2", "multiply_AB", "multiply_adjust_AB" };
    c.note(" %s thr=%g M=%d", nm[which], th, m); dump(c, "A", DA); if (which > 1) dump(c, "B", DB);
    c.label(std::string("op:") + nm[which]);
    int mc = other_m(c, g, m, std::max(max_row(mul(support(DA), support(DB))), max_row(DC)));      // stored zeros count too
    Mat A = build(c, g, DA, m); zero_some(c, A, g, DA);
    Mat B = which < 2 ? A : build(c, g, DB, other_m(c, g, m, max_row(DB))); if (which > 1) zero_some(c, B, g, DB); else DB = DA;
    Mat C = c.src.coin() ? bml_zero_matrix(g.t, g.p, n, mc, sequential) : build(c, g, DC, mc);
    P = mul(DA, DB);
    Dn T = scaled(absmul(DA, DB), gamma_(g, max_row(DA)));
    int reps = c.src.chance(1, 3) ? 2 : 1;
    Dn R;
    while (reps--)
    {
        if (which < 2)
        {
            double *t = (double *) bml_multiply_x2(A, C, th);
            Z tx = 0, tx2 = 0; double mag = 0, mag2 = 0;
            for (int i = 0; i < n; i++) { tx += DA(i, i); tx2 += P(i, i); mag += std::abs(DA(i, i)); mag2 += T(i, i).real(); }
            CHECK(c, t != NULL, "multiply_x2 returned no traces");
            if (g.t != dense || true)
            {
                CHECK(c, std::abs(t[0] - tx.real()) <= mag * g.eps() * (n + 4) + tinyv(g.p), "trace of X = %.17g, expected %.17g", t[0], tx.real());
                double tol2 = 2 * mag2 + std::abs(tx2) * g.eps() * n + (g.t == dense ? 0 : th * n * (1 + 1e-6)) + tinyv(g.p);
                double sum = 0; for (int i = 0; i < n; i++) sum += std::abs(P(i, i));
                tol2 += sum * g.eps() * n;
                CHECK(c, std::abs(t[1] - tx2.real()) <= tol2, "trace of X*X = %.17g, expected %.17g within %g", t[1], tx2.real(), tol2);
            }
            bml_free_memory(t);
        }
        else if (which == 2) bml_multiply_AB(A, B, C, th);
        else bml_multiply_adjust_AB(A, B, C, th);
        expect_meta(c, C, g, mc, "result");
        R = rd(C, g.p, n);
        if (g.t == dense || g.t == csr || g.t == ellpack) expect_thresholded(c, g, R, P, T, th, g.t != dense, false, nm[which]);
        else { Dn T2 = T; for (auto &z : T2.a) z = z.real() + th * (1 + 8 * g.eps()) + tinyv(g.p); expect_close(c, R, P, T2, nm[which]); }
        expect_dropped(c, g, R, th, true, nm[which]);
        expect_exact(c, A, g, DA, "A"); if (which > 1) expect_exact(c, B, g, DB, "B");
    }
    check_reads(c, C, g, R, "result");
    bml_deallocate(&A); if (which > 1) bml_deallocate(&B); bml_deallocate(&C);
    if (maxabs(P) > 0 && n >= 2) c.nontrivial();
    if (th > 0) c.label("threshold>0");
}

// the threshold-adjusting product into a matrix too small for the whole product
PROP(C07, adjust, 1)
{
    Cfg g = gen_cfg(c, { ellpack, ellblock }, 40, true);      // the threshold is doubled from the smallest number up, with a product each time
    int n = g.n, vm = c.src.u(3);
    Dn DA = gen_matrix(c, n, g.p, vm), DB = gen_related(c, DA, g.p, vm), P = mul(DA, DB);
    double th = c.src.coin() ? 0 : gen_threshold(c, g.p, { &P });
    Dn S = mul(support(DA), support(DB)); int need = std::max(max_row(DA), max_row(DB)), nb = 0, m, mb = 0;
    std::vector<int> at{ 0 };
    if (g.t == ellblock)
    {   // process-wide block capacity: it must hold A and B
        for (int b : bctl.bs) at.push_back(at.back() + b);
        nb = (int) bctl.bs.size(); mb = c.src.range(bctl.need, nb); bctl.pending = false; bctl.tight = true; m = bctl.m = n;
        bml_set_block_sizes(bctl.bs.data(), nb, mb); g.bs = bctl.bs;
    }
    else { for (int i = 0; i < n; i++) at.push_back(i + 1); nb = n; m = mb = c.src.range(1, std::max(1, std::min(n, max_row(S)))); }
    c.note(" adjust thr=%g M=%d MB=%d", th, m, mb); dump(c, "A", DA); dump(c, "B", DB);
    int big = g.t == ellpack ? std::max(need, m) : m;
    Mat A = build(c, g, DA, big), B = build(c, g, DB, big), C = bml_zero_matrix(g.t, g.p, n, m, sequential);
    if (c.src.coin() && g.t == ellpack) for (int i = 0; i < n; i++) { Z v = rnd(g.p, Z(i + 1)); set_elem(c, C, g.p, i, (i * 3) % n, v, true); }
    bml_multiply_adjust_AB(A, B, C, th);
    expect_meta(c, C, g, m, "result");
    Dn R = rd(C, g.p, n), T = scaled(absmul(DA, DB), gamma_(g, max_row(DA)));
    // cells (elements, or blocks): each right or dropped as a whole, and the dropped ones no larger than the kept ones
    double maxdrop = 0, minkept = 1e300, limit = th, rel = 1 + 16 * g.eps(), err = 0;
    for (auto &z : T.a) err = std::max(err, z.real()); err += tinyv(g.p);
    for (int a = 0; a < nb; a++)
    {
        std::vector<double> row;
        for (int b = 0; b < nb; b++)
        {
            bool zero = true, right = true; double mag = 0, got = 0;
            for (int i = at[a]; i < at[a + 1]; i++) for (int j = at[b]; j < at[b + 1]; j++)
            {
                if (R(i, j) != Z(0)) zero = false;
                if (std::abs(R(i, j) - P(i, j)) > T(i, j).real() + tinyv(g.p)) right = false;
                mag = std::max(mag, std::abs(P(i, j))); got = std::max(got, std::abs(R(i, j)));
            }
            CHECK(c, zero || right, "cell (%d,%d) of the adjusted product is neither the product's nor dropped", a, b);
            if (a == b) { CHECK(c, right, "the diagonal cell %d of the adjusted product was dropped", a); continue; }
            row.push_back(mag);
            if (!right) maxdrop = std::max(maxdrop, mag); else if (!zero) minkept = std::min(minkept, got);
        }
        // the smallest threshold with which this row fits
        std::sort(row.rbegin(), row.rend()); if (a < nb && mb - 1 < (int) row.size()) limit = std::max(limit, row[mb - 1]);
    }
    CHECK(c, maxdrop <= minkept * rel + err, "the adjusted product dropped %g and kept %g", maxdrop, minkept);
    CHECK(c, maxdrop <= 2 * limit * rel + err, "the adjusted product dropped %g although a threshold of %g is enough", maxdrop, limit);
    expect_dropped(c, g, R, th, true, "adjusted product");
    expect_exact(c, A, g, DA, "A"); expect_exact(c, B, g, DB, "B");
    check_reads(c, C, g, R, "result");
    bml_deallocate(&A); bml_deallocate(&B); bml_deallocate(&C);
    if (maxdrop > th) { c.label("raised"); c.nontrivial(); }
}

// ---------------------------------------------------------------- C08
PROP(C08, hadamard, 1)
{
    Cfg g = gen_cfg(c, { dense, ellpack, csr });
    int n = g.n;
    Dn DA = gen_matrix(c, n, g.p), DB = gen_related(c, DA, g.p), DC = gen_related(c, DA, g.p);
    Dn P(n), T(n); for (size_t k = 0; k < P.a.size(); k++) { P.a[k] = DA.a[k] * DB.a[k]; T.a[k] = std::abs(DA.a[k]) * std::abs(DB.a[k]) * 6 * g.eps(); }
    double th = gen_threshold(c, g.p, { &P });
    int m = gen_m(c, g, std::max({ max_row(DA), max_row(DB), max_row(DC) }));
    c.note(" thr=%g M=%d", th, m); dump(c, "A", DA); dump(c, "B", DB); dump(c, "C", DC);
    Mat A = build(c, g, DA, m), B = build(c, g, DB, other_m(c, g, m, max_row(DB)));
    int mc = other_m(c, g, m, std::max(max_row(DA), max_row(DC)));      // the candidates are A's entries
    Mat C = c.src.coin() ? build(c, g, DC, mc) : bml_zero_matrix(g.t, g.p, n, mc, sequential);
    if (c.src.chance(1, 4)) { zero_some(c, A, g, DA); for (size_t k = 0; k < P.a.size(); k++) P.a[k] = DA.a[k] * DB.a[k]; }
    int reps = 1 + c.src.u(2); Dn R;
    while (reps--)
    {
        bml_element_multiply_AB(A, B, C, th);
        R = rd(C, g.p, n);
        expect_meta(c, C, g, mc, "C");
        expect_thresholded(c, g, R, P, T, th, g.t != dense, false, "A.*B"); expect_dropped(c, g, R, th, true, "A.*B");
        expect_exact(c, A, g, DA, "A"); expect_exact(c, B, g, DB, "B");
    }
    check_reads(c, C, g, R, "C");
    bml_deallocate(&A); bml_deallocate(&B); bml_deallocate(&C);
    if (interesting(P)) c.nontrivial();
    if (th > 0) c.label("threshold>0");
}

// ---------------------------------------------------------------- C09
PROP(C09, scale, 1)
{
    Cfg g = gen_cfg(c, ALL4, 0, true);
    int n = g.n;
    Dn DA = gen_matrix(c, n, g.p), DB = gen_related(c, DA, g.p);
    Z f = c.src.chance(1, 4) ? Z(c.src.pick({ 0.0, 1.0, -1.0, 2.0 }), 0) : gen_value(c, g.p, c.src.u(3));
    int m = gen_m(c, g, std::max(max_row(DA), max_row(DB)));
    int which = c.src.u(4);   // 0 new, 1,2 into B, 3 inplace
    static const char *nm[] = { "scale_new", "scale", "scale", "scale_inplace" };
    c.note(" %s by %s M=%d", nm[which], zs(f).c_str(), m); dump(c, "A", DA); dump(c, "B", DB);
    c.label(std::string("op:") + nm[which]);
    Mat A = build(c, g, DA, m), B = NULL; zero_some(c, A, g, DA); int mb = m;
    Buf fb(g.p, f);
    if (which == 0) B = bml_scale_new(fb.d, A);
    else if (which < 3)
    {
        mb = other_m(c, g, m, std::max(m, max_row(DB)));      // a target of an ellpack copy holds the rows of its source
        B = which == 1 ? build(c, g, DB, mb) : bml_zero_matrix(g.t, g.p, n, mb, sequential);
        bml_scale(fb.d, A, B);
        if (c.src.chance(1, 3)) bml_scale(fb.d, A, B);
    }
    else bml_scale_inplace(fb.d, A);
    CHECK(c, fb[0] == rnd(g.p, f), "the factor was modified");
    Mat Rm = which < 3 ? B : A;
    Dn E(n), T(n); for (size_t k = 0; k < E.a.size(); k++) { E.a[k] = f * DA.a[k]; T.a[k] = std::abs(E.a[k]) * 4 * g.eps() + tinyv(g.p); }
    expect_meta(c, Rm, g, mb, "result");
    Dn R = rd(Rm, g.p, n);
    expect_close(c, R, E, T, nm[which]);
    check_reads(c, Rm, g, R, "result");
    if (which < 3)
    {
        expect_exact(c, A, g, DA, "A");
        // independence: clearing one leaves the other
        if (c.src.coin()) { bml_clear(A); check_reads(c, B, g, R, "result after clearing A"); }
        else { bml_clear(B); check_reads(c, A, g, DA, "A after clearing the result"); }
        bml_deallocate(&B);
    }
    bml_deallocate(&A);
    if (interesting(DA) && f != Z(0) && f != Z(1)) c.nontrivial();
}

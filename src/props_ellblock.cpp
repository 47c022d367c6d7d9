// ellblock matrices of several sizes and of several block capacities in one process
#include "gen.hpp"

// constructors of several sizes, row capacities, types and precisions, alive together
PROP(C18, sizes, 1)
{
    int k = c.src.range(2, 6); struct One { Mat A; Cfg g; Dn D; }; std::vector<One> all;
    std::map<int, int> cap;       // ellblock: most blocks per block row of the matrices of one N
    MType main = c.src.pick({ ellblock, ellblock, dense, ellpack, csr });
    if (c.src.chance(1, 3))
    {   // block sizes given for one N only
        int n = c.src.range(1, 12), left = n; std::vector<int> bs; while (left > 0) { int x = std::min(left, c.src.range(1, 5)); bs.push_back(x); left -= x; }
        bml_set_block_sizes(bs.data(), (int) bs.size(), (int) bs.size()); c.note("blocks given for N=%d; ", n); c.label("blocks:given");
    }
    bool sizes = false, many = false;
    for (int s = 0; s < k; s++)
    {
        One o; o.g.t = c.src.chance(3, 4) ? main : c.src.pick(ALL4); o.g.p = gen_prec(c); int n = o.g.n = c.src.range(1, 16), m = o.g.m = c.src.coin() ? n : c.src.range(1, n); o.D = Dn(n);
        for (auto &q : all) if (q.g.n != n && q.g.t == o.g.t) sizes = true;
        static const char *nm[] = { "zero", "identity", "banded", "random", "noinit", "import", "convert" }; int w = c.src.u(7); Mat A = NULL;
        c.note("%s %s N=%d M=%d %s; ", tname(o.g.t), pname(o.g.p), n, m, nm[w]); c.label(std::string("op:") + nm[w]);
        switch (w)
        {
            case 0: A = bml_zero_matrix(o.g.t, o.g.p, n, m, sequential); break;
            case 1: A = bml_identity_matrix(o.g.t, o.g.p, n, m, sequential); o.D = Dn::eye(n); break;
            case 2: A = bml_banded_matrix(o.g.t, o.g.p, n, m, sequential); o.D = rd(A, o.g.p, n);
                for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK(c, (j >= i - m / 2 && j < i - m / 2 + m) == (o.D(i, j) != Z(0)), "banded M=%d element (%d,%d) = %s", m, i, j, zs(o.D(i, j)).c_str());
                break;
            case 3: A = bml_random_matrix(o.g.t, o.g.p, n, m, sequential); o.D = rd(A, o.g.p, n); for (int i = 0; i < n; i++) CHECK(c, o.D(i, i) != Z(0), "random element (%d,%d) is zero", i, i); break;
            case 4: A = bml_noinit_matrix(o.g.t, o.g.p, n, m, sequential); expect_meta(c, A, o.g, m, "noinit"); bml_clear(A); break;
            default:
            {
                Dn D = gen_matrix(c, n, o.g.p, 0); int need = std::max(1, max_row(D)); if (m < need) m = o.g.m = need; o.D = D; Buf b(o.g.p, (size_t) n * n); for (size_t x = 0; x < D.a.size(); x++) put(o.g.p, b.d, x, D.a[x]);
                if (w == 5) { A = bml_import_from_dense(o.g.t, o.g.p, dense_row_major, n, m, b.d, 0.0, sequential); break; }
                Mat X = bml_import_from_dense(dense, o.g.p, dense_row_major, n, n, b.d, 0.0, sequential); A = bml_convert(X, o.g.t, o.g.p, m, sequential); bml_deallocate(&X);
            }
        }
        expect_meta(c, A, o.g, m, nm[w]); if (o.g.t == ellpack || o.g.t == ellblock) CHECK(c, bml_get_M(A) == m, "%s: M=%d, expected %d", nm[w], bml_get_M(A), m);
        check_reads(c, A, o.g, o.D, nm[w]);
        if (c.src.coin())
        {   // written at once
            int i = c.src.u(n), j = c.src.u(n); Z v = gen_value(c, o.g.p, 0);
            if (o.D(i, j) != Z(0) || max_row(o.D) < m || o.g.t == dense || o.g.t == ellblock) { set_elem(c, A, o.g.p, i, j, v, false); o.D(i, j) = v; check_reads(c, A, o.g, o.D, "written"); }
        }
        o.A = A; all.push_back(o); if (all.size() > 2) many = true;
        if (c.src.chance(1, 4)) { int q = c.src.u((uint32_t) all.size()); bml_deallocate(&all[q].A); CHECK(c, all[q].A == NULL, "deallocate left the handle set"); all.erase(all.begin() + q); }
        for (auto &q : all) expect_exact(c, q.A, q.g, q.D, "an earlier matrix");
    }
    for (auto &q : all)
    {
        Mat B = bml_copy_new(q.A); check_reads(c, B, q.g, q.D, "copy"); bml_deallocate(&B);
        if (q.g.t != ellpack || max_col(q.D) <= q.g.m) { Mat T = bml_transpose_new(q.A); check_reads(c, T, q.g, tr(q.D), "transpose"); bml_deallocate(&T); }
        Buf f(q.g.p, Z(2)); bml_scale_inplace(f.d, q.A); for (auto &z : q.D.a) z *= 2; check_reads(c, q.A, q.g, q.D, "scaled");
    }
    for (auto &q : all) { expect_exact(c, q.A, q.g, q.D, "at the end"); bml_deallocate(&q.A); }
    if (sizes && many) c.nontrivial();
}

// operands and results whose block rows hold different numbers of blocks: converted matrices hold all
struct Mixed { Cfg g; int m = 0; Dn A, B; Mat a = NULL, b = NULL; };
static Mat wide(Case &c, const Cfg &g, const Dn &D, int m)
{
    Cfg d = g; d.t = c.src.pick({ dense, csr }); d.bs.clear(); Mat X = build(c, d, D, g.n); Mat R = bml_convert(X, ellblock, g.p, m, sequential); bml_deallocate(&X); return R;
}
static Mixed gen_mixed(Case &c)
{
    Mixed x; Cfg &g = x.g; g.t = ellblock; g.p = gen_prec(c); int n = g.n = g.m = c.src.range(2, 28); bool given = c.src.coin();
    std::vector<int> of; int nb = 0, left = n;
    while (left > 0) { int s = std::min(left, given ? c.src.range(1, 5) : 4); if (given) g.bs.push_back(s); of.insert(of.end(), s, nb); nb++; left -= s; }
    x.A = gen_matrix(c, n, g.p, 0); x.B = gen_related(c, x.A, g.p, 0);
    auto blocks = [&](const Dn &D) { std::vector<std::set<int>> h(nb); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (D(i, j) != Z(0)) h[of[i]].insert(of[j]); size_t k = 1; for (auto &y : h) k = std::max(k, y.size()); return (int) k; };
    int need = std::max(blocks(x.A), blocks(tr(x.A))), mb = nb; x.m = n;
    if (given) { mb = c.src.coin() ? need : c.src.range(need, nb); bml_set_block_sizes(g.bs.data(), nb, mb); x.m = c.src.range(1, n); }
    else { x.m = c.src.range(std::min(n, 4 * need), n); mb = std::min(nb, std::max(4, (x.m + 3) / 4)); }
    c.note("ellblock %s N=%d M=%d MB=%d of %d", pname(g.p), n, x.m, mb, nb); if (given) { c.note(" blocks="); for (int s : g.bs) c.note("%d,", s); }
    dump(c, "A", x.A); dump(c, "B", x.B);
    x.a = build(c, g, x.A, x.m); x.b = wide(c, g, x.B, x.m);
    if (mb < nb) { c.label("MB differ"); c.nontrivial(); }
    return x;
}
static void end_mixed(Case &c, Mixed &x)
{
    check_reads(c, x.a, x.g, x.A, "A"); check_reads(c, x.b, x.g, x.B, "B"); bml_deallocate(&x.a); bml_deallocate(&x.b);
}
PROP(C04, mixed, 1)
{
    Mixed x = gen_mixed(c); int n = x.g.n;
    Mat d = bml_copy_new(x.b); check_reads(c, d, x.g, x.B, "copy of the wide matrix");
    bml_copy(x.a, x.b); check_reads(c, x.b, x.g, x.A, "copy in the wide matrix"); x.B = x.A;
    int i = c.src.u(n), j = c.src.u(n); Z v = gen_value(c, x.g.p, 0); set_elem(c, x.b, x.g.p, i, j, v, false); x.B(i, j) = v;
    bml_deallocate(&d); end_mixed(c, x);
}
PROP(C05, mixed, 1)
{
    Mixed x = gen_mixed(c); double al = c.src.pick({ 1.0, -2.0, 0.5 }), be = c.src.pick({ 1.0, 3.0, -0.5 }); c.note(" alpha=%g beta=%g", al, be);
    x.B = lin(be, x.A, al, x.B); if (c.src.coin()) bml_add(x.b, x.a, al, be, 0.0); else bml_add_norm(x.b, x.a, al, be, 0.0);
    end_mixed(c, x);
}
PROP(C06, mixed, 1)
{
    Mixed x = gen_mixed(c); Cfg &g = x.g; int n = g.n; Dn C = gen_related(c, x.A, g.p, 0); Mat r = wide(c, g, C, x.m); dump(c, "C", C);
    double al = c.src.pick({ 1.0, -2.0, 0.5, 0.0 }), be = c.src.pick({ 0.0, 1.0, 2.0 }); int w = c.src.u(4); c.note(" %d alpha=%g beta=%g", w, al, be); (void) n;
    Mat l = w & 1 ? x.a : x.b, q = w & 2 ? x.a : x.b; Dn P = mul(w & 1 ? x.A : x.B, w & 2 ? x.A : x.B);
    bml_multiply(l, q, r, al, be, 0.0); check_reads(c, r, g, lin(al, P, be, C), "alpha*A*B+beta*C"); bml_deallocate(&r); end_mixed(c, x);
}
PROP(C07, mixed, 1)
{
    Mixed x = gen_mixed(c); Cfg &g = x.g; Dn C = gen_related(c, x.A, g.p, 0); Mat r = wide(c, g, C, x.m); int w = c.src.u(5); c.note(" %d", w); Dn P;
    if (w == 0 || w == 1)
    {
        Mat s = w ? x.b : x.a; const Dn &S = w ? x.B : x.A; P = mul(S, S); double *t = (double *) bml_multiply_x2(s, r, 0.0); Z a = 0, b = 0; for (int i = 0; i < g.n; i++) { a += S(i, i); b += P(i, i); }
        CHECK(c, t && t[0] == a.real() && t[1] == b.real(), "traces %g %g, expected %g %g", t[0], t[1], a.real(), b.real()); bml_free_memory(t);
    }
    else if (w == 2) { P = mul(x.A, x.B); bml_multiply_AB(x.a, x.b, r, 0.0); }
    else if (w == 3) { P = mul(x.B, x.A); bml_multiply_AB(x.b, x.a, r, 0.0); }
    else { P = mul(x.A, x.B); bml_multiply_adjust_AB(x.a, x.b, r, 0.0); }
    check_reads(c, r, g, P, "product"); bml_deallocate(&r); end_mixed(c, x);
}
PROP(C12, mixed, 1)
{
    Mixed x = gen_mixed(c); Cfg &g = x.g; bool sw = c.src.coin(); Mat p = sw ? x.b : x.a, q = sw ? x.a : x.b; const Dn &P = sw ? x.B : x.A, &Q = sw ? x.A : x.B; double f = 0, s = 0, mag = 0;
    double al = c.src.pick({ 1.0, -2.0, 0.5 }), be = c.src.pick({ 1.0, 3.0, -0.5 });
    for (size_t k = 0; k < P.a.size(); k++) { f += std::norm(P.a[k] - Q.a[k]); s += std::norm(al * P.a[k] + be * Q.a[k]); mag += std::norm(al * P.a[k]) + std::norm(be * Q.a[k]); }
    double got = bml_fnorm2(p, q); CHECK(c, std::abs(got - std::sqrt(f)) <= 1e-5 * (1 + std::sqrt(f)) * (is_double(g.p) ? 1e-7 : 1), "fnorm2 = %.17g, expected %.17g", got, std::sqrt(f));
    got = bml_sum_squares2(p, q, al, be, 0.0); CHECK(c, std::abs(got - s) <= 1e-5 * (1 + mag) * (is_double(g.p) ? 1e-7 : 1), "sum_squares2 = %.17g, expected %.17g", got, s);
    end_mixed(c, x);
}

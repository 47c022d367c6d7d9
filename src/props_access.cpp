// C01 element/row/diagonal access, C02 import/export, C03 convert, C04 copy
#include "gen.hpp"

PROP(C01, history, 3)
{
    Cfg g = gen_cfg(c, ALL4, 14);
    int n = g.n;
    int m = g.t == ellpack || g.t == csr ? (c.src.coin() ? n : c.src.range(1, n)) : n;
    c.note(" M=%d", m);
    if (m < n) c.label("M:partial");
    Mat A = bml_zero_matrix(g.t, g.p, n, m, sequential);
    Dn D(n);
    std::vector<char> stored(n * n, 0);   // set_element_new is only for entries not yet stored
    std::vector<char> held(n * n, 0);     // entries an ellpack row holds (capacity m)
    auto room = [&](int i, int j) { if (g.t != ellpack || held[i * n + j]) return true; int k = 0; for (int q = 0; q < n; q++) k += held[i * n + q]; return k < m; };
    int writes = 0, over = 0;
    int vmode = c.src.u(4);
    auto val = [&]() { return c.src.chance(1, 8) ? Z(0) : gen_value(c, g.p, vmode); };
    for (int s = 0; s < 40 && c.src.more(14); s++)
    {
        int op = c.src.u(12);
        if (op < 6)
        {
            int i = c.src.u(n), j = c.src.u(n); Z v = val();
            if (!room(i, j)) continue;
            held[i * n + j] = 1;
            over += stored[i * n + j];
            c.note(" set(%d,%d)=%s", i, j, zs(v).c_str());
            set_elem(c, A, g.p, i, j, v, false); D(i, j) = v; stored[i * n + j] = 1; writes++;
        }
        else if (op < 8)
        {
            int i = c.src.u(n), j = c.src.u(n);
            if (stored[i * n + j] || !room(i, j)) continue;
            held[i * n + j] = 1;
            Z v = val(); c.note(" new(%d,%d)=%s", i, j, zs(v).c_str());
            set_elem(c, A, g.p, i, j, v, true); D(i, j) = v; stored[i * n + j] = 1; writes++;
        }
        else if (op < 10)
        {
            int i = c.src.u(n); std::vector<Z> r(n);
            int left = g.t == ellpack ? m : n;
            for (auto &z : r) { z = left > 0 && c.src.coin() ? gen_value(c, g.p, vmode) : Z(0); left -= z != Z(0); }
            double th = c.src.coin() ? 0.0 : c.src.pick({ 0.5, 1.0, 2.0, 1e-3 });
            c.note(" row(%d,thr=%g)", i, th); for (auto z : r) c.note("%g%+gi,", z.real(), z.imag());
            Buf b(g.p, r); bml_set_row(A, i, b.d, th);
            for (int j = 0; j < n; j++)
            {
                bool keep = g.t == dense || std::abs(r[j]) > th;
                D(i, j) = keep ? r[j] : Z(0); stored[i * n + j] = 1; held[i * n + j] = std::abs(r[j]) > th;
            }
            writes++; over++;
        }
        else if (op == 10)
        {
            std::vector<Z> r(n);
            for (int q = 0; q < n; q++) r[q] = c.src.coin() && room(q, q) ? gen_value(c, g.p, vmode) : Z(0);
            double th = c.src.coin() ? 0.0 : c.src.pick({ 0.5, 1.0, 2.0 });
            c.note(" diag(thr=%g)", th); for (auto z : r) c.note("%g%+gi,", z.real(), z.imag());
            Buf b(g.p, r); bml_set_diagonal(A, b.d, th);
            for (int j = 0; j < n; j++) { double mag = std::abs(r[j]); if (g.t == ellblock) for (int q = blk_lo(g, j); q < blk_hi(g, j); q++) mag = std::max(mag, std::abs(r[q])); bool keep = g.t == dense || mag > th; D(j, j) = keep ? r[j] : Z(0); stored[j * n + j] = 1; if (std::abs(r[j]) > th) held[j * n + j] = 1; }
            writes++; over++;
        }
        else
        {
            c.note(" clear"); bml_clear(A); D = Dn(n); std::fill(stored.begin(), stored.end(), 0); held = stored; c.label("clear");
        }
        if (c.src.chance(1, 6)) check_reads(c, A, g, D, "after a write");
    }
    check_reads(c, A, g, D, "at the end");
    bml_deallocate(&A);
    CHECK(c, A == NULL, "bml_deallocate left the handle set");
    if (writes >= 2 && over) c.nontrivial();
    if (over) c.label("overwrite");
}

// rows that are filled element by element far beyond what they were made for
PROP(C01, long_rows, 1)
{
    bctl = BlockCtl(); Cfg g; g.t = c.src.pick({ csr, csr, ellpack, ellblock, dense }); g.p = gen_prec(c); int n = g.n = c.src.range(11, c.thorough ? 200 : 90); g.m = n; setup_blocks(c, g);
    c.label(std::string("type:") + tname(g.t)); c.label(std::string("prec:") + pname(g.p)); int m = g.t == csr ? c.src.range(1, n) : n;
    c.note("%s %s N=%d M=%d", tname(g.t), pname(g.p), n, m); if (!g.bs.empty()) { c.note(" blocks="); for (int b : g.bs) c.note("%d,", b); }
    Mat A = bml_zero_matrix(g.t, g.p, n, m, sequential); Dn D(n); int rounds = c.src.range(1, 3), longest = 0;
    for (int r = 0; r < rounds; r++)
    {
        int what = r ? c.src.u(5) : 0;
        if (what == 4) { c.note("; clear"); bml_clear(A); D = Dn(n); continue; }
        if (what == 3) { c.note("; copy"); Mat B = bml_copy_new(A); bml_deallocate(&A); A = B; continue; }
        int rows = c.src.range(1, std::min(n, 3)), order = c.src.u(4), fill = c.src.chance(1, 2) ? n : c.src.range(1, n), both = c.src.u(2); std::vector<int> ri; for (int q = 0; q < rows; q++) ri.push_back(c.src.u(n));
        int s0 = c.src.u(1 << 24), step = 1 + c.src.u(n); while (std::gcd(step, n) != 1) step++;
        c.note("; rows "); for (int i : ri) c.note("%d,", i); c.note(" %d elements, order %d start %d step %d%s", fill, order, s0 % n, step, both ? ", then again" : "");
        for (int pass = 0; pass <= both; pass++) for (int k = 0; k < fill; k++) for (int i : ri)
        {
            int j = order == 0 ? k : order == 1 ? n - 1 - k : (int) ((s0 + (long) k * step) % n); Z v = rnd(g.p, is_complex(g.p) ? Z(1 + (i * 131 + j * 17 + pass * 7 + r) % 1000, (j + r) % 3) : Z(1 + (i * 131 + j * 17 + pass * 7 + r) % 1000));
            bool fresh = D(i, j) == Z(0) && (order & 1); set_elem(c, A, g.p, i, j, v, fresh); D(i, j) = v;
        }
    }
    for (int i = 0; i < n; i++) longest = std::max(longest, row_nnz(D, i));
    c.label(longest > 40 ? "row>40" : longest > 20 ? "row>20" : "row<=20");
    check_reads(c, A, g, D, "at the end"); expect_exact(c, A, g, D, "at the end");
    bml_deallocate(&A); if (longest > 10) c.nontrivial();
}

// ---------------------------------------------------------------- C02
PROP(C02, roundtrip, 1)
{
    Cfg g = gen_cfg(c, ALL4);
    int n = g.n;
    Dn D = gen_matrix(c, n, g.p, MOVED);
    double th = gen_threshold(c, g.p, { &D });
    bml_dense_order_t oi = c.src.coin() ? dense_column_major : dense_row_major;
    int m = gen_m(c, g, max_row(D));
    c.note(" M=%d thr=%g order=%s", m, th, oi == dense_row_major ? "row" : "col"); dump(c, "A", D);
    Buf raw(g.p, (size_t) n * n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) put(g.p, raw.d, oi == dense_row_major ? (size_t) i * n + j : (size_t) j * n + i, D(i, j));
    std::vector<char> before((char *) raw.d, (char *) raw.d + raw.n * size_of(g.p));
    Mat A = bml_import_from_dense(g.t, g.p, oi, n, m, raw.d, th, sequential);
    CHECK(c, !memcmp(before.data(), raw.d, before.size()), "import modified the caller's array");
    memset(raw.d, 0xff, before.size());     // the matrix must not keep a reference to it
    expect_meta(c, A, g, m, "imported matrix");
    Dn E = D; Dn R = rd(A, g.p, n);
    int dropped = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
    {
        double a = std::abs(D(i, j));
        bool tie = is_complex(g.p) && std::abs(a - th) <= 8 * g.eps() * a;   // |a| is rounded: either verdict
        if (g.t == dense || th == 0) continue;
        if (g.t == ellblock) { if (tie && R(i, j) == Z(0)) E(i, j) = 0; else  if (a <= th && R(i, j) == Z(0)) { E(i, j) = 0; dropped++; } }
        else if (tie) { if (R(i, j) == Z(0)) E(i, j) = 0; }
        else if (a <= th) { E(i, j) = 0; dropped += a != 0; }
    }
    check_reads(c, A, g, E, "imported matrix");
    // exported arrays are independent of the matrix and of each other
    void *x = bml_export_to_dense(A, oi);
    memset(x, 0xee, (size_t) n * n * size_of(g.p));
    expect_exact(c, A, g, E, "matrix after overwriting an exported array");
    void *y = bml_export_to_dense(A, oi);
    bml_deallocate(&A);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
        CHECK(c, same(get(g.p, y, oi == dense_row_major ? (size_t) i * n + j : (size_t) j * n + i), E(i, j)), "exported array changed after deallocation of the matrix at (%d,%d)", i, j);
    bml_free_memory(x); bml_free_memory(y);
    if (interesting(D)) c.nontrivial();
    if (dropped) c.label("threshold drops");
    if (!(D == tr(D))) c.label("non-symmetric");
}

// a modification of A: some writes through the public interface, model kept
static void scribble(Case &c, Mat A, const Cfg &g, Dn &D)
{
    // overwrite stored elements only, so that capacity is never an issue
    std::vector<int> ix; for (int k = 0; k < D.n * D.n; k++) if (D.a[k] != Z(0)) ix.push_back(k);
    if (ix.empty()) return;
    int times = 1 + c.src.u(4);
    while (times--) { int k = c.src.pick(ix); Z v = gen_value(c, g.p, 0); set_elem(c, A, g.p, k / D.n, k % D.n, v, false); D.a[k] = v; }
}
// stored zeros: set some stored elements to zero explicitly
static void plant_zeros(Case &c, Mat A, const Cfg &g, Dn &D)
{
    if (!c.src.chance(1, 3)) return;
    for (int k = 0; k < D.n * D.n; k++) if (D.a[k] != Z(0) && c.src.chance(1, 4)) { set_elem(c, A, g.p, k / D.n, k % D.n, Z(0), false); D.a[k] = 0; }
    c.label("stored zeros");
}

PROP(C03, chain, 1)
{
    Cfg g = gen_cfg(c, ALL4, 0, true);
    int n = g.n;
    Dn D = gen_matrix(c, n, g.p, MOVED);
    int need = max_row(D), m = gen_m(c, g, need);
    dump(c, "A", D); c.note(" M=%d", m);
    Mat A = build(c, g, D, m);
    plant_zeros(c, A, g, D);
    Mat cur = A; Cfg gc = g; int len = 1 + c.src.u(4);
    for (int s = 0; s < len; s++)
    {
        Cfg gn = gc; gn.t = c.src.pick(ALL4);
        if (gn.t == ellblock && g.t != ellblock && g.bs.empty()) {}
        int mn = gen_m(c, gn, need);
        c.note(" -> %s(M=%d)", tname(gn.t), mn);
        Mat B = bml_convert(cur, gn.t, gn.p, mn, sequential);
        expect_meta(c, B, gn, mn, "converted matrix");
        check_reads(c, B, gn, D, "converted matrix");
        expect_exact(c, cur, gc, D, "source after conversion");
        if (c.src.chance(1, 3))
        {   // independence
            Dn DB = D; scribble(c, B, gn, DB); expect_exact(c, cur, gc, D, "source after modifying the converted matrix"); check_reads(c, B, gn, DB, "modified converted matrix");
            Dn DA = D; scribble(c, cur, gc, DA); expect_exact(c, B, gn, DB, "converted matrix after modifying the source");
            bml_deallocate(&cur); D = DB; c.label("independence");
            int need2 = max_row(D); need = std::max(need, need2);
        }
        else bml_deallocate(&cur);
        check_reads(c, B, gn, D, "converted matrix after deallocating the source");
        if (gn.t != gc.t) c.label(std::string("conv:") + tname(gc.t) + ">" + tname(gn.t));
        cur = B; gc = gn;
    }
    bml_deallocate(&cur);
    if (interesting(D)) c.nontrivial();
}

// ---------------------------------------------------------------- C04
PROP(C04, copy, 1)
{
    Cfg g = gen_cfg(c, ALL4, 0, true);
    int n = g.n;
    Dn D = gen_matrix(c, n, g.p), O = gen_related(c, D, g.p);
    int m = gen_m(c, g, std::max(max_row(D), max_row(O)));
    dump(c, "A", D); dump(c, "B", O); c.note(" M=%d", m);
    Mat A = build(c, g, D, m);
    plant_zeros(c, A, g, D);
    Mat B; bool fresh = c.src.coin();
    if (fresh) { B = bml_copy_new(A); c.label("copy_new"); }
    else
    {
        int mb = g.t == ellpack ? (c.src.chance(1, 4) ? n : m) : m;
        B = build(c, g, O, mb); plant_zeros(c, B, g, O);
        if (c.src.chance(1, 5)) bml_clear(B);
        bml_copy(A, B); c.label("copy");
        int again = c.src.u(3); while (again--) bml_copy(A, B);
    }
    expect_meta(c, B, g, fresh ? m : 0, "copy");
    check_reads(c, B, g, D, "copy"); expect_exact(c, A, g, D, "source after copy");
    // mutate either side
    Dn DA = D, DB = D;
    int steps = c.src.u(5);
    for (int s = 0; s < steps; s++)
    {
        Mat X = s % 2 ? A : B; Dn &DX = s % 2 ? DA : DB;
        switch (c.src.u(5))
        {
            case 0: scribble(c, X, g, DX); break;
            case 1: { Z f = gen_value(c, g.p, 0); Buf b(g.p, f); bml_scale_inplace(b.d, X); for (auto &z : DX.a) z = rnd(g.p, z * f); if (c.sh) {} break; }
            case 2: bml_clear(X); DX = Dn(n); break;
            case 3: { std::vector<Z> r(n, Z(0)); int i = c.src.u(n); for (int j = 0; j < n; j++) if (DX(i, j) != Z(0)) { r[j] = gen_value(c, g.p, 1); } Buf b(g.p, r); bml_set_row(X, i, b.d, 0.0); for (int j = 0; j < n; j++) DX(i, j) = r[j]; break; }
            case 4: { double t = 1.0; bml_threshold(X, t); for (auto &z : DX.a) if (std::abs(z) <= t) z = 0; break; }
        }
        c.label("mutated");
        // the other one must be untouched
        expect_exact(c, s % 2 ? B : A, g, s % 2 ? DB : DA, "the other matrix after a modification");
        // the modified one is judged by other properties: take what it says now
        DX = rd(X, g.p, n);
    }
    if (c.src.coin()) { bml_deallocate(&A); check_reads(c, B, g, DB, "copy after deallocating its source"); bml_deallocate(&B); }
    else { bml_deallocate(&B); check_reads(c, A, g, DA, "source after deallocating its copy"); bml_deallocate(&A); }
    if (interesting(D)) c.nontrivial();
}

// C32 invalid requests and overflowing results
#include "gen.hpp"
#include <signal.h>

static void expect_diagnosed(Case &c, const Probe &r, const char *name)
{
    CHECK(c, !r.timed_out, "%s: hangs", name);
    CHECK(c, !(r.exited && r.code == 99) && r.out.find("Sanitizer") == std::string::npos, "%s: memory error: %s", name, r.out.substr(0, 1500).c_str());
    CHECK(c, r.out.find("RETURNED") == std::string::npos, "%s: returned without an error", name);
    CHECK(c, (r.exited && r.code != 0) || (!r.exited && r.signal == SIGABRT), "%s: ended with %s %d", name, r.exited ? "status" : "signal", r.exited ? r.code : r.signal);
    CHECK(c, !r.out.empty(), "%s: no error report", name);
}
static int max_blocks(const Cfg &g, const Dn &D, int nb)   // most blocks in a block row
{
    std::vector<int> of(g.n); { int i = 0, b = 0; for (int s : g.bs) { for (int k = 0; k < s; k++) of[i++] = b; b++; } }
    std::vector<std::set<int>> s(nb); for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) if (D(i, j) != Z(0)) s[of[i]].insert(of[j]);
    size_t m = 0; for (auto &x : s) m = std::max(m, x.size()); return (int) m;
}
static bool close_to(const Dn &R, const Dn &E, const Dn &S, double eps)
{
    for (size_t k = 0; k < E.a.size(); k++) if (!(std::abs(R.a[k] - E.a[k]) <= 64 * eps * (std::abs(S.a[k]) + std::abs(E.a[k])))) return false;
    return true;
}
PROP(C32, overflow, 3)
{
    Cfg g; g.t = c.src.pick({ ellpack, ellpack, ellpack, ellblock, ellblock, csr }); g.p = gen_prec(c); g.n = c.src.range(2, 14); g.m = g.n; int n = g.n;
    c.label(std::string("type:") + tname(g.t));
    Dn A = gen_matrix(c, n, g.p, 0), B = gen_related(c, A, g.p, 0), E(n), S(n);
    int m, m2;           // capacity of the first operand; of the second and of separate results
    if (g.t == ellblock)
    {
        int left = n; while (left > 0) { int x = c.src.range(1, 4); if (x == 4 && c.src.chance(1, 6)) x = c.src.range(5, 10); x = std::min(left, x); g.bs.push_back(x); left -= x; }
        int nb = (int) g.bs.size(), need = std::max({ 1, max_blocks(g, A, nb), max_blocks(g, B, nb) }); m = need >= nb ? nb : c.src.chance(4, 5) ? need : c.src.range(need, nb);
        bml_set_block_sizes(g.bs.data(), nb, m); c.note("ellblock %s N=%d MB=%d of %d", pname(g.p), n, m, nb); m2 = m;
    }
    else
    {
        bool one = c.src.coin(); int need = one ? std::max({ 1, max_row(A), max_row(B) }) : std::max(1, max_row(A)), need2 = std::max(1, max_row(B));
        m = c.src.chance(4, 5) ? need : c.src.range(need, n); m2 = one ? m : c.src.chance(3, 5) ? need2 : c.src.range(need2, n);
        c.note("%s %s N=%d M=%d/%d", tname(g.t), pname(g.p), n, m, m2);
    }
    int mm = g.t == ellblock ? n : m, mm2 = g.t == ellblock ? n : m2;            // the M argument
    int m3 = g.t == ellblock || c.src.coin() ? mm : c.src.range(1, n);           // of a separate result
    dump(c, "A", A); dump(c, "B", B);
    for (size_t k = 0; k < A.a.size(); k++) S.a[k] = std::abs(A.a[k]) + std::abs(B.a[k]) + 4;
    int op = c.src.u(18), cap = m; std::string name; std::function<Mat()> run; double al = c.src.pick({ 1.0, -2.0, 0.5 }), be = c.src.pick({ 1.0, 3.0, -0.5 });
    Cfg gg = g; Mat MA = build(c, g, A, mm), MB = build(c, g, B, mm2);
    int i = c.src.u(n), j = c.src.u(n);
    switch (op)
    {
        case 0: case 1:
        {
            if (op == 1 && A(i, j) != Z(0)) op = 0;
            Z v = gen_value(c, g.p, 0); E = A; E(i, j) = v; name = op ? "set_element_new" : "set_element"; c.note("; (%d,%d)", i, j);
            run = [=, &c]() { set_elem(c, MA, g.p, i, j, v, op == 1); return MA; }; break;
        }
        case 2:
        {
            E = A; std::vector<Z> r(n); for (int q = 0; q < n; q++) { r[q] = c.src.chance(3, 4) ? gen_value(c, g.p, 0) : Z(0); E(i, q) = r[q]; } name = "set_row"; c.note("; row %d", i);
            run = [=]() { Buf b(g.p, r); bml_set_row(MA, i, b.d, 0.0); return MA; }; break;
        }
        case 3:
        {
            E = A; std::vector<Z> r(n); for (int q = 0; q < n; q++) { r[q] = gen_value(c, g.p, 0); E(q, q) = r[q]; } name = "set_diagonal";
            run = [=]() { Buf b(g.p, r); bml_set_diagonal(MA, b.d, 0.0); return MA; }; break;
        }
        case 4: case 5:
        {
            Dn D = gen_matrix(c, n, g.p, 0); E = D; name = "import"; bool rm = c.src.coin();
            run = [=]() { Buf b(g.p, (size_t) n * n); for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) put(g.p, b.d, rm ? x * n + y : y * n + x, D(x, y)); return bml_import_from_dense(g.t, g.p, rm ? dense_row_major : dense_column_major, n, mm, b.d, 0.0, sequential); }; break;
        }
        case 6: E = lin(al, A, be, B); name = "add"; run = [=]() { bml_add(MA, MB, al, be, 0.0); return MA; }; break;
        case 7: if (g.t == csr) c.skip(); E = lin(al, A, be, B); name = "add_norm"; run = [=]() { bml_add_norm(MA, MB, al, be, 0.0); return MA; }; break;
        case 8: E = A; for (int q = 0; q < n; q++) E(q, q) += be; name = "add_identity"; run = [=]() { bml_add_identity(MA, be, 0.0); return MA; }; break;
        case 9: E = lin(al, A, 0, A); for (int q = 0; q < n; q++) E(q, q) += be; name = "scale_add_identity"; run = [=]() { bml_scale_add_identity(MA, al, be, 0.0); return MA; }; break;
        case 10: { Dn C0 = A; E = lin(al, mul(A, B), 0, A); S = absmul(A, B); name = "multiply"; cap = m3; run = [=]() { Mat C = bml_zero_matrix(g.t, g.p, n, m3, sequential); bml_multiply(MA, MB, C, al, 0.0, 0.0); return C; }; break; }
        case 11: E = mul(A, A); S = absmul(A, A); name = "multiply_x2"; cap = m3; run = [=]() { Mat C = bml_zero_matrix(g.t, g.p, n, m3, sequential); void *t = bml_multiply_x2(MA, C, 0.0); bml_free_memory(t); return C; }; break;
        case 12: E = tr(A); name = "transpose_new"; run = [=]() { return bml_transpose_new(MA); }; break;
        case 13: E = tr(A); name = "transpose"; run = [=]() { bml_transpose(MA); return MA; }; break;
        case 14:
        {   // conversion into a matrix that may be too small
            Dn D = gen_matrix(c, n, g.p, 0); E = D; name = "convert"; Cfg d = g; d.t = c.src.pick({ dense, csr }); d.bs.clear(); Mat X = build(c, d, D, n);
            run = [=]() { return bml_convert(X, g.t, g.p, mm, sequential); }; break;
        }
        case 15:
        {
            Dn D = gen_matrix(c, n, g.p, 0); if (g.t == ellblock) c.skip(); E = D; name = "copy";
            int m2 = max_row(D) >= n ? n : std::max(1, max_row(D)); Mat X = build(c, g, D, m2);
            run = [=]() { bml_copy(X, MA); return MA; }; break;
        }
        case 16:
        {
            if (g.t == ellblock) c.skip();
            for (size_t k = 0; k < E.a.size(); k++) { E.a[k] = A.a[k] * B.a[k]; S.a[k] = std::abs(E.a[k]); } name = "element_multiply_AB"; cap = m3;
            run = [=]() { Mat C = bml_zero_matrix(g.t, g.p, n, m3, sequential); bml_element_multiply_AB(MA, MB, C, 0.0); return C; }; break;
        }
        case 17:
        {   // a product into a matrix that holds something already
            if (g.t == ellblock) c.skip();
            Dn C0 = gen_matrix(c, n, g.p, 0); cap = std::max(m3, max_row(C0)); Mat C = build(c, g, C0, cap); dump(c, "C", C0);
            E = lin(al, mul(A, B), be, C0); S = absmul(A, B); for (size_t k = 0; k < S.a.size(); k++) S.a[k] += std::abs(C0.a[k]); name = "multiply+C";
            run = [=]() { bml_multiply(MA, MB, C, al, be, 0.0); return C; }; break;
        }
    }
    if (g.t == ellblock) cap = m; else if (cap != m) { c.note(" M of the result %d", cap); c.label("separate capacity"); }
    c.label("op:" + name); c.note("; %s", name.c_str());
    bool fits = g.t == csr || (g.t == ellblock ? max_blocks(g, E, (int) g.bs.size()) : max_row(E)) <= cap;
    auto r = probe([&]() { Mat R = run(); Dn X = rd(R, g.p, n); printf(close_to(X, E, S, g.eps()) ? "\nRIGHT\n" : "\nWRONG\n"); fflush(stdout); });
    bool right = r.out.find("\nRIGHT\n") != std::string::npos, wrong = r.out.find("\nWRONG\n") != std::string::npos;
    CHECK(c, !r.timed_out, "%s: hangs", name.c_str());
    CHECK(c, !(r.exited && r.code == 99) && r.out.find("Sanitizer") == std::string::npos, "%s: memory error: %s", name.c_str(), r.out.substr(0, 1800).c_str());
    CHECK(c, !wrong, "%s: wrong matrix returned (the result %s)", name.c_str(), fits ? "fits" : "does not fit the capacity");
    if (right) { c.label("outcome:right"); CHECK(c, r.exited && r.code == 0, "%s: died after the result was read", name.c_str()); }
    else { c.label("outcome:diagnosed"); expect_diagnosed(c, r, name.c_str()); }
    if (!fits) c.nontrivial();
}

PROP(C32, invalid, 1)
{
    Cfg g = gen_cfg(c, ALL4, 9); int n = g.n; Dn D = gen_matrix(c, n, g.p, 0); Mat A = build(c, g, D);
    std::string name; std::function<void()> f; int k = c.src.u(12);
    auto other = [&](MType t) { MType o; do o = c.src.pick(ALL4); while (o == t); return o; };
    switch (k)
    {
        case 0: case 1:
        {
            int bad = c.src.pick({ -1, n, n + 1, -n, 1000000, -2147483647, 2147483647 }), i = c.src.u(n), j = c.src.u(n); if (c.src.coin()) i = bad; else j = bad;
            name = "get_element out of range"; c.note("; (%d,%d)", i, j); f = [=]() { bml_get_element(A, i, j); }; break;
        }
        case 2: { if (g.t == ellblock) c.skip(); int bad = c.src.pick({ -1, n, n + 1, -n, 1000000 }); name = "row bandwidth out of range"; c.note("; row %d", bad); f = [=]() { bml_get_row_bandwidth(A, bad); }; break; }
        case 3: { MType o = other(g.t); Mat B = bml_zero_matrix(o, g.p, n, n, sequential); name = "copy to another type"; f = [=]() { bml_copy(A, B); }; break; }
        case 4: { if (g.t == ellblock) c.skip(); int n2 = n + c.src.pick({ 1, 3 }); Mat B = bml_zero_matrix(g.t, g.p, n2, n2, sequential); bool sw = c.src.coin(); name = "copy to another size"; f = [=]() { if (sw) bml_copy(B, A); else bml_copy(A, B); }; break; }
        case 5:
        {   // more stored entries than the target can hold
            if (g.t != ellpack || max_row(D) < 2) c.skip(); Mat B = bml_zero_matrix(g.t, g.p, n, max_row(D) - 1, sequential); name = "copy to a smaller capacity"; f = [=]() { bml_copy(A, B); }; break;
        }
        case 6: { if (g.t == ellblock) c.skip(); int n2 = n + c.src.pick({ 1, 3 }); Mat B = bml_zero_matrix(g.t, g.p, n2, n2, sequential); name = "trace_mult of different sizes"; f = [=]() { bml_trace_mult(A, B); }; break; }
        case 7: { char t = c.src.pick({ 'x', 'a', ' ', '\0' }); bool adj = c.src.coin(); name = adj ? "adjungate_triangle, unknown triangle" : "transpose_triangle, unknown triangle"; f = [=]() { char b[2] = { t, 0 }; if (adj) bml_adjungate_triangle(A, b); else bml_transpose_triangle(A, t); }; break; }
        case 8:
        {
            int w = c.src.u(5); MType bad = (MType) c.src.pick({ 0, 17, 99 }); MPrec badp = (MPrec) c.src.pick({ 0, 9, 99 }); name = "constructor with an unknown type or precision"; c.note("; constructor %d", w); bool tp = c.src.coin();
            MType T = tp ? bad : g.t; MPrec P = tp ? g.p : badp;
            f = [=]() { switch (w) { case 0: bml_zero_matrix(T, P, n, n, sequential); break; case 1: bml_random_matrix(T, P, n, n, sequential); break; case 2: bml_banded_matrix(T, P, n, n, sequential); break; case 3: bml_identity_matrix(T, P, n, n, sequential); break; case 4: { double b[4] = { 0 }; std::vector<double> buf((size_t) n * n * 2); bml_import_from_dense(T, P, dense_row_major, n, n, buf.data(), 0.0, sequential); } } }; break;
        }
        case 9:
        {   // operations a format does not have
            struct U { const char *n; MType t; std::function<void()> f; };
            std::vector<int> *idx = new std::vector<int>(n + 1, 0); auto I = idx->data(); auto P = new std::vector<int>(n * n + n, 0);
            Mat B = bml_copy_new(A);
            std::vector<U> u;
            for (MType t : { dense, ellblock, csr })
            {
                u.push_back({ "bml_matrix2submatrix_index", t, [=]() { int vs[2]; int nl[1] = { 0 }; std::vector<int> o(n); bml_matrix2submatrix_index(A, B, nl, 1, o.data(), vs, 0); } });
                u.push_back({ "bml_matrix2submatrix_index_graph", t, [=]() { int vs[2]; int nl[1] = { 0 }; std::vector<int> o(n); bml_matrix2submatrix_index_graph(B, nl, 1, o.data(), vs, 0); } });
                u.push_back({ "bml_group_matrix", t, [=]() { int h[1] = { 1 }; bml_group_matrix(A, h, 1, 0.0); } });
                u.push_back({ "bml_adjacency", t, [=]() { bml_adjacency(A, I, P->data(), 0); } });
                u.push_back({ "bml_adjacency_group", t, [=]() { int h[1] = { 1 }; bml_adjacency_group(A, h, 1, I, P->data(), 0); } });
            }
            u.push_back({ "bml_fnorm2", csr, [=]() { bml_fnorm2(A, B); } });
            u.push_back({ "bml_save_domain", csr, [=]() { bml_save_domain(A); } }); u.push_back({ "bml_restore_domain", csr, [=]() { bml_restore_domain(A); } });
            u.push_back({ "bml_reorder", csr, [=]() { bml_reorder(A, I); } });
            u.push_back({ "bml_element_multiply_AB", ellblock, [=]() { Mat C = bml_copy_new(A); bml_element_multiply_AB(A, B, C, 0.0); } });
            u.push_back({ "bml_get_row_bandwidth", ellblock, [=]() { bml_get_row_bandwidth(A, 0); } });
            u.push_back({ "bml_get_bandwidth", ellblock, [=]() { bml_get_bandwidth(A); } });
            for (MType t : { ellblock, csr }) u.push_back({ "bml_adjungate_triangle", t, [=]() { char b[2] = { 'u', 0 }; bml_adjungate_triangle(A, b); } });
            for (MType t : { ellpack, ellblock, csr }) u.push_back({ "bml_transpose_triangle", t, [=]() { bml_transpose_triangle(A, 'u'); } });
            std::vector<U> v; for (auto &x : u) if (x.t == g.t) v.push_back(x);
            if (v.empty()) c.skip();
            auto &x = v[c.src.u((uint32_t) v.size())]; name = std::string("not available: ") + x.n; f = x.f; break;
        }
        case 10:
        {
            struct U { const char *n; std::function<void()> f; };
            Mat N0 = NULL; std::vector<U> u = {
                { "bml_copy_new", [=]() { bml_copy_new(N0); } }, { "bml_copy", [=]() { bml_copy(N0, A); } }, { "bml_copy(,NULL)", [=]() { bml_copy(A, N0); } },
                { "bml_get_element", [=]() { bml_get_element(N0, 0, 0); } }, { "bml_get_row", [=]() { bml_get_row(N0, 0); } }, { "bml_get_diagonal", [=]() { bml_get_diagonal(N0); } },
                { "bml_set_diagonal", [=]() { Buf b(g.p, std::vector<Z>(n)); bml_set_diagonal(N0, b.d, 0.0); } }, { "bml_trace", [=]() { bml_trace(N0); } }, { "bml_fnorm", [=]() { bml_fnorm(N0); } },
                { "bml_transpose_new", [=]() { bml_transpose_new(N0); } }, { "bml_add", [=]() { bml_add(N0, A, 1, 1, 0); } }, { "bml_multiply", [=]() { bml_multiply(N0, A, A, 1, 0, 0); } },
                { "bml_scale_inplace", [=]() { Buf b(g.p, Z(2)); bml_scale_inplace(b.d, N0); } }, { "bml_threshold", [=]() { bml_threshold(N0, 0.1); } },
                { "bml_write_bml_matrix", [=]() { bml_write_bml_matrix(N0, (char *) "/dev/null"); } } };
            auto &x = u[c.src.u((uint32_t) u.size())]; name = std::string("NULL matrix: ") + x.n; f = x.f; break;
        }
        case 11: { MPrec q = g.p; do q = gen_prec(c); while (q == g.p && c.src.coin()); if (q == g.p) c.skip(); Mat B = bml_zero_matrix(g.t, q, n, n, sequential); name = "copy to another precision"; f = [=]() { bml_copy(A, B); }; break; }
    }
    c.label("req:" + name); c.note("; %s", name.c_str());
    auto r = probe([&]() { f(); printf("RETURNED\n"); fflush(stdout); });
    expect_diagnosed(c, r, name.c_str());
    if (n > 1) c.nontrivial();
}

// C20 core-halo submatrices, C21 blocks, C22 adjacency/groups, C23 reordering
#include "gen.hpp"

static std::vector<int> shuffled(Case &c, int n)
{
    std::vector<int> p(n); std::iota(p.begin(), p.end(), 0);
    for (int k = n; k > 1; k--) std::swap(p[k - 1], p[c.src.u(k)]);
    return p;
}
static bool prob_pattern_sym(Case &c, Dn &D, MPrec p)
{
    if (!c.src.chance(1, 3)) return false;
    for (int i = 0; i < D.n; i++) for (int j = 0; j < i; j++) if ((D(i, j) != Z(0)) != (D(j, i) != Z(0))) { if (D(i, j) == Z(0)) D(i, j) = gen_value(c, p, 1); else D(j, i) = gen_value(c, p, 1); }
    return true;
}
// arrays exactly as large as the result may become, so that ASan sees overruns
struct Ints { int n; int *d; Ints(int n_) : n(n_), d((int *) malloc(sizeof(int) * (n_ ? n_ : 1))) { for (int i = 0; i < n_; i++) d[i] = -77777; } ~Ints() { free(d); } Ints(const Ints &) = delete; int &operator[](int i) { return d[i]; } };

static std::set<int> halo(const std::set<int> &core, const Dn *H, const Dn &G, bool jump)
{
    std::set<int> s = core; int n = G.n;
    for (int i : core) for (int j = 0; j < n; j++) if (G(i, j) != Z(0) || (H && (*H)(i, j) != Z(0))) s.insert(j);
    if (jump) { auto t = s; for (int i : t) for (int j = 0; j < n; j++) if (G(i, j) != Z(0)) s.insert(j); }
    return s;
}
static std::vector<int> core_halo(Case &c, Mat A, Mat B, const Dn &H, const Dn &G, const std::vector<int> &nodes, int jump, bool graph_only, int &ncore)
{
    int n = G.n; std::set<int> core(nodes.begin(), nodes.end()); auto want = halo(core, graph_only ? nullptr : &H, G, jump);
    Ints idx((int) want.size()), vs(2); Ints nl((int) nodes.size()); for (size_t k = 0; k < nodes.size(); k++) nl[k] = nodes[k];
    if (graph_only) bml_matrix2submatrix_index_graph(B, nl.d, nl.n, idx.d, vs.d, jump);
    else bml_matrix2submatrix_index(A, B, nl.d, nl.n, idx.d, vs.d, jump);
    CHECK(c, vs[1] == (int) core.size(), "core count %d, expected %zu", vs[1], core.size());
    CHECK(c, vs[0] == (int) want.size(), "core+halo count %d, expected %zu", vs[0], want.size());
    std::vector<int> r(idx.d, idx.d + vs[0]);
    std::vector<int> first; for (int x : nodes) if (std::find(first.begin(), first.end(), x) == first.end()) first.push_back(x);
    for (size_t k = 0; k < first.size(); k++) CHECK(c, r[k] == first[k], "core index %zu is %d, expected %d", k, r[k], first[k]);
    CHECK(c, std::set<int>(r.begin(), r.end()) == want, "the core+halo index set is wrong");
    for (size_t k = 0; k < nodes.size(); k++) CHECK(c, nl[k] == nodes[k], "the node list was changed");
    ncore = vs[1]; return r;
}

PROP(C20, gather, 1)
{
    Cfg g = gen_cfg(c, { ellpack }); int n = g.n;
    Dn H = gen_matrix(c, n, g.p, MOVED), G = gen_related(c, H, g.p, 1); prob_pattern_sym(c, H, g.p);
    dump(c, "H", H); dump(c, "G", G);
    Mat A = build(c, g, H, gen_m(c, g, max_row(H))), B = build(c, g, G, gen_m(c, g, max_row(G)));
    auto pm = shuffled(c, n); int k = c.src.range(1, n); std::vector<int> nodes(pm.begin(), pm.begin() + k);
    if (c.src.chance(1, 5)) nodes.push_back(nodes[c.src.u(k)]);     // a node named twice
    int jump = c.src.u(2), go = c.src.u(3) == 0; c.note("; nodes="); for (int x : nodes) c.note("%d,", x); c.note(" jump=%d graph_only=%d", jump, go);
    c.label(jump ? "jump" : "nojump"); if (go) c.label("graph");
    int ncore; auto idx = core_halo(c, A, B, H, G, nodes, jump, go, ncore);
    int l = (int) idx.size();
    if (l > 1 && l < n) c.nontrivial();
    // gather
    Cfg s = g; s.t = dense; s.n = l; s.bs.clear(); Dn S0 = gen_matrix(c, l, g.p, 1); Mat S = build(c, s, S0, l);
    bml_matrix2submatrix(A, S, idx.data(), l);
    Dn S1(l); for (int i = 0; i < l; i++) for (int j = 0; j < l; j++) S1(i, j) = H(idx[i], idx[j]);
    expect_exact(c, S, s, S1, "submatrix");
    expect_exact(c, A, g, H, "matrix the submatrix was taken from");
    // scatter into a matrix with content
    Dn T = c.src.coin() ? S1 : gen_matrix(c, l, g.p, MOVED); if (!(T == S1)) { bml_deallocate(&S); S = build(c, s, T, l); }
    Dn C0 = gen_related(c, H, g.p, 1); double thr = gen_threshold(c, g.p, { &T }); c.note(" thr=%g", thr);
    Dn C1 = C0;
    for (int ja = 0; ja < ncore; ja++) { for (int j = 0; j < n; j++) C1(idx[ja], j) = 0; for (int jb = 0; jb < l; jb++) if (std::abs(T(ja, jb)) > thr) C1(idx[ja], idx[jb]) = T(ja, jb); }
    // |z| of a complex number near the threshold may round either way
    if (is_complex(g.p)) for (auto &z : T.a) if (std::abs(std::abs(z) - thr) <= 4 * g.eps() * thr && thr > 0) c.skip();
    Mat C = build(c, g, C0, gen_m(c, g, std::max(max_row(C0), max_row(C1))));
    bml_submatrix2matrix(S, C, idx.data(), l, ncore, thr);
    check_reads(c, C, g, C1, "matrix after scattering the submatrix");
    expect_exact(c, S, s, T, "scattered submatrix");
    bml_deallocate(&A); bml_deallocate(&B); bml_deallocate(&C); bml_deallocate(&S);
}
// splitting into parts and putting the core rows back restores the matrix
PROP(C20, reassemble, 1)
{
    Cfg g = gen_cfg(c, { ellpack }); int n = g.n;
    Dn H = gen_matrix(c, n, g.p, MOVED); prob_pattern_sym(c, H, g.p); dump(c, "H", H);
    Mat A = build(c, g, H, gen_m(c, g, max_row(H)));
    auto pm = shuffled(c, n); Mat R = bml_zero_matrix(ellpack, g.p, n, gen_m(c, g, max_row(H)), sequential);
    int at = 0, parts = 0;
    while (at < n)
    {
        int k = std::min(n - at, c.src.range(1, std::max(1, n / 2))); std::vector<int> nodes(pm.begin() + at, pm.begin() + at + k); at += k; parts++;
        int ncore; auto idx = core_halo(c, A, A, H, H, nodes, c.src.u(2), c.src.u(2), ncore); int l = (int) idx.size();
        Mat S = bml_zero_matrix(dense, g.p, l, l, sequential);
        bml_matrix2submatrix(A, S, idx.data(), l);
        bml_submatrix2matrix(S, R, idx.data(), l, ncore, 0.0);
        bml_deallocate(&S);
    }
    c.note("; %d parts", parts);
    check_reads(c, R, g, H, "matrix assembled from its parts");
    bml_deallocate(&A); bml_deallocate(&R);
    if (parts > 1 && interesting(H)) c.nontrivial();
}

PROP(C21, extract, 1)
{
    Cfg g = gen_cfg(c, ALL4, 0, true); int n = g.n; Dn D = gen_matrix(c, n, g.p, MOVED); dump(c, "A", D);
    Mat A = build(c, g, D, gen_m(c, g, max_row(D)));
    int cnt = c.src.range(1, 3); bool proper = false;
    for (int r = 0; r < cnt; r++)
    {
        int k, ir, ic; Cfg s = g; s.m = 0;
        if (g.t == ellblock)
        {   // blocks have to match
            std::vector<int> bs = g.bs; if (bs.empty()) for (int i = 0; i < n; i += 4) bs.push_back(std::min(4, n - i));
            int nb = (int) bs.size(), w = c.src.range(1, nb), b0 = c.src.u(nb - w + 1), b1 = c.src.u(nb - w + 1);
            for (int q = 0; q < w; q++) if (bs[b0 + q] != bs[b1 + q]) b1 = b0;
            ir = std::accumulate(bs.begin(), bs.begin() + b0, 0); ic = std::accumulate(bs.begin(), bs.begin() + b1, 0); k = std::accumulate(bs.begin() + b0, bs.begin() + b0 + w, 0);
        }
        else { k = c.src.range(1, n); ir = c.src.u(n - k + 1); ic = c.src.u(n - k + 1); }
        c.note("; extract(%d,%d,%d)", ir, ic, k); s.n = k; s.bs.clear();
        Dn E(k); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) E(i, j) = D(ir + i, ic + j);
        int m = g.t == ellpack ? (c.src.coin() ? k : std::max(1, max_row(E))) : g.t == csr ? c.src.range(1, k) : k;      // csr rows grow
        c.note(" M=%d", m);
        Mat B = bml_extract_submatrix(A, ir, ic, k, m);
        expect_meta(c, B, s, g.t == ellpack ? m : 0, "extracted block");
        check_reads(c, B, s, E, "extracted block");
        if (c.src.coin())
        {   // independent of the source
            int i = c.src.u(k), j = c.src.u(k); Z v = gen_value(c, g.p, 1);
            if (g.t == dense || (g.t == csr) || (!bctl.tight && row_nnz(E, i) < m) || E(i, j) != Z(0)) { set_elem(c, B, g.p, i, j, v, false); E(i, j) = v; expect_exact(c, B, s, E, "extracted block, then modified"); }
        }
        expect_exact(c, A, g, D, "matrix the block was extracted from");
        bml_deallocate(&B); if (k > 1 && k < n) proper = true;
    }
    bml_deallocate(&A);
    if (proper && interesting(D)) c.nontrivial();
}
PROP(C21, assemble, 1)
{
    Cfg g = gen_cfg(c, ALL4, 0, true); int n = g.n; Dn D = gen_matrix(c, n, g.p, MOVED); dump(c, "A", D);
    Mat A = build(c, g, D, gen_m(c, g, max_row(D)));
    // square tiles of one size, in shuffled order; the rest of the matrix stays empty
    std::vector<int> bs = g.bs; if (bs.empty()) for (int i = 0; i < n; i += 4) bs.push_back(std::min(4, n - i));
    int k = 0, w = 1; std::vector<int> off;
    if (g.t == ellblock) { for (int b : bs) if (b != bs[0]) { bs.resize(1); break; } w = c.src.range(1, (int) bs.size()); for (int b = 0; b + w <= (int) bs.size(); b += w) { off.push_back(std::accumulate(bs.begin(), bs.begin() + b, 0)); } k = std::accumulate(bs.begin(), bs.begin() + w, 0); }
    else { k = c.src.range(1, n); for (int i = 0; i + k <= n; i += k) off.push_back(i); }
    c.note("; tile %d", k); int nt = (int) off.size();
    Dn W(n); Mat R = NULL; int m = gen_m(c, g, max_row(D));
    bool pre = c.src.coin();
    // content outside of the tiles must survive
    if (pre) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (D(i, j) != Z(0)) { bool in = false; if (g.t == ellblock) { in = i < off.back() + k && j < off.back() + k; int hi = off.back() + k; in = blk_lo(g, i) < hi && blk_lo(g, j) < hi; } else in = i < nt * k && j < nt * k; if (!in) W(i, j) = D(i, j); }
    R = build(c, g, W, m);
    auto ord = shuffled(c, nt * nt); int use = c.src.coin() ? nt * nt : c.src.range(1, nt * nt);
    for (int q = 0; q < use; q++)
    {
        int ir = off[ord[q] / nt], ic = off[ord[q] % nt];
        Dn E(k); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { E(i, j) = D(ir + i, ic + j); W(ir + i, ic + j) = E(i, j); }
        Mat B = bml_extract_submatrix(A, ir, ic, k, g.t == csr ? c.src.range(1, k) : g.t == ellpack ? c.src.range(std::max(1, max_row(E)), k) : k);
        bml_assign_submatrix(R, B, ir, ic);
        Cfg s = g; s.n = k; s.bs.clear();
        expect_exact(c, B, s, E, "assigned block");
        expect_exact(c, R, g, W, "matrix after assigning a block");
        bml_deallocate(&B);
    }
    check_reads(c, R, g, W, "matrix assembled from blocks");
    int i = c.src.u(n), j = c.src.u(n); if (W(i, j) != Z(0)) { Z v = gen_value(c, g.p, 1); set_elem(c, R, g.p, i, j, v, false); W(i, j) = v; expect_exact(c, R, g, W, "assembled matrix, then modified"); }
    expect_exact(c, A, g, D, "matrix the blocks were taken from");
    bml_deallocate(&A); bml_deallocate(&R);
    if (nt > 1 && interesting(D)) c.nontrivial();
}

PROP(C22, rows, 1)
{
    Cfg g = gen_cfg(c, { ellpack }); int n = g.n; Dn D = gen_matrix(c, n, g.p, MOVED);
    int dg = c.src.u(4); for (int i = 0; i < n; i++) if (dg == 1) D(i, i) = gen_value(c, g.p, 0); else if (dg == 2) D(i, i) = 0;
    c.label(dg == 1 ? "diag:all" : dg == 2 ? "diag:none" : "diag:mixed");
    prob_pattern_sym(c, D, g.p); dump(c, "A", D);
    Mat A = build(c, g, D, gen_m(c, g, max_row(D))); int base = c.src.u(2); c.note("; base=%d", base);
    int tot = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) tot += i != j && D(i, j) != Z(0);
    Ints x(n + 1), a(tot);
    bml_adjacency(A, x.d, a.d, base);
    int at = 0;
    for (int i = 0; i < n; i++)
    {
        CHECK(c, x[i] == at + base, "xadj[%d] = %d, expected %d", i, x[i], at + base);
        for (int j = 0; j < n; j++) if (j != i && D(i, j) != Z(0)) { CHECK(c, a[at] == j + base, "neighbour %d (of row %d) = %d, expected %d", at, i, a[at], j + base); at++; }
    }
    CHECK(c, x[n] == at + base, "xadj[%d] = %d, expected %d", n, x[n], at + base);
    expect_exact(c, A, g, D, "matrix"); bml_deallocate(&A);
    if (tot > 1) c.nontrivial();
}
PROP(C22, nodes, 1)
{
    Cfg g = gen_cfg(c, { ellpack }); int n = g.n; Dn D = gen_matrix(c, n, g.p, MOVED); dump(c, "A", D);
    Mat A = build(c, g, D, gen_m(c, g, max_row(D))); int base = c.src.u(2);
    int k = c.src.range(1, n); auto pm = shuffled(c, n); pm.resize(k); std::sort(pm.begin(), pm.end());
    c.note("; base=%d nodes=", base); for (int v : pm) c.note("%d,", v);
    Ints h(k); for (int i = 0; i < k; i++) h[i] = pm[i] + 1;
    int tot = 0; for (int i : pm) for (int j : pm) tot += D(i, j) != Z(0);
    Ints x(k + 1), a(tot);
    bml_adjacency_group(A, h.d, k, x.d, a.d, base);
    int at = 0;
    for (int i = 0; i < k; i++)
    {
        CHECK(c, x[i] == at + base, "xadj[%d] = %d, expected %d", i, x[i], at + base);
        for (int j = 0; j < k; j++) if (D(pm[i], pm[j]) != Z(0)) { CHECK(c, a[at] == j + base, "neighbour %d (of node %d) = %d, expected %d", at, i, a[at], j + base); at++; }
    }
    CHECK(c, x[k] == at + base, "xadj[%d] = %d, expected %d", k, x[k], at + base);
    for (int i = 0; i < k; i++) CHECK(c, h[i] == pm[i] + 1, "hindex was changed");
    bml_deallocate(&A);
    if (tot > 1 && k > 1) c.nontrivial();
}
PROP(C22, groups, 2)
{
    Cfg g = gen_cfg(c, { ellpack }); int n = g.n; Dn D = gen_matrix(c, n, g.p, MOVED); prob_pattern_sym(c, D, g.p); dump(c, "A", D);
    Mat A = build(c, g, D, gen_m(c, g, max_row(D)));
    std::vector<int> st = { 0 }; for (int i = 1; i < n; i++) if (c.src.chance(2, 5)) st.push_back(i);
    int k = (int) st.size(); double thr = gen_threshold(c, g.p, { &D }); c.note("; thr=%g starts=", thr); for (int v : st) c.note("%d,", v);
    if (thr > 0) for (auto &z : D.a) if (is_complex(g.p) && std::abs(std::abs(z) - thr) <= 4 * g.eps() * thr) c.skip();
    Ints h(k); for (int i = 0; i < k; i++) h[i] = st[i] + 1;
    Mat B = bml_group_matrix(A, h.d, k, thr);
    Cfg s = g; s.n = k; expect_meta(c, B, s, 0, "group matrix");
    auto grp = [&](int i) { int r = 0; while (r + 1 < k && st[r + 1] <= i) r++; return r; };
    Dn F(k), E(k); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (std::abs(D(i, j)) > thr) { F(grp(i), grp(j)) = 1; E(grp(i), grp(j)) = E(grp(j), grp(i)) = 1; }
    bool sym = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sym = sym && (D(i, j) != Z(0)) == (D(j, i) != Z(0));
    Dn R = rd(B, g.p, k); int links = 0;
    for (int i = 0; i < k; i++) for (int j = 0; j < k; j++)
    {
        Z r = R(i, j); CHECK(c, r == Z(0) || r == Z(1), "group element (%d,%d) = %s is neither 0 nor 1", i, j, zs(r).c_str());
        if (i == j || F(i, j) != Z(0)) CHECK(c, r == Z(1), "groups %d and %d are linked but the group matrix has 0", i, j);
        else if (E(i, j) == Z(0)) CHECK(c, r == Z(0), "groups %d and %d are not linked but the group matrix has 1", i, j);
        else if (sym) CHECK(c, r == Z(1), "groups %d and %d are linked (by the transposed element) but the group matrix has 0", i, j);
        if (i != j && F(i, j) != Z(0)) links++;
    }
    check_reads(c, B, s, R, "group matrix");
    expect_exact(c, A, g, D, "matrix the groups were taken from");
    bml_deallocate(&A); bml_deallocate(&B);
    if (k > 1 && links > 0 && links < k * (k - 1)) c.nontrivial();
}

PROP(C23, reorder, 1)
{
    Cfg g = gen_cfg(c, { dense, ellpack, ellblock }, 0, true); int n = g.n; Dn D = gen_matrix(c, n, g.p, MOVED); dump(c, "A", D);
    int m = gen_m(c, g, max_row(D)); Mat A = build(c, g, D, m);
    std::vector<int> bs = g.bs; if (bs.empty()) for (int i = 0; i < n; i += 4) bs.push_back(std::min(4, n - i));
    int k = g.t == ellblock ? (int) bs.size() : n;
    auto perm = shuffled(c, k); auto arg = perm; c.note("; perm="); for (int v : perm) c.note("%d,", v);
    std::vector<int> full(n);
    if (g.t == ellblock)
    {   // a permutation of the blocks
        std::vector<int> nb(k), at(k + 1, 0); for (int b = 0; b < k; b++) nb[perm[b]] = bs[b]; for (int b = 0; b < k; b++) at[b + 1] = at[b] + nb[b];
        int i = 0; for (int b = 0; b < k; b++) for (int q = 0; q < bs[b]; q++) full[i++] = at[perm[b]] + q;
    }
    else full = perm;
    Dn E(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) E(full[i], full[j]) = D(i, j);
    bml_reorder(A, arg.data());
    CHECK(c, arg == perm, "the permutation was changed");
    expect_meta(c, A, g, g.t == ellpack ? m : 0, "reordered matrix");
    check_reads(c, A, g, E, "reordered matrix");
    if (c.src.coin()) { Mat B = bml_copy_new(A); expect_exact(c, B, g, E, "copy of the reordered matrix"); bml_deallocate(&B); }
    std::vector<int> inv(k); for (int i = 0; i < k; i++) inv[perm[i]] = i;
    bml_reorder(A, inv.data());
    check_reads(c, A, g, D, "matrix reordered back");
    bml_deallocate(&A);
    bool id = true; for (int i = 0; i < k; i++) id = id && perm[i] == i;
    if (!id && interesting(D) && !(E == D)) c.nontrivial();
}

// C27 messages, C29 row domains
#include "mpi_case.hpp"

// receiver contents before the message
static Mat target(Case &c, const Cfg &g, int m, int kind, const Dn &J)
{
    switch (kind)
    {
        case 0: return bml_zero_matrix(g.t, g.p, g.n, m, sequential);
        case 1: return bml_noinit_matrix(g.t, g.p, g.n, m, sequential);
        case 2: { Mat A = build(c, g, J, m); bml_clear(A); return A; }
        default: return build(c, g, J, m);
    }
}
static Dn fit(Case &c, Dn D, const Cfg &g, int m) { if (g.t == ellpack) for (int i = 0; i < g.n; i++) { int k = 0; for (int j = 0; j < g.n; j++) if (D(i, j) != Z(0) && ++k > m) D(i, j) = 0; } return D; }
// M of an ellblock matrix does not bound its rows
static int mpi_m(Case &c, const Cfg &g, int need) { if (g.t == ellblock && c.src.chance(1, 3)) { c.label("M:ellblock"); return c.src.range(1, g.n); } return gen_m(c, g, need); }
// the matrix can still be worked with
static void use(Case &c, Mat A, const Cfg &g, Dn D, int m, const char *what)
{
    int how = c.src.u(4), i = c.src.u(g.n), j = c.src.u(g.n); Z v = gen_value(c, g.p, 0);
    switch (how)
    {
        case 0: if (D(i, j) == Z(0) && row_nnz(D, i) >= m && g.t == ellpack) return; set_elem(c, A, g.p, i, j, v, false); D(i, j) = v; break;
        case 1: { Buf f(g.p, Z(2)); bml_scale_inplace(f.d, A); for (auto &z : D.a) z *= 2; break; }
        case 2: { Mat T = bml_copy_new(A); bml_add(A, T, 1, 1, 0.0); bml_deallocate(&T); for (auto &z : D.a) z *= 2; break; }
        case 3: bml_clear(A); D = Dn(g.n); break;
    }
    expect_exact(c, A, g, D, what);
}
static MPI_Comm reversed()   // ranks in reverse order
{
    static MPI_Comm k = MPI_COMM_NULL; if (k == MPI_COMM_NULL) PMPI_Comm_split(MPI_COMM_WORLD, 0, R - me, &k); return k;
}
static MPI_Comm pick_comm(Case &c) { if (c.src.chance(1, 3)) { c.note(" reversed communicator"); c.label("comm:reversed"); return reversed(); } return MPI_COMM_WORLD; }
static int my(MPI_Comm k) { int r; MPI_Comm_rank(k, &r); return r; }

static void body_pair(Case &c);
PROP(C27, pair, 4) { body_pair(c); }
PROP(C26, mpi_pair, 1) { body_pair(c); }      // what the messages leave behind
static void body_pair(Case &c)
{
    Cfg g = gen_seq(c, ALL4); int n = g.n; Dn D = gen_matrix(c, n, g.p, 0), E = gen_matrix(c, n, g.p, 0);
    int m = mpi_m(c, g, std::max(max_row(D), max_row(E))), mr = g.t == csr ? c.src.range(1, n) : m, mode = c.src.u(3); if (g.t == csr && mode == 1) mr = std::max({ mr, max_row(D), max_row(E) });  /* csr rows grow, but irecv sizes its buffers by the receiver's M */  D = fit(c, D, g, m); E = fit(c, E, g, m); Dn J = fit(c, gen_matrix(c, n, g.p, 0), g, m);
    MPI_Comm k = pick_comm(c); int src = c.src.u(R), dst = c.src.u(R), kind = c.src.u(5), two = c.src.chance(1, 3);
    if (src == dst) { if (R == 1) { mode = 1; if (g.t == csr) mr = n; } else if (mode != 1) dst = (dst + 1) % R; }
    c.note(" %s %d->%d, receiver %s%s", mode == 0 ? "send/recv" : mode == 1 ? "send/irecv" : "send/recv_matrix", src, dst, kind == 0 ? "zero" : kind == 1 ? "uninitialized" : kind == 2 ? "cleared" : "holding a matrix", two ? ", twice" : ""); dump(c, "A", D);
    c.label(mode == 0 ? "recv" : mode == 1 ? "irecv" : "recv_matrix");
    int r = my(k); Mat S = NULL, T = NULL;
    // both sides build both matrices: choices have to be the same everywhere
    S = build(c, g, D, m); T = target(c, g, mr, kind, J); Mat S2 = build(c, g, E, m);
    for (int rep = 0; rep <= two; rep++)
    {
        Mat &A = rep ? S2 : S; const Dn &W = rep ? E : D;
        if (mode == 2 && r == dst) { bml_deallocate(&T); T = bml_mpi_recv_matrix(g.t, g.p, n, mr, src, k); }
        else if (mode == 1 && r == dst) { bml_mpi_irecv(T, src, k); if (src == dst) bml_mpi_send(A, dst, k); bml_mpi_irecv_complete(T); }
        else if (mode == 0 && r == dst) bml_mpi_recv(T, src, k);
        if (r == src && src != dst) bml_mpi_send(A, dst, k);
        if (r == dst) { expect_meta(c, T, g, g.t == ellpack ? m : 0, "received matrix"); check_reads(c, T, g, W, "received matrix"); }
        if (r == src) check_reads(c, A, g, W, "sent matrix");
    }
    {
        const Dn &W = two ? E : D; 
        // used on the receiving rank; elsewhere the same draws on a copy of the sender's
        Mat U = r == dst ? T : (two ? S2 : S); use(c, U, g, W, m, "matrix used after the message");
    }
    bml_deallocate(&S); bml_deallocate(&S2); bml_deallocate(&T);
    if (n > 1 && interesting(D)) c.nontrivial();
}
static void body_bcast(Case &c);
PROP(C27, bcast, 3) { body_bcast(c); }
PROP(C26, mpi_bcast, 1) { body_bcast(c); }      // what the messages leave behind
static void body_bcast(Case &c)
{
    Cfg g = gen_seq(c, ALL4); int n = g.n; Dn D = gen_matrix(c, n, g.p, 0); int m = mpi_m(c, g, max_row(D)); D = fit(c, D, g, m);
    int mr = g.t == csr ? c.src.range(1, n) : m; Dn J = fit(c, gen_matrix(c, n, g.p, 0), g, m);
    MPI_Comm k = pick_comm(c); int root = c.src.u(R), kind = c.src.u(5); c.label("bcast"); c.note(" bcast from %d, others %s", root, kind == 0 ? "zero" : kind == 1 ? "uninitialized" : kind == 2 ? "cleared" : "holding a matrix"); dump(c, "A", D);
    Mat S = build(c, g, D, m), T = target(c, g, mr, kind, J); int r = my(k); Mat A = r == root ? S : T;
    bml_mpi_bcast_matrix(A, root, k);
    expect_meta(c, A, g, g.t == ellpack ? m : 0, "broadcast matrix"); check_reads(c, A, g, D, r == root ? "matrix of the root" : "broadcast matrix");
    use(c, A, g, D, m, "matrix used after the broadcast");
    bml_deallocate(&S); bml_deallocate(&T);
    if (n > 1 && R > 1 && interesting(D)) c.nontrivial();
}
// every rank sends its own matrix to its neighbour at the same time
static void body_ring(Case &c);
PROP(C27, ring, 3) { body_ring(c); }
PROP(C26, mpi_ring, 1) { body_ring(c); }      // what the messages leave behind
static void body_ring(Case &c)
{
    Cfg g = gen_seq(c, ALL4); int n = g.n; std::vector<Dn> D; int need = 1; for (int r = 0; r < R; r++) { D.push_back(gen_matrix(c, n, g.p, 0)); need = std::max(need, max_row(D.back())); }
    int m = mpi_m(c, g, need); for (auto &d : D) d = fit(c, d, g, m); if (g.t == csr) m = std::max(m, need); int sh = c.src.u(R), pre = c.src.u(2); c.label("ring"); c.note(" ring shift %d", sh); dump(c, "A0", D[0]);
    MPI_Comm k = pick_comm(c); int r = my(k), to = (r + sh) % R, from = (r + R - sh) % R; Mat A = NULL, B = NULL;
    for (int q = 0; q < R; q++) { Mat X = build(c, g, D[q], m); if (q == r) A = X; else bml_deallocate(&X); }
    if (pre) B = bml_copy_new(A); else B = bml_zero_matrix(g.t, g.p, n, m, sequential);
    for (int step = 0; step < 2; step++)
    {
        bml_mpi_irecv(B, from, k); bml_mpi_send(A, to, k); bml_mpi_irecv_complete(B);
        check_reads(c, B, g, D[(from + R * R - step * sh) % R], "matrix received from the neighbour"); std::swap(A, B);
    }
    bml_deallocate(&A); bml_deallocate(&B);
    if (n > 1 && R > 1 && interesting(D[0])) c.nontrivial();
}

// ---------------------------------------------------------------- C29
static void check_domain(Case &c, const bml_domain_t *d, int N, int M, bool dist)
{
    CHECK(c, d->totalProcs == R && d->totalRows == N && d->totalCols == M, "domain: %d ranks, %d x %d; expected %d, %d x %d", d->totalProcs, d->totalRows, d->totalCols, R, N, M);
    CHECK(c, d->globalRowMin == 0 && d->globalRowMax == N && d->globalRowExtent == N, "domain: rows %d..%d (%d), expected 0..%d", d->globalRowMin, d->globalRowMax, d->globalRowExtent, N);
    int at = 0, lo = N, hi = 0;
    for (int r = 0; r < R; r++)
    {
        int a = d->localRowMin[r], b = d->localRowMax[r];
        if (!dist) CHECK(c, a == 0 && b == N, "sequential domain: rank %d has rows %d..%d", r, a, b);
        else { CHECK(c, a == at && b >= a, "domain: rank %d has rows %d..%d, the previous one ends at %d", r, a, b, at); at = b; }
        CHECK(c, d->localRowExtent[r] == b - a && d->localElements[r] == (b - a) * M && d->localDispl[r] == a * M, "domain: rank %d rows %d..%d but extent %d, elements %d, displacement %d", r, a, b, d->localRowExtent[r], d->localElements[r], d->localDispl[r]);
        lo = std::min(lo, b - a); hi = std::max(hi, b - a);
    }
    if (dist) { CHECK(c, at == N, "domain: the last rank's rows end at %d of %d", at, N); CHECK(c, hi - lo <= 1, "domain: extents differ by %d", hi - lo); CHECK(c, d->minLocalExtent == lo && d->maxLocalExtent == hi, "domain: min/max extent %d %d, expected %d %d", d->minLocalExtent, d->maxLocalExtent, lo, hi); }
}
PROP(C29, default_domain, 1)
{
    int big = c.src.chance(1, 5), N = big ? c.src.range(1, 2000000) : c.src.range(1, 40), M = c.src.range(1, big ? 100 : N); bool dist = c.src.chance(2, 3); c.note("%d ranks, N=%d M=%d %s", R, N, M, dist ? "distributed" : "sequential"); c.label(N < R ? "N<ranks" : N % R ? "uneven" : "even");
    bml_domain_t *d = bml_default_domain(N, M, dist ? distributed : sequential); check_domain(c, d, N, M, dist);
    bml_domain_t *e = bml_default_domain(N, M, sequential); bml_copy_domain(d, e); for (int r = 0; r < R; r++) CHECK(c, e->localRowMin[r] == d->localRowMin[r] && e->localRowMax[r] == d->localRowMax[r] && e->localRowExtent[r] == d->localRowExtent[r] && e->localDispl[r] == d->localDispl[r] && e->localElements[r] == d->localElements[r], "copied domain differs at rank %d", r);
    bml_deallocate_domain(d); bml_deallocate_domain(e);
    if (dist && N > 1 && R > 1) c.nontrivial();
}
struct Part { std::vector<int> lo, hi, nodes, row0; };   // row0[r]..row0[r+1]
static Part gen_part(Case &c, int n)
{
    Part q; int k = c.src.u(3), np = k == 0 ? R : c.src.range(1, 2 * R + 2); std::vector<int> cut; for (int i = 1; i < np; i++) cut.push_back(c.src.u(n + 1)); std::sort(cut.begin(), cut.end()); cut.insert(cut.begin(), 0); cut.push_back(n);
    for (int i = 0; i < np; i++) q.nodes.push_back(cut[i + 1] - cut[i]);
    std::vector<int> pc; for (int r = 1; r < R; r++) pc.push_back(c.src.u(np + 1)); std::sort(pc.begin(), pc.end()); pc.insert(pc.begin(), 0); pc.push_back(np);
    for (int r = 0; r < R; r++) { q.lo.push_back(pc[r] + 1); q.hi.push_back(pc[r + 1]); q.row0.push_back(cut[pc[r]]); } q.row0.push_back(n);
    c.note(" rows"); for (int r = 0; r <= R; r++) c.note(" %d", q.row0[r]); return q;
}
static void body_gather(Case &c);
PROP(C29, gather, 4) { body_gather(c); }
PROP(C26, mpi_gather, 1) { body_gather(c); }      // what the messages leave behind
static void body_gather(Case &c)
{
    Cfg g = gen_seq(c, { dense, ellpack }); int n = g.n; Dn W[3] = { gen_matrix(c, n, g.p, 0), gen_matrix(c, n, g.p, 0), gen_matrix(c, n, g.p, 0) }; int need = 1; for (auto &w : W) need = std::max(need, max_row(w)); int m = mpi_m(c, g, need); for (auto &w : W) w = fit(c, w, g, m);
    Mat A = bml_zero_matrix(g.t, g.p, n, m, sequential); int steps = c.src.range(1, 3); Part saved, cur; bool have = false; int owned = 0;
    for (int s = 0; s < steps; s++)
    {
        int what = s == 0 ? 0 : c.src.u(3);
        if (what == 2 && have) { c.note(" restore:"); bml_restore_domain(A); cur = saved; c.label("restored"); }
        else { cur = gen_part(c, n); bml_update_domain(A, cur.lo.data(), cur.hi.data(), cur.nodes.data()); if (s == 0 || c.src.coin()) { bml_save_domain(A); saved = cur; have = true; c.note(" saved"); } }
        bool junk = c.src.coin();     // rows of other ranks: stale or empty
        if (!junk) bml_clear(A);
        for (int i = cur.row0[me]; i < cur.row0[me + 1]; i++) { Buf x(g.p, std::vector<Z>(W[s].a.begin() + (size_t) i * n, W[s].a.begin() + (size_t) (i + 1) * n)); bml_set_row(A, i, x.d, 0.0); }
        bml_allGatherVParallel(A);
        check_reads(c, A, g, W[s], "gathered matrix");
        int k = 0; for (int r = 0; r < R; r++) k += cur.row0[r + 1] > cur.row0[r]; owned = std::max(owned, k);
    }
    // operations on the rows of each rank, put together by another gather
    Dn D = W[steps - 1]; int ops = c.src.u(3);
    for (int s = 0; s < ops; s++)
    {
        int op = c.src.u(6); const char *nm = "?"; Dn X = D;
        if (op >= 4)    // each rank's part of a sum over the rows
        {
            double r, e = 0, s = 0; if (op == 4) { nm = "trace"; r = bml_trace(A); for (int i = 0; i < n; i++) { e += D(i, i).real(); s += std::abs(D(i, i)); } } else { nm = "sum_squares"; r = bml_sum_squares(A); for (auto &z : D.a) e += std::norm(z); s = e; }
            c.label(std::string("local:") + nm); bml_sumRealReduce(&r); CHECK(c, std::abs(r - e) <= 1e-5 * s + 1e-30, "%s summed over the ranks = %.12g, expected %.12g", nm, r, e); continue;
        }
        if (op == 0) { nm = "scale"; Buf f(g.p, Z(2)); bml_scale_inplace(f.d, A); for (auto &z : X.a) z *= 2; }
        else if (op == 1) { nm = "add"; Mat T = bml_copy_new(A); bml_update_domain(T, cur.lo.data(), cur.hi.data(), cur.nodes.data()); bml_add(A, T, 1, 2, 0.0); bml_deallocate(&T); for (auto &z : X.a) z *= 3; }
        else if (op == 2) { nm = "threshold"; double th = c.src.pick({ 0.0, 0.5, 1.0, 2.0 }); bool bad = false; for (auto &z : X.a) { double a = std::abs(z); bad |= z.real() != 0 && z.imag() != 0 && std::abs(a - th) < 1e-3; if (!(a > th)) z = 0; } if (bad) break; bml_threshold(A, th); }
        else { int i = c.src.u(n), j = c.src.u(n); if (D(i, j) == Z(0)) continue; nm = "set"; Z v = gen_value(c, g.p, 0); set_elem(c, A, g.p, i, j, v, false); X(i, j) = v; }
        c.note(" %s", nm); c.label(std::string("local:") + nm); D = X; bml_allGatherVParallel(A); check_reads(c, A, g, D, nm);
    }
    bml_deallocate(&A);
    if (owned > 1 && interesting(W[0])) c.nontrivial();
}

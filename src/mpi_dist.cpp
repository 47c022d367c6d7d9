// C28 distributed matrices, C26 what they leave behind
#include "mpi_case.hpp"
#include <unistd.h>
#include <sys/mman.h>

typedef std::vector<char> Pat;
struct DSlot { Mat A; MType t; Dn W; Pat S; };
static Dn block(const Dn &W, int n, int ip, int jp) { Dn B(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) B(i, j) = W(ip * n + i, jp * n + j); return B; }

struct DProg
{
    Case &c; MPrec p; int n, N, m; std::vector<MType> types; std::vector<DSlot> pool; int nops = 0, nmut = 0, pr, pc, files = 0; bool io = true;
    DProg(Case &c_) : c(c_) { pr = me / P; pc = me % P; }
    bool sparse(MType t) const { return t == ellpack || t == csr; }
    Cfg loc(MType t) const { Cfg g; g.t = t; g.p = p; g.n = n; g.m = m; if (t == ellblock) g.bs = EB.bs; return g; }
    int M(MType t) const { return sparse(t) ? m * P : N; }
    Z val() { auto one = [&]() { int k = c.src.range(0, 8); return (k < 8 ? k + 1 : 12) * 0.5 * (c.src.coin() ? -1 : 1); };
        double re = one(), im = 0; if (is_complex(p)) { int k = c.src.u(4); if (k) { im = one(); if (k == 3) re = 0; } } return Z(re, im); }
    double sc() { return c.src.pick({ 1.0, -1.0, 0.5, 2.0, 0.0, -0.5, 1.0 }); }
    // entries of row i in the block column of j
    bool room(MType t, const Pat &S) const
    {   // csr rows grow, but a message carries at most twice m*n entries of a block (finding csr-message-size)
        if (t == csr && P > 1) for (int a = 0; a < P; a++) for (int b = 0; b < P; b++) { int k = 0; for (int i = a * n; i < a * n + n; i++) for (int j = b * n; j < b * n + n; j++) k += S[(size_t) i * N + j]; if (k > 2 * m * n) return false; }
        if (t != ellpack || m >= n) return true; for (int i = 0; i < N; i++) for (int b = 0; b < P; b++) { int k = 0; for (int j = b * n; j < b * n + n; j++) k += S[(size_t) i * N + j]; if (k > m) return false; } return true; }
    Dn fit(Dn A) const { if (m < n) for (int i = 0; i < N; i++) for (int b = 0; b < P; b++) { int k = 0; for (int j = b * n; j < b * n + n; j++) if (A(i, j) != Z(0) && ++k > m) A(i, j) = 0; } return A; }
    Dn gen() { auto q = gen_pattern(c, N); Dn A(N); for (size_t k = 0; k < A.a.size(); k++) if (q[k]) A.a[k] = val(); return fit(A); }
    static Pat pat(const Dn &W) { Pat S(W.a.size()); for (size_t k = 0; k < S.size(); k++) S[k] = W.a[k] != Z(0); return S; }
    Pat por(const Pat &a, const Pat &b) const { Pat r(a); for (size_t k = 0; k < r.size(); k++) r[k] |= b[k]; return r; }
    Pat pdiag() const { Pat r((size_t) N * N, 0); for (int i = 0; i < N; i++) r[(size_t) i * N + i] = 1; return r; }
    Pat ptr(const Pat &a) const { Pat r(a.size()); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) r[(size_t) i * N + j] = a[(size_t) j * N + i]; return r; }
    Pat pmul(const Pat &a, const Pat &b) const { Pat r((size_t) N * N, 0); for (int i = 0; i < N; i++) for (int k = 0; k < N; k++) if (a[(size_t) i * N + k]) for (int j = 0; j < N; j++) r[(size_t) i * N + j] |= b[(size_t) k * N + j];
        // local products keep the diagonal of local blocks
        for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (i % n == j % n) r[(size_t) i * N + j] = 1; return r; }
    static int gran(const Dn &W) { int g = 0; for (auto &z : W.a) for (double x : { z.real(), z.imag() }) { while (g < 60 && std::ldexp(x, g) != std::floor(std::ldexp(x, g))) g++; } return g; }
    bool exact(double bound, int g) const { return bound * 4 * std::ldexp(1.0, g) < std::ldexp(1.0, is_double(p) ? 50 : 23); }
    Dn collect(Mat A, bml_dense_order_t o, const char *what)   // on rank 0 only
    {
        void *d = bml_export_to_dense(A, o); CHECK(c, (d != NULL) == (me == 0), "after %s: export returned %s", what, d ? "an array on a rank other than 0" : "nothing"); Dn X(N);
        if (me == 0) { for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) X(i, j) = get(p, d, o == dense_row_major ? (size_t) i * N + j : (size_t) j * N + i); bml_free_memory(d); }
        return X;
    }
    void verify(int a, const char *what)
    {
        DSlot &s = pool[a]; Mat L = bml_get_local_matrix(s.A); CHECK(c, L != NULL && bml_get_type(L) == s.t && bml_get_N(L) == n && bml_get_precision(L) == p, "after %s: local block of matrix %d: type %s N %d %s", what, a, tname(bml_get_type(L)), bml_get_N(L), pname(bml_get_precision(L)));
        CHECK(c, bml_get_type(s.A) == distributed2d && bml_get_N(s.A) == N && bml_get_precision(s.A) == p && bml_get_distribution_mode(s.A) == distributed, "after %s: matrix %d: type %s N %d %s", what, a, tname(bml_get_type(s.A)), bml_get_N(s.A), pname(bml_get_precision(s.A)));
        if (sparse(s.t)) CHECK(c, bml_get_M(s.A) == M(s.t), "after %s: M of matrix %d = %d, expected %d", what, a, bml_get_M(s.A), M(s.t));
        Dn X = rd(L, p, n);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK(c, X(i, j) == s.W(pr * n + i, pc * n + j), "after %s: element (%d,%d) of matrix %d = %s, expected %s", what, pr * n + i, pc * n + j, a, zs(X(i, j)).c_str(), zs(s.W(pr * n + i, pc * n + j)).c_str());
    }
    void reads(int a)
    {
        DSlot &s = pool[a]; bool cm = c.src.coin(); Dn X = collect(s.A, cm ? dense_column_major : dense_row_major, "export");
        if (me == 0) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) CHECK(c, X(i, j) == s.W(i, j), "exported (%s) element (%d,%d) of matrix %d = %s, expected %s", cm ? "column-major" : "row-major", i, j, a, zs(X(i, j)).c_str(), zs(s.W(i, j)).c_str());
        int i = c.src.u(N); void *r = bml_get_row(s.A, i); for (int j = 0; j < N; j++) { Z z = get(p, r, j); CHECK(c, z == s.W(i, j), "get_row(%d)[%d] of matrix %d = %s, expected %s", i, j, a, zs(z).c_str(), zs(s.W(i, j)).c_str()); } bml_free_memory(r);
    }
    Mat mk(MType t, const Dn &D)
    {
        int route = c.src.u(4); Mat A; c.label("build:" + std::to_string(route));
        if (route <= 1)
        {
            bool cm = c.src.chance(1, 3); Buf b(p, (size_t) N * N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) put(p, b.d, cm ? (size_t) j * N + i : (size_t) i * N + j, me == 0 ? D(i, j) : Z(77));
            c.note("[import%s]", cm ? " column-major" : ""); return bml_import_from_dense(t, p, cm ? dense_column_major : dense_row_major, N, M(t), b.d, 0.0, distributed);
        }
        A = bml_zero_matrix(t, p, N, M(t), distributed);
        if (route == 2) { c.note("[rows]"); for (int i = 0; i < N; i++) { Buf r(p, std::vector<Z>(D.a.begin() + (size_t) i * N, D.a.begin() + (size_t) (i + 1) * N)); bml_set_row(A, i, r.d, 0.0); } }
        else { c.note("[local]"); Mat L = bml_get_local_matrix(A); Dn B = block(D, n, pr, pc); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (B(i, j) != Z(0)) set_elem(c, L, p, i, j, B(i, j), false); }
        return A;
    }
    void add_slot(Mat A, MType t, const Dn &W, const Pat &S) { if (pool.size() >= 4) { int k = c.src.u(4); bml_deallocate(&pool[k].A); pool.erase(pool.begin() + k); } pool.push_back({ A, t, W, S }); }
    int mate(int a, std::initializer_list<int> not_these) { std::vector<int> v; for (int k = 0; k < (int) pool.size(); k++) { bool no = pool[k].t != pool[a].t; for (int x : not_these) no |= x == k; if (!no) v.push_back(k); } return v.empty() ? -1 : v[c.src.u((uint32_t) v.size())]; }
    void near(double got, double e, double scale, const char *what) { CHECK(c, std::abs(got - e) <= 1e-5 * scale + 1e-30, "%s = %.12g, expected %.12g", what, got, e); }
    bool step()
    {
        int op = c.src.u(32);
        if (pool.empty() || op == 0) { MType t = c.src.pick(types); Dn D = gen(); c.note(" new(%s)", tname(t)); Mat A = mk(t, D); add_slot(A, t, D, pat(D)); verify((int) pool.size() - 1, "construction"); return true; }
        int a = c.src.u((uint32_t) pool.size()); DSlot *s = &pool[a]; MType t = s->t; int b, d; const char *nm = "?"; auto E2 = [&](const Dn &X) { return maxabs(X); };
        switch (op)
        {
            case 1: case 2:
            {
                int i = c.src.u(N); Dn G = gen(); std::vector<Z> r(N); Pat S = s->S; Dn W = s->W; for (int j = 0; j < N; j++) { r[j] = G(i, j); W(i, j) = r[j]; S[(size_t) i * N + j] = (t == ellpack ? 0 : S[(size_t) i * N + j]) || r[j] != Z(0); }
                if (t == csr && !room(t, S)) return false; nm = "set_row"; Buf x(p, r); bml_set_row(s->A, i, x.d, 0.0); s->W = W; s->S = S; break;
            }
            case 3:
            {
                std::vector<Z> r(N); Dn W = s->W; for (int j = 0; j < N; j++) { r[j] = c.src.chance(1, 5) ? Z(0) : val(); W(j, j) = r[j]; }
                Pat S = por(s->S, pdiag()); if (!room(t, S)) return false; nm = "set_diagonal"; Buf x(p, r); bml_set_diagonal(s->A, x.d, 0.0); s->W = W; s->S = S; break;
            }
            case 4: if (!c.src.chance(1, 3)) return false; nm = "clear"; bml_clear(s->A); s->W = Dn(N); s->S.assign((size_t) N * N, 0); break;
            case 5: case 6:
            {
                if ((b = mate(a, { a })) < 0) return false; double al = sc(), be = sc(); Dn W = lin(al, s->W, be, pool[b].W); Pat S = por(s->S, pool[b].S);
                if (!room(t, S) || !exact(std::abs(al) * E2(s->W) + std::abs(be) * E2(pool[b].W), std::max(gran(s->W), gran(pool[b].W)) + 1)) return false;
                if (op == 6 && t != csr) { nm = "add_norm"; double ex = 0; for (size_t k = 0; k < W.a.size(); k++) ex += std::norm(s->W.a[k] - pool[b].W.a[k]); near(bml_add_norm(s->A, pool[b].A, al, be, 0.0), ex, ex, "add_norm"); }
                else { nm = "add"; bml_add(s->A, pool[b].A, al, be, 0.0); }
                s->W = W; s->S = S; break;
            }
            case 7: case 8:
            {
                double al = op == 7 ? 1 : sc(), be = sc(); Dn W = lin(al, s->W, be, Dn::eye(N)); Pat S = por(s->S, pdiag());
                if (!room(t, S) || !exact(std::abs(al) * E2(s->W) + std::abs(be), gran(s->W) + 1)) return false;
                nm = op == 7 ? "add_identity" : "scale_add_identity"; if (op == 7) bml_add_identity(s->A, be, 0.0); else bml_scale_add_identity(s->A, al, be, 0.0); s->W = W; s->S = S; break;
            }
            case 9: case 10: case 11:
            {
                b = c.src.chance(1, 4) ? a : mate(a, {}); d = mate(a, { a, b }); if (d < 0) return false; double al = sc(), be = op == 11 ? sc() : 0; DSlot &B = pool[b], &C = pool[d]; Dn W = lin(al, mul(s->W, B.W), be, C.W); Pat S = por(pmul(s->S, B.S), C.S);
                if (!room(t, S) || !exact(std::abs(al) * E2(absmul(s->W, B.W)) * 2 + std::abs(be) * E2(C.W), std::max(gran(s->W) + gran(B.W), gran(C.W)) + 1)) return false;
                nm = "multiply"; c.note(" [%d*%d->%d al=%g be=%g]", a, b, d, al, be); bml_multiply(s->A, B.A, C.A, al, be, 0.0); C.W = W; C.S = S; break;
            }
            case 12: case 13:
            {
                b = op == 12 ? a : mate(a, {}); d = mate(a, { a, b }); if (d < 0) return false; DSlot &B = pool[b], &C = pool[d]; Dn W = mul(s->W, B.W); Pat S = por(pmul(s->S, B.S), C.S);
                if (!room(t, S) || !exact(E2(absmul(s->W, B.W)) * 2 * N, gran(s->W) + gran(B.W))) return false;
                if (op == 12)
                {
                    nm = "multiply_x2"; double *q = (double *) bml_multiply_x2(s->A, C.A, 0.0); double e1 = 0, e2 = 0; for (int i = 0; i < N; i++) { e1 += s->W(i, i).real(); e2 += W(i, i).real(); }
                    CHECK(c, q != NULL, "multiply_x2 returns no traces"); CHECK(c, q[0] == e1 && q[1] == e2, "multiply_x2 traces %g %g, expected %g %g", q[0], q[1], e1, e2); bml_free_memory(q);
                }
                else { nm = "multiply_AB"; bml_multiply_AB(s->A, B.A, C.A, 0.0); }
                C.W = W; C.S = S; break;
            }
            case 14: case 15: case 16:
            {
                Z f = c.src.pick({ Z(0.5), Z(2), Z(-1), Z(3), Z(-0.5), Z(0), Z(1) }); if (is_complex(p) && c.src.coin()) f = Z(f.real(), c.src.pick({ 1.0, -0.5, 2.0 })); Dn W = s->W; for (auto &z : W.a) z *= f;
                if (!exact(E2(s->W) * std::abs(f) * 2, gran(s->W) + 1)) return false; Buf x(p, f);
                if (op == 14) { nm = "scale_inplace"; bml_scale_inplace(x.d, s->A); s->W = W; }
                else if (op == 15) { d = mate(a, { a }); if (d < 0) return false; nm = "scale"; bml_scale(x.d, s->A, pool[d].A); pool[d].W = W; pool[d].S = s->S; }
                else { nm = "scale_new"; Mat X = bml_scale_new(x.d, s->A); Pat S = s->S; add_slot(X, t, W, S); }
                break;
            }
            case 17: { Pat S = ptr(s->S); if (!room(t, S)) return false; nm = "transpose"; bml_transpose(s->A); s->W = tr(s->W); s->S = S; break; }
            case 18: { Pat S = ptr(s->S); if (!room(t, S)) return false; nm = "transpose_new"; Mat X = bml_transpose_new(s->A); Dn W = tr(s->W); add_slot(X, t, W, S); break; }
            case 19:
            {
                double th = c.src.pick({ 0.0, 0.5, 1.0, 2.0, 3.0 }); Dn W = s->W; for (auto &z : W.a) { if (is_complex(p) && z.imag() != 0 && z.real() != 0 && std::abs(std::abs(z) - th) < 1e-3) return false; if (!(std::abs(z) > th)) z = 0; }
                nm = "threshold_new"; Mat X = bml_threshold_new(s->A, th); Pat S = s->S; add_slot(X, t, W, S); break;
            }
            case 20: { d = mate(a, { a }); if (d < 0) return false; nm = "copy"; bml_copy(s->A, pool[d].A); pool[d].W = s->W; pool[d].S = s->S; break; }
            case 21: { nm = "copy_new"; Mat X = bml_copy_new(s->A); Dn W = s->W; Pat S = s->S; add_slot(X, t, W, S); break; }
            case 22: { MType u = c.src.pick(types); if (!room(u, s->S)) return false; nm = "convert"; c.note(" ->%s", tname(u)); Mat X = bml_convert(s->A, u, p, M(u), distributed); Dn W = s->W; Pat S = s->S; add_slot(X, u, W, S); break; }
            case 23: case 24:
            {
                double e = 0; for (int i = 0; i < N; i++) e += s->W(i, i).real(); if (!exact(E2(s->W) * N, gran(s->W))) return false; double r = bml_trace(s->A); CHECK(c, r == e, "trace = %g, expected %g", r, e);
                if ((b = mate(a, {})) >= 0 && room(t, ptr(pool[b].S)) && exact(E2(absmul(s->W, pool[b].W)) * 2 * N, gran(s->W) + gran(pool[b].W))) { Dn W = mul(s->W, pool[b].W); e = 0; for (int i = 0; i < N; i++) e += W(i, i).real(); r = bml_trace_mult(s->A, pool[b].A); CHECK(c, r == e, "trace_mult = %g, expected %g", r, e); }
                nm = "trace"; break;
            }
            case 25: case 26:
            {
                double e = 0; for (auto &z : s->W.a) e += std::norm(z); near(bml_sum_squares(s->A), e, e, "sum_squares"); near(bml_fnorm(s->A), std::sqrt(e), std::sqrt(e), "fnorm"); nm = "norms";
                if ((b = mate(a, {})) >= 0)
                {
                    DSlot &B = pool[b]; double al = sc(), be = sc(), f = 0, q = 0, qa = 0, d2 = 0; for (size_t k = 0; k < s->W.a.size(); k++) { f += std::norm(al * s->W.a[k] + be * B.W.a[k]); Z x = al * s->W.a[k] * B.W.a[k]; q += x.real(); qa += std::abs(x); d2 += std::norm(s->W.a[k] - B.W.a[k]); }
                    near(bml_sum_squares2(s->A, B.A, al, be, 0.0), f, f + 1e-3 * e, "sum_squares2"); near(bml_sum_AB(s->A, B.A, al, 0.0), q, qa, "sum_AB"); if (t != csr) near(bml_fnorm2(s->A, B.A), std::sqrt(d2), std::sqrt(d2), "fnorm2");
                }
                break;
            }
            case 27:
            {
                double *q = (double *) bml_gershgorin(s->A), lo = 1e300, hi = -1e300, S = 0; for (int i = 0; i < N; i++) { double r = 0; for (int j = 0; j < N; j++) if (j != i) r += std::abs(s->W(i, j)); double x = s->W(i, i).real(); lo = std::min(lo, x - r); hi = std::max(hi, x + r); S = std::max(S, std::abs(x) + r); }
                nm = "gershgorin"; CHECK(c, q != NULL, "gershgorin returns nothing"); near(q[0], lo, S, "gershgorin lower bound"); near(q[1], hi, S, "gershgorin upper bound"); bml_free_memory(q); break;
            }
            case 28:
            {
                double lo = c.src.pick({ -1.0, 0.0, -2.0 }), hi = lo + c.src.pick({ 2.0, 1.0, 4.0 }); Dn W(N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) W(i, j) = ((i == j ? hi : 0.0) - s->W(i, j)) / (hi - lo);
                Pat S = por(s->S, pdiag()); if (!room(t, S) || !exact(E2(s->W) + 8, gran(s->W) + 2)) return false; nm = "normalize"; bml_normalize(s->A, lo, hi); s->W = W; s->S = S; break;
            }
            case 29: { double th = c.src.pick({ 0.0, 0.75, 1.5 }); int k = 0; for (auto &z : s->W.a) { if (z != Z(0) && std::abs(std::abs(z) - th) < 1e-3) return false; k += std::abs(z) > th; } nm = "sparsity"; near(bml_get_sparsity(s->A, th), 1.0 - (double) k / N / N, 1, "sparsity"); break; }
            case 30:
            {
                if (!io || !c.src.chance(1, 3) || gran(s->W) > 3 || maxabs(s->W) > 900) return false; bool seq = c.src.coin(); nm = "write+read"; std::string f = DIR + "/m" + std::to_string(files++) + ".mtx"; char *q = (char *) f.c_str();
                bml_write_bml_matrix(s->A, q); MPI_Barrier(MPI_COMM_WORLD);
                if (seq && me == 0) { Mat X = bml_zero_matrix(dense, p, N, N, sequential); bml_read_bml_matrix(X, q); Dn Y = rd(X, p, N); bml_deallocate(&X); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) CHECK(c, Y(i, j) == s->W(i, j), "file written by the distributed matrix: element (%d,%d) = %s, expected %s", i, j, zs(Y(i, j)).c_str(), zs(s->W(i, j)).c_str()); }
                Mat X = bml_zero_matrix(t, p, N, M(t), distributed); bml_read_bml_matrix(X, q); MPI_Barrier(MPI_COMM_WORLD); if (me == 0) unlink(q); Dn W = s->W; Pat S = s->S; add_slot(X, t, W, S); break;
            }
            case 31:
            {
                int k = c.src.u(5); Mat X;
                if (k == 0) { nm = "identity"; X = bml_identity_matrix(t, p, N, M(t), distributed); Dn W = Dn::eye(N); add_slot(X, t, W, pat(W)); break; }
                if (k == 1) { nm = "zero"; X = bml_zero_matrix(t, p, N, M(t), distributed); add_slot(X, t, Dn(N), pat(Dn(N))); break; }
                if (k == 2) { nm = "noinit"; X = bml_noinit_matrix(t, p, N, M(t), distributed); bml_clear(X); add_slot(X, t, Dn(N), pat(Dn(N))); break; }
                if (k == 3) { nm = "random"; X = bml_random_matrix(t, p, N, M(t), distributed); bml_deallocate(&X); break; }
                if (pool.size() < 2) return false; nm = "deallocate"; bml_deallocate(&s->A); CHECK(c, s->A == NULL, "deallocate leaves the handle"); pool.erase(pool.begin() + a); break;
            }
        }
        nops++; c.note(" %s(%d)", nm, a); c.label(std::string("op:") + nm);
        for (int k = 0; k < (int) pool.size(); k++) verify(k, nm);
        return true;
    }
    void run(int steps)
    {
        p = gen_prec(c); types = { c.src.pick(ALL4) }; if (c.src.chance(1, 3)) types.push_back(c.src.pick(ALL4));
        n = c.src.range(1, c.thorough ? 8 : P == 3 ? 5 : 7); for (MType t : types) if (t == ellblock) n = EB.n; N = n * P; m = n; bool sp = false; for (MType t : types) sp |= sparse(t); if (sp && n > 1 && c.src.chance(1, 3)) m = c.src.range(1, n - 1);
        c.note("%d ranks, %s N=%d (blocks of %d, m=%d)", R, pname(p), N, n, m); c.label("ranks:" + std::to_string(R)); c.label(std::string("prec:") + pname(p)); for (MType t : types) c.label(std::string("type:") + tname(t)); if (m < n) c.label("M:partial");
        if (!EB.bs.empty() && types[0] == ellblock) { c.note(" ellblocks="); for (int b : EB.bs) c.note("%d,", b); }
        int left = steps; while (left-- && (nops < 2 || c.src.more(12))) step();
        for (int k = 0; k < (int) pool.size(); k++) reads(k);
        while (!pool.empty()) { size_t k = c.src.u((uint32_t) pool.size()); bml_deallocate(&pool[k].A); pool.erase(pool.begin() + k); for (int q = 0; q < (int) pool.size(); q++) verify(q, "deallocation"); }
        if (nops >= 4 && N > 1) c.nontrivial();
    }
};
// a local csr block grows beyond twice M entries a row: the messages of the product are truncated
FINDING(C28, "csr-message-size")
{
    int n = 8, N = n * P; Buf b(double_real, (size_t) N * N); for (int i = 0; i < N * N; i++) put(double_real, b.d, i, 1); Mat A = bml_zero_matrix(csr, double_real, N, P, distributed), B = bml_zero_matrix(csr, double_real, N, P, distributed);
    for (int i = 0; i < N; i++) bml_set_row(A, i, b.d, 0.0);
    bml_multiply(A, A, B, 1, 0, 0); Dn X = rd(bml_get_local_matrix(B), double_real, n); CHECK(c, X(0, 0) == Z(N), "wrong product"); bml_deallocate(&A); bml_deallocate(&B);
}
PROP(C28, program, 10) { DProg g(c); g.run(c.thorough ? 40 : 25); }
PROP(C26, distributed, 5) { DProg g(c); g.run(10); }

// products of values that are not exactly representable, with thresholds
PROP(C28, product, 2)
{
    DProg g(c); g.p = gen_prec(c); MType t = c.src.pick(ALL4); int n = g.n = t == ellblock ? EB.n : c.src.range(1, P == 3 ? 5 : 8), N = g.N = n * P; g.m = n; int vm = c.src.range(1, 2); Dn A = gen_matrix(c, N, g.p, vm), B = gen_related(c, A, g.p, vm), C = gen_related(c, A, g.p, vm);
    double al = gen_scalar(c, g.p), be = gen_scalar(c, g.p), th = gen_threshold(c, g.p, { &A }); int what = c.src.u(3); c.label("ranks:" + std::to_string(R)); c.label(std::string("type:") + tname(t)); c.note("%d ranks, %s %s N=%d %s alpha=%g beta=%g threshold=%g", R, tname(t), pname(g.p), N, what == 0 ? "multiply" : what == 1 ? "add" : "threshold", al, be, th); dump(c, "A", A); dump(c, "B", B);
    Mat a = g.mk(t, A), b = g.mk(t, B), d = g.mk(t, C); Dn W(N), tol(N); double eps = eps_of(g.p);
    if (what == 0) { bml_multiply(a, b, d, al, be, th); Dn X = mul(A, B), Y = absmul(A, B); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { W(i, j) = al * X(i, j) + be * C(i, j); tol(i, j) = 8 * eps * (N + 4) * (std::abs(al) * Y(i, j).real() + std::abs(be) * std::abs(C(i, j))) + P * th * (1 + std::abs(al) + std::abs(be)); } }
    else if (what == 1) { bml_add(d, a, al, be, th); for (size_t k = 0; k < W.a.size(); k++) { W.a[k] = al * C.a[k] + be * A.a[k]; tol.a[k] = 8 * eps * (std::abs(al * C.a[k]) + std::abs(be * A.a[k])) + th; } }
    else { bml_deallocate(&d); d = bml_threshold_new(a, th); for (size_t k = 0; k < W.a.size(); k++) { W.a[k] = std::abs(A.a[k]) > th ? A.a[k] : Z(0); tol.a[k] = is_complex(g.p) && std::abs(std::abs(A.a[k]) - th) <= 4 * eps * th ? th * 2 : 0; } }
    Dn L = rd(bml_get_local_matrix(d), g.p, n); expect_close(c, L, block(W, n, g.pr, g.pc), block(tol, n, g.pr, g.pc), "result");
    L = rd(bml_get_local_matrix(a), g.p, n); Dn E = block(A, n, g.pr, g.pc); for (size_t k = 0; k < E.a.size(); k++) CHECK(c, L.a[k] == E.a[k], "the operand was changed");
    bml_deallocate(&a); bml_deallocate(&b); bml_deallocate(&d);
    if (interesting(A) && interesting(B)) c.nontrivial();
}
PROP(C28, diagonalize, 2)
{
    DProg g(c); g.p = gen_prec(c); MType t = c.src.pick(ALL4); int n = g.n = t == ellblock ? EB.n : c.src.range(1, P == 3 ? 4 : 7), N = g.N = n * P; g.m = n; Dn A = gen_matrix(c, N, g.p, 1);
    for (int i = 0; i < N; i++) { A(i, i) = A(i, i).real(); for (int j = i + 1; j < N; j++) A(j, i) = std::conj(A(i, j)); } int deg = c.src.u(4); if (deg == 1) for (int i = 0; i < N; i++) A(i, i) = c.src.range(-2, 2); if (deg == 2) for (int i = 0; i < N; i++) A(i, i) -= 20.0; for (auto &z : A.a) z = rnd(g.p, z);
    c.label("ranks:" + std::to_string(R)); c.label(std::string("type:") + tname(t)); c.label("diagonalize"); c.note("%d ranks, %s %s N=%d diagonalize", R, tname(t), pname(g.p), N); dump(c, "A", A);
    Mat a = g.mk(t, A); bool pre = c.src.chance(1, 3); Dn J = gen_matrix(c, N, g.p, 0); Mat v = pre ? g.mk(t, J) : bml_zero_matrix(t, g.p, N, N, distributed); Buf w(g.p, N);
    bml_diagonalize(a, w.d, v);
    // every rank assembles the eigenvectors through get_row
    Dn V(N); for (int i = 0; i < N; i++) { void *r = bml_get_row(v, i); for (int j = 0; j < N; j++) V(i, j) = get(g.p, r, j); bml_free_memory(r); } CHECK(c, allfinite(V), "eigenvectors are not finite");
    double sc = 1e-300, tol = 100.0 * (N + 4) * eps_of(g.p); for (int i = 0; i < N; i++) { double s = 0; for (int j = 0; j < N; j++) s += std::abs(A(i, j)); sc = std::max(sc, s); } Dn L(N);
    for (int i = 0; i < N; i++) { CHECK(c, w[i].imag() == 0 && (i == 0 || w[i].real() >= w[i - 1].real()), "eigenvalue %d = %s after %s", i, zs(w[i]).c_str(), i ? zs(w[i - 1]).c_str() : "-"); L(i, i) = w[i]; }
    Dn G = mul(conjT(V), V), X = mul(A, V), Y = mul(V, L);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { CHECK(c, std::abs(X(i, j) - Y(i, j)) <= tol * sc, "A v_%d differs from w_%d v_%d in row %d: %s, expected %s", j, j, j, i, zs(X(i, j)).c_str(), zs(Y(i, j)).c_str()); CHECK(c, std::abs(G(i, j) - Z(i == j)) <= tol, "eigenvectors %d and %d: scalar product %s", i, j, zs(G(i, j)).c_str()); }
    Dn B = rd(bml_get_local_matrix(a), g.p, n), E = block(A, n, g.pr, g.pc); for (size_t k = 0; k < E.a.size(); k++) CHECK(c, B.a[k] == E.a[k], "A was changed by diagonalize");
    bml_deallocate(&a); bml_deallocate(&v); bool off = false; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) off |= i != j && A(i, j) != Z(0); if (N > 1 && off) c.nontrivial();
}
PROP(C26, diagonalize, 1)
{
    DProg g(c); g.p = gen_prec(c); MType t = c.src.pick(ALL4); int n = g.n = t == ellblock ? EB.n : c.src.range(1, 4), N = g.N = n * P; g.m = n; Dn A(N); for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) A(i, j) = A(j, i) = c.src.coin() ? g.val().real() : 0;
    c.note("%d ranks, %s %s N=%d diagonalize", R, tname(t), pname(g.p), N); Mat a = g.mk(t, A), v = bml_zero_matrix(t, g.p, N, N, distributed); Buf w(g.p, N); bml_diagonalize(a, w.d, v); bml_deallocate(&a); bml_deallocate(&v); if (N > 1) c.nontrivial();
}
PROP(C28, reduce, 1)
{
    std::vector<double> v(R); for (auto &x : v) x = c.src.range(-200, 200) / 8.0 * (c.src.chance(1, 4) ? 1e3 : 1); c.note("%d ranks, reduce", R); for (double x : v) c.note(" %g", x); double s = 0, lo = v[0], hi = v[0], q; for (double x : v) { s += x; lo = std::min(lo, x); hi = std::max(hi, x); }
    q = v[me]; bml_sumRealReduce(&q); CHECK(c, q == s, "sum over the ranks = %g, expected %g", q, s); q = v[me]; bml_minRealReduce(&q); CHECK(c, q == lo, "minimum over the ranks = %g, expected %g", q, lo); q = v[me]; bml_maxRealReduce(&q); CHECK(c, q == hi, "maximum over the ranks = %g, expected %g", q, hi);
    CHECK(c, bml_getNRanks() == R && bml_getMyRank() == me && (bml_printRank() != 0) == (me == 0), "ranks: %d of %d, print %d", bml_getMyRank(), bml_getNRanks(), bml_printRank()); bml_barrierParallel();
    if (R > 1 && lo < hi) c.nontrivial();
}
PROP(C28, print, 1)
{
    DProg g(c); g.p = gen_prec(c); MType t = c.src.pick(ALL4); int n = g.n = t == ellblock ? EB.n : c.src.range(1, 5), N = g.N = n * P; g.m = n; Dn A = g.gen(); int i0 = c.src.u(N), i1 = c.src.range(i0, N), j0 = c.src.u(N), j1 = c.src.range(j0, N); c.note("%d ranks, %s %s N=%d print rows %d..%d columns %d..%d", R, tname(t), pname(g.p), N, i0, i1, j0, j1); c.label("print");
    Mat a = g.mk(t, A); fflush(stdout); int fd = memfd_create("out", 0), old = dup(1); dup2(fd, 1); bml_print_bml_matrix(a, i0, i1, j0, j1); fflush(stdout); dup2(old, 1); close(old);
    std::string s; char b[65536]; ssize_t r; off_t o = 0; while ((r = pread(fd, b, sizeof b, o)) > 0) { s.append(b, r); o += r; } close(fd);
    if (me == 0) expect_window(c, s, A, g.p, i0, i1, j0, j1, false); else CHECK(c, s.empty(), "rank %d prints '%s'", me, s.substr(0, 200).c_str());
    bml_deallocate(&a); if (i1 > i0 && j1 > j0 && N > 1) c.nontrivial();
}

// Programs of library calls on a pool of matrices, executed next to an exact
// dense model.  All values are dyadic and every operation is admitted only if
// its result (and every partial sum) is exactly representable, so results must
// be equal, whatever the order of summation.
#pragma once
#include "gen.hpp"
#include <unistd.h>

struct Slot { Mat A; MType t; Dn W; std::vector<char> S; };
typedef std::vector<char> Pat;

struct Prog
{
    Case &c; MPrec p; int n; int mcap; std::vector<Slot> pool; bool wide; std::string dir; std::vector<int> bs;
    int nops = 0, nmut = 0; std::function<void()> before = nullptr; bool allow_io = true; std::vector<MType> types;
    Prog(Case &c_, MPrec p_, int n_, int m_, bool w) : c(c_), p(p_), n(n_), mcap(m_), wide(w) {}
    Cfg cfg(MType t) const { Cfg g; g.t = t; g.p = p; g.n = n; g.m = n; g.bs = bs; return g; }
    int M(MType t) const { return t == ellpack || t == csr ? mcap : n; }
    Z val() { auto one = [&]() { int k = c.src.range(0, 8); return (k < 8 ? k + 1 : 12) * 0.5 * (c.src.coin() ? -1 : 1); };
        double re = one(), im = 0; if (is_complex(p)) { int k = c.src.u(4); if (k) { im = one(); if (k == 3) re = 0; } } return Z(re, im); }
    double sc() { return c.src.pick({ 1.0, -1.0, 0.5, 2.0, 0.0, -0.5, 1.0 }); }
    Dn gen() { auto pat = gen_pattern(c, n); Dn A(n); for (size_t k = 0; k < A.a.size(); k++) if (pat[k]) A.a[k] = val();
        if (mcap < n) for (int i = 0; i < n; i++) { int k = 0; for (int j = 0; j < n; j++) if (A(i, j) != Z(0) && ++k > mcap) A(i, j) = 0; } return A; }
    static Pat pat(const Dn &W) { Pat S(W.a.size()); for (size_t k = 0; k < S.size(); k++) S[k] = W.a[k] != Z(0); return S; }
    bool room(MType t, const Pat &S) const { if (t != ellpack || mcap >= n) return true; for (int i = 0; i < n; i++) { int k = 0; for (int j = 0; j < n; j++) k += S[(size_t) i * n + j]; if (k > mcap) return false; } return true; }
    Pat por(const Pat &a, const Pat &b) const { Pat r(a); for (size_t k = 0; k < r.size(); k++) r[k] |= b[k]; return r; }
    Pat pdiag() const { Pat r((size_t) n * n, 0); for (int i = 0; i < n; i++) r[(size_t) i * n + i] = 1; return r; }
    Pat ptr(const Pat &a) const { Pat r(a.size()); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[(size_t) i * n + j] = a[(size_t) j * n + i]; return r; }
    Pat pmul(const Pat &a, const Pat &b) const { Pat r((size_t) n * n, 0); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) if (a[(size_t) i * n + k]) for (int j = 0; j < n; j++) r[(size_t) i * n + j] |= b[(size_t) k * n + j]; return r; }
    // fractional bits in use
    static int gran(const Dn &W) { int g = 0; for (auto &z : W.a) for (double x : { z.real(), z.imag() }) { while (g < 60 && std::ldexp(x, g) != std::floor(std::ldexp(x, g))) g++; } return g; }
    bool exact(double bound, int g) const { return bound * 4 * std::ldexp(1.0, g) < std::ldexp(1.0, is_double(p) ? 50 : 23); }
    void verify(int a, const char *what)
    {
        Slot &s = pool[a]; Cfg g = cfg(s.t);
        expect_meta(c, s.A, g, s.t == ellpack ? mcap : 0, what);
        Dn R = c.src.coin() ? rd(s.A, p, n) : read_order(s.A, p, n, dense_column_major);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
            CHECK(c, R(i, j) == s.W(i, j), "after %s: element (%d,%d) of matrix %d = %s, expected %s", what, i, j, a, zs(R(i, j)).c_str(), zs(s.W(i, j)).c_str());
    }
    // another slot of the same type, or -1
    int mate(int a, std::initializer_list<int> not_these) { std::vector<int> v; for (int k = 0; k < (int) pool.size(); k++) { bool no = pool[k].t != pool[a].t; for (int x : not_these) no |= x == k; if (!no) v.push_back(k); } return v.empty() ? -1 : v[c.src.u((uint32_t) v.size())]; }
    void add_slot(Mat A, MType t, const Dn &W, const Pat &S) { if (pool.size() >= 5) { int k = c.src.u(5); bml_deallocate(&pool[k].A); pool.erase(pool.begin() + k); } pool.push_back({ A, t, W, S }); }
    Mat mk(MType t, const Dn &D) { Cfg g = cfg(t); return build(c, g, D, M(t)); }

    // one step; false if the drawn operation does not apply
    bool step()
    {
        if (before) before();
        int op = c.src.u(wide ? 43 : 34);
        if (pool.empty() || op == 0) { MType t = c.src.pick(types); Dn D = gen(); c.note(" new(%s)", tname(t)); Mat A = mk(t, D); add_slot(A, t, D, pat(D)); verify((int) pool.size() - 1, "construction"); return true; }
        int a = c.src.u((uint32_t) pool.size()); Slot *s = &pool[a]; MType t = s->t; int b, d; const char *nm = "?"; int dest = a;
        auto E2 = [&](const Dn &X) { return maxabs(X); };
        switch (op)
        {
            case 1: case 2:
            {
                int i = c.src.u(n), j = c.src.u(n); Z v = c.src.chance(1, 8) ? Z(0) : val(); Pat S = s->S; bool fresh = !S[(size_t) i * n + j] && c.src.coin(); S[(size_t) i * n + j] = 1; if (!room(t, S)) return false;
                nm = fresh ? "set_element_new" : "set_element"; set_elem(c, s->A, p, i, j, v, fresh); s->W(i, j) = v; s->S = S; break;
            }
            case 3:
            {
                int i = c.src.u(n); Dn G = gen(); double th = c.src.pick({ 0.0, 0.0, 1.0 }); std::vector<Z> r(n); Pat S = s->S; Dn W = s->W;
                for (int j = 0; j < n; j++) { r[j] = G(i, j); bool keep = t == dense || std::abs(r[j]) > th; W(i, j) = keep ? r[j] : Z(0); S[(size_t) i * n + j] = (t == ellpack ? 0 : S[(size_t) i * n + j]) || (keep && r[j] != Z(0)); }
                if (!room(t, S)) return false; nm = "set_row"; Buf x(p, r); bml_set_row(s->A, i, x.d, th); s->W = W; s->S = S; break;
            }
            case 4:
            {
                std::vector<Z> r(n); Dn W = s->W; for (int j = 0; j < n; j++) { r[j] = c.src.chance(1, 5) ? Z(0) : val(); W(j, j) = r[j]; }
                Pat S = por(s->S, pdiag()); if (!room(t, S)) return false; nm = "set_diagonal"; Buf x(p, r); bml_set_diagonal(s->A, x.d, 0.0); s->W = W; s->S = S; break;
            }
            case 5: if (!c.src.chance(1, 3)) return false; nm = "clear"; bml_clear(s->A); s->W = Dn(n); s->S.assign((size_t) n * n, 0); break;
            case 6: case 7:
            {
                if ((b = mate(a, { a })) < 0) return false; double al = sc(), be = sc(); Dn W = lin(al, s->W, be, pool[b].W); Pat S = por(s->S, pool[b].S);
                if (!room(t, S) || !exact(std::abs(al) * E2(s->W) + std::abs(be) * E2(pool[b].W), std::max(gran(s->W), gran(pool[b].W)) + 1)) return false;
                nm = op == 7 && t != csr ? "add_norm" : "add";
                if (op == 7 && t != csr) { double ex = 0; for (size_t k = 0; k < W.a.size(); k++) ex += std::norm(s->W.a[k] - pool[b].W.a[k]); double r = bml_add_norm(s->A, pool[b].A, al, be, 0.0); CHECK(c, std::abs(r - ex) <= 1e-4 * ex + 1e-30, "add_norm returned %g, expected %g", r, ex); }
                else bml_add(s->A, pool[b].A, al, be, 0.0);
                s->W = W; s->S = S; break;
            }
            case 8: case 9:
            {
                double al = op == 8 ? 1 : sc(), be = sc(); Dn W = lin(al, s->W, be, Dn::eye(n)); Pat S = por(s->S, pdiag());
                if (!room(t, S) || !exact(std::abs(al) * E2(s->W) + std::abs(be), gran(s->W) + 1)) return false;
                nm = op == 8 ? "add_identity" : "scale_add_identity"; if (op == 8) bml_add_identity(s->A, be, 0.0); else bml_scale_add_identity(s->A, al, be, 0.0); s->W = W; s->S = S; break;
            }
            case 10: case 11: case 12:
            {
                b = c.src.chance(1, 4) ? a : mate(a, {}); d = mate(a, { a, b }); if (d < 0) return false; double al = sc(), be = op == 12 ? sc() : 0;
                Slot &B = pool[b], &C = pool[d]; Dn W = lin(al, mul(s->W, B.W), be, C.W); Pat S = pmul(s->S, B.S); if (be != 0) S = por(S, C.S); if (t == ellpack) S = por(S, C.S);
                if (!room(t, S) || !exact(std::abs(al) * E2(absmul(s->W, B.W)) * 2 + std::abs(be) * E2(C.W), std::max(gran(s->W) + gran(B.W), gran(C.W)) + 1)) return false;
                nm = "multiply"; bml_multiply(s->A, B.A, C.A, al, be, 0.0); C.W = W; C.S = S; dest = d; c.note(" [%d*%d->%d al=%g be=%g]", a, b, d, al, be); break;
            }
            case 13:
            {
                d = mate(a, { a }); if (d < 0) return false; Slot &C = pool[d]; Dn W = mul(s->W, s->W); Pat S = pmul(s->S, s->S);
                if (!room(t, S) || !exact(E2(absmul(s->W, s->W)) * 2 * n, 2 * gran(s->W))) return false;
                nm = "multiply_x2"; void *tr2 = bml_multiply_x2(s->A, C.A, 0.0); double e1 = 0, e2 = 0; for (int i = 0; i < n; i++) { e1 += s->W(i, i).real(); e2 += W(i, i).real(); }
                double g1 = ((double *) tr2)[0], g2 = ((double *) tr2)[1]; bml_free_memory(tr2);
                CHECK(c, g1 == e1 && g2 == e2, "multiply_x2 traces %g %g, expected %g %g", g1, g2, e1, e2); C.W = W; C.S = S; dest = d; break;
            }
            case 14: case 15:
            {
                if (op == 15 && t != dense && t != ellpack) return false;
                b = mate(a, {}); d = mate(a, { a, b }); if (d < 0) return false; Slot &B = pool[b], &C = pool[d]; Dn W = mul(s->W, B.W); Pat S = pmul(s->S, B.S);
                if (!room(t, S) || !exact(E2(absmul(s->W, B.W)) * 2, gran(s->W) + gran(B.W))) return false;
                nm = op == 14 ? "multiply_AB" : "multiply_adjust_AB"; if (op == 14) bml_multiply_AB(s->A, B.A, C.A, 0.0); else bml_multiply_adjust_AB(s->A, B.A, C.A, 0.0); C.W = W; C.S = S; dest = d; break;
            }
            case 16:
            {
                if (t == ellblock) return false; b = mate(a, {}); d = mate(a, { a, b }); if (d < 0) return false; Slot &B = pool[b], &C = pool[d]; Dn W(n); Pat S(s->S); for (size_t k = 0; k < W.a.size(); k++) { W.a[k] = s->W.a[k] * B.W.a[k]; }     // S stays that of A: diagonal zeros are kept
                if (!exact(E2(s->W) * E2(B.W) * 2, gran(s->W) + gran(B.W))) return false; nm = "element_multiply_AB"; bml_element_multiply_AB(s->A, B.A, C.A, 0.0); C.W = W; C.S = S; dest = d; break;
            }
            case 17: case 18: case 19:
            {
                Z f = c.src.coin() ? Z(sc()) : c.src.pick({ Z(0.5), Z(2), Z(-1), Z(3), Z(-0.5) }); if (is_complex(p) && c.src.coin()) f = Z(f.real(), c.src.pick({ 1.0, -0.5, 2.0 })); Dn W = s->W; for (auto &z : W.a) z *= f;
                if (!exact(E2(s->W) * std::abs(f) * 2, gran(s->W) + 1)) return false; Buf x(p, f);
                if (op == 17) { nm = "scale_inplace"; bml_scale_inplace(x.d, s->A); s->W = W; }
                else if (op == 18) { d = mate(a, { a }); if (d < 0) return false; nm = "scale"; bml_scale(x.d, s->A, pool[d].A); pool[d].W = W; pool[d].S = s->S; dest = d; }
                else { nm = "scale_new"; Mat R = bml_scale_new(x.d, s->A); Pat S = s->S; add_slot(R, t, W, S); dest = (int) pool.size() - 1; }
                break;
            }
            case 20: { Pat S = ptr(s->S); if (!room(t, S)) return false; nm = "transpose"; bml_transpose(s->A); s->W = tr(s->W); s->S = S; break; }
            case 21: { Pat S = ptr(s->S); if (!room(t, S)) return false; nm = "transpose_new"; Mat R = bml_transpose_new(s->A); Dn W = tr(s->W); add_slot(R, t, W, S); dest = (int) pool.size() - 1; break; }
            case 22:
            {
                bool adj = t == ellpack || (t == dense && c.src.coin()); if (t != dense && t != ellpack) return false; bool up = c.src.coin(); Dn W = s->W; Pat S = s->S;
                for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { Z &x = up ? W(i, j) : W(j, i), &y = up ? W(j, i) : W(i, j); y = adj ? std::conj(x) : x; char &sx = up ? S[(size_t) i * n + j] : S[(size_t) j * n + i], &sy = up ? S[(size_t) j * n + i] : S[(size_t) i * n + j]; sy |= sx; }
                if (!room(t, S)) return false; char q[2] = { up ? 'u' : 'l', 0 }; nm = adj ? "adjungate_triangle" : "transpose_triangle"; if (adj) bml_adjungate_triangle(s->A, q); else bml_transpose_triangle(s->A, q[0]); s->W = W; s->S = S; break;
            }
            case 23: case 24:
            {
                double th = c.src.pick({ 0.0, 0.5, 1.0, 2.0, 3.0 }); Dn W = s->W; for (auto &z : W.a) if (!(std::abs(z) > th)) z = 0;
                for (auto &z : s->W.a) if (is_complex(p) && z.imag() != 0 && z.real() != 0 && std::abs(std::abs(z) - th) < 1e-3) return false;     // no tie after rounding
                if (op == 23) { nm = "threshold"; bml_threshold(s->A, th); s->W = W; } else { nm = "threshold_new"; Mat R = bml_threshold_new(s->A, th); Pat S = s->S; add_slot(R, t, W, S); dest = (int) pool.size() - 1; }
                break;
            }
            case 25: { d = mate(a, { a }); if (d < 0) return false; nm = "copy"; bml_copy(s->A, pool[d].A); pool[d].W = s->W; pool[d].S = s->S; dest = d; break; }
            case 26: { nm = "copy_new"; Mat R = bml_copy_new(s->A); Dn W = s->W; Pat S = s->S; add_slot(R, t, W, S); dest = (int) pool.size() - 1; break; }
            case 27:
            {
                MType u = c.src.pick(types); Pat S = pat(s->W); if (!room(u, s->S)) return false; nm = "convert"; c.note(" ->%s", tname(u)); Mat R = bml_convert(s->A, u, p, M(u), sequential); Dn W = s->W; S = s->S; add_slot(R, u, W, S); dest = (int) pool.size() - 1; break;
            }
            case 28:
            {
                if (t != dense && t != ellpack) return false; std::vector<int> q(n); std::iota(q.begin(), q.end(), 0); for (int k = n; k > 1; k--) std::swap(q[k - 1], q[c.src.u(k)]);
                Dn W(n); Pat S(s->S); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { W(q[i], q[j]) = s->W(i, j); S[(size_t) q[i] * n + q[j]] = s->S[(size_t) i * n + j]; } nm = "reorder"; bml_reorder(s->A, q.data()); s->W = W; s->S = S; break;
            }
            case 29:
            {
                double e = 0; for (int i = 0; i < n; i++) e += s->W(i, i).real(); if (!exact(E2(s->W) * n, gran(s->W))) return false; double r = bml_trace(s->A); CHECK(c, r == e, "trace = %g, expected %g", r, e);
                if ((b = mate(a, {})) >= 0 && exact(E2(absmul(s->W, pool[b].W)) * 2 * n, gran(s->W) + gran(pool[b].W))) { Dn W = mul(s->W, pool[b].W); e = 0; for (int i = 0; i < n; i++) e += W(i, i).real(); r = bml_trace_mult(s->A, pool[b].A); CHECK(c, r == e, "trace_mult = %g, expected %g", r, e); }
                nm = "trace"; break;
            }
            case 30:
            {
                double e = 0; for (auto &z : s->W.a) e += std::norm(z); double r = bml_sum_squares(s->A); CHECK(c, std::abs(r - e) <= 1e-4 * e, "sum_squares = %g, expected %g", r, e); r = bml_fnorm(s->A); CHECK(c, std::abs(r - std::sqrt(e)) <= 1e-4 * std::sqrt(e), "fnorm = %g, expected %g", r, std::sqrt(e));
                nm = "norms"; break;
            }
            case 31:
            {
                if (!allow_io || !c.src.chance(1, 3) || gran(s->W) > 3 || maxabs(s->W) > 900) return false; nm = "write+read"; char path[64]; snprintf(path, sizeof path, "/tmp/bmlprog.%d.mtx", (int) getpid());
                bml_write_bml_matrix(s->A, path); Mat R = bml_zero_matrix(t, p, n, M(t), sequential); bml_read_bml_matrix(R, path); unlink(path); Dn W = s->W; Pat S = s->S; add_slot(R, t, W, S); dest = (int) pool.size() - 1; break;
            }
            case 32:
            {
                double lo = c.src.pick({ -1.0, 0.0, -2.0 }), hi = lo + c.src.pick({ 2.0, 1.0, 4.0 }); Dn W(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) W(i, j) = ((i == j ? hi : 0.0) - s->W(i, j)) / (hi - lo);
                Pat S = por(s->S, pdiag()); if (!room(t, S) || !exact(E2(s->W) + 8, gran(s->W) + 2)) return false; nm = "normalize"; bml_normalize(s->A, lo, hi); s->W = W; s->S = S; break;
            }
            case 33:
            {
                if (pool.size() < 2 || !c.src.chance(1, 3)) return false; nm = "deallocate"; bml_deallocate(&s->A); CHECK(c, s->A == NULL, "deallocate leaves the handle"); pool.erase(pool.begin() + a); dest = -1; break;
            }
            default: if (!widestep(op, a, nm)) return false; s = &pool[a]; break;
        }
        nops++; c.note(" %s(%d)", nm, a); if (!c.quiet) c.label(std::string("op:") + nm);
        for (int k = 0; k < (int) pool.size(); k++) verify(k, nm);
        return true;
    }
    // calls whose values other properties decide; here they only have to leave everything intact and give memory back
    bool widestep(int op, int a, const char *&nm)
    {
        Slot &s = pool[a]; MType t = s.t;
        switch (op)
        {
            case 34: { nm = "gershgorin"; void *r = bml_gershgorin(s.A); bml_free_memory(r); if (t != ellblock) { r = bml_gershgorin_partial(s.A, 1 + c.src.u(n)); bml_free_memory(r); } r = bml_accumulate_offdiag(s.A, 1); bml_free_memory(r); return true; }
            case 35: { if (mcap < n && t == ellpack) return false; nm = "diagonalize"; Mat H = bml_copy_new(s.A), T = bml_transpose_new(s.A); bml_add(H, T, 1, 1, 0.0); Mat V = bml_zero_matrix(t, p, n, n, sequential); Buf w(p, std::vector<Z>(n)); bml_diagonalize(H, w.d, V); bml_deallocate(&H); bml_deallocate(&T); bml_deallocate(&V); return true; }
            case 36: { if (mcap < n && t == ellpack) return false; nm = "inverse"; double x = 1 + maxabs(s.W) * n; Mat H = bml_copy_new(s.A); bml_add_identity(H, 2 * x, 0.0); Mat I = bml_inverse(H); bml_deallocate(&H); bml_deallocate(&I); return true; }
            case 37: { nm = "queries"; bml_get_sparsity(s.A, 0.5); if (t != ellblock) { bml_get_bandwidth(s.A); bml_get_row_bandwidth(s.A, c.src.u(n)); } void *r = bml_get_row(s.A, c.src.u(n)); bml_free_memory(r); r = bml_get_diagonal(s.A); bml_free_memory(r); int i = c.src.u(n), j = c.src.u(n); bml_get_element(s.A, i, j); bml_sum_squares2(s.A, s.A, 1, 2, 0.0); return true; }
            case 38:
            {
                if (t != ellpack) return false; nm = "core-halo"; std::vector<int> core; for (int i = 0; i < n; i++) if (c.src.chance(1, 3)) core.push_back(i); if (core.empty()) core.push_back(c.src.u(n)); std::vector<int> idx(n, 0); int vs[2] = { 0, 0 };
                bml_matrix2submatrix_index(s.A, s.A, core.data(), (int) core.size(), idx.data(), vs, c.src.u(2)); Mat B = bml_zero_matrix(dense, p, vs[0], vs[0], sequential); bml_matrix2submatrix(s.A, B, idx.data(), vs[0]); bml_submatrix2matrix(B, s.A, idx.data(), vs[0], (int) core.size(), 0.0); bml_deallocate(&B); return true;
            }
            case 39:
            {
                if (t != ellpack) return false; nm = "graph"; int k = 1 + c.src.u(n); std::vector<int> h(k); for (int i = 0; i < k; i++) h[i] = 1 + i * n / k; Mat G = bml_group_matrix(s.A, h.data(), k, 0.0); bml_deallocate(&G);
                std::vector<int> xadj(n + 1), adj((size_t) n * n + 1); bml_adjacency(s.A, xadj.data(), adj.data(), 0); bml_adjacency_group(s.A, h.data(), k, xadj.data(), adj.data(), 0); return true;
            }
            case 40:
            {
                nm = "extract+assign"; int i0, j0, k; if (t == ellblock) return false; k = 1 + c.src.u(n); i0 = c.src.u(n - k + 1); j0 = c.src.u(n - k + 1);
                Mat E = bml_extract_submatrix(s.A, i0, j0, k, k), Q = bml_zero_matrix(t, p, n, n, sequential); bml_assign_submatrix(Q, E, i0, j0); Dn R = rd(Q, p, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { bool in = i >= i0 && i < i0 + k && j >= j0 && j < j0 + k; CHECK(c, R(i, j) == (in ? s.W(i, j) : Z(0)), "assembled block: element (%d,%d)", i, j); }
                bml_deallocate(&E); bml_deallocate(&Q); return true;
            }
            case 42:
            {
                nm = "constructors"; int m = M(t); Mat X;
                switch (c.src.u(6)) { case 0: X = bml_noinit_matrix(t, p, n, m, sequential); break; case 1: X = bml_random_matrix(t, p, n, m, sequential); break; case 2: X = bml_banded_matrix(t, p, n, m, sequential); break;
                    case 3: X = bml_identity_matrix(t, p, n, m, sequential); break; case 4: { bml_matrix_dimension_t d = { n, n, m }; X = bml_noinit_rectangular_matrix(t, p, d, sequential); break; } default: X = bml_zero_matrix(t, p, n, m, sequential); }
                bml_clear(X); Dn R = rd(X, p, n); for (auto &z : R.a) CHECK(c, z == Z(0), "element of a cleared matrix is not zero"); bml_deallocate(&X); X = NULL; bml_deallocate(&X); bml_deallocate_domain(bml_default_domain(n, m, c.src.coin() ? sequential : distributed)); return true;
            }
            case 41: { if (t == ellblock || t == csr) return false; nm = "domain"; bml_save_domain(s.A); bml_restore_domain(s.A); return true; }
        }
        return false;
    }
    void finish()
    {
        for (auto &s : pool) { Cfg g = cfg(s.t); check_reads(c, s.A, g, s.W, "final state"); }
        while (!pool.empty()) { size_t k = c.src.u((uint32_t) pool.size()); bml_deallocate(&pool[k].A); pool.erase(pool.begin() + k); for (int q = 0; q < (int) pool.size(); q++) verify(q, "deallocation"); }
    }
};

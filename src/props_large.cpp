// C38: sparse matrices of an order whose square is no int, against a model d*I + few elements
#include "prog.hpp"
#include <map>
#include <set>
typedef std::map<std::pair<int,int>, Z> Sm;

struct Big { Mat A; Z d; Sm s; std::set<std::pair<int,int>> pat; bool diag; };      // value = d*I + s; pat: off the diagonal
struct Large
{
    Case &c; MType t; MPrec p; int n, m; std::vector<Big> pool; std::vector<int> hot; double eps;
    Z at(const Big &b, int i, int j) const { auto f = b.s.find({ i, j }); return (i == j ? b.d : Z(0)) + (f == b.s.end() ? Z(0) : f->second); }
    typedef std::set<std::pair<int,int>> Ps;
    std::pair<int,int> nrm(int i, int j) const { return t == ellblock ? std::make_pair(i / 4 * 4, j / 4 * 4) : std::make_pair(i, j); }      // ellblock: the block
    void ins(Ps &P, int i, int j) const { auto x = nrm(i, j); if (x.first != x.second) P.insert(x); }
    int coord() { return c.src.chance(3, 4) ? hot[c.src.u((uint32_t) hot.size())] : c.src.u(n); }
    Z val() { double re = c.src.range(1, 12) * (c.src.coin() ? -0.5 : 0.5), im = is_complex(p) && c.src.coin() ? c.src.range(1, 6) * 0.5 : 0; return Z(re, im); }
    bool fits(const std::set<std::pair<int,int>> &S) const
    {
        if (t == csr) return true;
        std::map<int, std::set<int>> row; int q = t == ellblock ? 4 : 1;
        for (auto &x : S) row[x.first / q].insert(x.second / q);
        int cap = t == ellblock ? std::max(4, (m + 3) / 4) : m;       // at least four blocks of four per block row
        for (auto &r : row) { r.second.insert(r.first); if ((int) r.second.size() > cap) return false; }
        return true;
    }
    static void put_in(Big &b) { for (auto it = b.s.begin(); it != b.s.end();) { if (it->second == Z(0)) it = b.s.erase(it); else ++it; } }
    double big(const Big &b) const { double r = std::abs(b.d); for (auto &x : b.s) r = std::max(r, std::abs(x.second) + std::abs(b.d)); return r; }
    void verify(int k, const char *what)
    {
        Big &b = pool[k]; CHECK(c, bml_get_N(b.A) == n && bml_get_type(b.A) == t, "after %s: N=%d type %s", what, bml_get_N(b.A), tname(bml_get_type(b.A)));
        std::set<std::pair<int,int>> P = b.pat; for (auto &x : b.s) P.insert(x.first); for (int i : hot) { P.insert({ i, i }); P.insert({ i, hot[0] }); P.insert({ hot[0], i }); }
        for (auto &x : P) { Z v = elem(b.A, p, x.first, x.second), w = at(b, x.first, x.second); CHECK(c, v == w, "after %s: element (%d,%d) of matrix %d = %s, expected %s", what, x.first, x.second, k, zs(v).c_str(), zs(w).c_str()); }
    }
    void rows(int k)
    {
        Big &b = pool[k];
        for (int q = 0; q < 3; q++)
        {
            int i = coord(); std::vector<Z> w(n, Z(0)); w[i] = b.d; for (auto it = b.s.lower_bound({ i, 0 }); it != b.s.end() && it->first.first == i; ++it) w[it->first.second] += it->second;
            void *r = bml_get_row(b.A, i); for (int j = 0; j < n; j++) { Z v = get(p, r, j); CHECK(c, v == w[j], "row %d: element %d = %s, expected %s", i, j, zs(v).c_str(), zs(w[j]).c_str()); } bml_free_memory(r);
        }
    }
    void near(double v, double e, double tol, const char *what) { CHECK(c, std::abs(v - e) <= tol, "%s = %.15g, expected %.15g +- %g", what, v, e, tol); }
    int mate(int a) { if (pool.size() < 2) return -1; int b = c.src.u((uint32_t) pool.size() - 1); return b < a ? b : b + 1; }
    void add(Mat A, Z d, const Sm &s, const std::set<std::pair<int,int>> &P, bool diag) { if (pool.size() >= 3) { int k = c.src.u(3); bml_deallocate(&pool[k].A); pool.erase(pool.begin() + k); } pool.push_back({ A, d, s, P, diag }); }
    void make()
    {
        Mat A; Z d = 0; bool dg = c.src.coin();
        if (dg) { A = bml_identity_matrix(t, p, n, m, sequential); d = 1; } else A = bml_zero_matrix(t, p, n, m, sequential);
        Big b{ A, d, {}, {}, dg }; int k = c.src.range(0, 14);
        while (k--) { int i = coord(), j = c.src.chance(1, 3) ? i : coord(); auto P = b.pat; ins(P, i, j); if (!fits(P)) continue; Z v = val(); set_elem(c, A, p, i, j, v, false); b.s[{ i, j }] = v - (i == j ? d : Z(0)); b.pat = P; }
        put_in(b); c.note(" new(%s, %zu)", dg ? "I" : "0", b.s.size()); add(b.A, b.d, b.s, b.pat, b.diag);
        verify((int) pool.size() - 1, "construction");
    }
    bool step()
    {
        int op = c.src.u(28); if (pool.empty() || op == 0) { make(); return true; }
        int a = c.src.u((uint32_t) pool.size()), b, dest = a; Big *s = &pool[a]; const char *nm = "?";
        auto lim = [&](double x) { return x * 64 < std::ldexp(1.0, is_double(p) ? 40 : 20); };
        switch (op)
        {
            case 1: { int i = coord(), j = coord(); auto P = s->pat; ins(P, i, j); if (!fits(P)) return false; Z v = val(); nm = "set_element"; set_elem(c, s->A, p, i, j, v, false); s->s[{ i, j }] = v - (i == j ? s->d : Z(0)); s->pat = P; break; }
            case 2: case 3: { if ((b = mate(a)) < 0) return false; auto P = s->pat; P.insert(pool[b].pat.begin(), pool[b].pat.end()); double al = c.src.pick({ 1.0, -1.0, 0.5 }), be = c.src.pick({ 1.0, -0.5, 2.0 }); if (!fits(P) || !lim(2 * big(*s) + 2 * big(pool[b]))) return false;
                nm = "add"; if (op == 3 && t != csr) { double ex = n * std::norm(s->d - pool[b].d); std::set<std::pair<int,int>> K; for (auto &x : s->s) K.insert(x.first); for (auto &x : pool[b].s) K.insert(x.first); for (auto &k : K) ex += std::norm(at(*s, k.first, k.second) - at(pool[b], k.first, k.second)) - (k.first == k.second ? std::norm(s->d - pool[b].d) : 0); near(bml_add_norm(s->A, pool[b].A, al, be, 0.0), ex, ex * n * eps + 1e-6, "add_norm"); }
                else bml_add(s->A, pool[b].A, al, be, 0.0);
                for (auto &x : s->s) x.second *= al; for (auto &x : pool[b].s) s->s[x.first] += be * x.second; s->d = al * s->d + be * pool[b].d; s->pat = P; s->diag |= pool[b].diag; break; }
            case 4: { double be = c.src.pick({ 1.0, -0.5, 2.0 }); if (!lim(2 * big(*s) + 2)) return false; nm = "add_identity"; bml_add_identity(s->A, be, 0.0); s->d += be; s->diag = true; break; }
            case 5: { Z f = c.src.pick({ Z(2), Z(-0.5), Z(-1) }); if (!lim(2 * big(*s))) return false; nm = "scale"; Buf x(p, f); bml_scale_inplace(x.d, s->A); s->d *= f; for (auto &x2 : s->s) x2.second *= f; break; }
            case 6: case 7: { std::set<std::pair<int,int>> P; Sm S; for (auto &x : s->pat) ins(P, x.second, x.first); for (auto &x : s->s) S[{ x.first.second, x.first.first }] = x.second; if (!fits(P)) return false;
                if (op == 6) { nm = "transpose"; bml_transpose(s->A); s->s = S; s->pat = P; } else { nm = "transpose_new"; Mat R = bml_transpose_new(s->A); Z d = s->d; bool dg = s->diag; add(R, d, S, P, dg); dest = (int) pool.size() - 1; } break; }
            case 8: { double th = c.src.pick({ 0.25, 1.0, 2.2 }); Z d2 = std::abs(s->d) > th ? s->d : Z(0); for (auto &x : s->s) if (std::abs(std::abs(at(*s, x.first.first, x.first.second)) - th) < 1e-3) return false; if (std::abs(std::abs(s->d) - th) < 1e-3) return false;
                nm = "threshold"; bml_threshold(s->A, th); Sm S; for (auto &x : s->s) { Z v = at(*s, x.first.first, x.first.second); if (!(std::abs(v) > th)) v = 0; S[x.first] = v - (x.first.first == x.first.second ? d2 : Z(0)); }
                s->s = S; s->d = d2; break; }
            case 9: { nm = "copy_new"; Mat R = bml_copy_new(s->A); Big k = *s; add(R, k.d, k.s, k.pat, k.diag); dest = (int) pool.size() - 1; break; }
            case 10: { if ((b = mate(a)) < 0) return false; nm = "copy"; bml_copy(s->A, pool[b].A); Mat R = pool[b].A; pool[b] = *s; pool[b].A = R; dest = b; break; }
            case 11: case 12: { b = c.src.u((uint32_t) pool.size()); bool x2 = op == 12; if (x2) b = a; Big r{ NULL, s->d * pool[b].d, {}, {}, s->diag || pool[b].diag }; Big &B = pool[b];
                for (auto &x : s->pat) { if (B.diag || B.d != Z(0)) r.pat.insert(x); } for (auto &x : B.pat) if (s->diag || s->d != Z(0)) r.pat.insert(x);
                Ps pa = s->pat, pb = B.pat; for (auto &x : s->s) pa.insert(nrm(x.first.first, x.first.second)); for (auto &x : B.s) pb.insert(nrm(x.first.first, x.first.second)); for (auto &x : pa) for (auto &y : pb) if (x.second == y.first) ins(r.pat, x.first, y.second);
                if (!fits(r.pat) || !lim(big(*s) * big(B) * 30)) return false;
                for (auto &x : s->s) r.s[x.first] += x.second * B.d; for (auto &x : B.s) r.s[x.first] += s->d * x.second; for (auto &x : s->s) for (auto &y : B.s) if (x.first.second == y.first.first) r.s[{ x.first.first, y.first.second }] += x.second * y.second;
                r.A = bml_zero_matrix(t, p, n, m, sequential);
                if (x2) { nm = "multiply_x2"; double *tr = (double *) bml_multiply_x2(s->A, r.A, 0.0); double e1 = n * s->d.real(), e2 = n * r.d.real(), b1 = n * std::abs(s->d), b2 = n * std::abs(r.d); for (auto &x : s->s) if (x.first.first == x.first.second) { e1 += x.second.real(); b1 += std::abs(x.second); } for (auto &x : r.s) if (x.first.first == x.first.second) { e2 += x.second.real(); b2 += std::abs(x.second); } near(tr[0], e1, b1 * n * eps, "first trace"); near(tr[1], e2, b2 * n * eps, "second trace"); bml_free_memory(tr); }
                else { nm = "multiply"; bml_multiply(s->A, B.A, r.A, 1.0, 0.0, 0.0); }
                put_in(r); add(r.A, r.d, r.s, r.pat, true); dest = (int) pool.size() - 1; break; }
            case 13: { nm = "trace and norms"; double e = n * s->d.real(), ab = n * std::abs(s->d), q = n * std::norm(s->d); for (auto &x : s->s) { bool dg = x.first.first == x.first.second; if (dg) { e += x.second.real(); ab += std::abs(x.second); } q += std::norm(x.second + (dg ? s->d : Z(0))) - (dg ? std::norm(s->d) : 0); }
                near(bml_trace(s->A), e, ab * n * eps + 1e-9, "trace"); near(bml_sum_squares(s->A), q, q * n * eps + 1e-9, "sum_squares"); near(bml_fnorm(s->A), std::sqrt(q), std::sqrt(q) * n * eps + 1e-9, "fnorm"); break; }
            case 14: { double th = c.src.pick({ 0.0, 0.25, 1.25 }); long k = 0; for (auto &x : s->s) { Z v = at(*s, x.first.first, x.first.second); if (v != Z(0) && std::abs(std::abs(v) - th) < 1e-3) return false; k += std::abs(v) > th; if (x.first.first == x.first.second) k -= std::abs(s->d) > th; } if (std::abs(s->d) > th) k += n;
                nm = "sparsity"; near(bml_get_sparsity(s->A, th), 1.0 - (double) k / n / n, 1e-12, "sparsity"); break; }
            case 15: { int i = coord(); std::vector<Z> r(n, Z(0)); auto P = s->pat; auto S = s->s; for (auto it = P.begin(); it != P.end();) it = it->first == i ? P.erase(it) : std::next(it); for (auto it = S.begin(); it != S.end();) it = it->first.first == i ? S.erase(it) : std::next(it);
                int k = c.src.range(0, 3); while (k--) { int j = coord(); r[j] = val(); S[{ i, j }] = r[j]; ins(P, i, j); } if (s->d != Z(0)) S[{ i, i }] = r[i] - s->d; auto Q = P; Q.insert(s->pat.begin(), s->pat.end()); if (!fits(t == ellpack ? P : Q)) return false;
                nm = "set_row"; Buf x(p, r); bml_set_row(s->A, i, x.d, 0.0); s->s = S; s->pat = t == ellpack ? P : Q; break; }
            case 16: { std::vector<Z> r(n, Z(1.5)); Sm S = s->s; for (auto it = S.begin(); it != S.end();) it = it->first.first == it->first.second ? S.erase(it) : std::next(it); int k = c.src.range(0, 3); while (k--) { int i = coord(); r[i] = val(); S[{ i, i }] = r[i] - Z(1.5); }
                nm = "set_diagonal"; Buf x(p, r); bml_set_diagonal(s->A, x.d, 0.0); s->s = S; s->d = 1.5; s->diag = true; void *g = bml_get_diagonal(s->A); for (int i = 0; i < n; i++) CHECK(c, get(p, g, i) == r[i], "diagonal element %d = %s, expected %s", i, zs(get(p, g, i)).c_str(), zs(r[i]).c_str()); bml_free_memory(g); break; }
            case 17: { nm = "gershgorin"; bool any = false; for (auto &x : s->s) any |= x.first.first == x.first.second && x.second.imag() != 0; if (any || s->d.imag() != 0) return false; std::map<int, double> rad; std::map<int, double> ce; double lo = s->d.real(), hi = lo; for (auto &x : s->s) { if (x.first.first == x.first.second) ce[x.first.first] = x.second.real(); else rad[x.first.first] += std::abs(x.second); } for (auto &x : ce) rad[x.first] += 0;
                for (auto &x : rad) { double ctr = s->d.real() + (ce.count(x.first) ? ce[x.first] : 0); lo = std::min(lo, ctr - x.second); hi = std::max(hi, ctr + x.second); }
                if (rad.size() == (size_t) n) return false; double *e = (double *) bml_gershgorin(s->A); double sc = std::abs(lo) + std::abs(hi) + 1; near(e[0], lo, 1e-4 * sc, "lower bound"); near(e[1], hi, 1e-4 * sc, "upper bound"); bml_free_memory(e); break; }
            case 18: { nm = "rows"; rows(a); break; }
            case 19: { if (t == ellblock) return false; nm = "bandwidth"; int lo = 0, hi = 1; for (int i : hot) { int l = 0, h = 1; for (auto it = s->pat.lower_bound({ i, 0 }); it != s->pat.end() && it->first == i; ++it) { h++; l += at(*s, i, it->second) != Z(0); } l += at(*s, i, i) != Z(0); int w = bml_get_row_bandwidth(s->A, i); CHECK(c, w >= l && w <= h, "row bandwidth of row %d is %d, expected %d to %d", i, w, l, h); lo = std::max(lo, l); }
                std::map<int, int> h; for (auto &x : s->pat) hi = std::max(hi, 1 + ++h[x.first]); int w = bml_get_bandwidth(s->A); CHECK(c, w >= lo && w <= hi, "bandwidth %d, expected %d to %d", w, lo, hi); break; }
            case 20: { if (t == ellblock) return false; b = c.src.u((uint32_t) pool.size()); Big &B = pool[b]; if (!lim(big(*s) * big(B) * 2)) return false; nm = "element_multiply_AB"; Big r{ bml_zero_matrix(t, p, n, m, sequential), s->d * B.d, {}, s->pat, true }; Ps K; for (auto &x : s->s) K.insert(x.first); for (auto &x : B.s) K.insert(x.first);
                for (auto &k : K) r.s[k] = at(*s, k.first, k.second) * at(B, k.first, k.second) - (k.first == k.second ? r.d : Z(0)); bml_element_multiply_AB(s->A, B.A, r.A, 0.0); put_in(r); add(r.A, r.d, r.s, r.pat, true); dest = (int) pool.size() - 1; break; }
            case 21: { b = c.src.u((uint32_t) pool.size()); Big &B = pool[b]; nm = "trace_mult"; Z e = (double) n * s->d * B.d; double ab = std::abs(e); Ps K; for (auto &x : s->s) K.insert(x.first); for (auto &x : B.s) K.insert({ x.first.second, x.first.first }); for (auto &k : K) { Z x = at(*s, k.first, k.second) * at(B, k.second, k.first); ab += std::abs(x); e += x - (k.first == k.second ? s->d * B.d : Z(0)); } near(bml_trace_mult(s->A, B.A), e.real(), ab * n * eps + 1e-9, "trace_mult"); break; }
            case 22: { if (t == csr || (b = mate(a)) < 0) return false; Big &B = pool[b]; nm = "fnorm2"; double ex = n * std::norm(s->d - B.d), q = ex; Ps K; for (auto &x : s->s) K.insert(x.first); for (auto &x : B.s) K.insert(x.first); for (auto &k : K) { double y = std::norm(at(*s, k.first, k.second) - at(B, k.first, k.second)); q += y; ex += y - (k.first == k.second ? std::norm(s->d - B.d) : 0); } near(bml_fnorm2(s->A, B.A), std::sqrt(std::max(0.0, ex)), std::sqrt(q) * n * eps + 1e-6, "fnorm2"); break; }
            case 23: { double lo = c.src.pick({ -1.0, 0.0, -2.0 }); if (!lim(2 * big(*s) + 4)) return false; nm = "normalize"; bml_normalize(s->A, lo, lo + 2); for (auto &x : s->s) x.second *= -0.5; s->d = (lo + 2 - s->d) * 0.5; s->diag = true; break; }
            case 24: { if (t != ellpack) return false; nm = "reorder"; std::vector<int> q(n); for (int i = 0; i < n; i++) q[i] = i; int k = c.src.range(1, 6); while (k--) std::swap(q[coord()], q[coord()]); bml_reorder(s->A, q.data()); Sm S; Ps P; for (auto &x : s->s) S[{ q[x.first.first], q[x.first.second] }] = x.second; for (auto &x : s->pat) P.insert({ q[x.first], q[x.second] }); s->s = S; s->pat = P; break; }
            case 25: { if (s->d != Z(0) && (t == ellblock || !c.src.chance(1, 6))) return false; nm = "write+read"; char path[64]; snprintf(path, sizeof path, "/tmp/bmllarge.%d.mtx", (int) getpid()); bml_write_bml_matrix(s->A, path); Mat R = bml_zero_matrix(t, p, n, m, sequential); bml_read_bml_matrix(R, path); unlink(path); Big k = *s; if (big(k) > 900) { bml_deallocate(&R); return false; } add(R, k.d, k.s, k.pat, k.diag); dest = (int) pool.size() - 1; break; }
            case 26: { if (t != ellpack) return false; nm = "core-halo"; Ps K; int nc = c.src.range(1, 4); std::set<int> cs; while (nc--) cs.insert(coord()); std::vector<int> core(cs.begin(), cs.end()), idx(n, 0); int vs[2] = { 0, 0 }; bml_matrix2submatrix_index(s->A, s->A, core.data(), (int) core.size(), idx.data(), vs, 0); int k = vs[0]; CHECK(c, k >= (int) core.size() && k <= 400, "core-halo of %zu nodes has %d", core.size(), k);
                std::set<int> seen(idx.begin(), idx.begin() + k); CHECK(c, (int) seen.size() == k, "an index appears twice"); for (size_t q = 0; q < core.size(); q++) CHECK(c, idx[q] == core[q], "index %zu is %d, core node is %d", q, idx[q], core[q]); for (auto &x : s->s) if (cs.count(x.first.first) && at(*s, x.first.first, x.first.second) != Z(0)) CHECK(c, seen.count(x.first.second), "neighbour %d of core node %d is missing", x.first.second, x.first.first);
                Mat B = bml_zero_matrix(dense, p, k, k, sequential); bml_matrix2submatrix(s->A, B, idx.data(), k); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { Z v = elem(B, p, i, j), w = at(*s, idx[i], idx[j]); CHECK(c, v == w, "submatrix (%d,%d) of rows %d,%d = %s, expected %s", i, j, idx[i], idx[j], zs(v).c_str(), zs(w).c_str()); } bml_deallocate(&B); break; }
            case 27: { if (t == ellblock) return false; int cn = c.src.coin() ? coord() : n; nm = "sum_squares_submatrix"; double e = cn * std::norm(s->d), q = e; for (auto &x : s->s) if (x.first.first < cn && x.first.second < cn) { double y = std::norm(at(*s, x.first.first, x.first.second)); q += y; e += y - (x.first.first == x.first.second ? std::norm(s->d) : 0); } near(bml_sum_squares_submatrix(s->A, cn), e, q * n * eps + 1e-9, "sum_squares_submatrix"); break; }
        }
        s = &pool[a < (int) pool.size() ? a : 0]; c.note(" %s(%d)", nm, a); c.label(std::string("op:") + nm); put_in(pool[dest]); verify(dest, nm); if (c.src.coin()) verify(c.src.u((uint32_t) pool.size()), nm);
        return true;
    }
};
PROP(C38, program, 1)
{
    MType t = pick_type(c, { ellpack, csr, ellblock }); MPrec p = gen_prec(c); int n = c.src.chance(1, 3) ? c.src.range(65530, 92700) : c.src.range(46341, 50000), m = t == csr ? c.src.range(1, 12) : c.src.range(6, 20);
    c.note("%s %s N=%d M=%d:", tname(t), pname(p), n, m); c.label(std::string("type:") + tname(t)); c.label(std::string("prec:") + pname(p));
    Large L{ c, t, p, n, m, {}, {}, std::ldexp(1.0, is_double(p) ? -52 : -23) };
    L.hot = { 0, 1, n - 1, n - 2, n / 2, 46340, 32768, 65535 }; for (int &x : L.hot) if (x >= n) x = n - 3; for (int k = 0; k < 3; k++) L.hot.push_back(c.src.u(n));
    int nops = 0; L.make(); for (int k = 0; nops < 8 && k < 30; k++) nops += L.step();
    for (int k = 0; k < (int) L.pool.size(); k++) { L.verify(k, "the program"); L.rows(k); } for (auto &b : L.pool) bml_deallocate(&b.A);
    if (nops >= 4) c.nontrivial();
}

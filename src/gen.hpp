// Generators and shared test operations.
#pragma once
#include "case.hpp"

struct Cfg
{
    MType t; MPrec p; int n; int m;
    std::vector<int> bs;          // ellblock block sizes (empty: library default)
    bool cz() const { return is_complex(p); }
    double eps() const { return eps_of(p); }
};

inline MPrec gen_prec(Case &c) { return c.src.pick({ double_real, single_real, double_complex, single_complex }); }

// matrix order: mostly small, sometimes larger than any internal block or
// initial capacity
inline int gen_n(Case &c, int maxn = 0)
{
    int k = c.src.u(1000), n;
    if (k < 500) n = c.src.range(1, 8);
    else if (k < 900) n = c.src.range(1, 17);
    else if (k < 990 || maxn) n = c.src.range(10, c.thorough ? 60 : 36);
    else { n = c.src.range(40, c.thorough ? 200 : 140); c.label("N:large"); }
    return maxn && n > maxn ? 1 + n % maxn : n;
}

inline MType pick_type(Case &c, const std::vector<MType> &types)
{
#ifdef RUN_POOL
    if (std::find(types.begin(), types.end(), ellblock) == types.end()) c.skip();
    return ellblock;
#elif defined(RUN_ALT)
    if (std::find(types.begin(), types.end(), dense) != types.end() && c.src.coin()) return dense;
#endif
    return c.src.pick(types);
}
inline void setup_blocks(Case &c, Cfg &g);
// ellblock capacity: with `defer`, the number of blocks a block row may hold is
// chosen by the first gen_m, after the contents it must hold are known
struct BlockCtl { bool pending = false, tight = false; std::vector<int> bs; int need = 1, m = 0; };
inline BlockCtl bctl;
inline void note_blocks(const Dn &A)
{
    if (!bctl.pending) return;
    std::vector<int> of; for (size_t b = 0; b < bctl.bs.size(); b++) of.insert(of.end(), bctl.bs[b], (int) b);
    if ((int) of.size() != A.n) return;
    int NB = (int) bctl.bs.size(); std::vector<char> on((size_t) NB * NB, 0);
    for (int i = 0; i < A.n; i++) for (int j = 0; j < A.n; j++) if (A(i, j) != Z(0)) on[(size_t) of[i] * NB + of[j]] = 1;
    for (int b = 0; b < NB; b++) { int k = 0; for (int q = 0; q < NB; q++) k += on[(size_t) b * NB + q]; bctl.need = std::max(bctl.need, k); }
}

// contents of large matrices come from one drawn seed, so that the choice sequence stays short
struct Sub
{
    Case &c; bool on; Src saved;
    Sub(Case &c_, int n) : c(c_), on(n > 36 && !c_.insub), saved(c_.src) { if (on) { uint32_t s = c.src.u(1u << 30); saved = c.src; ChoiceSink k = { 0, 0, nullptr }; c.src = Src((uint64_t) s * 2654435761u + 12345, k); c.insub = true; } }
    ~Sub() { if (on) { c.src = saved; c.insub = false; } }
};

inline Cfg gen_cfg(Case &c, const std::vector<MType> &types, int maxn = 0, bool defer = false)
{
    bctl = BlockCtl(); bctl.pending = defer;
    Cfg g; g.t = pick_type(c, types); g.p = gen_prec(c); g.n = gen_n(c, maxn); g.m = g.n;
    setup_blocks(c, g);
    c.label(std::string("type:") + tname(g.t));
    c.label(std::string("prec:") + pname(g.p));
    c.note("%s %s N=%d", tname(g.t), pname(g.p), g.n);
    if (!g.bs.empty()) { c.note(" blocks="); for (int b : g.bs) c.note("%d,", b); }
    return g;
}

inline std::vector<Mat> &elders() { static auto *v = new std::vector<Mat>; return *v; }    // kept alive to the end of the case
// ellblock's block sizes are a process-wide setting (each case is a process)
inline void setup_blocks(Case &c, Cfg &g)
{
    if (g.t != ellblock) { bctl.pending = false; return; }
    if (c.src.chance(1, 5))
    {   // a matrix of another order was there first
        int n = c.src.range(1, 14); if (n == g.n) n = n == 1 ? 2 : n - 1;
        Mat X = bml_identity_matrix(ellblock, g.p, n, c.src.range(1, n), sequential); c.note("[N=%d before] ", n); c.label("another N before"); if (c.src.coin()) bml_deallocate(&X); else elders().push_back(X);
    }
    int k = c.src.u(3);
    if (bctl.pending) { max_row_hook = note_blocks; if (k == 0) { for (int left = g.n; left > 0; left -= 4) bctl.bs.push_back(std::min(4, left)); } }
    if (k == 0) return;             // library default: blocks of 4 and a remainder
    int left = g.n;
    if (k == 1) { int b = c.src.range(1, 6); if (b == 6 && c.src.coin()) b = c.src.range(6, 24); while (left > 0) { int x = std::min(b, left); g.bs.push_back(x); left -= x; } c.label("blocks:uniform"); }
    else { while (left > 0) { int x = c.src.range(1, 6); if (x == 6 && c.src.chance(1, 4)) x = c.src.range(6, 12); x = std::min(left, x); g.bs.push_back(x); left -= x; } c.label("blocks:mixed"); }
    if (bctl.pending) bctl.bs = g.bs; else bml_set_block_sizes(g.bs.data(), (int) g.bs.size(), (int) g.bs.size());
}

// block of an ellblock row/column index
inline int blk_lo(const Cfg &g, int i) { if (g.bs.empty()) return i / 4 * 4; int a = 0; for (int b : g.bs) { if (i < a + b) return a; a += b; } return a; }
inline int blk_hi(const Cfg &g, int i) { if (g.bs.empty()) return std::min(g.n, i / 4 * 4 + 4); int a = 0; for (int b : g.bs) { a += b; if (i < a) return a; } return a; }

// value families.  0: small dyadic numbers (exact arithmetic in float, ties are
// exact); 1: uniform reals; 2: magnitudes spread over decades; 3: over all decades (for
// operations that only move elements; asked for by MOVED)
inline Z gen_value(Case &c, MPrec p, int mode)
{
    auto one = [&]() -> double {
        switch (mode)
        {
            case 0: { int k = c.src.range(0, 32); int s = c.src.u(2); double v = (k < 31 ? k + 1 : 64) / 8.0; return s ? -v : v; }
            case 1: { double v = c.src.unit() + 1e-3; return c.src.coin() ? -v : v; }
            case 3: { double v = (1 + c.src.unit()) * std::pow(10.0, c.src.range(-30, 18)); return c.src.coin() ? -v : v; }
            default: { double v = (1 + c.src.unit()) * std::pow(10.0, c.src.range(-7, 5)); return c.src.coin() ? -v : v; }
        }
    };
    double re = one(), im = 0;
    if (is_complex(p)) { int k = c.src.u(4); if (k) { im = one(); if (k == 3) re = 0; } }
    return rnd(p, Z(re, im));
}

// sparsity patterns
inline std::vector<char> gen_pattern(Case &c, int n, int *kind_out = nullptr)
{
    Sub big(c, n);
    std::vector<char> m((size_t) n * n, 0);
    auto at = [&](int i, int j) -> char & { return m[(size_t) i * n + j]; };
    int kind = c.src.u(10);
    if (kind_out) *kind_out = kind;
    switch (kind)
    {
        case 0: break;                                                   // empty
        case 1: for (int i = 0; i < n; i++) at(i, i) = 1; break;         // diagonal
        case 2: { int b = c.src.range(0, 3); for (int i = 0; i < n; i++) for (int j = std::max(0, i - b); j <= std::min(n - 1, i + b); j++) at(i, j) = 1; break; }
        case 3: case 4: case 5: { int d = c.src.range(1, 9); for (auto &x : m) x = c.src.chance(d, 10); break; }
        case 6: for (auto &x : m) x = 1; break;                          // full
        case 7: { int r = c.src.u(n), q = c.src.u(n); for (int j = 0; j < n; j++) { at(r, j) = 1; at(j, q) = c.src.chance(2, 3); } break; }   // arrow
        case 8: { int k = c.src.range(1, 2 * n); while (k--) { int i = c.src.u(n), j = c.src.u(n); at(i, j) = 1; } break; }      // few entries
        case 9: { int b = c.src.range(2, 5); std::vector<char> on(n * n, 0); for (int i = 0; i < n; i += b) for (int j = 0; j < n; j += b) { bool f = c.src.chance(1, 2); for (int a = i; a < std::min(n, i + b); a++) for (int e = j; e < std::min(n, j + b); e++) at(a, e) = f; } break; }
    }
    return m;
}

enum { MOVED = -2 };
inline Dn gen_matrix(Case &c, int n, MPrec p, int vmode = -1)
{
    Sub big(c, n);
    auto pat = gen_pattern(c, n);
    if (vmode == MOVED) { vmode = c.src.u(4); if (vmode == 3) c.label("all decades"); }
    if (vmode < 0) vmode = c.src.u(3);
    Dn A(n);
    for (size_t k = 0; k < A.a.size(); k++) if (pat[k]) A.a[k] = gen_value(c, p, vmode);
    return A;
}
// derive a second operand whose pattern stands in a chosen relation to the first
inline Dn gen_related(Case &c, const Dn &A, MPrec p, int vmode = -1)
{
    int n = A.n; Sub big(c, n); int rel = c.src.u(6);
    if (vmode < 0) vmode = c.src.u(3);
    Dn B(n);
    switch (rel)
    {
        case 0: case 1: B = gen_matrix(c, n, p, vmode); c.label("rel:indep"); break;
        case 2: for (size_t k = 0; k < A.a.size(); k++) if (A.a[k] != Z(0)) B.a[k] = gen_value(c, p, vmode); c.label("rel:same"); break;
        case 3: for (size_t k = 0; k < A.a.size(); k++) if (A.a[k] == Z(0)) B.a[k] = gen_value(c, p, vmode); c.label("rel:complement"); break;
        case 4: for (size_t k = 0; k < A.a.size(); k++) B.a[k] = c.src.coin() ? A.a[k] : -A.a[k]; c.label("rel:cancel"); break;
        case 5: for (size_t k = 0; k < A.a.size(); k++) if (A.a[k] != Z(0) ? c.src.coin() : c.src.chance(1, 8)) B.a[k] = gen_value(c, p, vmode); c.label("rel:subset"); break;
    }
    return B;
}

inline double gen_scalar(Case &c, MPrec p)
{
    int k = c.src.u(6); double v;
    switch (k) { case 0: v = 1; break; case 1: v = 0; break; case 2: v = -1; break; case 3: v = c.src.range(-16, 16) / 4.0; break; case 4: v = 2 * c.src.unit() - 1; break; default: v = (c.src.coin() ? -1 : 1) * std::pow(10.0, c.src.range(-4, 4)); }
    return is_double(p) ? v : (float) v;
}

// threshold: 0, a magnitude present in the data (a tie), a mid value, tiny, huge
inline double gen_threshold(Case &c, MPrec p, const std::vector<const Dn *> &data)
{
    int k = c.src.u(6);
    if (k <= 1) return 0;
    double v = 0;
    if (k == 2 || k == 3)
    {
        std::vector<double> mags;
        for (auto *d : data) for (auto &z : d->a) if (z != Z(0)) mags.push_back(std::abs(z));
        if (mags.empty()) return 0.25;
        v = mags[c.src.u((uint32_t) mags.size())];
        if (k == 3) v *= c.src.pick({ 1.5, 0.75 });
    }
    else if (k == 4) v = c.src.pick({ 1e-10, 1e-5, 0.125, 0.5, 1.0, 2.0 });
    else v = c.src.pick({ 1e3, 1e-14, 5.0 });
    return is_double(p) ? v : (float) v;
}

// ellblock multiplies whole blocks
inline void note_block_product(const Dn &A, const Dn &B, const Dn *C = nullptr)
{
    if (!bctl.pending) return;
    std::vector<int> of; for (size_t b = 0; b < bctl.bs.size(); b++) of.insert(of.end(), bctl.bs[b], (int) b);
    if ((int) of.size() != A.n) return;
    int NB = (int) bctl.bs.size(); auto pat = [&](const Dn &X) { std::vector<char> on((size_t) NB * NB, 0); for (int i = 0; i < X.n; i++) for (int j = 0; j < X.n; j++) if (X(i, j) != Z(0)) on[(size_t) of[i] * NB + of[j]] = 1; return on; };
    auto a = pat(A), b = pat(B); std::vector<char> r = C ? pat(*C) : std::vector<char>((size_t) NB * NB, 0);
    for (int i = 0; i < NB; i++) { r[(size_t) i * NB + i] = 1; for (int k = 0; k < NB; k++) if (a[(size_t) i * NB + k]) for (int j = 0; j < NB; j++) if (b[(size_t) k * NB + j]) r[(size_t) i * NB + j] = 1; }
    for (int i = 0; i < NB; i++) { int k = 0; for (int j = 0; j < NB; j++) k += r[(size_t) i * NB + j]; bctl.need = std::max(bctl.need, k); }
}
// row capacity for a sparse matrix that must hold `need` entries per row
inline int gen_m(Case &c, const Cfg &g, int need)
{
    if (g.t == ellblock && bctl.pending)
    {
        bctl.pending = false; int NB = (int) bctl.bs.size(), k = bctl.need; bctl.m = g.n; int mb = NB;
        if (c.src.coin()) { mb = c.src.coin() ? k : c.src.range(k, NB); bctl.m = g.bs.empty() ? c.src.range(std::min(g.n, 4 * k), g.n) : c.src.range(1, g.n); bctl.tight = true; c.label(mb < NB ? "MB<NB" : "MB=NB"); }
        if (!g.bs.empty()) bml_set_block_sizes(bctl.bs.data(), NB, mb);
        return bctl.m;
    }
    if (g.t == ellblock && bctl.tight) return bctl.m;
    if (g.t == dense || g.t == ellblock) return g.n;
    need = std::max(need, 1);
    if (g.t == csr && c.src.coin()) { c.label("M:csr any"); return c.src.range(1, g.n); }    // csr rows grow
    if (need >= g.n || c.src.coin()) return g.n;
    int m = c.src.coin() ? need : c.src.range(need, g.n);
    if (m < g.n) c.label(m == need ? "M:tight" : "M:partial");
    return m;
}

// capacity of another operand of the same operation: usually the same, sometimes its own
inline int other_m(Case &c, const Cfg &g, int m, int need)
{
    if ((g.t != ellpack && g.t != csr) || !c.src.chance(1, 3)) return m;
    int r = g.t == csr ? c.src.range(1, g.n) : c.src.range(std::min(g.n, std::max(1, need)), g.n);
    if (r != m) { c.label("M differs"); c.note(" M'=%d", r); }
    return r;
}

// ---- building and reading matrices through the public interface ----
inline void set_elem(Case &c, Mat A, MPrec p, int i, int j, Z v, bool fresh)
{
    Buf b(p, v);
    if (fresh) bml_set_element_new(A, i, j, b.d); else bml_set_element(A, i, j, b.d);
}

inline Mat build(Case &c, const Cfg &g, const Dn &D, int m = 0)
{
    int n = D.n; if (!m) m = g.n;
    Sub big(c, n); int route = c.src.u(6);
    Mat A = NULL;
    switch (route)
    {
        case 0: case 1:
        {
            Buf b(g.p, (size_t) n * n);
            bool rm = route == 0;
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) put(g.p, b.d, rm ? (size_t) i * n + j : (size_t) j * n + i, D(i, j));
            A = bml_import_from_dense(g.t, g.p, rm ? dense_row_major : dense_column_major, n, m, b.d, 0.0, sequential);
            break;
        }
        case 2:
            A = bml_zero_matrix(g.t, g.p, n, m, sequential);
            for (int i = 0; i < n; i++) { Buf r(g.p, std::vector<Z>(D.a.begin() + (size_t) i * n, D.a.begin() + (size_t) (i + 1) * n)); bml_set_row(A, i, r.d, 0.0); }
            break;
        default:
        {   // element by element, possibly in scrambled order
            A = bml_zero_matrix(g.t, g.p, n, m, sequential);
            std::vector<int> idx; for (int k = 0; k < n * n; k++) if (D.a[k] != Z(0)) idx.push_back(k);
            int order = c.src.u(3);
            if (order == 1) std::reverse(idx.begin(), idx.end());
            if (order == 2) for (size_t k = idx.size(); k > 1; k--) std::swap(idx[k - 1], idx[c.src.u((uint32_t) k)]);
            for (int k : idx) set_elem(c, A, g.p, k / n, k % n, D.a[k], route != 3);
        }
    }
    return A;
}

inline Dn read_order(Mat A, MPrec p, int n, bml_dense_order_t ord)
{
    void *d = bml_export_to_dense(A, ord); Dn R(n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) R(i, j) = get(p, d, ord == dense_row_major ? (size_t) i * n + j : (size_t) j * n + i);
    bml_free_memory(d);
    return R;
}
inline Dn rd(Mat A, MPrec p, int n) { return read_order(A, p, n, dense_row_major); }

inline Z elem(Mat A, MPrec p, int i, int j)
{
    void *v = bml_get_element(A, i, j); Z z = get(p, v, 0);
    return z;
}
inline bool same(Z a, Z b) { return a == b; }

inline std::string zs(Z z) { char b[80]; snprintf(b, 80, "(%.17g,%.17g)", z.real(), z.imag()); return b; }

// every reader must agree with the model exactly
inline Z typed_elem(Mat A, MPrec p, int i, int j)
{
    switch (p)
    {
    case single_real: return Z(bml_get_element_single_real(A, i, j));
    case double_real: return Z(bml_get_element_double_real(A, i, j));
    case single_complex: { auto z = bml_get_element_single_complex(A, i, j); return Z(__real__ z, __imag__ z); }
    default: { auto z = bml_get_element_double_complex(A, i, j); return Z(__real__ z, __imag__ z); }
    }
}
inline void check_reads(Case &c, Mat A, const Cfg &g, const Dn &D, const char *what)
{
    int n = D.n;
    Dn R = rd(A, g.p, n), C = read_order(A, g.p, n, dense_column_major);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
    {
        CHECK(c, same(R(i, j), D(i, j)), "%s: export (row-major) (%d,%d) = %s, expected %s", what, i, j, zs(R(i, j)).c_str(), zs(D(i, j)).c_str());
        CHECK(c, same(C(i, j), D(i, j)), "%s: export (column-major) (%d,%d) = %s, expected %s", what, i, j, zs(C(i, j)).c_str(), zs(D(i, j)).c_str());
        Z e = elem(A, g.p, i, j);
        CHECK(c, same(e, D(i, j)), "%s: get_element(%d,%d) = %s, expected %s", what, i, j, zs(e).c_str(), zs(D(i, j)).c_str());
        e = typed_elem(A, g.p, i, j);
        CHECK(c, same(e, D(i, j)), "%s: get_element_%s(%d,%d) = %s, expected %s", what, pname(g.p), i, j, zs(e).c_str(), zs(D(i, j)).c_str());
    }
    for (int i = 0; i < n; i++)
    {
        void *r = bml_get_row(A, i);
        for (int j = 0; j < n; j++) CHECK(c, same(get(g.p, r, j), D(i, j)), "%s: get_row(%d)[%d] = %s, expected %s", what, i, j, zs(get(g.p, r, j)).c_str(), zs(D(i, j)).c_str());
        bml_free_memory(r);
    }
    void *d = bml_get_diagonal(A);
    for (int i = 0; i < n; i++) CHECK(c, same(get(g.p, d, i), D(i, i)), "%s: get_diagonal[%d] = %s, expected %s", what, i, zs(get(g.p, d, i)).c_str(), zs(D(i, i)).c_str());
    bml_free_memory(d);
}

inline void expect_exact(Case &c, Mat A, const Cfg &g, const Dn &D, const char *what)
{
    Dn R = rd(A, g.p, D.n);
    for (int i = 0; i < D.n; i++) for (int j = 0; j < D.n; j++)
        CHECK(c, same(R(i, j), D(i, j)), "%s: element (%d,%d) = %s, expected %s", what, i, j, zs(R(i, j)).c_str(), zs(D(i, j)).c_str());
}
// |R-D| <= tol(i,j)
inline void expect_close(Case &c, const Dn &R, const Dn &D, const Dn &tol, const char *what)
{
    for (int i = 0; i < D.n; i++) for (int j = 0; j < D.n; j++)
        CHECK(c, std::abs(R(i, j) - D(i, j)) <= tol(i, j).real(), "%s: element (%d,%d) = %s, expected %s within %g", what, i, j, zs(R(i, j)).c_str(), zs(D(i, j)).c_str(), tol(i, j).real());
}
inline void expect_meta(Case &c, Mat A, const Cfg &g, int m, const char *what)
{
    CHECK(c, A != NULL, "%s: NULL result", what);
    CHECK(c, bml_get_type(A) == g.t, "%s: type %s, expected %s", what, tname(bml_get_type(A)), tname(g.t));
    CHECK(c, bml_get_precision(A) == g.p, "%s: precision %s, expected %s", what, pname(bml_get_precision(A)), pname(g.p));
    CHECK(c, bml_get_N(A) == g.n, "%s: N=%d, expected %d", what, bml_get_N(A), g.n);
    if (m > 0 && g.t == ellpack) CHECK(c, bml_get_M(A) == m, "%s: M=%d, expected %d", what, bml_get_M(A), m);
}
inline void dump(Case &c, const char *name, const Dn &D)
{
    c.note("; %s={", name); int shown = 0;
    for (int i = 0; i < D.n && shown < 24; i++) for (int j = 0; j < D.n && shown < 24; j++) if (D(i, j) != Z(0))
    {
        if (D(i, j).imag() == 0) c.note("%d,%d:%g ", i, j, D(i, j).real()); else c.note("%d,%d:%g%+gi ", i, j, D(i, j).real(), D(i, j).imag());
        shown++;
    }
    c.note(shown == 24 ? "...}" : "}");
}
// non-trivial data: at least two rows differ in content and something is stored
inline bool interesting(const Dn &A) { int k = 0; for (auto &z : A.a) k += z != Z(0); return A.n >= 2 && k >= 2; }
static const std::vector<MType> ALL4 = { dense, ellpack, ellblock, csr };
// printed text against the window [i0,i1) x [j0,j1): one line per row, three decimals
inline void expect_window(Case &c, const std::string &out, const Dn &D, MPrec p, int i0, int i1, int j0, int j1, bool tag)
{
    std::vector<std::string> lines; std::string cur;
    for (char ch : out) { if (ch == '\n') { lines.push_back(cur); cur.clear(); } else cur += ch; }
    CHECK(c, cur.empty(), "printed text does not end with a line break: '%s'", cur.substr(0, 200).c_str());
    if (tag) { CHECK(c, !lines.empty() && lines[0] == "tag", "the tag is not printed first"); lines.erase(lines.begin()); }
    CHECK(c, (int) lines.size() == i1 - i0, "%d lines printed for %d rows", (int) lines.size(), i1 - i0);
    for (int i = i0; i < i1; i++)
    {
        const char *s = lines[i - i0].c_str();
        for (int j = j0; j < j1; j++)
        {
            char *e; double re = strtod(s, &e), im = 0; CHECK(c, e != s, "row %d: no number printed for column %d: '%s'", i, j, lines[i - i0].substr(0, 300).c_str()); s = e;
            if (is_complex(p)) { im = strtod(s, &e); CHECK(c, e != s && *e == 'i', "row %d column %d: imaginary part missing: '%s'", i, j, lines[i - i0].substr(0, 300).c_str()); s = e + 1; }
            double tol = 0.000501 + 1e-6 * std::abs(D(i, j));
            CHECK(c, std::abs(re - D(i, j).real()) <= tol && std::abs(im - D(i, j).imag()) <= tol, "printed (%d,%d) = %g%+gi, element is %s", i, j, re, im, zs(D(i, j)).c_str());
        }
        while (*s == ' ') s++;
        CHECK(c, !*s, "row %d: more printed than asked for: '%s'", i, s);
    }
}

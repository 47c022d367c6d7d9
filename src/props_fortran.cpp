// C30: every check of the C interface once more through the Fortran module.
// The macros below replace the C entry points by functions of the same
// signature that call the Fortran procedures (src/fshim.F90).
#include "case.hpp"
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
#include "fwrap.hpp"
namespace ft {
#include "prog.hpp"
}
using namespace ft;
// no Fortran counterpart: block extraction (C21) and the built-in GEMM (C31)
struct RegF { RegF(const char *id, const char *sub, PropFn f) { std::string s(id); if (s != "C21" && s != "C31") props().push_back({ "C30", s == "C30" ? sub : s + "_" + sub, f, 1 }); } };
#undef PROP
#undef FINDING
#define PROP(id, sub, weight) \
  static void CAT(prop_, __LINE__)(Case &c); \
  static RegF CAT(regp_, __LINE__)(#id, #sub, CAT(prop_, __LINE__)); \
  static void CAT(prop_, __LINE__)(Case &c)
#define FINDING(id, name) static void CAT(find_, __LINE__)(Case &c)
namespace ft_access {
#include "props_access.cpp"
}
namespace ft_arith {
#include "props_arith.cpp"
}
namespace ft_more {
#include "props_more.cpp"
}
namespace ft_linalg {
#include "props_linalg.cpp"
}
namespace ft_io {
#include "props_io.cpp"
}
namespace ft_sub {
#include "props_sub.cpp"
}
namespace ft_prog {
#include "props_prog.cpp"
}
namespace ft_own {
// names, kinds and queries that have no counterpart of the same shape in C
PROP(C30, introspection, 1)
{
    Cfg g = gen_cfg(c, ALL4);
    Dn D = gen_matrix(c, g.n, g.p); int m = gen_m(c, g, max_row(D));
    Mat A = build(c, g, D, m); char s[21];
    auto is = [&](const char *what, const char *e) { std::string r(s, 20), x(e); x.resize(20, ' '); CHECK(c, r == x, "%s: '%s', expected '%s'", what, r.c_str(), e); };
    fx_get_type(A, s); is("bml_get_type", tname(g.t));
    fx_get_deep_type(A, s); is("bml_get_deep_type", tname(g.t));
    fx_get_element_type(A, s); is("bml_get_element_type", g.cz() ? "complex" : "real");
    int k = fx_get_element_precision(A); CHECK(c, k == (is_double(g.p) ? 8 : 4), "bml_get_element_precision: %d", k);
    CHECK(c, fx_get_precision(A) == (int) g.p, "bml_get_precision: %d, expected %d", fx_get_precision(A), (int) g.p);
    fx_get_distribution_mode(A, s); is("bml_get_distribution_mode", "sequential");
    CHECK(c, fx_allocated(A) == 1, "bml_allocated is false for an existing matrix"); CHECK(c, fx_allocated(NULL) == 0, "bml_allocated is true for none");
    int r[2]; fx_ranks(r); CHECK(c, r[0] == 1 && r[1] == 0, "ranks %d %d", r[0], r[1]);
    fx_deallocate(&A); CHECK(c, A == NULL, "bml_deallocate leaves the handle"); fx_deallocate(&A);
    if (g.n > 1) c.nontrivial();
}
PROP(C30, modes, 1)
{
    Cfg g = gen_cfg(c, { dense, ellpack }); int dm = c.src.u(2); c.note(" mode %d", dm);   // graph_distributed cannot be allocated
    Mat A = NULL; switch (c.src.u(5)) { case 0: A = fx_zero(g.t, g.p, g.n, g.n, dm, NULL); break; case 1: A = fx_noinit(g.t, g.p, g.n, g.n, dm, NULL); break; case 2: A = fx_banded(g.t, g.p, g.n, 1, dm, NULL); break; case 3: A = fx_identity(g.t, g.p, g.n, g.n, dm, NULL); break; default: A = fx_random(g.t, g.p, g.n, g.n, dm, NULL); }
    CHECK(c, (int) bml_get_distribution_mode(A) == dm, "mode %d requested, matrix has %d", dm, (int) bml_get_distribution_mode(A));
    char s[21]; fx_get_distribution_mode(A, s); static const char *nm[] = { "sequential", "distributed", "graph_distributed" };
    CHECK(c, std::string(s).substr(0, strlen(nm[dm])) == nm[dm] && s[strlen(nm[dm])] == ' ', "bml_get_distribution_mode: '%s', expected '%s'", s, nm[dm]);
    bml_deallocate(&A); if (dm) c.nontrivial();
}
// bml_block_matrix exists in the Fortran interface only: an empty ellblock matrix with the given blocks
PROP(C30, block, 1)
{
    MPrec p = gen_prec(c); int nb = c.src.range(1, 5), n = 0; std::vector<int> bs(nb), first(nb + 1), of;
    for (int b = 0; b < nb; b++) { bs[b] = c.src.range(1, 6); first[b] = n; for (int k = 0; k < bs[b]; k++) of.push_back(b); n += bs[b]; } first[nb] = n;
    int mb = c.src.coin() ? nb : c.src.range(1, nb), m = c.src.range(1, n); c.note("%s blocks", pname(p)); for (int b : bs) c.note(" %d", b); c.note(" MB=%d M=%d", mb, m);
    Mat old = NULL; if (c.src.chance(1, 3)) old = fx_zero(dense, p, 3, 3, -1, NULL);
    Mat A = fx_block(ellblock, p, nb, mb, m, bs.data(), c.src.range(-1, 0), old);
    CHECK(c, bml_get_type(A) == ellblock && bml_get_N(A) == n && bml_get_precision(A) == p && (int) bml_get_distribution_mode(A) == 0, "block matrix has type %d, N %d, precision %d, mode %d", (int) bml_get_type(A), bml_get_N(A), (int) bml_get_precision(A), (int) bml_get_distribution_mode(A));
    Cfg g; g.t = ellblock; g.p = p; g.n = n; g.m = m; Dn D(n); check_reads(c, A, g, D, "new block matrix");
    std::vector<std::set<int>> have(nb); int w = c.src.range(0, 3 * n);
    for (int k = 0; k < w; k++)
    {
        int i = c.src.u(n), j = c.src.u(n); auto &h = have[of[i]]; if (!h.count(of[j]) && (int) h.size() >= mb) continue; h.insert(of[j]);
        Z v = gen_value(c, p, 0); set_elem(c, A, p, i, j, v, false); D(i, j) = v;
    }
    check_reads(c, A, g, D, "written block matrix"); dump(c, "A", D);
    Mat B = bml_copy_new(A); check_reads(c, B, g, D, "copy of a block matrix"); bml_deallocate(&A); check_reads(c, B, g, D, "copy after its source was released"); bml_deallocate(&B);
    if (nb > 1 && interesting(D)) c.nontrivial();
}
PROP(C30, refused, 1)
{
    int k = c.src.u(8), n = c.src.range(1, 6); c.note("invalid request %d, N=%d", k, n);
    Probe r = probe([&]() { fx_bad(k, n); fflush(stdout); _exit(0); });
    CHECK(c, !r.timed_out && !r.signal && r.exited && r.code != 0 && r.code != 99, "invalid request %d through the module: %s", k, r.code == 0 ? "accepted" : r.out.substr(0, 600).c_str());
    c.nontrivial();
}
// one random matrix through the module equals the one made through C from the same seed
PROP(C30, random, 1)
{
    Cfg g = gen_cfg(c, ALL4); int m = g.t == ellpack || g.t == csr ? c.src.range(1, g.n) : g.n; unsigned sd = c.src.u(1000);
    srand(sd); Mat A = fx_random(g.t, g.p, g.n, m, -1, NULL); srand(sd); Mat B = (bml_random_matrix) (g.t, g.p, g.n, m, sequential);
    Dn X = rd(A, g.p, g.n), Y = rd(B, g.p, g.n); CHECK(c, X == Y, "bml_random_matrix differs from the C interface's"); bml_deallocate(&A); bml_deallocate(&B);
    if (g.n > 1) c.nontrivial();
}
PROP(C30, print_dense, 1)
{
    MPrec p = gen_prec(c); int n = gen_n(c, 12); Dn D = gen_matrix(c, n, p, 0); int sec = c.src.u(2);
    int il = c.src.range(1, n), iu = c.src.range(il, n), jl = c.src.range(1, n), ju = c.src.range(jl, n);
    c.note("%s N=%d rows %d..%d columns %d..%d%s", pname(p), n, il, iu, jl, ju, sec ? " section" : ""); dump(c, "A", D);
    Buf b(p, (size_t) n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) put(p, b.d, (size_t) j * n + i, D(i, j));
    auto f = p == single_real ? fx_print_dense_single_real : p == double_real ? fx_print_dense_double_real : p == single_complex ? fx_print_dense_single_complex : fx_print_dense_double_complex;
    Probe r = probe([&]() { f(n, b.d, il, iu, jl, ju, sec); fflush(stdout); _exit(0); });
    CHECK(c, r.exited && r.code == 0, "bml_print_matrix failed: %s", r.out.substr(0, 400).c_str());
    expect_window(c, r.out, D, p, il - 1, iu, jl - 1, ju, true);
    if (n > 1 && interesting(D)) c.nontrivial();
}
}

// C35 printing
#include "gen.hpp"
#include <fcntl.h>
#include <unistd.h>

static void window(Case &c, int n, int &l, int &u) { l = c.src.range(0, n); u = c.src.chance(1, 3) ? n : c.src.range(l, n); if (c.src.chance(1, 3)) { l = 0; } }

PROP(C35, print, 1)
{
    int which = c.src.u(4);      // 0,1 matrix; 2 dense array; 3 vector
    Cfg g = gen_cfg(c, which < 2 ? ALL4 : std::vector<MType>{ dense }, 18); int n = g.n;
    Dn D = gen_matrix(c, n, g.p, c.src.coin() ? 0 : 1); int il, iu, jl, ju; window(c, n, il, iu); window(c, n, jl, ju);
    static const char *nm[] = { "matrix", "matrix", "dense array", "vector" }; c.label(std::string("op:") + nm[which]);
    c.note(" %s rows [%d,%d) columns [%d,%d)", nm[which], il, iu, jl, ju); dump(c, "A", D);
    if (which < 2)
    {
        Mat A = build(c, g, D, gen_m(c, g, max_row(D)));
        int null = open("/dev/null", O_WRONLY);
        Probe r = probe([&]() { bml_print_bml_matrix(A, il, iu, jl, ju); fflush(stdout); dup2(null, 1); Dn R = rd(A, g.p, n); _exit(R == D ? 0 : 3); });
        close(null);
        CHECK(c, !(r.exited && r.code == 3), "printing changed the matrix");
        CHECK(c, r.exited && r.code == 0, "printing failed: %s", r.out.substr(0, 600).c_str());
        expect_window(c, r.out, D, g.p, il, iu, jl, ju, false);
        bml_deallocate(&A);
    }
    else if (which == 2)
    {
        bool rm = c.src.coin(); Buf b(g.p, (size_t) n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) put(g.p, b.d, rm ? (size_t) i * n + j : (size_t) j * n + i, D(i, j));
        c.note(rm ? " row-major" : " column-major");
        Probe r = probe([&]() { bml_print_dense_matrix(n, g.p, rm ? dense_row_major : dense_column_major, b.d, il, iu, jl, ju); fflush(stdout); _exit(0); });
        CHECK(c, r.exited && r.code == 0, "printing failed: %s", r.out.substr(0, 600).c_str());
        expect_window(c, r.out, D, g.p, il, iu, jl, ju, false);
    }
    else
    {
        Buf b(g.p, (size_t) n); Dn V(n); for (int i = 0; i < n; i++) { put(g.p, b.d, i, D(i, i)); V(0, i) = D(i, i); }
        Probe r = probe([&]() { bml_print_dense_vector(n, g.p, b.d, jl, ju); fflush(stdout); _exit(0); });
        CHECK(c, r.exited && r.code == 0, "printing failed: %s", r.out.substr(0, 600).c_str());
        expect_window(c, r.out, V, g.p, 0, 1, jl, ju, false);
    }
    if (interesting(D) && iu > il && ju > jl) c.nontrivial();
}

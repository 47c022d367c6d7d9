// C19 file round trip, C33 damaged files
#include "gen.hpp"
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>

struct Tmp   // an anonymous file the library can open by name
{
    int fd; char path[64];
    Tmp() { fd = memfd_create("mtx", 0); if (fd < 0) abort(); snprintf(path, 64, "/proc/self/fd/%d", fd); }
    ~Tmp() { close(fd); }
    void put(const std::string &s) { if (ftruncate(fd, 0)) abort(); if (pwrite(fd, s.data(), s.size(), 0) != (ssize_t) s.size()) abort(); }
    std::string get() { std::string s; char b[65536]; ssize_t r; off_t o = 0; while ((r = pread(fd, b, sizeof b, o)) > 0) { s.append(b, r); o += r; } return s; }
};
struct Tok { size_t at, len; int line, col; };
static std::vector<Tok> tokens(const std::string &s)
{
    std::vector<Tok> r; int line = 0, col = 0;
    for (size_t i = 0; i < s.size();)
    {
        if (s[i] == '\n') { line++; col = 0; i++; continue; }
        if (s[i] == ' ' || s[i] == '\t' || s[i] == '\r') { i++; continue; }
        size_t j = i; while (j < s.size() && !strchr(" \t\r\n", s[j])) j++;
        r.push_back({ i, j - i, line, col++ }); i = j;
    }
    return r;
}
static int to_int(Case &c, const std::string &w) { char *e; long v = strtol(w.c_str(), &e, 10); CHECK(c, !*e && !w.empty(), "file: '%s' is not an integer", w.c_str()); return (int) v; }
// strict reading of what bml_write_bml_matrix produced
static Dn parse(Case &c, const std::string &s, const Cfg &g)
{
    Dn D(g.n); auto t = tokens(s); size_t k = 0;
    auto w = [&](void) -> std::string { CHECK(c, k < t.size(), "file: ends after %zu words", k); auto x = s.substr(t[k].at, t[k].len); k++; return x; };
    CHECK(c, !s.empty() && s.back() == '\n', "file: no final newline");
    const char *want[5] = { "%%MatrixMarket", "matrix", "coordinate", g.cz() ? "complex" : "real", "general" };
    for (int i = 0; i < 5; i++) { CHECK(c, k < t.size() && t[k].line == 0, "file: short first line"); auto x = w(); CHECK(c, x == want[i], "file: header word %d is '%s', expected '%s'", i + 1, x.c_str(), want[i]); }
    CHECK(c, k < t.size() && t[k].line == 1, "file: sizes are not on line 2");
    int a = to_int(c, w()), b = to_int(c, w()), nnz = to_int(c, w());
    CHECK(c, a == g.n && b == g.n, "file: sizes %d %d, expected %d", a, b, g.n);
    std::set<std::pair<int, int>> seen; int per = g.cz() ? 4 : 3;
    for (int e = 0; e < nnz; e++)
    {
        CHECK(c, k < t.size(), "file: header says %d entries, the file has %d", nnz, e);
        int line = t[k].line;
        CHECK(c, line == e + 2, "file: entry %d is on line %d", e + 1, line + 1);
        CHECK(c, k + per <= t.size() && t[k + per - 1].line == line && (k + per == t.size() || t[k + per].line > line), "file: line %d does not have %d columns", line + 1, per);
        int i = to_int(c, w()), j = to_int(c, w());
        CHECK(c, i >= 1 && i <= g.n && j >= 1 && j <= g.n, "file: entry (%d,%d) out of range", i, j);
        CHECK(c, seen.insert({ i, j }).second, "file: entry (%d,%d) occurs twice", i, j);
        char *q; auto x = w(); double re = strtod(x.c_str(), &q), im = 0; CHECK(c, !*q, "file: bad number '%s'", x.c_str());
        if (g.cz()) { x = w(); im = strtod(x.c_str(), &q); CHECK(c, !*q, "file: bad number '%s'", x.c_str()); }
        D(i - 1, j - 1) = Z(re, im);
    }
    CHECK(c, k == t.size(), "file: header says %d entries, more lines follow", nnz);
    return D;
}
static void expect_printed(Case &c, const Dn &R, const Dn &D, const Cfg &g, const char *what, bool text = false)
{
    for (int i = 0; i < D.n; i++) for (int j = 0; j < D.n; j++)
    {
        auto ok = [&](double r, double d) { return !is_double(g.p) && !text ? r == d : std::abs(r - d) <= 6e-15 * std::abs(d); };
        CHECK(c, ok(R(i, j).real(), D(i, j).real()) && ok(R(i, j).imag(), D(i, j).imag()), "%s: element (%d,%d) = %s, expected %s", what, i, j, zs(R(i, j)).c_str(), zs(D(i, j)).c_str());
    }
}
static MType other(Case &c) { return c.src.pick(ALL4); }

static void maybe_history(Case &c, const Cfg &g, Mat A, Dn &D)   // explicit zeros, cleared entries
{
    int k = c.src.u(4); if (k < 2) return;
    int cnt = c.src.range(1, 4);
    while (cnt--)
    {
        int i = c.src.u(g.n), j = c.src.u(g.n); Z v = D(i, j) != Z(0) && c.src.coin() ? Z(0) : D(i, j) != Z(0) ? gen_value(c, g.p, 1) : Z(0);
        if (D(i, j) == Z(0)) continue;
        set_elem(c, A, g.p, i, j, v, false); D(i, j) = v;
    }
    c.label("rewritten");
}

PROP(C19, roundtrip, 3)
{
    Cfg g = gen_cfg(c, ALL4, 0, true); int n = g.n;
    Dn D = gen_matrix(c, n, g.p, MOVED); dump(c, "A", D);
    Mat A = build(c, g, D, gen_m(c, g, max_row(D))); maybe_history(c, g, A, D);
    Tmp f; bml_write_bml_matrix(A, f.path);
    expect_exact(c, A, g, D, "matrix after writing it");
    std::string s = f.get();
    expect_printed(c, parse(c, s, g), D, g, "file content", true);
    int reads = c.src.range(1, 2);
    bool blocks_set = g.t == ellblock;
    for (int k = 0; k < reads; k++)
    {
        Cfg h = g; h.t = k == 0 && c.src.coin() ? g.t : other(c); c.note("; read as %s", tname(h.t));
        if (h.t != g.t) { c.label("crossformat"); if (h.t == ellblock && g.t != ellblock && !blocks_set) { h.bs.clear(); setup_blocks(c, h); blocks_set = true; } }
        Mat B = bml_zero_matrix(h.t, h.p, n, n, sequential);
        bml_read_bml_matrix(B, f.path);
        expect_meta(c, B, h, 0, "read matrix");
        Dn R = rd(B, h.p, n);
        expect_printed(c, R, D, g, "matrix read back");
        CHECK(c, f.get() == s, "reading changed the file");
        check_reads(c, B, h, R, "matrix read back");
        // it is a normal matrix: it can be written again and modified
        if (c.src.coin()) { Tmp f2; bml_write_bml_matrix(B, f2.path); expect_printed(c, parse(c, f2.get(), g), D, g, "second file", true); }
        int i = c.src.u(n), j = c.src.u(n); Z v = gen_value(c, g.p, 1); if (!bctl.tight || R(i, j) != Z(0)) { set_elem(c, B, g.p, i, j, v, false); R(i, j) = v; }
        expect_exact(c, B, h, R, "matrix read back, then modified");
        bml_deallocate(&B);
    }
    bml_deallocate(&A);
    if (interesting(D) && !(D == tr(D))) c.nontrivial();
}

// a hand-made file: any order of the entries, general or symmetric
static std::string make_file(Case &c, const Cfg &g, const Dn &D, bool sym, bool shuffle, int style)
{
    std::vector<std::pair<int, int>> e;
    for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) if (D(i, j) != Z(0) && (!sym || j <= i)) e.push_back({ i, j });
    if (shuffle) for (size_t k = e.size(); k > 1; k--) std::swap(e[k - 1], e[c.src.u((uint32_t) k)]);
    if (sym && shuffle) for (auto &x : e) if (c.src.coin()) std::swap(x.first, x.second);
    char b[200];
    snprintf(b, 200, "%%%%MatrixMarket matrix coordinate %s %s\n%d %d %zu\n", g.cz() ? "complex" : "real", sym ? "symmetric" : "general", g.n, g.n, e.size());
    std::string s = b;
    for (auto &x : e)
    {
        Z v = D(x.first, x.second);
        const char *fm = style == 0 ? "%d %d %.17g" : style == 1 ? "%d\t%d   %.17e" : "%d %d %20.17g";
        snprintf(b, 200, fm, x.first + 1, x.second + 1, v.real()); s += b;
        if (g.cz()) { snprintf(b, 200, " %.17g", v.imag()); s += b; }
        s += "\n";
    }
    return s;
}
PROP(C19, handmade, 1)
{
    Cfg g = gen_cfg(c, ALL4, 0, true); int n = g.n;
    Dn D = gen_matrix(c, n, g.p, c.src.u(3)); bool sym = c.src.chance(2, 3);
    if (sym) { for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) D(j, i) = D(i, j); c.label("symmetric"); }
    dump(c, sym ? "Asym" : "A", D);
    Tmp f; f.put(make_file(c, g, D, sym, c.src.coin(), c.src.u(3)));
    Mat A = bml_zero_matrix(g.t, g.p, n, gen_m(c, g, max_row(D)), sequential);
    bml_read_bml_matrix(A, f.path);
    check_reads(c, A, g, D, "matrix read from the file");
    bml_deallocate(&A);
    if (interesting(D)) c.nontrivial();
}

PROP(C33, damaged, 1)
{
    Cfg g = gen_cfg(c, ALL4, 12); int n = g.n;
    Dn D = gen_matrix(c, n, g.p, c.src.u(3)); dump(c, "A", D);
    Tmp f; std::string s;
    bool written = c.src.coin();
    if (written) { Mat A = build(c, g, D); bml_write_bml_matrix(A, f.path); s = f.get(); bml_deallocate(&A); c.label("file:written"); }
    else s = make_file(c, g, D, false, c.src.coin(), c.src.u(3));
    auto t = tokens(s); int per = g.cz() ? 4 : 3; int nnz = ((int) t.size() - 8) / per;
    int kind = c.src.u(14), m = n, rn = n; std::string o = s; const char *name = ""; const char *path = f.path; MPrec rp = g.p;
    auto rep = [&](size_t k, const std::string &w) { o = s.substr(0, t[k].at) + w + s.substr(t[k].at + t[k].len); };
    auto needs_entry = [&]() { if (!nnz) c.skip(); };
    switch (kind)
    {
        case 0: case 1:
        {   // cut the file anywhere before its last value
            size_t end = t.back().at; if (!nnz) end = t[7].at;
            size_t cut = c.src.coin() ? c.src.u((uint32_t) end + 1) : t[c.src.u((uint32_t) t.size())].at;   // at a byte or a token boundary
            o = s.substr(0, cut); name = "truncated"; c.note("; cut at %zu of %zu", cut, s.size()); break;
        }
        case 2: { size_t k = c.src.u(5); rep(k, ""); name = "header word deleted"; break; }
        case 3: { needs_entry(); size_t k = 8 + c.src.u((uint32_t) (t.size() - 8)); rep(k, c.src.pick(std::vector<std::string>{ "x", "*", "abc", "#", "one" })); name = "garbage in an entry"; break; }
        case 4: { needs_entry(); size_t k = 5 + c.src.u((uint32_t) (t.size() - 5)); rep(k, ""); name = "word deleted"; c.note("; word %zu", k); break; }
        case 5: { needs_entry(); int e = c.src.u(nnz); size_t a = t[8 + e * per].at, b = s.find('\n', a); o = s.substr(0, a) + s.substr(b + 1); name = "entry deleted"; break; }
        case 6: case 7: { needs_entry(); int e = c.src.u(nnz); size_t k = 8 + e * per + c.src.u(2); int bad = c.src.pick({ 0, -1, n + 1, n + 5, 1000000, -2147483647, 2147483647, n * n }); if (bad >= 1 && bad <= n) bad = n + 1; rep(k, std::to_string(bad)); name = "index out of range"; c.note("; index %d", bad); break; }
        case 8: { int k = 5 + c.src.u(2); int v = c.src.pick({ n + 1, n - 1, 2 * n, 0, -n, 1 << 30 }); rep(k, std::to_string(v)); name = "size differs"; c.note("; size %d", v); break; }
        case 9: { int v = c.src.pick({ nnz + 1, nnz + 7, 2 * nnz + 1, 2147483647, -1, -1000 }); rep(7, std::to_string(v)); name = "entry count differs"; c.note("; count %d", v); break; }
        case 10: { size_t k = c.src.u(5); rep(k, std::string(c.src.range(21, 400), 'a')); name = "overlong header word"; break; }
        case 11: { rn = n + c.src.pick({ 1, 2, -1, 7 }); if (rn < 1) rn = n + 1; m = rn; name = "other matrix size"; break; }
        case 12: { rp = is_complex(g.p) ? (is_double(g.p) ? double_real : single_real) : (is_double(g.p) ? double_complex : single_complex); if (nnz == 0) c.skip(); name = "other field type"; break; }
        case 13: { int k = c.src.u(3); if (k == 0) { path = "/proc/self/fd/987654"; name = "missing file"; } else if (k == 1) { o = ""; name = "empty file"; } else { path = "/proc/self"; name = "directory"; } break; }
    }
    if (o == s && kind < 11) c.skip();
    f.put(o); c.label(std::string("damage:") + name); c.note("; %s", name);
    if (rn != n && g.t == ellblock && (!g.bs.empty() || written)) c.skip();   // ellblock fixes one N per process
    auto r = probe([&]() {
        Mat B = bml_zero_matrix(g.t, rp, rn, m, sequential);
        bml_read_bml_matrix(B, (char *) path);
        printf("RETURNED\n"); fflush(stdout);
    });
    CHECK(c, !r.timed_out, "%s: the reader hangs", name);
    CHECK(c, !(r.exited && r.code == 99) && r.out.find("Sanitizer") == std::string::npos, "%s: memory error: %s", name, r.out.substr(0, 1500).c_str());
    CHECK(c, r.out.find("RETURNED") == std::string::npos, "%s: the damaged file was accepted", name);
    CHECK(c, (r.exited && r.code != 0) || (!r.exited && r.signal == SIGABRT), "%s: the reader ended with %s %d", name, r.exited ? "status" : "signal", r.exited ? r.code : r.signal);
    CHECK(c, !r.out.empty(), "%s: no error report", name);
    if (nnz) c.nontrivial();
}
// the rows of the file do not fit the row capacity
PROP(C33, capacity, 1)
{
    Cfg g = gen_cfg(c, { ellpack, ellpack, csr, ellblock, dense }, 10); int n = g.n; if (n < 2) c.skip();
    Dn D = gen_matrix(c, n, g.p, 1); int need = max_row(D); if (need < 2) c.skip();
    dump(c, "A", D);
    int m = c.src.range(1, need - 1); bool sym = c.src.chance(1, 3);
    if (sym) { for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) D(j, i) = D(i, j); }
    Tmp f; f.put(make_file(c, g, D, sym, c.src.coin(), 0)); c.note("; M=%d", m);
    // result: either the right matrix, or an error
    auto r = probe([&]() {
        Mat B = bml_zero_matrix(g.t, g.p, n, m, sequential);
        bml_read_bml_matrix(B, f.path);
        Dn R = rd(B, g.p, n);
        printf(R == D ? "RIGHT\n" : "WRONG\n"); fflush(stdout);
    });
    CHECK(c, !r.timed_out, "the reader hangs");
    CHECK(c, !(r.exited && r.code == 99) && r.out.find("Sanitizer") == std::string::npos, "memory error: %s", r.out.substr(0, 1500).c_str());
    CHECK(c, r.out.find("WRONG") == std::string::npos, "a file with %d entries in a row was read into a matrix with M=%d as a different matrix", need, m);
    if (r.out.find("RIGHT") != std::string::npos) { c.label("fits"); CHECK(c, r.exited && r.code == 0, "died after reading"); }
    else { c.label("diagnosed"); CHECK(c, (r.exited && r.code != 0) || (!r.exited && r.signal == SIGABRT), "the reader ended with %s %d", r.exited ? "status" : "signal", r.exited ? r.code : r.signal); CHECK(c, !r.out.empty(), "no error report"); }
    c.nontrivial();
}

// C37: a failing memory request anywhere in a program of calls ends the process; it never
// corrupts memory and never lets the program go on with wrong contents
#include "prog.hpp"
#include <errno.h>
#include <signal.h>
#include <sys/resource.h>

static long g_seen, g_fail_at;      // requests seen while armed; the one to fail (-1: none)
static bool g_armed; static int g_depth; static bool g_hit, g_hit_inside;
static bool fail_now() { if (!g_armed) return false; if (g_seen++ != g_fail_at) return false; g_hit = true; g_hit_inside = g_depth > 0; if (write(1, g_hit_inside ? "\nHIT inside\n" : "\nHIT outside\n", g_hit_inside ? 12 : 13)) {} errno = ENOMEM; return true; }
extern "C"
{
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); int __real_posix_memalign(void **, size_t, size_t);
void *__real_bml_allocate_memory(size_t); void *__real_bml_noinit_allocate_memory(size_t); void *__real_bml_reallocate_memory(void *, const size_t);
void *__wrap_malloc(size_t n) { return fail_now() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return fail_now() ? NULL : __real_calloc(n, m); }
void *__wrap_realloc(void *q, size_t n) { return fail_now() ? NULL : __real_realloc(q, n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { return fail_now() ? ENOMEM : __real_posix_memalign(p, a, n); }
void *__wrap_bml_allocate_memory(size_t n) { g_depth++; void *p = __real_bml_allocate_memory(n); g_depth--; return p; }
void *__wrap_bml_noinit_allocate_memory(size_t n) { g_depth++; void *p = __real_bml_noinit_allocate_memory(n); g_depth--; return p; }
void *__wrap_bml_reallocate_memory(void *q, const size_t n) { g_depth++; void *p = __real_bml_reallocate_memory(q, n); g_depth--; return p; }
}
static bool near_null(const std::string &s)
{
    if (s.find("null pointer") != std::string::npos) return true;
    size_t k = s.find("unknown address 0x"); if (k == std::string::npos) return false;
    return strtoull(s.c_str() + k + 16, NULL, 16) < (1u << 20);
}
PROP(C37, program, 1)
{
    MType t = pick_type(c, ALL4); MPrec p = gen_prec(c); int n = t == csr && c.src.coin() ? c.src.range(18, 40) : c.src.chance(1, 6) ? c.src.range(9, 20) : c.src.range(1, 8); Cfg g; g.t = t; g.p = p; g.n = n; g.m = n; setup_blocks(c, g);
    c.note("%s %s N=%d", tname(t), pname(p), n); c.label(std::string("type:") + tname(t)); c.label(std::string("prec:") + pname(p));
    int m = t != ellblock && n > 2 && (n > 17 || c.src.chance(1, 3)) ? c.src.range(1, n) : n; if (m < n) { c.note(" M=%d", m); c.label("M<N"); }
    Prog P0(c, p, n, m, true); P0.bs = g.bs; P0.types = { t, t, t }; if (c.src.chance(1, 3)) P0.types.push_back(c.src.pick(ALL4));
    uint32_t which = c.src.u(1000); int steps = 2 + c.src.u(5); auto mk = c.src.mark();
    long mark_last = 0;
    auto run = [&]() { Prog P = P0; P.step(); int done = 0; for (int k = 0; done < steps && k < 30; k++) { mark_last = g_seen; if (P.step()) done++; } int nops = P.nops; g_armed = false; P.finish(); return nops; };
    g_seen = 0; g_fail_at = -1; g_armed = true; int nops = run(); g_armed = false;
    long total = g_seen, from = mark_last; if (!total) c.skip();
    // half of the time one of the requests of the last call
    long at = which % 2 && total > from ? from + (which / 2) % (total - from) : (long) ((which / 2) * (uint64_t) total / 500);
    c.note(" | request %ld of %ld fails", at + 1, total); if (nops >= 2 && n > 1) c.nontrivial();
    c.quiet = true; uint32_t drawn = c.sh->nchoices;
    Probe r = probe([&]() { c.src.rewind(mk); g_seen = 0; g_fail_at = at; g_hit = false; g_armed = true; try { run(); } catch (Fail &) { g_armed = false; printf("\nWRONG %s\n", c.sh->msg); fflush(stdout); _exit(42); } catch (Skip &) { _exit(43); } g_armed = false; printf("\nDONE\n"); fflush(stdout); _exit(0); });
    c.sh->nchoices = drawn; c.quiet = false;
    bool inside = r.out.find("HIT inside") != std::string::npos, hit = inside || r.out.find("HIT outside") != std::string::npos; std::string tail = r.out.substr(0, 900);
    if (!hit || r.code == 43) c.skip();                         // not the same requests again (a random constructor)
    c.label(inside ? "request of the library's allocation functions" : "request of its own");
    CHECK(c, !(r.exited && r.code == 42), "the program went on after the failed request, with wrong contents: %s", tail.c_str());
    bool report = r.exited && r.code == 99; 
    CHECK(c, !report || near_null(r.out), "memory error after the failed request: %s", tail.c_str());
    if (r.exited && r.code == 0) c.label("went on, correctly"); else if (report) c.label("stopped at a null pointer"); else c.label("stopped with an error");
    if (inside) CHECK(c, (r.exited && r.code != 0 && !report) || r.signal == SIGABRT, "a failed request of the allocation functions is not diagnosed (exit code %d, signal %d): %s", r.code, r.signal, tail.c_str());
}

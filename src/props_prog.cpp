// C24 programs of calls against the exact dense model, C26 memory balance
#include "prog.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();

static void run_prog(Case &c, Prog &P, int maxops)
{
    int tries = 0; P.step();
    for (int k = 0; k < maxops && c.src.more(24); ) { if (P.step() || ++tries > 60) k++; }
    P.finish();
}
static Prog make(Case &c, bool wide)
{
    MType t = pick_type(c, ALL4); MPrec p = gen_prec(c); int n = c.src.chance(t == csr ? 2 : 1, 8) ? c.src.chance(1, 5) ? c.src.range(25, 44) : c.src.range(9, 24) : c.src.range(1, 9); Cfg g; g.t = t; g.p = p; g.n = n; g.m = n; setup_blocks(c, g);
    int m = t != ellblock && n > 2 && c.src.chance(1, 3) ? c.src.range(1, n) : n;
    c.note("%s %s N=%d M=%d", tname(t), pname(p), n, m); if (!g.bs.empty()) { c.note(" blocks="); for (int b : g.bs) c.note("%d,", b); }
    c.note(":"); c.label(std::string("type:") + tname(t)); c.label(std::string("prec:") + pname(p)); if (m < n) c.label("M<N");
    Prog P(c, p, n, m, wide); P.bs = g.bs; P.types = { t, t, t }; if (c.src.chance(1, 3)) { P.types.push_back(c.src.pick(ALL4)); P.types.push_back(t); }
    return P;
}
PROP(C24, program, 1)
{
    Prog P = make(c, true); run_prog(c, P, c.thorough ? 60 : 40);
    if (P.nops >= 4 && P.n > 1) c.nontrivial();
}
PROP(C26, program, 1)
{
    // the same program three times: nothing may remain of the second and third
    Prog P0 = make(c, true); auto mk = c.src.mark(); size_t bytes[4];
    for (int r = 0; r < 4; r++)
    {
        c.src.rewind(mk); c.quiet = r > 0;
        { Prog P = P0; run_prog(c, P, 12); if (P.nops >= 3 && P.n > 1) c.nontrivial(); }
        bytes[r] = __sanitizer_get_current_allocated_bytes();
    }
    CHECK(c, !(bytes[1] != bytes[0] && bytes[2] > bytes[1] && bytes[3] > bytes[2]), "memory remains after all matrices are released: %zu, %zu, %zu, %zu bytes allocated after repeated runs", bytes[0], bytes[1], bytes[2], bytes[3]);
}

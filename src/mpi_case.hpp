// What the MPI properties share.
#pragma once
#include <mpi.h>
#include "gen.hpp"
struct Ell { int n = 0; std::vector<int> bs; };   // order and block sizes of ellblock matrices: fixed for a process
extern int R, me, P;        // ranks, this rank, grid dimension
extern Ell EB;
extern std::string DIR;     // scratch directory of this batch, the same on all ranks
inline Cfg gen_seq(Case &c, const std::vector<MType> &types)   // an undistributed matrix on every rank
{
    Cfg g; g.t = c.src.pick(types); g.p = gen_prec(c); g.n = gen_n(c, c.thorough ? 0 : 24); if (g.t == ellblock)
    {
        if (c.src.coin()) { g.n = EB.n; g.bs = EB.bs; }
        if (g.n == EB.n) g.bs = EB.bs; else { Mat X = bml_zero_matrix(ellblock, g.p, g.n, g.n, sequential); bml_deallocate(&X); c.label("N other than the given blocks'"); }   // default blocks, room for all of them
    }
    g.m = g.n;
    c.label(std::string("type:") + tname(g.t)); c.label(std::string("prec:") + pname(g.p)); c.label("ranks:" + std::to_string(R));
    c.note("%d ranks, %s %s N=%d", R, tname(g.t), pname(g.p), g.n); if (g.t == ellblock && !g.bs.empty()) { c.note(" blocks="); for (int b : g.bs) c.note("%d,", b); }
    return g;
}

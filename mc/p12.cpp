// P12: stencil assembly
#include "ftn_decl.h"
#include "cd_stencil_1d_cuda.hpp"
#include "cd_stencil_2d_cuda.hpp"
#include "cd_stencil_3d_cuda.hpp"
#include "ops_stencil.h"
template <int D> static void dim(Ctx& c)
{
    std::vector<int> ext = D == 1 ? std::vector<int>{0, 1, 2, 3, 6} : D == 2 ? std::vector<int>{0, 1, 2, 4} : std::vector<int>{0, 1, 2, 3};
    if (c.thorough) ext = D == 1 ? std::vector<int>{0, 1, 2, 3, 4, 5, 8, 17} : D == 2 ? std::vector<int>{0, 1, 2, 3, 4, 5} : std::vector<int>{0, 1, 2, 3, 4};
    std::vector<std::vector<int>> org = {{0, 0, 0}, {-3, 2, -1}};
    static const double ab[5][2] = {{1, 1}, {0.75, -1.5}, {0, 1.25}, {-2, 0}, {1e3, 0.5}};
    for (auto& b : withlong<D>(boxes<D>(ext, org), c.thorough))
        for (int ga = 0; ga < 3; ga++)
            for (int gb = 0; gb < 3; gb++)
                for (int sg = 0; sg < (c.thorough ? 4 : 3); sg++)
                    for (int k = 0; k < 5; k++)
                        for (int pat = 0; pat < (c.thorough ? 3 : 1); pat++) {
                            if (!c.scenario()) continue;
                            Box ab_ = b.grow(ga), bb = b.grow(gb);
                            // lopsided enclosing boxes
                            ab_.lo[0] -= ga;
                            bb.hi[D - 1] += gb;
                            int dxi = (k + ga + gb) % 3;
                            StSys<D> s{b, ab_, bb, sg == 2 ? 4 : sg, 1, {DXS[dxi][0], DXS[dxi][1], DXS[dxi][2]}};
                            std::string lab = fmt("%dD box %s abox+%d bbox+%d sgcw %d alpha %g beta %g dx#%d data#%d", D,
                                                  b.str().c_str(), ga, gb, sg, ab[k][0], ab[k][1], dxi, pat);
                            World w = s.world(c.seed, pat);
                            // histories of two: off-diagonal then diagonal (and every other order)
                            if (!c.explore(w, s.assembly(ab[k][0], ab[k][1]), 2, lab)) return;
                        }
    for (auto& x : extremes<D>(c.thorough))
        for (auto& k : XAB) {
            if (!c.scenario()) continue;
            StSys<D> s{x.b, x.b.grow(x.k & 1), x.b.grow(x.k / 2 & 1), x.k % 3, 1, {x.h()[0], x.h()[1], x.h()[2]}};
            if (!c.explore(s.world(c.seed, x.pat), s.assembly(k[0], k[1]), x.b.hi[0] - x.b.lo[0] > 10 ? 1 : 2, fmt("%dD box %s case#%d dx %g,%g,%g alpha %g beta %g data#%d", D, x.b.str().c_str(), x.k, s.dx[0], s.dx[1], s.dx[2], k[0], k[1], x.pat))) return;
        }
}
void check(Ctx& c)
{
    c.bounds = "1-3D, boxes (long ones included), enclosing coefficient boxes, stencil ghost widths, coefficients incl. zero and negative; all assembly histories of length 2"
               "; unusual cases: boxes to 70001 cells long and 300x260, 41x37x33 cells, 10^6 from the origin, equal, tiny and huge spacings, zero, constant, tiny, huge data";
    dim<1>(c);
    dim<2>(c);
    dim<3>(c);
}
int main(int argc, char** argv) { return core_main(argc, argv); }

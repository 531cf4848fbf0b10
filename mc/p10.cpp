// P10: face fluxes
#include "ftn_decl.h"
#include "cd_flux_1d_cuda.hpp"
#include "cd_flux_2d_cuda.hpp"
#include "cd_flux_3d_cuda.hpp"
#include "ops_flux.h"
template <int D> static void dim(Ctx& c)
{
    std::vector<int> ext = D == 1 ? std::vector<int>{0, 1, 2, 3, 4, 7} : D == 2 ? std::vector<int>{0, 1, 2, 3, 5} : std::vector<int>{0, 1, 2, 3};
    if (c.thorough) ext = D == 1 ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 33} : D == 2 ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7} : std::vector<int>{0, 1, 2, 3, 4, 5};
    std::vector<std::vector<int>> org = {{0, 0, 0}, {-3, 2, -1}, {4, -5, 7}};
    for (auto& b : withlong<D>(boxes<D>(ext, org), c.thorough))
        for (int g : c.thorough ? std::vector<int>{1, 2, 3, 4, 7} : std::vector<int>{1, 2, 3, 6})
            for (int dxi = 0; dxi < 3; dxi++)
                for (int pat = 0; pat < 3; pat++) {
                    if (!c.scenario()) continue;
                    FluxSys<D> s{b, g, {DXS[dxi][0], DXS[dxi][1], DXS[dxi][2]}};
                    std::string lab = fmt("%dD box %s gcw %d dx#%d data#%d", D, b.str().c_str(), g, dxi, pat);
                    World w = s.world(c.seed, pat);
                    // 2 kernels, histories of length 2 (the second call overwrites the first)
                    if (!c.explore(w, s.ops(), 2, lab)) return;
                }
    for (auto& x : extremes<D>(c.thorough)) {
        if (!c.scenario()) continue;
        FluxSys<D> s{x.b, 1 + x.k % 2, {x.h()[0], x.h()[1], x.h()[2]}};
        if (!c.explore(s.world(c.seed, x.pat), s.ops(), 1, fmt("%dD box %s gcw %d dx %g,%g,%g data#%d", D, x.b.str().c_str(), s.gcw, s.dx[0], s.dx[1], s.dx[2], x.pat))) return;
    }
}
void check(Ctx& c)
{
    c.bounds = "1-3D, all boxes of the listed extents (0..) at three positions and long ones (to 37), gcw 1, 2, 3, 6, three spacings, three data patterns, call histories up to length 2"
               "; unusual cases: boxes to 70001 cells long and 300x260, 41x37x33 cells, 10^6 from the origin, equal, tiny and huge spacings, zero, constant, tiny, huge data";
    dim<1>(c);
    dim<2>(c);
    dim<3>(c);
}
int main(int argc, char** argv) { return core_main(argc, argv); }

// P11: residuals and applications
#include "ftn_decl.h"
#include "cd_apply_1d_cuda.hpp"
#include "cd_apply_2d_cuda.hpp"
#include "cd_apply_3d_cuda.hpp"
#include "ops_apply.h"
template <int D> static void dim(Ctx& c)
{
    std::vector<int> ext = D == 1 ? std::vector<int>{0, 1, 2, 3, 6} : D == 2 ? std::vector<int>{0, 1, 2, 4} : std::vector<int>{0, 1, 2, 3};
    std::vector<std::vector<int>> org = {{0, 0, 0}, {-3, 2, -1}};
    if (c.thorough) ext = D == 1 ? std::vector<int>{0, 1, 2, 3, 4, 5, 8, 17} : D == 2 ? std::vector<int>{0, 1, 2, 3, 4, 5} : std::vector<int>{0, 1, 2, 3, 4};
    // coefficient pairs, including zero and negative ones
    static const double ab[6][2] = {{1, 1}, {0.75, -1.5}, {0, 1.25}, {-2, 0}, {0, 0}, {1e3, 0.5}};
    int gmax = c.thorough ? 3 : 2;
    for (auto& b : withlong<D>(boxes<D>(ext, org), c.thorough))
        for (int gc = 0; gc < gmax * gmax * gmax * gmax; gc++) {
            int t = gc;
            static const int W[3] = {0, 1, 5};
            int ag = W[t % gmax]; t /= gmax;
            int ug = W[t % gmax]; t /= gmax;
            int fg = W[t % gmax]; t /= gmax;
            int rg = W[t % gmax];
            if (gmax == 2 && gc % 5 == 2) ug = 4, rg = 6;
            for (int k = 0; k < 6; k++)
                for (int dxi = 0; dxi < 3; dxi++) {
                    if (!c.thorough && (k % 3) != dxi) continue;
                    if (!c.scenario()) continue;
                    int pat = (gc + k) % 3;
                    ApplySys<D> s{b, ag, ug, fg, rg, {DXS[dxi][0], DXS[dxi][1], DXS[dxi][2]}, ab[k][0], ab[k][1]};
                    std::string lab = fmt("%dD box %s ghosts a%d u%d f%d r%d alpha %g beta %g dx#%d data#%d", D,
                                          b.str().c_str(), ag, ug, fg, rg, ab[k][0], ab[k][1], dxi, pat);
                    World w = s.world(c.seed, pat);
                    if (!c.explore(w, s.ops(), 1, lab)) return;
                }
        }
    for (auto& x : extremes<D>(c.thorough))
        for (auto& k : XAB) {
            if (!c.scenario()) continue;
            ApplySys<D> s{x.b, x.k & 1, 1, (x.k >> 1) & 1, x.k % 3, {x.h()[0], x.h()[1], x.h()[2]}, k[0], k[1]};
            if (!c.explore(s.world(c.seed, x.pat), s.ops(), 1, fmt("%dD box %s case#%d dx %g,%g,%g alpha %g beta %g data#%d", D, x.b.str().c_str(), x.k, s.dx[0], s.dx[1], s.dx[2], k[0], k[1], x.pat))) return;
        }
}
void check(Ctx& c)
{
    c.bounds = "1-3D, boxes (long ones included), independent ghost widths of a,u,f,res, coefficient pairs incl. zero and negative, spacings, data patterns; all six kernels"
               "; unusual cases: boxes to 70001 cells long and 300x260, 41x37x33 cells, 10^6 from the origin, equal, tiny and huge spacings, zero, constant, tiny, huge data";
    dim<1>(c);
    dim<2>(c);
    dim<3>(c);
}
int main(int argc, char** argv) { return core_main(argc, argv); }

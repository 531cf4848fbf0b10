// P16: node-centred Fortran kernels
#define WITH_NODE
#include "ftn_decl.h"
#include "cd_flux_1d_cuda.hpp"
#include "cd_flux_2d_cuda.hpp"
#include "cd_flux_3d_cuda.hpp"
#include "cd_apply_1d_cuda.hpp"
#include "cd_apply_2d_cuda.hpp"
#include "cd_apply_3d_cuda.hpp"
#include "ops_flux.h"
#include "ops_apply.h"
#include "ops_stencil.h"
namespace adj {
#include "p13.h"
}
template <int D> static void dim(Ctx& c)
{
    std::vector<std::vector<int>> org = {{0, 0, 0}, {-3, 2, -1}};
    std::vector<int> ext = D == 1 ? std::vector<int>{0, 1, 2, 3, 6} : D == 2 ? std::vector<int>{0, 1, 2, 4} : std::vector<int>{0, 1, 2, 3};
    if (c.thorough) ext.push_back(D == 3 ? 4 : 7);
    static const double ab[6][4] = {{1, 1, 1, 0}, {0.75, -1.5, -1, 1}, {0, 1.25, 0.5, -2}, {-2, 0, 1, 1}, {1, 0.5, 0, 3}, {0.5, 1, 2.5, 0}};
    for (auto& b : withlong<D>(boxes<D>(ext, org), c.thorough))
        for (int k = 0; k < 6; k++)
            for (int pat = 0; pat < 3; pat++) {
                for (int g = 1; g < 4; g++) {
                    if (!c.scenario()) continue;
                    int dxi = (k + pat + g) % 3;
                    FluxSys<D> s{b, g, {DXS[dxi][0], DXS[dxi][1], DXS[dxi][2]}};
                    auto ops = s.ops("node");
                    for (auto& o : ops) c.kinds.insert(fmt("%dD ", D) + o->label);
                    if (!c.explore(s.world(c.seed, pat), ops, 2, fmt("%dD node flux box %s gcw %d dx#%d data#%d", D, b.str().c_str(), g, dxi, pat))) return;
                }
                for (int gc = 0; gc < 16; gc++) {
                    if (!c.scenario()) continue;
                    int dxi = (k + gc) % 3;
                    ApplySys<D> s{b, gc & 1, (gc >> 1) & 1, (gc >> 2) & 1, gc >> 3, {DXS[dxi][0], DXS[dxi][1], DXS[dxi][2]}, ab[k][0], ab[k][1], ab[k][2], ab[k][3]};
                    auto ops = s.nodeops();
                    for (auto& o : ops) c.kinds.insert(fmt("%dD ", D) + o->label);
                    if (!c.explore(s.world(c.seed, pat), ops, 1, fmt("%dD node apply box %s ghosts#%d alpha %g beta %g a %g b %g dx#%d data#%d", D, b.str().c_str(), gc, ab[k][0], ab[k][1], ab[k][2], ab[k][3], dxi, pat))) return;
                }
                for (int ga = 0; ga < 2; ga++)
                    for (int gb = 0; gb < 2; gb++) {
                        if (!c.scenario()) continue;
                        Box ab_ = b.grow(ga), bb = b.grow(gb);
                        ab_.lo[0] -= ga;
                        bb.hi[D - 1] += gb;
                        int dxi = (k + ga + gb) % 3;
                        StSys<D> s{b, ab_, bb, 0, 1, {DXS[dxi][0], DXS[dxi][1], DXS[dxi][2]}};
                        auto ops = s.assembly(ab[k][0], ab[k][1]);
                        for (auto& o : ops) c.kinds.insert(fmt("%dD node ", D) + o->label.substr(0, o->label.find('(')));
                        if (!c.explore(s.world(c.seed, pat), ops, 2, fmt("%dD node stencil box %s abox+%d bbox+%d alpha %g beta %g dx#%d data#%d", D, b.str().c_str(), ga, gb, ab[k][0], ab[k][1], dxi, pat))) return;
                    }
            }
    for (auto& x : extremes<D>(c.thorough))
        for (auto& k : XAB) {
            if (!c.scenario()) continue;
            std::string lab = fmt("%dD node box %s case#%d dx %g,%g,%g alpha %g beta %g data#%d", D, x.b.str().c_str(), x.k, x.h()[0], x.h()[1], x.h()[2], k[0], k[1], x.pat);
            FluxSys<D> f{x.b, 1 + x.k % 2, {x.h()[0], x.h()[1], x.h()[2]}};
            if (!c.explore(f.world(c.seed, x.pat), f.ops("node"), 1, lab + " flux")) return;
            ApplySys<D> a{x.b, x.k & 1, 1, (x.k >> 1) & 1, x.k % 3, {x.h()[0], x.h()[1], x.h()[2]}, k[0], k[1], k[1], k[0]};
            if (!c.explore(a.world(c.seed, x.pat), a.nodeops(), 1, lab + " apply")) return;
            StSys<D> s{x.b, x.b.grow(x.k & 1), x.b.grow(x.k / 2 & 1), 0, 1, {x.h()[0], x.h()[1], x.h()[2]}};
            if (!c.explore(s.world(c.seed, x.pat), s.assembly(k[0], k[1]), 1, lab + " stencil")) return;
        }
}
void check(Ctx& c)
{
    c.bounds = "1-3D node kernels: flux and application on all small boxes and ghost widths; assembly histories of length 2; adjustments: "
               "every kernel x side x sub-segment x condition x order x ratio, all histories of length 2 (1D: 3) on full sides"
               "; unusual cases: boxes to 70001 cells long and 300x260, 41x37x33 cells, 10^6 from the origin, equal, tiny and huge spacings, zero, constant, tiny, huge data";
    dim<1>(c);
    dim<2>(c);
    dim<3>(c);
    adj::dim<1>(c);
    adj::dim<2>(c);
    adj::dim<3>(c);
}
int main(int argc, char** argv) { return core_main(argc, argv); }

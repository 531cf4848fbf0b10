// P14: ghost-cell boundary corrections
#include "ftn_decl.h"
#include "cd_correct_bc_1d_cuda.hpp"
#include "cd_correct_bc_2d_cuda.hpp"
#include "cd_correct_bc_3d_cuda.hpp"
#include "ops_bc.h"
template <int D> static bool one(Ctx& c, const Box& b, int dg, int ug, int k, int pat, int dpat, int sub, int depth)
{
    if (!c.scenario()) return true;
    using Sys = BcSys<D>;
    int dxi = (k + dg + ug + pat) % 3;
    Sys s{b, dg, ug, {DXS[dxi][0], DXS[dxi][1], DXS[dxi][2]}};
    static const std::vector<typename Sys::AB> abs_[3] = {{{1, 1}, {0.75, -0.5}}, {{-1.25, 2}, {1, 0}}, {{0, 1}, {0.5, 3}, {0, -2.5}}};
    std::vector<OpP> ops;
    s.all(ops, sub, abs_[k], {0, 1, 2});
    for (auto& o : ops) {
        auto p = o->label.find(" order");
        c.kinds.insert(fmt("%dD ", D) + o->label.substr(0, p == std::string::npos ? o->label.find(" seg") : p));
    }
    return c.explore(s.world(c.seed, pat, dpat), ops, depth,
                     fmt("%dD box %s dgcw %d ugcw %d par#%d dx#%d data#%d/%d", D, b.str().c_str(), dg, ug, k, dxi, pat, dpat));
}
template <int D> static void dim(Ctx& c)
{
    for (auto& x : extremes<D>(c.thorough)) {
        if (!c.scenario()) continue;
        using Sys = BcSys<D>;
        Sys s{x.b, x.k % 3, 1 + x.k % 2, {x.h()[0], x.h()[1], x.h()[2]}};
        std::vector<OpP> ops;
        s.all(ops, 0, {{1, 1}, {1, -1}, {0x1p-10, 4}, {0, 3}, {2, 0}, {1.5, 1.5}}, {0, 1, 2});
        if (!c.explore(s.world(c.seed, x.pat, x.k % 2 ? POSITIVE : x.k % 4 ? TINY : LARGE), ops, 1,
                       fmt("%dD box %s dgcw %d ugcw %d dx %g,%g,%g data#%d", D, x.b.str().c_str(), s.dg, s.ug, s.dx[0], s.dx[1], s.dx[2], x.pat))) return;
    }
    std::vector<std::vector<int>> org = {{0, 0, 0}, {-3, 2, -1}};
    std::vector<int> e = D == 1 ? std::vector<int>{1, 2, 3, 5} : std::vector<int>{1, 2, 3};
    if (D == 2) e.push_back(4);
    if (c.thorough) e.push_back(D == 3 ? 4 : 6);
    for (auto& b : boxes<D>(e, org))
        for (int dg = 0; dg < 3; dg++)
            for (int ug = 1; ug < 4; ug++)
                for (int k = 0; k < 3; k++)
                    for (int pat = 0; pat < (c.thorough ? 2 : 1); pat++)
                        for (int sub : {1, 2}) {
                            // quick: the ghost widths are not all combined with every box in three dimensions
                            if (D == 3 && !c.thorough && (dg + ug + k) % 3) continue;
#ifdef SCHED
                            if (D == 2 && !c.thorough && (dg + ug + k) % 3) continue;
#endif
                            if (!one<D>(c, b, dg, ug, k, pat, (k + pat) % 2 ? SIGNED : POSITIVE, sub, 1)) return;
                        }
    for (auto& b : longboxes<D>(c.thorough))
        for (int k = 0; k < 3; k++)
            for (int sub : {0, 2})
                if (!one<D>(c, b, k, 1 + 2 * k, k, k % 2, SIGNED, sub, 1)) return;
    // histories: a later call reads what an earlier one wrote
    std::vector<int> e2 = D == 3 ? std::vector<int>{1, 2} : std::vector<int>{1, 2, 3};
    for (auto& b : boxes<D>(e2, {{-1, 0, 1}}))
        for (int ug = 1; ug < (D == 3 ? 2 : 3); ug++)
            if (!one<D>(c, b, 0, ug, 0, SIGNED, POSITIVE, 0, D == 1 ? 4 : D == 2 && c.thorough ? 3 : 2)) return;
}
void check(Ctx& c)
{
    c.bounds = "1-3D: every face/edge/corner/node x sub-segment x condition x order x Robin pair on small boxes, ghost widths 0-2/1-3; "
               "segments exceeding the box; all histories of length 2 (1D: 4; thorough 2D: 3) on full sides, empty and disjoint segments"
               "; unusual cases: boxes to 70001 cells long and 300x260, 41x37x33 cells, 10^6 from the origin, equal, tiny and huge spacings, zero, constant, tiny, huge data";
    dim<1>(c);
    dim<2>(c);
    dim<3>(c);
}
int main(int argc, char** argv) { return core_main(argc, argv); }

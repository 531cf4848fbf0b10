// P15: coarse-to-fine copies and linear extrapolation
#include "ftn_decl.h"
#include "coarse_to_fine_cuda.hpp"
#include "cd_correct_bc_1d_cuda.hpp"
#include "cd_correct_bc_2d_cuda.hpp"
#include "cd_correct_bc_3d_cuda.hpp"
#include "ops_bc.h"
static int fdiv(int a, int b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
static const int CF = 0, FF = 1;
static void copy_scen(Ctx& c, const Box& fb, const int* ratio, int gcw, int coff, int depth, bool sublines)
{
    if (!c.scenario()) return;
    Box cb;
    cb.D = 3;
    // covering coarse box, with room on chosen sides so that the two boxes differ in shape
    for (int q = 0; q < 3; q++) {
        cb.lo[q] = fdiv(fb.lo[q], ratio[q]) - (q == coff % 3);
        cb.hi[q] = fdiv(fb.hi[q], ratio[q]) + ((q + 1) % 3 == coff % 3);
    }
    World w;
    w.f.push_back(cellField("coarse", cb, gcw));
    w.f.push_back(cellField("fine", fb, gcw));
    fill(w.f[0], c.seed * 71 + gcw, SIGNED);
    fill(w.f[1], c.seed * 71 + 99, SIGNED);
    std::vector<OpP> ops;
    Box cg = cb.grow(gcw), fg = fb.grow(gcw);
    struct R {
        int v[3];
    };
    R ra{{ratio[0], ratio[1], ratio[2]}};
    for (int axis = 0; axis < 3; axis++) {
        int p = (axis + 1) % 3, q = (axis + 2) % 3;
        // lines: a few transverse positions of the fine and the coarse line
        for (int fp : {fg.lo[p], fb.lo[p], fg.hi[p]})
            for (int fq : {fg.lo[q], fb.hi[q]})
                for (int cp_ : {cg.lo[p], cg.hi[p]})
                    for (int cq : {cg.lo[q], cb.lo[q]})
                        for (int a = fg.lo[axis]; a <= fg.hi[axis]; a++)
                            for (int b = a - 1; b <= fg.hi[axis]; b++) {
                                if (!sublines && !(a == fb.lo[axis] && b == fb.hi[axis])) continue;
                                if (fdiv(a, ratio[axis]) < cg.lo[axis] || fdiv(b, ratio[axis]) > cg.hi[axis]) continue;
                                Box fl = fb, cl = cb;
                                fl.lo[axis] = a, fl.hi[axis] = b;
                                fl.lo[p] = fl.hi[p] = fp, fl.lo[q] = fl.hi[q] = fq;
                                cl.lo[axis] = fdiv(a, ratio[axis]), cl.hi[axis] = fdiv(b, ratio[axis]);
                                cl.lo[p] = cl.hi[p] = cp_, cl.lo[q] = cl.hi[q] = cq;
                                ops.push_back(mkop(
                                    fmt("copy axis %d fine %s coarse %s", axis, fl.str().c_str(), cl.str().c_str()), 7,
                                    [=](World& w) {
                                        for (int f = a; f <= b; f++) {
                                            int x[3], y[3];
                                            x[axis] = f, x[p] = fp, x[q] = fq;
                                            y[axis] = fdiv(f, ra.v[axis]), y[p] = cp_, y[q] = cq;
                                            w[FF].set(x, w[CF].get(y));
                                        }
                                    },
                                    [=](auto tag, auto& p) {
                                        const int* ratio = ra.v;
                                        if constexpr (decltype(tag)::isf)
                                            fcall((void (*)())copycoarsetofine3d_, AP3(cl), AP3(fl), axis, AP3(cb), AP3(fb), gcw, ratio, p(CF), p(FF));
                                        else
                                            coarse_to_fine<TT>::copy(AP3(cl), AP3(fl), axis, AP3(cb), AP3(fb), gcw, ratio, p(CF), p(FF));
                                    }));
                            }
    }
    if (depth == 1)
        forbox(fg, [&](const int* x) {
            for (int k = 0; k < 2; k++) {
                Box fl = fb, cl = cb;
                for (int q = 0; q < 3; q++) {
                    fl.lo[q] = fl.hi[q] = x[q];
                    cl.lo[q] = cl.hi[q] = k ? std::max(cg.lo[q], cg.hi[q] - (x[q] & 1)) : std::min(cg.hi[q], cg.lo[q] + ((x[q] + q) & 1));
                }
                ops.push_back(mkop(fmt("corner fine %s coarse %s", fl.str().c_str(), cl.str().c_str()), 7,
                                   [=](World& w) { w[FF].set(fl.lo, w[CF].get(cl.lo)); },
                                   [=](auto tag, auto& p) {
                                       if constexpr (decltype(tag)::isf)
                                           fcall((void (*)())copycoarsetofinecorner3d_, AP3(cl), AP3(fl), AP3(cb), AP3(fb), gcw, p(CF), p(FF));
                                       else
                                           coarse_to_fine<TT>::copy_corner(AP3(cl), AP3(fl), AP3(cb), AP3(fb), gcw, p(CF), p(FF));
                                   }));
            }
        });
    c.kinds.insert("copy x/y/z");
    c.kinds.insert("copy corner");
    c.explore(w, ops, depth, fmt("fine box %s ratio %d,%d,%d gcw %d coarse box %s", fb.str().c_str(), ratio[0], ratio[1], ratio[2], gcw, cb.str().c_str()));
}
static void extrap_scen(Ctx& c, const Box& b, int gcw, int sub, int depth)
{
    if (!c.scenario()) return;
    BcSys<3> s{b, 0, gcw, {1, 1, 1}};
    World w;
    w.f.push_back(cellField("u", b, gcw));
    fill(w.f[0], c.seed * 37, SIGNED);
    std::vector<OpP> ops;
    using Seg = BcSys<3>::Seg;
    auto add = [&](const Seg& g, int face, int type) {
        c.kinds.insert(fmt("extrapolate type %d face %d", type, face));
        ops.push_back(mkop(
            fmt("linearextrap type %d face %d seg %s", type, face, BcSys<3>::sstr(g).c_str()), 4,
            [=](World& w) {
                if (type == 2) s.m_type2(w, g, face, false);
                else if (type == 3) s.m_type3(w, g, face);
                else {
                    int dir = face / 2, side = face % 2, in = side ? -1 : 1;
                    int lo[3], hi[3];
                    for (int q = 0; q < 3; q++) lo[q] = g.lo[q], hi[q] = g.hi[q];
                    lo[dir] = hi[dir] = side ? g.hi[dir] : g.lo[dir];
                    forbox(lo, hi, [&](const int* x) {
                        int y[3] = {x[0], x[1], x[2]}, z[3] = {x[0], x[1], x[2]};
                        y[dir] += in;
                        z[dir] += 2 * in;
                        w[0].set(x, Num(2.0) * w[0].get(y) - w[0].get(z));
                    });
                }
            },
            [=](auto tag, auto& p) {
                const int *sl = g.lo, *sh = g.hi;
                auto& b = s.box;
                int gcw = s.ug;
                fcall((void (*)())linearextrap_, AP3(b), gcw, p(0), sl, sh, face, type);
            }));
    };
    static const int AX[3][3] = {{0, 1, 2}, {0, 2, 1}, {1, 2, 0}};
    for (int face = 0; face < 6; face++) {
        int at[3];
        for (int q = 0; q < 3; q++) at[q] = face % 2 ? b.hi[q] + 1 : b.lo[q] - 1;
        s.segs(sub, {face / 2}, at, [&](const Seg& g) { add(g, face, 1); });
    }
    for (int face = 0; face < 12; face++) {
        const int* ax = AX[face / 4];
        int at[3];
        for (int q = 0; q < 3; q++) at[q] = b.lo[q] - 1;
        at[ax[0]] = face % 2 ? b.hi[ax[0]] + 1 : b.lo[ax[0]] - 1;
        at[ax[1]] = face % 4 < 2 ? b.lo[ax[1]] - 1 : b.hi[ax[1]] + 1;
        // the last four edges run along x; their face numbers order the signs of (y, z)
        s.segs(sub, {ax[0], ax[1]}, at, [&](const Seg& g) { add(g, face, 2); });
    }
    for (int face = 0; face < 8; face++) {
        Seg g;
        for (int q = 0; q < 3; q++) {
            int up = q == 0 ? face % 2 : q == 1 ? (face / 2) % 2 : face / 4;
            g.lo[q] = g.hi[q] = up ? b.hi[q] + 1 : b.lo[q] - 1;
        }
        add(g, face, 3);
    }
    c.explore(w, ops, depth, fmt("extrapolate box %s gcw %d", b.str().c_str(), gcw));
}
void check(Ctx& c)
{
    c.bounds = "fine boxes of extent 1-4 at aligned, unaligned and negative positions, ratios 1-4 (different per axis), ghost widths "
               "0-2, every sub-line and corner; every extrapolation face/edge/node and sub-segment; histories of length 2"
               "; unusual cases: boxes to 70001 cells long and 300x260, 41x37x33 cells, 10^6 from the origin, equal, tiny and huge spacings, zero, constant, tiny, huge data";
    static const int RA[][3] = {{2, 2, 2}, {2, 3, 4}, {4, 2, 3}, {3, 4, 2}, {1, 2, 5}};
    std::vector<int> e = c.thorough ? std::vector<int>{1, 2, 3, 5} : std::vector<int>{1, 3};
    for (auto& ra : RA)
        for (auto& fb : boxes<3>(e, {{0, 0, 0}, {-5, 1, -2}, {3, -4, -1}}))
            for (int g = 0; g < 3; g++) {
                copy_scen(c, fb, ra, g, fb.lo[0] + fb.hi[1] + g + 9, 1, true);
                if (c.bad) return;
            }
    for (auto& ra : RA)
        for (auto& fb : boxes<3>({2, 4}, {{-3, 0, 1}})) {
            copy_scen(c, fb, ra, 1, 1, 2, false);
            if (c.bad) return;
        }
    for (auto& fb : longboxes<3>(c.thorough)) {
        copy_scen(c, fb, RA[1], 1, fb.lo[0] + 30, 1, false);
        copy_scen(c, fb, RA[4], 4, fb.lo[1] + 30, 1, false);
        extrap_scen(c, fb, 5, 0, 1);
        if (c.bad) return;
    }
    for (auto& x : extremes<3>(c.thorough)) { // far origins, big boxes, ratios that do not divide anything
        static const int RX[3][3] = {{7, 16, 3}, {64, 2, 5}, {2, 1, 100}};
        if (x.dx < 3 || x.k > 90) copy_scen(c, x.b, RX[x.k % 3], x.k % 3, 30 + x.k, 1, false);
        if (x.dx < 2 || x.k > 90) extrap_scen(c, x.b, 1 + x.k % 3, 0, 1);
        if (c.bad) return;
    }
    for (auto& b : boxes<3>({1, 2, 3}, {{0, 0, 0}, {-3, 2, -1}}))
        for (int g = 1; g < 4; g++) {
            extrap_scen(c, b, g, 1, 1);
            if (c.bad) return;
        }
    for (auto& b : boxes<3>({1, 2}, {{-1, 0, 1}})) {
        extrap_scen(c, b, 1, 0, c.thorough ? 3 : 2);
        if (c.bad) return;
    }
}
int main(int argc, char** argv) { return core_main(argc, argv); }

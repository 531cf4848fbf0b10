// P18: stencil application and right-hand-side elimination
#include "ftn_decl.h"
#include "offs.h"

template <int D> struct App {
    Box box;
    int fg, ug, rg;
    double a, b;
    Offs o;
    static constexpr int S = 0, F = 1, U = 2, R = 3;
    World world(uint64_t seed, int pat) const
    {
        World w;
        w.f.push_back(stencilField("stencil", box, 0, o.n));
        w.f.push_back(cellField("f", box, fg));
        w.f.push_back(cellField("u", box, ug));
        w.f.push_back(cellField("r", box, rg));
        for (size_t k = 0; k < 4; k++) fill(w.f[k], seed * 31 + k, pat);
        return w;
    }
    Num entry(const World& w, const int* x, int s) const
    {
        int y[3] = {x[0] + o.at(D, s, 0), x[1] + o.at(D, s, 1), x[2] + o.at(D, s, 2)};
        return w[S].get(x, s) * w[U].get(y);
    }
    Num apply(const World& w, const int* x) const
    {
        Num t = 0.0;
        for (int s = 0; s < o.n; s++) t = t + entry(w, x, s);
        return Num(b) * w[F].get(x) + Num(a) * t;
    }
#define LOC                                                                                                \
    const Box& bx = T_.box;                                                                                \
    int n = T_.o.n, fg = T_.fg, ug = T_.ug, rg = T_.rg;                                                    \
    double a = T_.a, b = T_.b;                                                                             \
    const int* of = T_.o.p();                                                                              \
    (void)n, (void)of, (void)fg, (void)ug, (void)rg, (void)a, (void)b;
    std::vector<OpP> ops(int noff, bool every) const
    {
        auto T_ = *this;
        std::vector<OpP> r;
        r.push_back(mkop("apply on patch", 4, [T_](World& w) { forbox(T_.box, [&](const int* x) { w[R].set(x, T_.apply(w, x)); }); }, [T_](auto tag, auto& p) {
            LOC
#define ARGS(d) AP##d(bx), n, of, p(S), a, b, fg, p(F), ug, p(U), rg, p(R)
            FALL(applystencilonpatch, ARGS)
#undef ARGS
        }));
        int k = 0, tot = (box.hi[0] - box.lo[0] + 1) * (D > 1 ? box.hi[1] - box.lo[1] + 1 : 1) * (D > 2 ? box.hi[2] - box.lo[2] + 1 : 1);
        forbox(box, [&](const int* x) {
            if (!every && k++ != tot / 2) return;
            int i = x[0], j = x[1], l = x[2];
            r.push_back(mkop(fmt("apply at point %d %d %d", i, j, l), 4, [=](World& w) {
                int y[3] = {i, j, l};
                w[R].set(y, T_.apply(w, y));
            }, [=](auto tag, auto& p) {
                LOC
#define PT1 i
#define PT2 i, j
#define PT3 i, j, l
#define ARGS(d) AP##d(bx), PT##d, n, of, p(S), a, b, fg, p(F), ug, p(U), rg, p(R)
                FALL(applystencilatpoint, ARGS)
#undef ARGS
            }));
        });
        if constexpr (D < 3)
            r.push_back(mkop(fmt("patch rhs adjustment, %d couplings", noff), 4, [T_, noff](World& w) {
                forbox(T_.box, [&](const int* x) {
                    Num t = w[F].get(x);
                    for (int s = 0; s < noff; s++) t = t + T_.entry(w, x, s);
                    w[F].set(x, t);
                });
            }, [T_, noff](auto tag, auto& p) {
                LOC
                (void)tag;
#define ARGS(d) FL##d(bx), noff, of, n, p(S), ug, p(U), fg, p(F)
                if constexpr (D == 1) fcall((void (*)())celladjustsystemrhspatch1d_, ARGS(1));
                else if constexpr (D == 2) fcall((void (*)())celladjustsystemrhspatch2d_, ARGS(2));
#undef ARGS
            }));
        return r;
    }
    // coarse-fine elimination: the segment is the layer just outside the patch; f has no ghosts here
    std::vector<OpP> elims(bool every) const
    {
        auto T_ = *this;
        std::vector<OpP> r;
        for (int d = 0; d < D; d++)
            for (int side = 0; side < 2; side++) {
                std::vector<std::pair<std::vector<int>, std::vector<int>>> segs;
                // every sub-segment (or only the full one)
                std::vector<std::vector<std::pair<int, int>>> iv(3);
                for (int q = 0; q < 3; q++)
                    for (int lo = box.lo[q]; lo <= box.hi[q]; lo++)
                        for (int hi = lo; hi <= box.hi[q]; hi++) {
                            if (q == d) { if (lo != box.lo[q] || hi != lo) continue; }
                            else if (q >= D) { if (lo != hi) continue; }
                            else if (!every && (lo != box.lo[q] || hi != box.hi[q])) continue;
                            int e = side ? box.hi[q] + 1 : box.lo[q] - 1;
                            if (q == d) iv[q].push_back({e, e});
                            else iv[q].push_back({lo, hi});
                        }
                for (auto& x0 : iv[0]) for (auto& x1 : iv[1]) for (auto& x2 : iv[2]) {
                    Box sg;
                    sg.D = D;
                    std::pair<int, int> xx[3] = {x0, x1, x2};
                    for (int q = 0; q < D; q++) sg.lo[q] = xx[q].first, sg.hi[q] = xx[q].second;
                    r.push_back(mkop(fmt("coarse-fine elimination dir %d side %d seg %s", d, side, sg.str().c_str()), 4, [=](World& w) {
                        Box cb = sg;
                        cb.lo[d] = cb.hi[d] = sg.lo[d] + 1 - 2 * side;
                        forbox(cb, [&](const int* x) {
                            Num t = w[F].get(x);
                            for (int s = 0; s < T_.o.n; s++)
                                if (T_.o.at(D, s, d) == 2 * side - 1) t = t - T_.entry(w, x, s);
                            w[F].set(x, t);
                        });
                    }, [=](auto tag, auto& p) {
                        LOC
                        int dir = d;
                        (void)dir;
#define ARGS(d) FL##d(bx), FL##d(sg), DR##d side, n, of, p(S), ug, p(U), p(F)
                        FALL(adjcellcrsfinebdryrhs, ARGS)
#undef ARGS
                    }));
                }
            }
        return r;
    }
};
template <int D> static void dim(Ctx& c)
{
    std::vector<int> ext = D == 1 ? std::vector<int>{0, 1, 2, 3, 6} : D == 2 ? std::vector<int>{0, 1, 2, 3, 5} : std::vector<int>{0, 1, 2, 3};
    if (c.thorough) ext.push_back(D == 3 ? 4 : 8);
    static const double ab[6][2] = {{1, 0}, {-1, 1}, {0.75, -2.5}, {0, 1}, {0, -2.5}, {2.5, 0}};
    auto tabs = tables<D>();
    for (auto& x : extremes<D>(c.thorough))
        for (size_t t = 0; t < tabs.size(); t++)
            for (auto& k : XAB) {
                if (x.dx % 4 != (int)t % 4 && x.dx != 7) continue;
                if (!c.scenario()) continue;
                int reach = 0;
                for (int e : tabs[t].v) reach = std::max(reach, std::abs(e));
                App<D> s{x.b, x.k % 3, reach + x.k % 2, x.k / 2 % 2, k[0], k[1], tabs[t]};
                std::string lab = fmt("%dD box %s offsets (%s) case#%d a %g b %g", D, x.b.str().c_str(), s.o.str(D).c_str(), x.k, s.a, s.b);
                c.explore(s.world(c.seed, x.pat), s.ops(tabs[t].n, false), 1, lab);
                if (reach > 1) continue;
                s.fg = 0, s.ug = 1 + x.k % 2;
                c.explore(s.world(c.seed, x.pat), s.elims(false), 1, lab);
            }
    for (auto& b : withlong<D>(boxes<D>(ext, {{0, 0, 0}, {-3, 2, -1}, {5, -4, 1}}), c.thorough))
        for (size_t t = 0; t < tabs.size(); t++) {
            int reach = 0;
            for (int x : tabs[t].v) reach = std::max(reach, std::abs(x));
            for (int g = 0; g < 27; g++) {
                for (int pat = 0; pat < 3; pat++) {
                    if (!c.scenario()) continue;
                    int q = (g + pat) % 6;
                    App<D> s{b, g % 3, reach + g / 3 % 3, g / 9, ab[q][0], ab[q][1], tabs[t]};
                    auto ops = s.ops(g % (tabs[t].n + 1), g == 13);
                    for (auto& o : ops) c.kinds.insert(fmt("%dD ", D) + o->label.substr(0, o->label.find_first_of("0123456789")));
                    c.explore(s.world(c.seed, pat), ops, g == 13 && !c.thorough ? 1 : 2, fmt("%dD box %s offsets (%s) fgcw %d ugcw %d rgcw %d a %g b %g data#%d", D, b.str().c_str(), s.o.str(D).c_str(), s.fg, s.ug, s.rg, s.a, s.b, pat));
                }
            }
            if (reach > 1 || b.empty()) continue; // the elimination kernels document compact stencils
            for (int ug = 1; ug < 4; ug++)
                for (int pat = 0; pat < 2; pat++)
                    for (int every = 0; every < 2; every++) {
                        if (!c.scenario()) continue;
                        App<D> s{b, 0, ug, 0, 1, 1, tabs[t]};
                        auto ops = s.elims(every);
                        c.kinds.insert(fmt("%dD coarse-fine elimination", D));
                        c.explore(s.world(c.seed, pat), ops, every ? 1 : 3, fmt("%dD box %s offsets (%s) gcw %d data#%d", D, b.str().c_str(), s.o.str(D).c_str(), ug, pat));
                    }
        }
}
void check(Ctx& c)
{
    c.bounds = "1-3D: every offset table (compact and wide, partial) x small box (negative, non-square, empty) x ghost widths x coefficients; at every "
               "point and on the patch; histories of length 2; elimination on every side and sub-segment, all histories of length 3 on full sides"
               "; unusual cases: boxes to 70001 cells long and 300x260, 41x37x33 cells, 10^6 from the origin, equal, tiny and huge spacings, zero, constant, tiny, huge data";
    dim<1>(c);
    dim<2>(c);
    dim<3>(c);
}
int main(int argc, char** argv) { return core_main(argc, argv); }

#pragma once
#include "cell.h"
// fields: u, b0.. , f0..
template <int D> struct FluxSys {
    Box box;
    int gcw;
    double dx[3];
    static constexpr int U = 0, B = 1, F = 1 + D;
    World world(uint64_t seed, int pat) const
    {
        World w;
        w.f.push_back(cellField("u", box, gcw));
        for (int d = 0; d < D; d++) w.f.push_back(faceField("b", box, d, 0));
        for (int d = 0; d < D; d++) w.f.push_back(faceField("flux", box, d, 0));
        for (size_t k = 0; k < w.f.size(); k++) fill(w.f[k], seed * 131 + k, k >= F ? SIGNED : pat);
        return w;
    }
    void model(World& w, bool poisson) const
    {
        for (int q = 0; q < D; q++)
            if (box.hi[q] < box.lo[q]) { /* faces of an empty extent may still exist in other directions */ }
        for (int d = 0; d < D; d++) {
            Box fb = box;
            fb.hi[d] += 1;
            forbox(fb, [&](const int* x) {
                int y[3] = {x[0], x[1], x[2]};
                y[d]--;
                Num g = (w[U].get(x) - w[U].get(y)) / Num(dx[d]);
                w[F + d].set(x, poisson ? g : w[B + d].get(x) * g);
            });
        }
    }
    std::vector<OpP> ops(const char* ftnflavour = "cell") const
    {
        auto S = *this;
        bool node = ftnflavour[0] == 'n';
        std::vector<OpP> r;
        if (!node) {
            r.push_back(mkop("flux", 7, [S](World& w) { S.model(w, false); }, [S](auto tag, auto& p) {
                TT dx[3] = {TT(S.dx[0]), TT(S.dx[1]), TT(S.dx[2])};
                auto& b = S.box;
                int gcw = S.gcw;
#define ARGS(d) FL##d(b), dx, FA##d(B), gcw, p(U), FA##d(F)
                KALL(cdf_, flux, celldiffusionflux, ARGS)
#undef ARGS
            }));
            r.push_back(mkop("poisson_flux", 7, [S](World& w) { S.model(w, true); }, [S](auto tag, auto& p) {
                TT dx[3] = {TT(S.dx[0]), TT(S.dx[1]), TT(S.dx[2])};
                auto& b = S.box;
                int gcw = S.gcw;
#define ARGS(d) FL##d(b), dx, gcw, p(U), FA##d(F)
                KALL(cdf_, poisson_flux, cellpoissonflux, ARGS)
#undef ARGS
            }));
        }
#ifdef WITH_NODE
        else {
            r.push_back(mkop("node flux", 4, [S](World& w) { S.model(w, false); }, [S](auto tag, auto& p) {
                TT dx[3] = {TT(S.dx[0]), TT(S.dx[1]), TT(S.dx[2])};
                auto& b = S.box;
                int gcw = S.gcw;
#define ARGS(d) FL##d(b), dx, FA##d(B), gcw, p(U), FA##d(F)
                FALL(nodediffusionflux, ARGS)
#undef ARGS
            }));
            r.push_back(mkop("node poisson flux", 4, [S](World& w) { S.model(w, true); }, [S](auto tag, auto& p) {
                TT dx[3] = {TT(S.dx[0]), TT(S.dx[1]), TT(S.dx[2])};
                auto& b = S.box;
                int gcw = S.gcw;
#define ARGS(d) FL##d(b), dx, gcw, p(U), FA##d(F)
                FALL(nodepoissonflux, ARGS)
#undef ARGS
            }));
        }
#endif
        return r;
    }
};

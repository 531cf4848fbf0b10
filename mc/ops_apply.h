#pragma once
#include "cell.h"
// fields: a, u, f, res, flux0..
enum ApplyKind { V1RES, V2RES, P1RES, V1APPLY, V2APPLY, P2APPLY };
template <int D> struct ApplySys {
    Box box;
    int ag, ug, fg, rg;
    double dx[3], alpha, beta, ca = 1, cb = 0; // ca, cb: combination coefficients of the node kernels
    static constexpr int A = 0, U = 1, R = 3, X = 4, F = 2;
    World world(uint64_t seed, int pat) const
    {
        World w;
        w.f.push_back(cellField("a", box, ag));
        w.f.push_back(cellField("u", box, ug));
        w.f.push_back(cellField("f", box, fg));
        w.f.push_back(cellField("res", box, rg));
        for (int d = 0; d < D; d++) w.f.push_back(faceField("flux", box, d, 0));
        for (size_t k = 0; k < w.f.size(); k++) fill(w.f[k], seed * 131 + k, k == R ? SIGNED : pat);
        return w;
    }
    Num L(const World& w, const int* x, int react) const // react: 0 none, 1 alpha*u, 2 alpha*a*u
    {
        Num div = 0.0;
        for (int d = 0; d < D; d++) {
            int y[3] = {x[0], x[1], x[2]};
            y[d]++;
            div = div + (w[X + d].get(y) - w[X + d].get(x)) / Num(dx[d]);
        }
        Num r = -(Num(beta) * div);
        if (react == 1) r = r + Num(alpha) * w[U].get(x);
        if (react == 2) r = r + Num(alpha) * w[A].get(x) * w[U].get(x);
        return r;
    }
    void model(World& w, ApplyKind k) const
    {
        forbox(box, [&](const int* x) {
            int react = k == V1RES || k == V1APPLY ? 2 : k == V2RES || k == V2APPLY ? 1 : 0;
            Num l = L(w, x, react);
            bool res = k == V1RES || k == V2RES || k == P1RES;
            w[R].set(x, res ? w[F].get(x) - l : l);
        });
    }
    void nodemodel(World& w, int react) const
    {
        forbox(box, [&](const int* x) {
            w[R].set(x, Num(cb) * w[F].get(x) + Num(ca) * L(w, x, react));
        });
    }
#define APPLY_LOCALS                                                                                       \
    TT dx[3] = {TT(S.dx[0]), TT(S.dx[1]), TT(S.dx[2])};                                                    \
    TT alpha = S.alpha, beta = S.beta, ca = S.ca, cb = S.cb;                                               \
    (void)alpha, (void)ca, (void)cb;                                                                       \
    auto& b = S.box;                                                                                       \
    int ag = S.ag, ug = S.ug, fg = S.fg, rg = S.rg;                                                        \
    (void)ag, (void)ug, (void)fg, (void)rg;
    std::vector<OpP> ops() const
    {
        auto S = *this;
        std::vector<OpP> r;
#define ADD(kind, label, cfn, ffn)                                                                         \
    r.push_back(mkop(label, 7, [S](World& w) { S.model(w, kind); }, [S](auto tag, auto& p) {               \
        APPLY_LOCALS                                                                                       \
        KALL(cd_apply_, cfn, ffn, ARGS)                                                                    \
    }));
#define ARGS(d) AP##d(b), alpha, beta, dx, ag, p(A), ug, p(U), fg, p(F), FA##d(X), rg, p(R)
        ADD(V1RES, "v1_res", diffusion_v1_res, celldiffusionv1res)
#undef ARGS
#define ARGS(d) AP##d(b), alpha, beta, dx, ug, p(U), fg, p(F), FA##d(X), rg, p(R)
        ADD(V2RES, "v2_res", diffusion_v2_res, celldiffusionv2res)
#undef ARGS
#define ARGS(d) AP##d(b), beta, dx, fg, p(F), FA##d(X), rg, p(R)
        ADD(P1RES, "poisson_res", poisson_v1_res, cellpoissonv1res)
#undef ARGS
#define ARGS(d) AP##d(b), alpha, beta, dx, ag, p(A), ug, p(U), FA##d(X), rg, p(R)
        ADD(V1APPLY, "v1_apply", diffusion_v1_apply, celldiffusionv1apply)
#undef ARGS
#define ARGS(d) AP##d(b), alpha, beta, dx, ug, p(U), FA##d(X), rg, p(R)
        ADD(V2APPLY, "v2_apply", diffusion_v2_apply, celldiffusionv2apply)
#undef ARGS
#define ARGS(d) AP##d(b), beta, dx, FA##d(X), rg, p(R)
        ADD(P2APPLY, "poisson_apply", poisson_v2_apply, cellpoissonv2apply)
#undef ARGS
#undef ADD
        return r;
    }
#ifdef WITH_NODE
    std::vector<OpP> nodeops() const
    {
        auto S = *this;
        std::vector<OpP> r;
#define ADD(react, label, ffn)                                                                             \
    r.push_back(mkop(label, 4, [S](World& w) { S.nodemodel(w, react); }, [S](auto tag, auto& p) {          \
        APPLY_LOCALS                                                                                       \
        FALL(ffn, ARGS)                                                                                    \
    }));
#define ARGS(d) AP##d(b), alpha, beta, dx, ag, p(A), ug, p(U), fg, p(F), FA##d(X), ca, cb, rg, p(R)
        ADD(2, "node v1_apply", nodediffusionv1apply)
#undef ARGS
#define ARGS(d) AP##d(b), alpha, beta, dx, ug, p(U), fg, p(F), FA##d(X), ca, cb, rg, p(R)
        ADD(1, "node v2_apply", nodediffusionv2apply)
#undef ARGS
#define ARGS(d) AP##d(b), beta, dx, fg, p(F), FA##d(X), ca, cb, rg, p(R)
        ADD(0, "node poisson_apply", nodepoissonapply)
#undef ARGS
#undef ADD
        return r;
    }
#endif
};

#pragma once
#include "cell.h"
// fields: a, stencil, u, rhs, b0..
template <int D> struct StSys {
    Box box;          // patch
    Box abox, bbox;   // boxes of the a and b arrays (the adjustment kernels use b on the patch itself)
    int sg, ug;
    double dx[3];
    bool node = false;
    static constexpr int A = 0, S = 1, U = 2, RHS = 3, B = 4, W = 2 * D + 1;
    World world(uint64_t seed, int pat, bool withb = true) const
    {
        World w;
        w.f.push_back(cellField("a", abox, 0));
        w.f.push_back(stencilField("stencil", box, sg, W));
        w.f.push_back(cellField("u", box, ug));
        w.f.push_back(cellField("rhs", box, 0));
        for (int d = 0; d < D; d++) w.f.push_back(faceField("b", bbox, d, 0));
        for (size_t k = 0; k < w.f.size(); k++) fill(w.f[k], seed * 131 + k, pat);
        return w;
    }
    // ---- assembly -----------------------------------------------------------------------------
    void m_offdiag(World& w, double beta, bool poisson) const
    {
        forbox(box, [&](const int* x) {
            for (int d = 0; d < D; d++)
                for (int s = 0; s < 2; s++) {
                    int y[3] = {x[0], x[1], x[2]};
                    y[d] += s;
                    Num c = -(Num(beta) / (Num(dx[d]) * Num(dx[d])));
                    w[S].set(x, 1 + 2 * d + s, poisson ? c : c * w[B + d].get(y));
                }
        });
    }
    void m_diag(World& w, double alpha, int kind) const // 0 poisson, 1 alpha, 2 alpha*a
    {
        forbox(box, [&](const int* x) {
            Num t = 0.0;
            for (int q = 1; q < W; q++) t = t + w[S].get(x, q);
            Num r = -t;
            if (kind == 1) r = r + Num(alpha);
            if (kind == 2) r = r + Num(alpha) * w[A].get(x);
            w[S].set(x, 0, r);
        });
    }
    // ---- adjustments --------------------------------------------------------------------------
    struct Seg {
        int dir, side;
        int lo[3], hi[3]; // segment box given to the kernel (the layer just outside the patch)
    };
    template <class F> void along(const Seg& g, int shift, F f) const
    {
        int lo[3], hi[3];
        for (int q = 0; q < 3; q++) lo[q] = g.lo[q], hi[q] = g.hi[q];
        lo[g.dir] = hi[g.dir] = g.lo[g.dir] + shift;
        forbox(lo, hi, f);
    }
    Num bface(const World& w, const Seg& g, const int* x) const // coefficient on the boundary face next to cell x
    {
        int y[3] = {x[0], x[1], x[2]};
        y[g.dir] = g.lo[g.dir] - g.side + 1;
        return w[B + g.dir].get(y);
    }
    void m_adj_diag(World& w, const Seg& g, int btype, int ex, double beta, bool poisson) const
    {
        Num h = dx[g.dir], be = beta;
        if (ex != 2) return;
        if (btype == 4 && (D != 2 || g.dir == 0)) // in two dimensions only x boundaries are adjusted
            along(g, 1 - 2 * g.side, [&](const int* x) {
                Num b = poisson ? Num(1.0) : bface(w, g, x);
                Num f = poisson ? be / h : be * b / h;
                w[S].set(x, 0, w[S].get(x, 0) - f * (Num(3.0) * h + Num(16.0) * b));
            });
        if (btype == 0 && D != 1 && !(D == 2 && poisson)) // one dimension and 2D Poisson leave the diagonal alone
            along(g, 1 - 2 * g.side, [&](const int* x) {
                Num b = poisson ? Num(1.0) : bface(w, g, x);
                w[S].set(x, 0, w[S].get(x, 0) + be * b / (Num(3.0) * h * h));
            });
    }
    void m_adj_cf_diag(World& w, const Seg& g, int r, int order, double beta, bool poisson) const
    {
        if (order != 1 && order != 2) return;
        Num h = dx[g.dir], be = beta;
        Num k = order == 1 ? Num(1.0) / Num(3.0) : Num(2.0 * (r - 1.0) / (r + 1.0));
        along(g, 1 - 2 * g.side, [&](const int* x) {
            Num b = poisson ? Num(1.0) : bface(w, g, x);
            w[S].set(x, 0, w[S].get(x, 0) - k * be * b / (h * h));
        });
    }
    void m_adj_offdiag(World& w, const Seg& g, int btype, int ex, double dirf, double neuf, double beta, bool poisson) const
    {
        (void)neuf;
        Num h = dx[g.dir], be = beta;
        int u = 2 * g.dir + 1 + g.side, v = 2 * g.dir + 2 - g.side;
        if (btype == 4 && D == 2 && g.dir != 0) return;
        along(g, 1 - 2 * g.side, [&](const int* x) {
            Num su = w[S].get(x, u), sv = w[S].get(x, v);
            if (btype == 4) {
                Num b = poisson ? Num(1.0) : bface(w, g, x);
                if (ex == 1) w[S].set(x, u, su * (Num(2.0) * h / (Num(4.0) * b + h)));
                if (ex == 2) {
                    Num f = be * b / (h * (Num(3.0) * h + Num(16.0) * b));
                    w[S].set(x, u, Num(-9.0) * f);
                    w[S].set(x, v, sv - f);
                }
            } else if (btype == 0) {
                if (ex == 1) w[S].set(x, u, su * Num(dirf));
                if (ex == 2) {
                    w[S].set(x, v, sv + su / Num(3.0));
                    w[S].set(x, u, su * Num(8.0 / 3.0));
                }
            } else if (btype == 1) w[S].set(x, u, 0.0);
        });
    }
    void m_adj_cf_offdiag(World& w, const Seg& g, int r, int order) const
    {
        int u = 2 * g.dir + 1 + g.side, v = 2 * g.dir + 2 - g.side;
        along(g, 1 - 2 * g.side, [&](const int* x) {
            Num su = w[S].get(x, u), sv = w[S].get(x, v);
            if (order == 1) w[S].set(x, u, su * Num(2.0 / 3.0));
            if (order == 2) {
                w[S].set(x, v, sv - su * Num((r - 1.0) / (r + 3.0)));
                w[S].set(x, u, su * Num(8.0 / ((r + 1.0) * (r + 3.0))));
            }
        });
    }
    void m_readj(World& w, const Seg& g) const
    {
        along(g, 1 - 2 * g.side, [&](const int* x) { w[S].set(x, 2 * g.dir + 1 + g.side, 0.0); });
    }
    void m_bdryrhs(World& w, const Seg& g) const
    {
        along(g, 1 - 2 * g.side, [&](const int* x) {
            int y[3] = {x[0], x[1], x[2]};
            y[g.dir] += 2 * g.side - 1;
            w[RHS].set(x, w[RHS].get(x) - w[S].get(x, 2 * g.dir + 1 + g.side) * w[U].get(y));
        });
    }

    // ---- operations ---------------------------------------------------------------------------
#define ST_LOCALS                                                                                          \
    TT dx[3] = {TT(T_.dx[0]), TT(T_.dx[1]), TT(T_.dx[2])};                                                 \
    (void)dx;                                                                                              \
    auto& b = T_.box;                                                                                      \
    int sg = T_.sg;                                                                                        \
    (void)sg;
#ifdef WITH_NODE
// Fortran only, no stencil ghost width
#define STCALL(cfn, ffn, nfn, ARGS, NARGS) FALL(nfn, NARGS)
#define ST_IMPLS 4
#else
#define STCALL(cfn, ffn, nfn, ARGS, NARGS) KALL(cd_stencil_, cfn, ffn, ARGS)
#define ST_IMPLS 7
#endif
    std::vector<OpP> assembly(double alpha, double beta) const
    {
        auto T_ = *this;
        std::vector<OpP> r;
        r.push_back(mkop(fmt("offdiag(beta=%g)", beta), ST_IMPLS, [=](World& w) { T_.m_offdiag(w, beta, false); },
                         [=](auto tag, auto& p) {
                             ST_LOCALS
                             auto& c = T_.bbox;
                             TT be = beta;
#define ARGS(d) FL##d(b), FL##d(c), dx, be, FA##d(B), sg, p(S)
#define NARGS(d) FL##d(b), FL##d(c), dx, be, FA##d(B), p(S)
                             STCALL(offdiag, celldiffusionoffdiag, nodediffusionoffdiag, ARGS, NARGS)
#undef ARGS
#undef NARGS
                         }));
        r.push_back(mkop(fmt("poisson_offdiag(beta=%g)", beta), ST_IMPLS, [=](World& w) { T_.m_offdiag(w, beta, true); },
                         [=](auto tag, auto& p) {
                             ST_LOCALS
                             TT be = beta;
#define ARGS(d) FL##d(b), dx, be, sg, p(S)
#define NARGS(d) FL##d(b), dx, be, p(S)
                             STCALL(poisson_offdiag, cellpoissonoffdiag, nodepoissonoffdiag, ARGS, NARGS)
#undef ARGS
#undef NARGS
                         }));
        r.push_back(mkop(fmt("v1diag(alpha=%g)", alpha), ST_IMPLS, [=](World& w) { T_.m_diag(w, alpha, 2); },
                         [=](auto tag, auto& p) {
                             ST_LOCALS
                             auto& c = T_.abox;
                             TT al = alpha;
#define ARGS(d) FL##d(b), FL##d(c), al, p(A), sg, p(S)
#define NARGS(d) FL##d(b), FL##d(c), al, p(A), p(S)
                             STCALL(v1diag, celldiffusionv1diag, nodediffusionv1diag, ARGS, NARGS)
#undef ARGS
#undef NARGS
                         }));
        r.push_back(mkop(fmt("v2diag(alpha=%g)", alpha), ST_IMPLS, [=](World& w) { T_.m_diag(w, alpha, 1); },
                         [=](auto tag, auto& p) {
                             ST_LOCALS
                             TT al = alpha;
#define ARGS(d) FL##d(b), al, sg, p(S)
#define NARGS(d) FL##d(b), al, p(S)
                             STCALL(v2diag, celldiffusionv2diag, nodediffusionv2diag, ARGS, NARGS)
#undef ARGS
#undef NARGS
                         }));
        r.push_back(mkop("poisson_diag", ST_IMPLS, [=](World& w) { T_.m_diag(w, 0, 0); },
                         [=](auto tag, auto& p) {
                             ST_LOCALS
#define ARGS(d) FL##d(b), sg, p(S)
#define NARGS(d) FL##d(b), p(S)
                             STCALL(poisson_diag, cellpoissondiag, nodepoissondiag, ARGS, NARGS)
#undef ARGS
#undef NARGS
                         }));
        return r;
    }
    std::string segstr(const Seg& g) const
    {
        std::string s = fmt("dir %d side %d seg", g.dir, g.side);
        for (int q = 0; q < D; q++) s += fmt("%s%d..%d", q ? "," : " ", g.lo[q], g.hi[q]);
        return s;
    }
    // every adjustment of one segment
    struct Par {
        double beta, dirf, neuf;
    };
    void adjust(std::vector<OpP>& r, const Seg& g, const Par& P, const std::vector<int>& ratios) const
    {
        auto T_ = *this;
        std::string ss = segstr(g);
#define SEGL                                                                                               \
    ST_LOCALS                                                                                              \
    auto& c = g;                                                                                           \
    int dir = g.dir, side = g.side;                                                                        \
    (void)dir;                                                                                             \
    TT be = P.beta, dirf = P.dirf, neuf = P.neuf;                                                          \
    (void)be, (void)dirf, (void)neuf;
        for (int btype : {0, 1, 4})
            for (int ex : {0, 1, 2}) {
                std::string lab = fmt("%s btype %d order %d", ss.c_str(), btype, ex);
                    r.push_back(mkop("adj_diag " + lab, ST_IMPLS,
                                     [=](World& w) { T_.m_adj_diag(w, g, btype, ex, P.beta, false); },
                                     [=](auto tag, auto& p) {
                                         SEGL
#define ARGS(d) FL##d(b), FL##d(c), DR##d side, btype, ex, dx, be, FA##d(B), sg, p(S)
#define NARGS(d) FL##d(b), FL##d(c), DR##d side, btype, ex, dx, be, FA##d(B), p(S)
                                         STCALL(adj_diag, adjcelldiffusiondiag, adjnodediffusiondiag, ARGS, NARGS)
#undef ARGS
#undef NARGS
                                     }));
                r.push_back(mkop("adj_poisson_diag " + lab, ST_IMPLS,
                                 [=](World& w) { T_.m_adj_diag(w, g, btype, ex, P.beta, true); },
                                 [=](auto tag, auto& p) {
                                     SEGL
#define ARGS(d) FL##d(b), FL##d(c), DR##d side, btype, ex, dx, be, sg, p(S)
#define NARGS(d) FL##d(b), FL##d(c), DR##d side, btype, ex, dx, be, p(S)
                                     STCALL(adj_poisson_diag, adjcellpoissondiag, adjnodepoissondiag, ARGS, NARGS)
#undef ARGS
#undef NARGS
                                 }));
                r.push_back(mkop("adj_offdiag " + lab, ST_IMPLS,
                                 [=](World& w) { T_.m_adj_offdiag(w, g, btype, ex, P.dirf, P.neuf, P.beta, false); },
                                 [=](auto tag, auto& p) {
                                     SEGL
#define ARGS(d) FL##d(b), FL##d(c), DR##d side, btype, ex, dx, dirf, neuf, be, FA##d(B), sg, p(S)
#define NARGS(d) FL##d(b), FL##d(c), DR##d side, btype, ex, dx, dirf, neuf, be, FA##d(B), p(S)
                                     STCALL(adj_offdiag, adjcelldiffusionoffdiag, adjnodediffusionoffdiag, ARGS, NARGS)
#undef ARGS
#undef NARGS
                                 }));
                r.push_back(mkop("adj_poisson_offdiag " + lab, ST_IMPLS,
                                 [=](World& w) { T_.m_adj_offdiag(w, g, btype, ex, P.dirf, P.neuf, P.beta, true); },
                                 [=](auto tag, auto& p) {
                                     SEGL
#define ARGS(d) FL##d(b), FL##d(c), DR##d side, btype, ex, dx, dirf, neuf, be, sg, p(S)
#define NARGS(d) FL##d(b), FL##d(c), DR##d side, btype, ex, dx, dirf, neuf, be, p(S)
                                     STCALL(adj_poisson_offdiag, adjcellpoissonoffdiag, adjnodepoissonoffdiag, ARGS, NARGS)
#undef ARGS
#undef NARGS
                                 }));
            }
        for (int ra : ratios)
            for (int order : {0, 1, 2}) {
                std::string lab = fmt("%s ratio %d order %d", ss.c_str(), ra, order);
                r.push_back(mkop("adj_cf_diag " + lab, ST_IMPLS,
                                 [=](World& w) { T_.m_adj_cf_diag(w, g, ra, order, P.beta, false); },
                                 [=](auto tag, auto& p) {
                                     SEGL
#define ARGS(d) FL##d(b), FL##d(c), ra, DR##d side, order, dx, be, FA##d(B), sg, p(S)
#define NARGS(d) FL##d(b), FL##d(c), ra, DR##d side, order, dx, be, FA##d(B), p(S)
                                     STCALL(adj_cf_diag, adjcelldiffusioncfdiag, adjnodediffusioncfdiag, ARGS, NARGS)
#undef ARGS
#undef NARGS
                                 }));
                r.push_back(mkop("adj_poisson_cf_diag " + lab, ST_IMPLS,
                                 [=](World& w) { T_.m_adj_cf_diag(w, g, ra, order, P.beta, true); },
                                 [=](auto tag, auto& p) {
                                     SEGL
#define ARGS(d) FL##d(b), FL##d(c), ra, DR##d side, order, dx, be, sg, p(S)
#define NARGS(d) FL##d(b), FL##d(c), ra, DR##d side, order, dx, be, p(S)
                                     STCALL(adj_poisson_cf_diag, adjcellpoissoncfdiag, adjnodepoissoncfdiag, ARGS, NARGS)
#undef ARGS
#undef NARGS
                                 }));
                r.push_back(mkop("adj_cf_offdiag " + lab, ST_IMPLS, [=](World& w) { T_.m_adj_cf_offdiag(w, g, ra, order); },
                                 [=](auto tag, auto& p) {
                                     SEGL
#define ARGS(d) FL##d(b), FL##d(c), ra, DR##d side, order, sg, p(S)
#define NARGS(d) FL##d(b), FL##d(c), ra, DR##d side, order, p(S)
                                     STCALL(adj_cf_offdiag, adjcelldiffusioncfoffdiag, adjnodediffusioncfoffdiag, ARGS, NARGS)
#undef ARGS
#undef NARGS
                                 }));
            }
        r.push_back(mkop("readj_offdiag " + ss, ST_IMPLS, [=](World& w) { T_.m_readj(w, g); },
                         [=](auto tag, auto& p) {
                             SEGL
#define ARGS(d) FL##d(b), FL##d(c), DR##d side, sg, p(S)
#define NARGS(d) FL##d(b), FL##d(c), DR##d side, p(S)
                             STCALL(readj_offdiag, readjcelldiffusionoffdiag, readjnodediffusionoffdiag, ARGS, NARGS)
#undef ARGS
#undef NARGS
                         }));
        r.push_back(mkop("adj_cf_bdryrhs " + ss, ST_IMPLS, [=](World& w) { T_.m_bdryrhs(w, g); },
                         [=](auto tag, auto& p) {
                             SEGL
                             int ug = T_.ug;
#define ARGS(d) FL##d(b), FL##d(c), DR##d side, sg, p(S), ug, p(U), p(RHS)
#define NARGS(d) FL##d(b), FL##d(c), DR##d side, p(S), ug, p(U), p(RHS)
                             STCALL(adj_cf_bdryrhs, adjcelldiffusioncfbdryrhs, adjnodediffusioncfbdryrhs, ARGS, NARGS)
#undef ARGS
#undef NARGS
                         }));
    }
    // all segments of the patch boundary (full sides and every sub-segment)
    std::vector<Seg> segments(bool sub) const
    {
        std::vector<Seg> out;
        for (int d = 0; d < D; d++)
            for (int s = 0; s < 2; s++) {
                Seg g;
                g.dir = d;
                g.side = s;
                for (int q = 0; q < 3; q++) g.lo[q] = box.lo[q], g.hi[q] = box.hi[q];
                g.lo[d] = g.hi[d] = s ? box.hi[d] + 1 : box.lo[d] - 1;
                if (!sub) {
                    out.push_back(g);
                    continue;
                }
                // tangential sub-boxes
                int t[2], nt = 0;
                for (int q = 0; q < D; q++)
                    if (q != d) t[nt++] = q;
                auto rec = [&](auto&& self, int i) -> void {
                    if (i == nt) {
                        out.push_back(g);
                        return;
                    }
                    int q = t[i], L = box.lo[q], H = box.hi[q];
                    for (int a = L; a <= H; a++)
                        for (int b = a; b <= H; b++) {
                            g.lo[q] = a, g.hi[q] = b;
                            self(self, i + 1);
                        }
                    for (int e = 1; e <= 2; e++) { // no cells
                        g.lo[q] = H, g.hi[q] = H - e;
                        self(self, i + 1);
                    }
                    g.lo[q] = L, g.hi[q] = H;
                };
                rec(rec, 0);
            }
        return out;
    }
};

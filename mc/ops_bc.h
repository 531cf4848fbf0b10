#pragma once
#include "cell.h"
// fields: u, d0..
template <int D> struct BcSys {
    Box box;
    int dg, ug;
    double dx[3];
    static constexpr int U = 0, D0 = 1;
    struct Seg {
        int lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0};
    };
    World world(uint64_t seed, int pat, int dpat) const
    {
        World w;
        w.f.push_back(cellField("u", box, ug));
        for (int d = 0; d < D; d++) w.f.push_back(faceField("d", box, d, dg));
        fill(w.f[0], seed * 311, pat);
        for (size_t k = 1; k < w.f.size(); k++) fill(w.f[k], seed * 311 + k, dpat);
        return w;
    }
    // the plane of face f in segment s, and the tangential range
    void m_face(World& w, const Seg& s, int face, int btype, int ex, double alpha, double beta, bool poisson, bool clip) const
    {
        int dir = face / 2, side = face % 2, in = side ? -1 : 1;
        int lo[3], hi[3];
        for (int q = 0; q < 3; q++) {
            lo[q] = s.lo[q], hi[q] = s.hi[q];
            if (q < D && q != dir && clip) lo[q] = std::max(lo[q], box.lo[q]), hi[q] = std::min(hi[q], box.hi[q]);
        }
        lo[dir] = hi[dir] = side ? s.hi[dir] : s.lo[dir];
        if (poisson && btype == 4 && D == 2 && dir == 1) return;
        if (poisson && btype == 4 && D == 1) alpha = 2.0, beta = 1.0;
        if (ex == 0 && btype != 1 && (btype == 4 || D != 2 || poisson)) return;
        Num h = dx[dir], al = alpha, be = beta;
        forbox(lo, hi, [&](const int* x) {
            int y[3] = {x[0], x[1], x[2]}, z[3] = {x[0], x[1], x[2]}, f[3] = {x[0], x[1], x[2]};
            y[dir] += in;
            z[dir] += 2 * in;
            if (!side) f[dir] += 1;
            auto u1 = [&] { return w[U].get(y); };
            auto u2 = [&] { return w[U].get(z); };
            auto d = [&] { return poisson ? Num(1.0) : w[D0 + dir].get(f); };
            if (btype == 0) {
                if (ex == 0) w[U].set(x, 0.0);
                if (ex == 1) w[U].set(x, -u1());
                if (ex == 2) w[U].set(x, Num(-2.0) * u1() + u2() / Num(3.0));
            } else if (btype == 1) w[U].set(x, u1());
            else if (btype == 4) {
                if (ex == 1) {
                    Num k = Num(2.0) * al * d();
                    w[U].set(x, (k - h * be) / (k + h * be) * u1());
                }
                if (ex == 2) {
                    Num k = Num(8.0) * al * d(), q = k + Num(3.0) * be * h;
                    w[U].set(x, (k - Num(6.0) * be * h) / q * u1() + h / q * u2());
                }
            }
        });
    }
    // u = -diagonal + neighbour + neighbour in the plane of axes a, b with inward signs sa, sb
    void m_cross(World& w, const int* lo, const int* hi, int a, int sa, int b, int sb) const
    {
        forbox(lo, hi, [&](const int* x) {
            int p[3] = {x[0], x[1], x[2]}, q[3] = {x[0], x[1], x[2]}, r[3] = {x[0], x[1], x[2]};
            p[a] += sa, p[b] += sb;
            q[a] += sa;
            r[b] += sb;
            w[U].set(x, w[U].get(q) + w[U].get(r) - w[U].get(p));
        });
    }
    void m_type2(World& w, const Seg& s, int face, bool clip) const
    {
        int lo[3], hi[3];
        for (int q = 0; q < 3; q++) lo[q] = hi[q] = s.lo[q];
        int sa = face % 2 ? -1 : 1, sb = face % 4 < 2 ? 1 : -1;
        if constexpr (D == 2) {
            if (face % 2) lo[0] = hi[0] = s.hi[0];
            if (face / 2) lo[1] = hi[1] = s.hi[1];
            m_cross(w, lo, hi, 0, sa, 1, sb);
        } else if constexpr (D == 3) {
            static const int AX[3][3] = {{0, 1, 2}, {0, 2, 1}, {1, 2, 0}};
            const int* ax = AX[face / 4];
            int r = ax[2];
            lo[r] = s.lo[r], hi[r] = s.hi[r];
            if (clip) lo[r] = std::max(lo[r], box.lo[r]), hi[r] = std::min(hi[r], box.hi[r]);
            m_cross(w, lo, hi, ax[0], sa, ax[1], sb);
        }
    }
    void m_type3(World& w, const Seg& s, int face) const
    {
        m_cross(w, s.lo, s.lo, 0, face % 2 ? -1 : 1, 1, face % 4 < 2 ? 1 : -1);
    }
    void m_corner(World& w, const Seg& s, int face) const // 2D
    {
        int x[3] = {face % 2 ? s.hi[0] : s.lo[0], face / 2 ? s.hi[1] : s.lo[1], 0};
        int y[3] = {x[0] + (face % 2 ? -1 : 1), x[1] + (face / 2 ? -1 : 1), 0};
        w[U].set(x, Num(-5.0) * w[U].get(y));
    }
    void m_homog(World& w, const Seg& s, int face, int order) const // 2D, ghost width 1
    {
        static const double CO[5][4] = {{}, {-1}, {-2, 1. / 3}, {-3, 1, -1. / 5}, {-4, 2, -4. / 5, 1. / 7}};
        int dir = face / 2, side = face % 2, in = side ? -1 : 1, t = 1 - dir;
        int x[3] = {0, 0, 0};
        int p = x[dir] = side ? box.hi[dir] + 1 : box.lo[dir] - 1;
        for (x[t] = std::max(box.lo[t], s.lo[t]); x[t] <= std::min(box.hi[t], s.hi[t]); x[t]++) {
            Num r = 0.0;
            for (int o = 1; o <= order; o++) {
                int y[3] = {x[0], x[1], 0};
                y[dir] += o * in;
                r = r + Num(CO[order][o - 1]) * w[U].get(y);
            }
            w[U].set(x, r);
        }
        for (int e = 0; e < 2; e++) {
            int c[3] = {0, 0, 0}, i[3] = {0, 0, 0};
            c[dir] = p;
            i[dir] = p + in;
            c[t] = e ? box.hi[t] + 1 : box.lo[t] - 1;
            i[t] = e ? box.hi[t] : box.lo[t];
            w[U].set(c, w[U].get(i));
        }
    }
    static std::string sstr(const Seg& s)
    {
        std::string r;
        for (int q = 0; q < D; q++) r += fmt("%s%d..%d", q ? "," : "", s.lo[q], s.hi[q]);
        return r;
    }
#define BCL                                                                                                \
    auto& b = T_.box;                                                                                      \
    TT dx[3] = {TT(T_.dx[0]), TT(T_.dx[1]), TT(T_.dx[2])};                                                 \
    int dg = T_.dg, ug = T_.ug;                                                                            \
    const int *sl = s.lo, *sh = s.hi;                                                                      \
    TT al = alpha, be = beta;                                                                              \
    (void)dx, (void)dg, (void)ug, (void)al, (void)be, (void)sl, (void)sh;
#define TY1
#define TY2 type,
#define TY3 type,
    // type 1 with one condition; type 2/3 ignore condition
    void bc(std::vector<OpP>& r, const Seg& s, int face, int type, int btype, int ex, double alpha, double beta, unsigned impls, bool pois) const
    {
        auto T_ = *this;
        bool clip = impls != 7;
        auto mod = [=](World& w) {
            if (type == 1) T_.m_face(w, s, face, btype, ex, alpha, beta, pois, clip);
            else if (type == 2) T_.m_type2(w, s, face, clip);
            else if (D == 3) T_.m_type3(w, s, face);
        };
        std::string lab = fmt("%s face %d type %d cond %d order %d alpha %g beta %g seg %s", pois ? "poisson_bc" : "bc", face, type, btype,
                              ex, alpha, beta, sstr(s).c_str());
        if (!pois)
            r.push_back(mkop(lab, impls, mod, [=](auto tag, auto& p) {
                BCL
#define ARGS(d) AP##d(b), dx, dg, FA##d(D0), ug, p(U), sl, sh, ex, face, TY##d btype, al, be
                KALL(cd_correct_bc_, set_bc, cellsetcorrectionbc, ARGS)
#undef ARGS
            }));
        else
            r.push_back(mkop(lab, impls, mod, [=](auto tag, auto& p) {
                BCL
#define ARGS(d) AP##d(b), dx, ug, p(U), sl, sh, ex, face, TY##d btype, al, be
                KALL(cd_correct_bc_, set_poisson_bc, cellsetpoissoncorrectionbc, ARGS)
#undef ARGS
            }));
    }
    void corner(std::vector<OpP>& r, const Seg& s, int face) const
    {
        if constexpr (D == 2) {
            if (dg != 0) return; // the coefficient arrays of this call have no ghosts
            auto T_ = *this;
            r.push_back(mkop(fmt("corner_bc face %d seg %s", face, sstr(s).c_str()), 7, [=](World& w) { T_.m_corner(w, s, face); },
                             [=](auto tag, auto& p) {
                                 double alpha = 0, beta = 0;
                                 BCL
                                 int ex = 1, type = 2, btype = 0;
                                 if constexpr (decltype(tag)::isf)
                                     fcall((void (*)())cellsetinteriorcornerbc2d_, AP2(b), ug, dx, FA2(D0), p(U), sl, sh, ex, face, type, btype);
                                 else
                                     cd_correct_bc_2d_cuda<TT>::set_corner_bc(AP2(b), ug, dx, FA2(D0), p(U), sl, sh, ex, face, type, btype);
                             }));
        }
    }
    void homog(std::vector<OpP>& r, const Seg& s, int face, int order) const
    {
        if constexpr (D == 2) {
            if (ug != 1 || box.hi[face / 2] - box.lo[face / 2] + 2 < order) return;
            auto T_ = *this;
            r.push_back(mkop(fmt("homogenous_bc face %d order %d seg %s", face, order, sstr(s).c_str()), 7,
                             [=](World& w) { T_.m_homog(w, s, face, order); },
                             [=](auto tag, auto& p) {
                                 double alpha = 0, beta = 0;
                                 BCL
                                 if constexpr (decltype(tag)::isf)
                                     fcall((void (*)())cellsethomogenousbc2d_, FL2(b), face, sl, sh, order, p(U));
                                 else
                                     cd_correct_bc_2d_cuda<TT>::set_homogenous_bc(FL2(b), face, sl, sh, order, p(U));
                             }));
        }
    }
    // all tangential sub-ranges [a,b] of box dimension q; grow>0: additionally the range exceeding the box
    void ranges(int q, int sub, std::vector<std::pair<int, int>>& out) const
    {
        int L = box.lo[q], H = box.hi[q];
        if (sub == 0) out.push_back({L, H});
        if (sub == 1)
            for (int a = L; a <= H; a++)
                for (int e = a; e <= H; e++) out.push_back({a, e});
        if (sub == 1) out.push_back({H, L - 1}), out.push_back({L + 1, L - 1}); // no cells
        if (sub == 2) out.push_back({L - 2, H + 2}), out.push_back({L - 1, H - 1}), out.push_back({L + 1, H + 3}), out.push_back({H + 1, H + 2}), out.push_back({L - 3, L - 2});
    }
    template <class F> void segs(int sub, const std::vector<int>& fixed, const int* at, F f) const
    {
        Seg s;
        std::vector<int> free;
        for (int q = 0; q < D; q++) {
            bool fx = false;
            for (int z : fixed) fx |= z == q;
            if (fx) s.lo[q] = s.hi[q] = at[q];
            else free.push_back(q);
        }
        auto rec = [&](auto&& self, size_t i) -> void {
            if (i == free.size()) {
                f(s);
                return;
            }
            std::vector<std::pair<int, int>> rs;
            ranges(free[i], sub, rs);
            for (auto& [a, e] : rs) {
                s.lo[free[i]] = a, s.hi[free[i]] = e;
                self(self, i + 1);
            }
        };
        rec(rec, 0);
    }
    struct AB {
        double a, b;
    };
    // sub: 0 full sides, 1 every sub-segment, 2 segments that exceed the box (thrust only: they are cut to the box)
    void all(std::vector<OpP>& r, int sub, const std::vector<AB>& abs_, const std::vector<int>& orders) const
    {
        unsigned impls = sub == 2 ? 3 : 7;
        for (int face = 0; face < 2 * D; face++) {
            int at[3], dir = face / 2;
            for (int q = 0; q < D; q++) at[q] = face % 2 ? box.hi[q] + 1 : box.lo[q] - 1;
            segs(sub, {dir}, at, [&](const Seg& s) {
                for (bool pois : {false, true})
                    for (int btype : {0, 1, 4})
                        for (int ex : orders) {
                            if (btype == 1 && ex != orders[0]) continue;
                            // order 0 of the diffusion form is only defined in two dimensions
                            size_t n = btype == 4 ? abs_.size() : 1;
                            for (size_t k = 0; k < n; k++) bc(r, s, face, 1, btype, ex, abs_[k].a, abs_[k].b, impls, pois);
                        }
            });
            if (D == 2 && sub != 2)
                segs(sub, {dir}, at, [&](const Seg& s) {
                    for (int o = 1; o <= 4; o++) homog(r, s, face, o);
                });
        }
        if constexpr (D == 2)
            if (sub != 2)
                for (int face = 0; face < 4; face++) {
                    Seg s;
                    for (int q = 0; q < 2; q++) s.lo[q] = s.hi[q] = (q ? face / 2 : face % 2) ? box.hi[q] + 1 : box.lo[q] - 1;
                    bc(r, s, face, 2, 0, 1, 1, 1, 7, false);
                    bc(r, s, face, 2, 4, 2, 1, 1, 7, true);
                    corner(r, s, face);
                }
        if constexpr (D == 3) {
            static const int AX[3][3] = {{0, 1, 2}, {0, 2, 1}, {1, 2, 0}};
            for (int face = 0; face < 12; face++) {
                const int* ax = AX[face / 4];
                int at[3];
                for (int q = 0; q < 3; q++) at[q] = box.lo[q] - 1;
                at[ax[0]] = face % 2 ? box.hi[ax[0]] + 1 : box.lo[ax[0]] - 1;
                at[ax[1]] = face % 4 < 2 ? box.lo[ax[1]] - 1 : box.hi[ax[1]] + 1;
                segs(sub, {ax[0], ax[1]}, at, [&](const Seg& s) {
                    bc(r, s, face, 2, 0, 1, 1, 1, impls, false);
                    bc(r, s, face, 2, 1, 2, 1, 1, impls, true);
                });
            }
            if (sub != 2)
                for (int face = 0; face < 8; face++) {
                    Seg s;
                    for (int q = 0; q < 3; q++) {
                        int up = q == 0 ? face % 2 : q == 1 ? (face / 2) % 2 : face / 4;
                        s.lo[q] = s.hi[q] = up ? box.hi[q] + 1 : box.lo[q] - 1;
                    }
                    bc(r, s, face, 3, 0, 1, 1, 1, 7, false);
                    bc(r, s, face, 3, 1, 2, 1, 1, 7, true);
                }
        }
    }
};

// P17: relaxation sweeps
#include "ftn_decl.h"
#include "offs.h"

// LAPACK stand-ins: column-major LU with partial pivoting
extern "C" {
void dgetrf_(const int* m, const int* n_, double* a, const int* lda, void* ipiv_, int* info)
{
    int n = *n_, L = *lda;
    int* ipiv = (int*)ipiv_;
    (void)m;
    *info = 0;
    for (int k = 0; k < n; k++) {
        int p = k;
        for (int i = k + 1; i < n; i++)
            if (std::fabs(a[i + k * L]) > std::fabs(a[p + k * L])) p = i;
        ipiv[k] = p + 1;
        if (a[p + k * L] == 0) { if (!*info) *info = k + 1; continue; }
        if (p != k) for (int j = 0; j < n; j++) std::swap(a[k + j * L], a[p + j * L]);
        for (int i = k + 1; i < n; i++) {
            a[i + k * L] /= a[k + k * L];
            for (int j = k + 1; j < n; j++) a[i + j * L] -= a[i + k * L] * a[k + j * L];
        }
    }
}
static void lusolve(bool trans, int n, int nrhs, const double* a, int L, const int* ipiv, double* b, int lb)
{
    for (int c = 0; c < nrhs; c++) {
        double* x = b + (long)c * lb;
        if (!trans) {
            for (int k = 0; k < n; k++) std::swap(x[k], x[ipiv[k] - 1]);
            for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) x[i] -= a[i + j * L] * x[j];
            for (int i = n - 1; i >= 0; i--) {
                for (int j = i + 1; j < n; j++) x[i] -= a[i + j * L] * x[j];
                x[i] /= a[i + i * L];
            }
        } else {
            for (int i = 0; i < n; i++) {
                for (int j = 0; j < i; j++) x[i] -= a[j + i * L] * x[j];
                x[i] /= a[i + i * L];
            }
            for (int i = n - 1; i >= 0; i--) for (int j = i + 1; j < n; j++) x[i] -= a[j + i * L] * x[j];
            for (int k = n - 1; k >= 0; k--) std::swap(x[k], x[ipiv[k] - 1]);
        }
    }
}
void dgetrs_(const char* t, const int* n, const int* nrhs, const double* a, const int* lda, const void* ipiv, double* b, const int* ldb, int* info)
{
    *info = 0;
    lusolve(*t != 'N' && *t != 'n', *n, *nrhs, a, *lda, (const int*)ipiv, b, *ldb);
}
void dgesv_(const int* n, const int* nrhs, double* a, const int* lda, int* ipiv, double* b, const int* ldb, int* info)
{
    dgetrf_(n, n, a, lda, ipiv, info);
    if (!*info) lusolve(false, *n, *nrhs, a, *lda, ipiv, b, *ldb);
}
void dcopy_(const int* n, const double* x, const int* ix, double* y, const int* iy)
{
    for (int i = 0; i < *n; i++) y[(long)i * *iy] = x[(long)i * *ix];
}
}
// dense solve on Num (diagonally dominant data, no pivoting needed)
static std::vector<Num> solve(std::vector<std::vector<Num>> a, std::vector<Num> b)
{
    int n = b.size();
    for (int k = 0; k < n; k++)
        for (int i = k + 1; i < n; i++) {
            Num q = a[i][k] / a[k][k];
            for (int j = k + 1; j < n; j++) a[i][j] = a[i][j] - q * a[k][j];
            b[i] = b[i] - q * b[k];
        }
    for (int i = n - 1; i >= 0; i--) {
        for (int j = i + 1; j < n; j++) b[i] = b[i] - a[i][j] * b[j];
        b[i] = b[i] / a[i][i];
    }
    return b;
}
// the damping constants are written in single precision in places: allow for it
static Num damp(int D) { return D == 1 ? Num(2.0 / 3.0) : Num(0.8, 1e8); }

template <int D> struct Smooth {
    Box box, sbox, fbox, ubox;
    Offs o;
    int kind; // which specialised sweep applies: 0 none, else the stencil size
    static constexpr int S = 0, F = 1, U = 2;
    World world(uint64_t seed, int pat) const
    {
        World w;
        w.f.push_back(stencilField("stencil", sbox, 0, o.n));
        w.f.push_back(cellField("f", fbox, 0));
        w.f.push_back(cellField("u", ubox, 0));
        for (size_t k = 0; k < 3; k++) fill(w.f[k], seed * 131 + k, pat);
        Field& s = w.f[S]; // dominant diagonal
        forbox(sbox, [&](const int* x) { s.set(x, 0, s.get(x, 0) * Num(8.0 + o.n) + Num(s.get(x, 0).v == 0 ? 4.0 : 0.0)); });
        return w;
    }
    // u* with f = A u*, all arithmetic exact
    World fixed(uint64_t seed) const
    {
        World w = world(seed, SIGNED);
        for (long i = 0; i < w[S].n; i++) w[S].d[i] = Num(double(int(mix64(seed * 77 + i) % 9) - 4));
        forbox(sbox, [&](const int* x) { w[S].set(x, 0, Num((mix64(seed + x[0] * 7 + x[1] * 11 + x[2] * 13) & 1) ? 16.0 : -32.0)); });
        for (long i = 0; i < w[U].n; i++) w[U].d[i] = Num(double(2 * int(mix64(seed * 99 + i) % 9) - 7));
        for (long i = 0; i < w[F].n; i++) w[F].d[i] = Num(3.0);
        forbox(box, [&](const int* x) { w[F].set(x, sum(w, x, 0)); });
        return w;
    }
    Num sum(const World& w, const int* x, int s0) const
    {
        Num t = 0.0;
        for (int s = s0; s < o.n; s++) {
            int y[3] = {x[0] + o.at(D, s, 0), x[1] + o.at(D, s, 1), x[2] + o.at(D, s, 2)};
            t = t + w[S].get(x, s) * w[U].get(y);
        }
        return t;
    }
    void m_jacobi(World& w) const
    {
        std::vector<Num> r;
        forbox(box, [&](const int* x) { r.push_back((w[F].get(x) - sum(w, x, 0)) / w[S].get(x, 0)); });
        size_t k = 0;
        forbox(box, [&](const int* x) { w[U].set(x, w[U].get(x) + damp(D) * r[k++]); });
    }
    void m_gs(World& w, int color) const // color < 0: every cell
    {
        forbox(box, [&](const int* x) {
            if (color >= 0) { // colours alternate in every direction, counted from the first cell of the x range
                int p = (x[0] - box.lo[0]) + (D > 1 ? x[1] : 0) + (D > 2 ? x[2] : 0) + color;
                if (p & 1) return;
            }
            w[U].set(x, (w[F].get(x) - sum(w, x, 1)) / w[S].get(x, 0));
        });
    }
    std::vector<OpP> ops() const
    {
        auto T_ = *this;
        std::vector<OpP> r;
#define LOC                                                                                                \
    const Box &b = T_.box, &sb = T_.sbox, &fb = T_.fbox, &ub = T_.ubox;                                    \
    int n = T_.o.n;                                                                                        \
    const int* of = T_.o.p();                                                                              \
    (void)n, (void)of;
        r.push_back(mkop("jacobi", 4, [T_](World& w) { T_.m_jacobi(w); }, [T_](auto tag, auto& p) {
            LOC
#define ARGS(d) AP##d(b), n, of, AP##d(sb), p(S), AP##d(fb), p(F), AP##d(ub), p(U)
            FALL(celljacobi, ARGS)
        }));
        r.push_back(mkop("gauss-seidel", 4, [T_](World& w) { T_.m_gs(w, -1); }, [T_](auto tag, auto& p) {
            LOC
            FALL(cellgs, ARGS)
#undef ARGS
        }));
        for (int color = 0; color < 2; color++) {
            r.push_back(mkop(fmt("red-black(%d)", color), 4, [T_, color](World& w) { T_.m_gs(w, color); }, [T_, color](auto tag, auto& p) {
                LOC
#define ARGS(d) AP##d(b), color, n, of, AP##d(sb), p(S), AP##d(fb), p(F), AP##d(ub), p(U)
                FALL(cellrbgs, ARGS)
#undef ARGS
            }));
            if (kind)
                r.push_back(mkop(fmt("red-black-%d(%d)", kind, color), 4, [T_, color](World& w) { T_.m_gs(w, color); }, [T_, color](auto tag, auto& p) {
                    LOC
                    (void)tag;
#define ARGS(d) AP##d(b), color, AP##d(sb), p(S), AP##d(fb), p(F), AP##d(ub), p(U)
                    if constexpr (D == 2) {
                        if (T_.kind == 5) fcall((void (*)())cells5rbgs2d_, ARGS(2));
                        else fcall((void (*)())cells9rbgs2d_, ARGS(2));
                    } else if constexpr (D == 3) fcall((void (*)())cells7rbgs3d_, ARGS(3));
#undef ARGS
                }));
        }
        return r;
    }
};

template <int D> static void point(Ctx& c)
{
    {
        auto tabs = tables<D>();
        for (auto& x : extremes<D>(c.thorough))
            for (size_t t = 0; t < tabs.size(); t++) {
                if (x.dx % 4 != (int)t % 4 && x.dx != 7) continue;
                if (!c.scenario()) continue;
                Smooth<D> s;
                s.o = tabs[t];
                s.kind = D == 2 ? (t == 0 ? 5 : t == 2 ? 9 : 0) : D == 3 && t == 0 ? 7 : 0;
                s.box = s.sbox = s.fbox = x.b;
                int reach = 0;
                for (int e : s.o.v) reach = std::max(reach, std::abs(e));
                s.ubox = x.b.grow(reach);
                s.fbox.hi[D - 1] += x.k & 1;
                c.explore(s.world(c.seed, x.pat), s.ops(), x.pat == SIGNED && x.k > 30 ? 1 : 2, fmt("%dD box %s offsets (%s) case#%d", D, x.b.str().c_str(), s.o.str(D).c_str(), x.k));
            }
    }
    std::vector<int> ext = D == 1 ? std::vector<int>{0, 1, 2, 3, 4, 7} : D == 2 ? std::vector<int>{0, 1, 2, 3, 4} : std::vector<int>{0, 1, 2, 3};
    if (c.thorough) ext.push_back(D == 3 ? 4 : 6);
    auto tabs = tables<D>();
    for (auto& b : withlong<D>(boxes<D>(ext, {{0, 0, 0}, {-3, -2, -5}, {2, -1, -2}, {-4, 3, -1}, {1, 1, 1}}), c.thorough))
        for (size_t t = 0; t < tabs.size(); t++)
            for (int v = 0; v < 4; v++) { // extents of the arrays
                Smooth<D> s;
                s.o = tabs[t];
                s.kind = D == 2 ? (t == 0 ? 5 : t == 2 ? 9 : 0) : D == 3 && t == 0 ? 7 : 0;
                s.box = b;
                int reach = 0;
                for (int x : s.o.v) reach = std::max(reach, std::abs(x));
                s.sbox = s.fbox = b;
                s.ubox = b.grow(reach);
                if (v & 1) s.sbox.lo[D - 1] -= 2, s.sbox.hi[0] += 1, s.ubox.lo[0] -= 1;
                if (v & 2) s.fbox.lo[0] -= 1, s.fbox.hi[D - 1] += 2, s.ubox.hi[D - 1] += 2;
                std::string lab = fmt("%dD box %s offsets (%s) extents#%d", D, b.str().c_str(), s.o.str(D).c_str(), v);
                auto ops = s.ops();
                for (auto& o : ops) c.kinds.insert(fmt("%dD ", D) + o->label);
                for (int pat = 0; pat < 3; pat++)
                    if (c.scenario()) c.explore(s.world(c.seed, pat), ops, D == 1 ? 4 : D == 3 && !c.thorough ? 3 : 4, lab + fmt(" data#%d", pat));
                if (c.scenario()) {
                    World w = s.fixed(c.seed);
                    long before = c.states;
                    if (c.explore(w, ops, 2, lab + " exact solution") && c.states != before + 1)
                        c.violation("[" + lab + " exact solution] a sweep of the model moves the exact solution");
                }
            }
}
// block sweeps ------------------------------------------------------------------------------------
template <int D> struct Blk {
    Box box;
    int fg, ug;
    World world(uint64_t seed, int pat) const
    {
        World w;
        w.f.push_back(stencilField("a", box, 0, 4));
        w.f.push_back(cellField("stencil", box, 0));
        w.f.push_back(cellField("f0", box, fg));
        w.f.push_back(cellField("f1", box, fg));
        w.f.push_back(cellField("u0", box, ug));
        w.f.push_back(cellField("u1", box, ug));
        for (size_t k = 0; k < w.f.size(); k++) fill(w.f[k], seed * 17 + k, k < 2 ? (pat == SPARSE ? int(SIGNED) : pat) : pat);
        forbox(box, [&](const int* x) {
            w[0].set(x, 0, w[0].get(x, 0) * Num(4.0));
            w[0].set(x, 3, w[0].get(x, 3) * Num(8.0));
        });
        return w;
    }
    std::vector<OpP> ops() const
    {
        auto T_ = *this;
        std::vector<OpP> r;
        if constexpr (D < 3) {
            r.push_back(mkop("block1x1", 4, [T_](World& w) {
                forbox(T_.box, [&](const int* x) { w[4].set(x, w[4].get(x) + damp(D) * w[2].get(x) / w[1].get(x)); });
            }, [T_](auto tag, auto& p) {
                const Box& b = T_.box;
                int fg = T_.fg, ug = T_.ug;
#define ARGS(d) AP##d(b), p(1), fg, p(2), ug, p(4)
                if constexpr (D == 1) fcall((void (*)())cellblock1x1jacobi1d_, ARGS(1));
                else fcall((void (*)())cellblock1x1jacobi2d_, ARGS(2));
#undef ARGS
            }));
            r.push_back(mkop("block2x2", 4, [T_](World& w) {
                forbox(T_.box, [&](const int* x) {
                    Num a = w[0].get(x, 0), b = w[0].get(x, 1), c = w[0].get(x, 2), d = w[0].get(x, 3);
                    Num det = a * d - b * c, f0 = w[2].get(x), f1 = w[3].get(x);
                    w[4].set(x, w[4].get(x) + damp(D) * (d * f0 - b * f1) / det);
                    w[5].set(x, w[5].get(x) + damp(D) * (a * f1 - c * f0) / det);
                });
            }, [T_](auto tag, auto& p) {
                const Box& b = T_.box;
                int fg = T_.fg, ug = T_.ug;
#define ARGS(d) AP##d(b), p(0), fg, p(2), p(3), ug, p(4), p(5)
                if constexpr (D == 1) fcall((void (*)())cellblock2x2jacobi1d_, ARGS(1));
                else fcall((void (*)())cellblock2x2jacobi2d_, ARGS(2));
#undef ARGS
            }));
        }
        return r;
    }
};
template <int D> static void block(Ctx& c)
{
    std::vector<int> ext = D == 1 ? std::vector<int>{0, 1, 2, 5} : std::vector<int>{0, 1, 2, 3};
    for (auto& b : withlong<D>(boxes<D>(ext, {{0, 0, 0}, {-3, -2, -5}}), c.thorough))
        for (int g = 0; g < 9; g++)
            for (int pat = 0; pat < 3; pat++) {
                if (!c.scenario()) continue;
                Blk<D> s{b, g % 3, g / 3};
                auto ops = s.ops();
                for (auto& o : ops) c.kinds.insert(fmt("%dD ", D) + o->label);
                c.explore(s.world(c.seed, pat), ops, 3, fmt("%dD box %s fgcw %d ugcw %d data#%d", D, b.str().c_str(), g % 3, g / 3, pat));
            }
}
// coupled point-block sweep: ndof unknowns per cell
struct Coupled {
    Box box;
    int ndof, fg, ug, rg;
    Offs o;
    World world(uint64_t seed, int pat) const
    {
        World w;
        w.f.push_back(stencilField("stencil", box, 0, o.n * ndof * ndof));
        w.f.push_back(stencilField("f", box, fg, ndof));
        w.f.push_back(stencilField("u", box, ug, ndof));
        w.f.push_back(stencilField("r", box, rg, ndof));
        for (size_t k = 0; k < 4; k++) fill(w.f[k], seed * 171 + k, pat);
        forbox(box, [&](const int* x) {
            for (int d = 0; d < ndof; d++) {
                int q = o.n * (d + ndof * d);
                w[0].set(x, q, w[0].get(x, q) * Num(8.0 + o.n) + Num(w[0].get(x, q).v == 0 ? 16.0 : 0.0));
            }
        });
        return w;
    }
    // r receives the correction that solves the cell's equations, u is moved by it
    void model(World& w) const
    {
        forbox(box, [&](const int* x) {
            std::vector<Num> r(ndof);
            std::vector<std::vector<Num>> a(ndof, std::vector<Num>(ndof));
            for (int d = 0; d < ndof; d++) {
                r[d] = w[1].get(x, d);
                for (int s = 0; s < o.n; s++) {
                    int y[3] = {x[0] + o.at(3, s, 0), x[1] + o.at(3, s, 1), x[2] + o.at(3, s, 2)};
                    for (int e = 0; e < ndof; e++) r[d] = r[d] - w[0].get(x, s + o.n * (d + ndof * e)) * w[2].get(y, e);
                }
                for (int e = 0; e < ndof; e++) a[d][e] = w[0].get(x, o.n * (d + ndof * e));
            }
            r = solve(a, r);
            for (int d = 0; d < ndof; d++) {
                w[3].set(x, d, r[d]);
                w[2].set(x, d, w[2].get(x, d) + r[d]);
            }
        });
    }
};
static void coupled(Ctx& c)
{
    auto tabs = tables<3>();
    for (auto& b : withlong<3>(boxes<3>({0, 1, 2, 3}, {{0, 0, 0}, {-3, -2, -5}, {1, 1, 1}}), c.thorough))
        for (int ndof = 1; ndof <= 3; ndof++)
            for (int t : {0, 1, 3})
                for (int g = 0; g < 4; g++) {
                    if (!c.scenario()) continue;
                    Coupled s{b, ndof, g & 1, t == 3 ? 2 + (g >> 1) : 1 + (g >> 1), (g >> 1) & 1, tabs[t]};
                    auto op = mkop("coupled block sweep", 4, [s](World& w) { s.model(w); }, [s](auto tag, auto& p) {
                        const Box& b = s.box;
                        int n = s.o.n, ndof = s.ndof, fg = s.fg, ug = s.ug, rg = s.rg;
                        const int* of = s.o.p();
                        fcall((void (*)())ccellblkjacobi3d_, AP3(b), n, of, p(0), ndof, fg, p(1), ug, p(2), rg, p(3));
                    });
                    c.kinds.insert("3D coupled block sweep");
                    c.explore(s.world(c.seed, g % 3), {op}, 2, fmt("3D box %s ndof %d offsets (%s) fgcw %d ugcw %d rgcw %d data#%d", b.str().c_str(), ndof, s.o.str(3).c_str(), s.fg, s.ug, s.rg, g % 3));
                }
}
// damped block Jacobi: the box is tiled by blocks, each block's equations are solved exactly
struct BlockJ {
    Box box, fbox, ubox;
    int bs[3], bn[3], d0[3];
    Offs o;
    World world(uint64_t seed, int pat) const
    {
        Smooth<3> s{box, box, fbox, ubox, o, 0};
        return s.world(seed, pat);
    }
    void model(World& w) const
    {
        Smooth<3> s{box, box, fbox, ubox, o, 0};
        World old = w;
        int t[3];
        for (t[2] = 0; t[2] < bn[2]; t[2]++)
            for (t[1] = 0; t[1] < bn[1]; t[1]++)
                for (t[0] = 0; t[0] < bn[0]; t[0]++) {
                    int lo[3], hi[3];
                    for (int q = 0; q < 3; q++) lo[q] = box.lo[q] + d0[q] + t[q] * bs[q], hi[q] = lo[q] + bs[q] - 1;
                    int n = bs[0] * bs[1] * bs[2];
                    std::vector<std::vector<Num>> a(n, std::vector<Num>(n, Num(0.0)));
                    std::vector<Num> r;
                    forbox(lo, hi, [&](const int* x) {
                        int i = r.size();
                        r.push_back(old[1].get(x) - s.sum(old, x, 0));
                        for (int q = 0; q < o.n; q++) {
                            int y[3] = {x[0] + o.at(3, q, 0) - lo[0], x[1] + o.at(3, q, 1) - lo[1], x[2] + o.at(3, q, 2) - lo[2]};
                            bool in = true;
                            for (int e = 0; e < 3; e++) in = in && y[e] >= 0 && y[e] < bs[e];
                            if (in) a[i][(y[2] * bs[1] + y[1]) * bs[0] + y[0]] = old[0].get(x, q);
                        }
                    });
                    r = solve(a, r);
                    size_t k = 0;
                    forbox(lo, hi, [&](const int* x) { w[2].set(x, w[2].get(x) + Num(0.8) * r[k++]); });
                }
    }
};
static void blockj(Ctx& c)
{
    auto tabs = tables<3>();
    int mx = c.thorough ? 3 : 2;
    int e[6];
    int tot = 1;
    for (int q = 0; q < 6; q++) tot *= mx;
    for (int k = 0; k < tot; k++)
        for (int v = 0; v < 4; v++)
            for (int t = 0; t < 4; t++) {
                int m = k;
                for (int q = 0; q < 6; q++) e[q] = 1 + m % mx, m /= mx;
                if (!c.scenario()) continue;
                BlockJ s;
                s.o = tabs[t];
                Box b;
                b.D = 3;
                static const int org[4][3] = {{0, 0, 0}, {-3, -2, -5}, {1, 2, 1}, {-1, 0, 4}};
                for (int q = 0; q < 3; q++) {
                    s.bs[q] = e[q];
                    s.bn[q] = e[q + 3];
                    s.d0[q] = v == 3 ? q & 1 : 0;
                    b.lo[q] = org[v][q];
                    b.hi[q] = b.lo[q] + s.d0[q] + s.bs[q] * s.bn[q] - 1 + (v == 3 && q == 2);
                }
                s.box = s.fbox = b;
                s.ubox = b.grow(t == 3 ? 2 : 1);
                if (v & 1) s.fbox.lo[1] -= 1, s.ubox.hi[0] += 1;
                if (v & 2) s.fbox.hi[0] += 2, s.ubox.lo[2] -= 1;
                auto op = mkop("block Jacobi", 4, [s](World& w) { s.model(w); }, [s](auto tag, auto& p) {
                    const Box &b = s.box, &fb = s.fbox, &ub = s.ubox;
                    int n = s.o.n;
                    const int* of = s.o.p();
                    std::vector<int> d[3];
                    for (int q = 0; q < 3; q++) for (int i = 0; i < s.bn[q]; i++) d[q].push_back(s.d0[q] + i * s.bs[q]);
                    const int *dx = d[0].data(), *dy = d[1].data(), *dz = d[2].data();
                    fcall((void (*)())cellblockjacobi3d_, AP3(b), n, of, p(0), AP3(fb), p(1), AP3(ub), p(2), dx, s.bn[0], s.bs[0], dy, s.bn[1], s.bs[1], dz, s.bn[2], s.bs[2]);
                });
                c.kinds.insert("3D block Jacobi");
                c.explore(s.world(c.seed, v % 3), {op}, 2, fmt("3D box %s block %dx%dx%d offsets (%s) case#%d", b.str().c_str(), e[0], e[1], e[2], s.o.str(3).c_str(), v));
            }
}
void check(Ctx& c)
{
    c.bounds = "1-3D: every point sweep x offset table x small box (negative and empty included) x array extents; all histories of sweeps up to "
               "length 4 (3D: 3, thorough 4); exact solutions; block sweeps with every small block size, count and coupling, histories of length 2-3"
               "; unusual cases: boxes to 70001 cells long and 300x260, 41x37x33 cells, 10^6 from the origin, equal, tiny and huge spacings, zero, constant, tiny, huge data";
    point<1>(c);
    point<2>(c);
    point<3>(c);
    block<1>(c);
    block<2>(c);
    coupled(c);
    blockj(c);
}
int main(int argc, char** argv) { return core_main(argc, argv); }

// P22: fluxes + application and assembled stencil + stencil application are the same operator
#include "md_device_span.hpp"
#include "ftn_decl.h"
#include "cd_flux_1d_cuda.hpp"
#include "cd_flux_2d_cuda.hpp"
#include "cd_flux_3d_cuda.hpp"
#include "cd_apply_1d_cuda.hpp"
#include "cd_apply_2d_cuda.hpp"
#include "cd_apply_3d_cuda.hpp"
#include "cd_stencil_1d_cuda.hpp"
#include "cd_stencil_2d_cuda.hpp"
#include "cd_stencil_3d_cuda.hpp"
#include "cell.h"
enum { THRUST = 0, FTNC = 1, FTNN = 2 };
static const char* inm[] = {"thrust", "fortran", "fortran node"};
static const char* snm[] = {"flux", "apply", "offdiag", "diag", "stencil apply"};
static const unsigned need[] = {0, 1, 0, 4, 8};
template <int D> struct Pipe {
    Box box;
    int ug, ag, rg;
    double dx_[3], al, be;
    int form; // 0 poisson, 1 alpha*u, 2 alpha*a*u
    static constexpr int A = 0, U = 1, RA = 2, RB = 3, ST = 4, B = 5, X = 5 + D, W = 2 * D + 1, F = 5 + 2 * D;
    std::vector<int> off;
    World world(uint64_t seed) const
    {
        World w;
        w.f.push_back(cellField("a", box, ag));
        w.f.push_back(cellField("u", box, ug));
        w.f.push_back(cellField("flux path", box, rg));
        w.f.push_back(cellField("stencil path", box, rg));
        w.f.push_back(stencilField("stencil", box, 0, W));
        for (int d = 0; d < D; d++) w.f.push_back(faceField("b", box, d, 0));
        for (int d = 0; d < D; d++) w.f.push_back(faceField("flux", box, d, 0));
        w.f.push_back(cellField("f", box, 0));
        for (size_t k = 0; k < w.f.size(); k++) fill(w.f[k], seed * 59 + k, SIGNED);
        return w;
    }
    void table()
    {
        off.assign(D, 0);
        for (int d = 0; d < D; d++)
            for (int s = -1; s <= 1; s += 2)
                for (int q = 0; q < D; q++) off.push_back(q == d ? s : 0);
        off.resize(off.size() + 64, 0);
    }
    template <class T> void run(int step, int impl, Mem<T>& p) const
    {
        const Box& b = box;
        T dx[3] = {T(dx_[0]), T(dx_[1]), T(dx_[2])}, alpha = al, beta = be, one = 1, zero = 0;
        int sg = 0, n = W;
        const int* of = off.data();
        int fg = 0, gcw = ug;
        int ug = this->ug, ag = this->ag, rg = this->rg;
#define GO(cls, fn, ftn, nftn, ARGS, NARGS)                                      \
    do {                                                                         \
        if (impl == THRUST) {                                                    \
            if constexpr (D == 1) cls##1d_cuda<T>::fn(ARGS(1));                  \
            else if constexpr (D == 2) cls##2d_cuda<T>::fn(ARGS(2));             \
            else cls##3d_cuda<T>::fn(ARGS(3));                                   \
        } else if constexpr (std::is_same_v<T, double>) {                        \
            if (impl == FTNC) { FALL(ftn, ARGS) } else { FALL(nftn, NARGS) }     \
        }                                                                        \
    } while (0)
        switch (step) {
        case 0:
#define A1(d) FL##d(b), dx, FA##d(B), gcw, p(U), FA##d(X)
#define A2(d) FL##d(b), dx, gcw, p(U), FA##d(X)
            if (form) GO(cdf_, flux, celldiffusionflux, nodediffusionflux, A1, A1);
            else GO(cdf_, poisson_flux, cellpoissonflux, nodepoissonflux, A2, A2);
            break;
        case 1:
#define A3(d) AP##d(b), alpha, beta, dx, ag, p(A), ug, p(U), FA##d(X), rg, p(RA)
#define A4(d) AP##d(b), alpha, beta, dx, ug, p(U), FA##d(X), rg, p(RA)
#define A5(d) AP##d(b), beta, dx, FA##d(X), rg, p(RA)
#define N3(d) AP##d(b), alpha, beta, dx, ag, p(A), ug, p(U), fg, p(F), FA##d(X), one, zero, rg, p(RA)
#define N4(d) AP##d(b), alpha, beta, dx, ug, p(U), fg, p(F), FA##d(X), one, zero, rg, p(RA)
#define N5(d) AP##d(b), beta, dx, fg, p(F), FA##d(X), one, zero, rg, p(RA)
            if (form == 2) GO(cd_apply_, diffusion_v1_apply, celldiffusionv1apply, nodediffusionv1apply, A3, N3);
            else if (form == 1) GO(cd_apply_, diffusion_v2_apply, celldiffusionv2apply, nodediffusionv2apply, A4, N4);
            else GO(cd_apply_, poisson_v2_apply, cellpoissonv2apply, nodepoissonapply, A5, N5);
            break;
        case 2:
#define A6(d) FL##d(b), FL##d(b), dx, beta, FA##d(B), sg, p(ST)
#define N6(d) FL##d(b), FL##d(b), dx, beta, FA##d(B), p(ST)
#define A7(d) FL##d(b), dx, beta, sg, p(ST)
#define N7(d) FL##d(b), dx, beta, p(ST)
            if (form) GO(cd_stencil_, offdiag, celldiffusionoffdiag, nodediffusionoffdiag, A6, N6);
            else GO(cd_stencil_, poisson_offdiag, cellpoissonoffdiag, nodepoissonoffdiag, A7, N7);
            break;
        case 3: {
            Box c = b.grow(ag);
#define A8(d) FL##d(b), FL##d(c), alpha, p(A), sg, p(ST)
#define N8(d) FL##d(b), FL##d(c), alpha, p(A), p(ST)
#define A9(d) FL##d(b), alpha, sg, p(ST)
#define N9(d) FL##d(b), alpha, p(ST)
#define AA(d) FL##d(b), sg, p(ST)
#define NA(d) FL##d(b), p(ST)
            if (form == 2) GO(cd_stencil_, v1diag, celldiffusionv1diag, nodediffusionv1diag, A8, N8);
            else if (form == 1) GO(cd_stencil_, v2diag, celldiffusionv2diag, nodediffusionv2diag, A9, N9);
            else GO(cd_stencil_, poisson_diag, cellpoissondiag, nodepoissondiag, AA, NA);
            break;
        }
        case 4:
            if (impl == THRUST) {
                auto o = thrust::device_ptr<int>((int*)of);
                const auto i = Ib{b.lo[0], b.hi[0]};
                const auto w = Wb{0, W - 1};
                if constexpr (D == 1) {
                    auto st = make_md_span(p(ST), i, w), u = make_md_span(p(U), ug, i), r = make_md_span(p(RB), rg, i);
                    with_domain(i)(r = st.dot(u.offset(o)));
                } else if constexpr (D == 2) {
                    const auto j = Jb{b.lo[1], b.hi[1]};
                    auto st = make_md_span(p(ST), j, i, w);
                    auto u = make_md_span(p(U), ug, j, i), r = make_md_span(p(RB), rg, j, i);
                    with_domain(j, i)(r = st.dot(u.offset(o)));
                } else {
                    const auto j = Jb{b.lo[1], b.hi[1]};
                    const auto k = Kb{b.lo[2], b.hi[2]};
                    auto st = make_md_span(p(ST), k, j, i, w);
                    auto u = make_md_span(p(U), ug, k, j, i), r = make_md_span(p(RB), rg, k, j, i);
                    with_domain(k, j, i)(r = st.dot(u.offset(o)));
                }
            } else if constexpr (std::is_same_v<T, double>) {
#define AP_(d) AP##d(b), n, of, p(ST), one, zero, fg, p(F), ug, p(U), rg, p(RB)
                FALL(applystencilonpatch, AP_)
            }
        }
    }
    // bound of the terms each cell's value is made of
    double magnitude(const World& w, const int* x) const
    {
        double m = 0;
        for (int d = 0; d < D; d++)
            for (int s = 0; s < 2; s++) {
                int f[3] = {x[0], x[1], x[2]}, y[3] = {x[0], x[1], x[2]};
                f[d] += s, y[d] += 2 * s - 1;
                m += std::fabs(be) * (form ? std::fabs(w[B + d].get(f).v) : 1) / (dx_[d] * dx_[d]) * (std::fabs(w[U].get(x).v) + std::fabs(w[U].get(y).v));
            }
        return m + std::fabs(al) * std::fabs(w[U].get(x).v) * (1 + std::fabs(w[A].get(x).v));
    }
    template <class T> bool same(Ctx& c, const World& w, Mem<T>& p, const std::string& lab, const std::string& path, double eps) const
    {
        bool ok = true;
        double net = 0, div = 0, mag = 0;
        forbox(box, [&](const int* x) {
            if (!ok) return;
            c.cells++, c.changed++;
            double a = p(RA)[w[RA].idx(x)], s = p(RB)[w[RB].idx(x)], m = magnitude(w, x);
            if (!(std::fabs(a - s) <= 64 * eps * m)) {
                ok = false;
                c.violation(fmt("%s | %s: at (%d,%d,%d) the flux path gives %.17g and the stencil path %.17g", lab.c_str(), path.c_str(), x[0], x[1], x[2], a, s));
            }
            div += a - (form ? al * w[U].get(x).v * (form == 2 ? w[A].get(x).v : 1) : 0);
            mag += m;
        });
        if (!ok || box.empty()) return ok;
        // beta * sum of the divergence = net flux through the boundary faces
        for (int d = 0; d < D; d++) {
            Box fb = box;
            fb.hi[d] = fb.lo[d] = box.lo[d];
            forbox(fb, [&](const int* x) {
                int y[3] = {x[0], x[1], x[2]};
                y[d] = box.hi[d] + 1;
                net += (p(X + d)[w[X + d].idx(y)] - p(X + d)[w[X + d].idx(x)]) / T(dx_[d]);
            });
        }
        c.cells++;
        if (!(std::fabs(div + be * net) <= 256 * eps * mag)) {
            c.violation(fmt("%s | %s: the divergence sums to %.17g, the net boundary flux is %.17g", lab.c_str(), path.c_str(), -div, be * net));
            return false;
        }
        return true;
    }
    // all interleavings of the two pipelines and all choices of implementation for each step
    template <class T> void explore(Ctx& c, const World& w, const std::string& lab, int impls, double eps) const
    {
        struct Node {
            Mem<T> m;
            unsigned done;
            std::string path;
        };
        std::set<std::pair<uint64_t, uint64_t>> seen;
        std::vector<Node> work(1);
        work[0].m.load(w);
        work[0].done = 0;
        c.states++;
        while (!work.empty()) {
            Node n = std::move(work.back());
            work.pop_back();
            if (n.done == 31) {
                if (!same(c, w, n.m, lab, n.path, eps)) return;
                continue;
            }
            for (int s = 0; s < 5; s++) {
                if ((n.done >> s & 1) || (need[s] & ~(n.done << 0)) != 0) continue;
                for (int i = 0; i < impls; i++) {
                    if (s == 4 && i == FTNN) continue;
                    Node k = n;
                    k.done |= 1u << s;
                    k.path += fmt("%s%s %s", n.path.empty() ? "" : " ; ", inm[i], snm[s]);
                    c.doing(lab, k.path, "");
                    run(s, i, k.m);
                    c.transitions++, c.runs++;
                    uint64_t a = k.done, b = ~(uint64_t)k.done;
                    for (auto& v : k.m.b)
                        for (auto& e : v) {
                            uint64_t u = 0;
                            memcpy(&u, &e, sizeof e);
                            a = mix64(a ^ u), b = mix64(b + u * 0x9ddfea08eb382d69ull);
                        }
                    if (!seen.insert({a, b}).second) continue;
                    c.states++;
                    work.push_back(std::move(k));
                }
            }
        }
    }
};
template <int D> static void dim(Ctx& c)
{
    std::vector<std::vector<int>> org = {{0, 0, 0}, {-3, 2, -1}};
    std::vector<int> ext = D == 1 ? std::vector<int>{0, 1, 2, 3, 6} : D == 2 ? std::vector<int>{1, 2, 4} : std::vector<int>{1, 2, 3};
    if (c.thorough) ext.push_back(D == 3 ? 4 : 7);
    static const double ab[4][2] = {{1, 1}, {0.75, -1.5}, {0, 1.25}, {-2, 0}};
    for (auto& b : withlong<D>(boxes<D>(ext, org), false))
        for (int form = 0; form < 3; form++)
            for (int k = 0; k < 4; k++)
                for (int g = 0; g < 4; g++)
                    for (int dxi = 0; dxi < 3; dxi++) {
                        if (!c.scenario()) continue;
                        Pipe<D> s{b, 1 + (g & 1), g >> 1, g & 1, {DXS[dxi][0], DXS[dxi][1], DXS[dxi][2]}, ab[k][0], ab[k][1], form, {}};
                        s.table();
                        std::string lab = fmt("%dD %s box %s u ghosts %d a ghosts %d alpha %g beta %g dx#%d", D, form == 0 ? "poisson" : form == 1 ? "v2" : "v1", b.str().c_str(), s.ug, s.ag, ab[k][0], ab[k][1], dxi);
                        c.kinds.insert(fmt("%dD %s", D, form == 0 ? "poisson" : form == 1 ? "v2" : "v1"));
                        World w = s.world(c.seed + g);
                        s.template explore<double>(c, w, lab, 3, 1.12e-16);
                        if (c.bad) return;
                        World wf = w;
                        for (auto& f : wf.f)
                            for (auto& x : f.d) x = Num((double)(float)x.v);
                        s.template explore<float>(c, wf, lab + " float", 1, 5.97e-8);
                        if (c.bad) return;
                        c.sample(lab + ": all interleavings and implementation choices");
                    }
    for (auto& x : extremes<D>(false)) {
        if (x.dx == 7 && x.k > 60) continue; // the big boxes
        for (int form = 0; form < 3; form++) {
            if (!c.scenario()) continue;
            auto& k = XAB[(x.k + form) % 6];
            Pipe<D> s{x.b, 1, 0, 0, {x.h()[0], x.h()[1], x.h()[2]}, k[0], k[1], form, {}};
            s.table();
            s.template explore<double>(c, s.world(c.seed + x.k), fmt("%dD form %d box %s dx %g,%g,%g alpha %g beta %g", D, form, x.b.str().c_str(), x.h()[0], x.h()[1], x.h()[2], k[0], k[1]), 3, 1.12e-16);
            if (c.bad) return;
        }
    }
    // the operator is bilinear in (b, u): every pair of unit vectors decides it for all coefficients and data on the box
    for (auto& b : boxes<D>(D == 1 ? std::vector<int>{1, 4} : D == 2 ? std::vector<int>{1, 3} : std::vector<int>{1, 2}, {{-1, 0, 1}})) {
        Pipe<D> s{b, 1, 0, 0, {0.5, 0.25, 0.125}, 0.75, -1.5, 2, {}};
        s.table();
        World w0 = s.world(c.seed);
        for (int d = 0; d < D; d++)
            for (long f = 0; f < w0.f[s.B + d].n; f++) {
                if (!c.scenario()) continue;
                c.kinds.insert(fmt("%dD unit vectors", D));
                for (long u = 0; u < w0.f[s.U].n; u++) {
                    World w = w0;
                    for (int q = 0; q < D; q++)
                        for (auto& x : w.f[s.B + q].d) x = 0.0;
                    for (auto& x : w.f[s.U].d) x = 0.0;
                    w.f[s.B + d].d[f] = 1.0;
                    w.f[s.U].d[u] = 1.0;
                    s.template explore<double>(c, w, fmt("%dD box %s b = unit %d:%ld u = unit %ld", D, b.str().c_str(), d, f, u), 3, 1.12e-16);
                    if (c.bad) return;
                }
            }
    }
}
void check(Ctx& c)
{
    c.bounds = "1-3D boxes, three operator forms, ghost widths, four (alpha, beta), three spacings; every interleaving of {flux, apply} with {off-diagonal, diagonal, "
               "stencil application} and every choice of implementation (Thrust, cell Fortran, node Fortran) for every step; every pair of unit vectors (b, u) on small boxes"
               "; unusual cases: boxes to 70001 cells long and 300x260, 41x37x33 cells, 10^6 from the origin, equal, tiny and huge spacings, zero, constant, tiny, huge data";
    dim<1>(c);
    dim<2>(c);
    dim<3>(c);
}
int main(int argc, char** argv) { return core_main(argc, argv); }

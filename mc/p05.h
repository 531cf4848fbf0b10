// P05: shifts, gradients and neighbour pairs
#pragma once
#include "dsl.h"
enum { X = 0, Y = 1, Z = 2 };
struct G3 {
    int g[3];
};
static const double HH[3] = {0.5, 0.3125, 1.375};
struct Sh { // displacement of an operand
    int v[3] = {0, 0, 0};
};
static Sh sh(int q, int s)
{
    Sh r;
    r.v[q] = s;
    return r;
}
static bool inside(const Field& f, const Dom& d, const Sh& s)
{
    for (int q = 0; q < 3; q++)
        if (d.lo[q] + s.v[q] < f.lo[q] || d.hi[q] + s.v[q] > f.hi[q]) return false;
    return true;
}
static Num at(const Field& f, const int* x, const Sh& s, int m = 1)
{
    int y[3];
    for (int q = 0; q < 3; q++) y[q] = x[q] + m * s.v[q];
    return f.get(y);
}
template <class F> static auto each(Dom d, F f)
{
    return [=](World& w) { d.each([&](const int* x) { w[X].set(x, f(w, x)); }); };
}
// gradients and pairs need the two neighbours, upward or downward
static Num gr(const Field& f, const int* x, int q, int dir)
{
    Num h = HH[q];
    return dir > 0 ? (at(f, x, sh(q, 1)) - f.get(x)) / h : (f.get(x) - at(f, x, sh(q, -1))) / h;
}
#define BODY(...)                                                         \
    [=](auto tag, auto& p) {                                              \
        using T = TT;                                                     \
        auto x = PX::span(p(X), g.g[0], b);                               \
        auto y = PY::span((const T*)p(Y), g.g[1], b);                     \
        auto z = PZ::span(p(Z), g.g[2], b);                               \
        auto dom = [&](auto&& a) { Q::domain(d)(std::forward<decltype(a)>(a)); }; \
        const T c = T(0.75), h0 = HH[0], h1 = HH[1], h2 = HH[2];          \
        (void)c, (void)h0, (void)h1, (void)h2;                            \
        __VA_ARGS__;                                                      \
    }
#define ADD(cond, name, mod, ...)                                                                                             \
    if (cond) ops.push_back(mkop(fmt("domain %s order %s: %s", d.str(Q::slow()).c_str(), Q::str().c_str(), std::string(name).c_str()), impls, each(d, [=](const World& w, const int* i) { Num c = 0.75; (void)c; return mod; }), BODY(__VA_ARGS__)))

// q: field axis; gx, sx, pr: the members for that axis
#define AXIS(q, sx, gx, pr, hh)                                                                                                               \
    if constexpr (((PX::slow1(q)))) {                                                                                                         \
        for (int s = -2; s <= 2; s++) {                                                                                                       \
            ADD(inside(w0[Y], d, sh(q, s)), fmt("x = y." #sx "(%d)", s), at(w[Y], i, sh(q, s)), dom(x = y.sx(s)));                            \
            ADD(inside(w0[Y], d, sh(q, s)) && inside(w0[Y], d, sh(q, -s)), fmt("x = c * y." #sx "(%d) - y." #sx "(%d) * z", s, -s),           \
                c * at(w[Y], i, sh(q, s)) - at(w[Y], i, sh(q, -s)) * w[Z].get(i), dom(x = c * y.sx(s) - y.sx(-s) * z));                       \
        }                                                                                                                                     \
        if (d.st[q] == 1 || strided) {                                                                                                        \
            bool uy = inside(w0[Y], d, sh(q, 1)), dy = inside(w0[Y], d, sh(q, -1));                                                           \
            ADD(uy && !strided, "x = y." #sx "()", at(w[Y], i, sh(q, 1)), dom(x = y.sx()));                                                   \
            ADD(uy, "x = y." #gx "(h)", gr(w[Y], i, q, 1), dom(x = y.gx(hh)));                                                                \
            if (strided) continue;                                                                                                            \
            ADD(uy, "x = y." #gx "(h, up)", gr(w[Y], i, q, 1), dom(x = y.gx(hh, up)));                                                        \
            ADD(dy, "x = y." #gx "(h, down)", gr(w[Y], i, q, -1), dom(x = y.gx(hh, down)));                                                   \
            ADD(uy && dy, "x = (y." #gx "(h) - y." #gx "(h, down)) * z + c", (gr(w[Y], i, q, 1) - gr(w[Y], i, q, -1)) * w[Z].get(i) + c,      \
                dom(x = (y.gx(hh) - y.gx(hh, down)) * z + c));                                                                                \
            for (int k = 0; k < 2; k++) {                                                                                                     \
                if (!(k ? dy : uy)) continue;                                                                                                 \
                ops.push_back(mkop(fmt("domain %s order %s: pairs y." #pr "(%s)", d.str(Q::slow()).c_str(), Q::str().c_str(), k ? "down" : ""), impls, \
                                   [=](World& w) {                                                                                            \
                                       d.each([&](const int* i) {                                                                             \
                                           w[X].set(i, at(w[Y], i, sh(q, k ? -1 : 0)));                                                       \
                                           w[Z].set(i, Num(3) * at(w[Y], i, sh(q, k ? 0 : 1)) - Num(1));                                      \
                                       });                                                                                                    \
                                   },                                                                                                         \
                                   BODY(auto put = [&](auto it, auto it3) {                                                                   \
                                       auto ox = Q::call(x, d); auto oz = Q::call(z, d);                                                      \
                                       long n = ox.size();                                                                                    \
                                       for (long m = 0; m < n; m++) { auto s = *(it + m); auto s3 = it3[m]; ox[m] = s.a; oz[m] = s3.b; }      \
                                   };                                                                                                         \
                                   if (k) put(Q::call(y.pr(down), d), Q::call(3 * y.pr(down) - 1, d)); else put(Q::call(y.pr(), d), Q::call(3 * y.pr() - 1, d))))); \
            }                                                                                                                                 \
        }                                                                                                                                     \
    }
#define TWO(p, q, sp, sq, spq)                                                                                                                \
    if constexpr (((PX::slow1(p)))&&((PX::slow1(q))))                                                                                         \
        if (!strided) {                                                                                                                       \
            for (int s = -1; s <= 2; s++)                                                                                                     \
                for (int t = -2; t <= 1; t++) {                                                                                               \
                    Sh u;                                                                                                                     \
                    u.v[p] = s, u.v[q] = t;                                                                                                   \
                    ADD(inside(w0[Y], d, u), fmt("x = y." #spq "(%d, %d)", s, t), at(w[Y], i, u), dom(x = y.spq(s, t)));                      \
                    ADD(inside(w0[Y], d, sh(p, s)) && inside(w0[Z], d, sh(q, t)), fmt("x = y." #sp "(%d) - z." #sq "(%d)", s, t),             \
                        at(w[Y], i, sh(p, s)) - at(w[Z], i, sh(q, t)), dom(x = y.sp(s) - z.sq(t)));                                           \
                }                                                                                                                             \
            Sh one;                                                                                                                           \
            one.v[p] = one.v[q] = 1;                                                                                                          \
            ADD(inside(w0[Y], d, one), "x = y." #spq "()", at(w[Y], i, one), dom(x = y.spq()));                                               \
        }
#define GRAD2(p, q, gp, gq, hp, hq)                                                                                                           \
    if constexpr (((PX::slow1(p)))&&((PX::slow1(q))))                                                                                         \
        if (!strided)                                                                                                                         \
            ADD(d.st[p] == 1 && d.st[q] == 1 && inside(w0[Y], d, sh(p, 1)) && inside(w0[Z], d, sh(q, -1)),                                    \
                "x = c * y." #gp "(h) + z." #gq "(h, down)", c * gr(w[Y], i, p, 1) + gr(w[Z], i, q, -1), dom(x = c * y.gp(hp) + z.gq(hq, down)));

template <class PX, class PY, class PZ, class Q>
static void ops05(std::vector<OpP>& ops, const World& w0, const Dom& b, const Dom& d, G3 g, unsigned impls, bool strided)
{
    for (int once = 0; once < 1; once++) { AXIS(0, shift_x, grad_x, stencil_x, h0) }
    for (int once = 0; once < 1; once++) { AXIS(1, shift_y, grad_y, stencil_y, h1) }
    for (int once = 0; once < 1; once++) { AXIS(2, shift_z, grad_z, stencil_z, h2) }
    TWO(0, 1, shift_x, shift_y, shift_xy)
    TWO(0, 2, shift_x, shift_z, shift_xz)
    TWO(1, 2, shift_y, shift_z, shift_yz)
    GRAD2(0, 1, grad_x, grad_y, h0, h1)
    GRAD2(1, 2, grad_y, grad_z, h1, h2)
    GRAD2(2, 0, grad_z, grad_x, h2, h0)
}
template <class PX, class PY, class PZ, class Q> static void scen(Ctx& c, const Dom& b, G3 g, int maxst, int depth, unsigned impls, bool sub)
{
    if (!c.scenario()) return;
    c.kinds.insert(fmt("%dD storage %s/%s/%s domain order %s", PX::N, PX::str().c_str(), PY::str().c_str(), PZ::str().c_str(), Q::str().c_str()));
    World w;
    w.f.push_back(ordField("x", PX::fields(), b, g.g[0]));
    w.f.push_back(ordField("y", PY::fields(), b, g.g[1]));
    w.f.push_back(ordField("z", PZ::fields(), b, g.g[2]));
    for (int k = 0; k < 3; k++) fill(w.f[k], c.seed * 17 + k, SIGNED);
    int gm = std::min({g.g[0], g.g[1], g.g[2]});
    Dom r = b;
    for (int q : PX::slow()) r.lo[q] -= gm, r.hi[q] += gm;
    std::vector<OpP> ops;
    if (sub)
        for (auto& d : subdoms(r, PX::slow(), maxst)) ops05<PX, PY, PZ, Q>(ops, w, b, d, g, impls, false);
    else ops05<PX, PY, PZ, Q>(ops, w, b, b, g, impls, false);
    c.explore(w, ops, depth, fmt("x %s y %s z %s, box %s, ghosts %d,%d,%d", PX::str().c_str(), PY::str().c_str(), PZ::str().c_str(),
                                 b.str(PX::slow()).c_str(), g.g[0], g.g[1], g.g[2]));
}
// gradients along an axis with a stride in the domain (a recorded finding): each form on its own
template <class PX, class Q> static void strided(Ctx& c, const Dom& d)
{
    for (int k = 0;; k++) {
        World w;
        w.f.push_back(ordField("x", PX::fields(), d, 0));
        w.f.push_back(ordField("y", PX::fields(), d, 2));
        w.f.push_back(ordField("z", PX::fields(), d, 0));
        for (int k = 0; k < 3; k++) fill(w.f[k], c.seed * 17 + k, SIGNED);
        std::vector<OpP> ops;
        G3 g{{0, 2, 0}};
        ops05<PX, PX, PX, Q>(ops, w, d, d, g, 1, true);
        std::vector<OpP> gr;
        for (auto& o : ops)
            if (o->label.find("= y.grad") != std::string::npos) gr.push_back(o);
        if (k >= (int)gr.size()) return;
        if (c.scenario()) c.explore(w, {gr[k]}, 1, "gradient along a strided axis");
    }
}
#include "orders.h"
template <class OS> static void family(Ctx& c, const std::vector<int>& ext, const std::vector<std::vector<int>>& orgs,
                                       const std::vector<G3>& gs, int maxst, int depth, unsigned impls, bool sub)
{
    orders<OS, 0>([&](auto px, auto py, auto pz) {
        domorders<OS, 0>([&](auto q) {
            for (auto& o : orgs)
                for (auto& g : gs)
                    forext(px.slow(), ext, o, [&](const Dom& b) {
                        scen<decltype(px), decltype(py), decltype(pz), decltype(q)>(c, b, g, maxst, depth, impls, sub);
                    });
        });
    });
}
// long boxes: a few domains each
template <class OS> static void longs(Ctx& c, const std::vector<int>& org, unsigned impls)
{
    orders<OS, 0>([&](auto px, auto py, auto pz) {
        domorders<OS, 0>([&](auto q) {
            G3 g{{0, 2, 1}};
            forlong(px.slow(), org, [&](const Dom& b) { scen<decltype(px), decltype(py), decltype(pz), decltype(q)>(c, b, g, -1, 1, impls, true); });
        });
    });
}

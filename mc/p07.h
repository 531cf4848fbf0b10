// P07: assignments of coefficient-array entries
#pragma once
#include "dsl.h"
enum { S = 0, U = 1, V = 2, R = 3 };
static const int W = 4;
struct G4 {
    int g[4];
};
struct Slot : Num { // remembers being assigned, whatever the value
    bool set = false;
    Slot& operator=(const Num& x)
    {
        Num::operator=(x);
        set = true;
        return *this;
    }
    Slot& operator=(const Slot& x) { return *this = (const Num&)x; }
    void load(Num x) { Num::operator=(x); }
};
struct Cell { // one cell of the model: the entries and the other arrays' elements
    Slot s[W], u, v, r;
};
template <class F> static auto cellwise(Dom d, F f)
{
    return [=](World& w) {
        d.each([&](const int* x) {
            Cell c;
            for (int k = 0; k < W; k++) c.s[k].load(w[S].get(x, k));
            c.u.load(w[U].get(x)), c.v.load(w[V].get(x)), c.r.load(w[R].get(x));
            f(c, w, x);
            for (int k = 0; k < W; k++)
                if (c.s[k].set) w[S].set(x, k, c.s[k]);
            if (c.r.set) w[R].set(x, c.r);
            if (c.u.set) w[U].set(x, c.u);
        });
    };
}
#define ST(mod, ...)                                                                                                          \
    ops.push_back(mkop(fmt("domain %s order %s: %s", d.str(Q::slow()).c_str(), Q::str().c_str(), #__VA_ARGS__), impls,         \
                       cellwise(d, [=](Cell& m, const World& w, const int* i) { Num c = 0.75, h = 0.5; (void)c, (void)h; auto &s = m.s; auto &u = m.u, &v = m.v, &r = m.r; (void)s, (void)u, (void)v, (void)r; mod; }), \
                       [=](auto tag, auto& p) {                                                                               \
                           using T = TT;                                                                                      \
                           auto st = PS::wspan(p(S), g.g[0], b, W);                                                           \
                           auto u = PU::span(p(U), g.g[1], b);                                                                \
                           auto v = PV::span((const T*)p(V), g.g[2], b);                                                      \
                           auto r = PR::span(p(R), g.g[3], b);                                                                \
                           auto set = [&](auto&&... a) { Q::wdomain(st.window(), d)(std::forward<decltype(a)>(a)...); };      \
                           const T c = T(0.75), h = T(0.5);                                                                   \
                           (void)c, (void)h, (void)u, (void)v, (void)r;                                                       \
                           __VA_ARGS__;                                                                                       \
                       }))
static Num nb(const World& w, const int* x, int q, int s)
{
    int y[3] = {x[0], x[1], x[2]};
    y[q] += s;
    return w[V].get(y);
}
template <class PS, class PU, class PV, class PR, class Q>
static void ops07(std::vector<OpP>& ops, const World& w0, const Dom& b, const Dom& d, G4 g, unsigned impls)
{
    // numbers, arrays, expressions of arrays
    ST(s[0] = c, set(st(0) = c));
    ST((s[2] = 1, s[0] = c), set(st(2) = 1, st(0) = c));
    ST(s[1] = u, set(st(1) = u));
    ST(s[3] = c * u - v / 2, set(st(3) = c * u - v / 2));
    // entries of the same cell
    ST(s[0] = -(s[1] + s[2]), set(st(0) = -(st(1) + st(2))));
    ST(s[1] = c - s[0] / 2, set(st(1) = c - st(0) / 2));
    ST(s[2] = s[3] * s[2] - s[1], set(st(2) = st(3) * st(2) - st(1)));
    ST(s[0] = 2 / (s[1] - 8), set(st(0) = 2 / (st(1) - 8)));
    ST(s[3] = (s[0] - s[1]) - (s[2] - s[3]), set(st(3) = (st(0) - st(1)) - (st(2) - st(3))));
    // entries and one array, operands either way round
    ST(s[0] = s[1] - u, set(st(0) = st(1) - u));
    ST(s[0] = u - s[1], set(st(0) = u - st(1)));
    ST(s[1] = s[0] / (v + 8), set(st(1) = st(0) / (v + 8)));
    ST(s[1] = v / (s[3] + 8), set(st(1) = v / (st(3) + 8)));
    ST(s[0] = -(s[1] + s[2] + s[3]) + c * u, set(st(0) = -(st(1) + st(2) + st(3)) + c * u));
    ST(s[2] = s[3] - s[1] * u, set(st(2) = st(3) - st(1) * u));
    ST(s[2] = u * s[1] - s[3], set(st(2) = u * st(1) - st(3)));
    // two and three arrays
    ST(s[0] = s[1] * u + v, set(st(0) = st(1) * u + v));
    ST(s[0] = v - s[1] * u, set(st(0) = v - st(1) * u));
    ST(s[0] = u * s[1] - v, set(st(0) = u * st(1) - v));
    ST(s[0] = v - u * s[1], set(st(0) = v - u * st(1)));
    ST(s[3] = (s[0] - u) * v - r, set(st(3) = (st(0) - u) * v - r));
    ST(s[3] = r - v * (u - s[0]), set(st(3) = r - v * (u - st(0))));
    ST(s[1] = r - (s[0] * u - v), set(st(1) = r - (st(0) * u - v)));
    ST(s[1] = (s[0] * u - s[2]) * v - s[3], set(st(1) = (st(0) * u - st(2)) * v - st(3)));
    ST(s[2] = u / 3 - s[0] / 5 + v / 7, set(st(2) = u / 3 - st(0) / 5 + v / 7));
    // several assignments in order
    ST((s[0] = u, s[1] = s[0] * 2, s[0] = s[1] - s[0] * v), set(st(0) = u, st(1) = st(0) * 2, st(0) = st(1) - st(0) * v));
    ST((s[3] = 1, s[2] = v - s[3], s[3] = c * v, s[1] = s[3] + s[2]), set(st(3) = 1, st(2) = v - st(3), st(3) = c * v, st(1) = st(3) + st(2)));
    ST((s[0] = s[1] - u, s[1] = c, s[2] = s[1] * v, s[1] = h), set(st(0) = st(1) - u, st(1) = c, st(2) = st(1) * v, st(1) = h));
    // accumulation
    ST(r = r - s[0] * u, set(r -= st(0) * u));
    ST(r = r - (c * s[1] - v), set(r -= c * st(1) - v));
    ST(r = r - s[2], set(r -= st(2)));
    ST((r = r - s[2] * v, u = u - s[1] * r), set(r -= st(2) * v, u -= st(1) * r));
    ST((r = r - s[0] * u, r = r - s[1] * r, u = u - c * s[3]), set(r -= st(0) * u, r -= st(1) * r, u -= c * st(3)));
    // pairs
#define PAIR(q, fn)                                                                                                           \
    if constexpr (PS::slow1(q))                                                                                               \
        if (d.st[q] == 1) {                                                                                                   \
            bool up_ = d.hi[q] + 1 <= w0[V].hi[q], dn_ = d.lo[q] - 1 >= w0[V].lo[q];                                          \
            if (up_) ST((s[1] = nb(w, i, q, 0), s[2] = nb(w, i, q, 1)), set((st(1, 2) = v.fn())));                             \
            if (up_) ST((s[2] = c * nb(w, i, q, 0) / h, s[0] = c * nb(w, i, q, 1) / h, s[3] = -(s[2] + s[0]) + u),              \
                        set((st(2, 0) = c * v.fn() / h), st(3) = -(st(2) + st(0)) + u));                                      \
            if (up_) ST((s[0] = s[1] * u, s[1] = nb(w, i, q, 0), s[3] = nb(w, i, q, 1), s[2] = s[1] - s[3], s[1] = c),          \
                        set(st(0) = st(1) * u, (st(1, 3) = v.fn()), st(2) = st(1) - st(3), st(1) = c));                       \
            if (dn_) ST((s[0] = 1 - nb(w, i, q, -1), s[3] = 1 - nb(w, i, q, 0)), set((st(0, 3) = 1 - v.fn(down))));            \
        }
    PAIR(0, stencil_x)
    PAIR(1, stencil_y)
    PAIR(2, stencil_z)
    ST((s[1] = c, s[3] = c), set((st(1, 3) = c)));
    ST((s[2] = 1, s[1] = c, s[3] = h, s[2] = h), set(st(2) = 1, (st(1, 3) = c), (st(3, 2) = h)));
}
template <class PS, class PU, class PV, class PR, class Q> static void scen(Ctx& c, const Dom& b, G4 g, int maxst, int depth, unsigned impls)
{
    if (!c.scenario()) return;
    c.kinds.insert(fmt("%dD storage %s,w/%s/%s/%s domain order %s", PS::N, PS::str().c_str(), PU::str().c_str(), PV::str().c_str(), PR::str().c_str(), Q::str().c_str()));
    World w;
    w.f.push_back(ordField("st", PS::fields(), b, g.g[0], W));
    w.f.push_back(ordField("u", PU::fields(), b, g.g[1]));
    w.f.push_back(ordField("v", PV::fields(), b, g.g[2]));
    w.f.push_back(ordField("r", PR::fields(), b, g.g[3]));
    for (int k = 0; k < 4; k++) fill(w.f[k], c.seed * 23 + k, SIGNED);
    int gm = std::min({g.g[0], g.g[1], g.g[2], g.g[3]});
    Dom r = b;
    for (int q : PS::slow()) r.lo[q] -= gm, r.hi[q] += gm;
    std::vector<OpP> ops;
    if (maxst)
        for (auto& d : subdoms(r, PS::slow(), maxst)) ops07<PS, PU, PV, PR, Q>(ops, w, b, d, g, impls);
    else ops07<PS, PU, PV, PR, Q>(ops, w, b, b, g, impls);
    c.explore(w, ops, depth, fmt("st %s u %s v %s r %s, box %s, ghosts %d,%d,%d,%d", PS::str().c_str(), PU::str().c_str(), PV::str().c_str(), PR::str().c_str(),
                                 b.str(PS::slow()).c_str(), g.g[0], g.g[1], g.g[2], g.g[3]));
}
#include "orders.h"
template <class PX, class PY, class PZ, class Q> static void boxes07(Ctx& c, const std::vector<int>& ext, const std::vector<std::vector<int>>& orgs, const std::vector<G4>& gs, int maxst, int depth)
{
    for (auto& o : orgs)
        for (auto& g : gs) forext(PX::slow(), ext, o, [&](const Dom& b) { scen<PX, PY, PZ, PX, Q>(c, b, g, maxst, depth, IMPLS); });
}
// every storage order with every domain order
template <class OS> static void family(Ctx& c, const std::vector<int>& ext, const std::vector<std::vector<int>>& orgs, const std::vector<G4>& gs, int maxst, int depth)
{
    orders<OS, 0>([&](auto px, auto py, auto pz) {
        domorders<OS, 0>([&](auto q) { boxes07<decltype(px), decltype(py), decltype(pz), decltype(q)>(c, ext, orgs, gs, maxst, depth); });
    });
}
// long boxes: a few domains each
template <class OS> static void longs(Ctx& c, const std::vector<int>& org)
{
    orders<OS, 0>([&](auto px, auto py, auto pz) {
        domorders<OS, 0>([&](auto q) {
            G4 g{{0, 1, 1, 0}};
            forlong(px.slow(), org, [&](const Dom& b) { scen<decltype(px), decltype(py), decltype(pz), decltype(px), decltype(q)>(c, b, g, -1, 1, IMPLS); });
        });
    });
}

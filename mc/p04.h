// P04: assignments over index domains
#include "dsl.h"
enum { X = 0, Y = 1, Z = 2 };
template <class F> static auto elementwise(Dom d, F f)
{
    return [=](World& w) {
        d.each([&](const int* x) { w[X].set(x, f(w[X].get(x), w[Y].get(x), w[Z].get(x))); });
    };
}
#define EXPR(name, cond, code, mod)                                                                                   \
    if (cond)                                                                                                        \
    ops.push_back(mkop(fmt("domain %s order %s: %s", d.str(Q::slow()).c_str(), Q::str().c_str(), name), impls,        \
                       mod, [=](auto tag, auto& p) {                                                                 \
                           using T = TT;                                                                             \
                           (void)sizeof(T);                                                                          \
                           auto x = PX::span(p(X), g.g[0], b);                                                       \
                           auto y = PY::span((const T*)p(Y), g.g[1], b);                                             \
                           auto z = PZ::span(p(Z), g.g[2], b);                                                       \
                           auto yw = PY::span(p(Y), g.g[1], b);                                                       \
                           auto dom = [&](auto&&... a) { Q::domain(d)(std::forward<decltype(a)>(a)...); };           \
                           const T c = T(0.75), e = T(2.5);                                                          \
                           (void)c, (void)e, (void)yw;                                                               \
                           code;                                                                                     \
                       }))
struct G3 {
    int g[3];
};
#define MOD(expr) elementwise(d, [](Num x, Num y, Num z) { (void)x, (void)y, (void)z; Num c = 0.75, e = 2.5; (void)c, (void)e; return expr; })
template <class PX, class PY, class PZ, class Q> static void exprs(std::vector<OpP>& ops, const Dom& b, const Dom& d, G3 g, unsigned impls, bool lhs)
{
    EXPR("x = c", true, dom(x = c), MOD(c));
    EXPR("x = 3 (int)", true, dom(x = 3), MOD(Num(3)));
    EXPR("x = y", true, dom(x = y), MOD(y));
    EXPR("x = y + z", true, dom(x = y + z), MOD(y + z));
    EXPR("x = x * y - z", true, dom(x = x * y - z), MOD(x * y - z));
    EXPR("x = c - z / (y + e)", true, dom(x = c - z / (y + e)), MOD(c - z / (y + e)));
    EXPR("x = c * (z - y) / (e + 2 * y)", true, dom(x = c * (z - y) / (e + 2 * y)), MOD(c * (z - y) / (e + Num(2) * y)));
    EXPR("x = y / 3 + z / 5", true, dom(x = y / 3 + z / 5), MOD(y / Num(3) + z / Num(5)));
    EXPR("x = (y - z) * (x + y) - (2 - z) / 4", true, dom(x = (y - z) * (x + y) - (2 - z) / 4), MOD((y - z) * (x + y) - (Num(2) - z) / Num(4)));
    EXPR("x = y, z = x - c, x = x * z", true, dom(x = y, z = x - c, x = x * z), [=](World& w) {
        Num c = 0.75;
        d.each([&](const int* i) { w[X].set(i, w[Y].get(i)); });
        d.each([&](const int* i) { w[Z].set(i, w[X].get(i) - c); });
        d.each([&](const int* i) { w[X].set(i, w[X].get(i) * w[Z].get(i)); });
    });
    EXPR("x = y + z, y = c", true, dom(x = y + z, yw = c), [=](World& w) {
        Num c = 0.75;
        d.each([&](const int* i) { w[X].set(i, w[Y].get(i) + w[Z].get(i)); });
        d.each([&](const int* i) { w[Y].set(i, c); });
    });
    EXPR("x = c, z = x * y, x = 2 - z, z = e, y = z / y", true, dom(x = c, z = x * y, x = 2 - z, z = e, yw = z / y), [=](World& w) {
        Num c = 0.75; Num e = 2.5;
        d.each([&](const int* i) { w[X].set(i, c); });
        d.each([&](const int* i) { w[Z].set(i, w[X].get(i) * w[Y].get(i)); });
        d.each([&](const int* i) { w[X].set(i, Num(2) - w[Z].get(i)); });
        d.each([&](const int* i) { w[Z].set(i, e); });
        d.each([&](const int* i) { w[Y].set(i, w[Z].get(i) / w[Y].get(i)); });
    });
    if (lhs) { // the domain is the whole destination
        EXPR("with_domain()(x = c / y)", true, with_domain()(x = c / y), MOD(c / y));
        EXPR("with_lhs_domain(x = z - x)", true, with_lhs_domain(x = z - x), MOD(z - x));
        EXPR("with_lhs_domain(x = e)", true, with_lhs_domain(x = e), MOD(e));
    }
}
template <class PX, class PY, class PZ, class Q>
static void scen(Ctx& c, const Dom& b, G3 g, int maxst, int depth, unsigned impls, int pat)
{
    if (!c.scenario()) return;
    c.kinds.insert(fmt("%dD storage %s/%s/%s domain order %s", PX::N, PX::str().c_str(), PY::str().c_str(), PZ::str().c_str(), Q::str().c_str()));
    World w;
    w.f.push_back(ordField("x", PX::fields(), b, g.g[0]));
    w.f.push_back(ordField("y", PY::fields(), b, g.g[1]));
    w.f.push_back(ordField("z", PZ::fields(), b, g.g[2]));
    for (int k = 0; k < 3; k++) fill(w.f[k], c.seed * 11 + k, k == Y ? POSITIVE : pat);
    int gm = std::min({g.g[0], g.g[1], g.g[2]});
    Dom r = b;
    for (int q : PX::slow()) r.lo[q] -= gm, r.hi[q] += gm;
    std::vector<OpP> ops;
    for (auto& d : subdoms(r, PX::slow(), maxst)) exprs<PX, PY, PZ, Q>(ops, b, d, g, impls, false);
    if (gm == g.g[0]) { // whole-destination forms
        std::vector<OpP> o;
        Dom d = r;
        exprs<PX, PY, PZ, Q>(o, b, d, g, impls, true);
        ops.insert(ops.end(), o.begin() + 12, o.end());
    }
    c.explore(w, ops, depth, fmt("x %s y %s z %s, box %s, ghosts %d,%d,%d", PX::str().c_str(), PY::str().c_str(), PZ::str().c_str(),
                                 b.str(PX::slow()).c_str(), g.g[0], g.g[1], g.g[2]));
}
#include "orders.h"
template <class OS> static void family(Ctx& c, const std::vector<int>& ext, const std::vector<std::vector<int>>& orgs,
                                                      const std::vector<G3>& gs, int maxst, int depth, unsigned impls)
{
    int n = 0;
    orders<OS, 0>([&](auto px, auto py, auto pz) {
        domorders<OS, 0>([&](auto q) {
            for (auto& o : orgs)
                for (auto& g : gs)
                    forext(px.slow(), ext, o, [&](const Dom& b) {
                        scen<decltype(px), decltype(py), decltype(pz), decltype(q)>(c, b, g, maxst, depth, impls, (n++ & 1) ? SIGNED : POSITIVE);
                    });
        });
    });
}
// long boxes: a few domains each
template <class OS> static void longs(Ctx& c, const std::vector<int>& org, unsigned impls)
{
    int n = 0;
    orders<OS, 0>([&](auto px, auto py, auto pz) {
        domorders<OS, 0>([&](auto q) {
            for (auto& g : {G3{{0, 0, 0}}, G3{{1, 3, 0}}})
                forlong(px.slow(), org, [&](const Dom& b) { scen<decltype(px), decltype(py), decltype(pz), decltype(q)>(c, b, g, -1, 1, impls, (n++ & 1) ? SIGNED : POSITIVE); });
        });
    });
}

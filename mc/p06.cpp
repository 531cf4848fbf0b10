// P06: bounds algebra, and domains without indices
#include "p05.h"
template <class B> struct Bn {
    B b;
    int lo, hi, st;
    std::string path;
    std::string key() const { return fmt("%d/%d/%d", lo, hi, st); }
};
static int count(int lo, int hi, int st)
{
    int n = 0;
    for (int i = lo; i <= hi; i += st) n++;
    return n;
}
template <class B, bool DIR> static void algebra(Ctx& c, const char* name, int R, int depth)
{
    for (int lo = -R; lo <= R; lo++)
        for (int hi = lo - 3; hi <= lo + R + 2; hi++)
            for (int st = 1; st <= 4; st++) {
                if (!c.scenario()) continue;
                c.kinds.insert(fmt("%s algebra", name));
                using N = Bn<B>;
                std::string scen = fmt("%s{%d, %d, %d}", name, lo, hi, st);
                std::set<std::string> seen;
                std::vector<N> cur{{B(lo, hi, st), lo, hi, st, ""}}, nxt;
                auto ok = [&](const N& n) {
                    c.cells += 6, c.changed += 6;
                    int s = count(n.lo, n.hi, n.st);
                    if (n.b.lb() != n.lo || n.b.ub() != n.hi || n.b.stride != n.st || n.b.size() != s)
                        return c.violation(fmt("%s%s describes %d..%d:%d (%d indices), expected %d..%d:%d (%d indices)", scen.c_str(), n.path.c_str(), n.b.lb(), n.b.ub(),
                                               n.b.stride, n.b.size(), n.lo, n.hi, n.st, s)),
                               false;
                    return true;
                };
                c.doing(scen, "", "");
                {
                    N h{B(lo, hi, st, false), lo, hi - 1, st, " (exclusive)"};
                    if (!ok(cur[0]) || !ok(h)) return;
                }
                seen.insert(cur[0].key());
                c.states++;
                for (int d = 0; d < depth; d++) {
                    nxt.clear();
                    for (auto& n : cur) {
                        auto go = [&](B b, int l, int h, int s, const std::string& how) {
                            N m{b, l, h, s, n.path + how};
                            c.transitions++, c.runs++;
                            if (!ok(m)) return false;
                            if (seen.insert(m.key()).second) c.states++, nxt.push_back(m);
                            return true;
                        };
                        for (int x = 0; x <= 3; x++) {
                            B a = n.b, e = n.b;
                            a += x;
                            e -= x;
                            if (!go(a, n.lo, n.hi + x, n.st, fmt(" += %d", x)) || !go(e, n.lo - x, n.hi, n.st, fmt(" -= %d", x))) return;
                            if (!go(n.b + x, n.lo, n.hi + x, n.st, fmt(" + %d", x)) || !go(n.b - x, n.lo - x, n.hi, n.st, fmt(" - %d", x))) return;
                            if constexpr (DIR)
                                if (!go(n.b + (-x), n.lo - x, n.hi, n.st, fmt(" + (%d)", -x))) return;
                        }
                        for (int x = -2; x <= 3; x++) {
                            if (!go(n.b.expand(x), n.lo - x, n.hi + x, n.st, fmt(".expand(%d)", x))) return;
                            if constexpr (DIR)
                                if (!go(n.b.shift(x), n.lo + x, n.hi + x, n.st, fmt(".shift(%d)", x))) return;
                        }
                        if constexpr (DIR)
                            if (!go(n.b.unit_stride(), n.lo, n.hi, 1, ".unit_stride()")) return;
                    }
                    cur.swap(nxt);
                }
                c.sample(scen);
            }
}
// spans made from bounds: element (index) lives where row-major storage over the expanded bounds puts it
template <class P> static void spans(Ctx& c)
{
    forext(P::slow(), {1, 2, 3}, {-2, 0, 1}, [&](const Dom& b0) {
        for (int st = 1; st <= 2; st++)
            for (int g = 0; g <= 2; g++) {
                if (!c.scenario()) continue;
                c.kinds.insert("spans over bounds");
                Dom b = b0;
                World w;
                w.f.push_back(ordField("x", P::fields(), b, g));
                fill(w.f[0], c.seed + g, SIGNED);
                Mem<double> m;
                m.load(w);
                for (int q : P::slow()) b.st[q] = st; // the stride of the bounds does not change the array
                c.doing("span", "", "");
                auto x = P::call([&](auto... bn) { return make_md_span(m(0), g, bn...); }, b);
                int i[3];
                Field& f = w.f[0];
                for (i[2] = f.lo[2]; i[2] <= f.hi[2]; i[2]++)
                    for (i[1] = f.lo[1]; i[1] <= f.hi[1]; i[1]++)
                        for (i[0] = f.lo[0]; i[0] <= f.hi[0]; i[0]++) {
                            c.transitions++, c.runs++, c.cells++, c.changed++, c.states++;
                            Dom one;
                            for (int q = 0; q < 3; q++) one.lo[q] = i[q];
                            double* at = P::call([&](auto... bn) { return thrust::raw_pointer_cast(&x.at(bn.lb()...)); }, one);
                            if (at - m(0) != f.idx(i))
                                return c.violation(fmt("span %s ghosts %d: at(%d,%d,%d) is element %ld, expected %ld", P::str().c_str(), g, i[0], i[1], i[2], (long)(at - m(0)), f.idx(i)));
                        }
            }
    });
}
// assignments over domains without indices
template <class P, class Q> static void none(Ctx& c, const std::vector<int>& hi)
{
    const int W = 3;
    size_t tot = 1;
    auto dims = P::slow();
    for (size_t i = 0; i < dims.size(); i++) tot *= hi.size();
    for (size_t k = 0; k < tot; k++)
        for (int st = 1; st <= 3; st++) {
            Dom b, d;
            size_t m = k;
            bool empty = false;
            for (int q : dims) {
                b.lo[q] = -1, b.hi[q] = 1;
                d.lo[q] = 0, d.hi[q] = hi[m % hi.size()], d.st[q] = st;
                empty = empty || d.hi[q] < d.lo[q];
                m /= hi.size();
            }
            if (!empty || !c.scenario()) continue;
            c.kinds.insert(fmt("%dD domains without indices", P::N));
            World w;
            w.f.push_back(ordField("x", P::fields(), b, 1));
            w.f.push_back(ordField("y", P::fields(), b, 4));
            w.f.push_back(ordField("z", P::fields(), b, 1));
            w.f.push_back(ordField("st", P::fields(), b, 1, W));
            for (int f = 0; f < 4; f++) fill(w.f[f], c.seed * 3 + f, POSITIVE);
            std::vector<OpP> ops;
            G3 g{{1, 4, 1}};
            const unsigned impls = 1;
            auto nothing = [](World&) {};
#define NO(name, ...) ops.push_back(mkop(fmt("domain %s order %s: %s", d.str(Q::slow()).c_str(), Q::str().c_str(), name), impls, nothing, __VA_ARGS__))
#define NA(code)                                                                                         \
    NO(#code, [=](auto tag, auto& p) {                                                                    \
        using T = TT;                                                                                    \
        auto x = P::span(p(X), g.g[0], b);                                                               \
        auto y = P::span((const T*)p(Y), g.g[1], b);                                                     \
        auto z = P::span((const T*)p(Z), g.g[2], b);                                                     \
        auto st = P::wspan(p(3), 1, b, W);                                                               \
        auto dom = [&](auto&&... a) { Q::domain(d)(std::forward<decltype(a)>(a)...); };                  \
        auto wdom = [&](auto&&... a) { Q::wdomain(st.window(), d)(std::forward<decltype(a)>(a)...); };   \
        (void)x, (void)y, (void)z;                                                                       \
        code;                                                                                            \
    })
            NA(dom(x = 1.0));
            NA(dom(x = y));
            NA(dom(x = 2 * y + z / 3));
            NA(wdom(st(0) = 1.0));
            NA(wdom(st(1) = y));
            NA(wdom(st(1) = -(st(0) + st(2)) + 2 * y));
            NA(wdom(x -= st(0) * y));
            if constexpr (P::slow1(0)) {
                NA(dom(x = y.shift_x(1)));
                NA(dom(x = y.grad_x(0.5)));
                NA(dom(x = y.grad_x(0.5, down)));
                NA(wdom((st(0, 1) = y.stencil_x())));
            }
            if constexpr (P::slow1(1)) { NA(dom(x = y.grad_y(0.5) + y.grad_y(0.5, down))); }
            if constexpr (P::slow1(2)) { NA(dom(x = y.grad_z(0.5) - y.shift_z(-1))); }
            c.explore(w, ops, 1, fmt("array %s box %s", P::str().c_str(), b.str(dims).c_str()));
        }
}
void check(Ctx& c)
{
    c.bounds = "all bounds with lower end -4..4, extents -2..7, strides 1..4 and every sequence of up to 3 (thorough 5) of +n, -n, expand, shift, unit_stride; "
               "spans over all small boxes in every storage order; every combination of empty extents 0..-3 with full ones in 1D-3D, strides 1..3, all assignment forms";
    algebra<bounds, false>(c, "bounds", 4, c.thorough ? 5 : 3);
    algebra<Ib, true>(c, "Ib", 4, c.thorough ? 5 : 3);
    algebra<Jb, true>(c, "Jb", 2, 2);
    algebra<Kb, true>(c, "Kb", 2, 2);
    algebra<Wb, true>(c, "Wb", 2, 2);
    spans<Ord<2>>(c);
    spans<Ord<1>>(c);
    spans<Ord<1, 2>>(c);
    spans<Ord<2, 1>>(c);
    spans<Ord<0, 1, 2>>(c);
    spans<Ord<2, 0, 1>>(c);
    spans<Ord<1, 2, 0>>(c);
    none<Ord<2>, Ord<2>>(c, {-1, -2, -3, -4});
    none<Ord<1, 2>, Ord<1, 2>>(c, {1, -1, -2, -3, -4});
    none<Ord<1, 2>, Ord<2, 1>>(c, {1, -1, -2, -3});
    none<Ord<0, 1, 2>, Ord<0, 1, 2>>(c, {1, -1, -2, -3});
    none<Ord<0, 1, 2>, Ord<2, 0, 1>>(c, {1, -1, -2, -3});
}
int main(int argc, char** argv) { return core_main(argc, argv); }

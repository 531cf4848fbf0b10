// P01: sub-box, strided and transposed iterators
#include "laws.h"
#include <array>
#include <thrust/device_vector.h>
#include "submatrix_iterator.hpp"
#include "transpose_iterator.hpp"

static int A[4096];
static int* const base = A + 1024;

template <int N> struct Cfg {
    int sz[N], lb[N], ub[N], st[N];
    std::string str() const
    {
        std::string s;
        for (int i = 0; i < N; i++) s += fmt("%s%d[%d..%d:%d]", i ? " x " : "", sz[i], lb[i], ub[i], st[i]);
        return s;
    }
};
// elements of the sub-box in row-major order of the axis order `perm`
template <int N> static std::vector<long> elements(const Cfg<N>& g, const std::vector<int>& perm)
{
    long stride[N];
    stride[N - 1] = 1;
    for (int i = N - 2; i >= 0; i--) stride[i] = stride[i + 1] * g.sz[i + 1];
    std::vector<long> r;
    int M = perm.size();
    int x[N];
    for (int i = 0; i < N; i++) x[i] = g.lb[i];
    while (true) {
        long o = 0;
        for (int i = 0; i < N; i++) o += x[i] * stride[i];
        r.push_back(o);
        int q = M - 1;
        for (; q >= 0; q--) {
            int a = perm[q];
            if ((x[a] += g.st[a]) <= g.ub[a]) break;
            x[a] = g.lb[a];
        }
        if (q < 0) break;
    }
    return r;
}
template <class... A> static bool laws(Ctx& c, bool big, A&&... a) { return big ? lawful_long(c, a...) : lawful(c, a...); }
template <int N, size_t... I> static bool one(Ctx& c, const Cfg<N>& g, std::index_sequence<I...> seq, bool iterof, bool big = false)
{
    constexpr int M = sizeof...(I);
    auto el = elements<N>(g, {int(I)...});
    auto expect = [&](long p) { return el[p]; };
    std::string lab = g.str() + " axes";
    ((lab += fmt(" %d", int(I))), ...);
    if constexpr (M == N) {
        c.doing(lab, "", "");
#ifndef PUBLIC_ONLY
        auto it = detail::make_submatrix_helper<N>(seq, base, g.sz, g.lb, g.ub, g.st);
        if (it.size() != (long)el.size()) return c.violation(fmt("%s: size() is %ld, the sub-box has %zu elements", lab.c_str(), (long)it.size(), el.size())), false;
        if (!laws(c, big, it, el.size(), expect, [](auto& i) { return long(&*i - base); }, lab)) return false;
#endif
        bool id = ((I == 0 || true) && ...);
        for (int i = 0; i < M; i++) id = id && std::array<int, M>{int(I)...}[i] == i;
        if (id) {
            auto s = make_submatrix(base, g.sz, g.lb, g.ub, g.st);
            if (s.size() != (long)el.size()) return c.violation(lab + ": make_submatrix has a wrong size"), false;
            if (!laws(c, big, s, el.size(), expect, [](auto& i) { return long(&*i - base); }, lab + " make_submatrix")) return false;
        }
        bool full = true;
        for (int i = 0; i < N; i++) full = full && g.lb[i] == 0 && g.ub[i] == g.sz[i] - 1 && g.st[i] == 1;
        if (full) {
            auto t = make_transpose<int(I)...>(base, g.sz);
            if (t.size() != (long)el.size()) return c.violation(lab + ": make_transpose has a wrong size"), false;
            if (!laws(c, big, t, el.size(), expect, [](auto& i) { return long(&*i - base); }, lab + " make_transpose")) return false;
        }
    }
#ifndef PUBLIC_ONLY
    if (M < N || iterof) { // iterators over base iterators (windows, dot products)
        auto it = detail::make_submatrix_helper<N>(seq, base, g.sz, g.lb, g.ub, g.st, std::true_type{});
        if (it.size() != (long)el.size()) return c.violation(lab + ": window iterator has a wrong size"), false;
        if (!laws(c, big, it, el.size(), expect, [](auto& i) { return long(*i - base); }, lab + " window")) return false;
    }
#endif
    (void)iterof, (void)seq;
    return true;
}
template <int N, class F> static void perms(F f)
{
    using std::index_sequence;
    if constexpr (N == 1) f(index_sequence<0>{});
    else if constexpr (N == 2) { f(index_sequence<0, 1>{}); f(index_sequence<1, 0>{}); }
    else if constexpr (N == 3) {
        f(index_sequence<0, 1, 2>{}); f(index_sequence<0, 2, 1>{}); f(index_sequence<1, 0, 2>{});
        f(index_sequence<1, 2, 0>{}); f(index_sequence<2, 0, 1>{}); f(index_sequence<2, 1, 0>{});
    } else {
        f(index_sequence<0, 1, 2, 3>{}); f(index_sequence<0, 1, 3, 2>{}); f(index_sequence<0, 2, 1, 3>{}); f(index_sequence<0, 2, 3, 1>{});
        f(index_sequence<0, 3, 1, 2>{}); f(index_sequence<0, 3, 2, 1>{}); f(index_sequence<1, 0, 2, 3>{}); f(index_sequence<1, 0, 3, 2>{});
        f(index_sequence<1, 2, 0, 3>{}); f(index_sequence<1, 2, 3, 0>{}); f(index_sequence<1, 3, 0, 2>{}); f(index_sequence<1, 3, 2, 0>{});
        f(index_sequence<2, 0, 1, 3>{}); f(index_sequence<2, 0, 3, 1>{}); f(index_sequence<2, 1, 0, 3>{}); f(index_sequence<2, 1, 3, 0>{});
        f(index_sequence<2, 3, 0, 1>{}); f(index_sequence<2, 3, 1, 0>{}); f(index_sequence<3, 0, 1, 2>{}); f(index_sequence<3, 0, 2, 1>{});
        f(index_sequence<3, 1, 0, 2>{}); f(index_sequence<3, 1, 2, 0>{}); f(index_sequence<3, 2, 0, 1>{}); f(index_sequence<3, 2, 1, 0>{});
    }
}
template <int N> static void dim(Ctx& c, const std::vector<int>& ext, int maxst)
{
    // all shapes; one scenario per shape and per choice of the first axis range
    size_t tot = 1;
    for (int i = 0; i < N; i++) tot *= ext.size();
    for (size_t k = 0; k < tot; k++) {
        Cfg<N> g;
        size_t m = k;
        for (int i = 0; i < N; i++) g.sz[i] = ext[m % ext.size()], m /= ext.size();
        for (int l0 = 0; l0 < g.sz[0]; l0++)
            for (int u0 = l0; u0 < g.sz[0]; u0++) {
                if (!c.scenario()) continue;
                c.kinds.insert(fmt("%dD sub-boxes, strides and axis orders", N));
                std::function<bool(int)> rec = [&](int i) -> bool {
                    if (i == N) {
                        bool ok = true;
                        perms<N>([&](auto s) { ok = ok && one<N>(c, g, s, true); });
                        if constexpr (N > 1)
                            if (ok && g.lb[N - 1] == 0 && g.ub[N - 1] == g.sz[N - 1] - 1 && g.st[N - 1] == 1) // windows over the last axis
                                perms<N - 1>([&](auto s) { ok = ok && one<N>(c, g, s, true); });
                        return ok;
                    }
                    for (g.st[i] = 1; g.st[i] <= maxst; g.st[i]++)
                        for (g.lb[i] = i ? 0 : l0; g.lb[i] <= (i ? g.sz[i] - 1 : l0); g.lb[i]++)
                            for (g.ub[i] = i ? g.lb[i] : u0; g.ub[i] <= (i ? g.sz[i] - 1 : u0); g.ub[i]++)
                                if (!rec(i + 1)) return false;
                    return true;
                };
                if (!rec(0)) return;
                c.sample(fmt("%dD shape, axis 0 range %d..%d of %d", N, l0, u0, g.sz[0]));
            }
    }
}
// long rows, big boxes, large strides
template <int N> static void longer(Ctx& c, const std::vector<Cfg<N>>& v)
{
    for (auto& g : v) {
        if (!c.scenario()) continue;
        c.kinds.insert(fmt("%dD long and big boxes", N));
        bool ok = true;
        perms<N>([&](auto s) { ok = ok && one<N>(c, g, s, true, true); });
        if (!ok) return;
    }
}
void check(Ctx& c)
{
    longer<1>(c, {{{40000}, {0}, {39999}, {1}}, {{100000}, {3}, {99990}, {7}}, {{700}, {0}, {699}, {300}}});
    longer<2>(c, {{{300, 257}, {0, 0}, {299, 256}, {1, 1}}, {{300, 257}, {1, 2}, {297, 250}, {5, 1}}, {{41, 1000}, {0, 13}, {40, 990}, {1, 17}}, {{3, 9000}, {1, 0}, {1, 8999}, {1, 1}}, {{2, 70000}, {0, 0}, {1, 69999}, {1, 1}}, {{70000, 2}, {0, 0}, {69999, 1}, {1, 1}}, {{65, 17}, {64, 16}, {64, 16}, {9, 9}}});
    longer<3>(c, {{{33, 29, 35}, {0, 0, 0}, {32, 28, 34}, {1, 1, 1}}, {{33, 29, 35}, {1, 2, 3}, {31, 28, 30}, {2, 5, 3}}, {{9, 70, 8}, {0, 3, 0}, {8, 66, 7}, {4, 1, 7}}, {{2, 2, 40000}, {0, 0, 0}, {1, 1, 39999}, {1, 1, 1}}, {{2, 40000, 2}, {0, 0, 0}, {1, 39999, 1}, {1, 1, 1}}});
    longer<4>(c, {{{9, 8, 7, 10}, {0, 0, 0, 0}, {8, 7, 6, 9}, {1, 1, 1, 1}}, {{5, 12, 7, 10}, {1, 0, 2, 3}, {3, 11, 6, 9}, {1, 3, 2, 5}}});
    c.bounds = "every array shape, sub-box, stride 1..3 and axis order: 1D extents to 12, 2D to 5, 3D to 3 (thorough 4), 4D to 2; every reachable iterator "
               "representation and every jump between positions including the end; big boxes to 1.6 10^5 elements and rows of 70000 and strides to 300: every step, and jumps between some 100 positions";
    dim<1>(c, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, 4);
    dim<2>(c, {1, 2, 3, 4, 5}, 3);
    if (c.thorough) dim<2>(c, {6, 7}, 4);
    dim<3>(c, c.thorough ? std::vector<int>{1, 2, 3, 4} : std::vector<int>{1, 2, 3}, c.thorough ? 3 : 2);
    dim<4>(c, {1, 2}, 2);
    if (c.thorough) dim<4>(c, {1, 3}, 2);
}
int main(int argc, char** argv) { return core_main(argc, argv); }

// P02: forward-difference pair iterators
#include "laws.h"
#include <thrust/device_vector.h>
#include "submatrix_iterator.hpp"
#include "transpose_iterator.hpp"
#include "forward_stencil_iterator.hpp"

static int A[8192];
static int* const base = A + 2048;
using Pair = std::pair<long, long>;

template <class It> static bool pairs(Ctx& c, const It& it, const std::vector<Pair>& el, const std::string& lab)
{
    c.doing(lab, "", "");
    if ((long)it.size() != (long)el.size()) return c.violation(fmt("%s: size() is %ld, there are %zu pairs", lab.c_str(), (long)it.size(), el.size())), false;
    auto expect = [&](long p) { return el[p]; };
    auto key = [](auto& i) { auto s = *i; return Pair(&s.a - base, &s.b - base); };
    return el.size() > 400 ? lawful_long(c, it, el.size(), expect, key, lab) : lawful(c, it, el.size(), expect, key, lab);
}
// n: extents in traversal order, stride: memory stride of each, o: offset of the first element
template <int N> static std::vector<Pair> expected(const int* n, const long* stride, long o, int ax)
{
    std::vector<Pair> r;
    int x[N] = {};
    for (;;) {
        if (x[ax] + 1 < n[ax]) {
            long a = o;
            for (int i = 0; i < N; i++) a += x[i] * stride[i];
            r.push_back({a, a + stride[ax]});
        }
        int q = N - 1;
        for (; q >= 0; q--) {
            if (++x[q] < n[q]) break;
            x[q] = 0;
        }
        if (q < 0) return r;
    }
}
template <int N, int I> static bool axis(Ctx& c, const int (&sz)[N], const int (&lb)[N], const int (&ub)[N], const int (&st)[N], const std::string& lab)
{
    int n[N];
    long stride[N], o = 0;
    long s = 1;
    bool whole = true;
    for (int i = N - 1; i >= 0; i--) stride[i] = s * st[i], o += lb[i] * s, s *= sz[i], n[i] = (ub[i] - lb[i]) / st[i] + 1;
    for (int i = 0; i < N; i++) whole = whole && lb[i] == 0 && ub[i] == sz[i] - 1 && st[i] == 1;
    auto el = expected<N>(n, stride, o, I);
    if (!el.empty()) { // a box one element wide along the axis has no pairs; the evaluation of such domains is P06's
        auto m = make_submatrix(base, sz, lb, ub, st);
        if (!pairs(c, m.template stencil<I>(), el, lab + fmt(" axis %d", I))) return false;
        if (!pairs(c, m.stencil(I), el, lab + fmt(" axis %d (run-time)", I))) return false;
        if (whole) { // straight over memory
            long lim = n[I] - 1, ss = 1;
            for (int i = I + 1; i < N; i++) lim *= n[i], ss *= n[i];
            if (!pairs(c, make_forward_stencil(base, ss, lim, (long)el.size()), el, lab + fmt(" axis %d over memory", I))) return false;
        }
    }
    if constexpr (I + 1 < N) return axis<N, I + 1>(c, sz, lb, ub, st, lab);
    else return true;
}
template <int N, int... P> static bool transposed(Ctx& c, const int (&sz)[N], const std::string& lab)
{
    auto t = make_transpose<P...>(base, sz);
    int perm[N] = {P...};
    long ms[N], s = 1;
    for (int i = N - 1; i >= 0; i--) ms[i] = s, s *= sz[i];
    int n[N];
    long stride[N];
    for (int i = 0; i < N; i++) n[i] = sz[perm[i]], stride[i] = ms[perm[i]];
    std::string l = lab + " transposed";
    ((l += fmt(" %d", P)), ...);
    for (int ax = 0; ax < N; ax++) {
        auto el = expected<N>(n, stride, 0, ax);
        if (!el.empty() && !pairs(c, t.stencil(ax), el, l + fmt(" axis %d", ax))) return false;
    }
    return true;
}
template <int N> static void dim(Ctx& c, const std::vector<int>& ext, int maxst)
{
    size_t tot = 1;
    for (int i = 0; i < N; i++) tot *= ext.size();
    for (size_t k = 0; k < tot; k++) {
        int sz[N], lb[N], ub[N], st[N];
        size_t m = k;
        for (int i = 0; i < N; i++) sz[i] = ext[m % ext.size()], m /= ext.size();
        std::string sh;
        for (int i = 0; i < N; i++) sh += fmt("%s%d", i ? "x" : "", sz[i]);
        for (int l0 = 0; l0 < sz[0]; l0++)
            for (int u0 = l0; u0 < sz[0]; u0++) {
                if (!c.scenario()) continue;
                c.kinds.insert(fmt("%dD boxes, every axis", N));
                std::function<bool(int)> rec = [&](int i) -> bool {
                    if (i == N) {
                        std::string l = sh + " box";
                        for (int q = 0; q < N; q++) l += fmt(" [%d..%d:%d]", lb[q], ub[q], st[q]);
                        return axis<N, 0>(c, sz, lb, ub, st, l);
                    }
                    for (st[i] = 1; st[i] <= maxst; st[i]++)
                        for (lb[i] = i ? 0 : l0; lb[i] <= (i ? sz[i] - 1 : l0); lb[i]++)
                            for (ub[i] = i ? lb[i] : u0; ub[i] <= (i ? sz[i] - 1 : u0); ub[i]++)
                                if (!rec(i + 1)) return false;
                    return true;
                };
                if (!rec(0)) return;
                if (l0 == 0 && u0 == sz[0] - 1) {
                    if constexpr (N == 2) { if (!transposed<2, 1, 0>(c, sz, sh)) return; }
                    if constexpr (N == 3)
                        if (!transposed<3, 0, 2, 1>(c, sz, sh) || !transposed<3, 1, 0, 2>(c, sz, sh) || !transposed<3, 1, 2, 0>(c, sz, sh) ||
                            !transposed<3, 2, 0, 1>(c, sz, sh) || !transposed<3, 2, 1, 0>(c, sz, sh))
                            return;
                }
                c.sample(fmt("%dD shape %s, axis 0 range %d..%d", N, sh.c_str(), l0, u0));
            }
    }
}
template <int N> static bool big(Ctx& c, const int (&sz)[N], const int (&lb)[N], const int (&ub)[N], const int (&st)[N])
{
    if (!c.scenario()) return true;
    c.kinds.insert(fmt("%dD long and big boxes, every axis", N));
    std::string l;
    for (int q = 0; q < N; q++) l += fmt("%s%d[%d..%d:%d]", q ? " x " : "", sz[q], lb[q], ub[q], st[q]);
    return axis<N, 0>(c, sz, lb, ub, st, l);
}
void check(Ctx& c)
{
    if (!big<1>(c, {40000}, {0}, {39999}, {1}) || !big<1>(c, {5000}, {7}, {4990}, {11})) return;
    if (!big<2>(c, {300, 257}, {0, 0}, {299, 256}, {1, 1}) || !big<2>(c, {300, 257}, {3, 1}, {290, 256}, {1, 3}) || !big<2>(c, {2, 9000}, {0, 5}, {1, 8000}, {1, 1}) || !big<2>(c, {2, 70000}, {0, 0}, {1, 69999}, {1, 1}) || !big<2>(c, {70000, 2}, {0, 0}, {69999, 1}, {1, 1})) return;
    if (!big<3>(c, {33, 29, 35}, {0, 0, 0}, {32, 28, 34}, {1, 1, 1}) || !big<3>(c, {33, 29, 35}, {1, 2, 3}, {31, 28, 30}, {2, 5, 3})) return;
    if (c.scenario() && !transposed<2, 1, 0>(c, {150, 131}, "150x131")) return;
    if (c.scenario() && !transposed<3, 2, 0, 1>(c, {21, 19, 23}, "21x19x23")) return;
    c.bounds = "every array shape, sub-box, stride 1..2 and axis: 1D extents to 12, 2D to 5, 3D to 3 (thorough 4); transposed boxes; every reachable "
               "iterator representation and every jump between positions including the end; big boxes to 1.4 10^5 elements and rows of 70000: every step, and jumps between some 100 positions";
    dim<1>(c, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, 3);
    dim<2>(c, {1, 2, 3, 4, 5}, 2);
    if (c.thorough) dim<2>(c, {6, 7}, 3);
    dim<3>(c, c.thorough ? std::vector<int>{1, 2, 3, 4} : std::vector<int>{1, 2, 3}, 2);
}
int main(int argc, char** argv) { return core_main(argc, argv); }

// P03: offset-indexed and coarse-to-fine iterators
#include "laws.h"
#include <array>
#include <thrust/device_vector.h>
#include "coarse_to_fine_iterator.hpp"
#include "offset_iterator.hpp"

static int A[1 << 16];
static int* const base = A + (1 << 15);

static long floordiv(long a, long b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }

template <int N> static void offsets(Ctx& c, int maxlen, int reach)
{
    // all offset tables up to a length over [-reach..reach]^N would be too many: all tables of length 1 and 2,
    // and sliding selections for longer ones
    std::vector<std::array<int, N>> tuples;
    size_t tot = 1;
    for (int i = 0; i < N; i++) tot *= 2 * reach + 1;
    for (size_t k = 0; k < tot; k++) {
        std::array<int, N> t;
        size_t m = k;
        for (int i = 0; i < N; i++) t[i] = int(m % (2 * reach + 1)) - reach, m /= 2 * reach + 1;
        tuples.push_back(t);
    }
    std::vector<std::vector<int>> strides;
    if (N == 1) strides = {{1}, {3}, {-2}};
    else if (N == 2) strides = {{1, 7}, {7, 1}, {2, 11}};
    else strides = {{1, 7, 49}, {49, 7, 1}, {7, 49, 1}, {2, 14, 98}};
    for (auto& sv : strides)
        for (size_t a = 0; a < tuples.size(); a++) {
            if (!c.scenario()) continue;
            c.kinds.insert(fmt("%dD offset tables", N));
            int stride[N];
            for (int i = 0; i < N; i++) stride[i] = sv[i];
            auto table = [&](const std::vector<size_t>& sel) {
                std::vector<int> o;
                std::vector<long> el;
                std::string l = fmt("%dD offsets", N);
                for (size_t s : sel) {
                    long e = 0;
                    for (int i = 0; i < N; i++) o.push_back(tuples[s][i]), e += (long)stride[i] * tuples[s][i], l += fmt("%s%d", i ? "," : " ", tuples[s][i]);
                    el.push_back(e);
                }
                l += " strides";
                for (int i = 0; i < N; i++) l += fmt(" %d", stride[i]);
                c.doing(l, "", "");
                o.resize(o.size() + N, 99);
                auto it = make_offset_iterator(base, stride, thrust::device_ptr<int>(o.data()));
                c.sample(l);
                return lawful(c, it, el.size(), [&](long p) { return el[p]; }, [](auto& i) { return long(&*i - base); }, l);
            };
            for (size_t b = 0; b < tuples.size(); b++)
                if (!table({a, b})) return;
            for (int len = 3; len <= maxlen; len++)
                for (size_t step = 1; step < std::min<size_t>(tuples.size(), c.thorough ? 100 : 12); step++) {
                    std::vector<size_t> sel;
                    for (int i = 0; i < len; i++) sel.push_back((a + step * i) % tuples.size());
                    if (!table(sel)) return;
                }
        }
}
template <int N, int I> static bool fineaxis(Ctx& c, const int (&sz)[N], int r, int len)
{
    // axis I of the coarse array covers coarse indices clb .. clb+sz[I]-1
    long stride[N], s = 1;
    for (int i = N - 1; i >= 0; i--) stride[i] = s, s *= sz[i];
    for (int clb = -sz[I] - 1; clb <= 1; clb++)
        for (int fi = clb * r; fi + len <= (clb + sz[I]) * r; fi++) {
            int ci[N];
            for (int i = 0; i < N; i++) ci[i] = i == I ? 0 : sz[i] - 1;
            ci[I] = floordiv(fi, r) - clb;
            long o = 0;
            for (int i = 0; i < N; i++) o += (i == I ? 0 : ci[i]) * stride[i];
            std::vector<long> el;
            for (int f = fi; f < fi + len; f++) el.push_back(o + (floordiv(f, r) - clb) * stride[I]);
            std::string l = fmt("%dD axis %d extent %d from coarse %d, ratio %d, fine %d..%d", N, I, sz[I], clb, r, fi, fi + len - 1);
            c.doing(l, "", "");
            auto it = make_coarse_to_fine<I>(base, sz, ci, fi, r);
            if (!lawful(c, it, len, [&](long p) { return el[p]; }, [](auto& i) { return long(&*i - base); }, l)) return false;
            c.sample(l);
        }
    if constexpr (I + 1 < N) return fineaxis<N, I + 1>(c, sz, r, len);
    else return true;
}
template <int N> static void fine(Ctx& c)
{
    std::vector<int> ext = N == 1 ? std::vector<int>{1, 2, 3, 4, 5, 6} : std::vector<int>{1, 2, 3};
    size_t tot = 1;
    for (int i = 0; i < N; i++) tot *= ext.size();
    for (size_t k = 0; k < tot; k++)
        for (int r = 1; r <= (c.thorough ? 8 : 5); r++) {
            int sz[N];
            size_t m = k;
            for (int i = 0; i < N; i++) sz[i] = ext[m % ext.size()], m /= ext.size();
            if (!c.scenario()) continue;
            c.kinds.insert(fmt("%dD coarse-to-fine lines", N));
            int mx = 0;
            for (int i = 0; i < N; i++) mx = std::max(mx, sz[i] * r);
            for (int len = 1; len <= mx; len++)
                if (!fineaxis<N, 0>(c, sz, r, len)) return;
        }
}
void check(Ctx& c)
{
    c.bounds = "offset tables of length 1-2 over every tuple in [-2..2]^d (1D [-5..5]) and regular longer ones, several stride orders; coarse-to-fine: "
               "every ratio 1..5 (thorough 8), axis, shape, start (negative and unaligned) and line length; every reachable representation and jump; lines of 10000 cells with ratios to 1000, a table of 70000";
    offsets<1>(c, 5, 5);
    offsets<2>(c, 5, 2);
    offsets<3>(c, 5, c.thorough ? 2 : 1);
    fine<1>(c);
    fine<2>(c);
    fine<3>(c);
    // long lines, large ratios
    for (int r : {1, 2, 3, 7, 16, 64, 100, 1000})
        for (int v = 0; v < 4; v++) {
            if (!c.scenario()) continue;
            static const int first[4] = {-5000, -4999, 0, 100001};
            int fi = first[v], len = 10000, n = floordiv(fi + len - 1, r) - floordiv(fi, r) + 1;
            int sz[2][2] = {{n, 5}, {3, n}}, ci[2] = {0, 0};
            auto key = [](auto& i) { return long(&*i - base); };
            std::string l = fmt("long fine line %d..%d ratio %d", fi, fi + len - 1, r);
            auto el = [&](long p) { return floordiv(fi + p, r) - floordiv(fi, r); };
            if (!lawful_long(c, make_coarse_to_fine<1>(base, sz[1], ci, fi, r), len, el, key, l)) return;
            if (!lawful_long(c, make_coarse_to_fine<0>(base, sz[0], ci, fi, r), len, [&](long p) { return 5 * el(p); }, key, l + " strided")) return;
        }
    {
        // long offset table
        if (!c.scenario()) return;
        int stride[3] = {1, 100, 10000};
        std::vector<int> o;
        std::vector<long> el;
        for (int k = 0; k < 70000; k++) {
            int t[3] = {k % 41 - 20, k % 29 - 14, k % 7 - 3};
            for (int q : t) o.push_back(q);
            el.push_back(t[0] + 100 * t[1] + 10000 * t[2]);
        }
        o.resize(o.size() + 3, 99);
        lawful_long(c, make_offset_iterator(base, stride, thrust::device_ptr<int>(o.data())), el.size(), [&](long p) { return el[p]; }, [](auto& i) { return long(&*i - base); }, "offset table of 70000");
    }
}
int main(int argc, char** argv) { return core_main(argc, argv); }

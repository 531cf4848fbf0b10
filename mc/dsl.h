// Generic driver for the array DSL: spans of any storage order, domains of any axis order.
// DSL dimensions: K=0, J=1, I=2; a Field's dimensions are x=0, y=1, z=2.
#pragma once
#include <tuple>
#include "md_device_span.hpp"
#include "cell.h"
#include <tuple>

struct Dom { // an index domain
    int lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0}, st[3] = {1, 1, 1};
    std::string str(const std::vector<int>& q) const
    {
        std::string s;
        for (int d : q) s += fmt("%s%c %d..%d", s.empty() ? "" : ", ", "xyz"[d], lo[d], hi[d]), s += st[d] > 1 ? fmt(":%d", st[d]) : "";
        return "(" + s + ")";
    }
    template <class F> void each(F f) const
    {
        int x[3];
        for (x[2] = lo[2]; x[2] <= hi[2]; x[2] += st[2])
            for (x[1] = lo[1]; x[1] <= hi[1]; x[1] += st[1])
                for (x[0] = lo[0]; x[0] <= hi[0]; x[0] += st[0]) f(x);
    }
};
template <int... P> struct Ord {
    static constexpr int N = sizeof...(P);
    static std::vector<int> fields() // Field dimensions, fastest first
    {
        std::vector<int> r{(2 - P)...};
        return {r.rbegin(), r.rend()};
    }
    static std::vector<int> slow() { return {(2 - P)...}; }
    static constexpr bool slow1(int q) { return ((2 - P == q) || ...); }
    static std::string str()
    {
        std::string s;
        ((s += "zyx"[P]), ...);
        return s;
    }
    template <class T> static auto span(T* p, int g, const Dom& b) { return make_md_span(p, g, lazy::dir_bounds<P>(b.lo[2 - P], b.hi[2 - P])...); }
    // entries are addressed by position: where their numbering starts (-1, 0 or 1, by box and ghosts) makes no difference
    template <class T> static auto wspan(T* p, int g, const Dom& b, int w)
    {
        int l = (g + ... + (b.hi[2 - P] - b.lo[2 - P])) % 3 - 1;
        return make_md_span(p, g, lazy::dir_bounds<P>(b.lo[2 - P], b.hi[2 - P])..., Wb{l, l + w - 1});
    }
    static auto domain(const Dom& d) { return with_domain(lazy::dir_bounds<P>(d.lo[2 - P], d.hi[2 - P], d.st[2 - P])...); }
    template <class W> static auto wdomain(W&& w, const Dom& d) { return with_domain(w, lazy::dir_bounds<P>(d.lo[2 - P], d.hi[2 - P], d.st[2 - P])...); }
    template <class F> static auto call(F&& f, const Dom& d) { return f(lazy::dir_bounds<P>(d.lo[2 - P], d.hi[2 - P], d.st[2 - P])...); }
};
static inline Field ordField(const char* n, const std::vector<int>& order, const Dom& b, int g, int w = 0)
{
    Dom x = b;
    for (int d : order)
        if (d < 3) x.lo[d] -= g, x.hi[d] += g;
    std::vector<int> o = order;
    if (w) o.insert(o.begin(), 3);
    return Field(n, o, x.lo, x.hi, w);
}
using O3 = std::tuple<Ord<0, 1, 2>, Ord<0, 2, 1>, Ord<1, 0, 2>, Ord<1, 2, 0>, Ord<2, 0, 1>, Ord<2, 1, 0>>;
using OXY = std::tuple<Ord<1, 2>, Ord<2, 1>>;
using OXZ = std::tuple<Ord<0, 2>, Ord<2, 0>>;
using OYZ = std::tuple<Ord<0, 1>, Ord<1, 0>>;
using OX = std::tuple<Ord<2>>;
using OY = std::tuple<Ord<1>>;
using OZ = std::tuple<Ord<0>>;

template <class F> static void forext(const std::vector<int>& dims, const std::vector<int>& ext, const std::vector<int>& org, F f)
{
    size_t tot = 1;
    for (size_t i = 0; i < dims.size(); i++) tot *= ext.size();
    for (size_t k = 0; k < tot; k++) {
        Dom b;
        size_t m = k;
        for (size_t i = 0; i < dims.size(); i++) {
            b.lo[dims[i]] = org[i];
            b.hi[dims[i]] = org[i] + ext[m % ext.size()] - 1;
            m /= ext.size();
        }
        f(b);
    }
}
static std::vector<Dom> fewdoms(const Dom& r, const std::vector<int>& dims);
// every sub-domain of r with strides 1..maxst (non-empty; strides beyond the extent only as 1)
static std::vector<Dom> subdoms(const Dom& r, const std::vector<int>& dims, int maxst)
{
    std::vector<Dom> out{r};
    if (maxst < 0) return fewdoms(r, dims);
    for (int d : dims) {
        std::vector<Dom> n;
        for (auto& o : out)
            for (int l = r.lo[d]; l <= r.hi[d]; l++)
                for (int h = l; h <= r.hi[d]; h++)
                    for (int s = 1; s <= (h > l ? maxst : 1); s++) {
                        Dom x = o;
                        x.lo[d] = l, x.hi[d] = h, x.st[d] = s;
                        n.push_back(x);
                    }
        out.swap(n);
    }
    return out;
}
// long boxes, and a few domains of each: larger strides than fit the small ones, unequal between the axes
template <class F> static void forlong(const std::vector<int>& dims, const std::vector<int>& org, F f)
{
    static const std::vector<std::vector<int>> e1{{17}, {40}}, e2{{33, 2}, {3, 20}, {9, 8}}, e3{{12, 1, 2}, {2, 11, 3}, {1, 3, 13}, {5, 6, 7}};
    for (auto& e : dims.size() == 1 ? e1 : dims.size() == 2 ? e2 : e3) {
        Dom b;
        for (size_t i = 0; i < dims.size(); i++) b.lo[dims[i]] = org[i], b.hi[dims[i]] = org[i] + e[i] - 1;
        f(b);
    }
    // far from the origin, and big
    static const int far[3] = {1000003, -70001, 33001}, fe[3] = {4, 3, 2};
#if !defined(FOOT) && !defined(SCHED)
    static const int be[3][3] = {{40000, 0, 0}, {260, 152, 0}, {35, 33, 34}};
#else
    static const int be[3][3] = {{3000, 0, 0}, {60, 52, 0}, {11, 13, 12}};
#endif
    for (int big = 0; big < 2; big++) {
        Dom b;
        for (size_t i = 0; i < dims.size(); i++) b.lo[dims[i]] = big ? org[i] : far[i], b.hi[dims[i]] = b.lo[dims[i]] + (big ? be[dims.size() - 1][i] : fe[i]) - 1;
        f(b);
    }
}
static std::vector<Dom> fewdoms(const Dom& r, const std::vector<int>& dims)
{
    std::vector<Dom> out{r};
    static const int ss[6][3] = {{3, 3, 3}, {2, 5, 3}, {4, 1, 2}, {1, 3, 1}, {1, 1, 4}, {7, 2, 1}};
    for (auto& s : ss) {
        Dom x = r;
        for (size_t i = 0; i < dims.size(); i++) {
            x.st[dims[i]] = s[i];
            if (s[i] > 1 && x.hi[dims[i]] - x.lo[dims[i]] > 2) x.lo[dims[i]] += s[i] % 3, x.hi[dims[i]] -= s[i] & 1;
            if (x.st[dims[i]] > 1 && x.hi[dims[i]] == x.lo[dims[i]]) x.st[dims[i]] = 1;
        }
        out.push_back(x);
        long n = 1;
        for (int d : dims) n *= r.hi[d] - r.lo[d] + 1;
        if (n > 1000) return out; // big boxes: the whole of it and one strided part
    }
    return out;
}

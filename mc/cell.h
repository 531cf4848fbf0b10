// Shared vocabulary of the cell kernels: boxes, array layouts, call macros, loops.
#pragma once
#include "core.h"

struct Box {
    int D;
    int lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0};
    bool empty() const
    {
        for (int q = 0; q < D; q++)
            if (hi[q] < lo[q]) return true;
        return false;
    }
    std::string str() const
    {
        std::string s;
        for (int q = 0; q < D; q++) s += fmt("%s%d..%d", q ? "," : "", lo[q], hi[q]);
        return s;
    }
    Box grow(int g) const
    {
        Box b = *this;
        for (int q = 0; q < D; q++) b.lo[q] -= g, b.hi[q] += g;
        return b;
    }
};

inline Field cellField(const char* n, const Box& b, int g)
{
    Box x = b.grow(g);
    std::vector<int> o;
    for (int q = 0; q < b.D; q++) o.push_back(q);
    return Field(n, o, x.lo, x.hi);
}
// face-centred data of direction d: fastest index is d, then the following directions cyclically
inline Field faceField(const char* n, const Box& b, int d, int g)
{
    Box x = b.grow(g);
    x.hi[d] += 1;
    std::vector<int> o;
    for (int q = 0; q < b.D; q++) o.push_back((d + q) % b.D);
    return Field(n, o, x.lo, x.hi);
}
inline Field stencilField(const char* n, const Box& b, int g, int w)
{
    Box x = b.grow(g);
    std::vector<int> o{3};
    for (int q = 0; q < b.D; q++) o.push_back(q);
    return Field(n, o, x.lo, x.hi, w);
}

template <class F> inline void forbox(const int* lo, const int* hi, F f)
{
    int x[3];
    for (x[2] = lo[2]; x[2] <= hi[2]; x[2]++)
        for (x[1] = lo[1]; x[1] <= hi[1]; x[1]++)
            for (x[0] = lo[0]; x[0] <= hi[0]; x[0]++) f(x);
}
template <class F> inline void forbox(const Box& b, F f) { forbox(b.lo, b.hi, f); }

// index argument lists: AP = lo0,hi0,lo1,hi1,...  FL = lo0,lo1,..,hi0,hi1,..
#define AP1(b) b.lo[0], b.hi[0]
#define AP2(b) b.lo[0], b.hi[0], b.lo[1], b.hi[1]
#define AP3(b) b.lo[0], b.hi[0], b.lo[1], b.hi[1], b.lo[2], b.hi[2]
#define FL1(b) b.lo[0], b.hi[0]
#define FL2(b) b.lo[0], b.lo[1], b.hi[0], b.hi[1]
#define FL3(b) b.lo[0], b.lo[1], b.lo[2], b.hi[0], b.hi[1], b.hi[2]
// consecutive fields (face arrays)
#define FA1(k) p(k)
#define FA2(k) p(k), p(k + 1)
#define FA3(k) p(k), p(k + 1), p(k + 2)
// direction argument, absent in one dimension
#define DR1
#define DR2 dir,
#define DR3 dir,

#define CALL1(cls, fn, ftn, ...)                                                                           \
    if constexpr (decltype(tag)::isf) fcall((void (*)())ftn, __VA_ARGS__);                                 \
    else cls<typename decltype(tag)::T>::fn(__VA_ARGS__)
#define KALL(cls, fn, ftn, ARGS)                                                                           \
    if constexpr (D == 1) { CALL1(cls##1d_cuda, fn, ftn##1d_, ARGS(1)); }                                  \
    else if constexpr (D == 2) { CALL1(cls##2d_cuda, fn, ftn##2d_, ARGS(2)); }                             \
    else { CALL1(cls##3d_cuda, fn, ftn##3d_, ARGS(3)); }
// Fortran only
#define FALL(ftn, ARGS)                                                                                    \
    if constexpr (D == 1) fcall((void (*)())ftn##1d_, ARGS(1));                                            \
    else if constexpr (D == 2) fcall((void (*)())ftn##2d_, ARGS(2));                                       \
    else fcall((void (*)())ftn##3d_, ARGS(3));
#define TT typename decltype(tag)::T

template <class T> struct Vec3 {
    T v[3];
    operator const T*() const { return v; }
};
template <class T> inline Vec3<T> vec3(const double* d) { return {{T(d[0]), T(d[1]), T(d[2])}}; }
template <class T> inline const T* cp(const Vec3<T>& v) { return v.v; }

// enumerations used by several checks -----------------------------------------------------------
// all boxes with the given extents at a few positions (negative, straddling zero, positive)
template <int D> inline std::vector<Box> boxes(const std::vector<int>& extents, const std::vector<std::vector<int>>& origins)
{
    std::vector<Box> r;
    int e[3] = {0, 0, 0};
    size_t n = extents.size();
    size_t tot = 1;
    for (int q = 0; q < D; q++) tot *= n;
    for (size_t c = 0; c < tot; c++) {
        size_t t = c;
        for (int q = 0; q < D; q++) e[q] = extents[t % n], t /= n;
        for (auto& o : origins) {
            Box b;
            b.D = D;
            for (int q = 0; q < D; q++) b.lo[q] = o[q], b.hi[q] = o[q] + e[q] - 1;
            r.push_back(b);
        }
    }
    return r;
}
// long and larger boxes (past any block or vector length one may choose), across zero
template <int D> inline std::vector<Box> longboxes(bool thorough)
{
    std::vector<Box> r;
    for (int q = 0; q < D; q++)
        for (int n : thorough ? std::vector<int>{7, 8, 9, 15, 16, 17, 33, 65, 130} : std::vector<int>{8, 17, 37}) {
            Box b;
            b.D = D;
            for (int e = 0; e < D; e++) b.lo[e] = e == q ? -n / 3 : e - 1, b.hi[e] = b.lo[e] + (e == q ? n : 2) - 1;
            r.push_back(b);
        }
    if (D > 1) {
        Box b;
        b.D = D;
        static const int n[2][3] = {{12, 11, 1}, {6, 5, 7}};
        for (int e = 0; e < D; e++) b.lo[e] = 2 - 3 * e, b.hi[e] = b.lo[e] + n[D - 2][e] - 1;
        r.push_back(b);
    }
    return r;
}
template <int D> inline std::vector<Box> withlong(std::vector<Box> r, bool thorough)
{
    for (auto& b : longboxes<D>(thorough)) r.push_back(b);
    return r;
}
static const double DXS[3][3] = {{0.5, 0.25, 0.125}, {1.0, 1.0, 1.0}, {0.3125, 0.6875, 1.375}};

// unusual magnitudes: spacings equal in two directions, very fine and coarse ones; far origins; constant, tiny, large data; big boxes
static const double XDX[8][3] = {{0.5, 0.5, 2}, {2, 0.5, 0.5}, {0.5, 2, 0.5}, {1, 1, 1}, {0.5, 0.5, 0.5}, {0x1p-9, 0x1p-10, 0x1p-8}, {64, 128, 32}, {1, 0.5, 0.25}};
static const double XAB[6][2] = {{1, -1}, {1, 0.5}, {0.5, 1}, {-1, 1}, {0x1p-12, 256}, {0.5, -0.5}};
struct Extreme {
    Box b;
    int dx, pat, k; // spacings, data, number of the case
    const double* h() const { return XDX[dx]; }
};
template <int D> inline std::vector<Extreme> extremes(bool thorough)
{
    std::vector<Extreme> r;
    int k = 0;
    static const int SZ[3][3] = {{5, 0, 0}, {4, 3, 0}, {3, 2, 3}};
    for (int far = 0; far < 2; far++)
        for (int dx = 0; dx < 8; dx++)
            for (int pat : {SIGNED, ZERO, TINY, LARGE, ONES, NEGATIVE}) {
                if (!thorough && far && (dx + pat) % 4) continue;
                Box b;
                b.D = D;
                static const int FAR[3] = {1000003, -70001, 33001};
                for (int q = 0; q < D; q++) b.lo[q] = far ? FAR[q] : q - 1, b.hi[q] = b.lo[q] + SZ[D - 1][q] - 1;
                r.push_back({b, dx, pat, k++});
            }
#if !defined(FOOT) && !defined(SCHED)
    static const int BIG[2][3][3] = {{{70001, 0, 0}, {300, 260, 0}, {41, 37, 33}}, {{40000, 0, 0}, {3, 9000, 0}, {5, 3, 700}}};
#else
    static const int BIG[2][3][3] = {{{5000, 0, 0}, {70, 73, 0}, {17, 18, 19}}, {{1100, 0, 0}, {3, 600, 0}, {5, 3, 100}}};
#endif
    for (int v = 0; v < 2; v++)
        if (D > 1 || !v) {
            Box b;
            b.D = D;
            for (int q = 0; q < D; q++) b.lo[q] = -q - 1, b.hi[q] = b.lo[q] + BIG[v][D - 1][q] - 1;
            r.push_back({b, 7, SIGNED, k++});
        }
    return r;
}

// P08: windows, offset dot products, coarse-to-fine views
#pragma once
#include "dsl.h"
#include "window_iterator.hpp"
#include "orders.h"
struct P3 {
    int g[3];
};
// ---- windows: base and entries of every position, reached by stepping and by jumping
template <class PS, class Q> static void windows(Ctx& c, const Dom& b, int g, int W, int maxst)
{
    if (!c.scenario()) return;
    c.kinds.insert(fmt("%dD windows, storage %s,w domain order %s", PS::N, PS::str().c_str(), Q::str().c_str()));
    World w;
    w.f.push_back(ordField("st", PS::fields(), b, g, W));
    fill(w.f[0], c.seed, SIGNED);
    Mem<double> m;
    m.load(w);
    Dom r = b;
    for (int q : PS::slow()) r.lo[q] -= g, r.hi[q] += g;
    for (auto& d : subdoms(r, PS::slow(), maxst)) {
        c.doing("windows", b.str(PS::slow()), d.str(Q::slow()));
        auto st = PS::wspan(m(0), g, b, W);
        auto it = Q::call(st.window(), d);
        // positions in the order of the domain's axes, last fastest
        std::vector<int> ax = Q::slow();
        std::vector<long> want;
        std::function<void(size_t, int*)> rec = [&](size_t k, int* x) {
            if (k == ax.size()) {
                want.push_back(w.f[0].idx(x, 0));
                return;
            }
            for (x[ax[k]] = d.lo[ax[k]]; x[ax[k]] <= d.hi[ax[k]]; x[ax[k]] += d.st[ax[k]]) rec(k + 1, x);
        };
        int x[3] = {0, 0, 0};
        rec(0, x);
        c.states++;
        std::string lab = fmt("window of %s,w box %s ghosts %d width %d over %s", PS::str().c_str(), b.str(PS::slow()).c_str(), g, W, d.str(Q::slow()).c_str());
        if ((long)it.size() != (long)want.size()) return c.violation(fmt("%s: size %ld, expected %zu", lab.c_str(), (long)it.size(), want.size()));
        auto step = it;
        for (size_t n = 0; n < want.size(); n++, ++step) {
            c.transitions += 2, c.runs += 2;
            auto jump = it + n;
            for (int k = 0; k < W; k++) {
                c.cells += 2, c.changed += 2;
                long a = &(*step)[k] - thrust::device_ptr<double>(m(0)), e = &(*jump)[k] - thrust::device_ptr<double>(m(0));
                if (a != want[n] + k || e != want[n] + k)
                    return c.violation(fmt("%s: position %zu entry %d is element %ld (stepping) and %ld (jumping), expected %ld", lab.c_str(), n, k, a, e, want[n] + k));
            }
        }
    }
    // the window over the whole array
    if (g == 0) {
        auto st = PS::wspan(m(0), 0, b, W);
        auto it = window(st);
        Field& f = w.f[0];
        if ((long)it.size() * W != f.n) return c.violation(fmt("window(%s,w box %s) has size %ld", PS::str().c_str(), b.str(PS::slow()).c_str(), (long)it.size()));
        for (long n = 0; n < f.n / W; n++)
            for (int k = 0; k < W; k++) {
                c.transitions++, c.runs++, c.cells++, c.changed++;
                long a = &(*(it + n))[k] - thrust::device_ptr<double>(m(0));
                if (a != n * W + k) return c.violation(fmt("window(%s,w box %s): position %ld entry %d is element %ld", PS::str().c_str(), b.str(PS::slow()).c_str(), n, k, a));
            }
    }
    c.sample(fmt("windows of %s,w box %s ghosts %d width %d", PS::str().c_str(), b.str(PS::slow()).c_str(), g, W));
}
// ---- dot products
enum { S = 0, U = 1, V = 2 };
template <class PS, class PU, class PV, class Q> static void dots(Ctx& c, const Dom& b, P3 g, const std::vector<std::array<int, 3>>& off, int maxst, int depth, const char* oname)
{
    if (!c.scenario()) return;
    constexpr int N = PS::N;
    const int W = off.size();
    c.kinds.insert(fmt("%dD dot products, storage %s,w/%s/%s domain order %s", N, PS::str().c_str(), PU::str().c_str(), PV::str().c_str(), Q::str().c_str()));
    World w;
    w.f.push_back(ordField("st", PS::fields(), b, g.g[0], W));
    w.f.push_back(ordField("u", PU::fields(), b, g.g[1]));
    w.f.push_back(ordField("v", PV::fields(), b, g.g[2]));
    for (int k = 0; k < 3; k++) fill(w.f[k], c.seed * 29 + k, SIGNED);
    // the table holds the displacements along the array's axes, x before y before z
    auto tab = std::make_shared<std::vector<int>>();
    std::vector<int> ax = PS::slow();
    std::sort(ax.begin(), ax.end());
    for (auto& o : off)
        for (int q : ax) tab->push_back(o[q]);
    std::vector<OpP> ops;
    for (auto& d : subdoms(b, PS::slow(), maxst)) {
        bool in = true;
        for (auto& o : off)
            for (int q : ax) in = in && d.lo[q] + o[q] >= w.f[U].lo[q] && d.hi[q] + o[q] <= w.f[U].hi[q];
        if (!in) continue;
        for (int form = 0; form < 4; form++)
            ops.push_back(mkop(
                fmt("domain %s order %s: %s", d.str(Q::slow()).c_str(), Q::str().c_str(), form == 0 ? "v = st.dot(u.offset(o))" : form == 1 ? "v = v - c * st.dot(u.offset(o))" : form == 3 ? "v = st.dot(u.offset(o)) / 3 - u / 5" : "v = st.dot(u.offset(o)) / c + u"), 3,
                [=](World& w) {
                    d.each([&](const int* x) {
                        Num s = 0;
                        for (int k = 0; k < W; k++) {
                            int y[3] = {x[0], x[1], x[2]};
                            for (int q : ax) y[q] += off[k][q];
                            s = s + w[S].get(x, k) * w[U].get(y);
                        }
                        Num c = 0.75;
                        w[V].set(x, form == 0 ? s : form == 1 ? w[V].get(x) - c * s : form == 3 ? s / Num(3) - w[U].get(x) / Num(5) : s / c + w[U].get(x));
                    });
                },
                [=](auto tag, auto& p) {
                    using T = TT;
                    auto st = PS::wspan((const T*)p(S), g.g[0], b, W);
                    auto u = PU::span((const T*)p(U), g.g[1], b);
                    auto v = PV::span(p(V), g.g[2], b);
                    auto o = thrust::device_ptr<int>(tab->data());
                    T c = 0.75;
                    if (form == 0) Q::domain(d)(v = st.dot(u.offset(o)));
                    else if (form == 1) Q::domain(d)(v = v - c * st.dot(u.offset(o)));
                    else if (form == 3) Q::domain(d)(v = st.dot(u.offset(o)) / 3 - u / 5);
                    else Q::domain(d)(v = st.dot(u.offset(o)) / c + u);
                }));
    }
    c.explore(w, ops, depth, fmt("st %s,w u %s v %s box %s ghosts %d,%d,%d offsets %s", PS::str().c_str(), PU::str().c_str(), PV::str().c_str(), b.str(PS::slow()).c_str(), g.g[0], g.g[1], g.g[2], oname));
}
// ---- fine views
static int fdiv(int a, int b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
enum { CC = 0, FF = 1 };
template <class PC, class PF, class Q, class CO> static void fine(Ctx& c, int axis, int flo, int fhi, const std::vector<int>& ratios, int g, int ctight)
{
    for (int ratio : ratios) {
        if (!c.scenario()) continue;
        c.kinds.insert(fmt("fine view along %c, storage %s -> %s, domain order %s", "xyz"[axis], PC::str().c_str(), PF::str().c_str(), Q::str().c_str()));
        // fine box flo..fhi along the axis; coarse box covers it; other extents differ
        Dom fb, cb;
        for (int q : PC::slow()) {
            fb.lo[q] = q == axis ? flo : -1, fb.hi[q] = q == axis ? fhi : 0;
            cb.lo[q] = q == axis ? fdiv(flo - g, ratio) + g - !ctight : 1 - q;
            cb.hi[q] = q == axis ? fdiv(fhi + g, ratio) - g + !ctight : cb.lo[q] + 1;
            if (cb.hi[q] < cb.lo[q] - g) return;
        }
        World w;
        w.f.push_back(ordField("coarse", PC::fields(), cb, g));
        w.f.push_back(ordField("fine", PF::fields(), fb, g));
        for (int k = 0; k < 2; k++) fill(w.f[k], c.seed * 31 + k, SIGNED);
        Dom cr = cb, fr = fb;
        for (int q : PC::slow()) cr.lo[q] -= g, cr.hi[q] += g, fr.lo[q] -= g, fr.hi[q] += g;
        for (int q : PC::slow())
            if (cr.hi[q] < cr.lo[q]) return;
        std::vector<OpP> ops;
        Dom cl = cr; // coarse lines
        cl.lo[axis] = cl.hi[axis] = 0;
        cl.each([&](const int* y) {
            Dom fl = fr;
            fl.lo[axis] = fl.hi[axis] = 0;
            int y0[3] = {y[0], y[1], y[2]};
            fl.each([&](const int* x) {
                for (int a = fr.lo[axis]; a <= fr.hi[axis]; a++)
                    for (int e = a; e <= fr.hi[axis]; e++) {
                        if (fdiv(a, ratio) < cr.lo[axis] || fdiv(e, ratio) > cr.hi[axis]) continue;
                        Dom d, cd;
                        for (int q : PC::slow()) {
                            d.lo[q] = d.hi[q] = x[q];
                            cd.lo[q] = cd.hi[q] = y0[q];
                        }
                        d.lo[axis] = a, d.hi[axis] = e;
                        ops.push_back(mkop(fmt("fine %s order %s from coarse line %s", d.str(Q::slow()).c_str(), Q::str().c_str(), cd.str(CO::slow()).c_str()), 1,
                                           [=](World& w) {
                                               d.each([&](const int* x) {
                                                   int z[3] = {cd.lo[0], cd.lo[1], cd.lo[2]};
                                                   z[axis] = fdiv(x[axis], ratio);
                                                   w[FF].set(x, w[CC].get(z));
                                               });
                                           },
                                           [=](auto tag, auto& p) {
                                               using T = TT;
                                               auto co = PC::span((const T*)p(CC), g, cb);
                                               auto fi = PF::span(p(FF), g, fb);
                                               CO::call([&](auto... bn) { Q::domain(d)(fi = co.fine(ratio, bn...)); }, cd);
                                           }));
                    }
            });
        });
        c.explore(w, ops, 1, fmt("coarse %s box %s fine %s box %s ghosts %d ratio %d", PC::str().c_str(), cb.str(PC::slow()).c_str(), PF::str().c_str(), fb.str(PC::slow()).c_str(), g, ratio));
    }
}

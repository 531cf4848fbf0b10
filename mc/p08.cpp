#include "p08.h"
template <class OS> static void win(Ctx& c, const std::vector<int>& ext, const std::vector<int>& org, int maxst)
{
    domorders<OS, 0>([&](auto ps) {
        domorders<OS, 0>([&](auto q) {
            for (int g = 0; g <= 1; g++)
                for (int W : {1, 2, 3, 5, 27})
                    if (W < 27 || !g) forext(ps.slow(), ext, org, [&](const Dom& b) { windows<decltype(ps), decltype(q)>(c, b, g, W, maxst); });
        });
    });
}
void views(Ctx&);
void dots3(Ctx&);
using A3 = std::array<int, 3>;
void check(Ctx& c)
{
    c.bounds = "windows of widths 1, 2, 3, 5, 27 over every sub-domain (strides 1..2) in every storage and domain order; dot products with offset tables of 1 to 33 entries (5, 7, 9 and 27 points), every storage and domain order, strides 1..2, long boxes with strides to 7, rows of 70000; fine views along each axis, ratios 1..4, every sub-line and coarse line";
    win<OX>(c, {1, 2, 3, 5}, {-2}, 3);
    win<OXY>(c, {1, 2, 3}, {-2, 1}, 2);
    win<O3>(c, {1, 2}, {-1, 0, 2}, 2);
    views(c);
    // dot products in one and two dimensions
    std::vector<std::vector<A3>> t1{{{0, 0, 0}}, {{1, 0, 0}, {-1, 0, 0}}, {{0, 0, 0}, {-1, 0, 0}, {2, 0, 0}, {-2, 0, 0}}, {}};
    for (int k = 0; k < 33; k++) t1.back().push_back({k * 3 % 5 - 2, 0, 0}); // repeated displacements
    for (auto& t : t1)
        for (int n : {1, 2, 5})
            for (int g : {0, 2}) dots<Ord<2>, Ord<2>, Ord<2>, Ord<2>>(c, [&] { Dom b; b.lo[0] = -2, b.hi[0] = n - 3; return b; }(), {{g / 2, g, 1}}, t, 3, n == 2 ? 2 : 1, fmt("table of %zu", t.size()).c_str());
    std::vector<std::vector<A3>> t2{{{0, 0, 0}, {1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}}, {{1, -1, 0}, {-1, 1, 0}, {0, 1, 0}}, {{2, 1, 0}}, {}};
    for (int k = 0; k < 9; k++) t2.back().push_back({(k + 1) % 3 - 1, k / 3 - 1, 0});
    orders<OXY, 0>([&](auto ps, auto pu, auto pv) {
        domorders<OXY, 0>([&](auto q) {
            for (auto& t : t2)
                for (int g : {1, 2})
                    forext(ps.slow(), {1, 2, 3}, {-2, 1}, [&](const Dom& b) { dots<decltype(ps), decltype(pu), decltype(pv), decltype(q)>(c, b, {{0, g, 1}}, t, 2, 1, fmt("table of %zu", t.size()).c_str()); });
        });
    });
    // long boxes: a few domains each
    orders<OXY, 0>([&](auto ps, auto pu, auto pv) {
        domorders<OXY, 0>([&](auto q) {
            for (auto& t : t2)
                forlong(ps.slow(), {-3, 2}, [&](const Dom& b) { dots<decltype(ps), decltype(pu), decltype(pv), decltype(q)>(c, b, {{0, 2, 1}}, t, -1, 1, fmt("table of %zu", t.size()).c_str()); });
        });
    });
    dots3(c);
}
int main(int argc, char** argv) { return core_main(argc, argv); }

#include "p08.h"
using A3 = std::array<int, 3>;
void dots3(Ctx& c)
{
    std::vector<std::vector<A3>> t3{{{0, 0, 0}, {1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}}, {{1, -1, 0}, {-1, 0, 1}, {0, 1, -1}, {1, 1, 1}}, {}};
    for (int k = 0; k < 27; k++) t3.back().push_back({k % 3 - 1, k / 3 % 3 - 1, (k / 9 + 1) % 3 - 1});
    orders<O3, 0>([&](auto ps, auto pu, auto pv) {
        domorders<O3, 0>([&](auto q) {
            for (auto& t : t3)
                if (std::is_same_v<decltype(q), decltype(pu)> || c.thorough)
                    forlong(ps.slow(), {-2, 3, 0}, [&](const Dom& b) { dots<decltype(ps), decltype(pu), decltype(pv), decltype(q)>(c, b, {{0, 1, 1}}, t, -1, 1, fmt("table of %zu", t.size()).c_str()); });
            for (auto& t : t3)
                forext(ps.slow(), c.thorough ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 2}, {-1, 0, 2}, [&](const Dom& b) { dots<decltype(ps), decltype(pu), decltype(pv), decltype(q)>(c, b, {{0, 1, 1}}, t, 2, 1, fmt("table of %zu", t.size()).c_str()); });
        });
    });
}

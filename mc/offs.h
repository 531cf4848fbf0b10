// stencil offset tables
#pragma once
#include "cell.h"
struct Offs {
    std::vector<int> v; // D per entry, followed by zeros
    int n;
    const int* p() const { return v.data(); }
    int at(int D, int s, int q) const { return q < D ? v[s * D + q] : 0; }
    std::string str(int D) const
    {
        std::string r;
        for (int s = 0; s < n; s++) {
            r += s ? " " : "";
            for (int q = 0; q < D; q++) r += fmt("%s%d", q ? "," : "", at(D, s, q));
        }
        return r;
    }
};
template <int D> static Offs mk(std::vector<std::vector<int>> o)
{
    Offs r;
    r.n = o.size();
    for (auto& e : o) for (int q = 0; q < D; q++) r.v.push_back(e[q]);
    r.v.resize(r.v.size() + 64, 0);
    return r;
}
template <int D> static std::vector<Offs> tables()
{
    if constexpr (D == 1) return {mk<1>({{0}}), mk<1>({{0}, {-1}, {1}}), mk<1>({{0}, {1}}), mk<1>({{0}, {2}, {-1}, {-2}, {1}})};
    else if constexpr (D == 2)
        return {mk<2>({{0, 0}, {-1, 0}, {1, 0}, {0, -1}, {0, 1}}), mk<2>({{0, 0}, {0, 1}, {-1, 0}}),
                mk<2>({{0, 0}, {-1, 0}, {1, 0}, {0, -1}, {0, 1}, {-1, -1}, {1, -1}, {-1, 1}, {1, 1}}),
                mk<2>({{0, 0}, {2, -1}, {0, 2}, {-1, -2}})};
    else {
        std::vector<std::vector<int>> full{{0, 0, 0}};
        for (int k = -1; k < 2; k++) for (int j = -1; j < 2; j++) for (int i = -1; i < 2; i++) if (i || j || k) full.push_back({k, i, j});
        return {mk<3>({{0, 0, 0}, {-1, 0, 0}, {1, 0, 0}, {0, -1, 0}, {0, 1, 0}, {0, 0, -1}, {0, 0, 1}}), mk<3>({{0, 0, 0}, {0, 1, -1}, {-1, 0, 1}}),
                mk<3>(full), mk<3>({{0, 0, 0}, {2, 0, -1}, {0, -2, 1}, {1, 1, 2}})};
    }
}


#include "p08.h"
// axes given to fine() in either order; the domain lists all three
template <class PC, class PF, class Q> static void views_(Ctx& c)
{
    std::vector<int> ratios = c.thorough ? std::vector<int>{1, 2, 3, 4, 5} : std::vector<int>{1, 2, 3};
    for (int lo : c.thorough ? std::vector<int>{-5, -4, -3, 0, 1} : std::vector<int>{-4, 0, 1})
        for (int n : {2, 5})
            for (int tight = 0; tight < 2; tight++) {
                int g = (lo + n + tight) & 1;
                fine<PC, PF, Q, Ord<0, 1>>(c, 0, lo, lo + n, ratios, g, tight);
                fine<PC, PF, Q, Ord<1, 0>>(c, 0, lo, lo + n, ratios, g, tight);
                fine<PC, PF, Q, Ord<0, 2>>(c, 1, lo, lo + n, ratios, g, tight);
                fine<PC, PF, Q, Ord<2, 0>>(c, 1, lo, lo + n, ratios, g, tight);
                fine<PC, PF, Q, Ord<1, 2>>(c, 2, lo, lo + n, ratios, g, tight);
                fine<PC, PF, Q, Ord<2, 1>>(c, 2, lo, lo + n, ratios, g, tight);
            }
}
template <class PC, class PF, class Q, class CO> static void views2(Ctx& c, int axis)
{
    for (int lo = -5; lo <= 2; lo++)
        for (int n : {1, 3, 6}) fine<PC, PF, Q, CO>(c, axis, lo, lo + n, {1, 2, 3, 4}, lo & 1, n & 1);
}
void views(Ctx& c)
{
    views_<Ord<0, 1, 2>, Ord<0, 1, 2>, Ord<0, 1, 2>>(c);
    views_<Ord<2, 0, 1>, Ord<0, 1, 2>, Ord<1, 2, 0>>(c);
    views_<Ord<1, 2, 0>, Ord<2, 1, 0>, Ord<0, 2, 1>>(c);
    views2<Ord<1, 2>, Ord<1, 2>, Ord<1, 2>, Ord<1>>(c, 0);
    views2<Ord<1, 2>, Ord<2, 1>, Ord<2, 1>, Ord<2>>(c, 1);
    views2<Ord<2, 1>, Ord<1, 2>, Ord<2, 1>, Ord<1>>(c, 0);
}

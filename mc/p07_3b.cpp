#define IMPLS 1
#include "p07.h"
void three1(Ctx& c)
{
    boxes07<Ord<1, 2, 0>, Ord<0, 1, 2>, Ord<2, 0, 1>, Ord<2, 0, 1>>(c, {1, 2}, {{-1, 0, 2}}, {{0, 0, 1, 0}, {1, 0, 1, 1}}, 2, 1);
    forlong(Ord<1,2,0>::slow(), {-2, 3, 0}, [&](const Dom& b) { scen<Ord<1,2,0>, Ord<0,1,2>, Ord<2,0,1>, Ord<1,2,0>, Ord<2,0,1>>(c, b, G4{{0, 1, 1, 0}}, -1, 1, 1); });
    if (c.wide()) boxes07<Ord<1, 2, 0>, Ord<0, 1, 2>, Ord<2, 0, 1>, Ord<2, 0, 1>>(c, {2, 3}, {{-1, 0, -2}}, {{0, 1, 1, 0}, {1, 1, 2, 1}}, 2, 1);
#if !defined(FOOT) && !defined(SCHED)
    if (c.thorough) boxes07<Ord<1, 2, 0>, Ord<0, 1, 2>, Ord<2, 0, 1>, Ord<2, 0, 1>>(c, {2}, {{1, -3, 0}}, {{0, 0, 1, 0}}, 0, 2);
    if (c.thorough) boxes07<Ord<1, 2, 0>, Ord<0, 1, 2>, Ord<2, 0, 1>, Ord<2, 0, 1>>(c, {3, 4}, {{1, -3, 0}}, {{1, 2, 2, 0}}, 2, 1);
#endif
}

#define IMPLS 1
#include "p07.h"
void three0(Ctx& c)
{
    boxes07<Ord<0, 1, 2>, Ord<1, 0, 2>, Ord<0, 1, 2>, Ord<0, 1, 2>>(c, {1, 2}, {{-1, 0, 2}}, {{0, 0, 1, 0}, {1, 0, 1, 1}}, 2, 1);
    forlong(Ord<0,1,2>::slow(), {-2, 3, 0}, [&](const Dom& b) { scen<Ord<0,1,2>, Ord<1,0,2>, Ord<0,1,2>, Ord<0,1,2>, Ord<0,1,2>>(c, b, G4{{0, 1, 1, 0}}, -1, 1, 1); });
    if (c.wide()) boxes07<Ord<0, 1, 2>, Ord<1, 0, 2>, Ord<0, 1, 2>, Ord<0, 1, 2>>(c, {2, 3}, {{-1, 0, -2}}, {{0, 1, 1, 0}, {1, 1, 2, 1}}, 2, 1);
#if !defined(FOOT) && !defined(SCHED)
    if (c.thorough) boxes07<Ord<0, 1, 2>, Ord<1, 0, 2>, Ord<0, 1, 2>, Ord<0, 1, 2>>(c, {2}, {{1, -3, 0}}, {{0, 0, 1, 0}}, 0, 2);
    if (c.thorough) boxes07<Ord<0, 1, 2>, Ord<1, 0, 2>, Ord<0, 1, 2>, Ord<0, 1, 2>>(c, {3, 4}, {{1, -3, 0}}, {{1, 2, 2, 0}}, 2, 1);
#endif
}

#define IMPLS 3
#include "p07.h"
void one(Ctx& c)
{
    family<OX>(c, {1, 2, 4}, {{-3}, {2}}, {{0, 0, 1, 0}, {1, 0, 2, 1}, {0, 1, 1, 2}}, 3, 1);
    family<OX>(c, {2}, {{-1}}, {{0, 0, 1, 0}}, 0, c.wide() ? 3 : 2);
    longs<OX>(c, {-7});
    if (c.wide()) family<OX>(c, {3, 7}, {{-3}}, {{0, 0, 1, 0}, {2, 1, 2, 1}}, 4, 1);
    if (c.thorough) family<OX>(c, {5, 11}, {{4}}, {{0, 3, 1, 0}, {2, 2, 3, 2}}, 5, 1);
}

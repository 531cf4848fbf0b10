#include "p07.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(two, PART)(Ctx& c)
{
    family<OXY>(c, {1, 2, 3}, {{-2, 1}}, {{0, 0, 1, 0}, {1, 0, 1, 2}, {1, 2, 1, 1}}, 2, 1);
    longs<OXY>(c, {-3, 2});
    if (c.wide()) family<OXY>(c, {4}, {{-2, 1}}, {{0, 0, 1, 0}, {1, 0, 2, 1}}, 3, 1);
    family<OXY>(c, {2}, {{-1, 0}}, {{0, 1, 1, 0}}, 0, c.wide() ? 2 : 1);
    if (c.thorough) family<OXY>(c, {5}, {{3, -4}}, {{0, 0, 1, 0}}, 3, 1);
}

#include "p05.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(three, PART)(Ctx& c)
{
    family<O3>(c, {1, 2}, {{-1, 0, 2}}, {{0, 1, 1}, {0, 2, 1}}, 2, 1, 1, true);
    longs<O3>(c, {-2, 3, 0}, 1);
    if (c.thorough) {
        family<O3>(c, {2, 3}, {{-2, 1, -1}}, {{0, 1, 2}, {1, 2, 1}}, 2, 1, 3, true);
        family<O3>(c, {2}, {{-1, 0, 2}}, {{0, 1, 1}}, 1, 2, 1, false);
    }
}

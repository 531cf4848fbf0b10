#include "p04.h"
void three0(Ctx&);
void three1(Ctx&);
void three2(Ctx&);
void check(Ctx& c)
{
    c.bounds = "every storage order of each array, every order of the domain's axes, every sub-domain with strides 1..2 (1D 1..3) of every box: 1D extents "
               "to 8, 2D to 3, 3D to 2 plus ghosts (thorough: 2D to 4, 3D to 3), several ghost-width combinations, 15 assignment forms (single assignments and lists of 2-5 of them); long boxes (to 40 cells along one axis) with seven domains of unequal strides to 7; every pair of "
               "assignments in sequence on small boxes";
    family<OX>(c, {1, 2, 3, 5, 8}, {{-3}, {2}}, {{0, 0, 0}, {1, 0, 2}, {0, 2, 1}, {2, 1, 2}}, 3, 1, 3);
    family<OX>(c, {3}, {{-1}}, {{0, 0, 0}, {1, 0, 2}}, 2, 2, 1);
    family<OX>(c, {2}, {{-1}}, {{0, 0, 0}}, 1, c.thorough ? 4 : 3, 1);
    family<OY>(c, {4}, {{-2}}, {{1, 0, 2}}, 3, 1, 3);
    family<OZ>(c, {4}, {{-2}}, {{1, 0, 2}}, 3, 1, 3);
    family<OXY>(c, {1, 2, 3}, {{-2, 1}}, {{0, 0, 0}, {1, 0, 2}, {2, 1, 1}}, 2, 1, 3);
    family<OXY>(c, {2}, {{-1, 0}}, {{0, 1, 0}}, 1, 2, 1);
    if (c.thorough) family<OXY>(c, {4, 5}, {{-2, 1}}, {{0, 0, 0}, {1, 1, 2}}, 3, 1, 3);
    family<OXZ>(c, {1, 3}, {{-2, 1}}, {{1, 0, 2}}, 2, 1, 1);
    family<OYZ>(c, {1, 3}, {{-2, 1}}, {{1, 0, 2}}, 2, 1, 1);
    longs<OX>(c, {-7}, 3);
    longs<OXY>(c, {-3, 2}, 3);
    three0(c);
    three1(c);
    three2(c);
}
int main(int argc, char** argv) { return core_main(argc, argv); }

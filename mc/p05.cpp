#include "p05.h"
void three0(Ctx&);
void three1(Ctx&);
void three2(Ctx&);
void three3(Ctx&);
void three4(Ctx&);
void three5(Ctx&);
void check(Ctx& c)
{
    c.bounds = "every storage order of each array, every order of the domain's axes, shifts -2..2 on one axis and -1..2/-2..1 on two, gradients and pairs up "
               "and down along every axis, every sub-domain (strides 1..2, unit along a gradient axis): 1D extents to 8, 2D to 3, 3D to 2 plus ghosts "
               "(thorough: 2D to 5, 3D to 3); long boxes (to 40 cells) with seven domains of unequal strides to 7";
    family<OX>(c, {1, 2, 3, 5, 8}, {{-3}, {2}}, {{0, 0, 0}, {0, 2, 1}, {1, 2, 2}, {2, 1, 2}}, 3, 1, 3, true);
    family<OY>(c, {1, 4}, {{-2}}, {{1, 1, 2}}, 3, 1, 3, true);
    family<OZ>(c, {1, 4}, {{-2}}, {{1, 1, 2}}, 3, 1, 3, true);
    family<OXY>(c, {1, 2, 3}, {{-2, 1}}, {{0, 1, 1}, {0, 2, 1}, {1, 2, 0}}, 2, 1, 3, true);
    family<OXY>(c, {2}, {{-1, 0}}, {{0, 1, 1}}, 1, 2, 1, false);
    if (c.thorough) family<OXY>(c, {4, 5}, {{-2, 1}}, {{0, 2, 1}, {1, 1, 2}}, 3, 1, 3, true);
    family<OXZ>(c, {1, 3}, {{-2, 1}}, {{0, 1, 1}}, 2, 1, 1, true);
    family<OYZ>(c, {1, 3}, {{-2, 1}}, {{0, 1, 1}}, 2, 1, 1, true);
    Dom s;
    s.lo[0] = 0, s.hi[0] = 4, s.st[0] = 2;
    strided<Ord<2>, Ord<2>>(c, s);
    longs<OX>(c, {-7}, 3);
    longs<OXY>(c, {-3, 2}, 3);
    three0(c);
    three1(c);
    three2(c);
    three3(c);
    three4(c);
    three5(c);
}
int main(int argc, char** argv) { return core_main(argc, argv); }

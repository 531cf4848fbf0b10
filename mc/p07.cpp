#include "core.h"
void one(Ctx&);
void two0(Ctx&);
void two1(Ctx&);
void three0(Ctx&);
void three1(Ctx&);
void three2(Ctx&);
void three3(Ctx&);
void check(Ctx& c)
{
    c.bounds = "49 assignment forms (up to three arrays and four entries, operands both ways round, lists of up to four assignments with fills before and after reads, pairs, "
               "accumulation); 1D: every sub-domain with strides 1..4 of extents to 7 (thorough 11), triples of assignments in sequence; 2D: every storage and domain order, extents to 4 "
               "(thorough 5), strides 1..3, pairs of assignments in sequence; 3D: four storage/domain order combinations, extents to 3 (thorough 4, and pairs of assignments), strides 1..2; "
               "long boxes (to 40 cells) with seven domains of unequal strides to 7; several ghost widths";
    one(c);
    two0(c);
    two1(c);
    three0(c);
    three1(c);
    three2(c);
    three3(c);
}
int main(int argc, char** argv) { return core_main(argc, argv); }

#include "p04.h"
void three(Ctx& c) { family<O3>(c, {1, 2}, {{-1, 0, 2}}, {{0, 0, 0}, {1, 0, 2}, {2, 1, 1}}, 2, 1, 1); }

#define PART 4
#define PARTS 6
#include "p05_3.h"

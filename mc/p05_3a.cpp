#define PART 0
#define PARTS 6
#include "p05_3.h"

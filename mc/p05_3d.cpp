#define PART 3
#define PARTS 6
#include "p05_3.h"

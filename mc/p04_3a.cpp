#define PART 0
#define PARTS 3
#include "p04_3.h"

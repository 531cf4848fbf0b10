#define PART 1
#define PARTS 3
#include "p04_3.h"

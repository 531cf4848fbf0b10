#define PART 1
#define PARTS 6
#include "p05_3.h"

#define PART 5
#define PARTS 6
#include "p05_3.h"

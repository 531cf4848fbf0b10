#define IMPLS 1
#define PART 1
#define PARTS 2
#include "p07_2.h"

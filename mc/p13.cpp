// P13: boundary adjustments, all histories up to a length
#include "ftn_decl.h"
#include "cd_stencil_1d_cuda.hpp"
#include "cd_stencil_2d_cuda.hpp"
#include "cd_stencil_3d_cuda.hpp"
#include "ops_stencil.h"
#include "p13.h"
int main(int argc, char** argv) { return core_main(argc, argv); }

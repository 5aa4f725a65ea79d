// C30: the branch-free floor
#include "vdtcore_common.h"
extern "C" double d_floor(double x){ return vdt::details::fpfloor(x); }
extern "C" float f_floor(float x){ return vdt::details::fpfloor(x); }

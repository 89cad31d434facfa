#ifndef VERIF_SHIM_RUY_KERNEL_COMMON_H_
#define VERIF_SHIM_RUY_KERNEL_COMMON_H_
#include <algorithm>
#include <cstring>
#include "ruy/check_macros.h"
#include "ruy/mat.h"
#include "ruy/opt_set.h"
#include "ruy/path.h"
#include "ruy/platform.h"
#include "ruy/profiler/instrumentation.h"
#include "ruy/side_pair.h"
#define RUY_STR_UNEXPANDED(s) #s
#define RUY_STR(s) RUY_STR_UNEXPANDED(s)
#endif

#ifndef VERIF_SHIM_RUY_RUY_H_
#define VERIF_SHIM_RUY_RUY_H_
#include "ruy/context.h"
#include "ruy/kernel_common.h"
#include "ruy/matrix.h"
#endif

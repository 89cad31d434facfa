#ifndef VERIF_SHIM_RUY_MUL_PARAMS_H_
#define VERIF_SHIM_RUY_MUL_PARAMS_H_
#include "ruy/mat.h"
#endif

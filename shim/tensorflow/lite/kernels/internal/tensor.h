#ifndef VERIF_SHIM_TENSOR_H_
#define VERIF_SHIM_TENSOR_H_
#include "tensorflow/lite/kernels/internal/portable_tensor.h"
#endif

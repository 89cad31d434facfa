#ifndef VERIF_SHIM_PORTABLE_TENSOR_H_
#define VERIF_SHIM_PORTABLE_TENSOR_H_
#include "tensorflow/lite/kernels/internal/tensor_ctypes.h"
#endif

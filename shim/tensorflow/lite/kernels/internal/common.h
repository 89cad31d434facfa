#ifndef VERIF_SHIM_COMMON_H_
#define VERIF_SHIM_COMMON_H_
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <limits>
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/kernels/internal/compatibility.h"
#include "tensorflow/lite/kernels/internal/cppmath.h"
#include "tensorflow/lite/kernels/internal/types.h"
namespace tflite {
template <typename T>
inline T ActivationFunctionWithMinMax(T x, T output_activation_min,
                                      T output_activation_max) {
  return std::min<T>(std::max<T>(x, output_activation_min),
                     output_activation_max);
}
}  // namespace tflite
#endif

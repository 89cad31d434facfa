#ifndef VERIF_SHIM_TYPES_H_
#define VERIF_SHIM_TYPES_H_
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include "tensorflow/lite/kernels/internal/compatibility.h"
#include "tensorflow/lite/kernels/internal/runtime_shape.h"
namespace tflite {
enum class FusedActivationFunctionType : uint8_t {
  kNone, kRelu6, kRelu1, kRelu
};
enum class PaddingType : uint8_t { kNone, kSame, kValid };
struct PaddingValues {
  int16_t width;
  int16_t height;
  int16_t width_offset;
  int16_t height_offset;
};
template <int N>
struct Dims {
  int sizes[N];
  int strides[N];
};
inline int MatchingDim(const RuntimeShape& a, int ia, const RuntimeShape& b,
                       int ib) {
  TFLITE_DCHECK_EQ(a.Dims(ia), b.Dims(ib));
  return std::min(a.Dims(ia), b.Dims(ib));
}
template <typename... Args>
int MatchingDim(const RuntimeShape& a, int ia, const RuntimeShape& b, int ib,
                Args... args) {
  TFLITE_DCHECK_EQ(a.Dims(ia), b.Dims(ib));
  return MatchingDim(a, ia, args...);
}
inline int FlatSizeSkipDim(const RuntimeShape& shape, int skip_dim) {
  const int n = shape.DimensionsCount();
  TFLITE_DCHECK(skip_dim >= 0 && skip_dim < n);
  const int* d = shape.DimsData();
  int s = 1;
  for (int i = 0; i < n; ++i) s *= (i == skip_dim) ? 1 : d[i];
  return s;
}
inline int MatchingFlatSize(const RuntimeShape& a, const RuntimeShape& b) {
  TFLITE_DCHECK(a == b);
  return a.FlatSize();
}
inline int MatchingFlatSizeSkipDim(const RuntimeShape& a, int skip,
                                   const RuntimeShape& b) {
  for (int i = 0; i < a.DimensionsCount(); ++i)
    if (i != skip) TFLITE_DCHECK_EQ(a.Dims(i), b.Dims(i));
  return FlatSizeSkipDim(a, skip);
}
struct ConvParams {
  PaddingType padding_type;
  PaddingValues padding_values;
  int16_t stride_width;
  int16_t stride_height;
  int16_t dilation_width_factor;
  int16_t dilation_height_factor;
  int32_t input_offset;
  int32_t weights_offset;
  int32_t output_offset;
  int32_t output_multiplier;
  int output_shift;
  int32_t quantized_activation_min;
  int32_t quantized_activation_max;
  float float_activation_min;
  float float_activation_max;
};
struct PoolParams {
  FusedActivationFunctionType activation;
  PaddingType padding_type;
  PaddingValues padding_values;
  int stride_height;
  int stride_width;
  int filter_height;
  int filter_width;
  int32_t quantized_activation_min;
  int32_t quantized_activation_max;
  float float_activation_min;
  float float_activation_max;
};
}  // namespace tflite
#endif

#ifndef VERIF_SHIM_IM2COL_UTILS_H_
#define VERIF_SHIM_IM2COL_UTILS_H_
// Plain im2col, with the interface and meaning of TFLite's: row (b, y, x) of the
// output holds the filter window at that output position, taps in (fy, fx)
// order, each tap all input channels, taps outside of the image filled with
// `zero_byte`.
#include <cstring>
#include "tensorflow/lite/kernels/internal/types.h"
namespace tflite {
namespace optimized_ops {
namespace verif_internal {
template <typename T>
void Fill(const ConvParams& p, int kheight, int kwidth, uint8_t zero_byte,
          const RuntimeShape& in_shape, const T* in, int dil_h, int dil_w,
          int batches, int out_h, int out_w, T* out) {
  TFLITE_DCHECK_EQ(in_shape.DimensionsCount(), 4);
  TFLITE_DCHECK_EQ(batches, in_shape.Dims(0));
  const int ih = in_shape.Dims(1), iw = in_shape.Dims(2), d = in_shape.Dims(3);
  for (int b = 0; b < batches; ++b)
    for (int y = 0; y < out_h; ++y)
      for (int x = 0; x < out_w; ++x)
        for (int fy = 0; fy < kheight; ++fy)
          for (int fx = 0; fx < kwidth; ++fx) {
            const int yy = y * p.stride_height - p.padding_values.height + fy * dil_h;
            const int xx = x * p.stride_width - p.padding_values.width + fx * dil_w;
            if (yy < 0 || yy >= ih || xx < 0 || xx >= iw)
              memset(out, zero_byte, sizeof(T) * d);
            else
              memcpy(out, in + ((size_t)(b * ih + yy) * iw + xx) * d, sizeof(T) * d);
            out += d;
          }
}
}  // namespace verif_internal
template <typename T>
void DilatedIm2col(const ConvParams& params, uint8_t zero_byte,
                   const RuntimeShape& input_shape, const T* input_data,
                   const RuntimeShape& filter_shape,
                   const RuntimeShape& output_shape, T* im2col_data) {
  MatchingDim(input_shape, 0, output_shape, 0);
  verif_internal::Fill(params, filter_shape.Dims(1), filter_shape.Dims(2),
                       zero_byte, input_shape, input_data,
                       params.dilation_height_factor, params.dilation_width_factor,
                       output_shape.Dims(0), output_shape.Dims(1),
                       output_shape.Dims(2), im2col_data);
}
template <typename T>
void Im2col(const ConvParams& params, int kheight, int kwidth,
            uint8_t zero_byte, const RuntimeShape& input_shape,
            const T* input_data, const RuntimeShape& output_shape,
            T* output_data) {
  TFLITE_DCHECK_EQ(output_shape.DimensionsCount(), 4);
  // The row length must be exactly one filter window.
  TFLITE_DCHECK_EQ(output_shape.Dims(3), kheight * kwidth * input_shape.Dims(3));
  verif_internal::Fill(params, kheight, kwidth, zero_byte, input_shape,
                       input_data, 1, 1, output_shape.Dims(0),
                       output_shape.Dims(1), output_shape.Dims(2), output_data);
}
}  // namespace optimized_ops
}  // namespace tflite
#endif

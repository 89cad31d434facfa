// Entry points of the AArch64 image for what no operator exposes directly.
#include <cstdint>
#include "tensorflow/lite/kernels/internal/types.h"
using namespace tflite;
#include "larq_compute_engine/core/bitpacking/bitpack.h"
using namespace compute_engine::core::bitpacking;
using compute_engine::core::TBitpacked;
extern "C" {
void verif_pack_float(const float* in, std::size_t rows, std::size_t cols, TBitpacked* out, std::int32_t zp) { bitpack_matrix(in, rows, cols, out, zp); }
void verif_pack_int8(const std::int8_t* in, std::size_t rows, std::size_t cols, TBitpacked* out, std::int32_t zp) { bitpack_matrix(in, rows, cols, out, zp); }
void verif_pack_uint8(const std::uint8_t* in, std::size_t rows, std::size_t cols, TBitpacked* out, std::int32_t zp) { bitpack_matrix(in, rows, cols, out, zp); }
void verif_unpack_float(const TBitpacked* in, std::size_t rows, std::size_t cols, float* out, const float* zero, const float* one) { unpack_matrix(in, rows, cols, out, *zero, *one); }
void verif_unpack_int8(const TBitpacked* in, std::size_t rows, std::size_t cols, std::int8_t* out, std::int8_t zero, std::int8_t one) { unpack_matrix(in, rows, cols, out, zero, one); }
}

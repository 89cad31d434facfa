#ifndef VERIF_SHIM_RUY_PACK_COMMON_H_
#define VERIF_SHIM_RUY_PACK_COMMON_H_
#include "ruy/kernel_common.h"
namespace ruy {
// The generic packing: elements of the source, the zero point outside of it.
template <Path ThePath, typename FixedKernelLayout, typename Scalar,
          typename PackedScalar, typename SumsType, Order SrcOrder>
struct PackImpl {
  static void Run(Tuning, const Mat<Scalar>& src, PMat<PackedScalar>* packed,
                  int start_col, int end_col) {
    RUY_DCHECK_EQ((end_col - start_col) % FixedKernelLayout::kCols, 0);
    for (int col = start_col; col < end_col; ++col)
      for (int row = 0; row < packed->layout.rows; ++row)
        *ElementPtr(packed, row, col) =
            (col < src.layout.cols && row < src.layout.rows)
                ? (PackedScalar)Element(src, row, col)
                : (PackedScalar)packed->zero_point;
  }
};
}  // namespace ruy
#endif

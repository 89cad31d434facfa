#ifndef VERIF_SHIM_RUY_CREATE_TRMUL_PARAMS_H_
#define VERIF_SHIM_RUY_CREATE_TRMUL_PARAMS_H_
#include "ruy/kernel_common.h"
#include "ruy/trmul_params.h"
namespace ruy {
namespace detail {
inline int RoundUp(int v, int m) { return (v + m - 1) / m * m; }
template <typename Scalar, typename PackedScalar>
void CreatePackedMatrix(Side side, const KernelLayout& kernel_layout,
                        TrMulParams* params) {
  const EMat& src = params->src[side];
  PEMat* packed = &params->packed_matrix[side];
  packed->data_type = Type::Create<PackedScalar>();
  packed->sums_type = Type::Create<std::int32_t>();
  packed->layout.order = Order::kColMajor;
  packed->layout.rows = RoundUp(src.layout.rows, kernel_layout.rows);
  packed->layout.cols = RoundUp(src.layout.cols, kernel_layout.cols);
  packed->layout.kernel = kernel_layout;
  int stride = packed->layout.rows;
  if (RUY_OPT(ASM)) {  // ruy's "avoid aliasing" padding
    if ((stride * (int)sizeof(PackedScalar)) % 1024 == 0)
      stride += 64 / (int)sizeof(PackedScalar);
  }
  packed->layout.stride = stride;
  packed->zero_point = 0;
}
}  // namespace detail
}  // namespace ruy
#endif

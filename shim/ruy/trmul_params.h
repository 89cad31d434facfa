#ifndef VERIF_SHIM_RUY_TRMUL_PARAMS_H_
#define VERIF_SHIM_RUY_TRMUL_PARAMS_H_
#include "ruy/mat.h"
#include "ruy/path.h"
#include "ruy/side_pair.h"
namespace ruy {
using RunKernelFn = void(Tuning, const SidePair<PEMat>&, const void*,
                         const SidePair<int>&, const SidePair<int>&, EMat*);
using RunPackFn = void(Tuning, const EMat&, PEMat*, int, int);
static constexpr int kMaxMulParamsAlignment = 8;
static constexpr int kMaxMulParamsSize = 64;
struct TrMulParams {
  Path path = Path::kNone;
  RunKernelFn* run_kernel = nullptr;
  SidePair<RunPackFn*> run_pack{nullptr, nullptr};
  SidePair<EMat> src;
  EMat dst;
  SidePair<PEMat> packed_matrix;
  SidePair<bool> is_prepacked{false, false};
  alignas(kMaxMulParamsAlignment) char mul_params_bytes[kMaxMulParamsSize];
};
}  // namespace ruy
#endif

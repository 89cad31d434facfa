#ifndef VERIF_SHIM_RUY_PREPARE_PACKED_H_
#define VERIF_SHIM_RUY_PREPARE_PACKED_H_
#include "ruy/context.h"
#include "ruy/trmul_params.h"
namespace ruy {
inline void PreparePackedMatrices(Ctx* ctx, TrMulParams* params) {
  for (Side side : {Side::kLhs, Side::kRhs}) {
    PEMat& pm = params->packed_matrix[side];
    const EMat& src = params->src[side];
    if (src.cache_policy == CachePolicy::kNeverCache) continue;
    RUY_CHECK(src.cache_policy == CachePolicy::kAlwaysCache);
    Ctx::Key key{src.data,         src.layout.rows,  src.layout.cols,
                 src.layout.stride, (int)src.layout.order, pm.layout.stride,
                 pm.layout.kernel.rows, pm.layout.kernel.cols};
    auto it = ctx->verif_cache().find(key);
    if (it == ctx->verif_cache().end()) {
      ctx->verif_stats.cache_misses++;
      void* p = nullptr;
      size_t n = (size_t)FlatSize(pm.layout) * pm.data_type.size;
      if (posix_memalign(&p, 64, n ? n : 1)) abort();
      pm.data = p;
      params->run_pack[side](Tuning::kGeneric, src, &pm, 0, pm.layout.cols);
      ctx->verif_cache()[key] = p;
    } else {
      ctx->verif_stats.cache_hits++;
      pm.data = it->second;
    }
    params->is_prepacked[side] = true;
  }
}
}  // namespace ruy
#endif

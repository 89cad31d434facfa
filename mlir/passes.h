// The converter's passes and a context that knows every dialect they use.
#ifndef VERIF_MLIR_PASSES_H_
#define VERIF_MLIR_PASSES_H_
#include "harness.h"
#include "larq_compute_engine/mlir/ir/lce_ops.h"
#include "larq_compute_engine/mlir/transforms/passes.h"
#include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"
#include "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.h"
namespace hs {
inline Ctx& context(uint64_t id) {
  static mlir::DialectRegistry reg;
  static bool once = (reg.insert<mlir::func::FuncDialect, mlir::arith::ArithDialect, mlir::quant::QuantizationDialect, mlir::TFL::TensorFlowLiteDialect,
                                 mlir::TF::TensorFlowDialect, mlir::lq::LarqDialect>(), true);
  (void)once;
  static std::unique_ptr<Ctx> ctx;
  if (!ctx || id % 32 == 0) ctx = std::make_unique<Ctx>(reg);
  return *ctx;
}
}  // namespace hs
#endif

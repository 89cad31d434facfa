// Stand-in for the executor dialect; see tf_executor.td.
#ifndef VERIF_TF_EXECUTOR_H_
#define VERIF_TF_EXECUTOR_H_
#include "mlir/IR/Dialect.h"
#include "mlir/IR/OpImplementation.h"
#include "mlir/Bytecode/BytecodeOpInterface.h"
#include "verif_tf.h"
namespace mlir {
namespace tf_executor {
class TensorFlowExecutorDialect : public Dialect {
  explicit TensorFlowExecutorDialect(MLIRContext* context);
  friend class ::mlir::MLIRContext;

 public:
  ~TensorFlowExecutorDialect() override;
  static constexpr StringLiteral getDialectNamespace() { return StringLiteral("tf_executor"); }
};
}  // namespace tf_executor
}  // namespace mlir
MLIR_DECLARE_EXPLICIT_TYPE_ID(::mlir::tf_executor::TensorFlowExecutorDialect)
#define GET_OP_CLASSES
#include "verif_generated/tf_executor.h.inc"
#endif

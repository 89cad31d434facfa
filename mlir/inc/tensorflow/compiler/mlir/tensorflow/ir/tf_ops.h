// Stand-in for the TensorFlow dialect; see tf_ops.td.
#ifndef VERIF_TF_OPS_H_
#define VERIF_TF_OPS_H_
#include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"

namespace mlir {
namespace TF {
class TensorFlowDialect : public Dialect {
  explicit TensorFlowDialect(MLIRContext* context);
  void initialize();
  friend class ::mlir::MLIRContext;

 public:
  ~TensorFlowDialect() override;
  static constexpr StringLiteral getDialectNamespace() { return StringLiteral("tf"); }
  Operation* materializeConstant(OpBuilder& builder, Attribute value, Type type, Location loc) override;
};
}  // namespace TF
}  // namespace mlir
MLIR_DECLARE_EXPLICIT_TYPE_ID(::mlir::TF::TensorFlowDialect)

#define GET_OP_CLASSES
#include "verif_generated/tf_ops.h.inc"
#endif

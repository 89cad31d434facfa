// Stand-in for TensorFlow Lite's dialect; see tfl_ops.td.
#ifndef VERIF_TFL_OPS_H_
#define VERIF_TFL_OPS_H_
#include <string>

#include "llvm/ADT/StringSwitch.h"
#include "mlir/Bytecode/BytecodeOpInterface.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Quant/QuantOps.h"
#include "mlir/Dialect/Quant/QuantTypes.h"
#include "mlir/Dialect/Traits.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinAttributes.h"
#include "mlir/IR/BuiltinTypes.h"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/Matchers.h"
#include "mlir/IR/OpImplementation.h"
#include "mlir/IR/PatternMatch.h"
#include "mlir/IR/TypeUtilities.h"
#include "mlir/Interfaces/SideEffectInterfaces.h"
#include "tensorflow/lite/schema/schema_generated.h"

namespace mlir {
namespace TFL {
namespace detail {
struct ConstBytesAttrStorage;
}
class ConstBytesAttr : public Attribute::AttrBase<ConstBytesAttr, Attribute, detail::ConstBytesAttrStorage> {
 public:
  using Base::Base;
  static constexpr StringLiteral name = "tfl.const_bytes";
  static ConstBytesAttr get(MLIRContext* context, StringRef value);
  StringRef getValue() const;
};

class TensorFlowLiteDialect : public Dialect {
  explicit TensorFlowLiteDialect(MLIRContext* context);
  void initialize();
  friend class ::mlir::MLIRContext;

 public:
  ~TensorFlowLiteDialect() override;
  static constexpr StringLiteral getDialectNamespace() { return StringLiteral("tfl"); }
  Operation* materializeConstant(OpBuilder& builder, Attribute value, Type type, Location loc) override;
  Attribute parseAttribute(DialectAsmParser& parser, Type type) const override;
  void printAttribute(Attribute attr, DialectAsmPrinter& os) const override;
};
// The type of a broadcast result; null when the shapes do not agree.
Type broadcastType(Type a, Type b, Type element = nullptr);
}  // namespace TFL
}  // namespace mlir
MLIR_DECLARE_EXPLICIT_TYPE_ID(::mlir::TFL::TensorFlowLiteDialect)
MLIR_DECLARE_EXPLICIT_TYPE_ID(::mlir::TFL::ConstBytesAttr)

#define GET_OP_CLASSES
#include "verif_generated/tfl_ops.h.inc"
#endif

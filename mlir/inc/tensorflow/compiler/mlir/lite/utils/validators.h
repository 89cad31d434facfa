// Stand-in for TensorFlow Lite's converter helpers.
#ifndef VERIF_VALIDATORS_H_
#define VERIF_VALIDATORS_H_
#include "mlir/IR/BuiltinAttributes.h"
namespace mlir {
namespace TFL {
// Returns true if the given attribute is an array of four integers 1, x, y, 1.
inline bool TFIntListIs1XY1(Attribute attr) {
  auto elements = llvm::dyn_cast_or_null<ArrayAttr>(attr);
  if (!elements || elements.size() != 4) return false;
  for (auto e : elements)
    if (!llvm::isa<IntegerAttr>(e)) return false;
  return llvm::cast<IntegerAttr>(elements[0]).getInt() == 1 && llvm::cast<IntegerAttr>(elements[3]).getInt() == 1;
}
}  // namespace TFL
}  // namespace mlir
#endif

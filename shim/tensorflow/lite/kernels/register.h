#ifndef VERIF_SHIM_REGISTER_H_
#define VERIF_SHIM_REGISTER_H_
#include <memory>
#include "tensorflow/lite/op_resolver.h"
namespace tflite {
namespace ops {
namespace builtin {
class BuiltinOpResolver : public MutableOpResolver {
 public:
  virtual bool verif_default_delegates() const { return true; }
};
class BuiltinOpResolverWithoutDefaultDelegates : public BuiltinOpResolver {
 public:
  bool verif_default_delegates() const override { return false; }
};
}  // namespace builtin
}  // namespace ops
}  // namespace tflite
#endif

// The enums of the TFLite schema that larq/compute-engine uses.
#ifndef VERIF_SHIM_SCHEMA_GENERATED_H_
#define VERIF_SHIM_SCHEMA_GENERATED_H_
#include <cstdint>
namespace tflite {
enum Padding : int8_t {
  Padding_SAME = 0, Padding_VALID = 1,
  Padding_MIN = Padding_SAME, Padding_MAX = Padding_VALID
};
enum ActivationFunctionType : int8_t {
  ActivationFunctionType_NONE = 0,
  ActivationFunctionType_RELU = 1,
  ActivationFunctionType_RELU_N1_TO_1 = 2,
  ActivationFunctionType_RELU6 = 3,
  ActivationFunctionType_TANH = 4,
  ActivationFunctionType_SIGN_BIT = 5,
  ActivationFunctionType_MIN = ActivationFunctionType_NONE,
  ActivationFunctionType_MAX = ActivationFunctionType_SIGN_BIT
};
}  // namespace tflite
#endif

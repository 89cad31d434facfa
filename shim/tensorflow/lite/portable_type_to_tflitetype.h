#ifndef VERIF_SHIM_PORTABLE_TYPE_H_
#define VERIF_SHIM_PORTABLE_TYPE_H_
#include <stdint.h>
#include "tensorflow/lite/c/common.h"
namespace tflite {
template <typename T>
constexpr TfLiteType typeToTfLiteType() {
  return kTfLiteNoType;
}
template <TfLiteType TFLITE_TYPE_ENUM>
struct TfLiteTypeToType {};
#define MATCH_TYPE_AND_TFLITE_TYPE(CPP_TYPE, TFLITE_TYPE_ENUM) \
  template <>                                                  \
  constexpr TfLiteType typeToTfLiteType<CPP_TYPE>() {          \
    return TFLITE_TYPE_ENUM;                                   \
  }                                                            \
  template <>                                                  \
  struct TfLiteTypeToType<TFLITE_TYPE_ENUM> {                  \
    using Type = CPP_TYPE;                                     \
  }
MATCH_TYPE_AND_TFLITE_TYPE(int32_t, kTfLiteInt32);
MATCH_TYPE_AND_TFLITE_TYPE(uint32_t, kTfLiteUInt32);
MATCH_TYPE_AND_TFLITE_TYPE(int16_t, kTfLiteInt16);
MATCH_TYPE_AND_TFLITE_TYPE(uint16_t, kTfLiteUInt16);
MATCH_TYPE_AND_TFLITE_TYPE(int64_t, kTfLiteInt64);
MATCH_TYPE_AND_TFLITE_TYPE(float, kTfLiteFloat32);
MATCH_TYPE_AND_TFLITE_TYPE(unsigned char, kTfLiteUInt8);
MATCH_TYPE_AND_TFLITE_TYPE(int8_t, kTfLiteInt8);
MATCH_TYPE_AND_TFLITE_TYPE(bool, kTfLiteBool);
MATCH_TYPE_AND_TFLITE_TYPE(double, kTfLiteFloat64);
}  // namespace tflite
#endif

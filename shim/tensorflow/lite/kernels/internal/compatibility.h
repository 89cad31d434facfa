#ifndef VERIF_SHIM_COMPATIBILITY_H_
#define VERIF_SHIM_COMPATIBILITY_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include "tensorflow/lite/kernels/op_macros.h"
// In this monitor every debug check is live: a failing one is a violation.
#define VERIF_SHIM_CHECK(x, what)                                            \
  do {                                                                       \
    if (!(x)) {                                                              \
      fprintf(stderr, "VERIF-DCHECK %s:%d %s\n", __FILE__, __LINE__, what);  \
      abort();                                                               \
    }                                                                        \
  } while (0)
#define TFLITE_ASSERT_FALSE VERIF_SHIM_CHECK(false, "assert false")
#define TFLITE_DCHECK(c) VERIF_SHIM_CHECK((c), #c)
#define TFLITE_DCHECK_EQ(x, y) VERIF_SHIM_CHECK((x) == (y), #x " == " #y)
#define TFLITE_DCHECK_NE(x, y) VERIF_SHIM_CHECK((x) != (y), #x " != " #y)
#define TFLITE_DCHECK_GE(x, y) VERIF_SHIM_CHECK((x) >= (y), #x " >= " #y)
#define TFLITE_DCHECK_GT(x, y) VERIF_SHIM_CHECK((x) > (y), #x " > " #y)
#define TFLITE_DCHECK_LE(x, y) VERIF_SHIM_CHECK((x) <= (y), #x " <= " #y)
#define TFLITE_DCHECK_LT(x, y) VERIF_SHIM_CHECK((x) < (y), #x " < " #y)
#define TFLITE_CHECK(c) VERIF_SHIM_CHECK((c), #c)
#define TFLITE_CHECK_EQ(x, y) VERIF_SHIM_CHECK((x) == (y), #x " == " #y)
#define TFLITE_CHECK_NE(x, y) VERIF_SHIM_CHECK((x) != (y), #x " != " #y)
#define TFLITE_CHECK_GE(x, y) VERIF_SHIM_CHECK((x) >= (y), #x " >= " #y)
#define TFLITE_CHECK_GT(x, y) VERIF_SHIM_CHECK((x) > (y), #x " > " #y)
#define TFLITE_CHECK_LE(x, y) VERIF_SHIM_CHECK((x) <= (y), #x " <= " #y)
#define TFLITE_CHECK_LT(x, y) VERIF_SHIM_CHECK((x) < (y), #x " < " #y)
#define TFLITE_DEPRECATED(message)
#endif

#ifndef VERIF_SHIM_OP_MACROS_H_
#define VERIF_SHIM_OP_MACROS_H_
#include <cstdio>
#include <cstdlib>
#define TF_LITE_FATAL(msg)                                \
  do {                                                    \
    fprintf(stderr, "VERIF-FATAL %s\n", (msg));           \
    abort();                                              \
  } while (false)
#define TF_LITE_ASSERT(x)        \
  do {                           \
    if (!(x)) TF_LITE_FATAL(#x); \
  } while (false)
#define TF_LITE_ASSERT_EQ(x, y)                            \
  do {                                                     \
    if ((x) != (y)) TF_LITE_FATAL(#x " didn't equal " #y); \
  } while (false)
#define TFLITE_ABORT abort()
#define TFLITE_ASSERT_FALSE TF_LITE_FATAL("unreachable")
#endif

#ifndef VERIF_SHIM_RUY_CHECK_MACROS_H_
#define VERIF_SHIM_RUY_CHECK_MACROS_H_
// Every ruy debug check is live here.
#include <cstdio>
#include <cstdlib>
#define VERIF_RUY_CHECK(x, what)                                            \
  do {                                                                      \
    if (!(x)) {                                                             \
      fprintf(stderr, "VERIF-DCHECK %s:%d %s\n", __FILE__, __LINE__, what); \
      abort();                                                              \
    }                                                                       \
  } while (0)
#define RUY_CHECK(c) VERIF_RUY_CHECK((c), #c)
#define RUY_CHECK_EQ(a, b) VERIF_RUY_CHECK((a) == (b), #a " == " #b)
#define RUY_CHECK_NE(a, b) VERIF_RUY_CHECK((a) != (b), #a " != " #b)
#define RUY_CHECK_GE(a, b) VERIF_RUY_CHECK((a) >= (b), #a " >= " #b)
#define RUY_CHECK_GT(a, b) VERIF_RUY_CHECK((a) > (b), #a " > " #b)
#define RUY_CHECK_LE(a, b) VERIF_RUY_CHECK((a) <= (b), #a " <= " #b)
#define RUY_CHECK_LT(a, b) VERIF_RUY_CHECK((a) < (b), #a " < " #b)
#define RUY_DCHECK RUY_CHECK
#define RUY_DCHECK_EQ RUY_CHECK_EQ
#define RUY_DCHECK_NE RUY_CHECK_NE
#define RUY_DCHECK_GE RUY_CHECK_GE
#define RUY_DCHECK_GT RUY_CHECK_GT
#define RUY_DCHECK_LE RUY_CHECK_LE
#define RUY_DCHECK_LT RUY_CHECK_LT
#endif

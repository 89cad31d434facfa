#ifndef VERIF_SHIM_RUY_OPT_SET_H_
#define VERIF_SHIM_RUY_OPT_SET_H_
#define RUY_OPT_BIT_TUNING 0x2
#define RUY_OPT_BIT_MAX_STREAMING 0x4
#define RUY_OPT_BIT_FAT_KERNEL 0x8
#define RUY_OPT_BIT_ASM 0x10
#ifndef RUY_OPT_SET
#define RUY_OPT_SET (~0U)
#endif
#define RUY_OPT(X) ((RUY_OPT_SET & RUY_OPT_BIT_##X) != 0)
#endif

#ifndef VERIF_SHIM_RUY_PLATFORM_H_
#define VERIF_SHIM_RUY_PLATFORM_H_
#if defined(__x86_64__)
#define RUY_PLATFORM_X86 1
#else
#define RUY_PLATFORM_X86 0
#endif
#if defined(__aarch64__)
#define RUY_PLATFORM_ARM_64 1
#define RUY_PLATFORM_NEON 1
#define RUY_PLATFORM_NEON_64 1
#else
#define RUY_PLATFORM_ARM_64 0
#define RUY_PLATFORM_NEON_64 0
#endif
#if defined(__arm__)
#define RUY_PLATFORM_ARM_32 1
#define RUY_PLATFORM_NEON 1
#define RUY_PLATFORM_NEON_32 1
#else
#define RUY_PLATFORM_ARM_32 0
#define RUY_PLATFORM_NEON_32 0
#endif
#ifndef RUY_PLATFORM_NEON
#define RUY_PLATFORM_NEON 0
#endif
#define RUY_PLATFORM_ARM (RUY_PLATFORM_ARM_64 || RUY_PLATFORM_ARM_32)
#endif

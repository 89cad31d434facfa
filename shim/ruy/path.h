#ifndef VERIF_SHIM_RUY_PATH_H_
#define VERIF_SHIM_RUY_PATH_H_
#include <cstdint>
#include "ruy/platform.h"
namespace ruy {
enum class Path : std::uint8_t {
  kNone = 0,
  kInternalStandardCppVariant1 = 0x2,
  kInternalStandardCppVariant2 = 0x4,
  kInternalStandardCppVariant3 = 0x8,
  kStandardCpp = 0x1,
  kNeon = 0x10,
  kNeonDotprod = 0x20,
};
enum class Tuning { kGeneric, kA55ish, kX1, kAuto };
}  // namespace ruy
#endif

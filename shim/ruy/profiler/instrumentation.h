#ifndef VERIF_SHIM_RUY_INSTRUMENTATION_H_
#define VERIF_SHIM_RUY_INSTRUMENTATION_H_
#include "ruy/check_macros.h"
namespace ruy {
namespace profiler {
class ScopeLabel {
 public:
  template <typename... Args>
  explicit ScopeLabel(Args...) {}
  ~ScopeLabel() {}
};
}  // namespace profiler
}  // namespace ruy
#endif

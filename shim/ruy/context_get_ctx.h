#ifndef VERIF_SHIM_RUY_GET_CTX_H_
#define VERIF_SHIM_RUY_GET_CTX_H_
#include "ruy/context.h"
namespace ruy {
inline const Ctx* get_ctx(const Context* c) { return c; }
inline Ctx* get_ctx(Context* c) { return c; }
}  // namespace ruy
#endif

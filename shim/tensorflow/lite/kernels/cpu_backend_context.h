#ifndef VERIF_SHIM_CPU_BACKEND_CONTEXT_H_
#define VERIF_SHIM_CPU_BACKEND_CONTEXT_H_
#include <memory>
#include "ruy/context.h"
#include "tensorflow/lite/c/common.h"
namespace tflite {
class CpuBackendContext final : public TfLiteExternalContext {
 public:
  // One per interpreter, as in TFLite.
  static CpuBackendContext* GetFromContext(TfLiteContext* context) {
    auto* e = context->GetExternalContext(context, kTfLiteCpuBackendContext);
    if (e == nullptr) {
      fprintf(stderr, "no cpu backend context\n");
      abort();
    }
    return static_cast<CpuBackendContext*>(e);
  }
  CpuBackendContext() : ruy_context_(new ruy::Context) {
    type = kTfLiteCpuBackendContext;
    Refresh = nullptr;
  }
  ruy::Context* ruy_context() const { return ruy_context_.get(); }
  void SetMaxNumThreads(int n) { ruy_context_->set_max_num_threads(n); }
  int max_num_threads() const { return ruy_context_->max_num_threads(); }

 private:
  std::unique_ptr<ruy::Context> ruy_context_;
};
}  // namespace tflite
#endif

#ifndef VERIF_SHIM_OP_RESOLVER_H_
#define VERIF_SHIM_OP_RESOLVER_H_
#include <map>
#include <string>
#include <utility>
#include <vector>
#include "tensorflow/lite/c/common.h"
namespace tflite {
class OpResolver {
 public:
  virtual ~OpResolver() {}
  virtual const TfLiteRegistration* FindOp(const char* op,
                                           int version) const = 0;
};
// Records every registration, in order, so that monitors can inspect them.
class MutableOpResolver : public OpResolver {
 public:
  const TfLiteRegistration* FindOp(const char* op, int version) const override {
    auto it = custom_.find({op, version});
    return it == custom_.end() ? nullptr : &it->second;
  }
  void AddCustom(const char* name, const TfLiteRegistration* registration,
                 int version = 1) {
    TfLiteRegistration r = *registration;
    r.builtin_code = 32;
    r.custom_name = name;
    r.version = version;
    custom_[{name, version}] = r;
    log_.push_back({name, registration});
  }
  void AddCustom(const char* name, const TfLiteRegistration* registration,
                 int min_version, int max_version) {
    for (int v = min_version; v <= max_version; ++v)
      AddCustom(name, registration, v);
  }
  const std::vector<std::pair<std::string, const TfLiteRegistration*>>&
  verif_log() const {
    return log_;
  }
  std::vector<std::pair<std::string, int>> verif_names() const {
    std::vector<std::pair<std::string, int>> r;
    for (auto& kv : custom_) r.push_back(kv.first);
    return r;
  }

 private:
  std::map<std::pair<std::string, int>, TfLiteRegistration> custom_;
  std::vector<std::pair<std::string, const TfLiteRegistration*>> log_;
};
}  // namespace tflite
#endif

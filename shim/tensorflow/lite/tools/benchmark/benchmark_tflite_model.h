#ifndef VERIF_SHIM_BENCHMARK_TFLITE_MODEL_H_
#define VERIF_SHIM_BENCHMARK_TFLITE_MODEL_H_
// A stand-in for TFLite's benchmark tool: typed parameters, flags, and a Run that
// registers the selected operators on the resolver it would use.
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "tensorflow/lite/kernels/register.h"
#include "tensorflow/lite/tools/logging.h"
// The tool calls this weak function of its binary.
void RegisterSelectedOps(::tflite::MutableOpResolver* resolver);
namespace tflite {
namespace benchmark {
class BenchmarkParam {
 public:
  template <typename T>
  static std::unique_ptr<BenchmarkParam> Create(const T& v, int pos = 0);
  virtual ~BenchmarkParam() {}
};
template <typename T>
class TypedBenchmarkParam : public BenchmarkParam {
 public:
  explicit TypedBenchmarkParam(const T& v) : v(v) {}
  T v;
};
template <typename T>
std::unique_ptr<BenchmarkParam> BenchmarkParam::Create(const T& v, int) {
  return std::unique_ptr<BenchmarkParam>(new TypedBenchmarkParam<T>(v));
}
class BenchmarkParams {
 public:
  void AddParam(const std::string& n, std::unique_ptr<BenchmarkParam> v) { p_[n] = std::move(v); }
  bool HasParam(const std::string& n) const { return p_.count(n) > 0; }
  template <typename T>
  T Get(const std::string& n) const {
    return As<T>(n)->v;
  }
  template <typename T>
  void Set(const std::string& n, const T& v) {
    As<T>(n)->v = v;
  }
  void RemoveParam(const std::string& n) { p_.erase(n); }

 private:
  template <typename T>
  TypedBenchmarkParam<T>* As(const std::string& n) const {
    auto it = p_.find(n);
    auto* t = it == p_.end() ? nullptr : dynamic_cast<TypedBenchmarkParam<T>*>(it->second.get());
    TFLITE_TOOLS_CHECK(t != nullptr) << n << " not found.";
    return t;
  }
  std::map<std::string, std::unique_ptr<BenchmarkParam>> p_;
};
class Flag {
 public:
  std::string name;
  std::function<bool(const std::string&)> set;
};
namespace verif_internal {
inline bool Parse(const std::string& s, bool* v) {
  if (s == "true" || s == "1") return *v = true, true;
  if (s == "false" || s == "0") return *v = false, true;
  return false;
}
inline bool Parse(const std::string& s, int* v) {
  try { *v = std::stoi(s); } catch (...) { return false; }
  return true;
}
inline bool Parse(const std::string& s, float* v) {
  try { *v = std::stof(s); } catch (...) { return false; }
  return true;
}
inline bool Parse(const std::string& s, std::string* v) { return *v = s, true; }
}  // namespace verif_internal
template <typename T>
Flag CreateFlag(const char* name, BenchmarkParams* params, const std::string& usage) {
  return Flag{name, [params, name](const std::string& s) {
                T v;
                if (!verif_internal::Parse(s, &v)) return false;
                params->Set<T>(name, v);
                return true;
              }};
}
#define LOG_BENCHMARK_PARAM(type, param_name, msg, verbose) \
  TFLITE_MAY_LOG(INFO, (verbose)) << msg << ": [" << params_.Get<type>(param_name) << "]"
class BenchmarkTfLiteModel {
 public:
  explicit BenchmarkTfLiteModel(BenchmarkParams params = DefaultParams()) : params_(std::move(params)) {}
  virtual ~BenchmarkTfLiteModel() {}
  static BenchmarkParams DefaultParams() {
    BenchmarkParams p;
    p.AddParam("graph", BenchmarkParam::Create<std::string>(""));
    p.AddParam("num_threads", BenchmarkParam::Create<int>(-1));
    p.AddParam("verbose", BenchmarkParam::Create<bool>(false));
    return p;
  }
  virtual std::vector<Flag> GetFlags() {
    return {CreateFlag<std::string>("graph", &params_, "graph"), CreateFlag<int>("num_threads", &params_, "threads"),
            CreateFlag<bool>("verbose", &params_, "verbose")};
  }
  virtual void LogParams() {}
  virtual TfLiteStatus ValidateParams() { return params_.Get<std::string>("graph").empty() ? kTfLiteError : kTfLiteOk; }
  TfLiteStatus Run() {
    if (ValidateParams() != kTfLiteOk) return kTfLiteError;
    LogParams();
    resolver() = ops::builtin::BuiltinOpResolver();
    RegisterSelectedOps(&resolver());
    ++runs();
    return kTfLiteOk;
  }
  TfLiteStatus Run(int argc, char** argv) {
    if (ParseFlags(argc, argv) != kTfLiteOk) return kTfLiteError;
    return Run();
  }
  static ops::builtin::BuiltinOpResolver& resolver() {
    static ops::builtin::BuiltinOpResolver r;
    return r;
  }
  static int& runs() {
    static int n = 0;
    return n;
  }
  TfLiteStatus ParseFlags(int* argc, char** argv) { return ParseFlags(*argc, argv); }
  TfLiteStatus ParseFlags(int argc, char** argv) {
    auto flags = GetFlags();
    for (int i = 1; i < argc; ++i) {
      bool found = false;
      for (auto& f : flags) {
        std::string pre = "--" + f.name + "=";
        if (!strncmp(argv[i], pre.c_str(), pre.size())) {
          found = true;
          if (!f.set(argv[i] + pre.size())) return kTfLiteError;
        }
      }
      if (!found) return kTfLiteError;
    }
    return kTfLiteOk;
  }

 protected:
  BenchmarkParams params_;
};
}  // namespace benchmark
}  // namespace tflite
#endif

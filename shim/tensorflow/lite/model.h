#ifndef VERIF_SHIM_MODEL_H_
#define VERIF_SHIM_MODEL_H_
// Text models:
//   VM1
//   tensor <type number> <constant 0/1> <rank> dims.. <quantized 0/1> <n> scales.. <n> zps.. <hex data or ->
//   input ids..      output ids..
//   op <name> <n> in.. <n> out.. <hex options or ->
#include <fstream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "tensorflow/lite/kernels/register.h"
namespace tflite {
struct VerifDesc {
  struct Tensor {
    int type = 1;
    bool constant = false, quantized = false;
    std::vector<int> dims, zps;
    std::vector<float> scales;
    std::string data;
  };
  struct Op {
    std::string name, options;
    std::vector<int> in, out;
  };
  std::vector<Tensor> tensors;
  std::vector<Op> ops;
  std::vector<int> inputs, outputs;
};
class FlatBufferModel {
 public:
  static std::unique_ptr<FlatBufferModel> BuildFromBuffer(const char* p, size_t n) {
    std::istringstream f(std::string(p, n));
    std::string line;
    if (!std::getline(f, line) || line != "VM1") return nullptr;
    auto m = std::unique_ptr<FlatBufferModel>(new FlatBufferModel);
    m->p_ = p;
    m->n_ = n;
    m->sum_ = Sum(p, n);
    m->d_.reset(new VerifDesc);
    auto hex = [](const std::string& s) {
      std::string r;
      if (s == "-") return r;
      for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((char)std::stoi(s.substr(i, 2), 0, 16));
      return r;
    };
    auto ints = [](std::istream& s, std::vector<int>* v) {
      int k = 0;
      s >> k;
      for (int i = 0, x; i < k && s >> x; ++i) v->push_back(x);
    };
    while (std::getline(f, line)) {
      std::istringstream s(line);
      std::string w, h;
      s >> w;
      if (w == "tensor") {
        VerifDesc::Tensor t;
        s >> t.type >> t.constant;
        ints(s, &t.dims);
        s >> t.quantized;
        int k = 0;
        s >> k;
        for (int i = 0; i < k; ++i) {
          float x;
          s >> x;
          t.scales.push_back(x);
        }
        ints(s, &t.zps);
        s >> h;
        t.data = hex(h);
        m->d_->tensors.push_back(t);
      } else if (w == "input") {
        for (int x; s >> x;) m->d_->inputs.push_back(x);
      } else if (w == "output") {
        for (int x; s >> x;) m->d_->outputs.push_back(x);
      } else if (w == "op") {
        VerifDesc::Op o;
        s >> o.name;
        ints(s, &o.in);
        ints(s, &o.out);
        s >> h;
        o.options = hex(h);
        m->d_->ops.push_back(o);
      } else if (!w.empty()) {
        return nullptr;
      }
    }
    return m;
  }
  static std::unique_ptr<FlatBufferModel> BuildFromFile(const char* name) {
    std::ifstream f(name, std::ios::binary);
    if (!f) return nullptr;
    std::stringstream s;
    s << f.rdbuf();
    std::string t = s.str();
    auto m = BuildFromBuffer(t.data(), t.size());
    if (m) m->p_ = nullptr;
    return m;
  }
  // Does the caller's buffer, which a model refers to all its life, still hold the model?
  bool verif_intact() const { return p_ == nullptr || Sum(p_, n_) == sum_; }
  ~FlatBufferModel() { *alive_ = false; }
  std::shared_ptr<bool> verif_alive() const { return alive_; }
  bool initialized() const { return true; }
  const VerifDesc* verif_desc() const { return d_.get(); }

 private:
  static uint64_t Sum(const char* p, size_t n) {
    uint64_t h = 14695981039346656037ull;
    for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)p[i]) * 1099511628211ull;
    return h;
  }
  std::unique_ptr<VerifDesc> d_;
  const char* p_ = nullptr;
  size_t n_ = 0;
  uint64_t sum_ = 0;
  std::shared_ptr<bool> alive_ = std::make_shared<bool>(true);
};
}  // namespace tflite
#endif

#ifndef VERIF_SHIM_INTERPRETER_H_
#define VERIF_SHIM_INTERPRETER_H_
// A stand-in interpreter. Models are a small text format (see model.h). Operators
// whose names start with '@' are built in; all others come from the resolver.
#include <memory>
#include <string>
#include <vector>
#include "mini.h"
#include "tensorflow/lite/model.h"
namespace tflite {
namespace verif_internal {
struct Last {
  std::string conv_name;
  const TfLiteRegistration* conv = nullptr;
  std::vector<std::pair<std::string, int>> names;
  std::vector<std::pair<std::string, const TfLiteRegistration*>> log;
  int threads = -2;
  bool default_delegates = false;
  long live = 0, invokes = 0, dangling = 0;
};
inline Last& last() {
  static Last l;
  return l;
}
}  // namespace verif_internal
class Interpreter {
 public:
  Interpreter(int threads) : m_(1, threads < 1 ? 1 : threads) { verif_internal::last().live++; }
  ~Interpreter() {
    verif_internal::last().live--;
  }
  const std::vector<int>& inputs() const { return inputs_; }
  const std::vector<int>& outputs() const { return outputs_; }
  size_t tensors_size() const { return (size_t)m_.num_tensors(); }
  TfLiteTensor* tensor(int i) {
    if (i < 0 || i >= m_.num_tensors()) return nullptr;
    return &m_.T(i);
  }
  TfLiteTensor* input_tensor(size_t i) { return tensor(inputs_[i]); }
  TfLiteTensor* output_tensor(size_t i) { return tensor(outputs_[i]); }
  TfLiteStatus AllocateTensors() { return m_.Allocate(); }
  TfLiteStatus Invoke() {
    verif_internal::last().invokes++;
    if (alive_ && (!*alive_ || !model_->verif_intact())) verif_internal::last().dangling++;
    return m_.Invoke();
  }
  std::vector<int> inputs_, outputs_;
  std::vector<std::unique_ptr<TfLiteRegistration>> regs_;  // outlives the nodes
  ::verif::MiniInterp m_;
  const FlatBufferModel* model_ = nullptr;
  std::shared_ptr<bool> alive_;
};
class InterpreterBuilder {
 public:
  InterpreterBuilder(const FlatBufferModel& model, const OpResolver& resolver) : model_(model), resolver_(resolver) {}
  TfLiteStatus SetNumThreads(int n) {
    threads_ = n;
    return kTfLiteOk;
  }
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* out) { return Make(out, threads_); }
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* out, int threads) { return Make(out, threads); }

 private:
  TfLiteStatus Make(std::unique_ptr<Interpreter>* out, int threads) {
    out->reset();
    if (threads < -1) return kTfLiteError;
    auto& last = verif_internal::last();
    last.threads = threads;
    if (auto* r = dynamic_cast<const MutableOpResolver*>(&resolver_)) {
      last.names = r->verif_names();
      last.log = r->verif_log();
    }
    last.default_delegates = false;
    if (auto* b = dynamic_cast<const ops::builtin::BuiltinOpResolver*>(&resolver_))
      last.default_delegates = b->verif_default_delegates();
    auto it = std::make_unique<Interpreter>(threads);
    const auto& d = *model_.verif_desc();
    for (auto& t : d.tensors) {
      int id = it->m_.AddTensor((TfLiteType)t.type, t.dims, t.constant ? kTfLiteMmapRo : kTfLiteArenaRw);
      TfLiteTensor& x = it->m_.T(id);
      if (t.constant) {
        if (t.data.size() != x.bytes) return kTfLiteError;
        memcpy(x.data.raw, t.data.data(), x.bytes);
      }
      if (t.quantized) {
        it->m_.Quantize(id, t.scales.empty() ? 0.f : t.scales[0], t.zps.empty() ? 0 : t.zps[0]);
        auto* q = (TfLiteAffineQuantization*)x.quantization.params;
        TfLiteFloatArrayFree(q->scale);
        q->scale = TfLiteFloatArrayCreate((int)t.scales.size());
        for (size_t i = 0; i < t.scales.size(); ++i) q->scale->data[i] = t.scales[i];
        TfLiteIntArrayFree(q->zero_point);
        q->zero_point = TfLiteIntArrayCreate((int)t.zps.size());
        for (size_t i = 0; i < t.zps.size(); ++i) q->zero_point->data[i] = t.zps[i];
        // As TFLite: the legacy fields are only set for per-tensor quantization.
        if (t.scales.size() != 1) x.params.scale = 0.f;
        if (t.scales.size() != 1) x.params.zero_point = 0;
      }
    }
    for (auto& o : d.ops) {
      const TfLiteRegistration* reg = nullptr;
      if (o.name[0] == '@') {
        auto r = std::make_unique<TfLiteRegistration>();
        memset((void*)r.get(), 0, sizeof(TfLiteRegistration));
        r->prepare = [](TfLiteContext*, TfLiteNode*) { return kTfLiteOk; };
        r->invoke = o.name == "@copy" ? &CopyOp : o.name == "@count" ? &CountOp : &FailOp;
        reg = r.get();
        it->regs_.push_back(std::move(r));
      } else {
        reg = resolver_.FindOp(o.name.c_str(), 1);
        if (!reg) return kTfLiteError;
        it->regs_.push_back(std::make_unique<TfLiteRegistration>(*reg));
        reg = it->regs_.back().get();
        if (o.name == "LceBconv2d") last.conv_name = o.name;
      }
      it->m_.AddNode(reg, std::vector<uint8_t>(o.options.begin(), o.options.end()), o.in, o.out);
    }
    it->model_ = &model_;
    it->alive_ = model_.verif_alive();
    it->inputs_ = d.inputs;
    it->outputs_ = d.outputs;
    *out = std::move(it);
    return kTfLiteOk;
  }
  static TfLiteStatus CopyOp(TfLiteContext* c, TfLiteNode* n) {
    for (int i = 0; i < n->outputs->size; ++i) {
      TfLiteTensor &a = c->tensors[n->inputs->data[i]], &b = c->tensors[n->outputs->data[i]];
      memcpy(b.data.raw, a.data.raw, std::min(a.bytes, b.bytes));
    }
    return kTfLiteOk;
  }
  static TfLiteStatus CountOp(TfLiteContext* c, TfLiteNode* n) {
    TfLiteTensor& b = c->tensors[n->outputs->data[0]];
    int64_t v = verif_internal::last().invokes;
    memcpy(b.data.raw, &v, 8);
    return kTfLiteOk;
  }
  static TfLiteStatus FailOp(TfLiteContext*, TfLiteNode*) { return kTfLiteError; }
  const FlatBufferModel& model_;
  const OpResolver& resolver_;
  int threads_ = -1;
};
}  // namespace tflite
#endif

// Runs tfl.custom operators of the binary kind with the run-time kernels, for the interpreter.
#ifndef VERIF_MLIR_KERN_H_
#define VERIF_MLIR_KERN_H_
#include "passes.h"
#include "../kernels/conv.h"
#include "tensorflow/lite/mutable_op_resolver.h"
#include "larq_compute_engine/tflite/kernels/lce_ops_register.h"
namespace hs {
inline TfLiteType lite(vm::DT d) {
  switch (d) {
    case vm::F32: return kTfLiteFloat32;
    case vm::I32: return kTfLiteInt32;
    case vm::I64: return kTfLiteInt64;
    case vm::QI8: case vm::I8: return kTfLiteInt8;
    case vm::QU8: return kTfLiteUInt8;
    case vm::QI16: return kTfLiteInt16;
    case vm::I1: return kTfLiteBool;
    case vm::F16: return kTfLiteFloat16;
    case vm::F64: return kTfLiteFloat64;
    default: throw vm::Fail("an element type the run time does not have");
  }
}
inline void store(verif::MiniInterp& m, int i, const vm::T& t) {
  for (size_t k = 0; k < t.v.size(); ++k) switch (m.T(i).type) {
    case kTfLiteFloat32: m.Data<float>(i)[k] = (float)t.v[k]; break;
    case kTfLiteInt32: m.Data<int32_t>(i)[k] = (int32_t)t.v[k]; break;
    case kTfLiteInt8: m.Data<int8_t>(i)[k] = (int8_t)t.v[k]; break;
    case kTfLiteBool: m.Data<uint8_t>(i)[k] = t.v[k] != 0; break;
    default: throw vm::Fail("an element type the kernels do not read");
  }
}
// kernels: 0 default, 1 reference, 2 indirect.
struct Kernels {
  int flavour = 0, threads = 1;
  uint64_t seed = 1;
  long executed = 0;
  std::string failed;  // why the operator could not be run
  static const TfLiteRegistration* find(int flavour, const std::string& code) {
    static tflite::MutableOpResolver res[3];
    static bool once = [] {
      for (int k = 0; k < 3; ++k) compute_engine::tflite::RegisterLCECustomOps(&res[k], k == 1, k == 2);
      return true;
    }();
    (void)once;
    return res[flavour].FindOp(code.c_str(), 1);
  }
  vm::T execute(const std::string& code, const std::vector<uint8_t>& options, const std::vector<vm::T>& in, const std::vector<bool>& constant, mlir::Type type) {
    auto reg = find(flavour, code);
    if (!reg) throw vm::Fail("the run time has no operator " + code);
    verif::MiniInterp m(++seed, threads);
    std::vector<int> ix;
    auto dims = [](const vm::T& t) { std::vector<int> d; for (auto x : t.shape) d.push_back((int)x); return d; };
    for (size_t k = 0; k < in.size(); ++k) {
      if (in[k].dt == vm::NONE) { ix.push_back(-1); continue; }
      int t = m.AddTensor(lite(in[k].dt), dims(in[k]), constant[k] ? kTfLiteMmapRo : kTfLiteArenaRw);
      if (in[k].dt == vm::QI8) m.Quantize(t, (float)in[k].scale, (int)in[k].zp);
      if (constant[k]) store(m, t, in[k]);
      ix.push_back(t);
    }
    vm::T out = vm::blank(type, 1);
    int o = m.AddTensor(lite(out.dt), dims(out));
    if (out.dt == vm::QI8) m.Quantize(o, (float)out.scale, (int)out.zp);
    m.AddNode(reg, options, ix, {o});
    if (m.Allocate() != kTfLiteOk) throw vm::Fail("the run time rejects " + code + ": " + m.last_error);
    for (size_t k = 0; k < in.size(); ++k)
      if (ix[k] >= 0 && !constant[k]) store(m, ix[k], in[k]);
    if (m.Invoke() != kTfLiteOk) throw vm::Fail("running " + code + " fails: " + m.last_error);
    if (!m.mem_fault.empty()) throw vm::Fail(code + ": " + m.mem_fault);
    ++executed;
    out.shape.clear();
    for (int d : m.Dims(o)) out.shape.push_back(d);
    out.v.resize(out.n());
    for (size_t k = 0; k < out.v.size(); ++k) switch (m.T(o).type) {
      case kTfLiteFloat32: out.v[k] = m.Data<float>(o)[k]; break;
      case kTfLiteInt32: out.v[k] = m.Data<int32_t>(o)[k]; break;
      case kTfLiteInt8: out.v[k] = m.Data<int8_t>(o)[k]; break;
      case kTfLiteBool: out.v[k] = m.Data<uint8_t>(o)[k]; break;
      default: throw vm::Fail("an element type the kernels do not write");
    }
    return out;
  }
  static std::vector<uint8_t> options(mlir::Operation* op) {
    auto a = op->getAttrOfType<mlir::TFL::ConstBytesAttr>("custom_option");
    if (!a) throw vm::Fail("a custom operator without options");
    auto s = a.getValue();
    return std::vector<uint8_t>(s.begin(), s.end());
  }
  // A hook for the interpreter.
  std::function<bool(mlir::Operation*, vm::VM&)> hook() {
    return [this](mlir::Operation* op, vm::VM& x) {
      if (op->getName().getStringRef() != "tfl.custom" || op->getNumResults() != 1) return false;
      std::vector<vm::T> in;
      std::vector<bool> constant;
      for (auto v : op->getOperands()) {
        in.push_back(x.get(v));
        auto d = v.getDefiningOp();
        constant.push_back(d && d->hasTrait<mlir::OpTrait::ConstantLike>());
      }
      x.set(op->getResult(0), execute(op->getAttrOfType<mlir::StringAttr>("custom_code").getValue().str(), options(op), in, constant, op->getResult(0).getType()));
      return true;
    };
  }
};
}  // namespace hs
#endif

// Stand-ins for TensorFlow's own passes around the passes under test. Each does the documented
// part that matters to them - freezing variables, folding constants, inferring shapes, lowering to
// the TensorFlow Lite dialect, fusing, and placing quantization - and nothing else.
#include "tfsim.h"
#include <mutex>
#include <unordered_set>
#include "mlir/IR/Matchers.h"
#include "mlir/Interfaces/FoldInterfaces.h"
#include "mlir/AsmParser/AsmParser.h"
#include "mlir/Transforms/Passes.h"
#include "tensorflow/compiler/mlir/tensorflow/ir/tf_executor.h"
#include "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.h"
#include "vm.h"

MLIR_DEFINE_EXPLICIT_TYPE_ID(::mlir::tf_executor::TensorFlowExecutorDialect)
#define GET_OP_CLASSES
#include "verif_generated/tf_executor.cc.inc"
namespace mlir {
namespace tf_executor {
TensorFlowExecutorDialect::TensorFlowExecutorDialect(MLIRContext* c) : Dialect(getDialectNamespace(), c, TypeID::get<TensorFlowExecutorDialect>()) {
  addOperations<
#define GET_OP_LIST
#include "verif_generated/tf_executor.cc.inc"
      >();
}
TensorFlowExecutorDialect::~TensorFlowExecutorDialect() = default;
}  // namespace tf_executor
}  // namespace mlir

namespace sim {
using namespace mlir;
State& state() { static State s; return s; }

bool fakeQuant(Operation* op, vm::VM& x) {
  if (op->getName().getStringRef() != "tf.FakeQuantWithMinMaxVars") return false;
  double lo = x.get(op->getOperand(1)).v.at(0), hi = x.get(op->getOperand(2)).v.at(0), s = (hi - lo) / 255;
  int64_t zp = -128 - (int64_t)std::round(lo / s);
  vm::T r = x.get(op->getOperand(0));
  for (auto& v : r.v) v = (float)(s * (vm::quantized(vm::QI8, v, s, zp) - zp));
  x.set(op->getResult(0), r);
  return true;
}
bool variables(Operation* op, vm::VM& x, const std::map<std::string, std::string>& session) {
  auto n = op->getName().getStringRef();
  if (n == "tf.VarHandleOp") return x.set(op->getResult(0), vm::blank(op->getResult(0).getType())), true;
  if (n != "tf.ReadVariableOp") return false;
  Attribute value;
  if (auto d = op->getOperand(0).getDefiningOp()) {
    auto i = session.find(d->getAttrOfType<StringAttr>("shared_name").getValue().str());
    if (i == session.end()) throw vm::Fail("a variable without a value");
    value = parseAttribute(i->second, op->getContext());
  } else {
    auto arg = cast<BlockArgument>(op->getOperand(0));
    auto f = op->getParentOfType<func::FuncOp>();
    auto sym = f.getArgAttrOfType<FlatSymbolRefAttr>(arg.getArgNumber(), "tf_saved_model.bound_input");
    for (auto& g : f->getParentOfType<ModuleOp>().getBody()->getOperations())
      if (g.getName().getStringRef() == "tf_saved_model.global_tensor" && sym && g.getAttrOfType<StringAttr>("sym_name").getValue() == sym.getValue()) value = g.getAttr("value");
    if (!value) throw vm::Fail("a variable without a value");
  }
  x.set(op->getResult(0), vm::fromAttr(value, op->getResult(0).getType()));
  return true;
}

// Function passes run in parallel.
static std::mutex& mutex() { static std::mutex m; return m; }
template <class Op> struct Pass : PassWrapper<Pass<Op>, OperationPass<Op>> {
  std::string name;
  std::function<void(Op)> f;
  Pass(std::string n, std::function<void(Op)> f) : name(std::move(n)), f(std::move(f)) {}
  Pass(const Pass& o) : PassWrapper<Pass<Op>, OperationPass<Op>>(o), name(o.name), f(o.f) {}
  void getDependentDialects(DialectRegistry& r) const override { r.insert<TFL::TensorFlowLiteDialect, TF::TensorFlowDialect, arith::ArithDialect, quant::QuantizationDialect>(); }
  void runOnOperation() override {
    if (state().fail_pass == name) {
      if (!state().silent) this->getOperation()->emitError("pass " + name + " fails");
      return this->signalPassFailure();
    }
    {
      std::lock_guard<std::mutex> lock(mutex());
      state().ran.push_back(name);
    }
    if (f) f(this->getOperation());
  }
  MLIR_DEFINE_EXPLICIT_INTERNAL_INLINE_TYPE_ID(Pass)
};
static auto fnPass(std::string n, std::function<void(func::FuncOp)> f = nullptr) { return std::make_unique<Pass<func::FuncOp>>(n, f); }
static auto modPass(std::string n, std::function<void(ModuleOp)> f = nullptr) { return std::make_unique<Pass<ModuleOp>>(n, f); }
static std::vector<Operation*> all(func::FuncOp f) {
  std::vector<Operation*> v;
  if (!f.isExternal()) f.walk([&](Operation* o) { if (o != f.getOperation()) v.push_back(o); });
  return v;
}
static bool is(Operation* o, StringRef n) { return o && o->getName().getStringRef() == n; }
static DenseElementsAttr constant(Value v) {
  auto d = v.getDefiningOp();
  if (!is(d, "tf.Const") && !is(d, "arith.constant")) return {};
  return dyn_cast<DenseElementsAttr>(d->getAttr("value"));
}
static Value make(OpBuilder& b, Location l, StringRef name, ValueRange in, Type t, ArrayRef<NamedAttribute> attrs = {}) {
  OperationState s(l, name);
  s.addOperands(in);
  s.addTypes(t);
  s.addAttributes(attrs);
  return b.create(s)->getResult(0);
}
static Value constantOf(OpBuilder& b, Location l, TypedAttr a, bool tf) {
  return make(b, l, tf ? "tf.Const" : "arith.constant", {}, a.getType(), {b.getNamedAttr("value", a)});
}
static Attribute dense(const vm::T& t, Type type) {
  auto r = dyn_cast<RankedTensorType>(type);
  if (!r) return {};
  std::vector<int64_t> shape(t.shape.begin(), t.shape.end());
  r = RankedTensorType::get(shape, r.getElementType());
  if (r.getElementType().isF32()) {
    std::vector<float> v(t.v.begin(), t.v.end());
    return DenseElementsAttr::get(r, ArrayRef<float>(v));
  }
  if (r.getElementType().isInteger(32)) {
    std::vector<int32_t> v(t.v.begin(), t.v.end());
    return DenseElementsAttr::get(r, ArrayRef<int32_t>(v));
  }
  if (r.getElementType().isInteger(64)) {
    std::vector<int64_t> v(t.v.begin(), t.v.end());
    return DenseElementsAttr::get(r, ArrayRef<int64_t>(v));
  }
  return {};
}

// Constant folding of TensorFlow's operators, as its dialect offers it to every driver.
struct Fold : DialectFoldInterface {
  using DialectFoldInterface::DialectFoldInterface;
  LogicalResult fold(Operation* op, ArrayRef<Attribute> operands, SmallVectorImpl<OpFoldResult>& results) const override {
    if (op->getNumResults() != 1 || op->getNumOperands() == 0 || op->getName().getStringRef() == "tf.ReadVariableOp") return failure();
    if (op->hasAttr("_raised")) return failure();
    vm::VM m;
    m.extra = fakeQuant;
    try {
      for (unsigned i = 0; i < operands.size(); ++i) {
        if (!operands[i] || !isa<DenseElementsAttr>(operands[i])) return failure();
        m.set(op->getOperand(i), vm::fromAttr(operands[i], op->getOperand(i).getType()));
      }
      m.exec(op);
    } catch (vm::Fail&) {
      return failure();
    }
    auto a = dense(m.get(op->getResult(0)), op->getResult(0).getType());
    if (!a || cast<TypedAttr>(a).getType() != op->getResult(0).getType()) return failure();
    results.push_back(a);
    ++state().folded;
    return success();
  }
};
void registerDialects(DialectRegistry& r) {
  r.insert<func::FuncDialect, arith::ArithDialect, quant::QuantizationDialect, TFL::TensorFlowLiteDialect, TF::TensorFlowDialect, tf_executor::TensorFlowExecutorDialect>();
  r.addExtension(+[](MLIRContext*, TF::TensorFlowDialect* d) { d->addInterfaces<Fold>(); });
}

// Results take the shapes that the operators compute from the operands' shapes.
static void inferShapes(func::FuncOp f) {
  if (f.isExternal()) return;
  auto& b = f.getBody().front();
  vm::VM m;
  m.extra = [](Operation* o, vm::VM& x) { return fakeQuant(o, x); };
  for (auto a : b.getArguments()) {
    auto s = dyn_cast<RankedTensorType>(a.getType());
    if (s && s.hasStaticShape()) m.env[a.getAsOpaquePointer()] = vm::blank(s);
  }
  auto known = [&](Value v) { return m.env.count(v.getAsOpaquePointer()) > 0; };
  for (auto& op : b) {
    if (llvm::all_of(op.getOperands(), known) && op.getNumResults()) {
      for (auto r : op.getResults())  // the declared shape may still hold the old batch
        if (auto t = dyn_cast<RankedTensorType>(r.getType()); t && !t.hasStaticShape() && t.getRank() > 0) {
          std::vector<int64_t> s(t.getRank(), ShapedType::kDynamic);
          r.setType(RankedTensorType::get(s, t.getElementType()));
        }
      try {
        m.exec(&op);
      } catch (vm::Fail&) {
        continue;
      }
      for (auto r : op.getResults())
        if (auto t = dyn_cast<RankedTensorType>(r.getType()); t && known(r)) r.setType(RankedTensorType::get(m.get(r).shape, t.getElementType()));
    }
  }
  auto ret = b.getTerminator();
  f.setType(FunctionType::get(f.getContext(), b.getArgumentTypes(), ret->getOperandTypes()));
}

static Type scalarQuant(Builder& b, double lo, double hi) {
  double s = (hi - lo) / 255;
  return quant::UniformQuantizedType::get(quant::QuantizationFlags::Signed, b.getIntegerType(8), b.getF32Type(), s, -128 - (int64_t)std::round(lo / s), -128, 127);
}
static Value wrapQuant(OpBuilder& b, Location l, Value v, Type q) {
  auto t = cast<RankedTensorType>(v.getType());
  auto qt = RankedTensorType::get(t.getShape(), q);
  Value x = make(b, l, "tfl.quantize", {v}, qt, {b.getNamedAttr("qtype", TypeAttr::get(qt))});
  return make(b, l, "tfl.dequantize", {x}, t);
}
// Puts a quantize and dequantize behind the value, for every other use.
static void quantizeUses(OpBuilder& b, Value v, Type q) {
  b.setInsertionPointAfterValue(v);
  std::vector<OpOperand*> uses;
  for (auto& u : v.getUses()) uses.push_back(&u);
  Value w = wrapQuant(b, v.getLoc(), v, q);
  for (auto* u : uses) u->set(w);
}
static bool sameScale(Operation* o) { return is(o, "tfl.max_pool_2d") || is(o, "tfl.reshape") || is(o, "tfl.pad"); }
static void sweep(func::FuncOp f) {  // dead code
  for (bool more = true; more;) {
    more = false;
    auto v = all(f);
    for (auto i = v.rbegin(); i != v.rend(); ++i)
      if ((*i)->use_empty() && isMemoryEffectFree(*i) && !(*i)->hasTrait<OpTrait::IsTerminator>()) (*i)->erase(), more = true;
  }
}
static Type element(Value v) { return getElementTypeOrSelf(v.getType()); }

static void prepareTF(func::FuncOp f) {
  OpBuilder b(f.getContext());
  for (auto* o : all(f)) {
    b.setInsertionPoint(o);
    auto l = o->getLoc();
    if (is(o, "tf.FakeQuantWithMinMaxVars")) {
      auto lo = constant(o->getOperand(1)), hi = constant(o->getOperand(2));
      if (!lo || !hi) continue;
      Value w = wrapQuant(b, l, o->getOperand(0), scalarQuant(b, lo.getValues<float>()[0], hi.getValues<float>()[0]));
      o->getResult(0).replaceAllUsesWith(w);
      o->erase();
    } else if (is(o, "tf.Conv2D")) {
      vm::VM m;
      auto st = vm::VM::la(o, "strides"), di = vm::VM::la(o, "dilations", {1, 1, 1, 1});
      auto filter = constant(o->getOperand(1));
      if (vm::VM::sa(o, "data_format", "NHWC") != "NHWC" || !cast<ShapedType>(o->getOperand(1).getType()).hasStaticShape()) continue;
      Value in = o->getOperand(0);
      auto padding = vm::VM::sa(o, "padding").str();
      if (padding == "EXPLICIT") {
        auto e = vm::VM::la(o, "explicit_paddings");
        auto t = dyn_cast<RankedTensorType>(in.getType());
        if (e.size() != 8 || !t || !t.hasStaticShape()) continue;
        std::vector<int32_t> v(e.begin(), e.end());
        std::vector<int64_t> s;
        for (int d = 0; d < 4; ++d) s.push_back(t.getDimSize(d) + e[2 * d] + e[2 * d + 1]);
        Value p = constantOf(b, l, DenseElementsAttr::get(RankedTensorType::get({4, 2}, b.getI32Type()), ArrayRef<int32_t>(v)), true);
        in = make(b, l, "tf.Pad", {in, p}, RankedTensorType::get(s, t.getElementType()));
        padding = "VALID";
      }
      std::vector<int32_t> perm = {3, 0, 1, 2};
      auto ft = cast<RankedTensorType>(o->getOperand(1).getType());
      Value p = constantOf(b, l, DenseElementsAttr::get(RankedTensorType::get({4}, b.getI32Type()), ArrayRef<int32_t>(perm)), true);
      Value w = make(b, l, "tf.Transpose", {o->getOperand(1), p},
                     RankedTensorType::get({ft.getDimSize(3), ft.getDimSize(0), ft.getDimSize(1), ft.getDimSize(2)}, ft.getElementType()));
      std::vector<float> zero(ft.getDimSize(3), 0);
      Value bias = constantOf(b, l, DenseElementsAttr::get(RankedTensorType::get({ft.getDimSize(3)}, b.getF32Type()), ArrayRef<float>(zero)), true);
      auto i = [&](const char* n, int64_t v) { return b.getNamedAttr(n, b.getI32IntegerAttr(v)); };
      Value c = make(b, l, "tfl.conv_2d", {in, w, bias}, o->getResult(0).getType(),
                     {i("dilation_h_factor", di[1]), i("dilation_w_factor", di[2]), b.getNamedAttr("fused_activation_function", b.getStringAttr("NONE")),
                      b.getNamedAttr("padding", b.getStringAttr(padding)), i("stride_h", st[1]), i("stride_w", st[2])});
      o->getResult(0).replaceAllUsesWith(c);
      o->erase();
    }
  }
}

static void legalizeTF(func::FuncOp f) {
  OpBuilder b(f.getContext());
  static const std::map<std::string, std::string> names = {
      {"tf.Const", "arith.constant"}, {"tf.AddV2", "tfl.add"}, {"tf.BiasAdd", "tfl.add"}, {"tf.Sub", "tfl.sub"}, {"tf.Mul", "tfl.mul"}, {"tf.Div", "tfl.div"},
      {"tf.Relu", "tfl.relu"}, {"tf.Relu6", "tfl.relu6"}, {"tf.Pad", "tfl.pad"}, {"tf.PadV2", "tfl.padv2"}, {"tf.Reshape", "tfl.reshape"},
      {"tf.GreaterEqual", "tfl.greater_equal"}, {"tf.LessEqual", "tfl.less_equal"}, {"tf.Greater", "tfl.greater"}, {"tf.Less", "tfl.less"},
      {"tf.Select", "tfl.select_v2"}, {"tf.SelectV2", "tfl.select_v2"}, {"tf.MaxPool", "tfl.max_pool_2d"}, {"tf.LogicalNot", "tfl.logical_not"},
      {"tf.BroadcastTo", "tfl.broadcast_to"}, {"tf.Transpose", "tfl.transpose"}, {"tf.Sign", "tfl.sign"}, {"tf.Shape", "tfl.shape"}};
  for (auto* o : all(f)) {
    auto n = names.find(o->getName().getStringRef().str());
    if (o->getName().getStringRef() == "tf.Identity") {
      if (o->getOperand(0).getType() == o->getResult(0).getType()) o->getResult(0).replaceAllUsesWith(o->getOperand(0)), o->erase();
      continue;
    }
    if (n == names.end()) continue;
    b.setInsertionPoint(o);
    std::vector<NamedAttribute> attrs;
    if (n->second == "tfl.add" || n->second == "tfl.sub" || n->second == "tfl.mul" || n->second == "tfl.div")
      attrs.push_back(b.getNamedAttr("fused_activation_function", b.getStringAttr("NONE")));
    if (n->second == "arith.constant") attrs.push_back(b.getNamedAttr("value", o->getAttr("value")));
    if (n->second == "tfl.max_pool_2d") {
      auto k = vm::VM::la(o, "ksize"), s = vm::VM::la(o, "strides");
      auto i = [&](const char* m, int64_t v) { attrs.push_back(b.getNamedAttr(m, b.getI32IntegerAttr(v))); };
      i("filter_height", k[1]), i("filter_width", k[2]), i("stride_h", s[1]), i("stride_w", s[2]);
      attrs.push_back(b.getNamedAttr("padding", o->getAttr("padding")));
      attrs.push_back(b.getNamedAttr("fused_activation_function", b.getStringAttr("NONE")));
    }
    Value v = make(b, o->getLoc(), n->second, o->getOperands(), o->getResult(0).getType(), attrs);
    o->getResult(0).replaceAllUsesWith(v);
    o->erase();
  }
}

static void optimize(func::FuncOp f) {
  OpBuilder b(f.getContext());
  for (bool more = true; more;) {
    more = false;
    for (auto* o : all(f)) {
      auto n = o->getName().getStringRef();
      auto d = o->getNumOperands() ? o->getOperand(0).getDefiningOp() : nullptr;
      if (!d || !d->hasOneUse()) continue;
      auto act = d->getAttrOfType<StringAttr>("fused_activation_function");
      bool none = act && act.getValue() == "NONE" && d->getName().getStringRef().starts_with("tfl.");
      if ((n == "tfl.relu" || n == "tfl.relu6" || n == "tfl.relu_n1_to_1") && none) {
        d->setAttr("fused_activation_function", b.getStringAttr(n == "tfl.relu" ? "RELU" : n == "tfl.relu6" ? "RELU6" : "RELU_N1_TO_1"));
        o->getResult(0).replaceAllUsesWith(o->getOperand(0));
        o->erase();
        more = true;
        break;
      }
      if (n == "tfl.add" && none && is(d, "tfl.conv_2d") && vm::VM::sa(o, "fused_activation_function") == "NONE") {
        auto c = constant(o->getOperand(1)), bias = constant(d->getOperand(2));
        auto t = cast<RankedTensorType>(d->getResult(0).getType());
        if (!c || !bias || !c.getElementType().isF32() || o->getResult(0).getType() != t) continue;
        auto s = c.getType();
        if (s.getRank() != 1 || s.getDimSize(0) != t.getDimSize(3)) continue;
        std::vector<float> sum;
        for (int64_t k = 0; k < s.getDimSize(0); ++k) sum.push_back(bias.getValues<float>()[k] + c.getValues<float>()[k]);
        b.setInsertionPoint(d);
        d->setOperand(2, constantOf(b, d->getLoc(), DenseElementsAttr::get(RankedTensorType::get({s.getDimSize(0)}, b.getF32Type()), ArrayRef<float>(sum)), false));
        o->getResult(0).replaceAllUsesWith(o->getOperand(0));
        o->erase();
        more = true;
        break;
      }
    }
  }
  sweep(f);
}

static void prepareQuantize(func::FuncOp f) {
  OpBuilder b(f.getContext());
  for (auto* o : all(f)) {
    if (sameScale(o) && is(o->getOperand(0).getDefiningOp(), "tfl.dequantize")) {
      auto q = element(o->getOperand(0).getDefiningOp()->getOperand(0));
      bool has = llvm::any_of(o->getResult(0).getUsers(), [](Operation* u) { return is(u, "tfl.quantize"); });
      if (!has && isa<quant::UniformQuantizedType>(q) && element(o->getResult(0)).isF32()) quantizeUses(b, o->getResult(0), q);
    }
    // float constants get parameters from their values
    if (o->getName().getStringRef() == "lq.Bconv2d" && state().wrap_parameters)
      for (unsigned k = 2; k < 4; ++k)
        if (auto c = constant(o->getOperand(k)); c && c.getElementType().isF32()) {
          double m = 1e-3;
          for (float v : c.getValues<float>()) m = std::max<double>(m, std::fabs(v));
          b.setInsertionPoint(o);
          o->setOperand(k, wrapQuant(b, o->getLoc(), o->getOperand(k), scalarQuant(b, -m * 128 / 127, m)));
        }
  }
}
static void defaultQuant(func::FuncOp f, double lo, double hi) {
  OpBuilder b(f.getContext());
  std::vector<Value> v;
  for (auto a : f.getBody().front().getArguments()) v.push_back(a);
  for (auto* o : all(f))
    if (!is(o, "tfl.quantize") && !is(o, "tfl.dequantize") && !o->hasTrait<OpTrait::ConstantLike>() && o->getName().getStringRef() != "lq.Dequantize")
      for (auto r : o->getResults()) v.push_back(r);
  for (auto x : v) {
    auto t = dyn_cast<RankedTensorType>(x.getType());
    if (!t || !t.getElementType().isF32() || x.use_empty()) continue;
    if (llvm::any_of(x.getUsers(), [](Operation* u) { return is(u, "tfl.quantize"); })) continue;
    quantizeUses(b, x, scalarQuant(b, lo, hi));
  }
}
static void quantizePass(func::FuncOp f) {
  OpBuilder b(f.getContext());
  for (auto* o : all(f)) {
    if (sameScale(o) && is(o->getOperand(0).getDefiningOp(), "tfl.dequantize") && o->getResult(0).hasOneUse() && is(*o->getResult(0).user_begin(), "tfl.quantize")) {
      auto* q = *o->getResult(0).user_begin();
      Value in = o->getOperand(0).getDefiningOp()->getOperand(0);
      if (element(in) != element(q->getResult(0))) continue;
      auto act = o->getAttrOfType<StringAttr>("fused_activation_function");
      if (act && act.getValue() != "NONE") continue;
      o->setOperand(0, in);
      o->getResult(0).setType(q->getResult(0).getType());
      q->getResult(0).replaceAllUsesWith(o->getResult(0));
    }
  }
  for (auto* o : all(f))  // pairs over constants
    if (is(o, "tfl.dequantize"))
      if (auto* q = o->getOperand(0).getDefiningOp(); is(q, "tfl.quantize") && constant(q->getOperand(0))) o->getResult(0).replaceAllUsesWith(q->getOperand(0));
  sweep(f);
}
static void postQuantize(func::FuncOp f, bool emit) {
  for (auto* o : all(f))
    if (is(o, "tfl.quantize"))
      if (auto* d = o->getOperand(0).getDefiningOp(); is(d, "tfl.dequantize") && d->getOperand(0).getType() == o->getResult(0).getType())
        o->getResult(0).replaceAllUsesWith(d->getOperand(0));
  sweep(f);
  if (emit) return;
  auto& b = f.getBody().front();
  for (auto a : b.getArguments())
    if (a.hasOneUse() && is(*a.user_begin(), "tfl.quantize")) {
      auto* q = *a.user_begin();
      a.setType(q->getResult(0).getType());
      q->getResult(0).replaceAllUsesWith(a);
      q->erase();
    }
  auto* r = b.getTerminator();
  for (unsigned i = 0; i < r->getNumOperands(); ++i)
    if (is(r->getOperand(i).getDefiningOp(), "tfl.dequantize")) r->setOperand(i, r->getOperand(i).getDefiningOp()->getOperand(0));
  sweep(f);
  f.setType(FunctionType::get(f.getContext(), b.getArgumentTypes(), r->getOperandTypes()));
}
}  // namespace sim

namespace mlir {
using sim::fnPass;
using sim::modPass;
namespace tf_saved_model {
LogicalResult FreezeVariables(ModuleOp m, tensorflow::Session* session) {
  ++sim::state().freezes;
  sim::state().frozen_with = session;
  if (sim::state().fail_freeze) {
    if (!sim::state().silent) m.emitError("a variable cannot be frozen");
    return failure();
  }
  if (!session) return success();
  OpBuilder b(m.getContext());
  for (auto f : m.getOps<func::FuncOp>())
    for (auto* o : sim::all(f))
      if (sim::is(o, "tf.ReadVariableOp") && sim::is(o->getOperand(0).getDefiningOp(), "tf.VarHandleOp")) {
        auto* h = o->getOperand(0).getDefiningOp();
        for (auto& [n, v] : session->variables)
          if (n == h->getAttrOfType<StringAttr>("shared_name").getValue()) {
            b.setInsertionPoint(o);
            auto a = cast<TypedAttr>(parseAttribute(v, m.getContext()));
            o->getResult(0).replaceAllUsesWith(sim::constantOf(b, o->getLoc(), a, true));
            o->erase();
            if (h->use_empty()) h->erase();
            break;
          }
      }
  return success();
}
// A tensor nobody assigns to is no longer mutable.
std::unique_ptr<OperationPass<ModuleOp>> CreateOptimizeGlobalTensorsPass() {
  return modPass("optimize-global-tensors", [](ModuleOp m) {
    std::set<std::string> written;
    for (auto f : m.getOps<func::FuncOp>())
      for (auto* o : sim::all(f))
        if (sim::is(o, "tf.AssignVariableOp"))
          if (auto a = dyn_cast<BlockArgument>(o->getOperand(0)))
            if (auto s = f.getArgAttrOfType<FlatSymbolRefAttr>(a.getArgNumber(), "tf_saved_model.bound_input")) written.insert(s.getValue().str());
    for (auto& g : m.getBody()->getOperations())
      if (sim::is(&g, "tf_saved_model.global_tensor") && !written.count(g.getAttrOfType<StringAttr>("sym_name").getValue().str())) g.removeAttr("is_mutable");
  });
}
std::unique_ptr<OperationPass<ModuleOp>> CreateFreezeGlobalTensorsPass(bool) {
  return modPass("freeze-global-tensors", [](ModuleOp m) {
    OpBuilder b(m.getContext());
    std::vector<Operation*> gone;
    for (auto& g : m.getBody()->getOperations()) {
      if (!sim::is(&g, "tf_saved_model.global_tensor") || g.hasAttr("is_mutable")) continue;
      gone.push_back(&g);
      for (auto f : m.getOps<func::FuncOp>())
        for (int i = (int)f.getNumArguments() - 1; i >= 0; --i) {
          auto s = f.getArgAttrOfType<FlatSymbolRefAttr>(i, "tf_saved_model.bound_input");
          if (!s || s.getValue() != g.getAttrOfType<StringAttr>("sym_name").getValue()) continue;
          auto a = f.getArgument(i);
          for (auto* u : llvm::to_vector(a.getUsers())) {
            b.setInsertionPoint(u);
            u->getResult(0).replaceAllUsesWith(sim::constantOf(b, u->getLoc(), cast<TypedAttr>(g.getAttr("value")), true));
            u->erase();
          }
          f.eraseArgument(i);
        }
    }
    for (auto* g : gone) g->erase();
  });
}
std::unique_ptr<OperationPass<ModuleOp>> CreateFreezeAssetsPass(std::string dir) {
  return modPass("freeze-assets", [dir](ModuleOp) { sim::state().assets.push_back(dir); });
}
}  // namespace tf_saved_model

namespace odml {
std::vector<std::string> GetAcceptedTFLiteDialects() { return {"tfl"}; }
std::unique_ptr<OperationPass<ModuleOp>> createPrintOpStatsPass(std::vector<std::string>) { return modPass("print-op-stats"); }
}  // namespace odml

namespace TF {
void CreateTFStandardPipeline(OpPassManager& pm, const StandardPipelineOptions&) {
  pm.addPass(modPass("tf-standard-pipeline"));
  pm.addNestedPass<func::FuncOp>(createCanonicalizerPass());
}
void CreateLayoutOptimizationPipeline(OpPassManager& pm, const LayoutOptimizationPipelineOptions& options) {
  std::string want = options.force_data_format;
  pm.addPass(fnPass("layout-optimization", [want](func::FuncOp f) {
    OpBuilder b(f.getContext());
    if (want != "NHWC") return;
    for (auto* o : sim::all(f)) {
      if (!sim::is(o, "tf.Conv2D") || vm::VM::sa(o, "data_format", "NHWC") != "NCHW") continue;
      b.setInsertionPoint(o);
      auto move = [&](Value v, std::vector<int32_t> p) {
        auto t = cast<RankedTensorType>(v.getType());
        std::vector<int64_t> s;
        for (int i : p) s.push_back(t.getDimSize(i));
        Value c = sim::constantOf(b, o->getLoc(), DenseElementsAttr::get(RankedTensorType::get({4}, b.getI32Type()), ArrayRef<int32_t>(p)), true);
        return sim::make(b, o->getLoc(), "tf.Transpose", {v, c}, RankedTensorType::get(s, t.getElementType()));
      };
      auto swap = [&](const char* n) {
        auto v = vm::VM::la(o, n);
        if (v.size() == 4) o->setAttr(n, b.getI64ArrayAttr({v[0], v[2], v[3], v[1]}));
        if (v.size() == 8) o->setAttr(n, b.getI64ArrayAttr({v[0], v[1], v[4], v[5], v[6], v[7], v[2], v[3]}));
      };
      swap("strides"), swap("dilations"), swap("explicit_paddings");
      o->setAttr("data_format", b.getStringAttr("NHWC"));
      o->setOperand(0, move(o->getOperand(0), {0, 2, 3, 1}));
      Value r = o->getResult(0);
      auto t = cast<RankedTensorType>(r.getType());
      r.setType(RankedTensorType::get({t.getDimSize(0), t.getDimSize(2), t.getDimSize(3), t.getDimSize(1)}, t.getElementType()));
      b.setInsertionPointAfter(o);
      Value back = move(r, {0, 3, 1, 2});
      r.replaceAllUsesExcept(back, back.getDefiningOp());
    }
  }));
}
std::unique_ptr<OperationPass<func::FuncOp>> CreateDeviceIndexSelectorPass() { return fnPass("device-index-selector"); }
std::unique_ptr<OperationPass<ModuleOp>> CreateTFShapeInferencePass() {
  return modPass("shape-inference", [](ModuleOp m) { for (auto f : m.getOps<func::FuncOp>()) sim::inferShapes(f); });
}
std::unique_ptr<OperationPass<ModuleOp>> CreateTFFunctionalControlFlowToRegions() { return modPass("control-flow-to-regions"); }
std::unique_ptr<OperationPass<ModuleOp>> CreateTFRegionControlFlowToFunctional() { return modPass("control-flow-to-functional"); }
std::unique_ptr<OperationPass<func::FuncOp>> CreateInitTextFileToImportPass(std::string dir) {
  return fnPass("init-text-file", [dir](func::FuncOp) {
    std::lock_guard<std::mutex> lock(sim::mutex());
    sim::state().text_dirs.push_back(dir);
  });
}
}  // namespace TF
namespace TFDevice {
std::unique_ptr<OperationPass<func::FuncOp>> CreateDecomposeResourceOpsPass() { return fnPass("decompose-resource-ops"); }
}

namespace TFL {
std::vector<std::string> AllTfFakeQuantOps() { return {"tf.FakeQuantWithMinMaxVars", "tf.FakeQuantWithMinMaxVarsPerChannel", "tf.FakeQuantWithMinMaxArgs"}; }
std::unique_ptr<OperationPass<func::FuncOp>> CreateRaiseCustomOpsPass(const std::vector<std::string>& ops) {
  return fnPass("raise-custom-ops", [ops](func::FuncOp f) {
    for (auto* o : sim::all(f))
      if (llvm::is_contained(ops, o->getName().getStringRef().str())) o->setAttr("_raised", UnitAttr::get(f.getContext()));
  });
}
std::unique_ptr<OperationPass<ModuleOp>> CreatePrepareCompositeFunctionsPass() { return modPass("prepare-composite"); }
std::unique_ptr<OperationPass<ModuleOp>> CreateLowerStaticTensorListPass() { return modPass("lower-static-tensor-list"); }
std::unique_ptr<OperationPass<ModuleOp>> CreateLegalizeTFWhilePass() { return modPass("legalize-while"); }
std::unique_ptr<OperationPass<func::FuncOp>> CreateReduceWhileOperandsPass() { return fnPass("reduce-while-operands"); }
std::unique_ptr<OperationPass<func::FuncOp>> CreatePrepareTFPass(bool, bool) { return fnPass("prepare-tf", sim::prepareTF); }
std::unique_ptr<OperationPass<func::FuncOp>> CreateLegalizeTFPass(bool) { return fnPass("legalize-tf", sim::legalizeTF); }
std::unique_ptr<OperationPass<ModuleOp>> CreateAnalyzeVariablesPass() { return modPass("analyze-variables"); }
std::unique_ptr<OperationPass<ModuleOp>> CreateLegalizeVariablesPass() { return modPass("legalize-variables"); }
std::unique_ptr<OperationPass<ModuleOp>> CreateLegalizeHashTablesPass() { return modPass("legalize-hash-tables"); }
std::unique_ptr<OperationPass<func::FuncOp>> CreateOptimizePass(bool) { return fnPass("optimize", sim::optimize); }
std::unique_ptr<OperationPass<ModuleOp>> CreateOptimizeFunctionalOpsPass() { return modPass("optimize-functional-ops"); }
std::unique_ptr<OperationPass<func::FuncOp>> CreatePrepareQuantizePass(const quant::QuantizationSpecs& specs) {
  sim::state().specs = specs, sim::state().specs_seen = true;
  return fnPass("prepare-quantize", sim::prepareQuantize);
}
std::unique_ptr<OperationPass<func::FuncOp>> CreateDefaultQuantParamsPass(double lo, double hi, bool is_signed) {
  return fnPass("default-quant-params", [=](func::FuncOp f) {
    {
      std::lock_guard<std::mutex> lock(sim::mutex());
      sim::state().defaults.push_back({lo, hi, is_signed});
    }
    sim::defaultQuant(f, lo, hi);
  });
}
std::unique_ptr<OperationPass<func::FuncOp>> CreateQuantizePass() { return fnPass("quantize", sim::quantizePass); }
std::unique_ptr<OperationPass<func::FuncOp>> CreatePostQuantizePass(bool emit) {
  return fnPass("post-quantize", [emit](func::FuncOp f) { sim::postQuantize(f, emit); });
}
std::unique_ptr<OperationPass<func::FuncOp>> CreatePostQuantizeRemoveQDQPass() { return fnPass("post-quantize-remove-qdq"); }
std::unique_ptr<OperationPass<func::FuncOp>> CreateOptimizeOpOrderPass() { return fnPass("optimize-op-order"); }
std::unique_ptr<OperationPass<func::FuncOp>> CreateSplitMergedOperandsPass() { return fnPass("split-merged-operands"); }
std::unique_ptr<OperationPass<ModuleOp>> CreateInsertCallOnceOpFromSessionInitializerPass() { return modPass("insert-call-once"); }
std::unique_ptr<OperationPass<ModuleOp>> CreateUnfoldLargeSplatConstantPass() { return modPass("unfold-splat"); }
std::unique_ptr<OperationPass<ModuleOp>> CreateWhileOutlinePass() { return modPass("while-outline"); }
std::unique_ptr<OperationPass<func::FuncOp>> CreateRuntimeVerifyPass() { return fnPass("runtime-verify"); }
void AttachErrorCode(InFlightDiagnostic&& d, tflite::metrics::ConverterErrorData::ErrorCode code) { d.attachNote() << "Error code: " << (int)code; }
}  // namespace TFL

StatusScopedDiagnosticHandler::StatusScopedDiagnosticHandler(MLIRContext* c, bool propagate, bool) : context_(c) {
  id_ = c->getDiagEngine().registerHandler([this, propagate](Diagnostic& d) {
    if (d.getSeverity() == DiagnosticSeverity::Error) errors_ += d.str() + "\n";
    return propagate ? failure() : success();
  });
}
StatusScopedDiagnosticHandler::~StatusScopedDiagnosticHandler() { context_->getDiagEngine().eraseHandler(id_); }
absl::Status StatusScopedDiagnosticHandler::ConsumeStatus() {
  absl::Status s = errors_.empty() ? absl::Status() : absl::InternalError(errors_);
  errors_.clear();
  return s;
}
absl::Status StatusScopedDiagnosticHandler::Combine(absl::Status other) {
  auto s = ConsumeStatus();
  if (s.ok()) return other;
  if (other.ok()) return s;
  return absl::InternalError(other.message() + "\n\t" + s.message());
}
}  // namespace mlir

namespace tensorflow {
void InitPassManager(mlir::PassManager&, const converter::DebugOptions&) {}
std::string OpOrArgLocNameMapper::GetUniqueName(OpOrVal v) {
  std::string n = GetName(v), u = n;
  for (int k = 1; !used_.insert(u).second; ++k) u = n + std::to_string(k);
  return u;
}
std::string OpOrArgLocNameMapper::GetName(OpOrVal v) {
  mlir::Location l = v.is<mlir::Operation*>() ? v.get<mlir::Operation*>()->getLoc() : v.get<mlir::Value>().getLoc();
  std::function<std::string(mlir::Location)> of = [&](mlir::Location l) -> std::string {
    if (auto n = mlir::dyn_cast<mlir::NameLoc>(l)) return n.getName().str();
    std::string all;
    if (auto f = mlir::dyn_cast<mlir::FusedLoc>(l))
      for (auto k : f.getLocations())
        if (auto n = of(k); !n.empty()) all += (all.empty() ? "" : ";") + n;
    return all;
  };
  if (auto n = of(l); !n.empty()) return n;
  return v.is<mlir::Operation*>() ? v.get<mlir::Operation*>()->getName().getStringRef().str() : "arg";
}
}  // namespace tensorflow

namespace tflite {
bool MlirToFlatBufferTranslateFunction(mlir::ModuleOp m, const FlatbufferExportOptions& o, std::string* result, bool stablehlo) {
  auto& s = sim::state();
  ++s.exports;
  if (s.keep) s.exported = m.clone();
  s.ops.clear();
  m.walk([&](mlir::Operation* op) {
    auto c = op->getAttrOfType<mlir::StringAttr>("custom_code");
    s.ops.push_back(c ? c.getValue().str() : op->getName().getStringRef().str());
  });
  s.exported_text.clear();
  llvm::raw_string_ostream(s.exported_text) << m;
  s.allow_custom = o.toco_flags.allow_custom_ops();
  s.force_select = o.toco_flags.force_select_tf_ops();
  s.stablehlo = stablehlo;
  s.tags.assign(o.saved_model_tags.begin(), o.saved_model_tags.end());
  s.names.clear(), s.full_names.clear();
  if (o.op_or_arg_name_mapper)
    m.walk([&](mlir::Operation* op) {
      struct Full : tensorflow::OpOrArgLocNameMapper { using OpOrArgLocNameMapper::GetName; } full;
      s.full_names.push_back(full.GetName(op));
      s.names.push_back(o.op_or_arg_name_mapper->GetUniqueName(op));
    });
  if (s.fail_export) {
    if (s.silent) *result = s.flatbuffer.substr(0, s.flatbuffer.size() / 2);
    return false;
  }
  bool custom = false, foreign = false;
  m.walk([&](mlir::Operation* op) {
    auto d = op->getName().getDialectNamespace();
    custom = custom || op->getName().getStringRef() == "tfl.custom";
    foreign = foreign || !(d == "tfl" || d == "arith" || d == "func" || d == "builtin");
  });
  if (foreign || (custom && !s.allow_custom)) {
    m.emitError("neither a custom op nor a flex op");
    return false;
  }
  *result = s.flatbuffer;
  if (s.damage) m->setAttr("damaged", mlir::UnitAttr::get(m.getContext()));  // reports success, but leaves a module that is none
  return true;
}
}  // namespace tflite

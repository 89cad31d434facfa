// Implementation of the stand-in TensorFlow and TensorFlow Lite dialects.
#include "llvm/ADT/APFloat.h"
#include "llvm/ADT/StringExtras.h"
#include "mlir/IR/DialectImplementation.h"
#include "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.h"

MLIR_DEFINE_EXPLICIT_TYPE_ID(::mlir::TFL::TensorFlowLiteDialect)
MLIR_DEFINE_EXPLICIT_TYPE_ID(::mlir::TFL::ConstBytesAttr)
MLIR_DEFINE_EXPLICIT_TYPE_ID(::mlir::TF::TensorFlowDialect)

#define GET_OP_CLASSES
#include "verif_generated/tfl_ops.cc.inc"
#define GET_OP_CLASSES
#include "verif_generated/tf_ops.cc.inc"

namespace mlir {
namespace TFL {
namespace detail {
struct ConstBytesAttrStorage : public AttributeStorage {
  using KeyTy = StringRef;
  explicit ConstBytesAttrStorage(StringRef v) : bytes(v) {}
  bool operator==(const KeyTy& k) const { return k == bytes; }
  static ConstBytesAttrStorage* construct(AttributeStorageAllocator& a, const KeyTy& k) {
    return new (a.allocate<ConstBytesAttrStorage>()) ConstBytesAttrStorage(a.copyInto(k));
  }
  StringRef bytes;
};
}  // namespace detail
ConstBytesAttr ConstBytesAttr::get(MLIRContext* context, StringRef value) { return Base::get(context, value); }
StringRef ConstBytesAttr::getValue() const { return getImpl()->bytes; }

TensorFlowLiteDialect::TensorFlowLiteDialect(MLIRContext* c) : Dialect(getDialectNamespace(), c, TypeID::get<TensorFlowLiteDialect>()) {
  getContext()->loadDialect<arith::ArithDialect>();
  getContext()->loadDialect<quant::QuantizationDialect>();
  initialize();
}
TensorFlowLiteDialect::~TensorFlowLiteDialect() = default;
void TensorFlowLiteDialect::initialize() {
  addOperations<
#define GET_OP_LIST
#include "verif_generated/tfl_ops.cc.inc"
      >();
  addAttributes<ConstBytesAttr>();
}
Operation* TensorFlowLiteDialect::materializeConstant(OpBuilder& builder, Attribute value, Type type, Location loc) {
  if (arith::ConstantOp::isBuildableWith(value, type)) return builder.create<arith::ConstantOp>(loc, type, cast<TypedAttr>(value));
  if (isa<UnitAttr>(value) && isa<NoneType>(type)) return builder.create<NoValueOp>(loc, type, cast<UnitAttr>(value));
  return nullptr;
}
Attribute TensorFlowLiteDialect::parseAttribute(DialectAsmParser& p, Type) const {
  std::string hex;
  if (p.parseKeyword("const_bytes") || p.parseColon() || p.parseString(&hex)) return {};
  std::string bytes;
  StringRef h(hex);
  if (!h.consume_front("0x") || !llvm::tryGetFromHex(h, bytes)) {
    p.emitError(p.getNameLoc(), "bad const_bytes");
    return {};
  }
  return ConstBytesAttr::get(p.getContext(), bytes);
}
void TensorFlowLiteDialect::printAttribute(Attribute a, DialectAsmPrinter& os) const {
  os << "const_bytes : \"0x" << llvm::toHex(cast<ConstBytesAttr>(a).getValue()) << "\"";
}

Type broadcastType(Type a, Type b, Type element) {
  auto x = dyn_cast<RankedTensorType>(a), y = dyn_cast<RankedTensorType>(b);
  if (!x || !y) return UnrankedTensorType::get(element ? element : getElementTypeOrSelf(a));
  SmallVector<int64_t, 4> s;
  if (!OpTrait::util::getBroadcastedShape(x.getShape(), y.getShape(), s)) return nullptr;
  return RankedTensorType::get(s, element ? element : x.getElementType());
}

static void buildBinary(OpBuilder& b, OperationState& s, Value l, Value r, StringAttr act) {
  s.addOperands({l, r});
  s.addAttribute("fused_activation_function", act);
  Type t = broadcastType(l.getType(), r.getType());
  s.addTypes(t ? t : UnrankedTensorType::get(getElementTypeOrSelf(l.getType())));
}
static void buildCompare(OpBuilder& b, OperationState& s, Value l, Value r) {
  s.addOperands({l, r});
  Type t = broadcastType(l.getType(), r.getType(), b.getI1Type());
  s.addTypes(t ? t : UnrankedTensorType::get(b.getI1Type()));
}

template <typename F>
static OpFoldResult foldBinary(ArrayRef<Attribute> ops, Type result, StringRef act, F f) {
  auto a = dyn_cast_or_null<DenseElementsAttr>(ops[0]), b = dyn_cast_or_null<DenseElementsAttr>(ops[1]);
  auto r = dyn_cast<RankedTensorType>(result);
  if (!a || !b || !r || !r.hasStaticShape() || !r.getElementType().isF32() || act != "NONE") return {};
  if (!a.getElementType().isF32() || !b.getElementType().isF32()) return {};
  auto shape = r.getShape();
  if (broadcastType(a.getType(), b.getType()) != r) return {};
  std::vector<float> va(a.getValues<float>().begin(), a.getValues<float>().end()), vb(b.getValues<float>().begin(), b.getValues<float>().end());
  auto at = [&](ShapedType t, const std::vector<float>& v, ArrayRef<int64_t> i) {
    int64_t k = 0;
    size_t off = i.size() - t.getRank();
    for (int64_t d = 0; d < t.getRank(); ++d) k = k * t.getShape()[d] + (t.getShape()[d] == 1 ? 0 : i[off + d]);
    return v[k];
  };
  std::vector<float> out(r.getNumElements());
  SmallVector<int64_t, 4> i(shape.size(), 0);
  for (size_t k = 0; k < out.size(); ++k) {
    size_t q = k;
    for (size_t d = shape.size(); d-- > 0;) i[d] = q % shape[d], q /= shape[d];
    out[k] = f(at(a.getType(), va, i), at(b.getType(), vb, i));
  }
  return DenseElementsAttr::get(r, ArrayRef<float>(out));
}
#define BINARY(OP, EXPR)                                                                                                    \
  void OP::build(OpBuilder& b, OperationState& s, Value l, Value r, StringAttr act) { buildBinary(b, s, l, r, act); }       \
  void OP::build(OpBuilder& b, OperationState& s, Value l, Value r, StringRef act) { buildBinary(b, s, l, r, b.getStringAttr(act)); } \
  OpFoldResult OP::fold(FoldAdaptor a) {                                                                                    \
    return foldBinary(a.getOperands(), getType(), getFusedActivationFunction(), [](float x, float y) -> float { return EXPR; }); \
  }
BINARY(AddOp, x + y)
BINARY(SubOp, x - y)
BINARY(MulOp, x * y)
BINARY(DivOp, x / y)
#define COMPARE(OP) void OP::build(OpBuilder& b, OperationState& s, Value l, Value r) { buildCompare(b, s, l, r); }
COMPARE(GreaterEqualOp)
COMPARE(LessEqualOp)
COMPARE(GreaterOp)
COMPARE(LessOp)

void NoValueOp::build(OpBuilder& b, OperationState& s, UnitAttr value) {
  s.addAttribute("value", value);
  s.addTypes(b.getNoneType());
}
OpFoldResult NoValueOp::fold(FoldAdaptor) { return getValueAttr(); }
}  // namespace TFL

namespace TF {
TensorFlowDialect::TensorFlowDialect(MLIRContext* c) : Dialect(getDialectNamespace(), c, TypeID::get<TensorFlowDialect>()) { initialize(); }
TensorFlowDialect::~TensorFlowDialect() = default;
void TensorFlowDialect::initialize() {
  addOperations<
#define GET_OP_LIST
#include "verif_generated/tf_ops.cc.inc"
      >();
  allowUnknownOperations();
}
Operation* TensorFlowDialect::materializeConstant(OpBuilder& builder, Attribute value, Type type, Location loc) {
  if (auto e = dyn_cast<ElementsAttr>(value)) return builder.create<ConstOp>(loc, type, e);
  return nullptr;
}
void ConstOp::build(OpBuilder& b, OperationState& s, Attribute value) {
  s.addAttribute("value", value);
  s.addTypes(cast<ElementsAttr>(value).getShapedType());
}
OpFoldResult ConstOp::fold(FoldAdaptor) { return getValueAttr(); }
static void buildBroadcast(OpBuilder& b, OperationState& s, Value x, Value y) {
  s.addOperands({x, y});
  Type t = TFL::broadcastType(x.getType(), y.getType());
  s.addTypes(t ? t : UnrankedTensorType::get(getElementTypeOrSelf(x.getType())));
}
#define TFBINARY(OP) void OP::build(OpBuilder& b, OperationState& s, Value x, Value y) { buildBroadcast(b, s, x, y); }
TFBINARY(AddV2Op)
TFBINARY(SubOp)
TFBINARY(MulOp)
TFBINARY(DivOp)
TFBINARY(MaximumOp)
TFBINARY(MinimumOp)
OpFoldResult DivOp::fold(FoldAdaptor a) {  // x / 1
  auto b = dyn_cast_or_null<DenseElementsAttr>(a.getOperands()[1]);
  if (!b || !b.getElementType().isF32() || getX().getType() != getType()) return {};
  for (float v : b.getValues<float>())
    if (v != 1.0f) return {};
  return getX();
}
OpFoldResult BroadcastToOp::fold(FoldAdaptor) {
  auto t = dyn_cast<RankedTensorType>(getType());
  if (t && t.hasStaticShape() && getInput().getType() == t) return getInput();
  return {};
}
void ShapeOp::build(OpBuilder& b, OperationState& s, Value input, BoolAttr use32Bit) {
  s.addOperands(input);
  auto t = dyn_cast<RankedTensorType>(input.getType());
  s.addTypes(RankedTensorType::get({t ? t.getRank() : ShapedType::kDynamic}, use32Bit.getValue() ? b.getI32Type() : b.getI64Type()));
}
OpFoldResult ShapeOp::fold(FoldAdaptor) {
  auto t = dyn_cast<RankedTensorType>(getInput().getType());
  auto r = dyn_cast<RankedTensorType>(getType());
  if (!t || !t.hasStaticShape() || !r || !r.hasStaticShape()) return {};
  SmallVector<Attribute, 4> v;
  for (int64_t d : t.getShape()) v.push_back(IntegerAttr::get(r.getElementType(), d));
  return DenseElementsAttr::get(r, v);
}
void TransposeOp::build(OpBuilder& b, OperationState& s, Value x, Value perm) {
  s.addOperands({x, perm});
  auto t = dyn_cast<RankedTensorType>(x.getType());
  DenseIntElementsAttr p;
  if (t && matchPattern(perm, m_Constant(&p)) && p.getNumElements() == t.getRank()) {
    SmallVector<int64_t, 4> shape;
    for (const APInt& i : p.getValues<APInt>()) shape.push_back(t.getShape()[i.getSExtValue()]);
    s.addTypes(RankedTensorType::get(shape, t.getElementType()));
  } else {
    s.addTypes(UnrankedTensorType::get(getElementTypeOrSelf(x.getType())));
  }
}
}  // namespace TF
}  // namespace mlir

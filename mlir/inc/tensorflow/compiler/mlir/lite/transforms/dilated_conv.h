// Stand-in for TensorFlow Lite's pattern that recognises a dilated convolution written as
// SpaceToBatchND -> Conv2D -> BatchToSpaceND. With pads p and crops c, output o of the chain reads
// inputs from o + c0 - p0 on, so it is the VALID dilated convolution exactly when c == p.
#ifndef VERIF_DILATED_CONV_H_
#define VERIF_DILATED_CONV_H_
#include "mlir/IR/Matchers.h"
#include "mlir/IR/PatternMatch.h"
#include "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.h"
namespace mlir {
namespace TFL {
template <typename Conv2dOpTy>
class ConvertTFDilatedConvOp : public OpRewritePattern<Conv2dOpTy> {
  using OpRewritePattern<Conv2dOpTy>::OpRewritePattern;
  LogicalResult matchAndRewrite(Conv2dOpTy op, PatternRewriter& rewriter) const override {
    if (!op->hasOneUse()) return failure();
    auto stb = llvm::dyn_cast_or_null<TF::SpaceToBatchNDOp>(op->getOperand(0).getDefiningOp());
    auto bts = llvm::dyn_cast<TF::BatchToSpaceNDOp>(*op->getResult(0).getUsers().begin());
    if (!stb || !bts || !stb->hasOneUse()) return failure();
    auto list = [&](Attribute a) {
      llvm::SmallVector<int64_t, 4> v;
      if (auto arr = llvm::dyn_cast_or_null<ArrayAttr>(a))
        for (auto e : arr) v.push_back(llvm::cast<IntegerAttr>(e).getInt());
      return v;
    };
    for (auto name : {"strides", "dilations"})
      for (int64_t s : list(op->getAttr(name)))
        if (s != 1) return failure();
    if (llvm::cast<StringAttr>(op->getAttr("padding")).getValue() != "VALID") return failure();
    DenseIntElementsAttr b1, b2, pads, crops;
    if (!matchPattern(stb.getBlockShape(), m_Constant(&b1)) || !matchPattern(bts.getBlockShape(), m_Constant(&b2)) ||
        !matchPattern(stb.getPaddings(), m_Constant(&pads)) || !matchPattern(bts.getCrops(), m_Constant(&crops)))
      return failure();
    auto vals = [](DenseIntElementsAttr a) {
      llvm::SmallVector<int64_t, 4> v;
      for (const llvm::APInt& x : a.getValues<llvm::APInt>()) v.push_back(x.getSExtValue());
      return v;
    };
    auto vb = vals(b1), vp = vals(pads), vc = vals(crops);
    if (vb.size() != 2 || vb != vals(b2) || vp.size() != 4 || vp != vc) return failure();
    op->setAttr("dilations", rewriter.getI64ArrayAttr({1, vb[0], vb[1], 1}));
    op->setOperand(0, stb.getInput());
    op->getResult(0).setType(bts->getResult(0).getType());
    rewriter.replaceOp(bts, op->getResults());
    return success();
  }
};
}  // namespace TFL
}  // namespace mlir
#endif

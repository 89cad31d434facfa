// C06: pads followed by convolutions, executed before and after the pads are fused.
#include "passes.h"
using namespace hs;

static void Case(Rng& r, Report& rep, uint64_t id) {
  Ctx& ctx = context(id);
  Fn f;
  std::set<std::string> what;
  bool dynN = r.p(10), dynH = r.p(6), dynW = r.p(6);
  int64_t N = dynN ? 2 : r.in(1, 2), H = dynH ? 2 : r.in(1, 9), W = dynW ? 2 : r.in(1, 9), C = r.in(1, 4);
  Shape s = {dynN ? -1 : N, dynH ? -1 : H, dynW ? -1 : W, C};
  auto dyn = [&](Shape q) { if (dynN) q[0] = -1; if (dynH) q[1] = -1; if (dynW) q[2] = -1; return q; };
  std::string x = f.arg(s, "f32"), in = x;
  int64_t FH = r.in(1, 7), FW = r.in(1, 7), sh = r.in(1, 3), sw = r.in(1, 3), dh = r.p(70) ? 1 : r.in(2, 3), dw = r.p(70) ? 1 : r.in(2, 3);
  if (r.p(60)) FW = FH, sw = sh, dw = dh;
  int64_t eh = (FH - 1) * dh + 1, ew = (FW - 1) * dw + 1;
  auto total = [](int64_t n, int64_t e, int64_t t) { return std::max<int64_t>(0, ((n + t - 1) / t - 1) * t + e - n); };
  int64_t th = total(H, eh, sh), tw = total(W, ew, sw);
  Shape is = {N, H, W, C};
  int pads = r.p(92) ? 1 : r.in(0, 2);
  for (int k = 0; k < pads; ++k) {
    std::vector<double> p(8, 0);
    auto amount = [&](int d, int64_t t, int64_t e) {
      switch (r.in(0, 7)) {
        case 0: case 1: case 2: p[2 * d] = t / 2, p[2 * d + 1] = t - t / 2; break;   // what SAME does
        case 3: p[2 * d] = p[2 * d + 1] = (e - 1) / 2; break;                        // symmetric
        case 4: p[2 * d] = (e - 1) / 2, p[2 * d + 1] = (e - 1) - (e - 1) / 2; break;
        case 5: p[2 * d] = t - t / 2, p[2 * d + 1] = t / 2; break;                   // the larger half in front
        case 6: p[2 * d] = r.in(0, 4), p[2 * d + 1] = p[2 * d] + r.in(0, 1); break;
        default: p[2 * d] = r.in(0, 4), p[2 * d + 1] = r.in(0, 4);
      }
    };
    amount(1, th, eh);
    amount(2, tw, ew);
    if (r.p(12)) p[(r.p(50) ? 0 : 6) + r.in(0, 1)] = r.in(1, 2);
    for (int d = 0; d < 4; ++d) is[d] += p[2 * d] + p[2 * d + 1];
    std::string e = r.p(75) ? "i32" : "i64";
    std::string pc = f.cst(p, {4, 2}, e);
    bool v2 = r.p(50);
    if (v2) {
      double v = r.p(60) ? 0 : one<double>(r, {1, -1, 0.5, -0.0, 1e-30});
      in = f.op("tfl.padv2", {in, pc, r.p(93) ? f.cst({v}, r.p(70) ? Shape{} : Shape{1}, "f32") : f.arg({}, "f32")}, "", dyn(is), "f32");
      what.insert(v == 0 ? "padv2_zero" : "padv2_other");
    } else {
      in = f.op("tfl.pad", {in, pc}, "", dyn(is), "f32");
      what.insert("pad");
    }
    if (e == "i64") what.insert("i64");
  }
  if (is[1] > 30 || is[2] > 30) return;
  if (dynN && is[0] != N) what.insert("batch_padded");
  int convs = r.p(88) ? 1 : 2;
  if (convs > 1 || r.p(8)) what.insert("shared");
  bool shared = what.count("shared");
  for (int k = 0; k < convs; ++k) {
    bool depthwise = r.p(45), same = r.p(10);
    if (k) FH = r.in(1, 3), sh = r.in(1, 2), eh = (FH - 1) * dh + 1;
    auto h = vm::window(same, is[1], FH, sh, dh), w = vm::window(same, is[2], FW, sw, dw);
    if (h.out < 1 || w.out < 1) {
      if (k) break;
      return;
    }
    int64_t mult = r.in(1, 2), O = depthwise ? is[3] * mult : r.in(1, 3);
    Shape fs = depthwise ? Shape{1, FH, FW, O} : Shape{O, FH, FW, is[3]};
    std::vector<double> fv(elems(fs)), bv(O);
    for (auto& v : fv) v = r.in(-3, 3);
    for (auto& v : bv) v = r.in(-3, 3);
    std::string fc = r.p(85) ? f.cst(fv, fs, "f32") : f.arg(fs, "f32"), bc = r.p(80) ? f.cst(bv, {O}, "f32") : f.none();
    std::string at = i32a("dilation_h_factor", dh) + ", " + i32a("dilation_w_factor", dw) + ", " +
                     stra("fused_activation_function", r.p(70) ? "NONE" : one<std::string>(r, {"RELU", "RELU6", "RELU_N1_TO_1"})) + ", " +
                     stra("padding", same ? "SAME" : "VALID") + ", " + i32a("stride_h", sh) + ", " + i32a("stride_w", sw) +
                     (depthwise ? ", " + i32a("depth_multiplier", mult) : "");
    f.ret(f.op(depthwise ? "tfl.depthwise_conv_2d" : "tfl.conv_2d", {in, fc, bc}, at, dyn({is[0], h.out, w.out, O}), "f32"));
    what.insert(depthwise ? "depthwise" : "conv");
  }
  if (shared && convs == 1) f.ret(in);
  std::string text = f.text(), w;
  for (auto& k : what) w += k + " ";
  if (dump()) fprintf(stderr, "%s\n", text.c_str());
  Module m = ctx.parse(text);
  if (!m) return rep.Viol("harness", "generated text does not parse: " + ctx.diags + brief(text));
  Module before(m->clone());
  rep.Count("evaluations");
  rep.Sig(text);
  if (!ctx.run(*m, mlir::TFL::CreateFusePaddingPass()))
    return rep.Viol("invalid", "the pass fails or leaves an invalid module: " + ctx.diags + " -- " + w + " -- " + brief(text));
  auto padsIn = [&](mlir::ModuleOp q) { return countOps(q, "tfl.pad") + countOps(q, "tfl.padv2"); };
  bool fused = padsIn(*m) < padsIn(*before);
  for (auto& k : what) rep.Count((fused ? "fused_" : "kept_") + k);
  Compare c;
  c.rel = c.abs = 0;
  c.inputs = 2;
  std::string d = agree(r, fn(*before), fn(*m), rep, c);
  if (!d.empty()) return rep.Viol("value", d + " -- " + w + " -- " + brief(text) + " AFTER " + brief(show(*m)));
  if (fused) {
    rep.Count(sh > 1 || sw > 1 ? "fused_strided" : "fused_unstrided");
    if (dh > 1 || dw > 1) rep.Count("fused_dilated");
    rep.Sample(w);
  }
}
int main(int argc, char** argv) { return drive(argc, argv, Case); }

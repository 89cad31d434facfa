// C13: whole binary networks taken through the conversion pipeline, compared with what they
// computed before, on both targets, with and without quantization information.
#include "kern.h"
#include "larq_compute_engine/mlir/tf_to_tfl_flatbuffer.h"
#include "mlir/Parser/Parser.h"
#include "tfsim.h"
using namespace hs;

static std::unique_ptr<mlir::MLIRContext> gctx;
static std::string gdiags;
static mlir::MLIRContext& fresh(uint64_t id) {
  if (!gctx || id % 32 == 0) {
    static mlir::DialectRegistry reg;
    static bool once = (sim::registerDialects(reg), reg.insert<mlir::lq::LarqDialect>(), true);
    (void)once;
    gctx = std::make_unique<mlir::MLIRContext>(reg, mlir::MLIRContext::Threading::DISABLED);
    gctx->loadAllAvailableDialects();
    gctx->allowUnregisteredDialects();
    gctx->getDiagEngine().registerHandler([](mlir::Diagnostic& d) {
      if (gdiags.size() < 2000) gdiags += d.str() + "; ";
      return mlir::success();
    });
  }
  gdiags.clear();
  return *gctx;
}

struct Net {
  Rng& r;
  Report& rep;
  Fn f;
  bool xcore, quant;
  int binary = 0, dynamic = 0;
  int kernels = 7;  // which of the three kernels can run the net
  std::string globals;  // module level variables
  std::map<std::string, std::string> session;
  std::vector<std::string> argAttrs;
  double lo = -128, hi = 127;  // range of quantized tensors: steps of 1
  Net(Rng& r, Report& rep) : r(r), rep(rep) {}
  Shape shape(const std::string& v) { return f.t[v].shape; }

  // A constant the way exporters leave it: in the graph, behind pass-through operators, as a
  // variable of the saved model, or as a variable whose value the session knows.
  std::string weight(const std::vector<double>& v, const Shape& s) {
    std::string name = "w" + std::to_string(f.n), d = dense(v, s, "f32"), t = tt(s, "f32");
    switch (r.in(0, 9)) {
      case 0: case 1: {
        std::string a = f.arg(s, "f32");
        f.t[a].e = "f32";
        // the argument is a resource; give it a type of its own below
        globals += "\"tf_saved_model.global_tensor\"() {sym_name = \"" + name + "\", is_mutable, value = " + d + "} : () -> ()\n";
        argAttrs.push_back(a + "|" + name);
        rep.Count("weights_global");
        return f.op("tf.ReadVariableOp", {a}, "", s, "f32");
      }
      case 2: {
        session[name] = d;
        std::string h = f.op("tf.VarHandleOp", {}, stra("shared_name", name), {}, "i64");
        rep.Count("weights_session");
        return f.op("tf.ReadVariableOp", {h}, "", s, "f32");
      }
      case 3: {
        rep.Count("weights_arith");
        return f.cst(v, s, "f32");
      }
      default: {
        rep.Count("weights_constant");
        return f.cst(v, s, "f32", true);
      }
    }
  }
  std::string through(std::string v) {
    if (!r.p(12)) return v;
    auto op = one<const char*>(r, {"tf.Identity", "tf.StopGradient", "tf.Snapshot", "tf.PlaceholderWithDefault", "tf.CheckNumerics"});
    rep.Count("passed_through");
    return f.op(op, {v}, op == std::string("tf.CheckNumerics") ? stra("message", "m") : "", shape(v), "f32");
  }
  std::string sc(double x) { return f.cst({x}, {}, "f32", r.p(80)); }
  std::string fake(std::string v) {
    rep.Count("fake_quants");
    return f.op("tf.FakeQuantWithMinMaxVars", {v, f.cst({lo}, {}, "f32", true), f.cst({hi}, {}, "f32", true)}, "num_bits = 8 : i64, narrow_range = false", shape(v), "f32");
  }
  std::string sign(std::string x) {
    Shape s = shape(x);
    if (r.p(35) && s[0] >= 0) {  // tf.where(x >= 0, 1, -1); shapes have to be known
      Shape b = s;
      std::string c;
      if (r.p(70)) c = f.op("tf.GreaterEqual", {x, sc(0)}, "", s, "i1");
      else c = f.op("tf.Less", {x, sc(0)}, "", s, "i1");
      bool less = f.body.rfind("tf.Less\"") > f.body.rfind("tf.GreaterEqual\"") && f.body.rfind("tf.Less\"") != std::string::npos;
      if (f.body.rfind("tf.GreaterEqual\"") == std::string::npos && f.body.rfind("tf.Less\"") != std::string::npos) less = true;
      rep.Count("signs_select");
      return f.op("tf.SelectV2", {c, sc(less ? -1 : 1), sc(less ? 1 : -1)}, "", s, "f32");
    }
    std::string a = through(f.op("tf.Sign", {x}, "", s, "f32"));
    std::string t = sc(one<double>(r, {0.1, 0.5, 0.001}));
    a = r.p(70) ? f.op("tf.AddV2", {a, t}, "", s, "f32") : f.op("tf.AddV2", {t, a}, "", s, "f32");
    rep.Count("signs_tie");
    return f.op("tf.Sign", {a}, "", s, "f32");
  }
  int64_t out(int64_t in, int64_t k, int64_t s, bool same) { return in < 0 ? in : same ? (in + s - 1) / s : (in - k) / s + 1; }

  // A binary convolution; "" when the image is too small.
  std::string bconv(std::string x) {
    Shape s = shape(x);
    int64_t C = s[3], fh = r.in(1, 3), fw = r.in(1, 3), sh = r.p(25) ? 2 : 1, sw = r.p(25) ? 2 : 1, dh = 1, dw = 1;
    if (r.p(15)) dh = 2, dw = 2, sh = sw = 1;
    int64_t eh = (fh - 1) * dh + 1, ew = (fw - 1) * dw + 1;
    bool grouped = C % 32 == 0 && C > 32 && r.p(50);
    int64_t G = grouped ? C / 32 : 1, I = C / G, O = grouped ? G * r.in(1, 8) : one<int64_t>(r, {1, 3, 8, 31, 32, 33, 64});
    int pad = r.in(0, 2);  // valid, zeros, ones
    if (xcore && pad == 1) pad = 0;
    // The run time has zero padding with 8-bit results in the reference kernel only, for even channels.
    if (quant && pad == 1) C % 2 ? (void)(pad = 0) : (void)(kernels &= 2);
    if (pad == 1 && C % 2) kernels &= 5;
    if (pad == 2) sh = sw = 1;
    if (pad == 0 && (s[1] < eh || s[2] < ew)) return "";
    std::string y = sign(x);
    if (r.p(25) && quant) y = fake(y), y = sign(y);
    std::string attrs = arra("strides", {1, sh, sw, 1}) + ", " + arra("dilations", {1, dh, dw, 1}) + ", use_cudnn_on_gpu = true, explicit_paddings = [], ";
    std::vector<double> w((size_t)(fh * fw * I * O));
    std::vector<double> scale(O, 1);
    bool scaled = r.p(30), latent = r.p(40);
    if (scaled)
      for (auto& v : scale) v = one<double>(r, {0.5, 1, 2, 0.25});
    for (size_t k = 0; k < w.size(); ++k) w[k] = latent ? (double)r.in(-8, 8) / 8 : (r.p(50) ? 1 : -1) * scale[k % O];
    std::string k = weight(w, {fh, fw, I, O});
    if (r.p(20)) k = f.op("tf.Identity", {k}, "", {fh, fw, I, O}, "f32"), rep.Count("filters_behind_identity");
    if (latent) {  // the quantizer is still in the graph, and has to be folded
      Shape ks = {fh, fw, I, O};
      k = f.op("tf.Sign", {f.op("tf.AddV2", {f.op("tf.Sign", {k}, "", ks, "f32"), f.cst({0.1}, {}, "f32", true)}, "", ks, "f32")}, "", ks, "f32");
      if (scaled) k = f.op("tf.Mul", {k, f.cst(scale, {O}, "f32", true)}, "", ks, "f32");
      rep.Count("filters_latent");
    }
    ++binary;
    if (grouped) kernels &= 6, rep.Count("grouped");
    if (pad == 2) {
      int64_t th = eh - 1, tw = ew - 1;
      Shape ps = {s[0], s[1] + th, s[2] + tw, C};
      std::string p = f.cst({0, 0, (double)(th / 2), (double)(th - th / 2), 0 + (double)(tw / 2), (double)(tw - tw / 2), 0, 0}, {4, 2}, r.p(70) ? "i32" : "i64", true);
      y = f.op("tf.PadV2", {y, p, sc(1)}, "", ps, "f32");
      rep.Count("padded_ones");
    }
    std::string c = f.op("tf.Conv2D", {y, k}, attrs + stra("data_format", "NHWC") + ", " + stra("padding", pad == 1 ? "SAME" : "VALID"),
                         {s[0], pad == 2 ? s[1] : out(s[1], eh, sh, pad == 1), pad == 2 ? s[2] : out(s[2], ew, sw, pad == 1), O}, "f32");
    rep.Count(pad == 0 ? "padded_valid" : pad == 1 ? "padded_zeros" : "padded_ones");
    return c;
  }
  std::string conv(std::string x) {  // full precision
    Shape s = shape(x);
    int64_t C = s[3], k = r.in(1, 3), st = r.in(1, 2), O = one<int64_t>(r, {1, 4, 32, 64});
    int mode = r.in(0, 2);
    if (mode == 0 && (s[1] < k || s[2] < k)) return "";
    std::vector<double> w((size_t)(k * k * C * O));
    for (auto& v : w) v = r.p(80) ? 0 : r.in(-2, 2);
    w[0] = 2, w[w.size() - 1] = 0;  // certainly not binary
    std::string c = weight(w, {k, k, C, O});
    std::string attrs = arra("strides", {1, st, st, 1}) + ", dilations = [1, 1, 1, 1], use_cudnn_on_gpu = true, ";
    int64_t p = mode == 2 ? k - 1 : 0;
    bool nchw = s[0] >= 0 && mode != 2 && r.p(20);
    std::string e = mode == 2 ? arra("explicit_paddings", {0, 0, p / 2, p - p / 2, p / 2, p - p / 2, 0, 0}) : "explicit_paddings = []";
    rep.Count("full_precision");
    if (nchw) {
      rep.Count("nchw");
      std::string t = f.op("tf.Transpose", {x, f.cst({0, 3, 1, 2}, {4}, "i32", true)}, "", {s[0], C, s[1], s[2]}, "f32");
      attrs = arra("strides", {1, 1, st, st}) + ", dilations = [1, 1, 1, 1], use_cudnn_on_gpu = true, ";
      Shape os = {s[0], O, out(s[1], k, st, mode == 1), out(s[2], k, st, mode == 1)};
      t = f.op("tf.Conv2D", {t, c}, attrs + e + ", " + stra("data_format", "NCHW") + ", " + stra("padding", mode == 1 ? "SAME" : "VALID"), os, "f32");
      return f.op("tf.Transpose", {t, f.cst({0, 2, 3, 1}, {4}, "i32", true)}, "", {os[0], os[2], os[3], os[1]}, "f32");
    }
    return f.op("tf.Conv2D", {x, c}, attrs + e + ", " + stra("data_format", "NHWC") + ", " + stra("padding", mode == 0 ? "VALID" : mode == 1 ? "SAME" : "EXPLICIT"),
                {s[0], out(s[1] + p, k, st, mode == 1), out(s[2] + p, k, st, mode == 1), O}, "f32");
  }
  std::string factor(std::string x, bool add) {
    int64_t C = shape(x)[3];
    std::vector<double> v(C);
    for (auto& q : v) q = add ? (double)r.in(-12, 12) * (quant ? 1 : 0.25) : quant ? one<double>(r, {1, -1}) : one<double>(r, {0.5, -0.5, 1, -1, 2, 0.25});
    Shape s = r.p(70) ? Shape{C} : Shape{1, 1, 1, C};
    return weight(v, s);
  }
  std::string layer(std::string x, std::vector<std::string>& kept) {
    Shape s = shape(x);
    switch (r.in(0, 11)) {
      case 0: case 1: case 2: case 3: return bconv(x);
      case 4: {  // batch normalization
        std::string y = f.op("tf.Mul", {x, factor(x, false)}, "", s, "f32");
        return f.op(r.p(70) ? "tf.AddV2" : "tf.Sub", {through(y), factor(y, true)}, "", s, "f32");
      }
      case 5: return f.op(r.p(50) ? "tf.Relu" : "tf.Relu6", {x}, "", s, "f32");
      case 6: {
        int64_t k = r.in(1, 3), st = r.in(1, 2);
        bool same = r.p(50);
        if (!same && (s[1] < k || s[2] < k)) return "";
        rep.Count("pools");
        return f.op("tf.MaxPool", {x}, arra("ksize", {1, k, k, 1}) + ", " + arra("strides", {1, st, st, 1}) + ", explicit_paddings = [], " +
                                           stra("padding", same ? "SAME" : "VALID") + ", " + stra("data_format", "NHWC"),
                    {s[0], out(s[1], k, st, same), out(s[2], k, st, same), s[3]}, "f32");
      }
      case 7: {
        for (auto& k : kept)
          if (k != x && shape(k) == s && f.t[k].e == "f32" && r.p(70)) { rep.Count("residuals"); return f.op("tf.AddV2", {x, k}, "", s, "f32"); }
        return "";
      }
      case 8: return conv(x);
      case 9: {
        int64_t a = r.in(0, 2), b = r.in(0, 2);
        rep.Count("pads");
        return f.op("tf.Pad", {x, f.cst({0, 0, (double)a, (double)b, (double)b, (double)a, 0, 0}, {4, 2}, "i32", true)}, "", {s[0], s[1] + a + b, s[2] + a + b, s[3]}, "f32");
      }
      case 10: return f.op(r.p(70) ? "tf.AddV2" : "tf.BiasAdd", {x, weight([&] { std::vector<double> v(s[3]); for (auto& q : v) q = r.in(-4, 4); return v; }(), {s[3]})}, "data_format = \"NHWC\"", s, "f32");
      default: return through(x);
    }
  }
};

static void Case(Rng& r, Report& rep, uint64_t id) {
  sim::state() = sim::State();
  auto& c = fresh(id);
  Net n(r, rep);
  n.xcore = r.p(40);
  n.quant = r.p(35);
  bool ranges = n.quant && r.p(35);
  bool dynamic = r.p(35), noexec = false;
  Shape s = {dynamic ? -1 : r.in(1, 2), r.in(3, 7), r.in(3, 7), one<int64_t>(r, {1, 3, 32, 33, 64, 96})};
  std::string x = n.f.arg(s, "f32");
  std::vector<std::string> kept = {x};
  int layers = r.in(1, 8);
  if (n.quant && r.p(60)) x = n.fake(x), kept.push_back(x);
  for (int k = 0; k < layers; ++k) {
    std::string y = n.layer(x, kept);
    if (y.empty()) continue;
    if (elems(n.shape(y)) > 60000 || -elems(n.shape(y)) > 60000) break;
    x = y;
    if (n.quant && r.p(40)) x = n.fake(x);
    kept.push_back(x);
  }
  if (n.quant && r.p(50)) x = n.fake(x);
  n.f.ret(x);
  if (r.p(15)) n.f.ret(r.of(kept));
  if (r.p(10) && n.shape(x)[0] >= 0) n.f.ret(n.f.op("tf.Reshape", {x, n.f.cst({(double)n.shape(x)[0], -1}, {2}, "i32", true)}, "", {n.shape(x)[0], elems(n.shape(x)) / n.shape(x)[0]}, "f32"));
  // Arguments that are variables get a resource's type and their binding.
  std::string text = n.f.text();
  for (auto& a : n.argAttrs) {
    std::string v = a.substr(0, a.find('|')), g = a.substr(a.find('|') + 1), t = Fn::type(n.f.t[v]);
    auto at = text.find(v + ": " + t);
    text.replace(at, v.size() + 2 + t.size(), v + ": !tf_type.resource {tf_saved_model.bound_input = @" + g + "}");
    for (size_t p = 0; (p = text.find("\"tf.ReadVariableOp\"(" + v + ")", p)) != std::string::npos; ++p) {
      auto q = text.find(": (" + t + ")", p);
      text.replace(q, 4 + t.size(), ": (!tf_type.resource)");
    }
  }
  text = "module {\n" + n.globals + text + "}\n";
  rep.Sig(text);
  rep.Count("evaluations");
  auto m = mlir::parseSourceString<mlir::ModuleOp>(text, mlir::ParserConfig(&c));
  if (!m) return rep.Viol("harness", "the generated module does not parse: " + gdiags);
  mlir::OwningOpRef<mlir::ModuleOp> original = m->clone();

  auto& st = sim::state();
  st = sim::State();
  st.wrap_parameters = r.p(50);
  mlir::quant::QuantizationSpecs specs;
  if (n.quant || r.p(50)) {
    specs.inference_type = tensorflow::DT_QINT8;
    if (ranges) specs.default_ranges = {n.lo, n.hi};
  }
  tensorflow::Session session;
  for (auto& v : n.session) session.variables.push_back(v);
  std::string result;
  std::string dir = r.p(50) ? "/model" : "";
  auto status = tensorflow::ConvertTFExecutorToTFLOrFlatbuffer(*m, false, n.xcore ? LCETarget::XCORE : LCETarget::ARM, specs, {"serve"}, dir,
                                                               n.session.empty() && r.p(50) ? std::nullopt : std::optional<tensorflow::Session*>(&session), &result);
  auto show1 = [&](const std::string& t) { return brief(t, 6000); };
  std::string head = std::string(n.xcore ? "xcore" : "arm") + (n.quant ? " quantized" : "") + (ranges ? " with default ranges" : "");
  if (!status.ok()) {
    std::string left = st.exported ? show(*st.exported) : "";
    return rep.Viol("conversion-fails", head + ": " + status.message().substr(0, 400) + " on\n" + show1(text) + "\nwhich became\n" + show1(left));
  }
  if (result != st.flatbuffer) return rep.Viol("result", "the flatbuffer is not what the exporter wrote");
  if (!st.exported) return rep.Viol("result", "nothing was exported");
  rep.Count("conversions");
  rep.Count(n.xcore ? "target_xcore" : "target_arm");
  if (dynamic) rep.Count("dynamic_batch");
  if (n.quant) rep.Count("quantized");
  if (ranges) rep.Count("default_ranges");
  auto mod = *st.exported;
  if (dump()) fprintf(stderr, "%s\n%s\n", text.c_str(), show(mod).c_str());
  auto fail = [&](const char* key, const std::string& what) { rep.Viol(key, head + ": " + what + "\n" + show1(text) + "\nbecame\n" + show1(show(mod))); };

  auto before = fn(*original), after = fn(mod);
  // What is left.
  long convs = 0, pools = 0;
  std::string bad, badKey;
  auto code = [](mlir::Operation* o) -> std::string {
    if (!o || o->getName().getStringRef() != "tfl.custom") return "";
    return o->getAttrOfType<mlir::StringAttr>("custom_code").getValue().str();
  };
  auto name = [](mlir::Operation* o) { return o ? o->getName().getStringRef() : llvm::StringRef(); };
  mod.walk([&](mlir::Operation* o) {
    auto d = o->getName().getDialectNamespace();
    auto say = [&](const char* k, const std::string& t) { if (bad.empty()) badKey = k, bad = t; };
    if (!(d == "tfl" || d == "arith" || d == "func" || d == "builtin")) say("leftover", "operator " + o->getName().getStringRef().str() + " is left");
    std::string k = code(o);
    if (k.empty()) return;
    auto opts = Kernels::options(o);
    auto map = flexbuffers::GetRoot(opts).AsMap();
    if (k == "LceBconv2d") {
      ++convs;
      auto w = o->getOperand(1);
      if (!mlir::getElementTypeOrSelf(w.getType()).isInteger(32) || !w.getDefiningOp() || !w.getDefiningOp()->hasTrait<mlir::OpTrait::ConstantLike>())
        say("weights", "weights are not bitpacked constants");
      bool same = map["padding"].AsInt32() == tflite::Padding_SAME, zero = map["pad_values"].AsInt32() == 0;
      if (n.xcore && same && zero) say("xcore", "zero padding on xcore");
      auto res = o->getResult(0);
      auto e = mlir::getElementTypeOrSelf(res.getType());
      bool packable = !(same && zero);
      if (e.isF32() && res.hasOneUse()) {
        auto* u = *res.user_begin();
        if (code(u) == "LceQuantize" && packable) say("unfused-packing", "a float result that is only bitpacked");
        if (name(u) == "tfl.quantize") say("unfused-int8", "a float result that is only quantized");
        auto act = u->getAttrOfType<mlir::StringAttr>("fused_activation_function");
        if (act && act.getValue() == "NONE" && u->getNumOperands() == 2 && u->getOperand(0) == res && u->getOperand(1).getDefiningOp() &&
            name(u->getOperand(1).getDefiningOp()) == "arith.constant" &&
            mlir::cast<mlir::ShapedType>(u->getOperand(1).getType()).getRank() < 2 && u->getResult(0).getType() == res.getType())
          say("unfused-arithmetic", "arithmetic with a constant behind a binary convolution");
      }
    } else if (k == "LceBMaxPool2d") {
      ++pools;
      if (n.xcore) say("xcore", "a binary pooling on xcore");
    } else if (k == "LceQuantize") {
      auto* p = o->getOperand(0).getDefiningOp();
      if (name(p) == "tfl.dequantize" && p->getResult(0).hasOneUse()) say("unfused-int8", "8-bit values that are dequantized only to be bitpacked");
      if (!n.xcore && name(p) == "tfl.max_pool_2d" && p->getResult(0).hasOneUse() && mlir::getElementTypeOrSelf(p->getResult(0).getType()).isF32() &&
          p->getAttrOfType<mlir::StringAttr>("fused_activation_function").getValue() == "NONE")
        say("unfused-pool", "a float pooling that is only bitpacked");
    } else if (k == "LceDequantize") {
      for (auto* u : o->getResult(0).getUsers())
        if (code(u) == "LceQuantize" && !n.quant) say("unfused-packing", "bits that are unpacked and packed again");
    } else {
      say("leftover", "custom operator " + k);
    }
  });
  rep.Count("binary_convolutions", convs);
  rep.Count("binary_pools", pools);
  if (!bad.empty()) fail(badKey.c_str(), bad);
  // Convolutions that nothing depends on may be gone; all others have to be binary.
  std::set<mlir::Operation*> live;
  std::function<void(mlir::Value)> mark = [&](mlir::Value v) {
    auto* d = v.getDefiningOp();
    if (!d || !live.insert(d).second) return;
    for (auto o : d->getOperands()) mark(o);
  };
  for (auto v : before.getBody().front().getTerminator()->getOperands()) mark(v);
  long expect = 0, all = 0;
  for (auto* o : live)
    if (name(o) == "tf.Conv2D") {
      ++all;
      auto* p = o->getOperand(0).getDefiningOp();
      if (name(p) == "tf.PadV2") p = p->getOperand(0).getDefiningOp();
      if (name(p) == "tf.Sign" || name(p) == "tf.SelectV2") ++expect;
    }
  if (convs != expect) fail("binary-count", std::to_string(expect) + " binary convolutions, of which " + std::to_string(convs) + " are executed as such");
  // Function type: variables are gone, a dynamic batch is 1.
  {
    std::vector<mlir::Type> want;
    for (auto t : before.getFunctionType().getInputs()) {
      auto k = mlir::dyn_cast<mlir::RankedTensorType>(t);
      if (!k) continue;
      Shape q(k.getShape().begin(), k.getShape().end());
      if (mlir::ShapedType::isDynamic(q[0])) q[0] = 1;
      want.push_back(mlir::RankedTensorType::get(q, k.getElementType()));
    }
    if (llvm::ArrayRef<mlir::Type>(want) != after.getFunctionType().getInputs()) return fail("type", "the function's inputs changed");
    for (auto t : after.getFunctionType().getResults())
      if (!mlir::cast<mlir::RankedTensorType>(t).hasStaticShape() || !mlir::getElementTypeOrSelf(t).isF32()) return fail("type", "a result's type changed");
  }
  Kernels kern;
do kern.flavour = r.in(0, 2);
  while (!(n.kernels >> kern.flavour & 1));
  kern.threads = r.in(1, 3);
  for (int k = 0; k < 2; ++k) {
    std::vector<vm::T> in, out, args;
    vm::VM m1, m2;
    bool exact = true;
    for (auto t : before.getFunctionType().getInputs()) {
      if (!mlir::isa<mlir::RankedTensorType>(t)) { args.push_back(vm::T()); continue; }
      vm::T v = vm::blank(t, 1);
      for (auto& q : v.v) q = n.quant ? (double)r.in(-6, 6) : (double)r.in(-8, 8) / (k ? 1 : 4);
      args.push_back(v);
      in.push_back(v);
    }
    m1.extra = [&](mlir::Operation* o, vm::VM& v) { return sim::fakeQuant(o, v) || sim::variables(o, v, n.session); };
    std::vector<vm::T> want, got;
    try {
      want = m1.run(before, args);
    } catch (vm::Fail& e) {
      return rep.Viol("harness", std::string("the generated graph is outside of the interpreter: ") + e.what() + "\n" + show1(text));
    }
    for (auto& e : m1.env)  // values a quantization to steps of 1 cannot hold
      if (e.second.dt == vm::F32 && ranges)
        for (double q : e.second.v) exact = exact && q == std::floor(q) && q >= n.lo && q <= n.hi;
    m2.extra = kern.hook();
    try {
      got = m2.run(after, in);
    } catch (vm::Fail& e) {
      return fail("not-executable", std::string("the result cannot be executed: ") + e.what());
    }
    if (!exact) { rep.Count("not_representable"); continue; }
    for (size_t i = 0; i < want.size(); ++i) {
      std::string d = differ(want[i], got.at(i), 0, 0, 0);
      if (!d.empty()) return fail("values", "result " + std::to_string(i) + ": " + d);
      rep.Count("values_compared", want[i].v.size());
    }
    rep.Count("executions");
    if (n.quant) rep.Count("quantized_executions");
    if (ranges) rep.Count("default_range_executions");
  }
  rep.Count("kernels_executed", kern.executed);
}

int main(int argc, char** argv) { return drive(argc, argv, Case); }

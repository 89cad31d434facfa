// C08: the options stored for a binary operator, read back, and the stored operator run
// with the run-time kernels against what the operator in memory stands for.
#include "kern.h"
using namespace hs;
using verif::Conv;

static int64_t number(Rng& r) {
  switch (r.in(0, 5)) {
    case 0: return one<int64_t>(r, {0, -1, -128, -129, 127, 128, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, INT32_MAX, INT32_MIN});
    case 1: return (int32_t)r.next();
    case 2: return r.in(-300, 300);
    default: return r.in(1, 9);
  }
}
static const char* kActs[] = {"NONE", "RELU", "RELU_N1_TO_1", "RELU6"};

static void Case(Rng& r, Report& rep, uint64_t id) {
  Ctx& ctx = context(id);
  Fn f;
  std::map<std::string, int64_t> want;
  std::string code, what;
  Conv c;
  bool run = true;
  int kind = r.in(0, 9);
  int64_t fh = 1, fw = 1, sh = 1, sw = 1;
  bool same = false;
  verif::Rng q(r.next());
  std::string e = "f32", e2 = "f32";
  Shape s;
  std::string x;
  int flavour = r.in(0, 2);
  auto at = [&](const std::string& n, int64_t v) { want[n] = v; return i32a(n, v); };
  if (kind < 5) {
    code = "LceBconv2d";
    bool free = r.p(25);  // any integers: only the options are compared
    verif::Profile p;
    c = verif::GenConv(q, p);
    static const int kern[] = {verif::kBgemm, verif::kRef, verif::kIndirect};
    for (int k = 0; k < 20 && !c.Accepts(kern[flavour]); ++k) c = verif::GenConv(q, p);
    run = !free && c.Accepts(kern[flavour]);
    if (c.zero_pad() && c.out == verif::kBits) run = false;
    verif::FillConv(q, c);
    int O = c.cout;
    char t[90];
    snprintf(t, 90, "!quant.uniform<i8:f32, %.17e:%d>", (double)c.scale, c.zp);
    e = c.out == verif::kF ? "f32" : c.out == verif::kI8 ? t : "i32";
    x = f.arg({c.n, c.ih, c.iw, verif::Words(c.cin)}, "i32");
    int rows = O * c.fh * c.fw, cpg = c.cin / c.groups;
    std::vector<int32_t> words((size_t)rows * verif::Words(cpg));
    verif::PackRows(c.filt.data(), rows, cpg, words.data());
    std::string w = f.cst(std::vector<double>(words.begin(), words.end()), {O, c.fh, c.fw, verif::Words(cpg)}, "i32");
    bool bits = c.out == verif::kBits;
    std::string nv = f.none();
    std::string m = bits && r.p(70) ? nv : f.cst(std::vector<double>(c.mul.begin(), c.mul.end()), {O}, "f32");
    std::string b = bits && m == nv ? nv : f.cst(std::vector<double>(c.bias.begin(), c.bias.end()), {O}, "f32");
    std::string th = !bits && r.p(70) ? nv : f.cst(std::vector<double>(c.thr.begin(), c.thr.end()), {O}, "i32");
    auto num = [&](int64_t v) { return free && r.p(70) ? number(r) : v; };
    std::string attrs = at("channels_in", num(c.cin)) + ", " + at("dilation_height_factor", num(c.dh)) + ", " + at("dilation_width_factor", num(c.dw)) + ", " +
                        stra("fused_activation_function", kActs[c.act]) + ", " + stra("padding", c.same ? "SAME" : "VALID") + ", " + at("stride_height", num(c.sh)) + ", " +
                        at("stride_width", num(c.sw));
    int64_t pv = num(c.pad_value);
    if (pv || r.p(50)) attrs += ", " + at("pad_values", pv);
    want["pad_values"] = pv;
    want["padding"] = c.same ? tflite::Padding_SAME : tflite::Padding_VALID;
    static const int acts[] = {tflite::ActivationFunctionType_NONE, tflite::ActivationFunctionType_RELU, tflite::ActivationFunctionType_RELU_N1_TO_1,
                               tflite::ActivationFunctionType_RELU6};
    want["fused_activation_function"] = acts[c.act];
    f.ret(f.op("lq.Bconv2d", {x, w, m, b, th}, attrs, {c.n, c.OH(), c.OW(), bits ? verif::Words(O) : O}, e));
    what = c.Str();
  } else if (kind < 7) {
    code = "LceBMaxPool2d";
    bool free = r.p(25);
    run = !free;
    fh = r.in(1, 4), fw = r.in(1, 4), sh = r.in(1, 4), sw = r.in(1, 4);
    same = r.p(50);
    s = {r.in(1, 2), fh + r.in(0, 6), fw + r.in(0, 6), r.in(1, 3)};
    if (same && r.p(30)) s[1] = r.in(1, 4), s[2] = r.in(1, 4);
    if (free) fh = number(r), fw = number(r), sh = number(r), sw = number(r);
    x = f.arg(s, "i32");
    std::string attrs = at("filter_height", fh) + ", " + at("filter_width", fw) + ", " + at("stride_height", sh) + ", " + at("stride_width", sw) + ", " +
                        stra("padding", same ? "SAME" : "VALID");
    want["padding"] = same ? tflite::Padding_SAME : tflite::Padding_VALID;
    Shape o = s;
    if (!free) o[1] = vm::window(same, s[1], fh, sh, 1).out, o[2] = vm::window(same, s[2], fw, sw, 1).out;
    f.ret(f.op("lq.BMaxPool2d", {x}, attrs, o, "i32"));
    what = "pool " + std::to_string(fh) + "x" + std::to_string(fw) + " stride " + std::to_string(sh) + "," + std::to_string(sw) + (same ? " SAME" : " VALID");
  } else {
    int rank = r.in(1, 5);
    for (int d = 0; d < rank; ++d) s.push_back(r.in(1, d + 1 < rank ? 4 : 80));
    char t[90];
    double scale = r.p(50) ? 1.0 / r.in(1, 127) : (float)(r.unit() * 3 + 1e-3);
    snprintf(t, 90, "!quant.uniform<i8:f32, %.17e:%d>", scale, (int)r.in(-128, 127));
    e = one<std::string>(r, {"f32", "f32", "i1", t});
    Shape p = s;
    p.back() = (p.back() + 31) / 32;
    if (kind < 9) {
      code = "LceQuantize";
      x = f.arg(s, e);
      f.ret(f.op("lq.Quantize", {x}, "", p, "i32"));
    } else {
      code = "LceDequantize";
      x = f.arg(p, "i32");
      f.ret(f.op("lq.Dequantize", {x}, "", s, e));
    }
    what = code + " " + tt(s, e);
  }
  std::string text = f.text();
  if (dump()) fprintf(stderr, "%s\n", text.c_str());
  Module m = ctx.parse(text);
  if (!m) return rep.Viol("harness", "generated text does not parse: " + ctx.diags + brief(text));
  Module before(m->clone());
  rep.Count("evaluations");
  rep.Sig(text);
  if (!ctx.run(*m, mlir::TFL::CreateLegalizeLCEPass())) return rep.Viol("invalid", "lowering fails or leaves an invalid module: " + ctx.diags + brief(text));
  mlir::Operation *src = nullptr, *dst = nullptr;
  before->walk([&](mlir::Operation* o) { if (o->getName().getStringRef().starts_with("lq.")) src = o; });
  m->walk([&](mlir::Operation* o) { if (o->getName().getStringRef() == "tfl.custom") dst = o; });
  if (!src) return rep.Viol("harness", "no operator");
  if (!dst) return rep.Viol("lowering", "the operator is not lowered: " + what);
  if (dst->getAttrOfType<mlir::StringAttr>("custom_code").getValue() != code) return rep.Viol("lowering", "wrong operator name for " + what);
  auto bytes = Kernels::options(dst);
  if (!want.empty()) {
    auto map = flexbuffers::GetRoot(bytes).AsMap();
    for (auto& kv : want) {
      auto v = map[kv.first];
      if (v.IsNull()) return rep.Viol("options", "option " + kv.first + " is not stored: " + what);
      if (v.AsInt32() != kv.second)  // as the kernels read it
        return rep.Viol("options", "option " + kv.first + " is stored as " + std::to_string(v.AsInt32()) + ", not " + std::to_string(kv.second) + ": " + what);
      rep.Count("options_compared");
    }
    if (map.size() != want.size()) rep.Count("more_options");
  }
  if (!run) { rep.Count("options_only"); return; }
  // The stored operator, run.
  Kernels k;
  k.flavour = flavour;
  k.seed = r.next();
  k.threads = r.in(1, 3);
  std::vector<vm::T> args, y;
  auto fa = fn(*m);
  args.push_back(value(r, fa.getFunctionType().getInput(0), r.in(0, 2)));
  if (code == "LceBconv2d") {
    std::vector<int32_t> w((size_t)c.n * c.ih * c.iw * verif::Words(c.cin));
    verif::PackRows(c.in.data(), c.n * c.ih * c.iw, c.cin, w.data());
    args[0].v.assign(w.begin(), w.end());
  }
  vm::VM v;
  v.extra = k.hook();
  try {
    y = v.run(fa, args);
  } catch (vm::Fail& e) {
    return rep.Viol("run", std::string(e.what()) + " -- " + what);
  }
  if (!k.executed) return rep.Viol("harness", "nothing was run");
  rep.Count("run_" + code);
  if (code == "LceBconv2d") {
    verif::Oracle o = verif::Reference(c);
    std::vector<char> raw;
    const vm::T& t = y[0];
    raw.resize(t.v.size() * 4 + 4);
    for (size_t i = 0; i < t.v.size(); ++i) {
      if (c.out == verif::kF) ((float*)raw.data())[i] = (float)t.v[i];
      else if (c.out == verif::kI8) ((int8_t*)raw.data())[i] = (int8_t)t.v[i];
      else ((int32_t*)raw.data())[i] = (int32_t)t.v[i];
    }
    long n = 0;
    std::string d = verif::CheckOutput(c, o, raw.data(), &n);
    rep.Count("values_compared", n);
    rep.Count(std::string("run_act_") + kActs[c.act]);
    rep.Count(c.out == verif::kF ? "run_float" : c.out == verif::kI8 ? "run_int8" : "run_bits");
    if (c.groups > 1) rep.Count("run_grouped");
    rep.Count(c.same ? c.pad_value ? "run_SAME1" : "run_SAME0" : "run_VALID");
    if (c.sh != c.sw) rep.Count("run_two_strides");
    if (c.dh != c.dw) rep.Count("run_two_dilations");
    if (!d.empty()) return rep.Viol("value", d + " -- " + what);
  } else {
    vm::VM ref;
    std::vector<vm::T> z;
    try {
      z = ref.run(fn(*before), args);
    } catch (vm::Fail& e) {
      return rep.Viol("harness", std::string("not executable: ") + e.what() + " " + what);
    }
    std::string d = differ(z[0], y[0], 0, 0, 0);
    if (!d.empty() && code == "LceDequantize" && z[0].dt == vm::QI8) {
      double t = 1 / z[0].scale - std::floor(1 / z[0].scale);
      if (std::fabs(t - 0.5) < 1e-6 * (1 / z[0].scale + 1) && differ(z[0], y[0], 0, 0, 1).empty()) { rep.Count("ties"); d = ""; }
    }
    rep.Count("values_compared", z[0].v.size());
    if (!d.empty()) return rep.Viol("value", d + " -- " + what);
  }
  rep.Sample(what);
}
int main(int argc, char** argv) { return drive(argc, argv, Case); }

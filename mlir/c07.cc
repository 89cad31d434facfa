// C07: 8-bit steps around binary operators, executed before and after they are moved.
#include "passes.h"
using namespace hs;

static std::string qtype(Rng& r, bool wide = false) {
  char q[100];
  int kind = wide ? r.in(0, 9) : 0;
  double scale = r.p(30) ? std::ldexp(1.0, (int)r.in(-9, 2)) : (double)(float)(r.unit() * 0.2 + 1e-3);
  if (kind == 9) snprintf(q, 100, "!quant.uniform<i16:f32, %.9e:0>", scale);
  else if (kind == 8) snprintf(q, 100, "!quant.uniform<u8:f32, %.9e:%d>", scale, (int)r.in(0, 255));
  else snprintf(q, 100, "!quant.uniform<i8:f32, %.9e:%d>", scale, (int)(r.p(60) ? r.in(-128, 127) : r.in(-3, 3)));
  return q;
}
static bool isQ(const std::string& e) { return e[0] == '!'; }

static void Case(Rng& r, Report& rep, uint64_t id) {
  Ctx& ctx = context(id);
  Fn f;
  std::set<std::string> what;
  struct V { std::string n, e; Shape s; int64_t C; int uses = 0; };
  std::vector<V> vs;
  int64_t C = one<int64_t>(r, {1, 3, 8, 31, 32, 33, 40, 64, 70}), H = r.in(1, 3), W = r.in(1, 3);
  std::string nv = f.none();
  auto add = [&](const std::string& n, const std::string& e, const Shape& s, int64_t c) { vs.push_back({n, e, s, c}); };
  auto bp = [&](int64_t c) { return (c + 31) / 32; };
  int na = r.in(1, 3);
  for (int k = 0; k < na; ++k) {
    std::string e = one<std::string>(r, {"f32", "f32", "i32", "q"});
    if (e == "q") e = qtype(r);
    Shape s = {1, H, W, e == "i32" ? bp(C) : C};
    std::string a = f.arg(s, e);
    if (e == "i32") {  // clear padding bits: packed from a float argument instead
      Shape fs = {1, H, W, C};
      std::string x = f.arg(fs, "f32");
      a = f.op("lq.Quantize", {x}, "", s, "i32");
    }
    add(a, e, s, C);
  }
  int n = r.in(2, 9);
  for (int k = 0; k < n; ++k) {
    V& v = vs[r.p(65) ? vs.size() - 1 : r.in(0, vs.size() - 1)];
    V x = v;
    if (x.e == "i32") {
      ++v.uses;
      if (r.p(60)) {
        int64_t O = one<int64_t>(r, {1, 2, 5, 32, 33}), FH = r.in(1, std::min<int64_t>(2, x.s[1])), FW = r.in(1, std::min<int64_t>(2, x.s[2]));
        std::vector<double> fw(O * FH * FW * x.C), m(O), b(O);
        for (auto& y : fw) y = r.p(50) ? 1 : -1;
        for (auto& y : m) y = (r.unit() - 0.5) * 2;
        for (auto& y : b) y = (r.unit() - 0.5) * 8;
        auto param = [&](std::vector<double>& p) {
          std::string c = f.cst(p, {O}, "f32");
          return c;
        };
        auto wrap = [&](const std::string& c) {
          std::string q = qtype(r), t = tt({O}, q);
          std::string y = f.op("tfl.quantize", {c}, "qtype = " + t, {O}, q);
          if (r.p(15)) f.ret(y);
          return f.op("tfl.dequantize", {y}, "", {O}, "f32");
        };
        std::string mc = param(m), bc = param(b);
        int wr = r.in(0, 5);
        if (wr <= 2) mc = wrap(mc), bc = wrap(bc), what.insert("wrapped");
        if (wr == 3) mc = wrap(mc), what.insert("one_wrapped");
        if (wr == 4) bc = wrap(bc), what.insert("one_wrapped");
        bool same = r.p(30);
        int64_t sh = r.in(1, 2), sw = r.in(1, 2), dh = r.p(20) ? 2 : 1;
        if ((FH - 1) * dh + 1 > x.s[1]) dh = 1;
        auto h = vm::window(same, x.s[1], FH, sh, dh), w = vm::window(same, x.s[2], FW, sw, 1);
        std::string oe = r.p(85) ? "f32" : qtype(r);
        int pv = r.in(0, 1);
        std::string at = i32a("channels_in", x.C) + ", " + i32a("dilation_height_factor", dh) + ", " + i32a("dilation_width_factor", 1) + ", " +
                         stra("fused_activation_function", r.p(60) || (same && !pv) ? "NONE" : one<std::string>(r, {"RELU", "RELU6", "RELU_N1_TO_1"})) + ", " + i32a("pad_values", pv) + ", " +
                         stra("padding", same ? "SAME" : "VALID") + ", " + i32a("stride_height", sh) + ", " + i32a("stride_width", sw);
        Shape os = {1, h.out, w.out, O};
        add(f.op("lq.Bconv2d", {x.n, f.cst(fw, {O, FH, FW, x.C}, "f32"), mc, bc, nv}, at, os, oe), oe, os, O);
        what.insert(isQ(oe) ? "conv8" : "conv");
      } else {
        Shape os = x.s;
        os[3] = x.C;
        std::string oe = r.p(75) ? "f32" : r.p(70) ? qtype(r) : "i1";
        if (oe == "i1") {
          f.ret(f.op("lq.Dequantize", {x.n}, "", os, oe));
        } else {
          add(f.op("lq.Dequantize", {x.n}, "", os, oe), oe, os, x.C);
        }
        what.insert(isQ(oe) ? "unpack8" : "unpack");
      }
    } else if (isQ(x.e)) {
      ++v.uses;
      int c = r.in(0, 9);
      if (c < 6) add(f.op("tfl.dequantize", {x.n}, "", x.s, "f32"), "f32", x.s, x.C);
      else if (c < 8) {
        std::string q = qtype(r, true);
        add(f.op("tfl.quantize", {x.n}, "qtype = " + tt(x.s, q), x.s, q), q, x.s, x.C), what.insert("requantize");
      } else if (x.e.find("i8:") != std::string::npos) {
        Shape os = x.s;
        os[3] = bp(x.C);
        add(f.op("lq.Quantize", {x.n}, "", os, "i32"), "i32", os, x.C);
        what.insert("pack8");
      }
    } else {
      ++v.uses;
      int c = r.in(0, 9);
      if (c < 4) {
        std::string q = qtype(r, true);
        add(f.op("tfl.quantize", {x.n}, "qtype = " + tt(x.s, q), x.s, q), q, x.s, x.C);
      } else if (c < 8) {
        Shape os = x.s;
        os[3] = bp(x.C);
        add(f.op("lq.Quantize", {x.n}, "", os, "i32"), "i32", os, x.C);
        what.insert("pack");
      } else if (c < 9) {
        add(f.op("tfl.relu", {x.n}, "", x.s, "f32"), "f32", x.s, x.C);
      } else {
        std::vector<double> cv(x.C);
        for (auto& y : cv) y = r.in(-3, 3);
        add(f.op("tfl.add", {x.n, f.cst(cv, {x.C}, "f32")}, stra("fused_activation_function", "NONE"), x.s, "f32"), "f32", x.s, x.C);
      }
    }
  }
  // Kinds of tensors the operators accept but the run time does not.
  bool odd = r.p(6);
  if (odd) {
    if (r.p(50)) {
      std::string h = f.arg({1, H, W, C}, "f16");
      std::string d = f.op("tfl.dequantize", {h}, "", {1, H, W, C}, "f32");
      f.ret(f.op("lq.Quantize", {d}, "", {1, H, W, bp(C)}, "i32"));
      what.insert("half");
    } else {
      std::string q = "!quant.uniform<i16:f32, 0.25:0>", h = f.arg({1, H, W, C}, q);
      std::string d = f.op("tfl.dequantize", {h}, "", {1, H, W, C}, "f32");
      f.ret(f.op("lq.Quantize", {d}, "", {1, H, W, bp(C)}, "i32"));
      what.insert("sixteen");
    }
  }
  for (auto& v : vs) if (!v.uses || r.p(15)) f.ret(v.n);
  std::string text = f.text(), w;
  for (auto& k : what) w += k + " ";
  if (dump()) fprintf(stderr, "%s\n", text.c_str());
  Module m = ctx.parse(text);
  if (!m) return rep.Viol("harness", "generated text does not parse: " + ctx.diags + brief(text));
  Module before(m->clone());
  rep.Count("evaluations");
  rep.Sig(text);
  if (!ctx.run(*m, mlir::TFL::CreateLCEQuantizePass()))
    return rep.Viol("invalid", "the pass fails or leaves an invalid module: " + ctx.diags + " -- " + w + " -- " + brief(text));
  // Parameters stay float: the reference takes them from before the rounding.
  long wrapped = 0;
  auto unwrap = [](mlir::Value v) -> mlir::Value {
    auto d = v.getDefiningOp();
    if (!d || d->getName().getStringRef() != "tfl.dequantize") return nullptr;
    auto q = d->getOperand(0).getDefiningOp();
    return q && q->getName().getStringRef() == "tfl.quantize" ? q->getOperand(0) : nullptr;
  };
  Module ref(before->clone());
  ref->walk([&](mlir::Operation* o) {
    if (o->getName().getStringRef() != "lq.Bconv2d") return;
    auto a = unwrap(o->getOperand(2)), b = unwrap(o->getOperand(3));
    if (!a || !b) return;
    o->setOperand(2, a), o->setOperand(3, b);
    ++wrapped;
  });
  std::string problem;
  m->walk([&](mlir::Operation* o) {
    llvm::StringRef n = o->getName().getStringRef();
    if (n == "lq.Bconv2d" && unwrap(o->getOperand(2)) && unwrap(o->getOperand(3))) problem = "parameters of a convolution are left rounded to 8 bits";
    auto type = [](mlir::Value v) { return mlir::getElementTypeOrSelf(v.getType()); };
    auto ok = [&](mlir::Type t) {
      auto q = llvm::dyn_cast<mlir::quant::UniformQuantizedType>(t);
      return t.isF32() || t.isInteger(1) || t.isInteger(32) || (q && q.getStorageTypeIntegralWidth() == 8);
    };
    if (n == "lq.Quantize" && !ok(type(o->getOperand(0)))) problem = "a tensor of a type the run time does not pack is packed";
    if ((n == "lq.Bconv2d" || n == "lq.Dequantize") && !ok(type(o->getResult(0)))) problem = "a binary operator gives a type the run time does not produce";
  });
  if (!problem.empty()) return rep.Viol("type", problem + " -- " + w + " -- " + brief(text) + " AFTER " + brief(show(*m)));
  auto count = [&](const char* k, const char* op, bool less) {
    long b = countOps(*before, op), a = countOps(*m, op);
    if (less ? a < b : a > b) rep.Count(k, less ? b - a : a - b);
  };
  auto steps = [](mlir::ModuleOp q, const char* op, bool result) {
    long n = 0;
    q.walk([&](mlir::Operation* o) {
      if (o->getName().getStringRef() != op) return;
      auto t = mlir::getElementTypeOrSelf(result ? o->getResult(0).getType() : o->getOperand(0).getType());
      n += llvm::isa<mlir::quant::UniformQuantizedType>(t);
    });
    return n;
  };
  for (auto p : std::vector<std::tuple<const char*, bool, const char*>>{{"lq.Bconv2d", true, "convolutions_made_8bit"}, {"lq.Dequantize", true, "unpackings_made_8bit"}, {"lq.Quantize", false, "packings_made_8bit"}}) {
    long b = steps(*before, std::get<0>(p), std::get<1>(p)), a = steps(*m, std::get<0>(p), std::get<1>(p));
    if (a > b) rep.Count(std::get<2>(p), a - b);
  }
  rep.Count("parameters_unwrapped", wrapped);
  if (what.count("requantize")) rep.Count("requantized");
  if (what.count("one_wrapped")) rep.Count("one_parameter_wrapped");
  if (odd) rep.Count("unsupported_types");
  Compare c;
  c.rel = c.abs = c.q = 0;
  c.inputs = 3;
  std::string d = agree(r, fn(*ref), fn(*m), rep, c);
  if (!d.empty()) return rep.Viol("value", d + " -- " + w + " -- " + brief(text) + " AFTER " + brief(show(*m)));
  rep.Sample(w);
}
int main(int argc, char** argv) { return drive(argc, argv, Case); }

// C03: DAGs of binary convolutions, arithmetic with constants, activations, pooling and
// comparisons, executed before and after the pass that merges them.
#include "passes.h"
using namespace hs;

struct Gen {
  Rng& r;
  bool exact;  // only numbers whose arithmetic is exact, so that results must agree to the bit
  Fn f;
  std::vector<std::string> fl, pk, bl;  // float, packed and boolean values
  std::map<std::string, int64_t> chans;
  std::set<std::string> what;
  int64_t N = 1;

  double scale() { return exact ? (r.p(50) ? 1 : -1) * std::ldexp(1.0, (int)r.in(-2, 2)) : (r.p(50) ? 1 : -1) * (0.5 + 1.5 * r.unit()); }
  double shift() { return exact ? (double)r.in(-24, 24) / 8 : (r.unit() - 0.5) * 6; }
  Shape like(const Shape& s) {  // a shape that broadcasts with s
    switch (r.in(0, 9)) {
      case 0: return {};
      case 1: return {1};
      case 2: { Shape q(s.size(), 1); q.back() = s.back(); return q; }
      case 3: return s;
      case 4: { Shape q = s; q[r.next() % q.size()] = 1; return q; }
      case 5: { Shape q(s.begin() + r.next() % s.size(), s.end()); return q; }
      default: return {s.back()};
    }
  }
  static Shape join(const Shape& a, const Shape& b) { return vm::bshape(a, b); }
  // Mostly the newest value, so that chains are long.
  const std::string& pick(const std::vector<std::string>& v) { return r.p(70) ? v.back() : r.of(v); }

  void packed() {
    if (!pk.empty() && r.p(60)) return;
    int64_t C = one<int64_t>(r, {1, 3, 32, 33, 64});
    std::string a = f.arg({N, r.in(1, 5), r.in(1, 5), (C + 31) / 32}, "i32");
    chans[a] = C;
    pk.push_back(a);
  }
  void bconv() {
    packed();
    std::string in = pick(pk);
    Shape s = f.t[in].shape;
    if (s.size() != 4) return;
    int64_t C = chans[in], I = C;
    if (C % 64 == 0 && r.p(25)) I = C / 2;
    int64_t O = (C / I) * one<int64_t>(r, {1, 2, 4, 32, 33});
    int64_t FH = r.in(1, 3), FW = r.in(1, 3), sh = r.in(1, 2), sw = r.in(1, 2), dh = r.in(1, 2), dw = r.in(1, 2);
    bool same = r.p(50);
    int64_t pv = same ? r.in(0, 1) : r.p(80) ? 0 : 1;
    auto h = vm::window(same, s[1], FH, sh, dh), w = vm::window(same, s[2], FW, sw, dw);
    if (h.out < 1 || w.out < 1) return;
    Shape os = {s[0], h.out, w.out, O};
    std::vector<double> k(O * FH * FW * I), m(O), b(O);
    for (auto& x : k) x = r.p(50) ? 1 : -1;
    int how = r.in(0, 9);
    double same_m = scale(), same_b = shift();
    for (int64_t o = 0; o < O; ++o) {
      m[o] = how < 4 ? 1 : how < 5 ? same_m : r.p(8) ? 0 : scale();
      b[o] = how < 4 ? 0 : how < 5 ? same_b : shift();
    }
    if (how == 3) (r.p(50) ? m : b)[r.next() % O] += 1;
    std::string kc = r.p(90) ? f.cst(k, {O, FH, FW, I}, "f32") : f.arg({O, FH, FW, I}, "f32");
    std::string mc = r.p(93) ? f.cst(m, {O}, "f32") : f.arg({O}, "f32"), bc = r.p(93) ? f.cst(b, {O}, "f32") : f.arg({O}, "f32");
    std::string act = (same && pv == 0) || r.p(65) ? "NONE" : one<std::string>(r, {"RELU", "RELU_N1_TO_1", "RELU6"});
    std::string at = i32a("channels_in", C) + ", " + i32a("dilation_height_factor", dh) + ", " + i32a("dilation_width_factor", dw) + ", " +
                     stra("fused_activation_function", act) + ", " + i32a("pad_values", pv) + ", " + stra("padding", same ? "SAME" : "VALID") + ", " +
                     i32a("stride_height", sh) + ", " + i32a("stride_width", sw);
    std::string nv = f.none();
    std::string y = f.op("lq.Bconv2d", {in, kc, mc, bc, nv}, at, os, "f32");
    fl.push_back(y);
  }
  void arith() {
    if (fl.empty()) return;
    std::string x = pick(fl);
    std::string op = one<std::string>(r, {"tfl.add", "tfl.sub", "tfl.mul", "tfl.div"});
    bool mul = op == "tfl.mul" || op == "tfl.div";
    Shape s = f.t[x].shape, cs = like(s);
    if (cs.size() == 4 && r.p(5) && s[0] == 1) cs[0] = 2;
    std::vector<double> v(elems(cs));
    for (auto& e : v) e = mul ? scale() : shift();
    if (op == "tfl.mul" && r.p(5)) v[0] = 0;
    std::string c = r.p(90) ? f.cst(v, cs, "f32") : mul && exact ? f.cst(v, cs, "f32") : f.arg(cs, "f32");
    Shape os = join(s, cs);
    if (elems(os) > 40000) return;
    std::string act = r.p(88) ? "NONE" : one<std::string>(r, {"RELU", "RELU_N1_TO_1", "RELU6"});
    bool left = op != "tfl.div" && r.p(15);
    std::string y = f.op(op, left ? std::vector<std::string>{c, x} : std::vector<std::string>{x, c}, stra("fused_activation_function", act), os, "f32");
    fl.push_back(y);
    what.insert(op);
  }
  void activation() {
    if (fl.empty()) return;
    std::string x = pick(fl);
    fl.push_back(f.op(one<std::string>(r, {"tfl.relu", "tfl.relu_n1_to_1", "tfl.relu6"}), {x}, "", f.t[x].shape, "f32"));
    what.insert("activation");
  }
  void pool() {
    if (fl.empty()) return;
    std::string x = pick(fl);
    Shape s = f.t[x].shape;
    if (s.size() != 4) return;
    bool same = r.p(50);
    int64_t fh = r.in(1, 3), fw = r.in(1, 3), sh = r.in(1, 3), sw = r.in(1, 3);
    auto h = vm::window(same, s[1], fh, sh, 1), w = vm::window(same, s[2], fw, sw, 1);
    if (h.out < 1 || w.out < 1) return;
    std::string act = r.p(75) ? "NONE" : one<std::string>(r, {"RELU", "RELU_N1_TO_1", "RELU6"});
    fl.push_back(f.op("tfl.max_pool_2d", {x},
                      stra("padding", same ? "SAME" : "VALID") + ", " + i32a("stride_w", sw) + ", " + i32a("stride_h", sh) + ", " + i32a("filter_width", fw) +
                          ", " + i32a("filter_height", fh) + ", " + stra("fused_activation_function", act),
                      {s[0], h.out, w.out, s[3]}, "f32"));
    what.insert("pool");
  }
  void compare() {
    bool ints = r.p(8);
    std::string x, e = ints ? "i32" : "f32";
    if (ints) x = f.arg({N, r.in(1, 3), r.in(1, 3), one<int64_t>(r, {4, 32, 40})}, "i32");
    else if (fl.empty() || !exact) x = f.arg({N, r.in(1, 4), r.in(1, 4), one<int64_t>(r, {1, 31, 32, 33, 64})}, "f32");
    else x = pick(fl);
    Shape s = f.t[x].shape, cs = like(s);
    if (cs.size() == 4 && r.p(10) && s[0] == 1) cs[0] = 2;
    std::string c;
    if (r.p(70)) {
      std::vector<double> v(elems(cs));
      bool zero = r.p(50);
      for (auto& q : v) q = zero ? (r.p(90) ? 0.0 : -0.0) : ints ? (double)r.in(-3, 3) : shift();
      if (zero && r.p(10)) v[r.next() % v.size()] = 1;
      c = f.cst(v, cs, e);
    } else {
      c = f.arg(cs, e);
    }
    Shape os = join(s, cs);
    std::string op = one<std::string>(r, {"tfl.greater_equal", "tfl.greater_equal", "tfl.less_equal", "tfl.less_equal", "tfl.greater", "tfl.less"});
    bl.push_back(f.op(op, r.p(60) ? std::vector<std::string>{x, c} : std::vector<std::string>{c, x}, "", os, "i1"));
    what.insert(op);
  }
  void quantize(bool last = false) {
    std::string x;
    if (last && !fl.empty() && exact) x = fl.back();
    else if (!bl.empty() && r.p(60)) x = pick(bl);
    else if (!fl.empty() && exact) x = pick(fl);
    else x = f.arg({N, r.in(1, 4), r.in(1, 4), one<int64_t>(r, {1, 31, 32, 33, 64})}, "f32");
    Shape s = f.t[x].shape;
    if (s.empty()) return;
    int64_t C = s.back();
    s.back() = (C + 31) / 32;
    std::string q = f.op("lq.Quantize", {x}, "", s, "i32");
    chans[q] = C;
    pk.push_back(q);
    what.insert("quantize");
  }
  bool used(const std::string& v) const {
    for (const char* e : {",", ")"})
      if (f.body.find("(" + v + e) != std::string::npos || f.body.find(" " + v + e) != std::string::npos) return true;
    return false;
  }
  bool build() {
    N = r.in(1, 2);
    int n = r.in(1, 7);
    if (!exact || r.p(10)) fl.push_back(f.arg({N, r.in(1, 5), r.in(1, 5), one<int64_t>(r, {1, 32, 33})}, "f32"));
    if (r.p(70)) bconv();
    for (int i = 0; i < n; ++i) switch (r.in(0, 9)) {
        case 0: bconv(); break;
        case 1: case 2: case 3: arith(); break;
        case 4: activation(); break;
        case 5: pool(); if (r.p(60)) quantize(true); break;
        case 6: compare(); break;
        default: quantize(r.p(40));
      }
    if (bl.size() + fl.size() + pk.size() == 0) return false;
    // Results: the newest of each kind, and sometimes values in the middle.
    std::set<std::string> out;
    for (auto* v : {&fl, &pk, &bl})
      for (size_t i = 0; i < v->size(); ++i)
        if ((!used((*v)[i]) && r.p(i + 1 == v->size() ? 95 : 30)) || r.p(10)) out.insert((*v)[i]);
    for (auto& o : out) f.ret(o);
    return !out.empty();
  }
};

static void Case(Rng& r, Report& rep, uint64_t id) {
  Ctx& ctx = context(id);
  Gen* g = nullptr;
  std::unique_ptr<Gen> hold;
  do {
    hold.reset(new Gen{r, r.p(80)});
    g = hold.get();
  } while (!g->build());
  bool arm = r.p(60);
  std::string text = g->f.text(), w = arm ? "arm" : "xcore";
  for (auto& x : g->what) w += " " + x;
  if (dump()) fprintf(stderr, "// target %s\n%s\n", arm ? "arm" : "xcore", text.c_str());
  Module m = ctx.parse(text);
  if (!m) return rep.Viol("harness", "generated text does not parse: " + ctx.diags + brief(text));
  Module before(m->clone());
  rep.Count("evaluations");
  rep.Sig(text);
  if (!ctx.run(*m, mlir::TFL::CreateOptimizeLCEPass(arm ? LCETarget::ARM : LCETarget::XCORE)))
    return rep.Viol("invalid", "the pass fails or leaves an invalid module: " + ctx.diags + " -- " + w + " -- " + brief(text));
  bool any = false;
  auto fused = [&](const char* name, const char* op, int sign = 1) {
    long d = sign * (countOps(*before, op) - countOps(*m, op));
    if (d > 0) rep.Count(name, d), any = true;
  };
  fused("additions_merged", "tfl.add");
  fused("multiplications_merged", "tfl.mul");
  fused("divisions_merged", "tfl.div");
  fused("activations_merged", "tfl.relu");
  fused("activations_merged", "tfl.relu6");
  fused("activations_merged", "tfl.relu_n1_to_1");
  fused("pools_binarized", "lq.BMaxPool2d", -1);
  fused("comparisons_merged", "tfl.greater_equal");
  fused("comparisons_merged", "tfl.less_equal");
  auto packedOut = [](mlir::ModuleOp q) {
    long n = 0;
    q.walk([&](mlir::lq::Bconv2dOp o) { n += mlir::getElementTypeOrSelf(o.getType()).isInteger(32); });
    return n;
  };
  long po = packedOut(*m);
  if (po) rep.Count("outputs_bitpacked", po), any = true;
  fused("signs_merged", "lq.Quantize");
  if (arm ? false : countOps(*m, "lq.BMaxPool2d") > 0) return rep.Viol("target", "binary max pooling for a target without it -- " + brief(text));
  Compare c;
  c.rel = g->exact ? 0 : 1e-5;
  c.abs = g->exact ? 0 : 5e-3;
  if (g->exact) c.inputs = 2;  // without the inputs of the third kind, which round
  std::string d = agree(r, fn(*before), fn(*m), rep, c);
  if (!d.empty()) return rep.Viol("value", d + " -- " + w + " -- " + brief(text) + " AFTER " + brief(show(*m)));
  // Only types a kernel exists for may end up binarized.
  std::string bad;
  auto odd = [](mlir::Operation* o) {
    auto t = mlir::getElementTypeOrSelf(o->getOperand(0).getType());
    return !(t.isF32() || t.isInteger(1) || t.isa<mlir::quant::UniformQuantizedType>());
  };
  m->walk([&](mlir::Operation* o) {
    if (o->getName().getStringRef() == "lq.Quantize" && odd(o)) bad = show(o);
  });
  if (!bad.empty()) return rep.Viol("type", "binarizes a type no kernel reads: " + bad);
  if (any) rep.Sample(w);
  else rep.Count("nothing_to_merge");
}
int main(int argc, char** argv) { return drive(argc, argv, Case); }

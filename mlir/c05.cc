// C05: constants packed, unpacked and folded by the converter against what the
// operators would have computed from the same constants at run time.
#include "passes.h"
using namespace hs;

static float bits(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static double sample(Rng& r, const std::string& e, int kind) {
  if (e == "i1") return r.p(50);
  if (e[0] == 'i') return kind == 0 ? (double)r.in(-2, 2) : (double)(int32_t)(e == "i32" ? r.next() : r.in(-100, 100));
  switch (kind) {
    case 0: return r.p(50) ? 1 : -1;
    case 1: return (float)(r.unit() - 0.5);
    case 2: return r.p(50) ? 0.0 : -0.0;
    default:
      return (double)bits(one<uint32_t>(r, {0, 0x80000000u, 1, 0x80000001u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0xffc00000u, 0x3f800000u, 0xbf800000u,
                                            (uint32_t)r.next()}));
  }
}

// A constant: full, a splat or sparse.
static std::string constant(Rng& r, Fn& f, const Shape& s, const std::string& e, std::set<std::string>& what, int kind, bool allow_sparse) {
  int64_t n = elems(s);
  std::vector<double> v(n);
  int form = r.in(0, 9);
  if (form == 0 && n > 0) {
    double x = sample(r, e, kind);
    for (auto& y : v) y = x;
    what.insert("splat");
    std::string lit = dense({x}, {}, e);
    lit = lit.substr(0, lit.find("> :")) + "> : " + tt(s, e);
    return f.op("arith.constant", {}, "value = " + lit, s, e);
  }
  if (form == 1 && allow_sparse && !s.empty() && n > 0 && (e == "f32" || e == "i32")) {
    what.insert("sparse");
    std::string ix, lit;
    for (size_t d = 0; d < s.size(); ++d) ix += (d ? ", " : "") + std::to_string(r.in(0, s[d] - 1));
    return f.op("arith.constant", {}, "value = sparse<[[" + ix + "]], [" + (e == "f32" ? "-1.0" : "-7") + "]> : " + tt(s, e), s, e);
  }
  for (auto& y : v) y = sample(r, e, kind);
  return f.cst(v, s, e);
}

static Shape shape(Rng& r, std::set<std::string>& what, int64_t& C) {
  int rank = r.p(60) ? 4 : r.in(0, 6);
  C = r.p(60) ? r.in(1, 70) : one<int64_t>(r, {31, 32, 33, 63, 64, 65, 96, 127, 128, 129});
  Shape s;
  for (int d = 0; d + 1 < rank; ++d) s.push_back(r.p(3) ? 0 : r.in(1, 3));
  if (rank) s.push_back(r.p(3) ? C = 0 : C);
  what.insert("rank" + std::to_string(rank));
  if (rank && elems(s) == 0) what.insert("empty");
  return s;
}

static void Case(Rng& r, Report& rep, uint64_t id) {
  Ctx& ctx = context(id);
  Fn f;
  struct Item { std::string kind, e; std::set<std::string> what; bool conv = false, must = false; };
  std::vector<Item> items;
  int n = r.in(2, 5);
  std::string nv = f.none();
  for (int k = 0; k < n; ++k) {
    Item it;
    int64_t C;
    int kind = r.in(0, 3);
    switch (r.in(0, 5)) {
      case 0: case 1: {  // pack
        it.kind = "quantize";
        it.e = r.p(60) ? "f32" : one<std::string>(r, {"f16", "bf16", "f64", "i1", "i32", "i64"});
        if (it.e == "f16" || it.e == "bf16" || it.e == "f64") kind = std::min(kind, 1);
        Shape s = shape(r, it.what, C);
        std::string c = constant(r, f, s, it.e, it.what, kind, true);
        Shape q = s;
        if (!q.empty()) q.back() = (q.back() + 31) / 32;
        if (!q.empty() && r.p(5)) q[r.in(0, q.size() - 1)] = -1, it.what.insert("undeclared");
        f.ret(f.op("lq.Quantize", {c}, "", q, "i32"));
        break;
      }
      case 2: case 3: {  // unpack
        it.kind = "dequantize";
        char q[100];
        double scale = r.p(30) ? std::ldexp(1.0, (int)r.in(-40, 6)) : r.p(50) ? (double)(float)(1 / (r.in(1, 140) + r.unit() * 0.9 - 0.45)) : (double)(float)(r.unit() * 0.1 + 1e-4);
        snprintf(q, 100, "!quant.uniform<i8:f32, %.17e:%d>", scale, (int)(r.p(60) ? r.in(-128, 127) : 0));
        it.e = r.p(50) ? "f32" : r.p(60) ? q : one<std::string>(r, {"f16", "bf16", "f64", "i1", "i32", "i64", "!quant.uniform<i16:f32, 0.5>",
                                                                   "!quant.uniform<i8:f32:0, {0.5}>"});
        Shape u = shape(r, it.what, C);
        if (it.e.find("{") != std::string::npos && (u.empty() || u[0] != 1)) it.e = "i1";
        Shape p = u;
        if (!p.empty()) p.back() = (p.back() + 31) / 32;
        if (!p.empty() && r.p(6)) {
          (r.p(50) ? p.back() : p[r.in(0, p.size() - 1)]) += 1;
          it.what.insert("misfit");
        } else if (r.p(3) && !p.empty()) {
          p.push_back(1), it.what.insert("misfit");
        }
        std::string c = constant(r, f, p, "i32", it.what, 3, true);
        if (!u.empty() && r.p(5)) u[r.in(0, u.size() - 1)] = -1, it.what.insert("undeclared");
        f.ret(f.op("lq.Dequantize", {c}, "", u, it.e));
        if (it.e[0] == '!') it.e = it.e.find("i8:f32,") != std::string::npos ? "qi8" : it.e.find("{") != std::string::npos ? "per-axis" : "qi16";
        break;
      }
      case 4: {  // both ways
        it.kind = "chain";
        it.e = r.p(60) ? "f32" : "!quant.uniform<i8:f32, 0.5:3>";
        Shape u = shape(r, it.what, C);
        if (u.empty()) u = {C};
        Shape p = u;
        p.back() = (p.back() + 31) / 32;
        std::string c = constant(r, f, p, "i32", it.what, 3, false);
        std::string d = f.op("lq.Dequantize", {c}, "", u, it.e);
        f.ret(f.op("lq.Quantize", {d}, "", p, "i32"));
        if (it.e[0] == '!') it.e = "qi8";
        break;
      }
      default: {  // weights
        it.conv = true;
        it.kind = "filter";
        it.e = r.p(80) ? "f32" : "i32";
        int rank = r.p(85) ? 4 : r.in(0, 5);
        int64_t O = r.in(1, 4), FH = r.in(1, 3), FW = r.in(1, 3), groups = r.p(80) ? 1 : 2;
        C = r.p(60) ? r.in(1, 70) : one<int64_t>(r, {32, 64, 96, 128});
        if (groups == 2) C = one<int64_t>(r, {32, 64}), O = 2 * r.in(1, 2);
        Shape s = {O, FH, FW, it.e == "i32" ? (C + 31) / 32 : C};
        if (rank < 4) s.resize(rank);
        if (rank == 5) s.push_back(1);
        it.what.insert("rank" + std::to_string(rank));
        bool variable = r.p(5);
        std::string fc = variable ? f.arg(s, it.e) : constant(r, f, s, it.e, it.what, it.e == "i32" ? 3 : kind, true);
        it.must = it.e == "f32" && rank == 4 && !variable && !it.what.count("sparse");
        int64_t H = FH + r.in(0, 2), W = FW + r.in(0, 2);
        std::string x = f.arg({1, H, W, (C * groups + 31) / 32}, "i32");
        std::vector<double> m(O), b(O);
        for (auto& y : m) y = r.in(-3, 3);
        for (auto& y : b) y = r.in(-3, 3);
        std::string at = i32a("channels_in", C * groups) + ", " + i32a("dilation_height_factor", 1) + ", " + i32a("dilation_width_factor", 1) + ", " +
                         stra("fused_activation_function", r.p(50) ? "NONE" : "RELU") + ", " + i32a("pad_values", r.in(0, 1)) + ", " + stra("padding", "VALID") +
                         ", " + i32a("stride_height", 1) + ", " + i32a("stride_width", 1);
        f.ret(f.op("lq.Bconv2d", {x, fc, f.cst(m, {O}, "f32"), f.cst(b, {O}, "f32"), nv}, at, {1, H - FH + 1, W - FW + 1, O}, "f32"));
        if (groups == 2) it.what.insert("grouped");
      }
    }
    items.push_back(it);
  }
  std::string text = f.text();
  if (dump()) fprintf(stderr, "%s\n", text.c_str());
  Module m = ctx.parse(text);
  if (!m) return rep.Viol("harness", "generated text does not parse: " + ctx.diags + brief(text));
  Module before(m->clone());
  rep.Count("evaluations");
  rep.Sig(text);
  if (!ctx.run(*m, mlir::TFL::CreateBitpackWeightsLCEPass()))
    return rep.Viol("invalid", "the pass fails or leaves an invalid module: " + ctx.diags + brief(text));
  auto fb = fn(*before), fa = fn(*m);
  if (fb.getFunctionType() != fa.getFunctionType()) return rep.Viol("type", "the function's type changed");
  std::vector<vm::T> args;
  for (auto t : fb.getFunctionType().getInputs()) args.push_back(value(r, t, 1));
  auto rb = fb.getBody().front().getTerminator(), ra = fa.getBody().front().getTerminator();
  // Result by result: the operators and constants behind it, executed alone.
  auto evaluate = [&](mlir::func::FuncOp fun, mlir::Value v, vm::T& out) -> std::string {
    vm::VM x;
    for (size_t i = 0; i < args.size(); ++i) x.env[fun.getArgument(i).getAsOpaquePointer()] = args[i];
    std::function<void(mlir::Value)> go = [&](mlir::Value q) {
      if (x.env.count(q.getAsOpaquePointer())) return;
      for (auto o : q.getDefiningOp()->getOperands()) go(o);
      x.exec(q.getDefiningOp());
    };
    try {
      go(v);
      out = x.get(v);
    } catch (vm::Fail& e) {
      return e.what();
    }
    return "";
  };
  for (int k = 0; k < n; ++k) {
    Item& it = items[k];
    std::string w = it.kind + " " + it.e;
    for (auto& x : it.what) w += " " + x;
    auto vb = rb->getOperand(k), va = ra->getOperand(k);
    auto ob = vb.getDefiningOp(), oa = va.getDefiningOp();
    if (va.getType() != vb.getType()) return rep.Viol("type", "the type of a result changed: " + w);
    vm::T x, y;
    std::string e = evaluate(fb, vb, x);
    if (it.conv) {
      auto isPacked = [&](mlir::Operation* o) { return mlir::getElementTypeOrSelf(o->getOperand(1).getType()).isInteger(32); };
      if (it.must && !isPacked(oa)) return rep.Viol("unpacked", "the weights of a convolution are left unpacked: " + w);
      bool changed = isPacked(oa) != isPacked(ob);
      if (isPacked(oa) && changed) {
        vm::T wb, wa;
        std::string e1 = evaluate(fb, ob->getOperand(1), wb), e2 = evaluate(fa, oa->getOperand(1), wa);
        if (!e1.empty() || !e2.empty()) return rep.Viol("value", "packed weights cannot be read: " + e1 + e2 + " " + w);
        std::string d = differ(vm::pack(wb), wa, 0, 0, 0);
        if (!d.empty()) return rep.Viol("value", "packed weights: " + d + " -- " + w);
        rep.Count("weights_packed");
        if (it.what.count("grouped")) rep.Count("weights_grouped");
        if (it.what.count("splat")) rep.Count("weights_splat");
        rep.Count("words_compared", wa.v.size());
      } else {
        rep.Count("weights_left");
        if (changed || ob->getOperand(1).getType() != oa->getOperand(1).getType()) return rep.Viol("value", "weights changed: " + w);
      }
      if (e.empty()) {
        std::string e2 = evaluate(fa, va, y);
        if (!e2.empty()) return rep.Viol("value", "the packed convolution cannot be executed: " + e2 + " " + w);
        std::string d = differ(x, y, 0, 0, 0);
        if (!d.empty()) return rep.Viol("value", "a convolution with packed weights: " + d + " -- " + w);
        rep.Count("convolutions_executed");
      }
      auto attrs = [](mlir::Operation* o) { return o->getAttrDictionary(); };
      if (attrs(oa) != attrs(ob)) return rep.Viol("attributes", "attributes of a convolution changed");
      continue;
    }
    std::string nm = oa->getName().getStringRef().str();
    bool folded = nm == "arith.constant" || oa->getName() != ob->getName() || oa->getOperand(0).getDefiningOp()->getName() != ob->getOperand(0).getDefiningOp()->getName();
    if (!folded) {
      rep.Count("left_" + it.kind + "_" + it.e);
      if (it.what.count("misfit")) rep.Count("left_misfit");
      if (it.what.count("sparse")) rep.Count("left_sparse");
      if (it.what.count("undeclared")) rep.Count("left_undeclared");
      continue;
    }
    if (!e.empty() && it.what.count("sparse")) { rep.Count("sparse_folded"); continue; }
    if (!e.empty()) return rep.Viol("folded", "folded although the operator cannot be executed (" + e + "): " + w);
    std::string e2 = evaluate(fa, va, y);
    if (!e2.empty()) return rep.Viol("value", "the folded constant cannot be read: " + e2 + " -- " + w);
    std::string d = differ(x, y, 0, 0, 0);
    if (!d.empty()) {
      if (x.dt == vm::QI8) {  // a tie may be rounded either way
        double q = 1 / x.scale, t = q - std::floor(q);
        if (std::fabs(t - 0.5) < 1e-6 * (q + 1) && differ(x, y, 0, 0, 1).empty()) { rep.Count("ties"); continue; }
      }
      return rep.Viol("value", "folded " + w + ": " + d);
    }
    rep.Count("folded_" + it.kind + "_" + it.e);
    for (auto& q : it.what) rep.Count("folded_" + q);
    rep.Count("values_compared", y.v.size());
    rep.Sample(w);
  }
}
int main(int argc, char** argv) { return drive(argc, argv, Case); }

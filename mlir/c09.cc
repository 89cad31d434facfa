// C09: binary operators lowered to custom operators, translated back and lowered again,
// among custom operators of other kinds and ordinary operators.
#include "passes.h"
#include "mlir/IR/Action.h"
using namespace hs;

struct Op {
  std::string name;          // operator name
  std::vector<mlir::Value> in;
  std::vector<mlir::Type> out;
  mlir::DictionaryAttr attrs;
};
static std::string type(Rng& r, const std::string& e) {
  if (r.p(4)) return "tensor<*x" + e + ">";
  Shape s;
  int rank = r.p(70) ? 4 : r.in(0, 5);
  for (int d = 0; d < rank; ++d) s.push_back(r.p(6) ? -1 : r.p(2) ? 0 : r.in(1, 70));
  return tt(s, e);
}
static int64_t number(Rng& r) {
  switch (r.in(0, 6)) {
    case 0: return one<int64_t>(r, {0, -1, -128, -129, 127, 128, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, INT32_MAX, INT32_MIN});
    case 1: return (int32_t)r.next();
    case 2: return r.in(-300, 300);
    default: return r.in(1, 9);
  }
}

static void Case(Rng& r, Report& rep, uint64_t id) {
  Ctx& ctx = context(id);
  std::string args, body, ret, rt;
  struct V { std::string n, t; bool quantizable, words, none; };
  std::vector<V> vals;
  int na = 0, nv = 0;
  auto val = [&](const std::string& t, std::function<bool(const V&)> ok) -> V {
    std::vector<V> c;
    for (auto& v : vals) if (ok(v)) c.push_back(v);
    if (!c.empty() && r.p(60)) return r.of(c);
    V v{"%a" + std::to_string(na++), t, false, false, t == "none"};
    args += (args.empty() ? "" : ", ") + v.n + ": " + t;
    if (t != "none") vals.push_back(v), vals.back().words = t.find("xi32>") != std::string::npos && t.find('!') == std::string::npos;
    return v;
  };
  auto same = [](const std::string& t) { return [t](const V& v) { return v.t == t; }; };
  static const std::vector<std::string> kinds = {"f32", "f32", "bf16", "f16", "f64", "i32", "i64", "i1", "!quant.uniform<i8:f32, 0.5:3>", "!quant.uniform<i16:f32, 0.25>",
                                                 "!quant.uniform<i8:f32, 0.5>"};
  int n = r.in(1, 12), lce = 0, foreign = 0;
  for (int k = 0; k < n; ++k) {
    std::string op, in, it, at, out;
    int nout = 1;
    auto use = [&](const V& v) { in += (in.empty() ? "" : ", ") + v.n; it += (it.empty() ? "" : ", ") + v.t; };
    switch (r.in(0, 7)) {
      case 0: op = "lq.Quantize", use(val(type(r, r.of(kinds)), [](const V& v) { return v.t.find("tensor<") == 0 && v.t.find("i8>") == std::string::npos && v.t.find("ui8") == std::string::npos && v.t.find("str") == std::string::npos; })), out = type(r, "i32"); ++lce; break;
      case 1: op = "lq.Dequantize", use(val(type(r, "i32"), [](const V& v) { return v.words; })), out = type(r, r.of(kinds)); ++lce; break;
      case 2:
      case 3: {
        op = "lq.Bconv2d";
        use(val(type(r, "i32"), [](const V& v) { return v.words; }));
        std::string e = r.p(50) ? "f32" : "i32";
        use(val(type(r, e), same("")));
        for (int j = 0; j < 3; ++j) {
          std::string t = r.p(40) ? "none" : type(r, j == 2 ? "i32" : "f32");
          use(val(t, same(t)));
        }
        at = i32a("channels_in", number(r)) + ", " + i32a("dilation_height_factor", number(r)) + ", " + i32a("dilation_width_factor", number(r)) + ", " +
             stra("fused_activation_function", one<std::string>(r, {"NONE", "RELU", "RELU_N1_TO_1", "RELU6"})) + ", " + stra("padding", r.p(50) ? "SAME" : "VALID") + ", " +
             i32a("stride_height", number(r)) + ", " + i32a("stride_width", number(r));
        if (r.p(85)) at += ", " + i32a("pad_values", number(r));
        out = type(r, one<std::string>(r, {"f32", "i32", "!quant.uniform<i8:f32, 0.5:3>"}));
        ++lce;
        break;
      }
      case 4:
        op = "lq.BMaxPool2d", use(val(type(r, "i32"), [](const V& v) { return v.words; }));
        at = i32a("filter_height", number(r)) + ", " + i32a("filter_width", number(r)) + ", " + stra("padding", r.p(50) ? "SAME" : "VALID") + ", " +
             i32a("stride_height", number(r)) + ", " + i32a("stride_width", number(r));
        out = type(r, "i32");
        ++lce;
        break;
      case 5: {  // foreign custom operators, also with nearly the same names
        op = "tfl.custom";
        nout = r.in(1, 3);
        for (int j = r.in(0, 5); j > 0; --j) use(val(type(r, "f32"), [](const V&) { return true; }));
        std::string bytes;
        for (int j = r.in(0, 40); j > 0; --j) { char q[3]; snprintf(q, 3, "%02X", (int)r.in(0, 255)); bytes += q; }
        at = stra("custom_code", one<std::string>(r, {"TFLite_Detection_PostProcess", "FlexLceBconv2d", "LceBconv2D", "lceBconv2d", "LceBconv2d2", "LceBconv", "Quantize", "LceQuantize2", "Dequantize",
                                                      "BMaxPool2d", "LceBMaxPool2D", "", "Lce", "lq.Bconv2d", "Custom op"})) +
             ", custom_option = #tfl<const_bytes : \"0x" + bytes + "\">";
        ++foreign;
        break;
      }
      case 6:
        op = one<std::string>(r, {"tfl.relu", "tf.Identity", "unknown.op", "lqx.Quantize", "tf.LceQuantize"});
        use(val(type(r, "f32"), [](const V& v) { return v.t.find("xf32>") != std::string::npos && v.t.find("*") == std::string::npos; }));
        out = vals.empty() ? "" : it;
        break;
      default: {  // constants nobody folds
        op = "arith.constant";
        at = "value = dense<" + std::to_string(r.in(-9, 9)) + "> : tensor<3xi64>";
        out = "tensor<3xi64>";
      }
    }
    std::string res, ot;
    for (int j = 0; j < nout; ++j) {
      V v{"%v" + std::to_string(nv++), out.empty() ? type(r, r.of(kinds)) : out, false, false, false};
      v.words = v.t.find("xi32>") != std::string::npos && v.t.find('!') == std::string::npos;
      res += (j ? ", " : "") + v.n;
      ot += (j ? ", " : "") + v.t;
      if (op != "arith.constant") vals.push_back(v);
      ret += (ret.empty() ? "" : ", ") + v.n;  // everything is used
      rt += (rt.empty() ? "" : ", ") + v.t;
    }
    body += "  " + res + " = \"" + op + "\"(" + in + ") {" + at + "} : (" + it + ") -> (" + ot + ")\n";
  }
  std::string text = "func.func @f(" + args + ") -> (" + rt + ") {\n" + body + "  \"func.return\"(" + ret + ") : (" + rt + ") -> ()\n}\n";
  if (dump()) fprintf(stderr, "%s\n", text.c_str());
  Module m = ctx.parse(text);
  if (!m) return rep.Viol("harness", "generated text does not parse: " + ctx.diags + brief(text));
  rep.Count("evaluations");
  rep.Sig(text);
  auto ops = [](mlir::ModuleOp q) { std::vector<mlir::Operation*> v; for (auto& o : fn(q).getBody().front()) v.push_back(&o); return v; };
  // Operand k of an operator as (defining operator's position, result number).
  auto wire = [&](mlir::ModuleOp q) {
    std::map<mlir::Operation*, int> at;
    int i = 0;
    for (auto o : ops(q)) at[o] = i++;
    std::vector<std::vector<std::pair<int, int>>> w;
    for (auto o : ops(q)) {
      w.emplace_back();
      for (auto v : o->getOperands())
        w.back().push_back(v.getDefiningOp() ? std::make_pair(at.at(v.getDefiningOp()), (int)llvm::cast<mlir::OpResult>(v).getResultNumber())
                                             : std::make_pair(-1, (int)llvm::cast<mlir::BlockArgument>(v).getArgNumber()));
    }
    return w;
  };
  auto types = [](mlir::Operation* o) { return std::vector<mlir::Type>(o->getResultTypes().begin(), o->getResultTypes().end()); };
  // The driver moves constants to the front: operators are compared in an order that ignores it.
  auto order = [](std::vector<mlir::Operation*> v) {
    std::stable_sort(v.begin(), v.end(), [](mlir::Operation* a, mlir::Operation* b) {
      auto c = [](mlir::Operation* o) { return o->getName().getStringRef() == "arith.constant"; };
      return c(a) > c(b);
    });
    std::vector<mlir::Operation*> w;
    for (auto o : v) if (o->getName().getStringRef() != "arith.constant") w.push_back(o);
    return w;
  };
  auto operands = [&](mlir::ModuleOp q) {
    auto w = order(ops(q));
    std::map<mlir::Operation*, int> at;
    int i = 0;
    for (auto o : w) at[o] = i++;
    std::vector<std::vector<std::string>> r2;
    for (auto o : w) {
      r2.emplace_back();
      for (auto v : o->getOperands()) {
        auto d = v.getDefiningOp();
        r2.back().push_back(!d ? "a" + std::to_string(llvm::cast<mlir::BlockArgument>(v).getArgNumber())
                            : at.count(d) ? std::to_string(at[d]) + "#" + std::to_string(llvm::cast<mlir::OpResult>(v).getResultNumber())
                                          : show(d).substr(show(d).find(" = ")));
      }
    }
    return r2;
  };
  int rounds = 0;
  ctx.c.registerActionHandler([&](llvm::function_ref<void()> t, const mlir::tracing::Action& a) {
    if (a.getTag() == "GreedyPatternRewriteIteration") ++rounds;
    t();
  });
  struct Off { Ctx& c; ~Off() { c.c.registerActionHandler(nullptr); } } off{ctx};
  auto run = [&](mlir::ModuleOp q, std::unique_ptr<mlir::Pass> p, const char* which) {
    rounds = 0;
    if (!ctx.run(q, std::move(p))) { rep.Viol("invalid", std::string(which) + " fails or leaves an invalid module: " + ctx.diags + brief(text)); return false; }
    rep.Count("rounds", rounds);
    if (rounds > 4) { rep.Viol("no-fixpoint", std::string(which) + " finds something to rewrite again and again: " + brief(text)); return false; }
    return true;
  };
  Module low(m->clone());
  if (!run(*low, mlir::TFL::CreateLegalizeLCEPass(), "lowering")) return;
  // 1. Lowered: every binary operator is a custom operator on the same values.
  auto a = order(ops(*m)), b = order(ops(*low));
  if (a.size() != b.size()) return rep.Viol("lowering", "lowering changes the number of operators: " + brief(text));
  if (operands(*m) != operands(*low)) return rep.Viol("lowering", "lowering changes what operators are applied to: " + brief(text));
  for (size_t i = 0; i < a.size(); ++i) {
    std::string na = a[i]->getName().getStringRef().str();
    if (types(a[i]) != types(b[i])) return rep.Viol("lowering", "lowering changes the type of a result of " + na);
    if (llvm::StringRef(na).starts_with("lq.")) {
      auto code = b[i]->getAttrOfType<mlir::StringAttr>("custom_code");
      if (b[i]->getName().getStringRef() != "tfl.custom" || !code || code.getValue() != "Lce" + na.substr(3))
        return rep.Viol("lowering", na + " becomes " + show(b[i]));
      rep.Count("lowered_" + na.substr(3));
    } else {
      if (a[i]->getName() != b[i]->getName() || a[i]->getAttrDictionary() != b[i]->getAttrDictionary()) return rep.Viol("lowering", na + " is changed by lowering");
      rep.Count(na == "tfl.custom" ? "foreign_kept" : "ordinary_kept");
    }
  }
  // 2. Translated back: the operators one started from.
  Module back(low->clone());
  if (!run(*back, mlir::TFL::CreateTranslateToLCEPass(), "translation")) return;
  auto c = order(ops(*back));
  if (c.size() != a.size() || operands(*back) != operands(*m)) return rep.Viol("translation", "translation changes what operators are applied to: " + brief(text));
  for (size_t i = 0; i < a.size(); ++i) {
    std::string na = a[i]->getName().getStringRef().str();
    if (a[i]->getName() != c[i]->getName()) return rep.Viol("translation", na + " comes back as " + c[i]->getName().getStringRef().str());
    if (types(a[i]) != types(c[i])) return rep.Viol("translation", "the type of a result of " + na + " changes");
    mlir::NamedAttrList x(a[i]->getAttrDictionary()), y(c[i]->getAttrDictionary());
    if (na == "lq.Bconv2d" && !x.get("pad_values")) x.set("pad_values", mlir::IntegerAttr::get(mlir::IntegerType::get(&ctx.c, 32), 0));
    if (x.getDictionary(&ctx.c) != y.getDictionary(&ctx.c)) return rep.Viol("translation", na + " comes back with other attributes: " + show(a[i]) + " -> " + show(c[i]));
    if (llvm::StringRef(na).starts_with("lq.")) rep.Count("recovered_" + na.substr(3));
  }
  // 3. Lowered again: the same bytes.
  if (!run(*back, mlir::TFL::CreateLegalizeLCEPass(), "lowering")) return;
  if (show(back->getOperation()) != show(low->getOperation())) return rep.Viol("bytes", "lowering the translated operators again gives something else: " + brief(text));
  rep.Count("round_trips");
  if (lce && foreign) rep.Count("mixed_graphs");
  if (!lce) {  // nothing to translate: translation leaves it alone
    Module t(m->clone());
    if (!run(*t, mlir::TFL::CreateTranslateToLCEPass(), "translation")) return;
    rep.Count("foreign_only_graphs");
  }
  rep.Sample(brief(text, 300));
}
int main(int argc, char** argv) { return drive(argc, argv, Case); }

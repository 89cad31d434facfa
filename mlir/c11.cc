// C11: detection post-processing moved to 8-bit inputs.
#include "passes.h"
using namespace hs;

static void Case(Rng& r, Report& rep, uint64_t id) {
  Ctx& ctx = context(id);
  // The same function twice: as given, and as the property wants it.
  std::string args, body[2], ret, rt;
  int na = 0, nv = 0, moved = 0, eligible = 0;
  auto arg = [&](const std::string& t) {
    std::string v = "%a" + std::to_string(na++);
    args += (args.empty() ? "" : ", ") + v + ": " + t;
    return v;
  };
  auto result = [&](const std::string& v, const std::string& t) {
    ret += (ret.empty() ? "" : ", ") + v;
    rt += (rt.empty() ? "" : ", ") + t;
  };
  auto both = [&](const std::string& s) { body[0] += s, body[1] += s; };
  std::string what;
  struct Src { std::string v, t, fv, ft; bool good, deq; };
  std::vector<Src> pool;
  auto source = [&](int odd, const Shape& sh) {
    if (!pool.empty() && r.p(15)) return r.of(pool);
    Src s;
    s.good = s.deq = true;
    auto q = [&](double lo) {
      char b[120];
      double scale = r.p(30) ? std::ldexp(1.0, (int)r.in(-20, 4)) : (float)(r.unit() * 0.5 + lo);
      snprintf(b, 120, "!quant.uniform<i8%s:f32, %.17e:%d>", r.p(20) ? "<-127:127>" : "", scale, (int)r.in(-127, 127));
      return std::string(b);
    };
    std::string e = q(1e-4);
    int kind = r.p(odd) ? r.in(0, 8) : 9;
    s.ft = tt(sh, "f32");
    std::string name;
    switch (kind) {
      case 0: e = "f16", s.good = false, name = "f16"; break;
      case 1: {
        e = "!quant.uniform<i8:f32:" + std::to_string(sh.size() - 1) + ", {";
        for (int64_t k = 0; k < (sh.back() < 0 ? 2 : sh.back()); ++k) e += (k ? ", " : "") + std::string("0.5");
        e += "}>";
        s.good = false, name = "per-axis";
        break;
      }
      case 2: e = "!quant.uniform<u8:f32, 0.25:" + std::to_string(r.in(0, 255)) + ">", s.good = false, name = "u8"; break;
      case 3: e = "!quant.uniform<i16:f32, 0.25>", s.good = false, name = "i16"; break;
      case 4: s.deq = s.good = false, name = "float"; break;
      case 5: s.deq = s.good = false, name = "relu"; break;
      case 6: s.deq = s.good = false, name = "none"; break;
      case 7: e = "!quant.uniform<i4:f32, 0.25>", s.good = false, name = "i4"; break;
      case 8: e = "!quant.uniform<i32:f32, 0.25>", s.good = false, name = "i32"; break;
      default: name = "i8"; if (r.p(10)) s.ft = "tensor<*xf32>";
    }
    what += " " + name;
    rep.Count("source_" + name);
    if (name == "none") {
      s.fv = "%v" + std::to_string(nv++), s.ft = "none";
      both("  " + s.fv + " = \"tfl.no_value\"() {value} : () -> none\n");
    } else if (name == "float") {
      s.fv = arg(s.ft);
    } else if (name == "relu") {
      std::string x = arg(s.ft);
      s.fv = "%v" + std::to_string(nv++);
      both("  " + s.fv + " = \"tfl.relu\"(" + x + ") : (" + s.ft + ") -> " + s.ft + "\n");
    } else {
      s.t = s.ft == "tensor<*xf32>" ? "tensor<*x" + e + ">" : tt(sh, e);
      s.v = arg(s.t);
      s.fv = "%v" + std::to_string(nv++);
      both("  " + s.fv + " = \"tfl.dequantize\"(" + s.v + ") : (" + s.t + ") -> " + s.ft + "\n");
      if (r.p(10)) {  // through something else: not directly behind the dequantization
        std::string y = "%v" + std::to_string(nv++);
        both("  " + y + " = \"tfl.relu\"(" + s.fv + ") : (" + s.ft + ") -> " + s.ft + "\n");
        s.fv = y, s.deq = s.good = false;
        what += "-relu";
      }
    }
    if (s.fv[0] == '%') pool.push_back(s);
    return s;
  };
  int n = r.in(1, 3);
  for (int k = 0; k < n; ++k) {
    what += " |";
    int odd = r.p(50) ? 0 : 25;
    int64_t B = r.p(10) ? -1 : r.in(1, 3), A = r.p(10) ? -1 : r.in(1, 20), C = r.in(1, 3), D = r.in(1, 20);
    std::vector<Src> in = {source(odd, {B, A, 4}), source(odd, {B, A, C}), source(odd, {A, 4})};
    std::string code = "TFLite_Detection_PostProcess";
    bool ok = true;
    if (r.p(8)) code = one<std::string>(r, {"TFLite_Detection_PostProcess2", "TFLite_Detection", "tflite_detection_postprocess", "", "LceQuantize"}), ok = false, what += " code";
    int nin = 3, nout = 4;
    if (r.p(8)) {
      nin = one<int>(r, {0, 1, 2, 4, 5}), ok = false, what += " arity";
      while ((int)in.size() < nin) in.push_back(source(0, {A, 4}));
      in.resize(nin);
    }
    if (r.p(6)) nout = one<int>(r, {0, 1, 3, 5}), ok = false, what += " results";
    std::vector<std::string> el = {"i32", "i32", "f32", "i32"};
    if (r.p(10)) {
      el[r.in(0, 3)] = one<std::string>(r, {"i64", "f16", "i8", "!quant.uniform<i8:f32, 0.5>", "i32", "f32"});
    }
    std::vector<Shape> sh = {{B, D, 4}, {B, D}, {B, D}, {B}};
    if (el != std::vector<std::string>{"i32", "i32", "f32", "i32"}) ok = false, what += " types";
    std::vector<std::string> ot;
    for (int j = 0; j < nout; ++j) ot.push_back(tt(sh[std::min(j, 3)], el[std::min(j, 3)]));
    bool unranked = false;
    if (nout && r.p(6)) { int j = r.in(0, nout - 1); ot[j] = "tensor<*x" + el[std::min(j, 3)] + ">", unranked = true, what += " unranked"; }
    for (auto& s : in) ok = ok && s.good;
    std::string bytes;
    for (int j = r.in(0, 30); j > 0; --j) { char q[3]; snprintf(q, 3, "%02X", (int)r.in(0, 255)); bytes += q; }
    std::string attrs = stra("custom_code", code) + ", custom_option = #tfl<const_bytes : \"0x" + bytes + "\">";
    std::string id0 = std::to_string(nv++);
    auto emit = [&](bool eight) {
      std::string a, at, res, rts;
      for (auto& s : in) a += (a.empty() ? "" : ", ") + (eight ? s.v : s.fv), at += (at.empty() ? "" : ", ") + (eight ? s.t : s.ft);
      std::string scores;
      for (int j = 0; j < nout; ++j) {
        bool sc = eight && j == 2;
        std::string t = ot[j];
        if (sc) {
          std::string e = in[1].t.substr(in[1].t.find("!quant"));
          e.pop_back();
          if (size_t p = e.find("<-127:127>"); p != std::string::npos) e.erase(p, 10);
          t = t.substr(0, t.rfind("f32")) + e + ">";
          scores = "  %r" + id0 + "_2 = \"tfl.dequantize\"(%r" + id0 + "_q) : (" + t + ") -> " + ot[j] + "\n";
        }
        res += (j ? ", " : "") + std::string("%r") + id0 + "_" + (sc ? "q" : std::to_string(j));
        rts += (j ? ", " : "") + t;
      }
      return "  " + res + (nout ? " = " : "") + "\"tfl.custom\"(" + a + ") {" + attrs + "} : (" + at + ") -> (" + rts + ")\n" + scores;
    };
    body[0] += emit(false);
    bool move = ok && !unranked;
    body[1] += emit(move);
    if (ok && unranked) ++eligible;
    moved += move;
    rep.Count(move ? "to_move" : "to_stay");
    for (int j = 0; j < nout; ++j)
      if (r.p(85)) result("%r" + id0 + "_" + std::to_string(j), ot[j]);
    if (nout > 2 && r.p(20) && ot[2].find("f32") != std::string::npos && ot[2].find('!') == std::string::npos) {
      std::string y = "%v" + std::to_string(nv++);
      both("  " + y + " = \"tfl.relu\"(%r" + id0 + "_2) : (" + ot[2] + ") -> " + ot[2] + "\n");
      result(y, ot[2]);
    }
  }
  for (auto& s : pool)
    if (r.p(20)) result(s.fv, s.ft);  // also needed as floats
  auto text = [&](int k) { return "func.func @f(" + args + ") -> (" + rt + ") {\n" + body[k] + "  \"func.return\"(" + ret + ") : (" + rt + ") -> ()\n}\n"; };
  if (dump()) fprintf(stderr, "%s\n%s\n", text(0).c_str(), text(1).c_str());
  Module m = ctx.parse(text(0));
  if (!m) return rep.Viol("harness", "generated text does not parse: " + ctx.diags + brief(text(0)));
  Module want = ctx.parse(text(1));
  if (!want) return rep.Viol("harness", "expected text does not parse: " + ctx.diags + brief(text(1)));
  rep.Count("evaluations");
  rep.Sig(text(0));
  if (!ctx.run(*m, mlir::TFL::QuantizeDetectionPostProcessPass())) return rep.Viol("invalid", "the pass fails or leaves an invalid module: " + ctx.diags + brief(text(0)));
  // What a value is, spelled out; operators with effects and results, in order.
  std::map<mlir::Operation*, std::string> names;
  std::function<std::string(mlir::Value)> spell = [&](mlir::Value v) -> std::string {
    std::string s;
    llvm::raw_string_ostream os(s);
    if (auto a = llvm::dyn_cast<mlir::BlockArgument>(v)) { os << "a" << a.getArgNumber(); return os.str(); }
    auto o = v.getDefiningOp();
    auto res = llvm::cast<mlir::OpResult>(v).getResultNumber();
    if (names.count(o)) return names[o] + "#" + std::to_string(res);
    os << o->getName().getStringRef() << o->getAttrDictionary() << "(";
    for (auto x : o->getOperands()) os << spell(x) << ",";
    os << ")#" << res << ":" << v.getType();
    return os.str();
  };
  auto all = [&](mlir::ModuleOp q) {
    std::vector<std::string> v;
    names.clear();
    int k = 0;
    for (auto& o : fn(q).getBody().front()) {
      bool effect = o.getName().getStringRef() == "tfl.custom";
      if (!effect && o.getName().getStringRef() != "func.return") continue;
      std::string s;
      llvm::raw_string_ostream os(s);
      os << o.getName().getStringRef() << o.getAttrDictionary() << "(";
      for (auto x : o.getOperands()) os << spell(x) << ":" << x.getType() << ",";
      os << ")";
      for (auto t : o.getResultTypes()) os << t << ",";
      v.push_back(os.str());
      if (effect) names[&o] = "c" + std::to_string(k++);
    }
    return v;
  };
  auto x = all(*m), y = all(*want);
  if (x.size() != y.size()) return rep.Viol("operators", "operators appear or disappear: " + what);
  for (size_t k = 0; k < x.size(); ++k)
    if (x[k] != y[k]) return rep.Viol("result", "got " + brief(x[k], 700) + " instead of " + brief(y[k], 700) + " -- " + what);
  rep.Count("operators_compared", x.size());
  if (moved) rep.Count("graphs_with_moves"); else rep.Count("graphs_untouched");
  rep.Sample(what);
}
int main(int argc, char** argv) { return drive(argc, argv, Case); }

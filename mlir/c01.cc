// C01: what the batch-size pass does to functions, compared with what it says it does.
#include "harness.h"
namespace mlir { std::unique_ptr<OperationPass<func::FuncOp>> CreateSetBatchSizePass(); }
using namespace hs;

static std::string elementType(Rng& r) {
  return one<std::string>(r, {"f32", "f32", "f32", "i32", "i1", "i8", "f16", "i64", "complex<f32>", "!quant.uniform<i8:f32, 0.5:3>", "ui8", "index", "si16", "!test.thing"});
}
static std::string randomType(Rng& r, int depth = 0) {
  int k = r.in(0, 19);
  auto dims = [&](int lo, int hi, int dynPct) {
    std::string s;
    for (int n = r.in(lo, hi), i = 0; i < n; ++i) s += (r.p(dynPct) ? "?" : std::to_string(r.in(0, 9) ? r.in(1, 64) : 0)) + "x";
    return s;
  };
  if (k <= 9) return "tensor<" + dims(0, 6, 45) + elementType(r) + ">";
  if (k <= 11) return "tensor<?x" + dims(0, 4, 40) + elementType(r) + ">";
  if (k == 12) return "tensor<" + dims(1, 4, 60) + "f32, " + one<std::string>(r, {"\"layout\"", "7 : i32", "[1, 2]", "{a = 1 : i32}"}) + ">";
  if (k == 13) return "tensor<*x" + elementType(r) + ">";
  if (k == 14) return "memref<" + dims(1, 4, 60) + "f32>";
  if (k == 15) return r.p(50) ? "vector<4xf32>" : "vector<[4]x2xf32>";
  if (k == 16) return one<std::string>(r, {"i32", "f32", "index", "none", "!test.handle", "memref<*xf32>"});
  if (k == 17 && depth < 2) return "tuple<" + randomType(r, depth + 1) + ", " + randomType(r, depth + 1) + ">";
  if (k == 18 && depth < 2) return "(" + randomType(r, depth + 1) + ") -> " + "tensor<?xf32>";
  return "tensor<?x" + std::to_string(r.in(1, 9)) + "xf32>";
}

struct Writer {
  Rng& r;
  int n = 0;
  std::string body;
  std::vector<std::pair<std::string, std::string>> vals;
  void ops(int count, int depth, const std::string& ind) {
    for (int i = 0; i < count; ++i) {
      std::string ins, its, outs, ots;
      int k = vals.empty() ? 0 : r.in(0, 3);
      for (int j = 0; j < k; ++j) {
        auto v = r.of(vals);
        ins += (j ? ", " : "") + v.first;
        its += (j ? ", " : "") + v.second;
      }
      int m = r.in(0, 2);
      std::vector<std::pair<std::string, std::string>> made;
      std::string id = "%v" + std::to_string(n++);
      for (int j = 0; j < m; ++j) {
        std::string t = randomType(r);
        made.push_back({m == 1 ? id : id + "#" + std::to_string(j), t});
        ots += (j ? ", " : "") + t;
      }
      std::string attrs = one<std::string>(r, {"", "a = 1 : i32", "t = tensor<?x4xf32>", "s = \"?x?\"", "v = dense<[1, 2]> : tensor<2xi32>, q"});
      body += ind + (m ? id + (m > 1 ? ":" + std::to_string(m) : "") + " = " : "") + "\"test.op" + std::to_string(r.in(0, 3)) + "\"(" + ins + ")";
      if (depth < 2 && r.p(15)) {
        auto keep = vals;
        std::string b = "%b" + std::to_string(n++), t = randomType(r);
        body += " ({\n" + ind + "^bb0(" + b + ": " + t + "):\n";
        vals.push_back({b, t});
        ops(r.in(0, 2), depth + 1, ind + "  ");
        body += ind + "  \"test.yield\"() : () -> ()\n" + ind + "})";
        vals = keep;
      }
      body += " {" + attrs + "} : (" + its + ") -> (" + ots + ")\n";
      for (auto& v : made) vals.push_back(v);
    }
  }
};

static std::string randomModule(Rng& r) {
  std::string s = "module {\n";
  for (int f = 0, nf = r.in(1, 3); f < nf; ++f) {
    int na = r.in(0, 5);
    std::string args, types, name = "f" + std::to_string(f);
    Writer w{r};
    bool decl = r.p(15);
    for (int i = 0; i < na; ++i) {
      std::string t = randomType(r), v = "%a" + std::to_string(i);
      std::string attr = r.p(20) ? " {tf.index = " + std::to_string(i) + " : i64, test.t = tensor<?x2xf32>}" : "";
      args += (i ? ", " : "") + (decl ? t : v + ": " + t) + attr;
      w.vals.push_back({v, t});
    }
    std::string attrs = r.p(40) ? " attributes {tf.entry_function = {inputs = \"x\", outputs = \"y\"}, test.n = 3 : i32}" : "";
    if (decl) {
      s += "func.func private @" + name + "(" + args + ") -> (" + (r.p(50) ? randomType(r) : "") + ")" + attrs + "\n";
      continue;
    }
    w.ops(r.in(0, 6), 0, "  ");
    bool blocks = r.p(20);
    if (blocks) {
      std::string t = randomType(r);
      auto src = "%z" + std::to_string(f);
      w.body += "  " + src + " = \"test.make\"() : () -> (" + t + ")\n  \"test.br\"(" + src + ")[^bb1] : (" + t + ") -> ()\n^bb1(%y: " + t + "):\n";
      w.vals.push_back({"%y", t});
      w.ops(r.in(0, 2), 0, "  ");
    }
    std::string rets, rts;
    int nr = w.vals.empty() ? 0 : r.in(0, 3);
    for (int i = 0; i < nr; ++i) {
      auto v = r.of(w.vals);
      rets += (i ? ", " : "") + v.first;
      rts += (i ? ", " : "") + v.second;
    }
    s += std::string("func.func ") + (r.p(20) ? "private " : "") + "@" + name + "(" + args + ") -> (" + rts + ")" + attrs + " {\n" + w.body +
         "  \"func.return\"(" + rets + ") : (" + rts + ") -> ()\n}\n";
  }
  return s + "}\n";
}

static mlir::Type expected(mlir::Type t) {
  auto s = llvm::dyn_cast<mlir::RankedTensorType>(t);
  if (!s || s.getRank() == 0 || s.getShape()[0] != mlir::ShapedType::kDynamic) return t;
  std::vector<int64_t> d(s.getShape().begin(), s.getShape().end());
  d[0] = 1;
  return mlir::RankedTensorType::get(d, s.getElementType(), s.getEncoding());
}

// "" when `b` is `a` with the entry arguments of functions changed as expected.
static std::string same(mlir::Operation* a, mlir::Operation* b, std::map<void*, void*>& m, bool isFn) {
  if (a->getName() != b->getName()) return "an operation changed";
  if (a->getLoc() != b->getLoc()) return "a location changed";
  std::map<std::string, mlir::Attribute> x, y;
  for (auto n : a->getAttrs()) x[n.getName().str()] = n.getValue();
  for (auto n : b->getAttrs()) y[n.getName().str()] = n.getValue();
  if (isFn) {
    auto f = llvm::cast<mlir::func::FuncOp>(a), g = llvm::cast<mlir::func::FuncOp>(b);
    // Results stay, apart from those that are inputs handed back.
    std::vector<mlir::Type> results(f.getFunctionType().getResults());
    f.walk([&](mlir::func::ReturnOp ret) {
      for (unsigned i = 0; i < ret.getNumOperands(); ++i)
        if (auto arg = llvm::dyn_cast<mlir::BlockArgument>(ret.getOperand(i)))
          if (arg.getOwner() == &f.getBody().front()) results[i] = expected(arg.getType());
    });
    if (g.getFunctionType().getResults() != llvm::ArrayRef<mlir::Type>(results)) return "the results changed";
    if (f.getNumArguments() != g.getNumArguments()) return "the number of inputs changed";
    for (unsigned i = 0; i < f.getNumArguments(); ++i) {
      mlir::Type e = expected(f.getFunctionType().getInput(i));
      auto pr = [](mlir::Type t) { std::string s; llvm::raw_string_ostream o(s); t.print(o); return o.str(); };
      if (g.getFunctionType().getInput(i) != e) return "input " + std::to_string(i) + " is " + pr(g.getFunctionType().getInput(i)) + ", not " + pr(e);
      if (!g.isExternal() && g.getArgument(i).getType() != e)
        return "entry argument " + std::to_string(i) + " is " + pr(g.getArgument(i).getType()) + ", not " + pr(e);
    }
    x.erase("function_type"), y.erase("function_type");
  }
  if (x != y) return "attributes changed";
  if (a->getNumOperands() != b->getNumOperands() || a->getNumResults() != b->getNumResults()) return "an operation's arity changed";
  for (unsigned i = 0; i < a->getNumOperands(); ++i)
    if (m[a->getOperand(i).getAsOpaquePointer()] != b->getOperand(i).getAsOpaquePointer()) return "an operand changed";
  for (unsigned i = 0; i < a->getNumResults(); ++i) {
    if (a->getResult(i).getType() != b->getResult(i).getType()) return "a result type changed";
    m[a->getResult(i).getAsOpaquePointer()] = b->getResult(i).getAsOpaquePointer();
  }
  if (a->getNumRegions() != b->getNumRegions() || a->getNumSuccessors() != b->getNumSuccessors()) return "regions changed";
  for (unsigned i = 0; i < a->getNumRegions(); ++i) {
    auto &p = a->getRegion(i), &q = b->getRegion(i);
    if (p.getBlocks().size() != q.getBlocks().size()) return "blocks changed";
    for (auto it = p.begin(), jt = q.begin(); it != p.end(); ++it, ++jt) {
      if (it->getNumArguments() != jt->getNumArguments()) return "block arguments changed";
      for (unsigned k = 0; k < it->getNumArguments(); ++k) {
        if (!(isFn && it == p.begin()) && it->getArgument(k).getType() != jt->getArgument(k).getType()) return "a block argument's type changed";
        m[it->getArgument(k).getAsOpaquePointer()] = jt->getArgument(k).getAsOpaquePointer();
      }
      if (it->getOperations().size() != jt->getOperations().size()) return "operations were added or removed";
      for (auto o = it->begin(), u = jt->begin(); o != it->end(); ++o, ++u) {
        std::string e = same(&*o, &*u, m, llvm::isa<mlir::func::FuncOp>(*o));
        if (!e.empty()) return e;
      }
    }
  }
  return "";
}

static void Case(Rng& r, Report& rep, uint64_t id) {
  static mlir::DialectRegistry reg;
  static bool once = (reg.insert<mlir::func::FuncDialect, mlir::arith::ArithDialect, mlir::quant::QuantizationDialect>(), true);
  (void)once;
  static std::unique_ptr<Ctx> ctx;
  if (!ctx || id % 64 == 0) ctx = std::make_unique<Ctx>(reg);
  std::string text = randomModule(r);
  if (dump()) fprintf(stderr, "%s\n", text.c_str());
  Module m = ctx->parse(text);
  if (!m) return rep.Viol("harness", "generated text does not parse: " + ctx->diags + text.substr(0, 300));
  mlir::OwningOpRef<mlir::ModuleOp> before(m->clone());
  if (!ctx->run(*m, mlir::CreateSetBatchSizePass(), true)) return rep.Viol("pass-fails", "the pass fails: " + ctx->diags + " -- " + text.substr(0, 500));
  std::map<void*, void*> map;
  rep.Count("evaluations");
  rep.Sig(text);
  bool hit = false;
  before->walk([&](mlir::func::FuncOp f) {
    rep.Count(f.isExternal() ? "declarations" : "functions");
    for (auto t : f.getFunctionType().getInputs()) {
      bool c = expected(t) != t;
      rep.Count(c ? "inputs_expected_to_change" : "inputs_expected_to_stay");
      hit |= c;
    }
    f.walk([&](mlir::func::ReturnOp ret) {
      for (auto v : ret.getOperands())
        if (llvm::isa<mlir::BlockArgument>(v) && expected(v.getType()) != v.getType()) rep.Count("returned_inputs_expected_to_change");
    });
  });
  std::string e = same(*before, *m, map, false);
  if (!e.empty()) return rep.Viol("changed", e + " -- " + text.substr(0, 500));
  std::string first = show(*m);
  if (!ctx->run(*m, mlir::CreateSetBatchSizePass(), false)) return rep.Viol("second-run-fails", "the pass fails on its own result");
  if (show(*m) != first) return rep.Viol("not-idempotent", "a second application changes the result: " + text.substr(0, 400));
  if (hit) rep.Sample(text.substr(0, 200));
}
int main(int argc, char** argv) { return drive(argc, argv, Case); }

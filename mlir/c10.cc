// C10: what is left of a function once pass-through operators are gone, compared operator
// by operator with the original.
#include "passes.h"
using namespace hs;
using mlir::Operation;
using mlir::Value;

static const std::set<std::string> kPass = {"tf.Identity", "tf.IdentityN", "tf.Snapshot", "tf.StopGradient", "tf.PlaceholderWithDefault", "tf.CheckNumerics"};
static std::string nameOf(Operation* o) { return o->getName().getStringRef().str(); }
static bool same(Operation* o) {
  for (unsigned i = 0; i < o->getNumResults(); ++i) if (o->getResult(i).getType() != o->getOperand(i).getType()) return false;
  return true;
}
static bool passes(Operation* o) { return kPass.count(nameOf(o)) && same(o); }
static bool constant(Operation* o) { return nameOf(o) == "tf.Const" || nameOf(o) == "arith.constant"; }
static bool plain(Operation* o) {
  auto t = llvm::dyn_cast<mlir::ShapedType>(o->getResult(0).getType());
  return llvm::isa<mlir::DenseElementsAttr>(o->getAttr("value")) && t && t.hasStaticShape();
}
static Value source(Value v) {
  while (auto d = v.getDefiningOp()) {
    if (!passes(d)) break;
    v = d->getOperand(llvm::cast<mlir::OpResult>(v).getResultNumber());
  }
  return v;
}

struct Match {
  std::string err;
  std::map<void*, Value> is;  // value of the original -> value of the result
  std::set<Operation*> live;
  long removed = 0, constants = 0, kept = 0, casts = 0;

  void mark(Operation* o) {
    if (!live.insert(o).second) return;
    auto use = [&](Operation* q) { for (auto v : q->getOperands()) if (auto d = source(v).getDefiningOp()) mark(d); };
    use(o);
  }
  void roots(mlir::Block& b) {
    for (auto& o : b) {
      bool pure = mlir::isMemoryEffectFree(&o) || kPass.count(nameOf(&o));
      if (o.hasTrait<mlir::OpTrait::IsTerminator>() || (!pure && !passes(&o))) mark(&o);
      for (auto& r : o.getRegions()) for (auto& c : r) roots(c);
    }
  }
  void fail(const std::string& s) { if (err.empty()) err = s; }
  void operand(Value b, Value a, const std::string& at) {
    b = source(b);
    auto db = b.getDefiningOp(), da = a.getDefiningOp();
    if (a.getType() != b.getType()) return fail("the type of an operand of " + at + " changed");
    if (db && constant(db)) {
      if (!da || !constant(da)) return fail("a constant operand of " + at + " is something else now");
      if (da->getAttr("value") != db->getAttr("value")) return fail("a constant operand of " + at + " changed its value");
      if (plain(db) && nameOf(da) != "arith.constant") return fail("a static constant is left as it was");
      if (!plain(db) && nameOf(da) != nameOf(db)) return fail("a constant that is not dense and static was turned into a plain one");
      ++constants;
      return;
    }
    auto i = is.find(b.getAsOpaquePointer());
    if (i == is.end() || i->second != a) fail("an operand of " + at + " is another value now");
  }
  void block(mlir::Block& b, mlir::Block& a) {
    if (b.getNumArguments() != a.getNumArguments()) return fail("block arguments changed");
    for (unsigned i = 0; i < b.getNumArguments(); ++i) {
      if (b.getArgument(i).getType() != a.getArgument(i).getType()) return fail("the type of an argument changed");
      is[b.getArgument(i).getAsOpaquePointer()] = a.getArgument(i);
    }
    auto skipA = [&](Operation* o) { return constant(o); };
    auto i = b.begin(), ie = b.end();
    auto j = a.begin(), je = a.end();
    while (err.empty()) {
      while (i != ie && (passes(&*i) || constant(&*i) || !live.count(&*i))) removed += passes(&*i), ++i;
      while (j != je && skipA(&*j)) ++j;
      if (i == ie || j == je) {
        if (i != ie) fail(nameOf(&*i) + " is gone");
        if (j != je) fail(nameOf(&*j) + (kPass.count(nameOf(&*j)) ? " is left" : " is new"));
        return;
      }
      Operation *x = &*i, *y = &*j;
      std::string n = nameOf(x);
      bool cast = kPass.count(n);
      if (nameOf(y) != n && !(cast && nameOf(y) == "tf.Identity")) return fail(kPass.count(nameOf(y)) ? nameOf(y) + " is left" : n + " became " + nameOf(y));
      if (!cast && x->getAttrDictionary() != y->getAttrDictionary()) return fail("attributes of " + n + " changed");
      if (x->getNumOperands() != y->getNumOperands() || x->getNumResults() != y->getNumResults() || x->getNumRegions() != y->getNumRegions())
        return fail("the operands, results or regions of " + n + " changed");
      for (unsigned k = 0; k < x->getNumOperands(); ++k) operand(x->getOperand(k), y->getOperand(k), n);
      for (unsigned k = 0; k < x->getNumResults(); ++k) {
        if (x->getResult(k).getType() != y->getResult(k).getType()) return fail("the type of a result of " + n + " changed");
        is[x->getResult(k).getAsOpaquePointer()] = y->getResult(k);
      }
      for (unsigned k = 0; k < x->getNumRegions(); ++k) {
        auto &rb = x->getRegion(k), &ra = y->getRegion(k);
        if (rb.getBlocks().size() != ra.getBlocks().size()) return fail("blocks of " + n + " changed");
        auto bi = rb.begin();
        auto ai = ra.begin();
        for (; bi != rb.end(); ++bi, ++ai) block(*bi, *ai);
      }
      ++kept;
      if (cast) ++casts;
      ++i, ++j;
    }
  }
};

struct Gen {
  Rng& r;
  std::set<std::string>& what;
  int n = 0;
  struct V { std::string name, type; };
  std::string pick() {
    switch (r.in(0, 9)) {
      case 0: return "tensor<f32>";
      case 1: return "tensor<3xf32>";
      case 2: return "tensor<?xf32>";
      case 3: return "tensor<*xf32>";
      case 4: return "tensor<2x?xi32>";
      case 5: return "tensor<2x3xi1>";
      case 6: return "tensor<1x2xi64>";
      case 7: return "tensor<2x2xbf16>";
      default: return "tensor<2x3xf32>";
    }
  }
  // A type a value of type t may be viewed as (more or fewer known sizes).
  std::string view(const std::string& t) {
    std::string q = t.substr(7, t.size() - 8), e;
    size_t x = q.find_last_of('x');
    e = x == std::string::npos ? q : q.substr(x + 1);
    if (x == std::string::npos || r.p(30)) return "tensor<*x" + e + ">";
    std::string dims = q.substr(0, x), out;
    if (dims == "*") return "tensor<?x3x" + e + ">";
    std::stringstream ss(dims);
    for (std::string d; std::getline(ss, d, 'x');) out += (r.p(50) ? "?" : d == "?" ? "3" : d) + "x";
    return "tensor<" + out + e + ">";
  }
  std::string cst(std::vector<V>& vs) {
    std::string nm = "%c" + std::to_string(n++), t, v;
    switch (r.in(0, 11)) {
      case 0: t = "tensor<3xf32>", v = "dense<\"0x0000C07F010080FF00000080\">"; break;   // NaNs with payload, -0
      case 1: t = "tensor<2xi32>", v = "dense<[" + std::to_string(r.in(-5, 5)) + ", 7]>"; break;
      case 2: t = "tensor<f32>", v = "dense<" + std::to_string(r.in(-2, 2)) + ".5>"; break;
      case 3: t = "tensor<2x2xi1>", v = "dense<[[true, false], [false, true]]>"; break;
      case 4: t = "tensor<4xi8>", v = "dense<[-128, 127, 0, 1]>"; break;
      case 5: t = "tensor<2xui8>", v = "dense<[255, 0]>"; break;
      case 6: t = "tensor<2xcomplex<f32>>", v = "dense<[(1.0, 2.0), (0.0, -1.0)]>"; break;
      case 7: t = "tensor<0x3xf32>", v = "dense<>"; break;
      case 8: t = "tensor<5xf64>", v = "dense<0.1>"; break;
      case 9: t = "tensor<2x3xf16>", v = "dense<1.5>"; break;
      case 10: t = "tensor<3x3xf32>", v = "sparse<[[0, 0], [1, 2]], [1.0, -5.0]>"; what.insert("sparse"); break;
      default: t = "tensor<2x3xf32>", v = "dense<" + std::to_string(r.in(-9, 9)) + ".0>";
    }
    std::string rt = t;
    if (r.p(8) && t.find("complex") == std::string::npos) rt = "tensor<*x" + t.substr(t.find_last_of("x<") + 1), what.insert("undeclared_constant");
    std::string op = r.p(90) ? "tf.Const" : "arith.constant";
    if (op == "arith.constant") rt = t;
    std::string l = nm + " = \"" + op + "\"() {value = " + v + " : " + t + "} : () -> " + rt + "\n";
    vs.push_back({nm, rt});
    return l;
  }
  std::string body(std::vector<V> vs, int count, int depth, std::vector<V>* out = nullptr) {
    std::string s;
    for (int k = 0; k < count; ++k) {
      int c = r.in(0, 19);
      auto v = [&]() -> V { return r.p(50) ? vs.back() : vs[r.in(0, vs.size() - 1)]; };
      std::string id = "%v" + std::to_string(n++);
      if (c < 3) { s += cst(vs); continue; }
      if (c < 10) {
        V x = v();
        std::string op = one<std::string>(r, {"tf.Identity", "tf.Identity", "tf.Snapshot", "tf.StopGradient", "tf.PlaceholderWithDefault", "tf.CheckNumerics"});
        std::string t = x.type;
        if (r.p(6) && t.find("complex") == std::string::npos) t = view(t);
        what.insert(t == x.type ? op : "cast");
        s += id + " = \"" + op + "\"(" + x.name + ") {" + (op == "tf.CheckNumerics" ? "message = \"m\"" : r.p(30) ? "device = \"/cpu\"" : "") + "} : (" + x.type + ") -> " + t + "\n";
        vs.push_back({id, t});
      } else if (c < 13) {
        int w = r.in(r.p(10) ? 0 : 1, 4);
        std::string in, it, ot;
        std::vector<V> o;
        bool cast = r.p(5);
        for (int i = 0; i < w; ++i) {
          V x = v();
          std::string t = cast && r.p(40) && x.type.find("complex") == std::string::npos ? view(x.type) : x.type;
          in += (i ? ", " : "") + x.name, it += (i ? ", " : "") + x.type, ot += (i ? ", " : "") + t;
          o.push_back({id + "#" + std::to_string(i), t});
        }
        what.insert("tf.IdentityN");
        if (w == 0) s += "\"tf.IdentityN\"() {} : () -> ()\n";
        else s += id + ":" + std::to_string(w) + " = \"tf.IdentityN\"(" + in + ") {} : (" + it + ") -> (" + ot + ")\n";
        for (auto& q : o) vs.push_back(q);
      } else if (c < 16) {
        V x = v();
        s += id + " = \"" + one<std::string>(r, {"tf.Relu", "tf.Sign", "tf.Neg"}) + "\"(" + x.name + ") {} : (" + x.type + ") -> " + x.type + "\n";
        vs.push_back({id, x.type});
      } else if (c < 18 || depth >= 2) {
        V x = v(), y = v();
        std::string t = pick();
        s += id + " = \"test.unknown\"(" + x.name + ", " + y.name + ") {a = " + std::to_string(r.in(0, 9)) + " : i32} : (" + x.type + ", " + y.type + ") -> " + t + "\n";
        vs.push_back({id, t});
      } else {
        V x = v();
        std::string t = pick();
        std::vector<V> inner = vs, last;
        std::string b = "%b" + std::to_string(n++);
        inner.push_back({b, x.type});
        s += id + " = \"test.region\"(" + x.name + ") ({\n^bb0(" + b + ": " + x.type + "):\n";
        s += body(inner, r.in(1, 4), depth + 1, &last);
        s += "\"test.yield\"(" + last.back().name + ") : (" + last.back().type + ") -> ()\n}) {k} : (" + x.type + ") -> " + t + "\n";
        vs.push_back({id, t});
        what.insert("region");
      }
    }
    if (out) *out = vs;
    return s;
  }
};

static void Case(Rng& r, Report& rep, uint64_t id) {
  Ctx& ctx = context(id);
  std::set<std::string> what;
  Gen g{r, what};
  std::vector<Gen::V> vs, all;
  std::string args, rt, rv;
  int na = r.in(1, 3);
  for (int k = 0; k < na; ++k) {
    vs.push_back({"%a" + std::to_string(k), g.pick()});
    args += (k ? ", " : "") + vs.back().name + ": " + vs.back().type;
  }
  std::string b = g.body(vs, r.in(1, 12), 0, &all);
  int nr = r.in(0, 4);
  for (int k = 0; k < nr; ++k) {
    auto& v = r.p(40) ? all.back() : all[r.in(0, all.size() - 1)];
    rt += (k ? ", " : "") + v.type, rv += (k ? ", " : "") + v.name;
  }
  std::string text = "func.func @f(" + args + ") -> (" + rt + ") {\n" + b + "\"func.return\"(" + rv + ") : (" + rt + ") -> ()\n}\n";
  if (dump()) fprintf(stderr, "%s\n", text.c_str());
  Module m = ctx.parse(text);
  if (!m) return rep.Viol("harness", "generated text does not parse: " + ctx.diags + brief(text));
  Module before(m->clone());
  rep.Count("evaluations");
  rep.Sig(text);
  if (!ctx.run(*m, mlir::TFL::CreateOpRemovalPass())) return rep.Viol("invalid", "the pass fails or leaves an invalid module: " + ctx.diags + brief(text));
  auto fb = fn(*before), fa = fn(*m);
  if (fb->getAttrDictionary() != fa->getAttrDictionary()) return rep.Viol("changed", "the function's type or attributes changed");
  Match match;
  match.roots(fb.getBody().front());
  match.block(fb.getBody().front(), fa.getBody().front());
  if (!match.err.empty()) return rep.Viol("changed", match.err + " -- " + brief(text) + " AFTER " + brief(show(*m)));
  rep.Count("removed", match.removed);
  rep.Count("operators_compared", match.kept);
  rep.Count("constants_compared", match.constants);
  rep.Count("kept_changing_type", match.casts);
  std::string w;
  for (auto& k : what) rep.Count("with_" + k), w += k + " ";
  rep.Sample(w);
}
int main(int argc, char** argv) { return drive(argc, argv, Case); }

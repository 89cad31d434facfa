// What the pass harnesses share: a random source, a writer of IR text, running passes
// over parsed modules with the diagnostics recorded, and comparing what graphs compute.
#ifndef VERIF_MLIR_HARNESS_H_
#define VERIF_MLIR_HARNESS_H_
#include <memory>
#include <set>
#include <sstream>
#include "../kernels/report.h"
#include "mlir/IR/Diagnostics.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/IR/OwningOpRef.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/Pass.h"
#include "mlir/Pass/PassManager.h"
#include "vm.h"

namespace hs {
using verif::Report;
using Shape = std::vector<int64_t>;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; ++i) next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int64_t in(int64_t a, int64_t b) { return a + (int64_t)(next() % (uint64_t)(b - a + 1)); }
  bool p(int pct) { return (int)(next() % 100) < pct; }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
  template <class X> const X& of(const std::vector<X>& v) { return v[next() % v.size()]; }
};
template <class X> X one(Rng& r, std::initializer_list<X> l) { return *(l.begin() + r.next() % l.size()); }

inline std::string tt(const Shape& s, const std::string& e) {
  std::string r = "tensor<";
  for (auto d : s) r += (d < 0 ? std::string("?") : std::to_string(d)) + "x";
  return r + e + ">";
}
inline int64_t elems(const Shape& s) { int64_t k = 1; for (auto d : s) k *= d; return k; }

// dense<...> of the values, nested as the shape wants; floats as hexadecimal blobs.
inline std::string dense(const std::vector<double>& v, const Shape& s, const std::string& e) {
  std::string t = tt(s, e);
  if (elems(s) == 0) return "dense<> : " + t;
  auto lit = [&](double x) -> std::string {
    char b[64];
    if (e == "i1") return x ? "true" : "false";
    if (e[0] == 'i' || e[0] == 'u') { snprintf(b, 64, "%lld", (long long)x); return b; }
    if (e == "f64") { uint64_t u; memcpy(&u, &x, 8); snprintf(b, 64, "0x%016llX", (unsigned long long)u); return b; }
    if (e == "f32") { float f = (float)x; uint32_t u; memcpy(&u, &f, 4); snprintf(b, 64, "0x%08X", u); return b; }
    snprintf(b, 64, "%.17e", x);
    return b;
  };
  if (e == "f32" && v.size() > 1) {
    std::string h = "dense<\"0x";
    for (double x : v) {
      float f = (float)x;
      unsigned char b[4];
      memcpy(b, &f, 4);
      for (int i = 0; i < 4; ++i) { char q[3]; snprintf(q, 3, "%02X", b[i]); h += q; }
    }
    return h + "\"> : " + t;
  }
  std::function<std::string(size_t, size_t&)> nest = [&](size_t d, size_t& k) -> std::string {
    if (d == s.size()) return lit(v[k++]);
    std::string r = "[";
    for (int64_t i = 0; i < s[d]; ++i) r += (i ? ", " : "") + nest(d + 1, k);
    return r + "]";
  };
  size_t k = 0;
  return "dense<" + nest(0, k) + "> : " + t;
}

// A function being written.
struct Fn {
  struct Val { Shape shape; std::string e; };
  std::map<std::string, Val> t;
  std::string args, body, name = "f", fattrs;
  int n = 0, na = 0;
  std::vector<std::string> rets;
  static std::string type(const Val& v) { return v.e == "none" ? "none" : tt(v.shape, v.e); }
  std::string arg(const Shape& s, const std::string& e) {
    std::string v = "%a" + std::to_string(na++);
    t[v] = {s, e};
    args += (args.empty() ? "" : ", ") + v + ": " + type(t[v]);
    return v;
  }
  std::vector<std::string> ops(const std::string& op, const std::vector<std::string>& in, const std::string& attrs, const std::vector<Val>& out) {
    std::vector<std::string> r;
    std::string l = "  ", ot, it;
    for (size_t i = 0; i < out.size(); ++i) {
      std::string v = "%v" + std::to_string(n++);
      t[v] = out[i];
      r.push_back(v);
      l += (i ? ", " : "") + v;
      ot += (i ? ", " : "") + type(out[i]);
    }
    l += (out.empty() ? "\"" : " = \"") + op + "\"(";
    for (size_t i = 0; i < in.size(); ++i) {
      l += (i ? ", " : "") + in[i];
      it += (i ? ", " : "") + type(t.at(in[i]));
    }
    body += l + ") {" + attrs + "} : (" + it + ") -> (" + ot + ")\n";
    return r;
  }
  std::string op(const std::string& o, const std::vector<std::string>& in, const std::string& attrs, const Shape& s, const std::string& e) {
    return ops(o, in, attrs, {{s, e}})[0];
  }
  std::string cst(const std::vector<double>& v, const Shape& s, const std::string& e, bool tf = false) {
    return op(tf ? "tf.Const" : "arith.constant", {}, "value = " + dense(v, s, e), s, e);
  }
  std::string none() { return op("tfl.no_value", {}, "value", {}, "none"); }
  void ret(const std::string& v) { rets.push_back(v); }
  std::string text() const {
    std::string rt, rv;
    for (size_t i = 0; i < rets.size(); ++i) {
      rt += (i ? ", " : "") + type(t.at(rets[i]));
      rv += (i ? ", " : "") + rets[i];
    }
    return "func.func @" + name + "(" + args + ") -> (" + rt + ")" + (fattrs.empty() ? "" : " attributes {" + fattrs + "}") + " {\n" + body +
           "  \"func.return\"(" + rv + ") : (" + rt + ") -> ()\n}\n";
  }
};
inline std::string i32a(const std::string& n, int64_t v) { return n + " = " + std::to_string(v) + " : i32"; }
inline std::string stra(const std::string& n, const std::string& v) { return n + " = \"" + v + "\""; }
inline std::string arra(const std::string& n, const std::vector<int64_t>& v) {
  std::string s = n + " = [";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + std::to_string(v[i]);
  return s + "]";
}

using Module = mlir::OwningOpRef<mlir::ModuleOp>;
inline std::string show(mlir::Operation* o) {
  std::string s;
  llvm::raw_string_ostream os(s);
  o->print(os, mlir::OpPrintingFlags().printGenericOpForm());
  return os.str();
}

// Shortens the blobs of constants, for messages.
inline std::string brief(const std::string& s, size_t most = 2500) {
  std::string r;
  for (size_t i = 0; i < s.size() && r.size() < most;) {
    if (s.compare(i, 2, "0x") == 0) {
      size_t j = i + 2;
      while (j < s.size() && isxdigit((unsigned char)s[j])) ++j;
      r += j - i > 80 ? s.substr(i, 42) + "~" : s.substr(i, j - i);
      i = j;
    } else {
      r += s[i++];
    }
  }
  return r;
}

struct Ctx {
  mlir::MLIRContext c;
  std::string diags;
  mlir::ScopedDiagnosticHandler h;
  explicit Ctx(const mlir::DialectRegistry& r) : c(r, mlir::MLIRContext::Threading::DISABLED), h(&c, [this](mlir::Diagnostic& d) {
    if (diags.size() < 2000) diags += d.str() + "; ";
    return mlir::success();
  }) {
    c.loadAllAvailableDialects();
    c.allowUnregisteredDialects();
  }
  Module parse(const std::string& text) {
    diags.clear();
    return mlir::parseSourceString<mlir::ModuleOp>(text, mlir::ParserConfig(&c));
  }
  // Runs a function pass; false when the pass fails or leaves a module that does not verify.
  bool run(mlir::ModuleOp m, std::unique_ptr<mlir::Pass> p, bool verify = true) {
    mlir::PassManager pm(&c);
    pm.enableVerifier(verify);
    pm.addNestedPass<mlir::func::FuncOp>(std::move(p));
    diags.clear();
    return mlir::succeeded(pm.run(m));
  }
};
inline mlir::func::FuncOp fn(mlir::ModuleOp m) { return *m.getOps<mlir::func::FuncOp>().begin(); }
inline long countOps(mlir::Operation* m, llvm::StringRef name) {
  long n = 0;
  m->walk([&](mlir::Operation* o) { n += o->getName().getStringRef() == name; });
  return n;
}

// Values for an argument. kind: 0 small dyadic numbers with many zeros, 1 integers, 2 wide.
inline vm::T value(Rng& r, mlir::Type t, int kind) {
  vm::T x = vm::blank(t);
  for (auto& v : x.v) switch (x.dt) {
    case vm::F32: case vm::F64: case vm::F16: case vm::BF16:
      v = kind == 0 ? (double)r.in(-8, 8) / 4 : kind == 1 ? (double)r.in(-3, 3) : (r.unit() - 0.5) * 8;
      if (r.p(6)) v = -0.0;
      v = vm::rnd(x.dt, v);
      break;
    case vm::I1: v = r.p(50); break;
    case vm::QI8: v = r.p(70) ? (double)r.in(-128, 127) : (double)std::max<int64_t>(-128, std::min<int64_t>(127, x.zp + r.in(-2, 2))); break;
    case vm::QU8: v = (double)r.in(0, 255); break;
    case vm::I8: v = (double)r.in(-128, 127); break;
    case vm::QI16: v = (double)r.in(-32768, 32767); break;
    default: v = (double)(int32_t)r.next();
  }
  return x;
}

// "" when equal. rel/abs tolerate rounding of floats, q quantized steps.
inline std::string differ(const vm::T& a, const vm::T& b, double rel, double abs, double q) {
  if (a.dt != b.dt) return "element types differ";
  if (a.shape != b.shape) return "shapes differ: " + a.str(0) + " and " + b.str(0);
  bool isq = a.dt == vm::QI8 || a.dt == vm::QU8 || a.dt == vm::QI16;
  if (isq && (a.scale != b.scale || a.zp != b.zp)) return "quantization parameters differ";
  for (size_t i = 0; i < a.v.size(); ++i) {
    double x = a.v[i], y = b.v[i];
    if (x == y || (x != x && y != y)) continue;
    double tol = isq ? q : a.dt == vm::F32 ? abs + rel * std::max(std::fabs(x), std::fabs(y)) : 0;
    if (std::fabs(x - y) <= tol) continue;
    char m[160];
    snprintf(m, 160, "element %zu is %.9g instead of %.9g", i, y, x);
    return m;
  }
  return "";
}

struct Compare {
  double rel = 2e-6, abs = 2e-6, q = 0;
  int inputs = 3;
};
// Executes `before` and `after` on random inputs. "" when they agree.
inline std::string agree(Rng& r, mlir::func::FuncOp before, mlir::func::FuncOp after, Report& rep, const Compare& c,
                         std::function<bool(mlir::Operation*, vm::VM&)> extra = nullptr) {
  if (before.getFunctionType() != after.getFunctionType()) return "the function's type changed";
  for (int k = 0; k < c.inputs; ++k) {
    std::vector<vm::T> args;
    for (auto t : before.getFunctionType().getInputs()) args.push_back(value(r, t, k % 3));
    std::vector<vm::T> x, y;
    vm::VM m;
    m.extra = extra;
    try {
      x = m.run(before, args);
    } catch (vm::Fail& e) {
      rep.Count("not_executable");
      rep.Viol("harness", std::string("the generated graph is outside of the interpreter: ") + e.what());
      return "";
    }
    try {
      y = m.run(after, args);
    } catch (vm::Fail& e) {
      return std::string("the result cannot be executed: ") + e.what();
    }
    if (x.size() != y.size()) return "result counts differ";
    for (size_t i = 0; i < x.size(); ++i) {
      std::string d = differ(x[i], y[i], c.rel, c.abs, c.q);
      if (!d.empty()) return "result " + std::to_string(i) + ": " + d;
      rep.Count("values_compared", x[i].v.size());
    }
    rep.Count("executions");
  }
  return "";
}

// argv: <property> <seed> <first> <count> <progress file> [dump]
inline int drive(int argc, char** argv, const std::function<void(Rng&, Report&, uint64_t)>& one) {
  if (argc < 6) return 3;
  uint64_t seed = strtoull(argv[2], 0, 10), first = strtoull(argv[3], 0, 10), count = strtoull(argv[4], 0, 10);
  int fd = open(argv[5], O_RDWR | O_CREAT, 0600);
  uint64_t* prog = nullptr;
  uint64_t dummy;
  if (fd >= 0 && strcmp(argv[5], "/dev/null")) {
    if (ftruncate(fd, 8)) return 3;
    void* m = mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    prog = m == MAP_FAILED ? &dummy : (uint64_t*)m;
  } else {
    prog = &dummy;
  }
  Report rep;
  for (uint64_t c = first; c < first + count; ++c) {
    *prog = rep.cur = c;
    Rng r(seed * 1000003 + c);
    one(r, rep, c);
  }
  rep.Finish();
  return 0;
}
inline bool dump() { static bool d = getenv("VERIF_DUMP") != nullptr; return d; }
}  // namespace hs
#endif

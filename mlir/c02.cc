// C02: graphs of sign operations and convolutions, executed before and after the pass
// that recognises binary ones.
#include "passes.h"
using namespace hs;

static bool arm;
struct Gen {
  Rng& r;
  Fn f;
  bool nchw = false;
  std::string kind;
  double tol = 0;
  bool knownPad = false;  // padded with ones by an amount that only gives the size SAME would give
  std::vector<std::string> what;

  double c1() { return one<double>(r, {1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 2.0, 0.5, -1.0, 0.0, 0.999}); }
  // A tensor that is (or nearly is, or is not) a ±1 of x.
  std::string sign(const std::string& x, Shape s) {
    std::string e = "f32";
    auto shapeOf = [&](int full) -> Shape {
      switch (full ? 0 : r.in(0, 4)) {
        case 0: return s;
        case 1: return {};
        case 2: { Shape q(s.size(), 1); return q; }
        case 3: return {s.back()};
        default: { Shape q(s.size(), 1); q.back() = s.back(); return q; }
      }
    };
    bool dyn = false;
    for (auto d : s) dyn |= d < 0;
    int k = r.in(0, 9);
    if (k <= 4) {
      std::string cond;
      Shape cs = s;
      if (r.p(70) || dyn) {
        double th = r.p(75) ? 0 : (double)r.in(-4, 4) / 4;
        std::string t = f.cst({th}, {}, "f32");
        cond = f.op(one<std::string>(r, {"tf.GreaterEqual", "tf.GreaterEqual", "tf.Greater", "tf.LessEqual", "tf.Less"}), {x, t}, "", s, "i1");
        what.push_back("compared");
      } else {
        cs = r.p(50) ? s : shapeOf(0);
        cond = f.arg(cs, "i1");
        what.push_back("condition" + std::to_string(cs == s));
      }
      bool v2 = cs != s || dyn || r.p(60);
      double a = r.p(80) ? 1 : c1(), b = r.p(80) ? -1 : -c1();
      if (r.p(40)) std::swap(a, b);
      auto k = [&](double v) {
        Shape q = dyn ? Shape{} : v2 ? shapeOf(cs != s) : s;
        std::vector<double> d(elems(q), v);
        if (d.size() > 1 && r.p(6)) d[r.next() % d.size()] = -v;
        return f.cst(d, q, e, r.p(30));
      };
      what.push_back((a == 1 && b == -1) ? "select+-" : (a == -1 && b == 1) ? "select-+" : "select_other");
      std::string p = k(a), q = k(b);
      // The result has the broadcast shape; keep it s, so one operand has to be s.
      if (cs != s && !(f.t[p].shape == s || f.t[q].shape == s)) p = f.cst(std::vector<double>(elems(s), a), s, e);
      return f.op(v2 ? "tf.SelectV2" : "tf.Select", {cond, p, q}, "", s, e);
    }
    if (k <= 6) {
      double c = r.p(60) ? 0.1 : one<double>(r, {0.5, -0.1, 0.0, 1.0, 1.5, -2.0, 0.999, 1e-7});
      Shape cs = r.p(60) ? Shape{} : r.p(50) ? Shape{1} : dyn ? Shape{} : Shape{s.back()};
      std::string y = f.op("tf.Sign", {x}, "", s, e), cc;
      if (r.p(92)) {
        std::vector<double> d(elems(cs), c);
        if (d.size() > 1 && r.p(20)) d[r.next() % d.size()] = -c;
        cc = f.cst(d, cs, e, r.p(30));
      } else {
        cc = f.arg(cs, e);
      }
      what.push_back(c == 0.1 ? "sign+0.1" : "sign+other");
      y = f.op("tf.AddV2", r.p(50) ? std::vector<std::string>{y, cc} : std::vector<std::string>{cc, y}, "", s, e);
      return f.op("tf.Sign", {y}, "", s, e);
    }
    if (k <= 8) {
      what.push_back("quantized");
      Shape p = s;
      p.back() = (p.back() + 31) / 32;
      std::string q = f.op("lq.Quantize", {x}, "", p, "i32");
      return f.op("lq.Dequantize", {q}, "", s, e);
    }
    what.push_back("float");
    return x;
  }

  // Things that look like a sign but have no channels, or are not of type float.
  bool odd() {
    Shape s = r.p(50) ? Shape{} : Shape{r.in(1, 40)};
    std::string e = one<std::string>(r, {"f32", "f32", "i32", "i64", "f64"});
    std::string c = f.arg(s, "i1"), a = f.cst({r.p(50) ? 1.0 : -1.0}, {}, e), b = f.cst({r.p(50) ? 1.0 : -1.0}, {}, e);
    f.ret(f.op("tf.SelectV2", {c, a, b}, "", s, e));
    if (e == "f32") {
      std::string x = f.arg(s, e);
      f.ret(f.op("tf.Sign", {f.op("tf.AddV2", {f.op("tf.Sign", {x}, "", s, e), f.cst({0.25}, {}, e)}, "", s, e)}, "", s, e));
    }
    what.push_back("odd_" + e);
    return true;
  }

  // OK when the shapes allow it.
  bool build() {
    if (r.p(4)) return odd();
    nchw = r.p(8);
    int64_t C = one<int64_t>(r, {1, 2, 3, 4, 8, 31, 32, 33, 64, 64, 96});
    int64_t N = r.in(1, 2), H = r.in(1, 8), W = r.in(1, 8);
    bool dynBatch = r.p(6);
    if (dynBatch) N = 2;
    Shape s = nchw ? Shape{N, C, H, W} : Shape{N, H, W, C};
    if (dynBatch) s[0] = -1;
    std::string x = f.arg(s, "f32");
    std::string b = sign(x, s);
    if (r.p(15)) f.ret(b);
    bool dilatedPattern = !dynBatch && !nchw && r.p(8);
    int64_t FH = r.in(1, 4), FW = r.in(1, 4), sh = r.in(1, 3), sw = r.in(1, 3), dh = r.p(75) ? 1 : r.in(1, 3), dw = r.p(75) ? 1 : r.in(1, 3);
    if (r.p(50)) sw = sh;
    std::string padding = one<std::string>(r, {"VALID", "VALID", "SAME", "SAME", "EXPLICIT"});
    int64_t I = C;
    if (r.p(20)) {
      std::vector<int64_t> div;
      for (int64_t d = 1; d <= C; ++d) if (C % d == 0) div.push_back(d);
      I = r.of(div);
    }
    int64_t groups = C / I, O = groups * r.in(1, groups > 8 ? 1 : 3);
    std::string in = b;
    Shape is = s;
    int hi = nchw ? 2 : 1, wi = nchw ? 3 : 2;
    std::vector<int64_t> ep(8, 0);
    if (dilatedPattern) {
      int64_t bh = r.in(1, 3), bw = r.in(1, 3), p0 = 0, p1 = 0, q0 = 0, q1 = 0;
      if (r.p(40)) { p0 = r.in(0, 1), q0 = r.in(0, 1); }
      p1 = (bh - (H + p0) % bh) % bh, q1 = (bw - (W + q0) % bw) % bw;
      std::string blk = f.cst({(double)bh, (double)bw}, {2}, "i32"), pd = f.cst({(double)p0, (double)p1, (double)q0, (double)q1}, {2, 2}, "i32");
      is = {N * bh * bw, (H + p0 + p1) / bh, (W + q0 + q1) / bw, C};
      in = f.op("tf.SpaceToBatchND", {in, blk, pd}, "", is, "f32");
      sh = sw = dh = dw = 1, padding = "VALID";
      std::string y = convOp(in, is, FH, FW, I, O, sh, sw, dh, dw, padding, ep, 1, 2);
      if (y.empty()) return false;
      Shape ys = f.t[y].shape;
      int64_t c0 = p0, c1 = p1, e0 = q0, e1 = q1;
      if (r.p(20)) { c0 = r.in(0, 1); }
      Shape os = {N, ys[1] * bh - c0 - c1, ys[2] * bw - e0 - e1, O};
      if (os[1] < 1 || os[2] < 1) return false;
      std::string cr = f.cst({(double)c0, (double)c1, (double)e0, (double)e1}, {2, 2}, "i32");
      f.ret(f.op("tf.BatchToSpaceND", {y, blk, cr}, "", os, "f32"));
      what.push_back("dilated-pattern");
      return true;
    }
    if (!dynBatch && r.p(35)) {
      std::vector<double> p(8, 0);
      int64_t eh = (FH - 1) * dh + 1, ew = (FW - 1) * dw + 1;
      auto total = [](int64_t n, int64_t e, int64_t s) { return std::max<int64_t>(0, ((n + s - 1) / s - 1) * s + e - n); };
      int64_t th = total(H, eh, sh), tw = total(W, ew, sw);
      int how = r.in(0, 9);
      if (how <= 4) {  // what SAME does
        p[2 * hi] = th / 2, p[2 * hi + 1] = th - th / 2, p[2 * wi] = tw / 2, p[2 * wi + 1] = tw - tw / 2;
      } else if (how <= 6) {  // symmetric, as networks usually write it
        p[2 * hi] = p[2 * hi + 1] = dh * (FH - 1) / 2 + 0, p[2 * wi] = p[2 * wi + 1] = dw * (FW - 1) / 2;
      } else {
        for (int d : {hi, wi}) for (int j : {0, 1}) p[2 * d + j] = r.in(0, 3);
      }
      if (r.p(10)) { double& q = p[2 * r.in(0, 3) + r.in(0, 1)]; q += 1; }
      double v = one<double>(r, {1, 1, 1, 1, 1, 0, -1, 0.5});
      for (int d = 0; d < 4; ++d) is[d] += p[2 * d] + p[2 * d + 1];
      C = is[nchw ? 1 : 3];
      if (C % I) return false;
      if ((C / I) && O % (C / I)) return false;
      std::string pc = f.cst(p, {4, 2}, r.p(85) ? "i32" : "i64"), vc = f.cst({v}, r.p(80) ? Shape{} : Shape{1}, "f32");
      in = f.op("tf.PadV2", {in, pc, vc}, "", is, "f32");
      if (r.p(10)) f.ret(in);
      if (r.p(85)) padding = "VALID";
      auto sized = [&](int d, int64_t n, int64_t e, int64_t s) {
        int64_t a = p[2 * d], b = p[2 * d + 1], t = a + b, o = (n + t - e) / s + 1;
        if (n + t < e || o != (n + s - 1) / s || a != t / 2 || b != (t + 1) / 2) return -1;
        return a == total(n, e, s) / 2 ? 0 : 1;
      };
      int u = sized(hi, s[hi], eh, sh), l = sized(wi, s[wi], ew, sw);
      knownPad = v == 1 && padding == "VALID" && u >= 0 && l >= 0 && u + l > 0 && !nchw && p[0] + p[1] + p[6] + p[7] == 0;
      what.push_back("padded" + std::to_string(how / 3) + (v == 1 ? "one" : "other"));
    }
    if (padding == "EXPLICIT")
      for (int d : {hi, wi}) for (int j : {0, 1}) ep[2 * d + j] = r.in(0, 2);
    std::string y = convOp(in, is, FH, FW, I, O, sh, sw, dh, dw, padding, ep, hi, wi);
    if (y.empty()) return false;
    f.ret(y);
    if (r.p(10)) f.ret(in);
    if (r.p(10) && !dynBatch) f.ret(convOp(in, is, FH, FW, I, O, sh, sw, dh, dw, padding, ep, hi, wi));
    return true;
  }

  std::string convOp(const std::string& in, const Shape& is, int64_t FH, int64_t FW, int64_t I, int64_t O, int64_t sh, int64_t sw, int64_t dh,
                     int64_t dw, const std::string& padding, const std::vector<int64_t>& ep, int hi, int wi) {
    auto out = [&](int64_t n, int64_t k, int64_t s, int64_t d, int dim) -> int64_t {
      int64_t e = (k - 1) * d + 1;
      if (padding == "SAME") return (n + s - 1) / s;
      n += ep[2 * dim] + ep[2 * dim + 1];
      return n < e ? 0 : (n - e) / s + 1;
    };
    int64_t oh = out(is[hi], FH, sh, dh, hi), ow = out(is[wi], FW, sw, dw, wi);
    if (oh < 1 || ow < 1) return "";
    Shape os = nchw ? Shape{is[0], O, oh, ow} : Shape{is[0], oh, ow, O};
    std::vector<double> w(FH * FW * I * O), sc(O);
    int how = r.in(0, 9);
    for (auto& x : sc) x = how <= 3 ? 1.0 : one<double>(r, {0.25, 2.0, -1.0, 0.37, -0.013, 1e-4, 1e-6, -3.0});
    for (size_t i = 0; i < w.size(); ++i) w[i] = (r.p(50) ? 1 : -1) * (double)(float)sc[i % O];
    std::string fk = how <= 3 ? "unit" : "scaled";
    if (r.p(25) && w.size() > (size_t)O) {
      size_t at = O + r.next() % (w.size() - O);
      switch (r.in(0, 4)) {
        case 0: { double d = r.unit() * 0.0048; w[at] *= 1 + (r.p(50) ? d : -d); fk = "nearly"; break; }
        case 1: { double d = 0.0052 + r.unit() * 0.05; w[at] *= 1 + (r.p(50) ? d : -d); fk = "off"; break; }
        case 2: w[at] = 0; fk = "zero"; break;
        case 3: w[at] *= 2; fk = "double"; break;
        default: w[at % O] = r.p(50) ? 0 : 1e-9; fk = "zero-first";
      }
    }
    double dev = 0, sum = 0;
    for (size_t i = 0; i < w.size(); ++i) {
      double s = std::fabs((double)(float)w[i % O]);
      if (s > 0) dev = std::max(dev, std::fabs(std::fabs((double)(float)w[i]) - s) * (double)(FH * FW * I));
      sum += s;
    }
    if (fk == "nearly") tol = std::max(tol, dev * 1.1);
    std::string fl = r.p(95) ? f.cst(w, {FH, FW, I, O}, "f32", r.p(25)) : (fk = "variable", f.arg({FH, FW, I, O}, "f32"));
    what.push_back("filter_" + fk);
    what.push_back(padding + (nchw ? "-nchw" : ""));
    std::string at = stra("padding", padding) + ", " + arra("strides", nchw ? Shape{1, 1, sh, sw} : Shape{1, sh, sw, 1});
    if (dh != 1 || dw != 1 || r.p(50)) at += ", " + arra("dilations", nchw ? Shape{1, 1, dh, dw} : Shape{1, dh, dw, 1});
    if (nchw || r.p(50)) at += ", " + stra("data_format", nchw ? "NCHW" : "NHWC");
    if (padding == "EXPLICIT") at += ", " + arra("explicit_paddings", ep);
    else if (r.p(30)) at += ", explicit_paddings = []";
    if (r.p(30)) at += std::string(", use_cudnn_on_gpu = ") + (r.p(50) ? "true" : "false");
    return f.op("tf.Conv2D", {in, fl}, at, os, "f32");
  }
};

static void Case(Rng& r, Report& rep, uint64_t id) {
  Ctx& ctx = context(id);
  Gen g{r};
  arm = r.p(60);
  for (int t = 0;; ++t) {
    g.f = Fn();
    g.what.clear();
    g.tol = 0;
    g.knownPad = false;
    if (g.build()) break;
    if (t > 200) return;
  }
  std::string text = g.f.text();
  if (dump()) fprintf(stderr, "// target %s\n%s\n", arm ? "arm" : "xcore", text.c_str());
  Module m = ctx.parse(text);
  if (!m) return rep.Viol("harness", "generated text does not parse: " + ctx.diags + brief(text));
  mlir::OwningOpRef<mlir::ModuleOp> before(m->clone());
  rep.Count("evaluations");
  std::string w = arm ? "arm" : "xcore";
  for (auto& x : g.what) w += " " + x;
  rep.Sig(text);
  if (!ctx.run(*m, mlir::TFL::CreatePrepareLCEPass(arm ? LCETarget::ARM : LCETarget::XCORE)))
    return rep.Viol("invalid", "the pass fails or leaves an invalid module: " + ctx.diags + " -- " + w + " -- " + brief(text));
  long convs = countOps(*before, "tf.Conv2D"), now = countOps(*m, "tf.Conv2D"), bin = countOps(*m, "lq.Bconv2d");
  if (now + bin != convs) {
    long b0 = countOps(*m, "tf.BatchToSpaceND");
    if (now + bin > convs || b0) return rep.Viol("lost", "convolutions appeared or vanished -- " + w + " -- " + brief(text));
  }
  rep.Count("convolutions_recognised", bin);
  rep.Count("convolutions_left", now);
  for (auto& x : g.what) rep.Count((bin ? "recognised_" : "left_") + x);
  if (countOps(*m, "lq.Quantize") > countOps(*before, "lq.Quantize")) rep.Count("signs_recognised");
  Compare c;
  c.rel = 1e-5;
  c.abs = 1e-6 + g.tol;
  c.inputs = 2;
  std::string d = agree(r, fn(*before), fn(*m), rep, c);
  if (!d.empty()) return rep.Viol(g.knownPad && bin ? "one-padding-not-same" : "value", d + " -- " + w + " -- " + brief(text) + " AFTER " + brief(show(*m)));
  if (bin) rep.Sample(w);
}
int main(int argc, char** argv) { return drive(argc, argv, Case); }

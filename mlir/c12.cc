// C12: every pass, in the converter's order, alone and in any other order, on graphs full of
// near misses of all patterns with unusual shapes, types and constants.
#include "passes.h"
#include "mlir/IR/Action.h"
#include "mlir/Transforms/Passes.h"
#include "mlir/Interfaces/SideEffectInterfaces.h"
using namespace hs;
using mlir::Operation;

struct T {
  bool unranked = false;
  Shape s;
  std::string e;
  std::string str() const { return e == "none" ? "none" : unranked ? "tensor<*x" + e + ">" : tt(s, e); }
  bool fixed() const { if (unranked) return false; for (auto d : s) if (d < 0) return false; return true; }
};
struct V { std::string n; T t; int uses = 0; };

struct Gen {
  Rng& r;
  Report& rep;
  std::string args, body;
  std::vector<V> vals;
  int na = 0, nv = 0, effects = 0;
  std::set<std::string> what;

  // ---- types
  int64_t dim(int most = 9) { return r.p(8) ? -1 : r.p(3) ? 0 : r.in(1, most); }
  T any(const std::string& e, int channels = 0) {
    T t;
    t.e = e;
    if (r.p(12)) return t.unranked = true, t;
    int rank = r.p(75) ? 4 : r.in(0, 5);
    for (int d = 0; d < rank; ++d) t.s.push_back(dim());
    if (rank && r.p(75)) t.s.back() = channels ? channels : r.p(50) ? one<int>(r, {1, 3, 4, 31, 32, 33, 64, 96}) : std::max<int64_t>(t.s.back(), 1);
    return t;
  }
  T map4(const std::string& e, int channels = 0) {  // what an image operator accepts: four dimensions, or not known
    T t = any(e, channels);
    while (!t.unranked && t.s.size() != 4) t = any(e, channels);
    return t;
  }
  // The same tensor, with other things known about it.
  T view(const T& t) {
    T q = t;
    if (r.p(80)) return q;
    if (r.p(30)) return q.unranked = true, q.s.clear(), q;
    for (auto& d : q.s) if (r.p(40)) d = -1;
    return q;
  }
  T with(const T& t, const std::string& e) { T q = t; q.e = e; return q; }
  std::string floaty() { return r.p(75) ? "f32" : one<std::string>(r, {"f16", "bf16", "f64"}); }
  std::string numeric() { return r.p(65) ? "f32" : one<std::string>(r, {"f16", "bf16", "f64", "i32", "i64"}); }
  std::string q8() { return "!quant.uniform<i8:f32, " + std::string(r.p(50) ? "0.5" : "0.0123") + ":" + std::to_string(r.in(-128, 127)) + ">"; }
  std::string quantized(const T& t) {
    int k = r.in(0, 9);
    if (k == 0) return "!quant.uniform<u8:f32, 0.25:9>";
    if (k == 1) return "!quant.uniform<i16:f32, 0.25>";
    if (k == 2 && !t.unranked && t.s.size() && t.s.back() > 0 && t.s.back() < 8) {
      std::string l;
      for (int64_t i = 0; i < t.s.back(); ++i) l += (i ? ", " : "") + std::string("0.5");
      return "!quant.uniform<i8:f32:" + std::to_string(t.s.size() - 1) + ", {" + l + "}>";
    }
    return q8();
  }

  // ---- values
  V& def(const std::string& op, const std::vector<V>& in, const std::string& at, const T& out) {
    std::string i, it;
    for (auto& v : in) i += (i.empty() ? "" : ", ") + v.n, it += (it.empty() ? "" : ", ") + v.t.str();
    for (auto& v : in) for (auto& w : vals) if (w.n == v.n) ++w.uses;
    vals.push_back({"%v" + std::to_string(nv++), out});
    body += "  " + vals.back().n + " = \"" + op + "\"(" + i + ") {" + at + "} : (" + it + ") -> " + out.str() + "\n";
    return vals.back();
  }
  V arg(const T& t) {
    V v{"%a" + std::to_string(na++), t, 1};
    args += (args.empty() ? "" : ", ") + v.n + ": " + t.str();
    vals.push_back(v);
    return v;
  }
  V val(const std::function<bool(const T&)>& ok, const std::function<T()>& make) {
    std::vector<V> c;
    for (auto& v : vals) if (v.t.e != "none" && ok(v.t)) c.push_back(v);
    if (!c.empty() && r.p(55)) return r.of(c);
    return arg(make());
  }
  V elem(const std::string& e) { return val([&](const T& t) { return t.e == e; }, [&] { return any(e); }); }
  V image(const std::string& e) { return val([&](const T& t) { return t.e == e && (t.unranked || t.s.size() == 4); }, [&] { return map4(e); }); }
  V cst(const std::vector<double>& v, const Shape& s, const std::string& e, int tf = 6) {
    T t;
    t.s = s, t.e = e;
    if (r.p(4)) {  // held elsewhere: nobody may look into it
      rep.Count("constants_held_elsewhere");
      return def("arith.constant", {}, "value = dense_resource<blob> : " + t.str(), t);
    }
    if (r.p(tf)) return def("tf.Const", {}, "value = " + dense(v, s, e), r.p(80) ? t : view(t));
    return def("arith.constant", {}, "value = " + dense(v, s, e), t);
  }
  V fill(double x, const Shape& s, const std::string& e) { return cst(std::vector<double>(elems(s), x), s, e); }
  Shape small(int most = 3) { Shape s; for (int k = r.in(0, most); k > 0; --k) s.push_back(r.p(4) ? 0 : r.in(1, 4)); return s; }

  // ---- near misses of the patterns
  void sign() {
    std::string e = numeric();
    V x = elem(e);
    V s1 = def("tf.Sign", {x}, "", x.t);
    double c = r.p(60) ? 0.1 : one<double>(r, {1.0, 0.0, -0.1, 0.5, 2.0, -1.0});
    V k = r.p(90) ? fill(e[0] == 'i' ? std::round(c) : c, r.p(70) ? Shape{} : small(), e) : elem(e);
    T o = r.p(80) ? x.t : view(x.t);
    V a = def("tf.AddV2", r.p(50) ? std::vector<V>{s1, k} : std::vector<V>{k, s1}, "", o);
    def("tf.Sign", {a}, "", a.t);
    what.insert("sign"), rep.Count("type_sign_" + e);
  }
  void select() {
    std::string e = numeric();
    V c = elem("i1");
    double p = r.p(80) ? 1 : 2;
    auto side = [&](double v) { return r.p(92) ? fill(v, r.p(50) || !c.t.fixed() || c.t.s.size() > 4 || elems(c.t.s) > 3000 ? small() : c.t.s, e) : elem(e); };
    V a = side(p), b = side(-p);
    T o = r.p(70) ? with(c.t, e) : any(e);
    def(r.p(50) ? "tf.Select" : "tf.SelectV2", r.p(50) ? std::vector<V>{c, a, b} : std::vector<V>{c, b, a}, "", o);
    what.insert("select"), rep.Count("type_select_" + e);
  }
  V dequantized(const std::string& e) {
    T t = map4(e);
    T w = with(t, "i32");
    if (!w.unranked && w.s.back() > 0 && r.p(90)) w.s.back() = (w.s.back() + 31) / 32;
    if (r.p(10)) w = view(w);
    V x = val([&](const T& q) { return q.str() == w.str(); }, [&] { return w; });
    return def("lq.Dequantize", {x}, "", t);
  }
  V pad(const std::string& op, const V& x, T o) {
    Shape ps = r.p(80) ? Shape{4, 2} : one<Shape>(r, {{4, 1}, {2, 4}, {8}, {3, 2}, {5, 2}, {0, 2}, {4, 2, 1}, {}});
    std::vector<double> p(elems(ps));
    for (size_t i = 0; i < p.size(); ++i) p[i] = ps == Shape{4, 2} && (i < 2 || i > 5) ? (r.p(5) ? 1 : 0) : r.in(0, 3);
    V pc = r.p(92) ? cst(p, ps, r.p(50) ? "i32" : "i64") : elem(r.p(50) ? "i32" : "i64");
    std::vector<V> in = {x, pc};
    if (op.back() == '2') {
      std::string e = x.t.e;
      Shape s = r.p(75) ? Shape{} : small(2);
      in.push_back(e[0] != '!' && r.p(92) ? fill(r.p(60) ? (op[1] == 'f' && op[2] == '.' ? 1 : 0) : r.in(-1, 2), s, e) : elem(e));
    }
    return def(op, in, "", o);
  }
  V filter(const std::string& e, int64_t ci, const Shape* given = nullptr) {
    Shape s = given ? *given : Shape{r.in(1, 3), r.in(1, 3), ci > 0 && r.p(75) ? ci : one<int64_t>(r, {1, 2, 32, 3}), r.in(1, 5)};
    if (r.p(9)) s[r.in(0, 3)] = 0, rep.Count("filters_without_elements");
    if (r.p(10)) return arg(r.p(50) ? T{false, s, e} : map4(e));
    std::vector<double> v(elems(s));
    std::vector<double> scale(s.back());
    for (auto& x : scale) x = r.p(60) ? 1 : r.in(1, 8) / 4.0;
    int kind = r.in(0, 9);
    for (size_t i = 0; i < v.size(); ++i) v[i] = (r.p(50) ? 1 : -1) * scale[i % scale.size()] * (kind == 0 && r.p(3) ? 0 : kind == 1 ? r.in(1, 3) : 1);
    if (e[0] == 'i') for (auto& x : v) x = x < 0 ? -1 : 1;
    return cst(v, s, e);
  }
  void conv() {
    std::string e = r.p(85) ? "f32" : numeric();
    V x = r.p(80) ? dequantized(e) : image(e);
    int64_t ci = x.t.unranked ? 0 : x.t.s[3];
    std::string nhwc = r.p(85) ? "NHWC" : "NCHW", padding = one<std::string>(r, {"SAME", "VALID", "VALID", "EXPLICIT"});
    auto four = [&](int pct) { std::vector<int64_t> l = {1, r.p(pct) ? r.in(1, 3) : 1, r.p(pct) ? r.in(1, 3) : 1, 1}; if (r.p(4)) l[r.p(50) ? 0 : 3] = 2; return l; };
    if (r.p(30)) padding = "VALID", x = pad(r.p(30) ? "tf.Pad" : "tf.PadV2", x, r.p(60) ? view(x.t) : map4(e, ci));
    bool dil = r.p(10);
    V bs, pc;
    if (dil) {
      Shape two = r.p(90) ? Shape{2} : Shape{r.in(0, 3)};
      bs = cst(std::vector<double>(elems(two), 2), two, r.p(50) ? "i32" : "i64"), pc = cst(std::vector<double>(4, 0), {2, 2}, "i32");
      x = def("tf.SpaceToBatchND", {x, bs, pc}, "", map4(e, ci)), padding = "VALID";
    }
    V f = filter(e, ci);
    std::string at = arra("strides", dil ? std::vector<int64_t>{1, 1, 1, 1} : four(35)) + ", use_cudnn_on_gpu = true, " + stra("padding", padding) + ", " +
                     arra("explicit_paddings", padding == "EXPLICIT" ? std::vector<int64_t>{0, 0, 1, 1, 1, 1, 0, 0} : std::vector<int64_t>{}) + ", " + stra("data_format", nhwc) + ", " +
                     arra("dilations", dil ? std::vector<int64_t>{1, 1, 1, 1} : four(15));
    V y = def("tf.Conv2D", {x, f}, at, map4(e, f.t.unranked || f.t.s.size() != 4 || f.t.s[3] < 1 ? 0 : (int)f.t.s[3]));
    if (dil) def("tf.BatchToSpaceND", {y, r.p(80) ? bs : cst({2, 2}, {2}, "i32"), r.p(80) ? pc : cst({0, 0, 0, 1}, {2, 2}, "i64")}, "", view(y.t));
    what.insert("conv"), rep.Count("type_conv_" + e);
  }
  void passthrough() {
    V x = val([](const T&) { return true; }, [&] { return any(numeric()); });
    std::string op = one<std::string>(r, {"tf.Identity", "tf.StopGradient", "tf.Snapshot", "tf.PlaceholderWithDefault", "tf.CheckNumerics"});
    def(op, {x}, op == "tf.CheckNumerics" ? "message = \"m\"" : "", view(x.t));
    if (r.p(30)) def("tf.IdentityN", {x}, "", view(x.t));
    what.insert("passthrough");
  }
  void compare() {
    std::string e = numeric();
    V a = elem(e), b = r.p(50) ? fill(r.p(60) ? 0 : 1, r.p(50) || !a.t.fixed() || elems(a.t.s) > 3000 || a.t.s.size() > 4 ? Shape{} : a.t.s, e) : elem(e);
    if (r.p(40)) std::swap(a, b);
    T o = with(r.p(50) ? a.t : r.p(50) ? b.t : any("i1"), "i1");
    V c = def(r.p(60) ? "tfl.greater_equal" : "tfl.less_equal", {a, b}, "", o);
    quantize(c);
    what.insert("compare");
  }
  void quantize(const V& x) {
    T o = with(x.t, "i32");
    if (!o.unranked && o.s.size() && o.s.back() > 0) o.s.back() = (o.s.back() + 31) / 32;
    if (!o.unranked && o.s.empty()) o.unranked = true;
    def("lq.Quantize", {x}, "", view(o));
  }
  std::string pool() { return stra("padding", r.p(50) ? "SAME" : "VALID") + ", " + i32a("stride_w", r.in(1, 3)) + ", " + i32a("stride_h", r.in(1, 3)) + ", " + i32a("filter_width", r.in(1, 4)) + ", " + i32a("filter_height", r.in(1, 4)); }
  void maxpool() {
    V x = image(r.p(85) ? "f32" : q8());
    T o = map4(x.t.e, x.t.unranked || x.t.s[3] < 1 ? 0 : x.t.s[3]);
    V p = def("tfl.max_pool_2d", {x}, pool() + ", " + stra("fused_activation_function", one<std::string>(r, {"NONE", "NONE", "RELU", "RELU6", "TANH"})), o);
    if (r.p(20)) p = def("tfl.relu", {p}, "", p.t);
    quantize(p);
    what.insert("maxpool");
  }
  V none() { T t; t.e = "none"; return def("tfl.no_value", {}, "value", t); }
  void bconv() {
    T xt = map4("i32");
    V x = r.p(30) ? image("i32") : arg(xt);
    Shape fs = {r.in(1, 5), r.in(1, 3), r.in(1, 3), r.p(50) ? 32 : r.in(1, 40)};
    V f = r.p(85) ? filter("f32", 0, &fs) : r.p(50) ? arg(map4("i32")) : arg(map4("f32"));
    int64_t co = f.t.unranked || f.t.s.size() != 4 || f.t.s[0] < 0 ? r.in(1, 5) : f.t.s[0];
    auto param = [&](double v) {
      if (r.p(8)) return none();
      Shape s = {co};
      V c = r.p(85) ? (r.p(60) ? fill(v, s, "f32") : [&] { std::vector<double> l(co); for (auto& q : l) q = r.in(-8, 8) / 4.0; return cst(l, s, "f32"); }()) : arg(T{false, s, "f32"});
      if (r.p(15)) {
        T q = with(c.t, q8());
        V qv = def("tfl.quantize", {c}, "qtype = " + q.str(), q);
        c = def("tfl.dequantize", {qv}, "", c.t);
      }
      return c;
    };
    V m = param(1), b = param(0);
    V th = r.p(85) ? none() : r.p(50) ? cst(std::vector<double>(co, 3), {co}, "i32") : arg(T{false, {co}, "i32"});
    std::string at = i32a("channels_in", r.in(1, 64)) + ", " + i32a("dilation_height_factor", r.in(1, 2)) + ", " + i32a("dilation_width_factor", r.in(1, 2)) + ", " +
                     stra("fused_activation_function", one<std::string>(r, {"NONE", "NONE", "RELU", "RELU_N1_TO_1", "RELU6"})) + ", " + i32a("pad_values", r.in(0, 1)) + ", " + stra("padding", r.p(50) ? "SAME" : "VALID") +
                     ", " + i32a("stride_height", r.in(1, 2)) + ", " + i32a("stride_width", r.in(1, 2));
    T ot = map4(r.p(92) ? "f32" : r.p(50) ? "i32" : q8());
    if (!ot.unranked && ot.s[3] >= 0) ot.s[3] = co;
    V y = def("lq.Bconv2d", {x, f, m, b, th}, at, ot);
    std::string e = y.t.e;
    for (int k = r.in(0, 3); k > 0; --k) {
      if (r.p(60) && e == "f32") {
        Shape s = r.p(60) ? Shape{co} : small(4);
        V c = r.p(90) ? fill(r.p(50) ? 2 : r.in(-2, 2), s, r.p(94) ? "f32" : floaty()) : elem("f32");
        if (r.p(5)) c = y;
        y = def(one<std::string>(r, {"tfl.add", "tfl.sub", "tfl.mul", "tfl.div"}), r.p(90) ? std::vector<V>{y, c} : std::vector<V>{c, y}, stra("fused_activation_function", r.p(85) ? "NONE" : "RELU"), r.p(80) ? y.t : map4("f32"));
      } else if (e == "f32") {
        y = def(one<std::string>(r, {"tfl.relu", "tfl.relu_n1_to_1", "tfl.relu6"}), {y}, "", y.t);
      }
    }
    if (r.p(50)) quantize(y);
    if (r.p(20) && e == "f32") tflq(y);
    what.insert("bconv");
  }
  V tflq(const V& y) {
    T q = y.t;
    q.e = quantized(y.t);
    return def("tfl.quantize", {y}, "qtype = " + q.str(), r.p(90) ? q : [&] { T z = q; if (z.e.find(":f32:") == std::string::npos) z = view(q); return z; }());
  }
  void tflpad() {
    V x = image(r.p(85) ? "f32" : q8());
    int64_t ci = x.t.unranked || x.t.s[3] < 1 ? 0 : x.t.s[3];
    T pt = map4(x.t.e, ci);
    if (!x.t.unranked && !pt.unranked && r.p(70)) { pt = x.t; for (int d : {1, 2}) if (pt.s[d] >= 0) pt.s[d] += 2; }
    V p = pad(r.p(50) ? "tfl.pad" : "tfl.padv2", x, pt);
    V f = r.p(60) ? filter("f32", ci) : arg(map4("f32"));
    V b = r.p(50) ? none() : elem("f32");
    bool dw = r.p(40);
    T o = map4(x.t.e);
    if (!x.t.unranked && !o.unranked && r.p(70)) o.s[1] = x.t.s[1], o.s[2] = x.t.s[2];
    def(dw ? "tfl.depthwise_conv_2d" : "tfl.conv_2d", {p, f, b},
        i32a("dilation_h_factor", r.in(1, 2)) + ", " + i32a("dilation_w_factor", r.in(1, 2)) + ", " + stra("fused_activation_function", "NONE") + ", " + stra("padding", r.p(85) ? "VALID" : "SAME") + ", " +
            i32a("stride_h", r.in(1, 2)) + ", " + i32a("stride_w", r.in(1, 2)) + (dw ? ", " + i32a("depth_multiplier", r.in(1, 2)) : ""), o);
    what.insert("pad");
  }
  void quant() {
    if (r.p(50)) {  // dequantize -> tfl.quantize
      V d = dequantized("f32");
      tflq(d);
    } else {
      T t = any("f32");
      T q = t;
      q.e = quantized(t);
      V x = arg(q);
      V d = def("tfl.dequantize", {x}, "", r.p(90) ? t : view(t));
      quantize(d);
    }
    what.insert("quant");
  }
  void detect() {
    auto in = [&](const Shape& s) {
      T t; t.s = s, t.e = "f32";
      if (r.p(15)) return arg(t);
      T q = t; q.e = quantized(t);
      if (r.p(10)) q.s.clear(), q.unranked = q.e.find(":f32:") == std::string::npos, q.s = q.unranked ? Shape{} : s;
      return def("tfl.dequantize", {arg(q)}, "", t);
    };
    std::vector<V> i = {in({1, 5, 4}), in({1, 5, 2}), in({5, 4})};
    if (r.p(10)) i.pop_back();
    std::string o, it, outs;
    for (auto& v : i) o += (o.empty() ? "" : ", ") + v.n, it += (it.empty() ? "" : ", ") + v.t.str();
    std::vector<T> ot;
    for (std::string e : {"i32", "i32", "f32", "i32"}) { T t = r.p(70) ? any("f32") : T{false, {1, 3}, "f32"}; t.e = r.p(90) ? e : "f32"; ot.push_back(t); }
    std::string res, rt;
    for (auto& t : ot) { vals.push_back({"%v" + std::to_string(nv++), t}); res += (res.empty() ? "" : ", ") + vals.back().n; rt += (rt.empty() ? "" : ", ") + t.str(); }
    body += "  " + res + " = \"tfl.custom\"(" + o + ") {" + stra("custom_code", "TFLite_Detection_PostProcess") + ", custom_option = #tfl<const_bytes : \"0x01\">} : (" + it + ") -> (" + rt + ")\n";
    what.insert("detect");
  }
  void folds() {
    if (r.p(50)) {
      std::string e = one<std::string>(r, {"f32", "f32", "f64", "f16", "bf16", "i32", "i64", "i1"});
      Shape s = small(4);
      std::vector<double> v(elems(s));
      for (auto& x : v) x = e == "i1" ? r.p(50) : r.in(-2, 2);
      quantize(cst(v, s, e));
    } else {
      Shape s = small(4);
      std::vector<double> v(elems(s));
      for (auto& x : v) x = (int32_t)r.next();
      V w = cst(v, s, "i32");
      T o; o.s = s, o.e = one<std::string>(r, {"f32", "f32", "f64", "f16", "bf16", "i32", "i64", "i1"});
      if (s.size() && r.p(80)) o.s.back() = s.back() * 32 - (s.back() ? r.in(0, 31) : 0);
      if (r.p(15)) o = any(o.e);
      if (r.p(8)) o.e = q8();
      def("lq.Dequantize", {w}, "", o);
    }
    what.insert("folds");
  }
  void foreign() {
    V x = val([](const T&) { return true; }, [&] { return any(numeric()); });
    if (r.p(50)) {
      body += "  \"test.effect\"(" + x.n + ") {n = " + std::to_string(effects++) + " : i32} : (" + x.t.str() + ") -> ()\n";
      for (auto& w : vals) if (w.n == x.n) ++w.uses;
    } else {
      def("tfl.custom", {x}, stra("custom_code", one<std::string>(r, {"Foo", "LceFoo", "TFLite_Detection_PostProcess", "LceQuantize2", ""})) + ", custom_option = #tfl<const_bytes : \"0x0102\">", any(numeric()));
    }
  }
  // Operators in none of the patterns.
  void ordinary() {
    switch (r.in(0, 6)) {
      case 0: { V x = elem("f32"); def("tfl.relu", {x}, "", x.t); break; }
      case 1: { V x = elem(numeric()); def("tf.AddV2", {x, elem(x.t.e)}, "", any(x.t.e)); break; }
      case 2: { V x = elem(numeric()); def("tf.Sign", {x}, "", x.t); break; }
      case 3: def("tf.Conv2D", {arg(map4("f32")), arg(map4("f32"))}, "strides = [1, 1, 1, 1], use_cudnn_on_gpu = true, padding = \"SAME\", explicit_paddings = [], data_format = \"NHWC\", dilations = [1, 1, 1, 1]", map4("f32")); break;
      case 4: def("tfl.max_pool_2d", {arg(map4("f32"))}, pool() + ", fused_activation_function = \"NONE\"", map4("f32")); break;
      case 5: { V x = elem(numeric()), y = elem(x.t.e); def("tfl.less_equal", {x, y}, "", any("i1")); break; }
      default: foreign();
    }
  }
};

static std::unique_ptr<mlir::Pass> make(int k, LCETarget t) {
  switch (k) {
    case 0: return mlir::TFL::CreateOpRemovalPass();
    case 1: return mlir::TFL::CreatePrepareLCEPass(t);
    case 2: return mlir::TFL::CreateOptimizeLCEPass(t);
    case 3: return mlir::TFL::CreateBitpackWeightsLCEPass();
    case 4: return mlir::TFL::CreateLCEQuantizePass();
    case 5: return mlir::TFL::QuantizeDetectionPostProcessPass();
    case 6: return mlir::TFL::CreateFusePaddingPass();
    case 7: return mlir::TFL::CreateLegalizeLCEPass();
    case 8: return mlir::TFL::CreateTranslateToLCEPass();
    case 9: return mlir::CreateSetBatchSizePass();
    case 10: return mlir::createCanonicalizerPass();
    default: return mlir::createCSEPass();
  }
}
static const char* kName[] = {"op-removal", "prepare", "optimize", "bitpack-weights", "quantize", "detection-postprocess", "fuse-padding", "legalize", "translate", "set-batch-size", "canonicalize", "cse"};

static void Case(Rng& r, Report& rep, uint64_t id) {
  Ctx& ctx = context(id);
  Gen g{r, rep};
  bool plain = r.p(12);
  int n = r.in(1, plain ? 8 : 5);
  for (int k = 0; k < n; ++k) {
    if (plain) { g.ordinary(); continue; }
    switch (r.in(0, 14)) {
      case 0: g.sign(); break;
      case 1: g.select(); break;
      case 2: case 3: g.conv(); break;
      case 4: g.passthrough(); break;
      case 5: g.compare(); break;
      case 6: g.maxpool(); break;
      case 7: case 8: g.bconv(); break;
      case 9: g.tflpad(); break;
      case 10: g.quant(); break;
      case 11: g.detect(); break;
      case 12: g.folds(); break;
      default: g.foreign();
    }
  }
  std::string ret, rt;
  for (auto& v : g.vals) {
    bool isarg = v.n[1] == 'a';
    if (v.t.e == "none" || (isarg ? !r.p(3) : plain ? v.uses > 0 : v.uses ? !r.p(8) : !r.p(92))) continue;
    ret += (ret.empty() ? "" : ", ") + v.n;
    rt += (rt.empty() ? "" : ", ") + v.t.str();
  }
  std::string text = "func.func @f(" + g.args + ") -> (" + rt + ") {\n" + g.body + "  \"func.return\"(" + ret + ") : (" + rt + ") -> ()\n}\n";
  bool blob = text.find("dense_resource") != std::string::npos;
  if (blob) text += "{-#\n  dialect_resources: {\n    builtin: {\n      blob: \"0x080000000000803F000000400000404000008040\"\n    }\n  }\n#-}\n";
  if (dump()) fprintf(stderr, "%s\n", text.c_str());
  Module m = ctx.parse(text);
  if (!m) return rep.Viol("harness", "generated text does not parse: " + ctx.diags + brief(text));
  rep.Count("evaluations");
  rep.Sig(text);
  for (auto& w : g.what) rep.Count("bait_" + w);
  if (plain) rep.Count("graphs_without_baits");

  LCETarget target = r.p(50) ? ARM : XCORE;
  std::vector<int> seq;
  int mode = r.in(0, 2);
  if (mode == 0) {
    seq = {9, 0, 10, 11, 1, 10, 0, 2, 10, 3, 4, 10, 5, 6, 7};  // about the converter's order
  } else if (mode == 1) {
    seq = {(int)r.in(0, 9)};
  } else {
    for (int k = r.in(2, 8); k > 0; --k) seq.push_back(r.in(0, 11));
  }
  rep.Count(mode == 0 ? "in_converter_order" : mode == 1 ? "alone" : "in_random_order");
  rep.Count(target == ARM ? "target_arm" : "target_xcore");

  int rounds = 0;
  ctx.c.registerActionHandler([&](llvm::function_ref<void()> t, const mlir::tracing::Action& a) {
    if (a.getTag() == "GreedyPatternRewriteIteration") ++rounds;
    t();
  });
  struct Off { Ctx& c; ~Off() { c.c.registerActionHandler(nullptr); } } off{ctx};
  auto effects = [](mlir::ModuleOp q) {
    std::vector<std::string> l;
    fn(q).walk([&](Operation* o) {
      auto nm = o->getName().getStringRef();
      if (nm == "test.effect") l.push_back("effect " + std::to_string(o->getAttrOfType<mlir::IntegerAttr>("n").getInt()));
      else if (nm == "tfl.custom" && !o->getAttrOfType<mlir::StringAttr>("custom_code").getValue().starts_with("Lce")) l.push_back("custom " + o->getAttrOfType<mlir::StringAttr>("custom_code").getValue().str());
    });
    return l;
  };
  auto sameZero = [](mlir::ModuleOp q) {
    long c = 0;
    q.walk([&](mlir::lq::Bconv2dOp o) { c += o.getPadding() == "SAME" && o.getPadValues() == 0; });
    return c;
  };
  for (size_t k = 0; k < seq.size(); ++k) {
    int p = seq[k];
    std::string head = std::string(kName[p]) + (p == 1 || p == 2 ? target == ARM ? " (arm)" : " (xcore)" : "");
    auto say = [&](const char* key, const std::string& s) { rep.Viol(key, head + ": " + s + "\n" + brief(text)); };
    std::string before = show(m->getOperation());
    auto ft = fn(*m).getFunctionType();
    auto eff = effects(*m);
    long pools = countOps(*m, "lq.BMaxPool2d"), zero = sameZero(*m);
    rounds = 0;
    if (!ctx.run(*m, make(p, target))) return say("invalid", "fails or leaves a module that does not verify: " + ctx.diags + (k ? " -- before: " + brief(before, 1500) : ""));
    if (p > 9) continue;  // MLIR's own passes only connect the others
    rep.Count("passes_run");
    rep.Count(std::string("pass_") + kName[p]);
    if (rounds) rep.Count("rounds", rounds);
    if (rounds >= 10) return say("no-fixpoint", "still finds something to rewrite after " + std::to_string(rounds) + " rounds");
    std::string after = show(m->getOperation());
    if (after != before) rep.Count(std::string("rewritten_by_") + kName[p]);
    if (p != 9 && fn(*m).getFunctionType() != ft) return say("signature", "changes the type of the function");
    if (effects(*m) != eff) return say("effects", "operators with effects are lost, duplicated, reordered or changed: " + brief(after));
    if (target == XCORE && p == 1 && sameZero(*m) > zero) return say("target", "emits a zero-padded binary convolution for xcore: " + brief(after));
    if (target == XCORE && p == 2 && countOps(*m, "lq.BMaxPool2d") > pools) return say("target", "emits a binary pooling for xcore: " + brief(after));
    if (target == XCORE && (p == 1 || p == 2)) rep.Count("xcore_results_checked");
    if (plain && p != 9 && after != before) return say("touched", "changes a graph that has nothing to rewrite: " + brief(before) + " -> " + brief(after));
    if (plain) rep.Count("left_alone");
    // Again: nothing is left to do.
    if (p == 8) continue;
    Module again(m->clone());
    rounds = 0;
    if (!ctx.run(*again, make(p, target))) return say("invalid", "fails when run again: " + ctx.diags);
    std::string twice = show(again->getOperation());
    if (twice != after) return say("idempotent", "finds something else to rewrite when run again: " + brief(after) + " -> " + brief(twice));
    rep.Count("repeated");
  }
  rep.Sample(brief(text, 300));
}
int main(int argc, char** argv) { return drive(argc, argv, Case); }

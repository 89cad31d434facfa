// C04: every accumulator value a convolution can produce, pushed through the thresholds
// the pass computes, against the sign of the float output worked out exactly.
#include "passes.h"
using namespace hs;

static float bits(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }

static void Case(Rng& r, Report& rep, uint64_t id) {
  Ctx& ctx = context(id);
  int64_t groups = r.p(85) ? 1 : 2;
  int64_t FH = r.in(1, 3), FW = r.in(1, 3), I = r.p(60) ? r.in(1, 70) : one<int64_t>(r, {32, 64, 96, 128});
  if (groups > 1) I = one<int64_t>(r, {32, 64});
  bool big = r.p(2);
  if (big) FH = one<int64_t>(r, {3, 5, 7}), FW = FH, I = one<int64_t>(r, {256, 512, 1024}), groups = 1;
  int64_t C = I * groups, a = FH * FW * I, O = groups * (big ? 2 : r.in(1, 4)), words = (C + 31) / 32;
  std::string act = r.p(55) ? "NONE" : one<std::string>(r, {"RELU", "RELU_N1_TO_1", "RELU6"});
  // The pattern shared by all filters (up to a sign per channel and group).
  std::vector<int> pat(a);
  for (auto& x : pat) x = r.p(50) ? 1 : -1;
  std::vector<double> filter(O * a);
  std::vector<int> flip(O);
  double fscale = r.p(80) ? 1 : 1;
  for (int64_t o = 0; o < O; ++o) {
    flip[o] = r.p(50) ? 1 : -1;
    for (int64_t i = 0; i < a; ++i) filter[o * a + i] = flip[o] * pat[i] * fscale;
  }
  std::vector<double> m(O), b(O);
  std::string kinds;
  for (int64_t o = 0; o < O; ++o) {
    float x;
    switch (r.in(0, 7)) {
      case 0: x = 1; break;
      case 1: x = (float)std::ldexp(1.0, (int)r.in(-20, 10)); break;
      case 2: x = (float)(r.unit() * 1e-3); break;
      case 3: x = r.p(40) ? 0.0f : bits((uint32_t)r.in(1, 0x7fffff)); break;         // zero, denormal
      case 4: x = bits((uint32_t)r.in(1 << 23, 0x7e << 23)); break;                   // any magnitude up to 1
      default: x = (float)(r.unit() * 4);
    }
    if (r.p(45)) x = -x;
    float y;
    int64_t k = r.in(-a, a);
    int kind = r.in(0, 9);
    switch (kind) {
      case 0: y = 0; break;
      case 1: y = -0.0f; break;
      case 2: y = (float)(-(double)x * k); break;                                     // (nearly) cancels some accumulator
      case 3: y = std::nextafter((float)(-(double)x * k), r.p(50) ? INFINITY : -INFINITY); break;
      case 4: y = std::nextafter(0.0f, r.p(50) ? 1.0f : -1.0f); break;
      case 5: y = (float)((r.p(50) ? 1 : -1) * std::fabs(x) * r.unit() * 1e-4); break;  // small against the multiplier
      case 6: y = (float)((r.p(50) ? 1 : -1) * std::fabs(x) * (a + r.in(-2, 2))); break;
      case 7: y = (float)((r.unit() - 0.5) * 2000); break;
      case 8: y = (float)(-(double)x * one<double>(r, {-6, -1, 1, 6, 5.5, 0.5})); break;
      default: y = (float)((r.unit() - 0.5) * 2.5 * std::fabs(x) * a);
    }
    bool wild = r.p(6);  // e.g. after a division by zero
    if (wild) {
      for (float* z : {&x, &y}) if (r.p(60)) *z = one<float>(r, {INFINITY, -INFINITY, NAN, 3e38f, -3e38f});
      rep.Count("infinite_or_nan");
    } else if (!std::isfinite(x * (float)a) || !std::isfinite(y)) {
      x = 1, y = 0.5;
    }
    m[o] = x, b[o] = y;
    kinds += std::to_string(kind);
  }
  // One image per accumulator value; for big filters those near a change of sign.
  std::vector<int64_t> ks;
  if (a <= 700) {
    for (int64_t k = 0; k <= a; ++k) ks.push_back(k);
  } else {
    std::set<int64_t> want = {0, 1, a / 2 - 1, a / 2, a / 2 + 1, a - 1, a};
    for (int64_t o = 0; o < O; ++o)
      if (m[o] != 0 && std::isfinite(b[o] / m[o])) {
        double z = (a + b[o] / m[o] * flip[o]) / 2;  // mismatches where the sign changes
        for (int d = -2; d <= 2; ++d) want.insert((int64_t)std::max(0.0, std::min((double)a, std::floor(z) + d)));
      }
    for (int i = 0; i < 6; ++i) want.insert(r.in(0, a));
    ks.assign(want.begin(), want.end());
  }
  int64_t N = ks.size();
  Fn f;
  std::string x = f.arg({N, FH, FW, words}, "i32");
  std::string fc = f.cst(filter, {O, FH, FW, I}, "f32"), mc = f.cst(m, {O}, "f32"), bc = f.cst(b, {O}, "f32"), nv = f.none();
  std::string at = i32a("channels_in", C) + ", " + i32a("dilation_height_factor", 1) + ", " + i32a("dilation_width_factor", 1) + ", " +
                   stra("fused_activation_function", act) + ", " + i32a("pad_values", 0) + ", " + stra("padding", "VALID") + ", " +
                   i32a("stride_height", 1) + ", " + i32a("stride_width", 1);
  std::string y = f.op("lq.Bconv2d", {x, fc, mc, bc, nv}, at, {N, 1, 1, O}, "f32");
  f.ret(f.op("lq.Quantize", {y}, "", {N, 1, 1, (O + 31) / 32}, "i32"));
  std::string text = f.text();
  if (dump()) fprintf(stderr, "%s\n", text.c_str());
  Module mod = ctx.parse(text);
  if (!mod) return rep.Viol("harness", "generated text does not parse: " + ctx.diags);
  rep.Count("evaluations");
  rep.Sig(text);
  bool arm = r.p(50);
  if (!ctx.run(*mod, mlir::TFL::CreateOptimizeLCEPass(arm ? LCETarget::ARM : LCETarget::XCORE)))
    return rep.Viol("invalid", "the pass fails or leaves an invalid module: " + ctx.diags);
  if (countOps(*mod, "lq.Quantize") == 0) rep.Count("thresholded");
  else rep.Count("left");
  // Inputs: the pattern with the first k positions of a random order inverted.
  std::vector<int64_t> order(a);
  for (int64_t i = 0; i < a; ++i) order[i] = i;
  for (int64_t i = a; i-- > 1;) std::swap(order[i], order[r.in(0, i)]);
  vm::T in;
  in.dt = vm::I32;
  in.shape = {N, FH, FW, words};
  in.v.assign(in.n(), 0);
  for (int64_t n = 0; n < N; ++n) {
    std::vector<int> v(pat);
    for (int64_t i = 0; i < ks[n]; ++i) v[order[i]] *= -1;
    for (int64_t p = 0; p < FH * FW; ++p) {
      std::vector<uint32_t> w(words, 0);
      for (int64_t g = 0; g < groups; ++g)
        for (int64_t i = 0; i < I; ++i)
          if (v[p * I + i] < 0) w[(g * I + i) / 32] |= 1u << ((g * I + i) % 32);
      for (int64_t j = 0; j < words; ++j) in.v[(n * FH * FW + p) * words + j] = (double)(int32_t)w[j];
    }
  }
  vm::VM vmach;
  vm::T out;
  try {
    out = vm::unpack(vmach.run(fn(*mod), {in})[0], O);
  } catch (vm::Fail& e) {
    return rep.Viol("value", std::string("the result cannot be executed: ") + e.what() + " " + brief(show(*mod)));
  }
  for (int64_t n = 0; n < N; ++n)
    for (int64_t o = 0; o < O; ++o) {
      double acc = vm::act(act, (double)(a - 2 * ks[n]) * flip[o]);
      bool exact = acc * m[o] < -b[o];                                                 // the product is exact in double
      bool rounded = (float)((float)(acc * m[o]) + (float)b[o]) < 0;
      bool got = out.v[n * O + o] < 0;
      rep.Count("bits_compared");
      if (exact != rounded) {
        rep.Count("bits_rounding_decides");
        if (got == exact || got == rounded) continue;
      }
      if (got != exact) {
        char t[300];
        snprintf(t, 300, "accumulator %lld of %lld (%s), multiplier %.9g, bias %.9g: bit %d for output %.9g", (long long)((a - 2 * ks[n]) * flip[o]), (long long)a,
                 act.c_str(), m[o], b[o], got, acc * m[o] + b[o]);
        return rep.Viol("bit", t);
      }
    }
  for (int64_t o = 0; o < O; ++o) {
    rep.Count(m[o] > 0 ? "positive" : m[o] < 0 ? "negative" : "zero");
    rep.Count("act_" + act);
  }
  rep.Count(a % 2 ? "odd_sizes" : "even_sizes");
  if (groups > 1) rep.Count("grouped");
  if (big) rep.Count("big_filters");
  char t[200];
  snprintf(t, 200, "%lldx%lldx%lld groups %lld %s multiplier %.6g bias %.6g", (long long)FH, (long long)FW, (long long)I, (long long)groups, act.c_str(), m[0], b[0]);
  rep.Sample(t);
}
int main(int argc, char** argv) { return drive(argc, argv, Case); }

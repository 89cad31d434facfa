#ifndef VERIF_CONV_H_
#define VERIF_CONV_H_
#include <cmath>
#include <sstream>
#include "flatbuffers/flexbuffers.h"
#include "mini.h"

namespace compute_engine {
namespace tflite {
TfLiteRegistration* Register_QUANTIZE();
TfLiteRegistration* Register_DEQUANTIZE();
TfLiteRegistration* Register_BCONV_2D();
TfLiteRegistration* Register_BCONV_2D_REF();
TfLiteRegistration* Register_BCONV_2D_OPT_BGEMM();
TfLiteRegistration* Register_BCONV_2D_OPT_INDIRECT_BGEMM();
TfLiteRegistration* Register_BMAXPOOL_2D();
}  // namespace tflite
}  // namespace compute_engine

namespace verif {
enum Kern { kRef = 0, kBgemm = 1, kIndirect = 2 };
inline const char* KernName(int k) {
  return k == kRef ? "reference" : k == kBgemm ? "bgemm" : "indirect";
}
inline const TfLiteRegistration* KernReg(int k) {
  using namespace compute_engine::tflite;
  return k == kRef ? Register_BCONV_2D_REF()
                   : k == kBgemm ? Register_BCONV_2D_OPT_BGEMM()
                                 : Register_BCONV_2D_OPT_INDIRECT_BGEMM();
}
enum Out { kF = 0, kI8 = 1, kBits = 2 };
inline int Words(int c) { return (c + 31) / 32; }

struct Conv {
  int n = 1, ih = 1, iw = 1, cin = 1, cout = 1, fh = 1, fw = 1, sh = 1, sw = 1, dh = 1, dw = 1,
      groups = 1;
  bool same = true;
  int pad_value = 1;
  int act = 0;  // 0 none, 1 relu, 2 relu_n1_to_1, 3 relu6
  int out = kF;
  float scale = 1.f;
  int zp = 0;
  std::vector<float> mul, bias;
  std::vector<int32_t> thr;
  std::vector<int8_t> in, filt;  // +1 / -1 values: [n,ih,iw,cin], [cout,fh,fw,cin/groups]

  int K() const { return fh * fw * (cin / groups); }
  int effh() const { return (fh - 1) * dh + 1; }
  int effw() const { return (fw - 1) * dw + 1; }
  int OH() const { return same ? (ih + sh - 1) / sh : (ih - effh() >= 0 ? (ih - effh()) / sh + 1 : 0); }
  int OW() const { return same ? (iw + sw - 1) / sw : (iw - effw() >= 0 ? (iw - effw()) / sw + 1 : 0); }
  int PadT() const { return same ? std::max(0, (OH() - 1) * sh + effh() - ih) / 2 : 0; }
  int PadL() const { return same ? std::max(0, (OW() - 1) * sw + effw() - iw) / 2 : 0; }
  bool zero_pad() const { return same && pad_value == 0; }

  bool Accepts(int kern) const {
    if (groups > 1 && kern == kBgemm) return false;
    if (zero_pad()) {
      if (kern == kRef) return cin % 2 == 0;
      return out == kF && act == 0;
    }
    return true;
  }
  std::string Str() const {
    std::ostringstream s;
    s << "in=" << n << "x" << ih << "x" << iw << "x" << cin << " filter=" << cout << "x" << fh << "x"
      << fw << " stride=" << sh << "," << sw << " dilation=" << dh << "," << dw << " groups=" << groups
      << " padding=" << (same ? (pad_value ? "SAME1" : "SAME0") : "VALID") << " act=" << act
      << " out=" << (out == kF ? "float" : out == kI8 ? "int8" : "bits");
    if (out == kI8) s << " scale=" << scale << " zp=" << zp;
    return s.str();
  }
};

struct Profile {
  int out = -1;       // -1: any
  int pad = -1;       // -1 any, 0 zero-pad only, 1 not zero-pad
  int groups = -1;    // -1 any, 0 none, 1 grouped only
  bool big = false;
  bool small_image = false;
  bool wild_scale = false;
  bool deep = false;  // now and then a very long sum
};

inline Conv GenConv(Rng& r, const Profile& p) {
  Conv c;
  c.out = p.out >= 0 ? p.out : RandInt(r, 0, 2);
  c.n = Pick(r, {1, 1, 1, 2, 3});
  const bool grouped = p.groups == 1 || (p.groups < 0 && Coin(r, 1, 4));
  if (grouped) {
    c.groups = Pick(r, {2, 2, 3, 4, 5});
    c.cin = 32 * c.groups * Pick(r, {1, 1, 2, 3, 4});
    c.cout = c.groups * (Coin(r) ? RandInt(r, 1, 20) : Pick(r, {1, 2, 3, 4, 8, 16, 32}));
  } else {
    c.cin = Coin(r) ? RandInt(r, 1, 70) : Pick(r, {1, 16, 31, 32, 33, 63, 64, 65, 96, 127, 128, 160, 256});
    c.cout = Coin(r) ? RandInt(r, 1, 40) : Pick(r, {1, 2, 3, 4, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 68, 96});
  }
  const int maxim = p.small_image ? 4 : 9;
  c.ih = RandInt(r, 1, maxim);
  c.iw = RandInt(r, 1, maxim);
  c.fh = Pick(r, {1, 1, 2, 3, 3, 4, 5});
  c.fw = Pick(r, {1, 1, 2, 3, 3, 4, 5});
  if (Coin(r, 1, 3)) c.fw = c.fh;
  if (Coin(r, 1, 6)) c.fh = c.fw = 1;
  c.sh = Pick(r, {1, 1, 1, 2, 3});
  c.sw = Coin(r) ? c.sh : Pick(r, {1, 1, 2, 3, 4});
  c.dh = Pick(r, {1, 1, 1, 2, 3});
  c.dw = Coin(r) ? c.dh : Pick(r, {1, 1, 2, 4});
  if (p.big && Coin(r, 1, 12)) {
    c.ih = RandInt(r, 8, 20);
    c.iw = RandInt(r, 8, 20);
    c.fh = c.fw = Pick(r, {3, 5, 7});
    if (c.groups == 1) c.cin = Pick(r, {64, 128, 192, 250, 512});
  }
  if (p.deep && Coin(r, 1, 100)) {
    // Sums that need more than 15 or 16 bits.
    const int K = Pick(r, {17000, 32000, 32767, 32800, 40000, 65000, 65504, 65535, 65600, 80000});
    c.n = 1;
    c.fh = Pick(r, {1, 1, 3, 5});
    c.fw = Coin(r) ? c.fh : 1;
    c.groups = grouped ? 2 : 1;
    c.cin = std::max(1, K / (c.fh * c.fw)) + RandInt(r, -2, 2);
    if (grouped) c.cin = (c.cin + 31) / 32 * 64;
    c.cout = c.groups * RandInt(r, 1, 5);
    c.sh = c.sw = c.dh = c.dw = 1;
    c.ih = RandInt(r, 1, 3);
    c.iw = RandInt(r, 1, 3);
  }
  c.same = Coin(r, 2, 3);
  c.pad_value = Coin(r) ? 1 : 0;
  c.act = Coin(r) ? 0 : RandInt(r, 1, 3);
  if (p.pad == 0) {
    c.same = true;
    c.pad_value = 0;
    if (Coin(r, 4, 5)) c.act = 0;
  } else if (p.pad == 1 && c.same) {
    c.pad_value = 1;
  }
  if (!c.same) {
    c.ih = std::max(c.ih, c.effh() + (Coin(r, 1, 8) ? 0 : RandInt(r, 0, 3)));
    c.iw = std::max(c.iw, c.effw() + (Coin(r, 1, 8) ? 0 : RandInt(r, 0, 3)));
  }
  return c;
}

inline void FillConv(Rng& r, Conv& c, bool wild_scale = false) {
  const int cpg = c.cin / c.groups;
  c.in.resize((size_t)c.n * c.ih * c.iw * c.cin);
  c.filt.resize((size_t)c.cout * c.fh * c.fw * cpg);
  const int mode = RandInt(r, 0, 7);
  for (auto& v : c.in) v = mode == 0 ? 1 : mode == 1 ? -1 : (Coin(r) ? 1 : -1);
  const int fmode = RandInt(r, 0, 7);
  for (auto& v : c.filt) v = fmode == 0 ? 1 : fmode == 1 ? -1 : (Coin(r) ? 1 : -1);
  if (c.K() > 16000 && Coin(r, 3, 4)) {
    // Nearly all products of one sign, so that the sum itself is large.
    for (auto& v : c.in) v = Coin(r) ? 1 : -1;
    const int taps = c.fh * c.fw, sign = Coin(r) ? 1 : -1, per = c.cin / c.groups;
    for (size_t i = 0; i < c.filt.size(); ++i) {
      const int oc = (int)(i / ((size_t)taps * per)), g = oc / (c.cout / c.groups);
      c.filt[i] = sign * c.in[(size_t)g * per + i % per] * (oc % 2 ? -1 : 1);
      if (Coin(r, 1, 200)) c.filt[i] = -c.filt[i];
    }
    for (size_t i = c.cin; i < c.in.size(); ++i) c.in[i] = c.in[i % c.cin];
  }
  c.mul.resize(c.cout);
  c.bias.resize(c.cout);
  c.thr.resize(c.cout);
  const int mm = RandInt(r, 0, 3);
  for (int i = 0; i < c.cout; ++i) {
    float m = mm == 0 ? 1.f : (RandUnit(r) * 2 - 1) * (mm == 3 ? 100.f : 2.f);
    if (Coin(r, 1, 20)) m = 0.f;
    c.mul[i] = m;
    c.bias[i] = mm == 0 ? 0.f : (RandUnit(r) * 2 - 1) * (Coin(r, 1, 4) ? 1000.f : 10.f);
    const int k = c.K();
    switch (RandInt(r, 0, 6)) {
      case 0: c.thr[i] = INT32_MIN; break;
      case 1: c.thr[i] = INT32_MAX; break;
      case 2: c.thr[i] = -1; break;
      case 3: c.thr[i] = k; break;
      default: c.thr[i] = std::max(-2, std::min(k + 2, k / 2 + (int)((RandUnit(r) - 0.5f) * std::sqrt((float)k) * 2)));
    }
  }
  const float span = c.K() * 1.5f;
  c.scale = Coin(r) ? span / 127.f : (RandUnit(r) + 0.01f) * 4.f;
  if (wild_scale) {
    switch (RandInt(r, 0, 5)) {
      case 0: c.scale = std::ldexp(1.f + RandUnit(r), RandInt(r, -40, -10)); break;
      case 1: c.scale = std::ldexp(1.f + RandUnit(r), RandInt(r, 5, 40)); break;
      default: break;
    }
  }
  c.zp = Coin(r) ? RandInt(r, -128, 127) : Pick(r, {-128, 0, 127, -1, 1});
}

// The meaning of the operator, from the definition.
struct Oracle {
  int OH, OW;
  std::vector<int> conv;      // sum of products, zero padding contributes 0, one padding +1
  std::vector<int> overflow;  // classes of out-of-image taps (bitmask T=1,B=2,L=4,R=8)
};
inline Oracle Reference(const Conv& c) {
  Oracle o;
  o.OH = c.OH();
  o.OW = c.OW();
  const int cpg = c.cin / c.groups, opg = c.cout / c.groups;
  o.conv.assign((size_t)c.n * o.OH * o.OW * c.cout, 0);
  o.overflow.assign((size_t)o.OH * o.OW, 0);
  const int pt = c.PadT(), pl = c.PadL();
  size_t at = 0;
  for (int b = 0; b < c.n; ++b)
    for (int y = 0; y < o.OH; ++y)
      for (int x = 0; x < o.OW; ++x)
        for (int oc = 0; oc < c.cout; ++oc) {
          const int g = oc / opg;
          int s = 0;
          for (int fy = 0; fy < c.fh; ++fy)
            for (int fx = 0; fx < c.fw; ++fx) {
              const int iy = y * c.sh - pt + fy * c.dh, ix = x * c.sw - pl + fx * c.dw;
              const int8_t* w = &c.filt[(size_t)((oc * c.fh + fy) * c.fw + fx) * cpg];
              if (iy < 0 || iy >= c.ih || ix < 0 || ix >= c.iw) {
                if (iy < 0) o.overflow[y * o.OW + x] |= 1;
                if (iy >= c.ih) o.overflow[y * o.OW + x] |= 2;
                if (ix < 0) o.overflow[y * o.OW + x] |= 4;
                if (ix >= c.iw) o.overflow[y * o.OW + x] |= 8;
                if (c.pad_value)
                  for (int k = 0; k < cpg; ++k) s += w[k];
                continue;
              }
              const int8_t* a = &c.in[(size_t)((b * c.ih + iy) * c.iw + ix) * c.cin + g * cpg];
              for (int k = 0; k < cpg; ++k) s += (int)w[k] * (int)a[k];
            }
          o.conv[at++] = s;
        }
  return o;
}
inline int Clamp(int act, int v) {
  if (act == 1) return std::max(0, v);
  if (act == 2) return std::max(-1, std::min(1, v));
  if (act == 3) return std::max(0, std::min(6, v));
  return v;
}
inline void PackRows(const int8_t* v, int rows, int cols, int32_t* out) {
  for (int r = 0; r < rows; ++r)
    for (int w = 0; w < Words(cols); ++w) {
      uint32_t x = 0;
      for (int b = 0; b < 32 && w * 32 + b < cols; ++b)
        if (v[(size_t)r * cols + w * 32 + b] < 0) x |= 1u << b;
      *out++ = (int32_t)x;
    }
}

inline std::vector<uint8_t> ConvOptions(const Conv& c) {
  flexbuffers::Builder f;
  f.Map([&] {
    f.Int("stride_height", c.sh);
    f.Int("stride_width", c.sw);
    f.Int("dilation_height_factor", c.dh);
    f.Int("dilation_width_factor", c.dw);
    f.Int("padding", c.same ? 0 : 1);
    f.Int("pad_values", c.pad_value);
    f.Int("channels_in", c.cin);
    static const int acts[] = {0, 1, 2, 3};
    f.Int("fused_activation_function", acts[c.act]);
  });
  f.Finish();
  return f.GetBuffer();
}

struct ConvNode {
  int input, filter, mul, bias, thr, output, node;
};
inline void SetConstants(MiniInterp& m, const ConvNode& t, const Conv& c) {
  PackRows(c.filt.data(), c.cout * c.fh * c.fw, c.cin / c.groups, m.Data<int32_t>(t.filter));
  memcpy(m.Data<float>(t.mul), c.mul.data(), 4 * c.cout);
  memcpy(m.Data<float>(t.bias), c.bias.data(), 4 * c.cout);
  memcpy(m.Data<int32_t>(t.thr), c.thr.data(), 4 * c.cout);
}
inline ConvNode AddConv(MiniInterp& m, const Conv& c, int kern, int input = -1) {
  ConvNode t;
  t.input = input >= 0 ? input : m.AddTensor(kTfLiteInt32, {c.n, c.ih, c.iw, Words(c.cin)});
  t.filter = m.AddTensor(kTfLiteInt32, {c.cout, c.fh, c.fw, Words(c.cin / c.groups)}, kTfLiteMmapRo);
  t.mul = m.AddTensor(kTfLiteFloat32, {c.cout}, kTfLiteMmapRo);
  t.bias = m.AddTensor(kTfLiteFloat32, {c.cout}, kTfLiteMmapRo);
  t.thr = m.AddTensor(kTfLiteInt32, {c.cout}, kTfLiteMmapRo);
  t.output = m.AddTensor(c.out == kF ? kTfLiteFloat32 : c.out == kI8 ? kTfLiteInt8 : kTfLiteInt32,
                         {1, 1, 1, 1});
  if (c.out == kI8) m.Quantize(t.output, c.scale, c.zp);
  SetConstants(m, t, c);
  const bool opt_none = (c.cin + c.cout) % 2;  // converted models leave unused inputs out
  t.node = m.AddNode(KernReg(kern), ConvOptions(c),
                     {t.input, t.filter, opt_none && c.out == kBits ? -1 : t.mul,
                      opt_none && c.out == kBits ? -1 : t.bias,
                      opt_none && c.out != kBits ? -1 : t.thr},
                     {t.output});
  return t;
}
inline void SetInput(MiniInterp& m, const ConvNode& t, const Conv& c) {
  PackRows(c.in.data(), c.n * c.ih * c.iw, c.cin, m.Data<int32_t>(t.input));
}

// Compares an output tensor with the meaning. Returns "" or a description.
inline std::string CheckOutput(const Conv& c, const Oracle& o, const void* data, long* evals) {
  std::ostringstream s;
  const size_t total = o.conv.size();
  if (c.out == kBits) {
    const int32_t* d = (const int32_t*)data;
    const int W = Words(c.cout);
    for (size_t px = 0; px < total / c.cout; ++px)
      for (int w = 0; w < W; ++w) {
        uint32_t want = 0;
        for (int b = 0; b < 32 && w * 32 + b < c.cout; ++b) {
          const int oc = w * 32 + b;
          const int acc2 = c.K() - o.conv[px * c.cout + oc];  // 2 * disagreements
          // With zero padding the definition still compares K - conv.
          if ((int64_t)(acc2 / 2) > (int64_t)c.thr[oc]) want |= 1u << b;
        }
        ++*evals;
        if ((uint32_t)d[px * W + w] != want) {
          s << "pixel " << px << " word " << w << ": got " << std::hex << (uint32_t)d[px * W + w]
            << " want " << want;
          return s.str();
        }
      }
    return "";
  }
  for (size_t i = 0; i < total; ++i) {
    const int oc = (int)(i % c.cout);
    const double v = (double)Clamp(c.act, o.conv[i]) * c.mul[oc] + c.bias[oc];
    ++*evals;
    const double am = std::fabs((double)c.mul[oc]);
    // The implementation adds K*mul to the bias and subtracts it again, in floats.
    const double tol0 = 6e-7 * (3.0 * c.K() * am + std::fabs((double)c.bias[oc])) + 1e-30;
    if (c.out == kF) {
      const double got = ((const float*)data)[i];
      if (!(std::fabs(got - v) <= tol0)) {
        s << "element " << i << " channel " << oc << ": got " << got << " want " << v << " (sum "
          << o.conv[i] << " mul " << c.mul[oc] << " bias " << c.bias[oc] << ")";
        return s.str();
      }
    } else {
      const double q = v / c.scale + c.zp;
#ifdef VERIF_A32
      // The 32-bit Arm kernel documents that it rounds what it has cut off after eight
      // binary places.
      const double cut = 1.0 / 256;
#else
      const double cut = 0;
#endif
      const double tol = tol0 / c.scale + 6e-7 * (std::fabs((double)c.zp) + std::fabs(q)) + 1e-6 + cut;
      auto sat = [](double x) { return std::max(-128.0, std::min(127.0, x)); };
      const double lo = sat(std::ceil(q - tol - 0.5)), hi = sat(std::floor(q + tol + 0.5));
      const double got = ((const int8_t*)data)[i];
      if (got < lo || got > hi) {
        s << "element " << i << " channel " << oc << ": got " << got << " want " << q
          << " rounded and saturated (sum " << o.conv[i] << ")";
        return s.str();
      }
    }
  }
  return "";
}
}  // namespace verif
#endif

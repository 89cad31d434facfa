// Workloads and monitors for the operator properties. One binary per sanitizer
// configuration; the property is chosen on the command line.
#include <atomic>
#include <limits>
#include <mutex>
#include <thread>
#include "conv.h"
#include "tensorflow/lite/kernels/internal/types.h"
using namespace tflite;  // as every includer of bitpacking/utils.h does
#include "larq_compute_engine/core/bitpacking/bitpack.h"
#include "larq_compute_engine/core/bitpacking/utils.h"
#include "report.h"
#if defined(VERIF_A64) || defined(VERIF_A32)
#include "bridge.h"
#endif
#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#define VERIF_ASAN 1
#endif

using namespace verif;
using namespace compute_engine::core::bitpacking;
using compute_engine::core::TBitpacked;

// ----------------------------------------------------------------- K01, K02
// A buffer with an exact end and an exact start (redzones on both sides).
template <typename T>
struct Exact {
  std::unique_ptr<char[]> raw;
  T* p;
  size_t n;
  int off;
  Exact(size_t count, Rng& r, int slack = 0) : n(count) {
    off = (int)sizeof(T) * RandInt(r, 0, 3);
    const size_t bytes = off + count * sizeof(T) + slack;
    raw.reset(new char[bytes ? bytes : 1]);
    for (size_t i = 0; i < bytes; ++i) raw[i] = (char)r();
    p = (T*)(raw.get() + off);
  }
};

template <typename T>
T AnyValue(Rng& r, int zp);
template <>
float AnyValue<float>(Rng& r, int) {
  switch (RandInt(r, 0, 9)) {
    case 0: return 0.f;
    case 1: return -0.f;
    case 2: return std::numeric_limits<float>::infinity() * (Coin(r) ? 1 : -1);
    case 3: return std::numeric_limits<float>::denorm_min() * (Coin(r) ? 1 : -1);
    case 4: { uint32_t u = (uint32_t)r(); float f; memcpy(&f, &u, 4); return f; }  // incl. NaN
    default: return (RandUnit(r) - 0.5f) * 4;
  }
}
template <>
int8_t AnyValue<int8_t>(Rng& r, int zp) {
  if (Coin(r, 1, 3)) return (int8_t)std::max<int64_t>(-128, std::min<int64_t>(127, (int64_t)zp + RandInt(r, -1, 1)));
  return (int8_t)r();
}
template <>
uint8_t AnyValue<uint8_t>(Rng& r, int zp) { return Coin(r) ? (uint8_t)(r() & 1) : (uint8_t)r(); }

// What packing a matrix means here: the function itself, or the one in the AArch64 image.
template <typename T>
void PackMatrix(const T* in, size_t rows, size_t cols, TBitpacked* out, int zp) {
#ifdef VERIF_A64
  const char* fn = std::is_same<T, float>::value ? "verif_pack_float" : std::is_same<T, int8_t>::value ? "verif_pack_int8" : "verif_pack_uint8";
  a64::EnterExport(fn, {(uint64_t)in, rows, cols, (uint64_t)out, (uint64_t)(int64_t)zp});
#elif defined(VERIF_A32)
  const char* fn = std::is_same<T, float>::value ? "v32_pack_float" : std::is_same<T, int8_t>::value ? "v32_pack_int8" : "v32_pack_uint8";
  a32::Pack(fn, in, rows * cols * sizeof(T), (uintptr_t)in & 3, rows, cols, out, rows * ((cols + 31) / 32) * 4, zp);
#else
  bitpack_matrix(in, rows, cols, out, zp);
#endif
}
template <typename T>
bool SignBit(T v) { return false; }
// Is this word packed as part of four whole words, which is what the vectorised
// routine does?
inline bool WholeBlock(int rows, int cols, int y, int w) {
  const int W = Words(cols);
  return cols % 32 == 0 ? (y * W + w) / 4 < rows * W / 4 : w / 4 < cols / 32 / 4;
}
template <>
bool SignBit<float>(float v) { return std::signbit(v); }
#ifdef VERIF_A64
constexpr bool kA64 = true;
#else
constexpr bool kA64 = false;
#endif
#ifdef VERIF_A32
constexpr bool kArm = true;
#else
constexpr bool kArm = kA64;
#endif

template <typename T>
void PackCase(Rng& r, Report& rep, const char* tname) {
  const int cols = kA64 && Coin(r, 1, 3) ? Pick(r, {128, 256, 384, 512, 1024}) + RandInt(r, 0, 150) : Coin(r) ? RandInt(r, 1, 140) : Pick(r, {1, 2, 31, 32, 33, 63, 64, 65, 95, 96, 127, 128, 129, 192, 256, 257, 320});
  const int rows = Pick(r, {0, 1, 1, 2, 3, 5, 9});
  int zp = 0;
  if (!std::is_floating_point<T>::value) {
    const int lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max();
    switch (RandInt(r, 0, 5)) {
      case 0: zp = (int)std::max<int64_t>(INT32_MIN, (int64_t)lo - RandInt(r, 0, 2)); break;
      case 1: zp = (int)std::min<int64_t>(INT32_MAX, (int64_t)hi + RandInt(r, 0, 2)); break;
      case 2: zp = Coin(r) ? INT32_MAX : INT32_MIN; break;
      case 3: zp = 0; break;
      default: zp = RandInt(r, lo, hi); break;
    }
  }
  Exact<T> in((size_t)rows * cols, r);
  for (size_t i = 0; i < in.n; ++i) in.p[i] = AnyValue<T>(r, zp);
  std::string before((char*)in.p, in.n * sizeof(T));
  const int W = Words(cols);
  Exact<TBitpacked> out((size_t)rows * W, r);
  const bool tensor = Coin(r);
  if (GetBitpackedSize(cols) != W) rep.Viol("size:row", "GetBitpackedSize(" + std::to_string(cols) + ")");
  if (GetBitpackedMatrixSize(rows, cols) != rows * W) rep.Viol("size:matrix", std::to_string(rows) + "x" + std::to_string(cols));
  if (tensor) {
    // Factor the rows into several leading dimensions.
    std::vector<int> dims;
    if (rows == 9 && Coin(r)) dims = {3, 3, cols};
    else if (Coin(r)) dims = {rows, 1, 1, cols};
    else if (Coin(r) && rows == 1) dims = {cols};
    else dims = {1, rows, cols};
    ::tflite::RuntimeShape sh((int)dims.size(), dims.data());
    if (GetBitpackedTensorSize(sh) != rows * W) rep.Viol("size:tensor", std::to_string(rows) + "x" + std::to_string(cols));
    auto ps = bitpacked_shape(sh);
    bool ok = ps.DimensionsCount() == (int)dims.size() && ps.Dims((int)dims.size() - 1) == W;
    for (size_t i = 0; ok && i + 1 < dims.size(); ++i) ok = ps.Dims((int)i) == dims[i];
    if (!ok) rep.Viol("shape:tensor", std::to_string(cols));
    if (kArm) PackMatrix(in.p, rows, cols, out.p, zp);
    else bitpack_tensor(sh, in.p, zp, out.p);
  } else {
    PackMatrix(in.p, rows, cols, out.p, zp);
  }
  if (memcmp(before.data(), in.p, before.size())) rep.Viol("input-modified", tname);
  for (int y = 0; y < rows; ++y)
    for (int w = 0; w < W; ++w) {
      uint32_t want = 0, by_sign = 0;
      for (int b = 0; b < 32 && w * 32 + b < cols; ++b) {
        const double v = (double)in.p[(size_t)y * cols + w * 32 + b];
        if (v < (double)zp) want |= 1u << b;
        if (SignBit<T>(in.p[(size_t)y * cols + w * 32 + b])) by_sign |= 1u << b;
      }
      rep.Count("words");
      const uint32_t got = (uint32_t)out.p[(size_t)y * W + w];
      if (kA64 && std::is_floating_point<T>::value && got != want && got == by_sign && WholeBlock(rows, cols, y, w)) {
        // Only values that are not below zero although their sign bit is set differ.
        rep.Count("words_by_sign_bit");
        rep.Viol("sign-bit-packed", "negative zeros and NaNs whose sign bit is set are packed as -1");
        continue;
      }
      if (got != want) {
        char d[300];
        snprintf(d, sizeof d, "%s rows=%d cols=%d zp=%d row %d word %d: got %08x want %08x", tname, rows, cols, zp, y, w, got, want);
        rep.Viol(std::string("bits:") + tname, d);
        return;
      }
    }
  if (cols % 32) rep.Count("with_padding_bits");
  char s[100];
  snprintf(s, sizeof s, "%s rows=%d cols=%d zp=%d", tname, rows, cols, zp);
  rep.Sig(s);
  rep.Sample(s);
}
void RunK01(Rng& r, Report& rep) {
  rep.Count("evaluations");
  switch (RandInt(r, 0, 3)) {
    case 0: PackCase<float>(r, rep, "float"); break;
    case 1: PackCase<int8_t>(r, rep, "int8"); break;
    case 2: PackCase<uint8_t>(r, rep, "uint8"); break;
    case 3: PackCase<int8_t>(r, rep, "int8"); break;
  }
}

template <typename T>
T ResultValue(Rng& r, int k);
template <> float ResultValue<float>(Rng& r, int) { return (RandUnit(r) - 0.5f) * 100; }
template <> int8_t ResultValue<int8_t>(Rng& r, int) { return (int8_t)r(); }
template <> bool ResultValue<bool>(Rng& r, int) { return Coin(r); }
template <typename T>
void UnpackCase(Rng& r, Report& rep, const char* tname) {
  const int cols = Coin(r) ? RandInt(r, 1, 140) : Pick(r, {1, 2, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 160, 256});
  const int rows = Pick(r, {0, 1, 1, 2, 3, 7});
  const int W = Words(cols);
  Exact<TBitpacked> in((size_t)rows * W, r);  // padding bits are rubbish
  Exact<T> out((size_t)rows * cols, r);
  const bool defaults = Coin(r) && !std::is_same<T, bool>::value;
  T zero = defaults ? T(1) : ResultValue<T>(r, 0), one = defaults ? T(-1) : ResultValue<T>(r, 1);
  std::string before((char*)in.p, in.n * 4);
  if (defaults) unpack_matrix(in.p, rows, cols, out.p);
  else unpack_matrix(in.p, rows, cols, out.p, zero, one);
  if (memcmp(before.data(), in.p, before.size())) rep.Viol("input-modified", tname);
  for (int y = 0; y < rows; ++y)
    for (int x = 0; x < cols; ++x) {
      const bool bit = ((uint32_t)in.p[(size_t)y * W + x / 32] >> (x % 32)) & 1;
      const T want = bit ? one : zero;
      rep.Count("values");
      if (memcmp(&out.p[(size_t)y * cols + x], &want, sizeof(T))) {
        char d[200];
        snprintf(d, sizeof d, "%s rows=%d cols=%d at %d,%d bit %d", tname, rows, cols, y, x, (int)bit);
        rep.Viol(std::string("unpack:") + tname, d);
        return;
      }
    }
  // Round trips (for types with an order).
  if (!std::is_same<T, bool>::value) {
    Exact<T> u((size_t)rows * cols, r);
    unpack_matrix(in.p, rows, cols, u.p);
    Exact<TBitpacked> again((size_t)rows * W, r);
    if constexpr (!std::is_same<T, bool>::value) bitpack_matrix(u.p, rows, cols, again.p, 0);
    for (int y = 0; y < rows; ++y)
      for (int w = 0; w < W; ++w) {
        uint32_t m = (w == W - 1 && cols % 32) ? ((1u << (cols % 32)) - 1) : ~0u;
        rep.Count("roundtrip_words");
        if ((uint32_t)again.p[(size_t)y * W + w] != ((uint32_t)in.p[(size_t)y * W + w] & m)) {
          rep.Viol(std::string("roundtrip-bits:") + tname, std::to_string(rows) + "x" + std::to_string(cols));
          return;
        }
      }
    Exact<T> v((size_t)rows * cols, r), back((size_t)rows * cols, r);
    for (size_t i = 0; i < v.n; ++i) v.p[i] = ResultValue<T>(r, 0);
    if constexpr (!std::is_same<T, bool>::value) bitpack_matrix(v.p, rows, cols, again.p, 0);
    unpack_matrix(again.p, rows, cols, back.p);
    for (size_t i = 0; i < v.n; ++i) {
      rep.Count("roundtrip_values");
      if (back.p[i] != (v.p[i] < 0 ? T(-1) : T(1))) {
        rep.Viol(std::string("roundtrip-sign:") + tname, std::to_string(rows) + "x" + std::to_string(cols));
        return;
      }
    }
  }
  char s[100];
  snprintf(s, sizeof s, "%s rows=%d cols=%d %d", tname, rows, cols, (int)defaults);
  rep.Sig(s);
  rep.Sample(s);
}
void RunK02(Rng& r, Report& rep) {
  rep.Count("evaluations");
  switch (RandInt(r, 0, 2)) {
    case 0: UnpackCase<float>(r, rep, "float"); break;
    case 1: UnpackCase<int8_t>(r, rep, "int8"); break;
    case 2: UnpackCase<bool>(r, rep, "bool"); break;
  }
}

// ------------------------------------------------------------- convolutions
struct RunOut {
  bool ok = false;
  std::string bytes, mem_fault, error;
  std::vector<int> dims;
  long mem_checks = 0;
};
RunOut RunConv(const Conv& c, int kern, uint64_t seed, int threads = 1, int invokes = 1) {
  RunOut o;
  MiniInterp m(seed, threads);
  ConvNode t = AddConv(m, c, kern);
  if (m.Allocate() != kTfLiteOk) {
    o.error = "prepare: " + m.last_error;
    return o;
  }
  o.dims = m.Dims(t.output);
  for (int i = 0; i < invokes; ++i) {
    SetInput(m, t, c);
    if (m.Invoke() != kTfLiteOk) {
      o.error = "invoke: " + m.last_error;
      return o;
    }
  }
  o.ok = true;
  o.bytes.assign(m.Data<char>(t.output), m.T(t.output).bytes);
  o.mem_fault = m.mem_fault;
  o.mem_checks = m.mem_checks;
  return o;
}
bool ShapeOk(const Conv& c, const std::vector<int>& d) {
  return d.size() == 4 && d[0] == c.n && d[1] == c.OH() && d[2] == c.OW() &&
         d[3] == (c.out == kBits ? Words(c.cout) : c.cout);
}
void ConvCase(Rng& r, Report& rep, Conv& c, const std::vector<int>& kernels) {
  rep.Count("nodes");
  Oracle o = Reference(c);
  for (int k : kernels) {
    if (!c.Accepts(k)) {
      rep.Count(std::string("unsupported_") + KernName(k));
      continue;
    }
    RunOut x = RunConv(c, k, r(), Pick(r, {1, 1, 1, 3}), 1);
    if (!x.ok) {
      rep.Count(std::string("rejected_") + KernName(k));
      continue;
    }
    rep.Count(std::string("runs_") + KernName(k));
    rep.Count("evaluations");
    if (!ShapeOk(c, x.dims)) {
      rep.Viol(std::string("shape:") + KernName(k), c.Str());
      continue;
    }
    long ev = 0;
    std::string e = CheckOutput(c, o, x.bytes.data(), &ev);
    rep.Count("output_values", ev);
    if (!e.empty()) rep.Viol(std::string("value:") + KernName(k) + (c.zero_pad() ? ":zeropad" : ""), c.Str() + " kernel=" + KernName(k) + ": " + e);
    rep.Sig(c.Str() + KernName(k));
  }
  rep.Sample(c.Str());
}
Conv MakeConv(Rng& r, Profile p) {
  p.deep = true;
  Conv c = GenConv(r, p);
#ifdef VERIF_A32
  // The portable parts are slow under emulation.
  while ((double)c.n * c.OH() * c.OW() * c.cout * c.fh * c.fw * Words(c.cin / c.groups) > 2e6) c = GenConv(r, p);
#endif
  FillConv(r, c, p.wild_scale);
  return c;
}
// The AArch64 kernels round halfway cases to even, the portable ones away from zero;
// both are allowed (output_transform.h).
bool TiesApart(const std::string& a, const std::string& b) {
  long off = 0;
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    const int d = std::abs((int)(int8_t)a[i] - (int)(int8_t)b[i]);
    if (d > 1) return false;
    off += d;
  }
#ifdef VERIF_A32
  return true;  // each value is compared with the definition anyway
#else
  return off * 20 <= (long)a.size() + 20;
#endif
}
void RunK03(Rng& r, Report& rep) {
  Profile p;
  p.out = kF;
  p.big = true;
  Conv c = MakeConv(r, p);
  ConvCase(r, rep, c, {kRef, kBgemm, kIndirect});
}
void RunK04(Rng& r, Report& rep) {
  Profile p;
  p.out = kI8;
  p.big = true;
  p.wild_scale = true;
  Conv c = MakeConv(r, p);
  ConvCase(r, rep, c, {kRef, kBgemm, kIndirect});
  // "the same for every kernel choice"
  std::string first;
  for (int k : {kRef, kBgemm, kIndirect}) {
    if (!c.Accepts(k)) continue;
    RunOut x = RunConv(c, k, r());
    if (!x.ok) continue;
    if (first.empty()) first = x.bytes;
    else if (first != x.bytes && !(kArm && TiesApart(first, x.bytes))) rep.Viol(std::string("kernel-disagreement:") + KernName(k), c.Str());
    rep.Count("kernel_comparisons");
  }
}
void RunK05(Rng& r, Report& rep) {
  Profile p;
  p.out = kBits;
  p.big = true;
  Conv c = MakeConv(r, p);
  ConvCase(r, rep, c, {kRef, kBgemm, kIndirect});
}
void RunK06(Rng& r, Report& rep) {
  Profile p;
  p.out = kF;
  p.pad = 0;
  p.small_image = Coin(r, 2, 3);
  Conv c = MakeConv(r, p);
  c.act = 0;
  Oracle o = Reference(c);
  for (int m : o.overflow) {
    static const char* names[16] = {"none", "T", "B", "TB", "L", "TL", "BL", "TBL", "R", "TR", "BR", "TBR", "LR", "TLR", "BLR", "TBLR"};
    rep.Count(std::string("border_") + names[m]);
  }
  ConvCase(r, rep, c, {kBgemm, kIndirect, kRef});
}
void Differential(Rng& r, Report& rep, int kern, bool grouped_too) {
  Profile p;
  p.big = true;
  p.groups = grouped_too ? -1 : (Coin(r, 1, 10) ? 1 : 0);
  if (grouped_too && Coin(r, 1, 4)) p.groups = 1;
  Conv c = MakeConv(r, p);
  rep.Count("evaluations");
  if (kern == kBgemm && c.groups > 1) {
    RunOut b = RunConv(c, kern, r());
    rep.Count("grouped_offered");
    if (b.ok) rep.Viol("grouped-accepted", c.Str());
    return;
  }
  if (!c.Accepts(kern) || !c.Accepts(kRef)) {
    rep.Count("not_accepted_by_both");
    return;
  }
  RunOut a = RunConv(c, kRef, r()), b = RunConv(c, kern, r(), Pick(r, {1, 1, 2, 4}));
  if (!a.ok || !b.ok) {
    rep.Count("rejected");
    return;
  }
  rep.Count("compared");
  rep.Count(c.out == kF ? "compared_float" : c.out == kI8 ? "compared_int8" : "compared_bits");
  if (a.dims != b.dims) {
    rep.Viol("shape", c.Str());
    return;
  }
  rep.Count("output_values", (long)a.bytes.size() / (c.out == kI8 ? 1 : 4));
  if (c.out == kF) {
    const float *x = (const float*)a.bytes.data(), *y = (const float*)b.bytes.data();
    for (size_t i = 0; i < a.bytes.size() / 4; ++i) {
      const int oc = (int)(i % c.cout);
      const double tol = 6e-7 * (3.0 * c.K() * std::fabs((double)c.mul[oc]) + std::fabs((double)c.bias[oc]));
      if (!(std::fabs((double)x[i] - (double)y[i]) <= tol)) {
        rep.Viol("value:float", c.Str() + " element " + std::to_string(i) + " reference " + std::to_string(x[i]) + " " + KernName(kern) + " " + std::to_string(y[i]));
        break;
      }
    }
  } else if (a.bytes != b.bytes && !(kArm && c.out == kI8 && TiesApart(a.bytes, b.bytes))) {
    rep.Viol(c.out == kI8 ? "value:int8" : "value:bits", c.Str());
  }
  rep.Sig(c.Str());
  rep.Sample(c.Str());
}
void RunK07(Rng& r, Report& rep) { Differential(r, rep, kBgemm, false); }
void RunK08(Rng& r, Report& rep) { Differential(r, rep, kIndirect, true); }

void RunK09(Rng& r, Report& rep) {
  Profile p;
  p.big = true;
  p.groups = Coin(r, 1, 8) ? 1 : 0;
  p.out = Coin(r) ? kBits : -1;
  Conv c = MakeConv(r, p);
  if (Coin(r) && c.groups == 1 && c.K() < 16000) c.cout = RandInt(r, 30, 130), FillConv(r, c);
  const int kern = c.groups > 1 ? kIndirect : Pick(r, {kBgemm, kBgemm, kBgemm, kIndirect});
  if (!c.Accepts(kern)) return;
  rep.Count("nodes");
  RunOut base = RunConv(c, kern, r(), 1);
  if (!base.ok) return;
  uint64_t scheds = 0;
  for (int th : {2, 3, 8}) {
    MiniInterp m(r(), th);
    ConvNode t = AddConv(m, c, kern);
    if (m.Allocate() != kTfLiteOk) continue;
    for (int i = 0; i < 2; ++i) {
      SetInput(m, t, c);
      if (m.Invoke() != kTfLiteOk) break;
      std::string got(m.Data<char>(t.output), m.T(t.output).bytes);
      rep.Count("evaluations");  // multi-threaded invocations
      if (got != base.bytes) {
        rep.Viol(std::string("thread-dependent:") + KernName(kern), c.Str() + " threads=" + std::to_string(th));
        break;
      }
      rep.Sig(c.Str() + std::to_string(m.ruy()->verif_stats.schedule_hash));
    }
    rep.Count("blocks", m.ruy()->verif_stats.blocks);
    rep.Count("threaded_multiplications", m.ruy()->verif_stats.threaded);
    (void)scheds;
  }
  rep.Sample(c.Str());
}

// ------------------------------------------------------------------- pooling
struct Pool {
  int n, ih, iw, c, fh, fw, sh, sw;
  bool same;
  int OH() const { return same ? (ih + sh - 1) / sh : (ih >= fh ? (ih - fh) / sh + 1 : 0); }
  int OW() const { return same ? (iw + sw - 1) / sw : (iw >= fw ? (iw - fw) / sw + 1 : 0); }
  int PadT() const { return same ? std::max(0, (OH() - 1) * sh + fh - ih) / 2 : 0; }
  int PadL() const { return same ? std::max(0, (OW() - 1) * sw + fw - iw) / 2 : 0; }
  std::vector<int32_t> in;
  std::string Str() const {
    std::ostringstream s;
    s << "pool in=" << n << "x" << ih << "x" << iw << "x" << c << "words filter=" << fh << "x" << fw << " stride=" << sh << "," << sw << (same ? " SAME" : " VALID");
    return s.str();
  }
  std::vector<int32_t> Want() const {
    std::vector<int32_t> o;
    for (int b = 0; b < n; ++b)
      for (int y = 0; y < OH(); ++y)
        for (int x = 0; x < OW(); ++x)
          for (int k = 0; k < c; ++k) {
            uint32_t w = 0;
            for (int bit = 0; bit < 32; ++bit) {
              bool plus = false;
              for (int fy = 0; fy < fh; ++fy)
                for (int fx = 0; fx < fw; ++fx) {
                  int iy = y * sh - PadT() + fy, ix = x * sw - PadL() + fx;
                  if (iy < 0 || iy >= ih || ix < 0 || ix >= iw) continue;
                  plus |= !(((uint32_t)in[((size_t)(b * ih + iy) * iw + ix) * c + k] >> bit) & 1);
                }
              if (!plus) w |= 1u << bit;
            }
            o.push_back((int32_t)w);
          }
    return o;
  }
};
Pool GenPool(Rng& r) {
  Pool p;
  p.n = Pick(r, {1, 1, 2, 3});
  p.ih = RandInt(r, 1, 9);
  p.iw = RandInt(r, 1, 9);
  p.c = Pick(r, {1, 1, 2, 3, 5});
  p.fh = RandInt(r, 1, 5);
  p.fw = Coin(r) ? p.fh : RandInt(r, 1, 6);
  p.sh = RandInt(r, 1, 4);
  p.sw = Coin(r) ? p.sh : RandInt(r, 1, 4);
  p.same = Coin(r);
  if (!p.same) {
    p.ih = std::max(p.ih, p.fh);
    p.iw = std::max(p.iw, p.fw);
  }
  p.in.resize((size_t)p.n * p.ih * p.iw * p.c);
  const int mode = RandInt(r, 0, 3);
  for (auto& v : p.in) v = mode == 0 ? (int32_t)(r() | r() | r()) : mode == 1 ? -1 : (int32_t)r();
  return p;
}
std::vector<uint8_t> PoolOptions(const Pool& p) {
  flexbuffers::Builder f;
  f.Map([&] {
    f.Int("filter_height", p.fh);
    f.Int("filter_width", p.fw);
    f.Int("stride_height", p.sh);
    f.Int("stride_width", p.sw);
    f.Int("padding", p.same ? 0 : 1);
  });
  f.Finish();
  return f.GetBuffer();
}
void RunK10(Rng& r, Report& rep) {
  Pool p = GenPool(r);
  rep.Count("evaluations");
  MiniInterp m(r());
  int in = m.AddTensor(kTfLiteInt32, {p.n, p.ih, p.iw, p.c});
  int out = m.AddTensor(kTfLiteInt32, {1, 1, 1, 1});
  m.AddNode(compute_engine::tflite::Register_BMAXPOOL_2D(), PoolOptions(p), {in}, {out});
  if (m.Allocate() != kTfLiteOk) {
    rep.Viol("rejected", p.Str() + " " + m.last_error);
    return;
  }
  if (m.Dims(out) != std::vector<int>{p.n, p.OH(), p.OW(), p.c}) {
    rep.Viol("shape", p.Str());
    return;
  }
  memcpy(m.Data<int32_t>(in), p.in.data(), 4 * p.in.size());
  if (m.Invoke() != kTfLiteOk) {
    rep.Viol("invoke", p.Str());
    return;
  }
  auto w = p.Want();
  rep.Count("output_words", (long)w.size());
  if (memcmp(w.data(), m.Data<char>(out), 4 * w.size())) rep.Viol(p.same ? "value:SAME" : "value:VALID", p.Str());
  rep.Sig(p.Str());
  rep.Sample(p.Str());
}

// ----------------------------------------------------- quantize / dequantize
std::vector<int> RandDims(Rng& r, int* rows, int* cols) {
  const int rank = RandInt(r, 1, 5);
  std::vector<int> d;
  *rows = 1;
  for (int i = 0; i + 1 < rank; ++i) {
    d.push_back(Coin(r, 1, 25) ? 0 : RandInt(r, 1, 4));
    *rows *= d.back();
  }
  *cols = Coin(r) ? RandInt(r, 1, 70) : Pick(r, {1, 31, 32, 33, 64, 95, 128, 129});
  d.push_back(*cols);
  return d;
}
void RunK11(Rng& r, Report& rep) {
  rep.Count("evaluations");
  int rows, cols;
  auto d = RandDims(r, &rows, &cols);
  auto pd = d;
  pd.back() = Words(cols);
  const int W = Words(cols);
  const TfLiteType ty = Pick(r, {kTfLiteFloat32, kTfLiteInt8, kTfLiteBool});
  const char* tn = ty == kTfLiteFloat32 ? "float" : ty == kTfLiteInt8 ? "int8" : "bool";
  float scale = Coin(r) ? 1.f / RandInt(r, 1, 127) : (Coin(r) ? RandUnit(r) * 3 + 1e-3f : std::ldexp(1.f, RandInt(r, -60, 10)));
  int zp = Coin(r) ? RandInt(r, -128, 127) : Pick(r, {-128, -127, 0, 126, 127});
  char desc[160];
  snprintf(desc, sizeof desc, "%s rank=%d rows=%d cols=%d scale=%g zp=%d", tn, (int)d.size(), rows, cols, (double)scale, zp);
  // 1. quantize
  {
    MiniInterp m(r());
    int in = m.AddTensor(ty, d);
    if (ty == kTfLiteInt8) m.Quantize(in, scale, zp);
    std::vector<int> od(d.size(), 1);
    int out = m.AddTensor(kTfLiteInt32, od);
    m.AddNode(compute_engine::tflite::Register_QUANTIZE(), {}, {in}, {out});
    if (m.Allocate() != kTfLiteOk) {
      rep.Viol(std::string("quantize-rejected:") + tn, desc);
      return;
    }
    if (m.Dims(out) != pd) {
      rep.Viol("quantize-shape", desc);
      return;
    }
    for (int i = 0; i < rows * cols; ++i) {
      if (ty == kTfLiteFloat32) m.Data<float>(in)[i] = AnyValue<float>(r, 0);
      else if (ty == kTfLiteInt8) m.Data<int8_t>(in)[i] = AnyValue<int8_t>(r, zp);
      else m.Data<uint8_t>(in)[i] = Coin(r);
    }
    if (m.Invoke() != kTfLiteOk) {
      rep.Viol("quantize-invoke", desc);
      return;
    }
    for (int y = 0; y < rows; ++y)
      for (int w = 0; w < W; ++w) {
        uint32_t want = 0, by_sign = 0;
        for (int b = 0; b < 32 && w * 32 + b < cols; ++b) {
          int i = y * cols + w * 32 + b;
          bool neg;
          if (ty == kTfLiteFloat32 && std::signbit(m.Data<float>(in)[i])) by_sign |= 1u << b;
          if (ty == kTfLiteFloat32) neg = m.Data<float>(in)[i] < 0;
          else if (ty == kTfLiteInt8) neg = m.Data<int8_t>(in)[i] < zp;
          else neg = m.Data<uint8_t>(in)[i] == 0;
          if (neg) want |= 1u << b;
        }
        rep.Count("quantized_words");
        if (kA64 && ty == kTfLiteFloat32 && m.Data<uint32_t>(out)[y * W + w] != want && m.Data<uint32_t>(out)[y * W + w] == by_sign && WholeBlock(rows, cols, y, w)) {
          rep.Viol("sign-bit-packed", "negative zeros and NaNs whose sign bit is set are packed as -1");
          continue;
        }
        if (m.Data<uint32_t>(out)[y * W + w] != want) {
          rep.Viol(std::string("quantize:") + tn, desc);
          return;
        }
      }
  }
  // 2. dequantize, then quantize again
  {
    MiniInterp m(r());
    int in = m.AddTensor(kTfLiteInt32, pd);
    int mid = m.AddTensor(ty, d);
    if (ty == kTfLiteInt8) m.Quantize(mid, scale, zp);
    std::vector<int> od(d.size(), 1);
    int out = m.AddTensor(kTfLiteInt32, od);
    m.AddNode(compute_engine::tflite::Register_DEQUANTIZE(), {}, {in}, {mid});
    m.AddNode(compute_engine::tflite::Register_QUANTIZE(), {}, {mid}, {out});
    if (m.Allocate() != kTfLiteOk) {
      rep.Viol(std::string("dequantize-rejected:") + tn, desc);
      return;
    }
    for (int i = 0; i < rows * W; ++i) m.Data<uint32_t>(in)[i] = (uint32_t)r();
    if (m.Invoke() != kTfLiteOk) {
      rep.Viol("dequantize-invoke", desc);
      return;
    }
    const double off = std::round((double)(1.0f / scale));
    // Ties in round(1/scale) may go either way.
    const double hi = std::min(127.0, zp + off), lo = std::max(-128.0, zp - off);
    for (int y = 0; y < rows; ++y)
      for (int x = 0; x < cols; ++x) {
        const bool bit = (m.Data<uint32_t>(in)[y * W + x / 32] >> (x % 32)) & 1;
        int i = y * cols + x;
        bool ok;
        if (ty == kTfLiteFloat32) ok = m.Data<float>(mid)[i] == (bit ? -1.f : 1.f);
        else if (ty == kTfLiteBool) ok = m.Data<uint8_t>(mid)[i] == (bit ? 0 : 1);
        else {
          double g = m.Data<int8_t>(mid)[i];
          ok = g == (bit ? lo : hi);
          if (!ok && std::fabs((double)(1.0f / scale) - std::floor(1.0f / scale) - 0.5) < 1e-6)
            ok = std::fabs(g - (bit ? lo : hi)) <= 1;
        }
        rep.Count("dequantized_values");
        if (!ok) {
          rep.Viol(std::string("dequantize:") + tn, std::string(desc) + " bit=" + std::to_string(bit) + (ty == kTfLiteInt8 ? " got " + std::to_string(m.Data<int8_t>(mid)[i]) : ""));
          return;
        }
      }
    const bool separates = ty != kTfLiteInt8 || (lo < zp && hi >= zp);
    if (separates)
      for (int y = 0; y < rows; ++y)
        for (int w = 0; w < W; ++w) {
          uint32_t mk = (w == W - 1 && cols % 32) ? ((1u << (cols % 32)) - 1) : ~0u;
          rep.Count("roundtrip_words");
          if (m.Data<uint32_t>(out)[y * W + w] != (m.Data<uint32_t>(in)[y * W + w] & mk)) {
            rep.Viol(std::string("roundtrip:") + tn, desc);
            return;
          }
        }
  }
  rep.Sig(desc);
  rep.Sample(desc);
}

#include "k12.inc"
#include "k13.inc"

// ----------------------------------------------------------------------- K14
void RunK14(Rng& r, Report& rep) {
  rep.Count("evaluations");
  const int what = RandInt(r, 0, 9);
  if (what < 7) {
    Profile p;
    p.big = true;
    p.wild_scale = true;
    Conv c = MakeConv(r, p);
    const int kern = RandInt(r, 0, 2);
    if (!c.Accepts(kern)) return;
    const uint64_t s = r();
    std::string first;
    for (int v = 0; v < 3; ++v) {
      MiniInterp m(s + v * 977, Pick(r, {1, 1, 3}));
      ConvNode t = AddConv(m, c, kern);
      if (m.Allocate() != kTfLiteOk) return;
      if (v == 1) m.SlackValue(0x00);
      if (v == 2) m.SlackValue(0xFF);
      SetInput(m, t, c);
      if (m.Invoke() != kTfLiteOk) return;
      rep.Count("memory_checks", m.mem_checks);
      rep.Count("runs");
      if (!m.mem_fault.empty()) rep.Viol(std::string("memory:") + KernName(kern), c.Str() + ": " + m.mem_fault);
      std::string got(m.Data<char>(t.output), m.T(t.output).bytes);
      if (v == 0) first = got;
      else if (got != first) rep.Viol(std::string("slack-dependent:") + KernName(kern), c.Str());
    }
    rep.Sig(c.Str() + KernName(kern));
    rep.Sample(c.Str() + " " + KernName(kern));
  } else if (what < 8) {
    Pool p = GenPool(r);
    std::string first;
    for (int v = 0; v < 2; ++v) {
      MiniInterp m(r());
      int in = m.AddTensor(kTfLiteInt32, {p.n, p.ih, p.iw, p.c});
      int out = m.AddTensor(kTfLiteInt32, {1, 1, 1, 1});
      m.AddNode(compute_engine::tflite::Register_BMAXPOOL_2D(), PoolOptions(p), {in}, {out});
      if (m.Allocate() != kTfLiteOk) return;
      memcpy(m.Data<int32_t>(in), p.in.data(), 4 * p.in.size());
      if (m.Invoke() != kTfLiteOk) return;
      rep.Count("memory_checks", m.mem_checks);
      rep.Count("runs");
      if (!m.mem_fault.empty()) rep.Viol("memory:bmaxpool", p.Str() + ": " + m.mem_fault);
      std::string got(m.Data<char>(out), m.T(out).bytes);
      if (v == 0) first = got;
      else if (got != first) rep.Viol("slack-dependent:bmaxpool", p.Str());
    }
    rep.Sig(p.Str());
  } else {
    int rows, cols;
    auto d = RandDims(r, &rows, &cols);
    const TfLiteType ty = Pick(r, {kTfLiteFloat32, kTfLiteInt8, kTfLiteBool});
    float scale = Coin(r) ? 1.f / RandInt(r, 1, 127) : std::ldexp(1.f, RandInt(r, -60, 10));
    int zp = RandInt(r, -128, 127);
    std::vector<int> pd = d;
    pd.back() = Words(cols);
    std::string first;
    uint64_t ds = r();
    for (int v = 0; v < 2; ++v) {
      MiniInterp m(r());
      int in = m.AddTensor(kTfLiteInt32, pd), mid = m.AddTensor(ty, d);
      if (ty == kTfLiteInt8) m.Quantize(mid, scale, zp);
      int out = m.AddTensor(kTfLiteInt32, std::vector<int>(d.size(), 1));
      m.AddNode(compute_engine::tflite::Register_DEQUANTIZE(), {}, {in}, {mid});
      m.AddNode(compute_engine::tflite::Register_QUANTIZE(), {}, {mid}, {out});
      if (m.Allocate() != kTfLiteOk) return;
      Rng q(ds);
      for (int i = 0; i < rows * Words(cols); ++i) m.Data<uint32_t>(in)[i] = (uint32_t)q();
      if (m.Invoke() != kTfLiteOk) return;
      rep.Count("memory_checks", m.mem_checks);
      rep.Count("runs");
      if (!m.mem_fault.empty()) rep.Viol("memory:quantize", m.mem_fault);
      std::string got(m.Data<char>(out), m.T(out).bytes);
      got += std::string(m.Data<char>(mid), m.T(mid).bytes);
      if (v == 0) first = got;
      else if (got != first) rep.Viol("slack-dependent:quantize", std::to_string(cols));
    }
    // Packing with zero points outside of the value range, which no operator
    // combination above reaches.
    PackCase<int8_t>(r, rep, "int8");
    rep.Sig("q" + std::to_string(rows) + "," + std::to_string(cols) + "," + std::to_string(zp));
  }
}

#if defined(VERIF_A64) || defined(VERIF_A32)
// -------------------------------------------------------------- A01, A02, A03
// Convolutions whose depth needs, or just does not need, 32-bit accumulators.
void DeepCase(Rng& r, Report& rep) {
  Conv c;
  c.out = RandInt(r, 0, 2);
  const bool tiny_image = Coin(r);  // a filter larger than the image
  c.n = Pick(r, {1, 1, 2});
  c.same = tiny_image || Coin(r);
  c.pad_value = c.out != kF || Coin(r, 3, 4) ? 1 : 0;
  c.fh = Pick(r, {1, 2, 3, 4, 5, 7, 9});
  c.fw = Pick(r, {1, 2, 3, 4, 5, 7, 9});
  const int target = Pick(r, {64000, 65000, 65023, 65024, 65100, 65504, 65535, 65536, 66000, 70000, 80000});
  c.groups = Coin(r, 1, 4) ? Pick(r, {2, 4}) : 1;
  // A filter whose size is exactly the edge, or a few words away from it.
  const bool edge = Coin(r);
  if (edge) {
    c.fh = Pick(r, {1, 2, 4, 8});
    c.fw = Pick(r, {1, 2, 4, 8});
    c.cin = c.groups * (65536 / (c.fh * c.fw) + (Coin(r) ? 0 : 32 * RandInt(r, -2, 1)));
    c.cout = c.groups * (c.groups > 1 ? RandInt(r, 1, 9) : Pick(r, {1, 4, 5, 8, 11, 17}));
  } else if (c.groups > 1) {
    c.cin = c.groups * 32 * std::max(1, target / 32 / (c.fh * c.fw));
    c.cout = c.groups * RandInt(r, 1, 9);
  } else {
    c.cin = std::max(1, target / (c.fh * c.fw)) + RandInt(r, -40, 140);
    if (Coin(r)) c.cin = c.cin / 32 * 32;
    c.cin = std::max(c.cin, 1);
    c.cout = Pick(r, {1, 3, 4, 5, 7, 8, 9, 11, 13, 16, 17});
  }
  c.ih = tiny_image ? RandInt(r, 1, 3) : (c.same ? RandInt(r, 1, 3) : c.fh + RandInt(r, 0, 1));
  c.iw = tiny_image ? RandInt(r, 1, 3) : (c.same ? RandInt(r, 1, 3) : c.fw + RandInt(r, 0, 2));
  c.sh = Pick(r, {1, 1, 2});
  c.sw = Pick(r, {1, 1, 2});
  c.dh = c.dw = 1;
  c.act = c.pad_value == 0 ? 0 : Coin(r, 2, 3) ? 0 : RandInt(r, 1, 3);
  FillConv(r, c);
  switch (edge && Coin(r, 2, 3) ? 0 : RandInt(r, 0, 3)) {  // sums at the ends of the range
    case 0: std::fill(c.in.begin(), c.in.end(), 1), std::fill(c.filt.begin(), c.filt.end(), -1); break;
    case 1: std::fill(c.in.begin(), c.in.end(), -1), std::fill(c.filt.begin(), c.filt.end(), 1); break;
    case 2:
      for (size_t i = 0; i < c.filt.size(); ++i) c.filt[i] = Coin(r, 1, 200) ? 1 : -1;
      std::fill(c.in.begin(), c.in.end(), 1);
      break;
    default: break;
  }
  const long acc = (long)c.fh * c.fw * Words(c.cin / c.groups) * 32;
  if (acc == 65536) rep.Count("deep_exactly_2_to_16");
  rep.Count(acc + 512 < 65536 ? "deep_16_bit" : acc < 65536 ? "deep_between" : "deep_32_bit");
  ConvCase(r, rep, c, {kBgemm, kIndirect});
}
void RunA01(Rng& r, Report& rep) {
  switch (RandInt(r, 0, 15)) {
    case 0: case 1: RunK03(r, rep); break;
    case 2: case 3: RunK04(r, rep); break;
    case 4: case 5: RunK05(r, rep); break;
    case 6: RunK06(r, rep); break;
    case 7: case 8: RunK07(r, rep); break;
    case 9: case 10: RunK08(r, rep); break;
    case 11: RunK13(r, rep); break;
    case 12: case 13: RunK14(r, rep); break;
    case 14: RunK10(r, rep); break;
    case 15: DeepCase(r, rep); break;
  }
}
void RunA02(Rng& r, Report& rep) {
  if (Coin(r, 1, 4)) RunK11(r, rep);
  else RunK01(r, rep);
}
void RunA03(Rng& r, Report& rep) {
  if (Coin(r, 1, 5)) RunA02(r, rep);
  else RunA01(r, rep);
}
#endif

int main(int argc, char** argv) {
  std::string id = argc > 1 ? argv[1] : "";
  uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
  long first = argc > 3 ? atol(argv[3]) : 0, count = argc > 4 ? atol(argv[4]) : 100;
  const char* progress = argc > 5 ? argv[5] : nullptr;
  volatile uint64_t* prog = nullptr;
  if (progress) {
    int fd = open(progress, O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && ftruncate(fd, 8) == 0)
      prog = (volatile uint64_t*)mmap(0, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (prog == MAP_FAILED) prog = nullptr;
  }
  void (*fn)(Rng&, Report&) = nullptr;
  std::map<std::string, void (*)(Rng&, Report&)> fns = {
      {"K01", RunK01}, {"K02", RunK02}, {"K03", RunK03}, {"K04", RunK04}, {"K05", RunK05},
      {"K06", RunK06}, {"K07", RunK07}, {"K08", RunK08}, {"K09", RunK09}, {"K10", RunK10},
      {"K11", RunK11}, {"K12", RunK12}, {"K13", RunK13}, {"K14", RunK14}, {"K16", RunK16}};
#ifdef VERIF_A64
  fns["A01"] = RunA01;
  fns["A02"] = RunA02;
#endif
#ifdef VERIF_A32
  fns["A03"] = RunA03;
#endif
  fn = fns[id];
  if (!fn) return 3;
  Report rep;
  for (long i = first; i < first + count; ++i) {
    rep.cur = (uint64_t)i;
    if (prog) *prog = (uint64_t)i;
    Rng r(seed * 1000003ull + (uint64_t)i * 7919ull + 17);
    for (int k = 0; k < 4; ++k) r();
    fn(r, rep);
  }
#ifdef VERIF_A64
  a64::ReportTo([&](const std::string& k, long n) { rep.Count(k, n); });
#endif
#ifdef VERIF_A32
  a32::ReportTo([&](const std::string& k, long n) { rep.Count(k, n); });
#endif
  rep.Finish();
  return 0;
}

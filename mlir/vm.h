// Executes functions of the MLIR subset the converter deals with, straight from the
// operators' definitions. Nothing of /repo is used here: this is the oracle.
#ifndef VERIF_VM_H_
#define VERIF_VM_H_
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Quant/QuantOps.h"
#include "mlir/Dialect/Quant/QuantTypes.h"
#include "mlir/IR/BuiltinAttributes.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/BuiltinTypes.h"
#include "llvm/ADT/TypeSwitch.h"

namespace vm {
enum DT { F32, F16, BF16, F64, I1, I8, I32, I64, QI8, QU8, QI16, NONE, OTHER };
struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };

struct T {
  DT dt = NONE;
  std::vector<int64_t> shape;
  std::vector<double> v;
  double scale = 1;
  int64_t zp = 0;
  int64_t n() const { int64_t k = 1; for (auto d : shape) k *= d; return k; }
  std::string str(size_t most = 12) const {
    std::string s = "[";
    for (auto d : shape) s += std::to_string(d) + ",";
    s += "]{";
    for (size_t i = 0; i < v.size() && i < most; ++i) { char b[40]; snprintf(b, 40, "%.9g ", v[i]); s += b; }
    return s + (v.size() > most ? "...}" : "}");
  }
};

inline DT dtOf(mlir::Type e, double* scale = nullptr, int64_t* zp = nullptr) {
  if (e.isF32()) return F32;
  if (e.isF16()) return F16;
  if (e.isBF16()) return BF16;
  if (e.isF64()) return F64;
  if (e.isInteger(1)) return I1;
  if (e.isInteger(8)) return I8;
  if (e.isInteger(32)) return I32;
  if (e.isInteger(64)) return I64;
  if (auto q = llvm::dyn_cast<mlir::quant::UniformQuantizedType>(e)) {
    if (scale) *scale = q.getScale();
    if (zp) *zp = q.getZeroPoint();
    if (q.getStorageTypeIntegralWidth() == 8) return q.isSigned() ? QI8 : QU8;
    if (q.getStorageTypeIntegralWidth() == 16 && q.isSigned()) return QI16;
  }
  return OTHER;
}

// An empty tensor of the type (dynamic dimensions become `dyn`).
inline T blank(mlir::Type t, int64_t dyn = 2) {
  T r;
  if (llvm::isa<mlir::NoneType>(t)) return r;
  auto s = llvm::dyn_cast<mlir::ShapedType>(t);
  if (!s || !s.hasRank()) throw Fail("a value without a ranked tensor type");
  r.dt = dtOf(s.getElementType(), &r.scale, &r.zp);
  for (int64_t d : s.getShape()) r.shape.push_back(mlir::ShapedType::isDynamic(d) ? dyn : d);
  r.v.assign(r.n(), 0);
  return r;
}

inline double rnd(DT dt, double x) {
  if (dt == F32) return (float)x;
  if (dt == I32) return (double)(int32_t)(int64_t)x;
  if (dt == F16 || dt == BF16) {
    llvm::APFloat a(x);
    bool lost;
    a.convert(dt == F16 ? llvm::APFloat::IEEEhalf() : llvm::APFloat::BFloat(), llvm::APFloat::rmNearestTiesToEven, &lost);
    a.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lost);
    return a.convertToDouble();
  }
  return x;
}
inline double quantized(DT dt, double real, double scale, int64_t zp) {
  double q = std::round((float)real / (float)scale) + zp;
  double lo = dt == QI8 ? -128 : dt == QU8 ? 0 : -32768, hi = dt == QI8 ? 127 : dt == QU8 ? 255 : 32767;
  if (q != q) return 0;
  return q < lo ? lo : q > hi ? hi : q;
}

inline T fromAttr(mlir::Attribute a, mlir::Type type) {
  T r = blank(type);
  auto d = llvm::dyn_cast<mlir::DenseElementsAttr>(a);
  if (!d) throw Fail("a constant that is not dense");
  if (llvm::isa<mlir::FloatType>(d.getElementType())) {
    size_t i = 0;
    for (const llvm::APFloat& f : d.getValues<llvm::APFloat>()) {
      llvm::APFloat g = f;
      bool lost;
      g.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lost);
      r.v.at(i++) = g.convertToDouble();
    }
  } else if (d.getElementType().isIntOrIndex()) {
    size_t i = 0;
    for (const llvm::APInt& f : d.getValues<llvm::APInt>())
      r.v.at(i++) = r.dt == I1 || r.dt == QU8 ? (double)f.getZExtValue() : (double)f.getSExtValue();
  } else {  // quantized element types hold their storage
    size_t i = 0;
    if (d.isSplat() && false) return r;
    auto raw = d.getRawData();
    size_t w = r.dt == QI16 ? 2 : 1;
    if (d.isSplat()) {
      double x = w == 1 ? (r.dt == QU8 ? (double)(uint8_t)raw[0] : (double)(int8_t)raw[0]) : (double)*(const int16_t*)raw.data();
      for (auto& y : r.v) y = x;
    } else {
      for (i = 0; i < r.v.size(); ++i)
        r.v[i] = w == 1 ? (r.dt == QU8 ? (double)(uint8_t)raw[i] : (double)(int8_t)raw[i]) : (double)((const int16_t*)raw.data())[i];
    }
  }
  return r;
}

inline std::vector<int64_t> bshape(const std::vector<int64_t>& a, const std::vector<int64_t>& b) {
  size_t n = std::max(a.size(), b.size());
  std::vector<int64_t> r(n);
  for (size_t i = 0; i < n; ++i) {
    int64_t x = i + a.size() < n ? 1 : a[i + a.size() - n], y = i + b.size() < n ? 1 : b[i + b.size() - n];
    if (x != y && x != 1 && y != 1) throw Fail("shapes that do not broadcast");
    r[i] = x == 1 ? y : x;
  }
  return r;
}
// Calls f(flat index of the result, flat index into each operand).
inline T broadcasted(const std::vector<const T*>& in, DT dt, const std::function<double(const std::vector<double>&)>& f) {
  T r;
  r.dt = dt;
  for (auto* t : in) r.shape = bshape(r.shape, t->shape);
  r.v.resize(r.n());
  std::vector<int64_t> ix(r.shape.size(), 0);
  std::vector<double> x(in.size());
  for (size_t k = 0; k < r.v.size(); ++k) {
    size_t q = k;
    for (size_t d = ix.size(); d-- > 0;) ix[d] = q % r.shape[d], q /= r.shape[d];
    for (size_t j = 0; j < in.size(); ++j) {
      int64_t o = 0;
      size_t off = ix.size() - in[j]->shape.size();
      for (size_t d = 0; d < in[j]->shape.size(); ++d) o = o * in[j]->shape[d] + (in[j]->shape[d] == 1 ? 0 : ix[off + d]);
      x[j] = in[j]->v[o];
    }
    r.v[k] = f(x);
  }
  return r;
}

inline double act(llvm::StringRef a, double x) {
  if (a == "NONE") return x;
  if (a == "RELU") return x < 0 ? 0 : x;
  if (a == "RELU_N1_TO_1") return x < -1 ? -1 : x > 1 ? 1 : x;
  if (a == "RELU6") return x < 0 ? 0 : x > 6 ? 6 : x;
  throw Fail("activation " + a.str());
}

struct Win { int64_t out, before; };
inline Win window(bool same, int64_t in, int64_t f, int64_t s, int64_t d) {
  int64_t e = (f - 1) * d + 1;
  if (!same) return {in < e ? 0 : (in - e) / s + 1, 0};
  int64_t out = (in + s - 1) / s, total = std::max<int64_t>(0, (out - 1) * s + e - in);
  return {out, total / 2};
}

// out[n,y,x,o] = sum over the window of in * filter(fy, fx, i, o); outside reads `pad`.
inline T conv(const T& in, int64_t FH, int64_t FW, int64_t I, int64_t O, const std::function<double(int64_t, int64_t, int64_t, int64_t)>& filter,
              Win h, Win w, int64_t sh, int64_t sw, int64_t dh, int64_t dw, double pad) {
  T r;
  r.dt = F64;
  int64_t N = in.shape[0], H = in.shape[1], W = in.shape[2], C = in.shape[3];
  if (I == 0 || C % I || O % (C / I)) throw Fail("a convolution whose groups do not fit");
  int64_t og = O / (C / I);
  r.shape = {N, h.out, w.out, O};
  r.v.assign(r.n(), 0);
  size_t k = 0;
  for (int64_t n = 0; n < N; ++n)
    for (int64_t y = 0; y < h.out; ++y)
      for (int64_t x = 0; x < w.out; ++x)
        for (int64_t o = 0; o < O; ++o, ++k) {
          double s = 0;
          for (int64_t fy = 0; fy < FH; ++fy)
            for (int64_t fx = 0; fx < FW; ++fx) {
              int64_t iy = y * sh - h.before + fy * dh, ix = x * sw - w.before + fx * dw;
              bool inside = iy >= 0 && iy < H && ix >= 0 && ix < W;
              if (!inside && pad == 0) continue;
              for (int64_t i = 0; i < I; ++i)
                s += (inside ? in.v[((n * H + iy) * W + ix) * C + o / og * I + i] : pad) * filter(fy, fx, i, o);
            }
          r.v[k] = s;
        }
  return r;
}

inline T pack(const T& x) {  // bit set iff negative (below the zero point, false)
  T r;
  r.dt = I32;
  r.shape = x.shape;
  if (r.shape.empty()) throw Fail("packing a scalar");
  int64_t C = x.shape.back(), P = (C + 31) / 32, rows = C ? x.n() / C : 0;
  r.shape.back() = P;
  r.v.assign(r.n(), 0);
  double zero = x.dt == QI8 || x.dt == QU8 || x.dt == QI16 ? (double)x.zp : x.dt == I1 ? 0.5 : 0;
  for (int64_t i = 0; i < rows; ++i)
    for (int64_t p = 0; p < P; ++p) {
      uint32_t w = 0;
      for (int64_t b = 0; b < 32 && p * 32 + b < C; ++b)
        if (x.v[i * C + p * 32 + b] < zero) w |= 1u << b;
      r.v[i * P + p] = (double)(int32_t)w;
    }
  return r;
}
// ±1 of packed words
inline T unpack(const T& x, int64_t C) {
  T r;
  r.dt = F32;
  r.shape = x.shape;
  if (r.shape.empty()) throw Fail("unpacking a scalar");
  int64_t P = x.shape.back(), rows = P ? x.n() / P : 0;
  if (P != (C + 31) / 32) throw Fail("channel count and words do not agree");
  r.shape.back() = C;
  r.v.resize(r.n());
  for (int64_t i = 0; i < rows; ++i)
    for (int64_t c = 0; c < C; ++c) r.v[i * C + c] = ((uint32_t)(int32_t)x.v[i * P + c / 32] >> (c % 32)) & 1 ? -1 : 1;
  return r;
}

struct VM {
  std::map<void*, T> env;
  // Called for operators the table does not know; false means unsupported.
  std::function<bool(mlir::Operation*, VM&)> extra;
  long ops = 0;

  const T& get(mlir::Value v) {
    auto i = env.find(v.getAsOpaquePointer());
    if (i == env.end()) throw Fail("a value used before it is computed");
    return i->second;
  }
  void set(mlir::Value v, T t) {
    if (auto s = llvm::dyn_cast<mlir::ShapedType>(v.getType())) {
      if (s.hasRank()) {
        bool ok = s.getShape().size() == t.shape.size();
        for (size_t i = 0; ok && i < t.shape.size(); ++i) ok = mlir::ShapedType::isDynamic(s.getShape()[i]) || s.getShape()[i] == t.shape[i];
        if (!ok) {
          std::string e;
          llvm::raw_string_ostream os(e);
          v.print(os);
          throw Fail("the computed shape " + t.str(0) + " is not the declared one: " + os.str());
        }
      }
      double sc = 1;
      int64_t zp = 0;
      DT d = dtOf(s.getElementType(), &sc, &zp);
      if (d != t.dt) throw Fail("the computed type is not the declared one");
      t.scale = sc;
      t.zp = zp;
    }
    env[v.getAsOpaquePointer()] = std::move(t);
  }
  static int64_t ia(mlir::Operation* o, llvm::StringRef n, int64_t dflt = -999999) {
    if (auto a = o->getAttrOfType<mlir::IntegerAttr>(n)) return a.getValue().getSExtValue();
    if (dflt == -999999) throw Fail("no attribute " + n.str());
    return dflt;
  }
  static llvm::StringRef sa(mlir::Operation* o, llvm::StringRef n, llvm::StringRef dflt = "") {
    auto a = o->getAttrOfType<mlir::StringAttr>(n);
    return a ? a.getValue() : dflt;
  }
  static std::vector<int64_t> la(mlir::Operation* o, llvm::StringRef n, std::vector<int64_t> dflt = {}) {
    auto a = o->getAttrOfType<mlir::ArrayAttr>(n);
    if (!a || a.empty()) return dflt;
    std::vector<int64_t> r;
    for (auto x : a) r.push_back(llvm::cast<mlir::IntegerAttr>(x).getInt());
    return r;
  }
  static mlir::Type el(mlir::Value v) { return mlir::getElementTypeOrSelf(v.getType()); }

  std::vector<T> run(mlir::func::FuncOp f, const std::vector<T>& args) {
    env.clear();
    auto& b = f.getBody().front();
    if (b.getNumArguments() != args.size()) throw Fail("argument count");
    for (size_t i = 0; i < args.size(); ++i) set(b.getArgument(i), args[i]);
    for (auto& op : b) {
      ++ops;
      if (op.getName().getStringRef() == "func.return") {
        std::vector<T> r;
        for (auto v : op.getOperands()) r.push_back(get(v));
        return r;
      }
      exec(&op);
    }
    throw Fail("no return");
  }

  T convFloat(mlir::Operation* op, bool tfl, bool depthwise) {
    T in = get(op->getOperand(0)), f = get(op->getOperand(1));
    if (in.shape.size() != 4 || f.shape.size() != 4) throw Fail("conv rank");
    int64_t sh, sw, dh, dw;
    Win h, w;
    bool nchw = false;
    T bias;
    llvm::StringRef a = "NONE";
    int64_t FH, FW, I, O;
    std::function<double(int64_t, int64_t, int64_t, int64_t)> fl;
    if (tfl) {
      sh = ia(op, "stride_h"), sw = ia(op, "stride_w"), dh = ia(op, "dilation_h_factor"), dw = ia(op, "dilation_w_factor");
      a = sa(op, "fused_activation_function");
      FH = f.shape[1], FW = f.shape[2];
      if (depthwise) {
        O = f.shape[3], I = 1;
        int64_t m = ia(op, "depth_multiplier");
        if (f.shape[0] != 1 || O != in.shape[3] * m) throw Fail("depthwise shape");
        fl = [&f](int64_t y, int64_t x, int64_t i, int64_t o) { return f.v[(y * f.shape[2] + x) * f.shape[3] + o]; };
      } else {
        O = f.shape[0], I = f.shape[3];
        fl = [&f](int64_t y, int64_t x, int64_t i, int64_t o) { return f.v[((o * f.shape[1] + y) * f.shape[2] + x) * f.shape[3] + i]; };
      }
      bool same = sa(op, "padding") == "SAME";
      h = window(same, in.shape[1], FH, sh, dh);
      w = window(same, in.shape[2], FW, sw, dw);
      bias = get(op->getOperand(2));
    } else {
      nchw = sa(op, "data_format", "NHWC") == "NCHW";
      auto st = la(op, "strides"), di = la(op, "dilations", {1, 1, 1, 1});
      int hi = nchw ? 2 : 1, wi = nchw ? 3 : 2, ci = nchw ? 1 : 3;
      if (st.size() != 4 || di.size() != 4 || st[0] != 1 || st[ci] != 1 || di[0] != 1 || di[ci] != 1) throw Fail("conv strides");
      sh = st[hi], sw = st[wi], dh = di[hi], dw = di[wi];
      if (nchw) in = transpose(in, {0, 2, 3, 1});
      FH = f.shape[0], FW = f.shape[1], I = f.shape[2], O = f.shape[3];
      fl = [&f](int64_t y, int64_t x, int64_t i, int64_t o) { return f.v[((y * f.shape[1] + x) * f.shape[2] + i) * f.shape[3] + o]; };
      auto p = sa(op, "padding");
      if (p == "EXPLICIT") {
        auto e = la(op, "explicit_paddings");
        if (e.size() != 8) throw Fail("explicit paddings");
        int64_t eh = (FH - 1) * dh + 1, ew = (FW - 1) * dw + 1;
        int64_t th = in.shape[1] + e[2 * hi] + e[2 * hi + 1], tw = in.shape[2] + e[2 * wi] + e[2 * wi + 1];
        h = {th < eh ? 0 : (th - eh) / sh + 1, e[2 * hi]};
        w = {tw < ew ? 0 : (tw - ew) / sw + 1, e[2 * wi]};
      } else {
        h = window(p == "SAME", in.shape[1], FH, sh, dh);
        w = window(p == "SAME", in.shape[2], FW, sw, dw);
      }
    }
    T r = conv(in, FH, FW, I, O, fl, h, w, sh, sw, dh, dw, 0);
    for (size_t k = 0; k < r.v.size(); ++k) {
      double x = (float)r.v[k];
      if (bias.dt != NONE) x = (float)(x + bias.v.at(bias.v.size() == 1 ? 0 : k % O));
      r.v[k] = act(a, x);
    }
    r.dt = F32;
    return nchw ? transpose(r, {0, 3, 1, 2}) : r;
  }

  static T transpose(const T& x, const std::vector<int64_t>& p) {
    T r = x;
    if (p.size() != x.shape.size()) throw Fail("transpose rank");
    for (size_t i = 0; i < p.size(); ++i) r.shape[i] = x.shape.at(p[i]);
    std::vector<int64_t> ix(p.size()), src(p.size());
    for (size_t k = 0; k < r.v.size(); ++k) {
      size_t q = k;
      for (size_t d = ix.size(); d-- > 0;) ix[d] = q % r.shape[d], q /= r.shape[d];
      for (size_t d = 0; d < ix.size(); ++d) src[p[d]] = ix[d];
      int64_t o = 0;
      for (size_t d = 0; d < ix.size(); ++d) o = o * x.shape[d] + src[d];
      r.v[k] = x.v[o];
    }
    return r;
  }

  static T pad(const T& x, const T& p, double value) {
    T r = x;
    size_t n = x.shape.size();
    if (p.v.size() != 2 * n) throw Fail("pad amounts");
    for (size_t d = 0; d < n; ++d) r.shape[d] += (int64_t)p.v[2 * d] + (int64_t)p.v[2 * d + 1];
    r.v.assign(r.n(), value);
    std::vector<int64_t> ix(n);
    for (size_t k = 0; k < r.v.size(); ++k) {
      size_t q = k;
      for (size_t d = n; d-- > 0;) ix[d] = q % r.shape[d], q /= r.shape[d];
      int64_t o = 0;
      bool in = true;
      for (size_t d = 0; d < n; ++d) {
        int64_t i = ix[d] - (int64_t)p.v[2 * d];
        in = in && i >= 0 && i < x.shape[d];
        o = o * x.shape[d] + i;
      }
      if (in) r.v[k] = x.v[o];
    }
    return r;
  }

  static T maxpool(const T& x, bool same, int64_t fh, int64_t fw, int64_t sh, int64_t sw) {
    if (x.shape.size() != 4) throw Fail("pool rank");
    Win h = window(same, x.shape[1], fh, sh, 1), w = window(same, x.shape[2], fw, sw, 1);
    T r = x;
    r.shape = {x.shape[0], h.out, w.out, x.shape[3]};
    r.v.assign(r.n(), 0);
    size_t k = 0;
    for (int64_t n = 0; n < r.shape[0]; ++n)
      for (int64_t y = 0; y < h.out; ++y)
        for (int64_t z = 0; z < w.out; ++z)
          for (int64_t c = 0; c < r.shape[3]; ++c, ++k) {
            bool any = false;
            double m = 0;
            for (int64_t a = 0; a < fh; ++a)
              for (int64_t b = 0; b < fw; ++b) {
                int64_t iy = y * sh - h.before + a, ix = z * sw - w.before + b;
                if (iy < 0 || ix < 0 || iy >= x.shape[1] || ix >= x.shape[2]) continue;
                double e = x.v[((n * x.shape[1] + iy) * x.shape[2] + ix) * x.shape[3] + c];
                if (!any || e > m) m = e;
                any = true;
              }
            r.v[k] = m;
          }
    return r;
  }

  T bconv(mlir::Operation* op) {
    const T& pin = get(op->getOperand(0));
    const T &f = get(op->getOperand(1)), &mult = get(op->getOperand(2)), &bias = get(op->getOperand(3)), &thr = get(op->getOperand(4));
    int64_t C = ia(op, "channels_in");
    if (pin.shape.size() != 4 || f.shape.size() != 4) throw Fail("bconv rank");
    T in = unpack(pin, C);
    int64_t O = f.shape[0], FH = f.shape[1], FW = f.shape[2], I = f.shape[3];
    T w = f;
    if (f.dt == I32) {
      int64_t words = pin.shape[3];
      if (I == 0 || words % I) throw Fail("bconv filter words");
      I = words == I ? C : f.shape[3] * 32;
      w = unpack(f, I);
    } else {
      for (auto& x : w.v) x = x < 0 ? -1 : 1;
    }
    bool same = sa(op, "padding") == "SAME";
    int64_t sh = ia(op, "stride_height"), sw = ia(op, "stride_width"), dh = ia(op, "dilation_height_factor"), dw = ia(op, "dilation_width_factor");
    int64_t pv = ia(op, "pad_values", 0);
    if (pv != 0 && pv != 1) throw Fail("bconv pad value");
    DT dt = dtOf(el(op->getResult(0)));
    if (I != C && I % 32) throw Fail("bconv groups that are no whole words");
    T r = conv(in, FH, FW, I, O, [&](int64_t y, int64_t x, int64_t i, int64_t o) { return w.v[((o * FH + y) * FW + x) * I + i]; },
               window(same, in.shape[1], FH, sh, dh), window(same, in.shape[2], FW, sw, dw), sh, sw, dh, dw, (double)pv);
    auto a = sa(op, "fused_activation_function");
    if (dt == I32) {
      if (same && pv == 0) throw Fail("bitpacked output with zero padding");
      if (thr.dt != I32 || thr.shape.size() != 1 || (int64_t)thr.v.size() != O) throw Fail("bconv thresholds");
      for (size_t k = 0; k < r.v.size(); ++k) r.v[k] = (FH * FW * I - r.v[k]) / 2 > thr.v[k % O] ? -1 : 1;
      r.dt = F32;
      return pack(r);
    }
    if (mult.dt != F32 || bias.dt != F32 || mult.shape.size() != 1 || bias.shape.size() != 1) throw Fail("bconv multiplier and bias shapes");
    if ((int64_t)mult.v.size() != O || (int64_t)bias.v.size() != O) throw Fail("bconv multiplier and bias sizes");
    double s = 1;
    int64_t zp = 0;
    dtOf(el(op->getResult(0)), &s, &zp);
    for (size_t k = 0; k < r.v.size(); ++k) {
      double y = (float)((float)(act(a, r.v[k]) * mult.v[k % O]) + bias.v[k % O]);
      r.v[k] = dt == F32 ? y : quantized(dt, y, s, zp);
    }
    r.dt = dt;
    if (same && pv == 0 && a != "NONE") throw Fail("bconv activation with zero padding");
    return r;
  }

  void exec(mlir::Operation* op) {
    llvm::StringRef n = op->getName().getStringRef();
    auto in = [&](unsigned i) -> const T& { return get(op->getOperand(i)); };
    auto fp = [&](DT d) { return d == F32 || d == F16 || d == BF16 || d == F64; };
    auto bin = [&](auto f) {
      const T &a = in(0), &b = in(1);
      DT d = a.dt;
      if (d != b.dt || !(fp(d) || d == I32 || d == I64)) throw Fail("operand types of " + n.str());
      auto actv = n.starts_with("tfl.") ? sa(op, "fused_activation_function") : llvm::StringRef("NONE");
      T r = broadcasted({&a, &b}, d, [&](const std::vector<double>& x) { return act(actv, rnd(d, f(x[0], x[1]))); });
      set(op->getResult(0), r);
    };
    auto cmp = [&](auto f) {
      if (in(0).dt != in(1).dt) throw Fail("operand types of " + n.str());
      set(op->getResult(0), broadcasted({&in(0), &in(1)}, I1, [&](const std::vector<double>& x) { return f(x[0], x[1]) ? 1.0 : 0.0; }));
    };
    auto un = [&](auto f) {
      T r = in(0);
      for (auto& x : r.v) x = f(x);
      set(op->getResult(0), r);
    };
    auto ints = [&](unsigned i) { std::vector<int64_t> r; for (double x : in(i).v) r.push_back((int64_t)x); return r; };
    if (n == "arith.constant" || n == "tf.Const") return set(op->getResult(0), fromAttr(op->getAttr("value"), op->getResult(0).getType()));
    if (n == "tfl.no_value") return set(op->getResult(0), T());
    if (n == "tf.AddV2" || n == "tfl.add") return bin([](double x, double y) { return x + y; });
    if (n == "tf.Sub" || n == "tfl.sub") return bin([](double x, double y) { return x - y; });
    if (n == "tf.Mul" || n == "tfl.mul") return bin([](double x, double y) { return x * y; });
    if (n == "tf.Div" || n == "tfl.div") return bin([](double x, double y) { return x / y; });
    if (n == "tf.Maximum") return bin([](double x, double y) { return x > y ? x : y; });
    if (n == "tf.Minimum") return bin([](double x, double y) { return x < y ? x : y; });
    if (n == "tf.BiasAdd") {
      if (sa(op, "data_format", "NHWC") != "NHWC") throw Fail("BiasAdd layout");
      return bin([](double x, double y) { return x + y; });
    }
    if (n == "tf.GreaterEqual" || n == "tfl.greater_equal") return cmp([](double x, double y) { return x >= y; });
    if (n == "tf.LessEqual" || n == "tfl.less_equal") return cmp([](double x, double y) { return x <= y; });
    if (n == "tf.Greater" || n == "tfl.greater") return cmp([](double x, double y) { return x > y; });
    if (n == "tf.Less" || n == "tfl.less") return cmp([](double x, double y) { return x < y; });
    if (n == "tf.Sign" || n == "tfl.sign") return un([](double x) { return x > 0 ? 1.0 : x < 0 ? -1.0 : x; });
    if (n == "tf.Neg") return un([](double x) { return -x; });
    if (n == "tf.LogicalNot" || n == "tfl.logical_not") return un([](double x) { return x ? 0.0 : 1.0; });
    if (n == "tf.Relu" || n == "tfl.relu") return un([](double x) { return act("RELU", x); });
    if (n == "tf.Relu6" || n == "tfl.relu6") return un([](double x) { return act("RELU6", x); });
    if (n == "tfl.relu_n1_to_1") return un([](double x) { return act("RELU_N1_TO_1", x); });
    if (n == "tf.Identity" || n == "tf.Snapshot" || n == "tf.StopGradient" || n == "tf.PlaceholderWithDefault" || n == "tf.CheckNumerics" ||
        n == "tf.IdentityN") {
      for (unsigned i = 0; i < op->getNumResults(); ++i) set(op->getResult(i), in(i));
      return;
    }
    if (n == "tf.Select" || n == "tf.SelectV2" || n == "tfl.select_v2" || n == "tfl.select") {
      if (in(0).dt != I1 || in(1).dt != in(2).dt) throw Fail("select types");
      if (n == "tf.Select" && in(0).shape.size() == 1 && in(1).shape.size() > 1) throw Fail("select of rows");
      return set(op->getResult(0), broadcasted({&in(0), &in(1), &in(2)}, in(1).dt, [](const std::vector<double>& x) { return x[0] ? x[1] : x[2]; }));
    }
    if (n == "tf.BroadcastTo" || n == "tfl.broadcast_to") {
      T s;
      s.shape = ints(1);
      s.v.assign(s.n(), 0);
      T r = broadcasted({&in(0), &s}, in(0).dt, [](const std::vector<double>& x) { return x[0]; });
      if (r.shape != s.shape) throw Fail("BroadcastTo shape");
      return set(op->getResult(0), r);
    }
    if (n == "tf.Shape" || n == "tfl.shape") {
      T r;
      r.dt = dtOf(el(op->getResult(0)));
      r.shape = {(int64_t)in(0).shape.size()};
      for (auto d : in(0).shape) r.v.push_back((double)d);
      return set(op->getResult(0), r);
    }
    if (n == "tf.Transpose" || n == "tfl.transpose") return set(op->getResult(0), transpose(in(0), ints(1)));
    if (n == "tf.Reshape" || n == "tfl.reshape") {
      T r = in(0);
      r.shape = ints(1);
      int64_t k = 1, at = -1;
      for (size_t i = 0; i < r.shape.size(); ++i) r.shape[i] == -1 ? (void)(at = i) : (void)(k *= r.shape[i]);
      if (at >= 0) r.shape[at] = k ? in(0).n() / k : 0;
      if (r.n() != in(0).n()) throw Fail("reshape");
      return set(op->getResult(0), r);
    }
    if (n == "tf.Pad" || n == "tfl.pad") return set(op->getResult(0), pad(in(0), in(1), in(0).dt == QI8 ? (double)in(0).zp : 0));
    if (n == "tf.PadV2" || n == "tfl.padv2") return set(op->getResult(0), pad(in(0), in(1), in(2).v.at(0)));
    if (n == "tf.Conv2D") return set(op->getResult(0), convFloat(op, false, false));
    if (n == "tfl.conv_2d") return set(op->getResult(0), convFloat(op, true, false));
    if (n == "tfl.depthwise_conv_2d") return set(op->getResult(0), convFloat(op, true, true));
    if (n == "tf.MaxPool") {
      auto k = la(op, "ksize"), s = la(op, "strides");
      if (sa(op, "data_format", "NHWC") != "NHWC" || k.size() != 4 || s.size() != 4) throw Fail("MaxPool layout");
      return set(op->getResult(0), maxpool(in(0), sa(op, "padding") == "SAME", k[1], k[2], s[1], s[2]));
    }
    if (n == "tfl.max_pool_2d") {
      T r = maxpool(in(0), sa(op, "padding") == "SAME", ia(op, "filter_height"), ia(op, "filter_width"), ia(op, "stride_h"), ia(op, "stride_w"));
      if (sa(op, "fused_activation_function") != "NONE")
        for (auto& x : r.v) x = act(sa(op, "fused_activation_function"), x);
      return set(op->getResult(0), r);
    }
    if (n == "tf.SpaceToBatchND") {
      auto b = ints(1);
      T p = in(2), full;
      full.v.assign(2 * in(0).shape.size(), 0);
      for (size_t i = 0; i < b.size(); ++i) full.v[2 * (i + 1)] = p.v[2 * i], full.v[2 * (i + 1) + 1] = p.v[2 * i + 1];
      T x = pad(in(0), full, 0), r = x;
      if (b.size() != 2 || x.shape.size() != 4 || x.shape[1] % b[0] || x.shape[2] % b[1]) throw Fail("SpaceToBatchND");
      int64_t N = x.shape[0], H = x.shape[1] / b[0], W = x.shape[2] / b[1], Ch = x.shape[3];
      r.shape = {N * b[0] * b[1], H, W, Ch};
      for (int64_t i = 0; i < b[0]; ++i)
        for (int64_t j = 0; j < b[1]; ++j)
          for (int64_t q = 0; q < N; ++q)
            for (int64_t y = 0; y < H; ++y)
              for (int64_t z = 0; z < W; ++z)
                for (int64_t c = 0; c < Ch; ++c)
                  r.v[((((i * b[1] + j) * N + q) * H + y) * W + z) * Ch + c] = x.v[((q * H * b[0] + y * b[0] + i) * W * b[1] + z * b[1] + j) * Ch + c];
      return set(op->getResult(0), r);
    }
    if (n == "tf.BatchToSpaceND") {
      auto b = ints(1);
      auto cr = ints(2);
      const T& x = in(0);
      if (b.size() != 2 || x.shape.size() != 4 || x.shape[0] % (b[0] * b[1])) throw Fail("BatchToSpaceND");
      int64_t N = x.shape[0] / (b[0] * b[1]), H = x.shape[1] * b[0], W = x.shape[2] * b[1], Ch = x.shape[3];
      T r = x;
      r.shape = {N, H - cr[0] - cr[1], W - cr[2] - cr[3], Ch};
      if (r.shape[1] < 0 || r.shape[2] < 0) throw Fail("crops");
      r.v.assign(r.n(), 0);
      for (int64_t q = 0; q < N; ++q)
        for (int64_t y = 0; y < r.shape[1]; ++y)
          for (int64_t z = 0; z < r.shape[2]; ++z)
            for (int64_t c = 0; c < Ch; ++c) {
              int64_t Y = y + cr[0], Z = z + cr[2];
              r.v[((q * r.shape[1] + y) * r.shape[2] + z) * Ch + c] =
                  x.v[(((((Y % b[0]) * b[1] + Z % b[1]) * N + q) * x.shape[1] + Y / b[0]) * x.shape[2] + Z / b[1]) * Ch + c];
            }
      return set(op->getResult(0), r);
    }
    if (n == "tfl.quantize") {
      T r = in(0);
      bool was = !fp(r.dt);
      double s = 1;
      int64_t zp = 0;
      DT d = dtOf(el(op->getResult(0)), &s, &zp);
      if (d != QI8 && d != QU8 && d != QI16) throw Fail("quantize type");
      for (auto& x : r.v) x = quantized(d, was ? (x - r.zp) * r.scale : x, s, zp);
      r.dt = d;
      return set(op->getResult(0), r);
    }
    if (n == "tfl.dequantize") {
      T r = in(0);
      if (r.dt == F16) { r.dt = F32; return set(op->getResult(0), r); }
      if (r.dt != QI8 && r.dt != QU8 && r.dt != QI16) throw Fail("dequantize type");
      for (auto& x : r.v) x = (float)((float)r.scale * (x - r.zp));
      r.dt = F32;
      return set(op->getResult(0), r);
    }
    if (n == "lq.Quantize") return set(op->getResult(0), pack(in(0)));
    if (n == "lq.Dequantize") {
      auto st = llvm::dyn_cast<mlir::ShapedType>(op->getResult(0).getType());
      if (!st || !st.hasRank() || st.getRank() == 0 || mlir::ShapedType::isDynamic(st.getShape().back())) throw Fail("lq.Dequantize type");
      T r = unpack(in(0), st.getShape().back());
      double s = 1;
      int64_t zp = 0;
      r.dt = dtOf(st.getElementType(), &s, &zp);
      if (r.dt == QI8 || r.dt == QU8 || r.dt == QI16)
        for (auto& x : r.v) x = quantized(r.dt, x, s, zp);
      else if (r.dt == I1)
        for (auto& x : r.v) x = x > 0;
      return set(op->getResult(0), r);
    }
    if (n == "lq.Bconv2d") return set(op->getResult(0), bconv(op));
    if (n == "lq.BMaxPool2d") {
      // a maximum over ±1 is -1 only when every bit is set
      const T& p = in(0);
      T u = unpack(p, p.shape.empty() ? 0 : p.shape.back() * 32);
      u = maxpool(u, sa(op, "padding") == "SAME", ia(op, "filter_height"), ia(op, "filter_width"), ia(op, "stride_height"), ia(op, "stride_width"));
      return set(op->getResult(0), pack(u));
    }
    if (extra && extra(op, *this)) return;
    throw Fail("operator " + n.str());
  }
};
}  // namespace vm
#endif

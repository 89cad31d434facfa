#ifndef VERIF_SHIM_FLEXBUFFERS_H_
#define VERIF_SHIM_FLEXBUFFERS_H_
// A small, bounds-checked FlexBuffers reader and writer for the subset LCE
// uses: one root map from strings to scalars and untyped/typed vectors of
// scalars. It follows the published wire format; the Python harness checks it
// against the upstream flatbuffers.flexbuffers package.
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "flatbuffers/base.h"
namespace flexbuffers {
enum BitWidth { BIT_WIDTH_8 = 0, BIT_WIDTH_16 = 1, BIT_WIDTH_32 = 2, BIT_WIDTH_64 = 3 };
enum Type {
  FBT_NULL = 0, FBT_INT = 1, FBT_UINT = 2, FBT_FLOAT = 3, FBT_KEY = 4,
  FBT_STRING = 5, FBT_INDIRECT_INT = 6, FBT_INDIRECT_UINT = 7,
  FBT_INDIRECT_FLOAT = 8, FBT_MAP = 9, FBT_VECTOR = 10, FBT_VECTOR_INT = 11,
  FBT_VECTOR_UINT = 12, FBT_VECTOR_FLOAT = 13, FBT_VECTOR_KEY = 14,
  FBT_BLOB = 25, FBT_BOOL = 26
};
namespace detail {
struct Buf { const uint8_t* d = nullptr; size_t n = 0; };
inline bool Rd(const Buf& b, size_t at, int w, uint64_t* v) {
  if (at + w > b.n) return false;
  *v = 0;
  memcpy(v, b.d + at, w);
  return true;
}
inline int64_t SExt(uint64_t v, int w) {
  switch (w) {
    case 1: return (int8_t)v;
    case 2: return (int16_t)v;
    case 4: return (int32_t)v;
    default: return (int64_t)v;
  }
}
inline double Flt(uint64_t v, int w) {
  if (w == 4) { float f; memcpy(&f, &v, 4); return f; }
  if (w == 8) { double f; memcpy(&f, &v, 8); return f; }
  return 0;
}
}  // namespace detail
class Map;
class Vector;
class Reference {
 public:
  Reference() {}
  Reference(detail::Buf b, size_t at, int parent_w, uint8_t packed)
      : b_(b), at_(at), pw_(parent_w), w_(1 << (packed & 3)), t_((Type)(packed >> 2)) {}
  Type GetType() const { return t_; }
  bool IsNull() const { return t_ == FBT_NULL; }
  bool IsInt() const { return t_ == FBT_INT || t_ == FBT_INDIRECT_INT; }
  bool IsBool() const { return t_ == FBT_BOOL; }
  bool IsMap() const { return t_ == FBT_MAP; }
  int64_t AsInt64() const {
    uint64_t v;
    if (t_ == FBT_INT) return detail::Rd(b_, at_, pw_, &v) ? detail::SExt(v, pw_) : 0;
    if (t_ == FBT_UINT || t_ == FBT_BOOL) return detail::Rd(b_, at_, pw_, &v) ? (int64_t)v : 0;
    if (t_ == FBT_FLOAT) return detail::Rd(b_, at_, pw_, &v) ? (int64_t)detail::Flt(v, pw_) : 0;
    size_t p;
    if (t_ == FBT_INDIRECT_INT) return Ind(&p) && detail::Rd(b_, p, w_, &v) ? detail::SExt(v, w_) : 0;
    if (t_ == FBT_INDIRECT_UINT) return Ind(&p) && detail::Rd(b_, p, w_, &v) ? (int64_t)v : 0;
    if (t_ == FBT_INDIRECT_FLOAT) return Ind(&p) && detail::Rd(b_, p, w_, &v) ? (int64_t)detail::Flt(v, w_) : 0;
    return 0;
  }
  int32_t AsInt32() const { return (int32_t)AsInt64(); }
  bool AsBool() const { return AsInt64() != 0; }
  double AsDouble() const {
    uint64_t v;
    size_t p;
    if (t_ == FBT_FLOAT) return detail::Rd(b_, at_, pw_, &v) ? detail::Flt(v, pw_) : 0;
    if (t_ == FBT_INDIRECT_FLOAT) return Ind(&p) && detail::Rd(b_, p, w_, &v) ? detail::Flt(v, w_) : 0;
    return (double)AsInt64();
  }
  float AsFloat() const { return (float)AsDouble(); }
  std::string AsKey() const {
    size_t p;
    std::string s;
    if (!Ind(&p)) return s;
    while (p < b_.n && b_.d[p]) s.push_back((char)b_.d[p++]);
    return s;
  }
  Map AsMap() const;
  bool Ind(size_t* p) const {
    uint64_t off;
    if (!detail::Rd(b_, at_, pw_, &off) || off > at_) return false;
    *p = at_ - off;
    return true;
  }
  detail::Buf b_;
  size_t at_ = 0;
  int pw_ = 1, w_ = 1;
  Type t_ = FBT_NULL;
};
class TypedVector;
class Map {
 public:
  Map() {}
  Reference operator[](const char* key) const {
    for (size_t i = 0; i < n_; ++i)
      if (KeyAt(i) == key) return At(i);
    return Reference();
  }
  Reference operator[](const std::string& key) const { return (*this)[key.c_str()]; }
  size_t size() const { return n_; }
  std::string KeyAt(size_t i) const {
    Reference r(b_, kat_ + i * kw_, kw_, (FBT_KEY << 2));
    return r.AsKey();
  }
  Reference At(size_t i) const {
    uint64_t ty;
    if (!detail::Rd(b_, at_ + n_ * w_ + i, 1, &ty)) return Reference();
    return Reference(b_, at_ + i * w_, w_, (uint8_t)ty);
  }
  detail::Buf b_;
  size_t at_ = 0, n_ = 0, kat_ = 0;
  int w_ = 1, kw_ = 1;
};
inline Map Reference::AsMap() const {
  Map m;
  if (t_ != FBT_MAP) return m;
  size_t p;
  uint64_t n, koff, kw;
  if (!Ind(&p) || p < (size_t)(3 * w_)) return m;
  if (!detail::Rd(b_, p - w_, w_, &n) || !detail::Rd(b_, p - 2 * w_, w_, &kw) ||
      !detail::Rd(b_, p - 3 * w_, w_, &koff))
    return m;
  if (koff > p - 3 * w_ || n > b_.n) return m;
  m.b_ = b_;
  m.at_ = p;
  m.n_ = n;
  m.w_ = w_;
  m.kat_ = p - 3 * w_ - koff;
  m.kw_ = (int)kw;
  return m;
}
inline Reference GetRoot(const uint8_t* buffer, size_t size) {
  if (buffer == nullptr || size < 3) return Reference();
  detail::Buf b{buffer, size};
  int root_w = buffer[size - 1];
  if (root_w != 1 && root_w != 2 && root_w != 4 && root_w != 8) return Reference();
  if (size < (size_t)root_w + 2) return Reference();
  return Reference(b, size - 2 - root_w, root_w, buffer[size - 2]);
}
inline Reference GetRoot(const std::vector<uint8_t>& v) { return GetRoot(v.data(), v.size()); }

enum BuilderFlag {
  BUILDER_FLAG_NONE = 0, BUILDER_FLAG_SHARE_KEYS = 1, BUILDER_FLAG_SHARE_STRINGS = 2,
  BUILDER_FLAG_SHARE_KEYS_AND_STRINGS = 3, BUILDER_FLAG_SHARE_KEY_VECTORS = 4,
  BUILDER_FLAG_SHARE_ALL = 7
};
// Writes one root map of scalars.
class Builder {
 public:
  explicit Builder(size_t = 256, BuilderFlag = BUILDER_FLAG_SHARE_KEYS) {}
  Builder(BuilderFlag) {}
  template <typename F>
  size_t Map(F f) {
    f();
    return 0;
  }
  size_t StartMap() { return 0; }
  size_t EndMap(size_t) { return 0; }
  void Int(const char* key, int64_t v) { kv_[key] = {FBT_INT, (uint64_t)v}; }
  void Add(const char* key, int64_t v) { Int(key, v); }
  void UInt(const char* key, uint64_t v) { kv_[key] = {FBT_UINT, v}; }
  void Bool(const char* key, bool v) { kv_[key] = {FBT_BOOL, v}; }
  void Float(const char* key, float v) {
    uint64_t u = 0;
    memcpy(&u, &v, 4);
    kv_[key] = {FBT_FLOAT, u};
  }
  void Float(const char* key, double v) { Float(key, (float)v); }
  void Double(const char* key, double v) { Float(key, (float)v); }
  void Null(const char* key) { kv_[key] = {FBT_NULL, 0}; }
  void Finish() {
    buf_.clear();
    std::vector<size_t> kpos;
    for (auto& e : kv_) {
      kpos.push_back(buf_.size());
      for (char c : e.first) buf_.push_back((uint8_t)c);
      buf_.push_back(0);
    }
    const int w = 4;  // one width for everything, widened for big values
    int vw = w;
    for (auto& e : kv_)
      if (e.second.t != FBT_FLOAT) {
        int64_t s = (int64_t)e.second.v;
        if (e.second.t == FBT_INT ? (s != (int32_t)s) : (e.second.v >> 32) != 0) vw = 8;
      }
    while (buf_.size() % vw) buf_.push_back(0);
    Put(kv_.size(), vw);
    const size_t kvec = buf_.size();
    for (size_t i = 0; i < kpos.size(); ++i) Put(buf_.size() - kpos[i], vw);
    Put(buf_.size() - kvec, vw);  // offset to keys
    Put(vw, vw);                  // width of keys
    Put(kv_.size(), vw);
    const size_t vals = buf_.size();
    for (auto& e : kv_) {
      if (e.second.t == FBT_FLOAT && vw == 8) {
        float f;
        memcpy(&f, &e.second.v, 4);
        double d = f;
        uint64_t u;
        memcpy(&u, &d, 8);
        Put(u, 8);
      } else {
        Put(e.second.v, vw);
      }
    }
    const int wl = vw == 8 ? 3 : 2;
    for (auto& e : kv_) buf_.push_back((uint8_t)((e.second.t << 2) | wl));
    // root
    while (buf_.size() % 4) buf_.push_back(0);
    Put(buf_.size() - vals, 4);
    buf_.push_back((uint8_t)((FBT_MAP << 2) | wl));
    buf_.push_back(4);
  }
  const std::vector<uint8_t>& GetBuffer() const { return buf_; }
  void Clear() { kv_.clear(); buf_.clear(); }

 private:
  struct V { int t; uint64_t v; };
  void Put(uint64_t v, int w) {
    for (int i = 0; i < w; ++i) buf_.push_back((uint8_t)(v >> (8 * i)));
  }
  std::map<std::string, V> kv_;
  std::vector<uint8_t> buf_;
};
}  // namespace flexbuffers
#endif

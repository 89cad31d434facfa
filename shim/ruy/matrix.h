#ifndef VERIF_SHIM_RUY_MATRIX_H_
#define VERIF_SHIM_RUY_MATRIX_H_
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include "ruy/check_macros.h"
#include "ruy/opt_set.h"
namespace ruy {
enum class Order : std::uint8_t { kColMajor, kRowMajor };
enum class CachePolicy : std::uint8_t {
  kNeverCache, kCacheIfLargeSpeedup, kCacheIfSignificantSpeedup, kAlwaysCache
};
class Layout final {
 public:
  int rows() const { return rows_; }
  void set_rows(int v) { rows_ = v; }
  int cols() const { return cols_; }
  void set_cols(int v) { cols_ = v; }
  int stride() const { return stride_; }
  void set_stride(int v) { stride_ = v; }
  Order order() const { return order_; }
  void set_order(Order v) { order_ = v; }

 private:
  std::int32_t rows_ = 0, cols_ = 0, stride_ = 0;
  Order order_ = Order::kColMajor;
};
inline void MakeSimpleLayout(int rows, int cols, Order order, Layout* l) {
  l->set_rows(rows);
  l->set_cols(cols);
  l->set_order(order);
  l->set_stride(order == Order::kColMajor ? rows : cols);
}
// Like ruy's, this pointer hands out non-const access only when non-const.
template <typename T>
class ConstCheckingPtr final {
 public:
  using element_type = T;
  ConstCheckingPtr& operator=(T* p) { p_ = p; c_ = false; return *this; }
  ConstCheckingPtr& operator=(const T* p) { p_ = p; c_ = true; return *this; }
  ConstCheckingPtr& operator=(std::nullptr_t) { p_ = nullptr; return *this; }
  T* get() { RUY_CHECK(!c_); return const_cast<T*>(p_); }
  const T* get() const { return p_; }

 private:
  const T* p_ = nullptr;
  bool c_ = false;
};
template <typename Scalar>
class Matrix final {
 public:
  Layout* mutable_layout() { return &layout_; }
  const Layout& layout() const { return layout_; }
  Scalar* data() { return data_.get(); }
  const Scalar* data() const { return data_.get(); }
  void set_data(Scalar* p) { data_ = p; }
  void set_data(const Scalar* p) { data_ = p; }
  Scalar zero_point() const { return zp_; }
  void set_zero_point(Scalar v) { zp_ = v; }
  CachePolicy cache_policy() const { return cp_; }
  void set_cache_policy(CachePolicy c) { cp_ = c; }

 private:
  ConstCheckingPtr<Scalar> data_;
  Layout layout_;
  Scalar zp_ = 0;
  CachePolicy cp_ = CachePolicy::kNeverCache;
};
}  // namespace ruy
#endif

#ifndef VERIF_SHIM_RUY_MAT_H_
#define VERIF_SHIM_RUY_MAT_H_
#include <cstdint>
#include <cstring>
#include <type_traits>
#include "ruy/check_macros.h"
#include "ruy/matrix.h"
#include "ruy/side_pair.h"
namespace ruy {
struct MatLayout final {
  std::int32_t rows = 0, cols = 0, stride = 0;
  Order order = Order::kColMajor;
};
inline MatLayout ToInternal(const Layout& s) {
  MatLayout r;
  r.rows = s.rows();
  r.cols = s.cols();
  r.stride = s.stride();
  r.order = s.order();
  return r;
}
template <typename Scalar>
struct Mat final {
  ConstCheckingPtr<Scalar> data;
  MatLayout layout;
  Scalar zero_point = 0;
  CachePolicy cache_policy = CachePolicy::kNeverCache;
};
template <typename Scalar>
inline Mat<Scalar> ToInternal(const Matrix<Scalar>& s) {
  Mat<Scalar> r;
  r.data = s.data();
  r.layout = ToInternal(s.layout());
  r.zero_point = s.zero_point();
  r.cache_policy = s.cache_policy();
  return r;
}
template <typename Scalar>
inline Mat<Scalar> ToInternal(Matrix<Scalar>& s) {
  Mat<Scalar> r;
  r.data = s.data();
  r.layout = ToInternal(s.layout());
  r.zero_point = s.zero_point();
  r.cache_policy = s.cache_policy();
  return r;
}
template <Order tOrder, int tRows, int tCols>
struct FixedKernelLayout {
  static constexpr Order kOrder = tOrder;
  static constexpr int kRows = tRows;
  static constexpr int kCols = tCols;
};
template <Order o, int r, int c> constexpr int FixedKernelLayout<o, r, c>::kRows;
template <Order o, int r, int c> constexpr int FixedKernelLayout<o, r, c>::kCols;
struct KernelLayout final {
  Order order = Order::kColMajor;
  std::uint8_t rows = 1, cols = 1;
};
template <typename FixedKernelLayout>
KernelLayout ToKernelLayout() {
  KernelLayout r;
  r.order = FixedKernelLayout::kOrder;
  r.rows = FixedKernelLayout::kRows;
  r.cols = FixedKernelLayout::kCols;
  return r;
}
struct PMatLayout final {
  std::int32_t rows = 0, cols = 0, stride = 0;
  Order order = Order::kColMajor;
  KernelLayout kernel;
};
struct Type final {
  template <typename T>
  static Type Create() {
    Type t;
    t.is_signed = std::is_signed<T>::value;
    t.is_floating_point = std::is_floating_point<T>::value;
    t.size = sizeof(T);
    return t;
  }
  template <typename T>
  void AssertIs() const {
    RUY_DCHECK_EQ(is_signed, std::is_signed<T>::value);
    RUY_DCHECK_EQ(is_floating_point, std::is_floating_point<T>::value);
    RUY_DCHECK_EQ((int)size, (int)sizeof(T));
  }
  bool is_signed = false, is_floating_point = false;
  std::uint8_t size = 0;
};
struct EMat final {
  Type data_type;
  void* data = nullptr;
  MatLayout layout;
  std::int32_t zero_point = 0;
  CachePolicy cache_policy = CachePolicy::kNeverCache;
};
struct PEMat final {
  Type data_type;
  void* data = nullptr;
  Type sums_type;
  void* sums = nullptr;
  PMatLayout layout;
  std::int32_t zero_point = 0;
};
template <typename Scalar>
struct PMat final {
  Scalar* data = nullptr;
  std::int32_t* sums = nullptr;
  PMatLayout layout;
  std::int32_t zero_point = 0;
};
template <typename T>
EMat EraseType(const Mat<T>& m) {
  EMat r;
  r.data_type = Type::Create<T>();
  r.data = const_cast<void*>(static_cast<const void*>(m.data.get()));
  r.layout = m.layout;
  r.zero_point = m.zero_point;
  r.cache_policy = m.cache_policy;
  return r;
}
template <typename T>
Mat<T> UneraseType(const EMat& m) {
  m.data_type.AssertIs<T>();
  Mat<T> r;
  r.data = static_cast<T*>(m.data);
  r.layout = m.layout;
  r.zero_point = (T)m.zero_point;
  r.cache_policy = m.cache_policy;
  return r;
}
template <typename T>
PMat<T> UneraseType(const PEMat& m) {
  m.data_type.AssertIs<T>();
  PMat<T> r;
  r.data = static_cast<T*>(m.data);
  r.sums = static_cast<std::int32_t*>(m.sums);
  r.layout = m.layout;
  r.zero_point = m.zero_point;
  return r;
}
inline bool IsColMajor(const MatLayout& l) { return l.order == Order::kColMajor; }
inline bool IsRowMajor(const MatLayout& l) { return l.order == Order::kRowMajor; }
inline bool IsColMajor(const PMatLayout& l) { return l.order == Order::kColMajor; }
inline bool IsRowMajor(const PMatLayout& l) { return l.order == Order::kRowMajor; }
inline int FlatSize(const PMatLayout& l) {
  return l.stride * (l.order == Order::kColMajor ? l.cols : l.rows);
}
inline bool IsUnstrided(const MatLayout& l) {
  return l.stride == (l.order == Order::kColMajor ? l.rows : l.cols);
}
inline bool IsUnstrided(const Layout& l) { return IsUnstrided(ToInternal(l)); }
inline MatLayout Transpose(const MatLayout& s) {
  MatLayout r;
  r.order = s.order == Order::kColMajor ? Order::kRowMajor : Order::kColMajor;
  r.rows = s.cols;
  r.cols = s.rows;
  r.stride = s.stride;
  return r;
}
template <typename T>
Mat<T> Transpose(const Mat<T>& m) {
  Mat<T> r = m;
  r.layout = Transpose(m.layout);
  return r;
}
inline int Offset(const MatLayout& l, int row, int col) {
  RUY_DCHECK(row >= 0 && row < l.rows);
  RUY_DCHECK(col >= 0 && col < l.cols);
  return l.order == Order::kColMajor ? row + col * l.stride
                                     : row * l.stride + col;
}
inline int Offset(const PMatLayout& l, int row, int col) {
  RUY_DCHECK(row >= 0 && row < l.rows);
  RUY_DCHECK(col >= 0 && col < l.cols);
  const int row_outer = row / l.kernel.rows * l.kernel.rows;
  const int col_outer = col / l.kernel.cols * l.kernel.cols;
  const int rso = l.order == Order::kColMajor ? l.kernel.cols : l.stride;
  const int cso = l.order == Order::kRowMajor ? l.kernel.rows : l.stride;
  const int rsi = l.kernel.order == Order::kColMajor ? 1 : l.kernel.cols;
  const int csi = l.kernel.order == Order::kRowMajor ? 1 : l.kernel.rows;
  return row_outer * rso + col_outer * cso + (row - row_outer) * rsi +
         (col - col_outer) * csi;
}
template <typename T>
const T* ElementPtr(const Mat<T>& m, int row, int col) {
  return m.data.get() + Offset(m.layout, row, col);
}
template <typename T>
T* ElementPtr(Mat<T>* m, int row, int col) {
  return m->data.get() + Offset(m->layout, row, col);
}
template <typename T>
T Element(const Mat<T>& m, int row, int col) {
  return *ElementPtr(m, row, col);
}
template <typename T>
T* ElementPtr(PMat<T>* m, int row, int col) {
  return m->data + Offset(m->layout, row, col);
}
template <typename T>
T Element(const PMat<T>& m, int row, int col) {
  return *(m.data + Offset(m.layout, row, col));
}
}  // namespace ruy
#endif

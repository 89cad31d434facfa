#ifndef VERIF_SHIM_RUNTIME_SHAPE_H_
#define VERIF_SHIM_RUNTIME_SHAPE_H_
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <iterator>
#include <vector>
#include "tensorflow/lite/kernels/internal/compatibility.h"
namespace tflite {
class RuntimeShape {
 public:
  static constexpr int kMaxSmallSize = 6;
  RuntimeShape() {}
  explicit RuntimeShape(int dimensions_count) : d_(dimensions_count) {}
  RuntimeShape(int shape_size, int32_t value) : d_(shape_size, value) {}
  RuntimeShape(int dimensions_count, const int32_t* dims_data)
      : d_(dims_data, dims_data + dimensions_count) {}
  RuntimeShape(const std::initializer_list<int> init_list)
      : d_(init_list.begin(), init_list.end()) {}
  // Not on the heap in TFLite for few dimensions; a vector keeps every access
  // checkable here.
  bool operator==(const RuntimeShape& o) const { return d_ == o.d_; }
  bool operator!=(const RuntimeShape& o) const { return d_ != o.d_; }
  int32_t DimensionsCount() const { return (int32_t)d_.size(); }
  int32_t Dims(int i) const {
    TFLITE_DCHECK_GE(i, 0);
    TFLITE_DCHECK_LT(i, (int)d_.size());
    return d_[i];
  }
  void SetDim(int i, int32_t val) {
    TFLITE_DCHECK_GE(i, 0);
    TFLITE_DCHECK_LT(i, (int)d_.size());
    d_[i] = val;
  }
  int32_t* DimsData() { return d_.data(); }
  const int32_t* DimsData() const { return d_.data(); }
  const int32_t* DimsDataUpTo5D() const { return d_.data(); }
  void Resize(int n) { d_.resize(n); }
  void ReplaceWith(int dimensions_count, const int32_t* dims_data) {
    std::vector<int32_t> n(dims_data, dims_data + dimensions_count);
    d_.swap(n);
  }
  template <typename T>
  void BuildFrom(const T& src) {
    d_.assign(std::begin(src), std::end(src));
  }
  static RuntimeShape ExtendedShape(int new_shape_size,
                                    const RuntimeShape& shape) {
    RuntimeShape r(new_shape_size, 1);
    int inc = new_shape_size - shape.DimensionsCount();
    TFLITE_CHECK_GE(inc, 0);
    for (int i = 0; i < shape.DimensionsCount(); ++i)
      r.SetDim(inc + i, shape.Dims(i));
    return r;
  }
  int FlatSize() const {
    int s = 1;
    for (int32_t d : d_) s *= d;
    return s;
  }

 private:
  std::vector<int32_t> d_;
};
inline int Offset(const RuntimeShape& s, int i0, int i1, int i2, int i3) {
  TFLITE_DCHECK_EQ(s.DimensionsCount(), 4);
  const int* d = s.DimsData();
  TFLITE_DCHECK((d[0] == 0 && i0 == 0) || (i0 >= 0 && i0 < d[0]));
  TFLITE_DCHECK((d[1] == 0 && i1 == 0) || (i1 >= 0 && i1 < d[1]));
  TFLITE_DCHECK((d[2] == 0 && i2 == 0) || (i2 >= 0 && i2 < d[2]));
  TFLITE_DCHECK((d[3] == 0 && i3 == 0) || (i3 >= 0 && i3 < d[3]));
  return ((i0 * d[1] + i1) * d[2] + i2) * d[3] + i3;
}
inline int Offset(const RuntimeShape& s, int* index) {
  return Offset(s, index[0], index[1], index[2], index[3]);
}
}  // namespace tflite
#endif

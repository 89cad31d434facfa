#ifndef VERIF_SHIM_CPPMATH_H_
#define VERIF_SHIM_CPPMATH_H_
#include <algorithm>
#include <cmath>
namespace tflite {
template <class T>
inline T TfLiteRound(const T x) {
  return std::round(x);
}
template <class T>
inline T TfLiteExpm1(const T x) {
  return std::expm1(x);
}
template <class T>
inline T TfLiteMax(const T& x, const T& y) {
  return std::fmax(x, y);
}
template <class T>
inline T TfLiteMin(const T& x, const T& y) {
  return std::fmin(x, y);
}
}  // namespace tflite
#endif

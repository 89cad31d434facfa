#ifndef VERIF_SHIM_KERNEL_UTIL_H_
#define VERIF_SHIM_KERNEL_UTIL_H_
#include <stdint.h>
#include <limits>
#include <string>
#include "tensorflow/lite/c/builtin_op_data.h"
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/kernels/internal/tensor_ctypes.h"
namespace tflite {
namespace shim_internal {
inline TfLiteTensor* At(const TfLiteContext* c, const TfLiteIntArray* a, int i) {
  if (a == nullptr || i < 0 || i >= a->size) return nullptr;
  const int idx = a->data[i];
  if (idx == kTfLiteOptionalTensor) return nullptr;
  if (c->tensors != nullptr) return &c->tensors[idx];
  return c->GetTensor(c, idx);
}
}  // namespace shim_internal
inline const TfLiteTensor* GetInput(const TfLiteContext* context,
                                    const TfLiteNode* node, int index) {
  return shim_internal::At(context, node->inputs, index);
}
inline TfLiteStatus GetInputSafe(const TfLiteContext* c, const TfLiteNode* node,
                                 int index, const TfLiteTensor** t) {
  *t = GetInput(c, node, index);
  return *t ? kTfLiteOk : kTfLiteError;
}
inline TfLiteTensor* GetVariableInput(TfLiteContext* c, const TfLiteNode* node,
                                      int index) {
  TfLiteTensor* t = shim_internal::At(c, node->inputs, index);
  return t && t->is_variable ? t : nullptr;
}
inline TfLiteTensor* GetOutput(TfLiteContext* context, const TfLiteNode* node,
                               int index) {
  return shim_internal::At(context, node->outputs, index);
}
inline TfLiteStatus GetOutputSafe(const TfLiteContext* c,
                                  const TfLiteNode* node, int index,
                                  TfLiteTensor** t) {
  *t = shim_internal::At(c, node->outputs, index);
  return *t ? kTfLiteOk : kTfLiteError;
}
inline const TfLiteTensor* GetOptionalInputTensor(const TfLiteContext* context,
                                                  const TfLiteNode* node,
                                                  int index) {
  return GetInput(context, node, index);
}
inline TfLiteTensor* GetTemporary(TfLiteContext* context,
                                  const TfLiteNode* node, int index) {
  return shim_internal::At(context, node->temporaries, index);
}
inline TfLiteStatus GetTemporarySafe(const TfLiteContext* c,
                                     const TfLiteNode* node, int index,
                                     TfLiteTensor** t) {
  *t = shim_internal::At(c, node->temporaries, index);
  return *t ? kTfLiteOk : kTfLiteError;
}
inline int NumDimensions(const TfLiteTensor* t) { return t->dims->size; }
inline int SizeOfDimension(const TfLiteTensor* t, int dim) {
  return t->dims->data[dim];
}
inline int NumInputs(const TfLiteNode* node) {
  return node->inputs == nullptr ? 0 : node->inputs->size;
}
inline int NumOutputs(const TfLiteNode* node) {
  return node->outputs == nullptr ? 0 : node->outputs->size;
}
inline int64_t NumElements(const TfLiteIntArray* dims) {
  int64_t n = 1;
  for (int i = 0; i < dims->size; ++i) n *= dims->data[i];
  return n;
}
inline int64_t NumElements(const int* dims, int num_dims) {
  int64_t n = 1;
  for (int i = 0; i < num_dims; ++i) n *= dims[i];
  return n;
}
inline int64_t NumElements(const TfLiteTensor* t) {
  return NumElements(t->dims);
}
inline bool IsConstantTensor(const TfLiteTensor* t) {
  return t->allocation_type == kTfLiteMmapRo;
}
inline bool IsConstantOrPersistentTensor(const TfLiteTensor* t) {
  return IsConstantTensor(t) || t->allocation_type == kTfLitePersistentRo;
}
inline bool IsDynamicTensor(const TfLiteTensor* t) {
  return t->allocation_type == kTfLiteDynamic;
}
inline void SetTensorToDynamic(TfLiteTensor* t) {
  if (t->allocation_type != kTfLiteDynamic) {
    t->allocation_type = kTfLiteDynamic;
    t->data.raw = nullptr;
  }
}
inline bool HaveSameShapes(const TfLiteTensor* a, const TfLiteTensor* b) {
  return TfLiteIntArrayEqual(a->dims, b->dims);
}
template <typename T>
void CalculateActivationRange(TfLiteFusedActivation activation,
                              T* activation_min, T* activation_max) {
  if (activation == kTfLiteActRelu) {
    *activation_min = 0;
    *activation_max = std::numeric_limits<T>::max();
  } else if (activation == kTfLiteActRelu6) {
    *activation_min = 0;
    *activation_max = 6;
  } else if (activation == kTfLiteActReluN1To1) {
    *activation_min = -1;
    *activation_max = 1;
  } else {
    *activation_min = std::numeric_limits<T>::lowest();
    *activation_max = std::numeric_limits<T>::max();
  }
}
}  // namespace tflite
#endif

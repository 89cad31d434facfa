#ifndef VERIF_SHIM_C_COMMON_H_
#define VERIF_SHIM_C_COMMON_H_
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "tensorflow/lite/c/c_api_types.h"

#define TFLITE_EXPECT_FALSE(cond) __builtin_expect(cond, false)
#define TFLITE_EXPECT_TRUE(cond) __builtin_expect(!!(cond), true)

typedef struct TfLiteIntArray {
  int size;
  int data[];
} TfLiteIntArray;
typedef struct TfLiteFloatArray {
  int size;
  float data[];
} TfLiteFloatArray;

inline size_t TfLiteIntArrayGetSizeInBytes(int size) {
  return sizeof(TfLiteIntArray) + sizeof(int) * (size_t)(size < 0 ? 0 : size);
}
inline TfLiteIntArray* TfLiteIntArrayCreate(int size) {
  TfLiteIntArray* r =
      (TfLiteIntArray*)malloc(TfLiteIntArrayGetSizeInBytes(size));
  if (r) r->size = size;
  return r;
}
inline int TfLiteIntArrayEqualsArray(const TfLiteIntArray* a, int b_size,
                                     const int b_data[]) {
  if (!a) return b_size == 0;
  if (a->size != b_size) return 0;
  for (int i = 0; i < a->size; ++i)
    if (a->data[i] != b_data[i]) return 0;
  return 1;
}
inline int TfLiteIntArrayEqual(const TfLiteIntArray* a,
                               const TfLiteIntArray* b) {
  if (a == b) return 1;
  if (!a || !b) return 0;
  return TfLiteIntArrayEqualsArray(a, b->size, b->data);
}
inline TfLiteIntArray* TfLiteIntArrayCopy(const TfLiteIntArray* src) {
  if (!src) return NULL;
  TfLiteIntArray* r = TfLiteIntArrayCreate(src->size);
  if (r) memcpy(r->data, src->data, sizeof(int) * (size_t)src->size);
  return r;
}
inline void TfLiteIntArrayFree(TfLiteIntArray* a) { free(a); }
inline TfLiteFloatArray* TfLiteFloatArrayCreate(int size) {
  TfLiteFloatArray* r = (TfLiteFloatArray*)malloc(
      sizeof(TfLiteFloatArray) + sizeof(float) * (size_t)(size < 0 ? 0 : size));
  if (r) r->size = size;
  return r;
}
inline void TfLiteFloatArrayFree(TfLiteFloatArray* a) { free(a); }

typedef struct TfLiteComplex64 {
  float re, im;
} TfLiteComplex64;
typedef struct TfLiteComplex128 {
  double re, im;
} TfLiteComplex128;
typedef struct TfLiteFloat16 {
  uint16_t data;
} TfLiteFloat16;

typedef enum TfLiteQuantizationType {
  kTfLiteNoQuantization = 0,
  kTfLiteAffineQuantization = 1,
} TfLiteQuantizationType;
typedef struct TfLiteQuantization {
  TfLiteQuantizationType type;
  void* params;
} TfLiteQuantization;
typedef struct TfLiteAffineQuantization {
  TfLiteFloatArray* scale;
  TfLiteIntArray* zero_point;
  int32_t quantized_dimension;
} TfLiteAffineQuantization;

typedef union TfLitePtrUnion {
  int32_t* i32;
  uint32_t* u32;
  int64_t* i64;
  uint64_t* u64;
  float* f;
  TfLiteFloat16* f16;
  double* f64;
  char* raw;
  const char* raw_const;
  uint8_t* uint8;
  bool* b;
  int16_t* i16;
  uint16_t* ui16;
  TfLiteComplex64* c64;
  TfLiteComplex128* c128;
  int8_t* int8;
  void* data;
} TfLitePtrUnion;

typedef enum TfLiteAllocationType {
  kTfLiteMemNone = 0,
  kTfLiteMmapRo,
  kTfLiteArenaRw,
  kTfLiteArenaRwPersistent,
  kTfLiteDynamic,
  kTfLitePersistentRo,
  kTfLiteCustom,
  kTfLiteVariantObject,
} TfLiteAllocationType;

typedef int TfLiteBufferHandle;
enum { kTfLiteNullBufferHandle = -1 };
enum { kTfLiteOptionalTensor = -1 };
struct TfLiteContext;
struct TfLiteDelegate;

typedef struct TfLiteTensor {
  TfLiteType type;
  TfLitePtrUnion data;
  TfLiteIntArray* dims;
  TfLiteQuantizationParams params;
  TfLiteAllocationType allocation_type;
  size_t bytes;
  const void* allocation;
  const char* name;
  struct TfLiteDelegate* delegate;
  TfLiteBufferHandle buffer_handle;
  bool data_is_stale;
  bool is_variable;
  TfLiteQuantization quantization;
  void* sparsity;
  const TfLiteIntArray* dims_signature;
} TfLiteTensor;

typedef struct TfLiteNode {
  TfLiteIntArray* inputs;
  TfLiteIntArray* outputs;
  TfLiteIntArray* intermediates;
  TfLiteIntArray* temporaries;
  void* user_data;
  void* builtin_data;
  const void* custom_initial_data;
  int custom_initial_data_size;
  struct TfLiteDelegate* delegate;
  bool might_have_side_effect;
} TfLiteNode;

typedef enum TfLiteExternalContextType {
  kTfLiteEigenContext = 0,
  kTfLiteGemmLowpContext = 1,
  kTfLiteEdgeTpuContext = 2,
  kTfLiteCpuBackendContext = 3,
  kTfLiteMaxExternalContexts = 4
} TfLiteExternalContextType;

typedef struct TfLiteExternalContext {
  TfLiteExternalContextType type;
  TfLiteStatus (*Refresh)(struct TfLiteContext* context);
} TfLiteExternalContext;

typedef struct TfLiteContext {
  size_t tensors_size;
  TfLiteStatus (*GetExecutionPlan)(struct TfLiteContext* context,
                                   TfLiteIntArray** execution_plan);
  TfLiteTensor* tensors;
  void* impl_;
  TfLiteStatus (*ResizeTensor)(struct TfLiteContext*, TfLiteTensor* tensor,
                               TfLiteIntArray* new_size);
  void (*ReportError)(struct TfLiteContext*, const char* msg, ...);
  TfLiteStatus (*AddTensors)(struct TfLiteContext*, int tensors_to_add,
                             int* first_new_tensor_index);
  TfLiteExternalContext* (*GetExternalContext)(struct TfLiteContext*,
                                               TfLiteExternalContextType);
  void (*SetExternalContext)(struct TfLiteContext*, TfLiteExternalContextType,
                             TfLiteExternalContext*);
  bool allow_fp32_relax_to_fp16;
  int recommended_num_threads;
  void* profiler;
  TfLiteTensor* (*GetTensor)(const struct TfLiteContext* context,
                             int tensor_idx);
} TfLiteContext;

typedef struct TfLiteRegistration {
  void* (*init)(TfLiteContext* context, const char* buffer, size_t length);
  void (*free)(TfLiteContext* context, void* buffer);
  TfLiteStatus (*prepare)(TfLiteContext* context, TfLiteNode* node);
  TfLiteStatus (*invoke)(TfLiteContext* context, TfLiteNode* node);
  const char* (*profiling_string)(const TfLiteContext* context,
                                  const TfLiteNode* node);
  int32_t builtin_code;
  const char* custom_name;
  int version;
  void* registration_external;
  void* async_kernel;
  uint64_t inplace_operator;
} TfLiteRegistration;

inline const char* TfLiteTypeGetName(TfLiteType type) {
  switch (type) {
    case kTfLiteNoType: return "NOTYPE";
    case kTfLiteFloat32: return "FLOAT32";
    case kTfLiteUInt16: return "UINT16";
    case kTfLiteInt16: return "INT16";
    case kTfLiteInt32: return "INT32";
    case kTfLiteUInt32: return "UINT32";
    case kTfLiteUInt8: return "UINT8";
    case kTfLiteInt8: return "INT8";
    case kTfLiteInt64: return "INT64";
    case kTfLiteUInt64: return "UINT64";
    case kTfLiteBool: return "BOOL";
    case kTfLiteComplex64: return "COMPLEX64";
    case kTfLiteComplex128: return "COMPLEX128";
    case kTfLiteString: return "STRING";
    case kTfLiteFloat16: return "FLOAT16";
    case kTfLiteFloat64: return "FLOAT64";
    case kTfLiteResource: return "RESOURCE";
    case kTfLiteVariant: return "VARIANT";
    case kTfLiteInt4: return "INT4";
  }
  return "Unknown type";
}

#define TF_LITE_KERNEL_LOG(context, ...)            \
  do {                                              \
    (context)->ReportError((context), __VA_ARGS__); \
  } while (false)
#define TF_LITE_MAYBE_KERNEL_LOG(context, ...)        \
  do {                                                \
    if ((context) != nullptr) {                       \
      (context)->ReportError((context), __VA_ARGS__); \
    }                                                 \
  } while (false)
#define TF_LITE_ENSURE_MSG(context, value, ...)        \
  do {                                                 \
    if (!(value)) {                                    \
      TF_LITE_KERNEL_LOG((context), __FILE__ " " __VA_ARGS__); \
      return kTfLiteError;                             \
    }                                                  \
  } while (0)
#define TF_LITE_ENSURE(context, a)                                          \
  do {                                                                      \
    if (!(a)) {                                                             \
      TF_LITE_KERNEL_LOG((context), "%s:%d %s was not true.", __FILE__,     \
                         __LINE__, #a);                                     \
      return kTfLiteError;                                                  \
    }                                                                       \
  } while (0)
#define TF_LITE_ENSURE_STATUS(a) \
  do {                           \
    const TfLiteStatus s = (a);  \
    if (s != kTfLiteOk) {        \
      return s;                  \
    }                            \
  } while (0)
#define TF_LITE_ENSURE_EQ(context, a, b)                                   \
  do {                                                                     \
    if ((a) != (b)) {                                                      \
      TF_LITE_KERNEL_LOG((context), "%s:%d %s != %s (%d != %d)", __FILE__, \
                         __LINE__, #a, #b, (int)(a), (int)(b));            \
      return kTfLiteError;                                                 \
    }                                                                      \
  } while (0)
#define TF_LITE_ENSURE_TYPES_EQ(context, a, b)                             \
  do {                                                                     \
    if ((a) != (b)) {                                                      \
      TF_LITE_KERNEL_LOG((context), "%s:%d %s != %s (%s != %s)", __FILE__, \
                         __LINE__, #a, #b, TfLiteTypeGetName(a),           \
                         TfLiteTypeGetName(b));                            \
      return kTfLiteError;                                                 \
    }                                                                      \
  } while (0)
#define TF_LITE_ENSURE_NEAR(context, a, b, epsilon)                         \
  do {                                                                      \
    auto delta = ((a) > (b)) ? ((a) - (b)) : ((b) - (a));                   \
    if (delta > epsilon) {                                                  \
      TF_LITE_KERNEL_LOG((context), "%s:%d %s not near %s (%f != %f)",      \
                         __FILE__, __LINE__, #a, #b, (double)(a),           \
                         (double)(b));                                      \
      return kTfLiteError;                                                  \
    }                                                                       \
  } while (0)
#define TF_LITE_ENSURE_OK(context, status) \
  do {                                     \
    const TfLiteStatus s = (status);       \
    if ((s) != kTfLiteOk) {                \
      return s;                            \
    }                                      \
  } while (0)
#endif

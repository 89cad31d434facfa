// Entry points of the 32-bit Arm image: the host has 64-bit pointers, so operators,
// contexts and tensors are described to the guest in a flat form, and the guest builds
// the structures the operators expect.
#include <cstdarg>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "flat.h"
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/kernels/cpu_backend_context.h"
#include "tensorflow/lite/kernels/internal/types.h"
using namespace tflite;
#include "larq_compute_engine/core/bitpacking/bitpack.h"
namespace compute_engine {
namespace tflite {
TfLiteRegistration* Register_QUANTIZE();
TfLiteRegistration* Register_DEQUANTIZE();
TfLiteRegistration* Register_BCONV_2D();
TfLiteRegistration* Register_BCONV_2D_REF();
TfLiteRegistration* Register_BCONV_2D_OPT_BGEMM();
TfLiteRegistration* Register_BCONV_2D_OPT_INDIRECT_BGEMM();
TfLiteRegistration* Register_BMAXPOOL_2D();
}  // namespace tflite
}  // namespace compute_engine
// What the library would provide.
template class std::basic_string<char>;
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) x = y, y = y->_M_parent;
  return x->_M_right != y ? y : x;
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) {
    x = x->_M_left;
    while (x->_M_right) x = x->_M_right;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) x = y, y = y->_M_parent;
  return y;
}
// Balance does not matter here.
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p;
  x->_M_left = x->_M_right = 0;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) h._M_parent = h._M_right = x;
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
}  // namespace std
namespace {
struct Ctx {
  TfLiteContext c;
  ::tflite::CpuBackendContext* cpu;
  Flat* f;
  char error[256];
};
Ctx* Me(TfLiteContext* c) { return (Ctx*)c->impl_; }
TfLiteIntArray* Arr(const int32_t* d, int n) {
  TfLiteIntArray* a = TfLiteIntArrayCreate(n);
  for (int i = 0; i < n; ++i) a->data[i] = d[i];
  return a;
}
uint32_t SizeOf(TfLiteType t) {
  switch (t) {
    case kTfLiteInt8: case kTfLiteUInt8: case kTfLiteBool: return 1;
    case kTfLiteInt16: case kTfLiteFloat16: return 2;
    case kTfLiteInt64: case kTfLiteFloat64: return 8;
    default: return 4;
  }
}
TfLiteStatus Resize(TfLiteContext*, TfLiteTensor* t, TfLiteIntArray* d) {
  bool ok = t->allocation_type != kTfLiteMmapRo;
  uint64_t n = SizeOf(t->type);
  for (int i = 0; ok && i < d->size; ++i) {
    if (d->data[i] < 0) ok = false;
    else if ((n *= (uint32_t)d->data[i]) > 100000000u) ok = false;
  }
  if (!ok) {
    TfLiteIntArrayFree(d);
    return kTfLiteError;
  }
  TfLiteIntArrayFree(t->dims);
  t->dims = d;
  t->bytes = (size_t)n;
  return kTfLiteOk;
}
void Report(TfLiteContext*, const char*, ...) {}
TfLiteStatus Add(TfLiteContext* c, int k, int* first) {
  const int n = (int)c->tensors_size;
  auto* nt = (TfLiteTensor*)malloc((n + k) * sizeof(TfLiteTensor));
  memcpy((void*)nt, c->tensors, n * sizeof(TfLiteTensor));
  memset((void*)(nt + n), 0, k * sizeof(TfLiteTensor));
  free(c->tensors);
  c->tensors = nt;
  c->tensors_size = n + k;
  for (int i = n; i < n + k; ++i) {
    nt[i].type = kTfLiteFloat32;
    nt[i].allocation_type = kTfLiteArenaRw;
    nt[i].dims = TfLiteIntArrayCreate(0);
    nt[i].bytes = 4;
  }
  Me(c)->f->added += k;
  *first = n;
  return kTfLiteOk;
}
TfLiteExternalContext* Ext(TfLiteContext* c, TfLiteExternalContextType t) { return t == kTfLiteCpuBackendContext ? Me(c)->cpu : nullptr; }
TfLiteRegistration* Reg(uint32_t kind) {
  using namespace compute_engine::tflite;
  switch (kind) {
    case 0: return Register_QUANTIZE();
    case 1: return Register_DEQUANTIZE();
    case 2: return Register_BCONV_2D();
    case 3: return Register_BCONV_2D_REF();
    case 4: return Register_BCONV_2D_OPT_BGEMM();
    case 5: return Register_BCONV_2D_OPT_INDIRECT_BGEMM();
    default: return Register_BMAXPOOL_2D();
  }
}
void Open(Ctx& x, TfLiteNode& n, Flat* f) {
  memset((void*)&x, 0, sizeof x);
  memset(&n, 0, sizeof n);
  x.f = f;
  x.cpu = (::tflite::CpuBackendContext*)f->cpu;
  x.c.impl_ = &x;
  x.c.ResizeTensor = &Resize;
  x.c.ReportError = &Report;
  x.c.AddTensors = &Add;
  x.c.GetExternalContext = &Ext;
  x.c.recommended_num_threads = 1;
  x.c.tensors_size = f->ntensors;
  x.c.tensors = (TfLiteTensor*)malloc(f->ntensors * sizeof(TfLiteTensor));
  FlatTensor* ft = (FlatTensor*)f->tensors;
  for (uint32_t i = 0; i < f->ntensors; ++i) {
    TfLiteTensor& t = x.c.tensors[i];
    memset((void*)&t, 0, sizeof t);
    t.type = (TfLiteType)ft[i].type;
    t.allocation_type = (TfLiteAllocationType)ft[i].alloc;
    t.bytes = ft[i].bytes;
    t.dims = Arr(ft[i].dims, ft[i].nd);
    t.data.raw = (char*)ft[i].data;
    t.params.scale = ft[i].scale;
    t.params.zero_point = ft[i].zp;
    if (ft[i].quant) {
      auto* q = (TfLiteAffineQuantization*)malloc(sizeof(TfLiteAffineQuantization));
      q->scale = TfLiteFloatArrayCreate(1);
      q->scale->data[0] = t.params.scale;
      q->zero_point = TfLiteIntArrayCreate(1);
      q->zero_point->data[0] = t.params.zero_point;
      q->quantized_dimension = 0;
      t.quantization.type = kTfLiteAffineQuantization;
      t.quantization.params = q;
    }
  }
  n.inputs = Arr(f->in, f->nin);
  n.outputs = Arr(f->out, f->nout);
  n.temporaries = Arr(f->temps, f->ntemps);
  n.intermediates = TfLiteIntArrayCreate(0);
  n.user_data = (void*)f->user_data;
}
void Close(Ctx& x, TfLiteNode& n, Flat* f, bool back) {
  FlatTensor* ft = (FlatTensor*)f->tensors;
  for (uint32_t i = 0; i < x.c.tensors_size; ++i) {
    TfLiteTensor& t = x.c.tensors[i];
    if (back && i < f->capacity) {
      ft[i].type = t.type;
      ft[i].alloc = t.allocation_type;
      ft[i].bytes = t.bytes;
      ft[i].nd = t.dims->size;
      for (int k = 0; k < t.dims->size && k < 8; ++k) ft[i].dims[k] = t.dims->data[k];
    }
    TfLiteIntArrayFree(t.dims);
    if (t.quantization.params) {
      auto* q = (TfLiteAffineQuantization*)t.quantization.params;
      TfLiteFloatArrayFree(q->scale);
      TfLiteIntArrayFree(q->zero_point);
      free(q);
    }
  }
  if (back) {
    f->ntemps = n.temporaries->size;
    for (int i = 0; i < n.temporaries->size && i < 8; ++i) f->temps[i] = n.temporaries->data[i];
  }
  free(x.c.tensors);
  TfLiteIntArrayFree(n.inputs);
  TfLiteIntArrayFree(n.outputs);
  TfLiteIntArrayFree(n.temporaries);
  TfLiteIntArrayFree(n.intermediates);
}
}  // namespace
extern "C" {
uint32_t v32_has(uint32_t kind) {
  TfLiteRegistration* r = Reg(kind);
  return (r->init ? 1 : 0) | (r->free ? 2 : 0) | (r->prepare ? 4 : 0) | (r->invoke ? 8 : 0);
}
uint32_t v32_cpu(uint32_t seed) {
  auto* c = new ::tflite::CpuBackendContext;
  c->SetMaxNumThreads(1);
  c->ruy_context()->verif_seed(seed);
  return (uint32_t)c;
}
void v32_cpu_free(::tflite::CpuBackendContext* c) { delete c; }
uint32_t v32_init(uint32_t kind, const char* b, uint32_t n) {
  TfLiteContext c;
  memset(&c, 0, sizeof c);
  c.ReportError = &Report;
  return (uint32_t)Reg(kind)->init(&c, b, n);
}
void v32_free(uint32_t kind, void* p) {
  TfLiteContext c;
  memset(&c, 0, sizeof c);
  c.ReportError = &Report;
  Reg(kind)->free(&c, p);
}
uint32_t v32_prepare(uint32_t kind, Flat* f) {
  Ctx x;
  TfLiteNode n;
  Open(x, n, f);
  const uint32_t r = Reg(kind)->prepare(&x.c, &n);
  Close(x, n, f, true);
  return r;
}
uint32_t v32_invoke(uint32_t kind, Flat* f) {
  Ctx x;
  TfLiteNode n;
  Open(x, n, f);
  const uint32_t r = Reg(kind)->invoke(&x.c, &n);
  Close(x, n, f, false);
  return r;
}
// void (*)(const T*, rows, cols, out, zp)
#define P(T, N) \
  void v32_pack_##N(const T* in, uint32_t rows, uint32_t cols, int32_t* out, int32_t zp) { compute_engine::core::bitpacking::bitpack_matrix(in, rows, cols, out, zp); }
P(float, float)
P(int8_t, int8)
P(uint8_t, uint8)
}

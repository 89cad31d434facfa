// A miniature TFLite runtime for monitoring the LCE operators.
//
// Every tensor has its own allocation of exactly bytes+16 (the slack that
// LCE_EXTRA_BYTES documents), filled with rubbish, so that a sanitizer sees every
// access outside of it, and a comparison sees every write into the slack, into an
// input or into a constant. AddTensors always moves the tensor array.
#ifndef VERIF_MINI_H_
#define VERIF_MINI_H_
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <random>
#include <string>
#include <vector>
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/kernels/cpu_backend_context.h"

namespace verif {
using Rng = std::mt19937_64;
inline int RandInt(Rng& r, int lo, int hi) {
  return lo + (int)(r() % (uint64_t)(hi - lo + 1));
}
inline bool Coin(Rng& r, int num = 1, int den = 2) { return (int)(r() % den) < num; }
inline float RandUnit(Rng& r) { return (float)((r() >> 11) * (1.0 / 9007199254740992.0)); }
template <typename T>
T Pick(Rng& r, std::initializer_list<T> l) { return *(l.begin() + r() % l.size()); }

inline size_t TypeSize(TfLiteType t) {
  switch (t) {
    case kTfLiteFloat32: case kTfLiteInt32: return 4;
    case kTfLiteInt8: case kTfLiteUInt8: case kTfLiteBool: return 1;
    case kTfLiteInt16: case kTfLiteFloat16: return 2;
    case kTfLiteInt64: case kTfLiteFloat64: return 8;
    default: return 4;
  }
}
constexpr int kSlack = 16;

// A buffer with slack, whose slack can be checked.
struct Buffer {
  char* p = nullptr;
  size_t n = 0;
  unsigned char slack[kSlack];
  Buffer() {}
  Buffer(const Buffer&) = delete;
  ~Buffer() { free(p); }
  void Alloc(size_t bytes, Rng& rng) {
    free(p);
    n = bytes;
    void* q = nullptr;
    if (posix_memalign(&q, 64, bytes + kSlack)) abort();
    p = (char*)q;
    Dirty(rng);
    for (int i = 0; i < kSlack; ++i) p[n + i] = (char)(slack[i] = (unsigned char)rng());
  }
  void Dirty(Rng& rng) {
    uint64_t w = rng();
    for (size_t i = 0; i < n; ++i) {
      if (i % 8 == 0) w = w * 6364136223846793005ull + 1442695040888963407ull;
      p[i] = (char)(w >> (8 * (i % 8)));
    }
  }
  bool SlackIntact() const { return p == nullptr || memcmp(p + n, slack, kSlack) == 0; }
};

class MiniInterp {
 public:
  explicit MiniInterp(uint64_t seed, int threads = 1) : rng_(seed) {
    memset(&ctx_, 0, sizeof ctx_);
    ctx_.impl_ = this;
    ctx_.ResizeTensor = &ResizeTensorCb;
    ctx_.ReportError = &ReportErrorCb;
    ctx_.AddTensors = &AddTensorsCb;
    ctx_.GetExternalContext = &GetExtCb;
    ctx_.recommended_num_threads = threads;
    cpu_.SetMaxNumThreads(threads);
    cpu_.ruy_context()->verif_seed(rng_());
  }
  MiniInterp(const MiniInterp&) = delete;
  ~MiniInterp() {
    for (auto& n : nodes_) {
      if (n->reg->free && n->inited) n->reg->free(&ctx_, n->node.user_data);
      TfLiteIntArrayFree(n->node.inputs);
      TfLiteIntArrayFree(n->node.outputs);
      TfLiteIntArrayFree(n->node.temporaries);
      TfLiteIntArrayFree(n->node.intermediates);
    }
    for (size_t i = 0; i < bufs_.size(); ++i) {
      TfLiteTensor& t = ctx_.tensors[i];
      TfLiteIntArrayFree(t.dims);
      if (t.quantization.type == kTfLiteAffineQuantization) {
        auto* q = (TfLiteAffineQuantization*)t.quantization.params;
        if (q) {
          TfLiteFloatArrayFree(q->scale);
          TfLiteIntArrayFree(q->zero_point);
          free(q);
        }
      }
    }
    free(ctx_.tensors);
  }

  int AddTensor(TfLiteType type, const std::vector<int>& dims,
                TfLiteAllocationType at = kTfLiteArenaRw) {
    int idx = Grow(1);
    TfLiteTensor& t = ctx_.tensors[idx];
    t.type = type;
    t.allocation_type = at;
    t.dims = TfLiteIntArrayCreate((int)dims.size());
    for (size_t i = 0; i < dims.size(); ++i) t.dims->data[i] = dims[i];
    t.bytes = Bytes(t);
    t.name = "t";
    if (at == kTfLiteMmapRo) {
      bufs_[idx]->Alloc(t.bytes, rng_);
      t.data.raw = bufs_[idx]->p;
    }
    return idx;
  }
  void Quantize(int idx, float scale, int zp) {
    TfLiteTensor& t = ctx_.tensors[idx];
    t.params.scale = scale;
    t.params.zero_point = zp;
    auto* q = (TfLiteAffineQuantization*)malloc(sizeof(TfLiteAffineQuantization));
    q->scale = TfLiteFloatArrayCreate(1);
    q->scale->data[0] = scale;
    q->zero_point = TfLiteIntArrayCreate(1);
    q->zero_point->data[0] = zp;
    q->quantized_dimension = 0;
    t.quantization.type = kTfLiteAffineQuantization;
    t.quantization.params = q;
  }
  int AddNode(const TfLiteRegistration* reg, const std::vector<uint8_t>& options,
              const std::vector<int>& in, const std::vector<int>& out) {
    auto n = std::make_unique<Node>();
    memset(&n->node, 0, sizeof n->node);
    n->reg = reg;
    n->node.inputs = MakeArray(in);
    n->node.outputs = MakeArray(out);
    n->node.temporaries = TfLiteIntArrayCreate(0);
    n->node.intermediates = TfLiteIntArrayCreate(0);
    if (reg->init) {
      // A private copy that goes away: operators must not keep pointers into it.
      std::vector<uint8_t> copy(options);
      n->node.user_data = reg->init(&ctx_, (const char*)copy.data(), copy.size());
      n->inited = true;
      for (auto& b : copy) b = 0xEE;
    }
    nodes_.push_back(std::move(n));
    return (int)nodes_.size() - 1;
  }
  TfLiteTensor& T(int i) { return ctx_.tensors[i]; }
  template <typename U>
  U* Data(int i) { return (U*)ctx_.tensors[i].data.raw; }
  std::vector<int> Dims(int i) {
    auto* d = ctx_.tensors[i].dims;
    return std::vector<int>(d->data, d->data + d->size);
  }
  void SetDims(int i, const std::vector<int>& dims) {
    TfLiteTensor& t = ctx_.tensors[i];
    TfLiteIntArrayFree(t.dims);
    t.dims = MakeArray(dims);
    t.bytes = Bytes(t);
    t.data.raw = nullptr;
  }
  TfLiteStatus PrepareNode(int i) { return nodes_[i]->reg->prepare(&ctx_, &nodes_[i]->node); }
  TfLiteStatus InvokeNode(int i) { return nodes_[i]->reg->invoke(&ctx_, &nodes_[i]->node); }
  // Prepares every node, then places every tensor.
  TfLiteStatus Allocate() {
    for (size_t i = 0; i < nodes_.size(); ++i)
      if (PrepareNode((int)i) != kTfLiteOk) return kTfLiteError;
    MoveBuffers(false);
    return kTfLiteOk;
  }
  // Gives arena tensors new memory (keeping the contents if asked), as a
  // re-acquired arena or a custom allocation does: no Prepare.
  void MoveBuffers(bool keep) {
    for (size_t i = 0; i < bufs_.size(); ++i) {
      TfLiteTensor& t = ctx_.tensors[i];
      if (t.allocation_type == kTfLiteMmapRo || t.allocation_type == kTfLiteMemNone) continue;
      auto nb = std::make_unique<Buffer>();
      nb->Alloc(t.bytes, rng_);
      if (keep && bufs_[i]->p && bufs_[i]->n == nb->n) memcpy(nb->p, bufs_[i]->p, nb->n);
      bufs_[i]->Dirty(rng_);  // nothing may still look there
      graveyard_.push_back(std::move(bufs_[i]));
      if (graveyard_.size() > 6) graveyard_.erase(graveyard_.begin());
      bufs_[i] = std::move(nb);
      t.data.raw = bufs_[i]->p;
    }
  }
  // Gives a constant other contents, in memory of its own (the old memory stays what it was).
  void NewConstant(int i) {
    auto nb = std::make_unique<Buffer>();
    nb->Alloc(ctx_.tensors[i].bytes, rng_);
    old_constants_.push_back(std::move(bufs_[i]));
    bufs_[i] = std::move(nb);
    ctx_.tensors[i].data.raw = bufs_[i]->p;
  }
  void Requantize(int i, float scale, int zp) {
    TfLiteTensor& t = ctx_.tensors[i];
    auto* q = (TfLiteAffineQuantization*)t.quantization.params;
    t.params.scale = q->scale->data[0] = scale;
    t.params.zero_point = q->zero_point->data[0] = zp;
  }
  // Runs every node. Outputs and temporaries are dirty before, and inputs,
  // constants and slack are compared after each node.
  TfLiteStatus Invoke() {
    for (auto& n : nodes_) {
      std::vector<std::string> before;
      for (int i = 0; i < (int)bufs_.size(); ++i) {
        bool out = Contains(n->node.outputs, i) || Contains(n->node.temporaries, i);
        if (out) {
          bufs_[i]->Dirty(rng_);
          before.emplace_back();
        } else {
          before.emplace_back(bufs_[i]->p ? std::string(bufs_[i]->p, bufs_[i]->n) : std::string());
        }
      }
      if (n->reg->invoke(&ctx_, &n->node) != kTfLiteOk) return kTfLiteError;
      for (int i = 0; i < (int)bufs_.size(); ++i) {
        bool out = Contains(n->node.outputs, i) || Contains(n->node.temporaries, i);
        ++mem_checks;
        if (!bufs_[i]->SlackIntact()) mem_fault = "slack of a tensor overwritten";
        if (!out && bufs_[i]->p && memcmp(before[i].data(), bufs_[i]->p, bufs_[i]->n))
          mem_fault = "a tensor that is no output was modified";
      }
    }
    return kTfLiteOk;
  }
  // New rubbish in all slack bytes.
  void NewSlack() {
    for (auto& b : bufs_)
      if (b->p)
        for (int i = 0; i < kSlack; ++i) b->p[b->n + i] = (char)(b->slack[i] = (unsigned char)rng_());
  }
  void SlackValue(unsigned char v) {
    for (auto& b : bufs_)
      if (b->p)
        for (int i = 0; i < kSlack; ++i) b->p[b->n + i] = (char)(b->slack[i] = v);
  }
  ruy::Context* ruy() { return cpu_.ruy_context(); }
  TfLiteContext* ctx() { return &ctx_; }
  TfLiteNode* node(int i) { return &nodes_[i]->node; }
  int num_tensors() const { return (int)bufs_.size(); }
  std::string mem_fault, last_error;
  long mem_checks = 0;
  int fail_resize_at = -1, resize_calls = 0;

 private:
  struct Node {
    TfLiteNode node;
    const TfLiteRegistration* reg;
    bool inited = false;
  };
  static TfLiteIntArray* MakeArray(const std::vector<int>& v) {
    auto* a = TfLiteIntArrayCreate((int)v.size());
    for (size_t i = 0; i < v.size(); ++i) a->data[i] = v[i];
    return a;
  }
  static bool Contains(const TfLiteIntArray* a, int v) {
    for (int i = 0; a && i < a->size; ++i)
      if (a->data[i] == v) return true;
    return false;
  }
  static size_t Bytes(const TfLiteTensor& t) {
    size_t n = TypeSize(t.type);
    for (int i = 0; i < t.dims->size; ++i) n *= (size_t)(t.dims->data[i] < 0 ? 0 : t.dims->data[i]);
    return n;
  }
  int Grow(int k) {
    const int first = (int)bufs_.size();
    auto* nt = (TfLiteTensor*)calloc(first + k, sizeof(TfLiteTensor));
    if (first) {
      memcpy(nt, ctx_.tensors, sizeof(TfLiteTensor) * first);
      memset((void*)ctx_.tensors, 0xDD, sizeof(TfLiteTensor) * first);
      free(ctx_.tensors);
    }
    ctx_.tensors = nt;
    ctx_.tensors_size = first + k;
    for (int i = 0; i < k; ++i) bufs_.push_back(std::make_unique<Buffer>());
    return first;
  }
  static MiniInterp* Me(TfLiteContext* c) { return (MiniInterp*)c->impl_; }
  static TfLiteStatus ResizeTensorCb(TfLiteContext* c, TfLiteTensor* t, TfLiteIntArray* d) {
    MiniInterp* me = Me(c);
    bool ok = me->resize_calls++ != me->fail_resize_at && d->size >= 0;
    double total = 1;
    for (int i = 0; ok && i < d->size; ++i) {
      if (d->data[i] < 0) ok = false;  // TFLite: byte count overflows
      total *= d->data[i];
    }
    if (total > 1e8) ok = false;       // out of memory
    if (t->allocation_type == kTfLiteMmapRo) ok = false;
    if (!ok) {
      TfLiteIntArrayFree(d);
      return kTfLiteError;
    }
    TfLiteIntArrayFree(t->dims);
    t->dims = d;
    t->bytes = Bytes(*t);
    return kTfLiteOk;
  }
  static void ReportErrorCb(TfLiteContext* c, const char* f, ...) {
    char b[512];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    Me(c)->last_error = b;
  }
  static TfLiteStatus AddTensorsCb(TfLiteContext* c, int k, int* first) {
    MiniInterp* me = Me(c);
    int f = me->Grow(k);
    for (int i = 0; i < k; ++i) {
      TfLiteTensor& t = me->ctx_.tensors[f + i];
      t.type = kTfLiteFloat32;
      t.allocation_type = kTfLiteArenaRw;
      t.dims = TfLiteIntArrayCreate(0);
      t.bytes = 4;
      t.name = "temp";
    }
    if (first) *first = f;
    return kTfLiteOk;
  }
  static TfLiteExternalContext* GetExtCb(TfLiteContext* c, TfLiteExternalContextType t) {
    return t == kTfLiteCpuBackendContext ? &Me(c)->cpu_ : nullptr;
  }
  Rng rng_;
  TfLiteContext ctx_;
  tflite::CpuBackendContext cpu_;
  std::vector<std::unique_ptr<Buffer>> bufs_, graveyard_, old_constants_;
  std::vector<std::unique_ptr<Node>> nodes_;
};
}  // namespace verif
#endif

// Stands in for the operators' object files: every registration leads into the
// emulated 32-bit Arm image named by VERIF_A32_IMAGE. Pointers do not fit, so tensors are
// mirrored into the guest's memory before a call, with their slack bytes, and back
// afterwards. A mirror moves when the host's buffer moves.
#include "bridge.h"
#include <cmath>
#include <memory>
#include "emu.h"
#include "flat.h"
#include "tensorflow/lite/c/common.h"
namespace a32 {
static constexpr u32 kSlack = 16;
template <typename T>
static T* P(u32 a) { return (T*)(uintptr_t)a; }
static u64 Div(Cpu& c, bool sign, bool mod) {
  const u32 a = c.r[0], b = c.r[1];
  if (!b) {
    fprintf(stderr, "VERIF-A32: division by zero\n");
    abort();
  }
  const u32 q = sign ? (u32)((i64)(i32)a / (i32)b) : a / b;
  return mod ? (u64)(a - q * b) << 32 | q : q;
}
// Copies of the C library that look at every byte's shadow.
static void Known(u32 a, u32 n) {
  if (a < 0x20000000u || (u64)a + n > 0x40000000u) {
    fprintf(stderr, "VERIF-A32: %u bytes at %x handed to the C library\n", n, a);
    abort();
  }
}
static void Provide(Cpu& c) {
  auto& h = c.host;
  h["malloc"] = h["_Znwj"] = h["_Znaj"] = [](Cpu& c) -> u64 { return c.arena.Alloc(c.r[0]); };
  h["calloc"] = [](Cpu& c) -> u64 { return c.arena.Alloc(c.r[0] * c.r[1], true); };
  h["free"] = h["_ZdlPv"] = h["_ZdaPv"] = h["_ZdlPvj"] = [](Cpu& c) -> u64 { c.arena.Free(c.r[0]); return 0; };
  h["posix_memalign"] = [](Cpu& c) -> u64 {
    if (c.r[1] > 64) NoVerdict("an alignment of more than 64", c.pc, 0);
    Known(c.r[0], 4);
    *P<u32>(c.r[0]) = c.arena.Alloc(c.r[2]);
    return 0;
  };
  h["realloc"] = [](Cpu& c) -> u64 {
    const u32 n = c.arena.Alloc(c.r[1]);
    if (c.r[0]) {
      memcpy(P<char>(n), P<char>(c.r[0]), std::min(c.arena.SizeOf(c.r[0]), c.r[1]));
      c.arena.Free(c.r[0]);
    }
    return n;
  };
  h["memcpy"] = [](Cpu& c) -> u64 {
    if (c.r[2]) Known(c.r[0], c.r[2]), Known(c.r[1], c.r[2]), memcpy(P<char>(c.r[0]), P<char>(c.r[1]), c.r[2]);
    return c.r[0];
  };
  h["memmove"] = [](Cpu& c) -> u64 {
    if (c.r[2]) Known(c.r[0], c.r[2]), Known(c.r[1], c.r[2]), memmove(P<char>(c.r[0]), P<char>(c.r[1]), c.r[2]);
    return c.r[0];
  };
  h["memset"] = [](Cpu& c) -> u64 {
    if (c.r[2]) Known(c.r[0], c.r[2]), memset(P<char>(c.r[0]), (int)c.r[1], c.r[2]);
    return c.r[0];
  };
  // The same with the operands of the Arm runtime ABI: destination, size, value.
  h["__aeabi_memcpy"] = h["__aeabi_memcpy4"] = h["__aeabi_memcpy8"] = h["memcpy"];
  h["__aeabi_memmove"] = h["__aeabi_memmove4"] = h["__aeabi_memmove8"] = h["memmove"];
  h["__aeabi_memset"] = h["__aeabi_memset4"] = h["__aeabi_memset8"] = [](Cpu& c) -> u64 {
    if (c.r[1]) Known(c.r[0], c.r[1]), memset(P<char>(c.r[0]), (int)c.r[2], c.r[1]);
    return c.r[0];
  };
  h["__aeabi_memclr"] = h["__aeabi_memclr4"] = h["__aeabi_memclr8"] = [](Cpu& c) -> u64 {
    if (c.r[1]) Known(c.r[0], c.r[1]), memset(P<char>(c.r[0]), 0, c.r[1]);
    return c.r[0];
  };
  h["memcmp"] = h["bcmp"] = [](Cpu& c) -> u64 {
    if (!c.r[2]) return 0;
    Known(c.r[0], c.r[2]), Known(c.r[1], c.r[2]);
    return (u32)memcmp(P<char>(c.r[0]), P<char>(c.r[1]), c.r[2]);
  };
  h["strlen"] = [](Cpu& c) -> u64 { Known(c.r[0], 1); return strlen(P<char>(c.r[0])); };
  h["roundf"] = [](Cpu& c) -> u64 { return c.retf = std::roundf(c.f[0]), c.retn = 1, 0; };
  h["round"] = [](Cpu& c) -> u64 { return c.retd = std::round(c.g[0]), c.retn = 2, 0; };
  h["floorf"] = [](Cpu& c) -> u64 { return c.retf = std::floor(c.f[0]), c.retn = 1, 0; };
  h["ceilf"] = [](Cpu& c) -> u64 { return c.retf = std::ceil(c.f[0]), c.retn = 1, 0; };
  h["__aeabi_idiv"] = [](Cpu& c) { return Div(c, true, false); };
  h["__aeabi_uidiv"] = [](Cpu& c) { return Div(c, false, false); };
  h["__aeabi_idivmod"] = [](Cpu& c) { return Div(c, true, true); };
  h["__aeabi_uidivmod"] = [](Cpu& c) { return Div(c, false, true); };
  h["__aeabi_ldivmod"] = [](Cpu& c) -> u64 {
    const i64 a = (i64)((u64)c.r[1] << 32 | c.r[0]), b = (i64)((u64)c.r[3] << 32 | c.r[2]);
    if (!b) NoVerdict("a 64-bit division by zero", c.pc, 0);
    const i64 q = b == -1 ? (i64)(0 - (u64)a) : a / b;
    c.rem = (u64)a - (u64)q * (u64)b, c.retn = 3;
    return (u64)q;
  };
  h["__aeabi_uldivmod"] = [](Cpu& c) -> u64 {
    const u64 a = (u64)c.r[1] << 32 | c.r[0], b = (u64)c.r[3] << 32 | c.r[2];
    if (!b) NoVerdict("a 64-bit division by zero", c.pc, 0);
    c.rem = a % b, c.retn = 3;
    return a / b;
  };
  auto dbl = [](Cpu& c) {
    const u64 b = (u64)c.r[1] << 32 | c.r[0];
    double v;
    memcpy(&v, &b, 8);
    return v;
  };
  h["__aeabi_d2lz"] = [dbl](Cpu& c) -> u64 {
    const double v = dbl(c);
    return v != v ? 0 : v >= 9223372036854775807.0 ? INT64_MAX : v <= -9223372036854775808.0 ? (u64)INT64_MIN : (u64)(i64)v;
  };
  h["__aeabi_d2ulz"] = [dbl](Cpu& c) -> u64 { const double v = dbl(c); return v != v || v <= 0 ? 0 : v >= 18446744073709551615.0 ? ~0ull : (u64)v; };
  auto toD = [](Cpu& c, double v) -> u64 { u64 b; memcpy(&b, &v, 8); return b; };
  h["__aeabi_l2d"] = [toD](Cpu& c) -> u64 { return toD(c, (double)(i64)((u64)c.r[1] << 32 | c.r[0])); };
  h["__aeabi_ul2d"] = [toD](Cpu& c) -> u64 { return toD(c, (double)((u64)c.r[1] << 32 | c.r[0])); };
  auto toF = [](float v) -> u64 { u32 b; memcpy(&b, &v, 4); return b; };
  h["__aeabi_l2f"] = [toF](Cpu& c) -> u64 { return toF((float)(i64)((u64)c.r[1] << 32 | c.r[0])); };
  h["__aeabi_ul2f"] = [toF](Cpu& c) -> u64 { return toF((float)((u64)c.r[1] << 32 | c.r[0])); };
  h["abort"] = [](Cpu& c) -> u64 {
    c.Where();
    fprintf(stderr, "VERIF-A32: the operator calls abort\n");
    abort();
  };
  h["fprintf"] = h["fwrite"] = h["__cxa_atexit"] = h["__aeabi_atexit"] = [](Cpu&) -> u64 { return 0; };
  h["pthread_once"] = [](Cpu& c) -> u64 { NoVerdict("pthread_once", c.pc, 0); };
}
static Cpu& TheCpu() {
  static Cpu* cpu = [] {
    Cpu* c = new Cpu();
    const char* path = getenv("VERIF_A32_IMAGE");
    if (!path) NoVerdict("no image", 0, 0);
    Provide(*c);
    c->Load(path);
    return c;
  }();
  return *cpu;
}
static u32 Enter(const char* name, std::initializer_list<u32> args) {
  Cpu& c = TheCpu();
  static u64 seed = 1;
  c.Rubbish(++seed);
  c.budget = c.executed + 2000000000ull;
  const u32 r = c.Call(c.Sym(name), args);
  if (!c.fault.empty()) {
    fprintf(stderr, "VERIF-A32: %s\n", c.fault.c_str());
    abort();
  }
  return r;
}
void Pack(const char* name, const void* in, size_t in_bytes, size_t mis, size_t rows, size_t cols, void* out, size_t out_bytes, int32_t zp) {
  Cpu& c = TheCpu();
  const u32 a = c.arena.Alloc((u32)(in_bytes + mis)), b = c.arena.Alloc((u32)out_bytes);
  if (in_bytes) memcpy(P<char>(a + mis), in, in_bytes);
  memcpy(P<char>(b), out, out_bytes);
  Enter(name, {a + (u32)mis, (u32)rows, (u32)cols, b, (u32)zp});
  if (memcmp(P<char>(a + mis), in, in_bytes)) {
    fprintf(stderr, "VERIF-A32: packing modifies its input\n");
    abort();
  }
  memcpy(out, P<char>(b), out_bytes);
  c.arena.Free(a);
  c.arena.Free(b);
}
void ReportTo(const std::function<void(const std::string&, long)>& count) {
  Cpu& c = TheCpu();
  count("emulated_instructions", c.executed);
  count("emulated_vector_instructions", c.vector_insns);
  count("loads_checked", c.loads);
  count("stores_checked", c.stores);
  count("returns_checked", c.returns_checked);
  static const char* parts[][2] = {{"RunBGemmKernelTypedILN3ruy4PathE16Ef", "4x4_float"}, {"RunBGemmKernelTypedILN3ruy4PathE16Ea", "4x4_int8"}, {"BinaryKernelNeon4x4If", "4x4_float"}, {"BinaryKernelNeon4x4Ia", "4x4_int8"}, {"v32_pack_float", "packing_float"},
                                   {"v32_pack_int8", "packing_int8"}, {"v32_pack_uint8", "packing_uint8"}};
  std::map<std::string, long> sum;
  c.Functions([&](const std::string& f, u64 n, u64 distinct, u64 all) {
    for (auto& p : parts)
      if (f.find(p[0]) != std::string::npos) sum[std::string("executed_in_") + p[1]] += n;
    if (getenv("VERIF_A32_COVERAGE")) fprintf(stderr, "COVERAGE %llu of %llu  %s\n", (unsigned long long)distinct, (unsigned long long)all, f.c_str());
  });
  for (auto& x : sum) count(x.first, x.second);
}
// A tensor's memory in the guest.
struct Mirror {
  const void* host = nullptr;
  size_t bytes = 0;
  u32 at = 0;
};
struct State {
  u32 user = 0, cpu = 0;
  std::map<int, Mirror> mirrors;
  ~State() {
    for (auto& m : mirrors) TheCpu().arena.Free(m.second.at);
  }
};
static TfLiteStatus Run(u32 kind, const char* fn, State& st, TfLiteContext* ctx, TfLiteNode* node, bool prepare) {
  Cpu& cpu = TheCpu();
  const u32 n = (u32)ctx->tensors_size, cap = n + 8;
  const u32 ft = cpu.arena.Alloc(cap * sizeof(FlatTensor), true), ff = cpu.arena.Alloc(sizeof(Flat), true);
  Flat* f = P<Flat>(ff);
  FlatTensor* t = P<FlatTensor>(ft);
  f->user_data = st.user, f->cpu = st.cpu, f->ntensors = n, f->capacity = cap, f->tensors = ft;
  auto list = [&](const TfLiteIntArray* a, i32* to) -> u32 {
    if (a->size > 8) NoVerdict("a node with more than eight tensors", 0, 0);
    for (int i = 0; i < a->size; ++i) to[i] = a->data[i];
    return a->size;
  };
  f->nin = list(node->inputs, f->in), f->nout = list(node->outputs, f->out), f->ntemps = list(node->temporaries, f->temps);
  for (u32 i = 0; i < n; ++i) {
    TfLiteTensor& h = ctx->tensors[i];
    t[i].type = h.type, t[i].alloc = h.allocation_type, t[i].bytes = (u32)h.bytes;
    if (h.dims->size > 8) NoVerdict("a tensor of more than eight dimensions", 0, 0);
    t[i].nd = h.dims->size;
    for (int k = 0; k < h.dims->size; ++k) t[i].dims[k] = h.dims->data[k];
    t[i].scale = h.params.scale, t[i].zp = h.params.zero_point;
    t[i].quant = h.quantization.type == kTfLiteAffineQuantization;
    Mirror& m = st.mirrors[(int)i];
    t[i].data = m.at;  // whatever it was the last time
    if (prepare && h.allocation_type != kTfLiteMmapRo) continue;
    if (m.host != h.data.raw || m.bytes != h.bytes) {
      cpu.arena.Free(m.at);
      m.host = h.data.raw, m.bytes = h.bytes;
      m.at = m.host ? cpu.arena.Alloc((u32)h.bytes + kSlack) : 0;
    }
    if (m.at) memcpy(P<char>(m.at), m.host, m.bytes + kSlack);
    t[i].data = m.at;
  }
  TfLiteStatus r = (TfLiteStatus)Enter(fn, {kind, ff});
  for (u32 i = 0; i < n; ++i) {
    Mirror& m = st.mirrors[(int)i];
    if (prepare && ctx->tensors[i].allocation_type != kTfLiteMmapRo) continue;
    if (m.at && memcmp(P<char>(m.at), m.host, m.bytes + kSlack)) memcpy((void*)m.host, P<char>(m.at), m.bytes + kSlack);
  }
  if (prepare) {
    if (f->added > 8) NoVerdict("more than eight added tensors", 0, 0);
    int first = 0;
    if (f->added && ctx->AddTensors(ctx, f->added, &first) != kTfLiteOk) NoVerdict("tensors cannot be added", 0, 0);
    for (u32 i = 0; i < n + f->added; ++i) {
      TfLiteTensor& h = ctx->tensors[i];
      h.type = (TfLiteType)t[i].type;
      h.allocation_type = (TfLiteAllocationType)t[i].alloc;
      bool same = h.bytes == t[i].bytes && h.dims->size == (int)t[i].nd;
      for (u32 k = 0; same && k < t[i].nd; ++k) same = h.dims->data[k] == t[i].dims[k];
      if (same) continue;
      TfLiteIntArray* d = TfLiteIntArrayCreate(t[i].nd);
      for (u32 k = 0; k < t[i].nd; ++k) d->data[k] = t[i].dims[k];
      if (ctx->ResizeTensor(ctx, &h, d) != kTfLiteOk) r = kTfLiteError;
    }
    TfLiteIntArrayFree(node->temporaries);
    node->temporaries = TfLiteIntArrayCreate(f->ntemps);
    for (u32 i = 0; i < f->ntemps; ++i) node->temporaries->data[i] = f->temps[i];
  }
  cpu.arena.Free(ft);
  cpu.arena.Free(ff);
  return r;
}
template <int K>
struct Reg {
  static void* Init(TfLiteContext*, const char* b, size_t n) {
    Cpu& c = TheCpu();
    static u32 seed = 77;
    State* s = new State;
    s->cpu = Enter("v32_cpu", {seed = seed * 1664525u + 1013904223u});
    const u32 copy = c.arena.Alloc((u32)n);
    if (n) memcpy(P<char>(copy), b, n);
    s->user = Enter("v32_init", {(u32)K, copy, (u32)n});
    c.arena.Free(copy);
    return s;
  }
  static void Free(TfLiteContext*, void* b) {
    State* s = (State*)b;
    Enter("v32_free", {(u32)K, s->user});
    Enter("v32_cpu_free", {s->cpu});
    delete s;
  }
  static TfLiteStatus Go(const char* fn, TfLiteContext* c, TfLiteNode* n, bool prepare) {
    if (n->user_data) return Run(K, fn, *(State*)n->user_data, c, n, prepare);
    State s;
    return Run(K, fn, s, c, n, prepare);
  }
  static TfLiteStatus Prepare(TfLiteContext* c, TfLiteNode* n) { return Go("v32_prepare", c, n, true); }
  static TfLiteStatus Invoke(TfLiteContext* c, TfLiteNode* n) { return Go("v32_invoke", c, n, false); }
  static TfLiteRegistration* Get() {
    static TfLiteRegistration r = [] {
      TfLiteRegistration t;
      memset(&t, 0, sizeof t);
      const u32 has = Enter("v32_has", {(u32)K});
      if (has & 1) t.init = &Init;
      if (has & 2) t.free = &Free;
      if (has & 4) t.prepare = &Prepare;
      if (has & 8) t.invoke = &Invoke;
      return t;
    }();
    return &r;
  }
};
}  // namespace a32
namespace compute_engine {
namespace tflite {
TfLiteRegistration* Register_QUANTIZE() { return a32::Reg<0>::Get(); }
TfLiteRegistration* Register_DEQUANTIZE() { return a32::Reg<1>::Get(); }
TfLiteRegistration* Register_BCONV_2D() { return a32::Reg<2>::Get(); }
TfLiteRegistration* Register_BCONV_2D_REF() { return a32::Reg<3>::Get(); }
TfLiteRegistration* Register_BCONV_2D_OPT_BGEMM() { return a32::Reg<4>::Get(); }
TfLiteRegistration* Register_BCONV_2D_OPT_INDIRECT_BGEMM() { return a32::Reg<5>::Get(); }
TfLiteRegistration* Register_BMAXPOOL_2D() { return a32::Reg<6>::Get(); }
}  // namespace tflite
}  // namespace compute_engine

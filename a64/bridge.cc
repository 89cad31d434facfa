// Stands in for the operators' object files: every registration leads into the
// emulated AArch64 image named by VERIF_A64_IMAGE.
#include <new>
#include "emu.h"
#include "bridge.h"
#include "tensorflow/lite/c/common.h"
namespace a64 {
static void Ignore() {}
Cpu& TheCpu() {
  static Cpu* cpu = [] {
    Cpu* c = new Cpu();
    const char* path = getenv("VERIF_A64_IMAGE");
    if (!path) NoVerdict("no image", 0, 0);
    c->Load(path, {{"__cxa_atexit", (void*)&Ignore}});
    return c;
  }();
  return *cpu;
}
u64 Enter(u64 fn, std::initializer_list<u64> args) {
  Cpu& c = TheCpu();
  static u64 seed = 1;
  c.Rubbish(++seed);
  c.budget = c.executed + 2000000000ull;
  const u64 r = c.Call(fn, args);
  if (!c.fault.empty()) {
    fprintf(stderr, "VERIF-A64: %s\n", c.fault.c_str());
    abort();
  }
  return r;
}
u64 EnterExport(const char* name, std::initializer_list<u64> args) { return Enter(TheCpu().Sym(name), args); }
void ReportTo(const std::function<void(const std::string&, long)>& count) {
  Cpu& c = TheCpu();
  count("emulated_instructions", c.executed);
  count("emulated_vector_instructions", c.vector_insns);
  count("loads_checked", c.loads);
  count("stores_checked", c.stores);
  count("returns_checked", c.returns_checked);
  static const char* parts[][2] = {{"Kernel8x4x1Aarch64If", "8x4x1_float"}, {"Kernel8x4x1Aarch64Ia", "8x4x1_int8"},
                                   {"Kernel8x4x2Aarch64If", "8x4x2_float"}, {"Kernel8x4x2Aarch64Ia", "8x4x2_int8"},
                                   {"Kernel8x4x4Aarch64If", "8x4x4_float"}, {"Kernel8x4x4Aarch64Ia", "8x4x4_int8"},
                                   {"BinaryMulParamsIsf", "16_bit_bgemm_float"}, {"BinaryMulParamsIsa", "16_bit_bgemm_int8"},
                                   {"BinaryMulParamsIsi", "16_bit_bgemm_bits"}, {"BinaryMulParamsIif", "32_bit_bgemm_float"},
                                   {"BinaryMulParamsIia", "32_bit_bgemm_int8"}, {"BinaryMulParamsIii", "32_bit_bgemm_bits"},
                                   {"verif_pack_float", "packing_float"}, {"verif_pack_int8", "packing_int8"}, {"verif_pack_uint8", "packing_uint8"}};
  c.Functions([&](const std::string& f, u64 n, u64 distinct, u64 all) {
    for (auto& p : parts)
      if (f.find(p[0]) != std::string::npos) count(std::string("executed_in_") + p[1], n);
    if (getenv("VERIF_A64_COVERAGE")) fprintf(stderr, "COVERAGE %llu of %llu  %s\n", (unsigned long long)distinct, (unsigned long long)all, f.c_str());
  });
}
template <int K>
struct Reg {
  static TfLiteRegistration* guest;
  static void* Init(TfLiteContext* c, const char* b, size_t n) { return (void*)Enter((u64)guest->init, {(u64)c, (u64)b, (u64)n}); }
  static void Free(TfLiteContext* c, void* b) { Enter((u64)guest->free, {(u64)c, (u64)b}); }
  static TfLiteStatus Prepare(TfLiteContext* c, TfLiteNode* n) { return (TfLiteStatus)(u32)Enter((u64)guest->prepare, {(u64)c, (u64)n}); }
  static TfLiteStatus Invoke(TfLiteContext* c, TfLiteNode* n) { return (TfLiteStatus)(u32)Enter((u64)guest->invoke, {(u64)c, (u64)n}); }
  static TfLiteRegistration* Get(const char* sym) {
    static TfLiteRegistration r = [&] {
      guest = (TfLiteRegistration*)Enter(TheCpu().Sym(sym), {});
      TfLiteRegistration t = *guest;
      if (guest->init) t.init = &Init;
      if (guest->free) t.free = &Free;
      if (guest->prepare) t.prepare = &Prepare;
      if (guest->invoke) t.invoke = &Invoke;
      return t;
    }();
    return &r;
  }
};
template <int K>
TfLiteRegistration* Reg<K>::guest = nullptr;
}  // namespace a64
namespace compute_engine {
namespace tflite {
TfLiteRegistration* Register_QUANTIZE() { return a64::Reg<0>::Get("_ZN14compute_engine6tflite17Register_QUANTIZEEv"); }
TfLiteRegistration* Register_DEQUANTIZE() { return a64::Reg<1>::Get("_ZN14compute_engine6tflite19Register_DEQUANTIZEEv"); }
TfLiteRegistration* Register_BCONV_2D() { return a64::Reg<2>::Get("_ZN14compute_engine6tflite17Register_BCONV_2DEv"); }
TfLiteRegistration* Register_BCONV_2D_REF() { return a64::Reg<3>::Get("_ZN14compute_engine6tflite21Register_BCONV_2D_REFEv"); }
TfLiteRegistration* Register_BCONV_2D_OPT_BGEMM() { return a64::Reg<4>::Get("_ZN14compute_engine6tflite27Register_BCONV_2D_OPT_BGEMMEv"); }
TfLiteRegistration* Register_BCONV_2D_OPT_INDIRECT_BGEMM() { return a64::Reg<5>::Get("_ZN14compute_engine6tflite36Register_BCONV_2D_OPT_INDIRECT_BGEMMEv"); }
TfLiteRegistration* Register_BMAXPOOL_2D() { return a64::Reg<6>::Get("_ZN14compute_engine6tflite20Register_BMAXPOOL_2DEv"); }
}  // namespace tflite
}  // namespace compute_engine

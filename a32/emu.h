// A 32-bit Arm (A32, VFPv3, Advanced SIMD) user-mode emulator that executes the real
// 32-bit Arm build of the operators, inline assembly included, inside the harness
// process. The guest's memory is an arena below 2 GB; every load and store is looked
// up in AddressSanitizer's shadow memory first, and a branch out of the guest's image
// is a call of a host function.
#ifndef VERIF_A32_EMU_H_
#define VERIF_A32_EMU_H_
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <initializer_list>
#include <map>
#include <string>
#include <vector>

namespace a32 {
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef int32_t i32;
constexpr u32 kStop = 0xFFFF0000u, kHost = 0xFFF00000u;

[[noreturn]] void NoVerdict(const char* what, u32 pc, u32 insn);

// The guest's memory: blocks with redzones, poisoned outside of what was asked for.
class Arena {
 public:
  Arena();
  u32 Alloc(u32 bytes, bool clear = false);
  void Free(u32 p);
  u32 SizeOf(u32 p) { return live_.at(p); }

 private:
  void Cover(u32 n);
  u32 base_, end_, at_, covered_;
  size_t waiting_bytes_ = 0;
  std::map<u32, u32> live_;
  std::map<u32, std::vector<u32>> free_;
  std::deque<u32> waiting_;
  std::map<u32, u32> dead_;
};

union Q {
  uint8_t b[16];
  uint16_t h[8];
  uint32_t w[4];
  uint64_t d[2];
  float f[4];
};

class Cpu {
 public:
  u32 r[16];
  union {
    Q q[16];
    uint64_t d[32];
    uint32_t s[64];
    float f[64];
    double g[32];
    uint8_t bytes[256];
  };
  bool N, Z, C, V;
  u32 fpscr = 0;
  u32 pc = 0;
  u64 executed = 0, loads = 0, stores = 0, hostcalls = 0, returns_checked = 0, vector_insns = 0, budget = ~0ull;
  std::map<std::string, u32> syms;
  std::vector<u64> seen;
  Arena arena;
  std::string fault;
  std::map<std::string, std::function<u64(Cpu&)>> host;
  // What a host function returns besides r0 and r1: 1 s0, 2 d0, 3 the remainder in r2 and r3.
  int retn = 0;
  float retf;
  double retd;
  u64 rem;
  static constexpr u32 kStack = 1 << 20;

  Cpu();
  void Where();
  void Load(const char* path);
  u32 Sym(const char* n);
  void Rubbish(u64 seed);
  u32 Call(u32 fn, std::initializer_list<u32> args);
  void Functions(const std::function<void(const std::string&, u64, u64, u64)>& f);
  void Fault(const char* what) {
    if (fault.empty()) fault = what;
  }

 private:
  u32 text_lo_ = 0, text_n_ = 0, next_ = 0, stack_ = 0;
  u32 excl_ = 0;
  // Every call inside of the image: what has to be the same when it returns.
  struct Frame {
    u32 ret, sp, keep[8];
    u64 keepd[8];
  };
  std::vector<Frame> frames_;
  void Called() {
    Frame f;
    f.ret = pc + 4, f.sp = r[13];
    memcpy(f.keep, &r[4], sizeof f.keep);
    memcpy(f.keepd, &d[8], sizeof f.keepd);
    frames_.push_back(f);
  }
  void Returned() {
    const Frame& f = frames_.back();
    ++returns_checked;
    if (memcmp(f.keep, &r[4], sizeof f.keep) || memcmp(f.keepd, &d[8], sizeof f.keepd)) Fault("a function returns without restoring a callee-saved register");
    frames_.pop_back();
  }
  bool excl_on_ = false;
  std::vector<std::string> imports_;
  void Run(u32 start);
  void HostCall(u32 k);
  void Chk(u32 a, u32 n, bool w);
  template <typename T>
  T Ld(u32 a) {
    ++loads;
    Chk(a, sizeof(T), false);
    T t;
    memcpy(&t, (void*)(uintptr_t)a, sizeof t);
    return t;
  }
  template <typename T>
  void St(u32 a, T t) {
    ++stores;
    Chk(a, sizeof(T), true);
    memcpy((void*)(uintptr_t)a, &t, sizeof t);
  }
  void Align(u32 a, u32 n) {
    if (a & (n - 1)) Fault("an access that needs alignment is not aligned");
  }
  bool Cond(u32 c) const {
    bool x;
    switch (c >> 1) {
      case 0: x = Z; break;
      case 1: x = C; break;
      case 2: x = N; break;
      case 3: x = V; break;
      case 4: x = C && !Z; break;
      case 5: x = N == V; break;
      case 6: x = !Z && N == V; break;
      default: return true;
    }
    return x != (c & 1);
  }
  u32 R(u32 k) const { return k == 15 ? pc + 8 : r[k]; }
  void Jump(u32 to, u32 i);
  u32 Shift(u32 v, u32 type, u32 n, bool reg, bool& c) const;
  u32 AddC(u32 a, u32 b, bool c, bool set);
  void Step(u32 i);
  void DataProc(u32 i);
  void Multiply(u32 i);
  void Extra(u32 i);
  void Exclusive(u32 i);
  void Misc(u32 i);
  void Media(u32 i);
  void LoadStore(u32 i);
  void Block(u32 i);
  void VfpMem(u32 i);
  void VfpData(u32 i);
  void VfpMove(u32 i);
  void Simd(u32 i);
  void SimdMem(u32 i);
  void Same3(u32 i);
  void Diff3(u32 i);
  void ByScalar(u32 i);
  void Misc2(u32 i);
  void ShiftImm(u32 i);
  [[noreturn]] void Und(u32 i) { NoVerdict("unknown instruction", pc, i); }
};
}  // namespace a32
#endif

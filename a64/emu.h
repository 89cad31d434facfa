// An AArch64 (A64) user-mode emulator that executes the real AArch64 build of the
// operators, inline assembly included, inside the harness process: the guest shares
// the host's memory (both are little-endian LP64), every load and store is looked up
// in AddressSanitizer's shadow memory first, and a branch out of the guest's image is
// a call of a host function.
#ifndef VERIF_A64_EMU_H_
#define VERIF_A64_EMU_H_
#include <dlfcn.h>
#include <elf.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>

extern "C" void __asan_report_load_n(void*, size_t);
extern "C" void __asan_report_store_n(void*, size_t);

namespace a64 {
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef int32_t i32;
typedef unsigned __int128 u128;

union V {
  uint8_t b[16];
  uint16_t h[8];
  uint32_t s[4];
  uint64_t d[2];
  float f[4];
  double g[2];
};

struct HostRet {
  u64 i;
  double d;
};
typedef HostRet (*HostFn)(u64, u64, u64, u64, u64, u64, double, double, double, double, double, double, double, double, u64,
                          u64, u64, u64, u64, u64);
constexpr u64 kStop = 0xFFFFFFFFFFFF0000ull;

// The harness cannot judge what it cannot execute.
[[noreturn]] inline void NoVerdict(const char* what, u64 pc, u32 insn) {
  printf("NOVERDICT\tthe emulator: %s, pc %llx, instruction %08x\n", what, (unsigned long long)pc, insn);
  fflush(stdout);
  _exit(77);
}

struct Image {
  char* base = nullptr;
  size_t size = 0, text_lo = 0, text_hi = 0;
  std::map<std::string, u64> syms;
  std::vector<u64> init;
};

class Cpu {
 public:
  u64 x[32];  // x[31] is the stack pointer
  V v[32];
  bool N, Z, C, O;
  u64 pc;
  u64 executed = 0, loads = 0, stores = 0, hostcalls = 0, returns_checked = 0, vector_insns = 0;
  u64 budget = ~0ull;
  Image img;
  std::vector<u64> seen;  // how often each instruction of the image was executed
  char* stack = nullptr;
  static constexpr size_t kStack = 1 << 20;

  Cpu() {
    memset(x, 0, sizeof x);
    memset(v, 0, sizeof v);
    N = Z = C = O = false;
    stack = (char*)malloc(kStack);
    Rubbish(1);
  }
  // Rubbish where the next call may not look.
  void Rubbish(u64 seed) {
    u64* p = (u64*)stack;
    for (size_t i = (kStack - 65536) / 8; i < kStack / 8; ++i) p[i] = seed = seed * 6364136223846793005ull + 1442695040888963407ull;
    for (int i = 0; i < 31; ++i) x[i] = seed = seed * 6364136223846793005ull + 1;
    for (int i = 0; i < 32; ++i) v[i].d[0] = seed = seed * 6364136223846793005ull + 1, v[i].d[1] = seed * 7;
  }
  u64 Sym(const char* n) {
    auto it = img.syms.find(n);
    if (it == img.syms.end()) {
      printf("NOVERDICT\tthe guest image has no symbol %s\n", n);
      fflush(stdout);
      _exit(77);
    }
    return it->second;
  }
  u64 Call(u64 fn, std::initializer_list<u64> args) {
    const u64 saved_pc = pc;
    u64 keep[12];
    memcpy(keep, &x[19], sizeof keep);
    const u64 sp = x[31];
    if (depth_++ == 0) x[31] = (u64)(stack + kStack - 256);
    x[31] &= ~15ull;
    int k = 0;
    for (u64 a : args) x[k++] = a;
    x[30] = kStop;
    V keepv[8];
    memcpy(keepv, &v[8], sizeof keepv);
    const u64 entry_sp = x[31];
    Run(fn);
    // The procedure call standard: x19-x29, sp and the low halves of v8-v15 survive.
    if (x[31] != entry_sp) Fault("the stack pointer is not restored");
    for (int i = 0; i < 11; ++i)
      if (x[19 + i] != keep[i]) Fault("a callee-saved general register is not restored");
    for (int i = 0; i < 8; ++i)
      if (v[8 + i].d[0] != keepv[i].d[0]) Fault("a callee-saved vector register is not restored");
    --depth_;
    x[31] = sp;
    pc = saved_pc;
    memcpy(&x[19], keep, sizeof keep);
    return x[0];
  }
  std::string fault;
  std::string fault_at;
  void Fault(const char* what) {
    if (fault.empty()) fault = what;
  }

  void Run(u64 start) {
    pc = start;
    const size_t floor = frames_.size();
    while (true) {
      if (pc - text_lo_ >= text_n_) {
        if (pc == kStop) {
          frames_.resize(floor);
          return;
        }
        HostCall();
        continue;
      }
      if (frames_.size() > floor && frames_.back().ret == pc && frames_.back().sp == x[31]) Returned();
      u32 i;
      memcpy(&i, (void*)pc, 4);
      ++executed;
      ++seen[(pc - text_lo_) >> 2];
      if (executed > budget) {
        printf("VIOL-LOOP\n");
        fflush(stdout);
        fprintf(stderr, "VERIF-A64: the operator does not come to an end\n");
        abort();
      }
      next_ = pc + 4;
      Step(i);
      pc = next_;
    }
  }

  void Load(const char* path, const std::map<std::string, void*>& overrides) {
    int fd = open(path, O_RDONLY);
    struct stat st;
    if (fd < 0 || fstat(fd, &st)) die("open");
    std::vector<char> f(st.st_size);
    if (pread(fd, f.data(), f.size(), 0) != (ssize_t)f.size()) die("read");
    close(fd);
    Elf64_Ehdr* eh = (Elf64_Ehdr*)f.data();
    if (memcmp(eh->e_ident, ELFMAG, 4) || eh->e_machine != EM_AARCH64) die("no AArch64 image");
    Elf64_Phdr* ph = (Elf64_Phdr*)(f.data() + eh->e_phoff);
    u64 hi = 0, dyn = 0;
    for (int i = 0; i < eh->e_phnum; ++i) {
      if (ph[i].p_type == PT_LOAD) hi = std::max<u64>(hi, ph[i].p_vaddr + ph[i].p_memsz);
      if (ph[i].p_type == PT_DYNAMIC) dyn = ph[i].p_vaddr;
    }
    img.size = (hi + 65535) & ~65535ull;
    img.base = (char*)mmap(nullptr, img.size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (img.base == MAP_FAILED) die("mmap");
    for (int i = 0; i < eh->e_phnum; ++i) {
      if (ph[i].p_type != PT_LOAD) continue;
      memcpy(img.base + ph[i].p_vaddr, f.data() + ph[i].p_offset, ph[i].p_filesz);
      if (ph[i].p_flags & PF_X) {
        text_lo_ = (u64)img.base + ph[i].p_vaddr;
        text_n_ = ph[i].p_memsz;
        seen.assign(text_n_ / 4 + 1, 0);
      }
    }
    const u64 B = (u64)img.base;
    Elf64_Sym* sym = nullptr;
    const char* str = nullptr;
    u64 rela = 0, relasz = 0, jmprel = 0, pltsz = 0, ia = 0, iasz = 0;
    for (Elf64_Dyn* d = (Elf64_Dyn*)(B + dyn); d->d_tag != DT_NULL; ++d) switch (d->d_tag) {
        case DT_SYMTAB: sym = (Elf64_Sym*)(B + d->d_un.d_ptr); break;
        case DT_STRTAB: str = (const char*)(B + d->d_un.d_ptr); break;
        case DT_RELA: rela = d->d_un.d_ptr; break;
        case DT_RELASZ: relasz = d->d_un.d_val; break;
        case DT_JMPREL: jmprel = d->d_un.d_ptr; break;
        case DT_PLTRELSZ: pltsz = d->d_un.d_val; break;
        case DT_INIT_ARRAY: ia = d->d_un.d_ptr; break;
        case DT_INIT_ARRAYSZ: iasz = d->d_un.d_val; break;
      }
    auto resolve = [&](const Elf64_Sym& s) -> u64 {
      if (s.st_shndx != SHN_UNDEF) return B + s.st_value;
      const std::string n = str + s.st_name;
      auto o = overrides.find(n);
      if (o != overrides.end()) return (u64)o->second;
      void* p = dlsym(RTLD_DEFAULT, n.c_str());
      if (!p && ELF64_ST_BIND(s.st_info) != STB_WEAK) {
        printf("NOVERDICT\tthe guest needs the symbol %s\n", n.c_str());
        fflush(stdout);
        _exit(77);
      }
      return (u64)p;
    };
    auto relocate = [&](u64 at, u64 n) {
      for (u64 k = 0; k < n / sizeof(Elf64_Rela); ++k) {
        Elf64_Rela& r = ((Elf64_Rela*)(B + at))[k];
        u64* where = (u64*)(B + r.r_offset);
        switch (ELF64_R_TYPE(r.r_info)) {
          case 1027: *where = B + r.r_addend; break;                                      // RELATIVE
          case 1025: case 1026: case 257: *where = resolve(sym[ELF64_R_SYM(r.r_info)]) + r.r_addend; break;
          default: die("relocation");
        }
      }
    };
    relocate(rela, relasz);
    relocate(jmprel, pltsz);
    Elf64_Shdr* sh = (Elf64_Shdr*)(f.data() + eh->e_shoff);
    for (int i = 0; i < eh->e_shnum; ++i)
      if (sh[i].sh_type == SHT_DYNSYM)
        for (u64 k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); ++k)
          if (sym[k].st_shndx != SHN_UNDEF) img.syms[str + sym[k].st_name] = B + sym[k].st_value;
    for (u64 k = 0; k < iasz / 8; ++k) Call(((u64*)(B + ia))[k], {});
  }

  // Calls f(function, executed instructions in it, distinct ones, all of them).
  template <typename Fn>
  void Functions(Fn f) {
    std::map<u64, std::string> at;
    for (auto& s : img.syms)
      if (s.second - text_lo_ < text_n_) at[s.second] = s.first;
    for (auto it = at.begin(); it != at.end(); ++it) {
      auto nx = std::next(it);
      const u64 end = nx == at.end() ? text_lo_ + text_n_ : nx->first;
      u64 n = 0, d = 0;
      for (u64 a = it->first; a < end; a += 4) n += seen[(a - text_lo_) >> 2], d += seen[(a - text_lo_) >> 2] != 0;
      if (n) f(it->second, n, d, (end - it->first) / 4);
    }
  }

 private:
  u64 text_lo_ = 0, text_n_ = 0, next_ = 0;
  int depth_ = 0;
  // Every call inside of the image: what has to be the same when it returns.
  struct Frame {
    u64 ret, sp, keep[11], keepv[8];
  };
  std::vector<Frame> frames_;
  void Called() {
    Frame f;
    f.ret = pc + 4, f.sp = x[31];
    memcpy(f.keep, &x[19], sizeof f.keep);
    for (int i = 0; i < 8; ++i) f.keepv[i] = v[8 + i].d[0];
    frames_.push_back(f);
  }
  void Returned() {
    const Frame& f = frames_.back();
    ++returns_checked;
    bool same = !memcmp(f.keep, &x[19], sizeof f.keep);
    for (int i = 0; i < 8; ++i) same &= f.keepv[i] == v[8 + i].d[0];
    if (!same) Fault("a function returns without restoring a callee-saved register");
    frames_.pop_back();
  }
  static void die(const char* what) {
    printf("NOVERDICT\tloading the guest image: %s\n", what);
    fflush(stdout);
    _exit(77);
  }
  void HostCall() {
    ++hostcalls;
    u64 sp[4] = {0, 0, 0, 0};
    memcpy(sp, (void*)x[31], std::min<size_t>(sizeof sp, (size_t)(stack + kStack - (char*)x[31])));
    const u64 lr = x[30];
    HostRet r = ((HostFn)pc)(x[0], x[1], x[2], x[3], x[4], x[5], v[0].g[0], v[1].g[0], v[2].g[0], v[3].g[0], v[4].g[0], v[5].g[0],
                             v[6].g[0], v[7].g[0], x[6], x[7], sp[0], sp[1], sp[2], sp[3]);
    x[0] = r.i;
    v[0].g[0] = r.d;
    v[0].d[1] = 0;
    // Nothing may rely on what the call leaves in the other caller-saved registers.
    for (int i = 1; i < 18; ++i) x[i] = 0xC0DEC0DEC0DEC0DEull + i * 0x1234567;
    for (int i = 1; i < 32; ++i) {
      if (i < 8 || i >= 16) v[i].d[0] = 0x7ff8c0dec0de0000ull + i;
      v[i].d[1] = 0xfff8c0dec0de0000ull + i;
    }
    N = !N, C = !C;
    pc = lr;
  }

  // ------------------------------------------------------------------ memory
  __attribute__((no_sanitize("address"))) static bool Poisoned(u64 a, unsigned n) {
    // 16 bytes span at most three shadow bytes.
    for (u64 g = a >> 3; g <= (a + n - 1) >> 3; ++g) {
      const signed char s = *(signed char*)(g + 0x7fff8000ull);
      if (s) {
        if (s < 0) return true;
        const u64 last = std::min(a + n - 1, (g << 3) + 7) & 7;
        if ((signed char)last >= s) return true;
      }
    }
    return false;
  }
  void Chk(u64 a, unsigned n, bool w) {
    if (a < 4096 || (a >> 47)) {
      fprintf(stderr, "VERIF-A64: %s of %u bytes at %llx\n", w ? "store" : "load", n, (unsigned long long)a);
      abort();
    }
    if (Poisoned(a, n)) {
      Where();
      if (w) __asan_report_store_n((void*)a, n);
      else __asan_report_load_n((void*)a, n);
    }
    if (w && a + n > text_lo_ && a < text_lo_ + text_n_) {
      fprintf(stderr, "VERIF-A64: store into code\n");
      abort();
    }
  }
  void Where() {
    const char* best = "?";
    u64 at = 0;
    for (auto& s : img.syms)
      if (s.second <= pc && s.second > at) at = s.second, best = s.first.c_str();
    fprintf(stderr, "VERIF-A64: guest pc is %s+0x%llx\n", best, (unsigned long long)(pc - at));
  }
  template <typename T>
  T Ld(u64 a) {
    ++loads;
    Chk(a, sizeof(T), false);
    T t;
    memcpy(&t, (void*)a, sizeof t);
    return t;
  }
  template <typename T>
  void St(u64 a, T t) {
    ++stores;
    Chk(a, sizeof(T), true);
    memcpy((void*)a, &t, sizeof t);
  }
  u64 LdN(u64 a, unsigned sz) {
    switch (sz) {
      case 0: return Ld<uint8_t>(a);
      case 1: return Ld<uint16_t>(a);
      case 2: return Ld<uint32_t>(a);
      default: return Ld<uint64_t>(a);
    }
  }
  void StN(u64 a, unsigned sz, u64 t) {
    switch (sz) {
      case 0: return St<uint8_t>(a, (uint8_t)t);
      case 1: return St<uint16_t>(a, (uint16_t)t);
      case 2: return St<uint32_t>(a, (uint32_t)t);
      default: return St<uint64_t>(a, t);
    }
  }
  void LdV(unsigned r, u64 a, unsigned sz) {
    V t;
    t.d[0] = t.d[1] = 0;
    if (sz == 4) {
      ++loads;
      Chk(a, 16, false);
      memcpy(&t, (void*)a, 16);
    } else {
      t.d[0] = LdN(a, sz);
    }
    v[r] = t;
  }
  void StV(unsigned r, u64 a, unsigned sz) {
    if (sz == 4) {
      ++stores;
      Chk(a, 16, true);
      memcpy((void*)a, &v[r], 16);
    } else {
      StN(a, sz, v[r].d[0]);
    }
  }

  // ----------------------------------------------------------------- helpers
  static u32 F(u32 i, int hi, int lo) { return (i >> lo) & ((hi - lo == 31) ? ~0u : ((1u << (hi - lo + 1)) - 1)); }
  static bool B(u32 i, int b) { return (i >> b) & 1; }
  static i64 SX(u64 t, int bits) { return (i64)(t << (64 - bits)) >> (64 - bits); }
  static u64 M(int bits) { return bits >= 64 ? ~0ull : ((1ull << bits) - 1); }
  u64 X(unsigned r) const { return r == 31 ? 0 : x[r]; }
  void W(unsigned r, u64 t, bool is64) {
    if (r != 31) x[r] = is64 ? t : (u32)t;
  }
  void WSP(unsigned r, u64 t, bool is64) { x[r] = is64 ? t : (u32)t; }
  [[noreturn]] void Un(u32 i) { NoVerdict("unknown instruction", pc - (u64)img.base, i); }
  u64 AddC(u64 a, u64 b, bool cin, bool is64, bool flags) {
    if (is64) {
      const u64 r = a + b + cin;
      if (flags) {
        N = r >> 63;
        Z = r == 0;
        C = ((u128)a + b + cin) >> 64;
        O = (~(a ^ b) & (a ^ r)) >> 63;
      }
      return r;
    }
    const u32 A = (u32)a, Bv = (u32)b, r = A + Bv + cin;
    if (flags) {
      N = r >> 31;
      Z = r == 0;
      C = ((u64)A + Bv + cin) >> 32;
      O = (~(A ^ Bv) & (A ^ r)) >> 31;
    }
    return r;
  }
  u64 Logic(u32 op, u64 a, u64 b, bool is64) {  // AND ORR EOR ANDS
    u64 r = op == 1 ? a | b : op == 2 ? a ^ b : a & b;
    if (!is64) r = (u32)r;
    if (op == 3) {
      N = is64 ? r >> 63 : (r >> 31) & 1;
      Z = r == 0;
      C = O = false;
    }
    return r;
  }
  bool Cond(u32 c) const {
    bool r;
    switch (c >> 1) {
      case 0: r = Z; break;
      case 1: r = C; break;
      case 2: r = N; break;
      case 3: r = O; break;
      case 4: r = C && !Z; break;
      case 5: r = N == O; break;
      case 6: r = N == O && !Z; break;
      default: return true;
    }
    return (c & 1) ? !r : r;
  }
  static u64 Shift(u64 t, u32 type, u32 n, bool is64) {
    const int w = is64 ? 64 : 32;
    if (!is64) t = (u32)t;
    if (!n) return t;
    switch (type) {
      case 0: t <<= n; break;
      case 1: t >>= n; break;
      case 2: t = (u64)(SX(t, w) >> n); break;
      default: t = (t >> n) | (t << (w - n)); break;
    }
    return is64 ? t : (u32)t;
  }
  static u64 Extend(u64 t, u32 option, u32 shift) {
    switch (option) {
      case 0: t = (uint8_t)t; break;
      case 1: t = (uint16_t)t; break;
      case 2: t = (u32)t; break;
      case 4: t = (u64)(i64)(int8_t)t; break;
      case 5: t = (u64)(i64)(int16_t)t; break;
      case 6: t = (u64)(i64)(i32)t; break;
    }
    return t << shift;
  }
  static bool BitMask(u32 n, u32 imms, u32 immr, bool is64, u64* out) {
    const u32 key = (n << 6) | (~imms & 63);
    int len = 31 - __builtin_clz(key ? key : 1);
    if (len < 1 || (!is64 && n)) return false;
    const u32 levels = (1u << len) - 1, s = imms & levels, r = immr & levels, size = 1u << len;
    if (s == levels) return false;
    u64 e = M(s + 1);
    if (r) e = ((e >> r) | (e << (size - r))) & M(size);
    u64 t = 0;
    for (u32 k = 0; k < 64; k += size) t |= e << k;
    *out = is64 ? t : (u32)t;
    return true;
  }
  static double FpImm(u32 imm8) {
    const int s = imm8 >> 7, e3 = (imm8 >> 4) & 7, f = imm8 & 15;
    const int e = (e3 & 4) ? (e3 & 3) - 3 : (e3 & 3) + 1;
    const double t = std::ldexp(1.0 + f / 16.0, e);
    return s ? -t : t;
  }
  static double Round(double t, int mode) {  // 0 nearest even, 1 +inf, 2 -inf, 3 zero, 4 nearest away
    switch (mode) {
      case 0: return std::nearbyint(t);
      case 1: return std::ceil(t);
      case 2: return std::floor(t);
      case 3: return std::trunc(t);
      default: return std::round(t);
    }
  }
  static u64 ToInt(double t, int mode, bool uns, int bits) {
    if (std::isnan(t)) return 0;
    t = Round(t, mode);
    if (uns) {
      if (t <= 0) return 0;
      if (t >= std::ldexp(1.0, bits)) return M(bits);
      return (u64)t;
    }
    const double lim = std::ldexp(1.0, bits - 1);
    if (t >= lim) return M(bits - 1);
    if (t < -lim) return 1ull << (bits - 1);
    return (u64)(i64)t & M(bits);
  }
  template <typename T>
  static T FMax(T a, T b, bool num) {
    if (std::isnan(a) || std::isnan(b)) {
      if (num && !(std::isnan(a) && std::isnan(b))) return std::isnan(a) ? b : a;
      return std::numeric_limits<T>::quiet_NaN();
    }
    if (a == 0 && b == 0) return std::signbit(a) ? b : a;
    return a > b ? a : b;
  }
  template <typename T>
  static T FMin(T a, T b, bool num) {
    return -FMax<T>(-a, -b, num);
  }
  template <typename T>
  void FCmp(T a, T b) {
    if (std::isnan(a) || std::isnan(b)) N = false, Z = false, C = true, O = true;
    else if (a == b) N = false, Z = true, C = true, O = false;
    else if (a < b) N = true, Z = false, C = false, O = false;
    else N = false, Z = false, C = true, O = false;
  }
  void SetNZCV(u32 f) { N = f >> 3 & 1, Z = f >> 2 & 1, C = f >> 1 & 1, O = f & 1; }
  static u64 G(const V& a, int sz, int i) {
    switch (sz) {
      case 0: return a.b[i];
      case 1: return a.h[i];
      case 2: return a.s[i];
      default: return a.d[i];
    }
  }
  static i64 GS(const V& a, int sz, int i) { return SX(G(a, sz, i), 8 << sz); }
  static void P(V& a, int sz, int i, u64 t) {
    switch (sz) {
      case 0: a.b[i] = (uint8_t)t; break;
      case 1: a.h[i] = (uint16_t)t; break;
      case 2: a.s[i] = (u32)t; break;
      default: a.d[i] = t; break;
    }
  }
  static double GF(const V& a, bool dbl, int i) { return dbl ? a.g[i] : (double)a.f[i]; }
  static void PF(V& a, bool dbl, int i, double t) {
    if (dbl) a.g[i] = t;
    else a.f[i] = (float)t;
  }
  static V Zero() {
    V t;
    t.d[0] = t.d[1] = 0;
    return t;
  }
  static u64 SatS(__int128 t, int bits) {
    const __int128 hi = ((__int128)1 << (bits - 1)) - 1, lo = -((__int128)1 << (bits - 1));
    return (u64)(t > hi ? hi : t < lo ? lo : t) & M(bits);
  }
  static u64 SatU(__int128 t, int bits) {
    const __int128 hi = ((__int128)1 << bits) - 1;
    return (u64)(t > hi ? hi : t < 0 ? 0 : t);
  }

  void Step(u32 i);
  void DpImm(u32 i);
  void Branch(u32 i);
  void LdSt(u32 i);
  void DpReg(u32 i);
  void Fp(u32 i);
  void Simd(u32 i);
  void SimdMem(u32 i);
  void ThreeSame(u32 i, bool scalar);
  void ThreeDiff(u32 i);
  void TwoMisc(u32 i, bool scalar);
  void Across(u32 i);
  void Copy(u32 i, bool scalar);
  void Permute(u32 i);
  void ModImm(u32 i);
  void ShiftImm(u32 i, bool scalar);
  void ByElement(u32 i, bool scalar);
  void PairScalar(u32 i);
};
}  // namespace a64
#endif

#include "emu.h"
#include <elf.h>
#include <fcntl.h>
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
extern "C" void __asan_report_load_n(void*, size_t);
extern "C" void __asan_report_store_n(void*, size_t);
namespace a32 {
template <typename T>
static T* P(u32 a) { return (T*)(uintptr_t)a; }
void NoVerdict(const char* what, u32 pc, u32 insn) {
  printf("NOVERDICT\tthe emulator: %s, pc %x, instruction %08x\n", what, pc, insn);
  fflush(stdout);
  _exit(77);
}
// ------------------------------------------------------------------------ memory
static constexpr u32 kArena = 0x20000000u, kArenaSize = 0x20000000u, kChunk = 1u << 22;
Arena::Arena() {
  void* p = mmap((void*)(uintptr_t)kArena, kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)(uintptr_t)kArena) NoVerdict("no memory below 2 GB", 0, 0);
  base_ = at_ = covered_ = kArena;
  end_ = kArena + kArenaSize;
}
void Arena::Cover(u32 to) {
  while (covered_ < to) {
    if (covered_ >= end_) NoVerdict("the guest's memory is used up", 0, 0);
    ASAN_POISON_MEMORY_REGION(P<char>(covered_), kChunk);
    covered_ += kChunk;
  }
}
u32 Arena::Alloc(u32 bytes, bool clear) {
  const u32 room = (std::max<u32>(bytes, 1) + 63) & ~63u;
  u32 p;
  auto& l = free_[room];
  if (!l.empty()) {
    p = l.back();
    l.pop_back();
    dead_.erase(p);
  } else {
    if (at_ + room + 192 > end_) NoVerdict("the guest's memory is used up", 0, 0);
    p = at_ + 64;
    Cover(p + room + 64);
    at_ = p + room;
  }
  live_[p] = bytes;
  ASAN_UNPOISON_MEMORY_REGION(P<char>(p), bytes);
  static u64 seed = 7;
  for (u32 i = 0; i < bytes; ++i) {
    if (i % 8 == 0) seed = seed * 6364136223846793005ull + 1442695040888963407ull;
    P<char>(p)[i] = clear ? 0 : (char)(seed >> (8 * (i % 8)));
  }
  return p;
}
void Arena::Free(u32 p) {
  if (!p) return;
  auto it = live_.find(p);
  if (it == live_.end()) {
    fprintf(stderr, "VERIF-A32: free of %x, which is not allocated\n", p);
    abort();
  }
  const u32 room = (std::max<u32>(it->second, 1) + 63) & ~63u;
  ASAN_POISON_MEMORY_REGION(P<char>(p), room);
  live_.erase(it);
  dead_[p] = room;
  waiting_.push_back(p);
  waiting_bytes_ += room;
  while (waiting_bytes_ > (24u << 20) || waiting_.size() > 20000) {
    const u32 q = waiting_.front();
    waiting_.pop_front();
    waiting_bytes_ -= dead_[q];
    free_[dead_[q]].push_back(q);
  }
}
__attribute__((no_sanitize("address"))) static bool Poisoned(u32 a, u32 n) {
  for (u64 g = a >> 3; g <= ((u64)a + n - 1) >> 3; ++g) {
    const signed char s = *(signed char*)(g + 0x7fff8000ull);
    if (s) {
      if (s < 0) return true;
      if ((signed char)(std::min<u64>((u64)a + n - 1, (g << 3) + 7) & 7) >= s) return true;
    }
  }
  return false;
}
void Cpu::Where() {
  const char* best = "?";
  u32 at = 0;
  for (auto& s : syms)
    if (s.second <= pc && s.second > at) at = s.second, best = s.first.c_str();
  fprintf(stderr, "VERIF-A32: guest pc is %s+0x%x, called from image offset %x\n", best, pc - at, r[14] - text_lo_);
}
void Cpu::Chk(u32 a, u32 n, bool w) {
  if (a < kArena || a >= kArena + kArenaSize) {
    Where();
    fprintf(stderr, "VERIF-A32: %s of %u bytes at %x\n", w ? "store" : "load", n, a);
    abort();
  }
  if (Poisoned(a, n)) {
    Where();
    if (w) __asan_report_store_n(P<void>(a), n);
    else __asan_report_load_n(P<void>(a), n);
  }
  if (w && a + n > text_lo_ && a < text_lo_ + text_n_) {
    Where();
    fprintf(stderr, "VERIF-A32: store into code\n");
    abort();
  }
}
// ------------------------------------------------------------------------- calls
Cpu::Cpu() {
  memset(r, 0, sizeof r);
  memset(bytes, 0, sizeof bytes);
  N = Z = C = V = false;
  stack_ = arena.Alloc(kStack);
}
void Cpu::Rubbish(u64 seed) {
  u32* p = P<u32>(stack_);
  for (u32 i = (kStack - 65536) / 4; i < kStack / 4; ++i) p[i] = (u32)((seed = seed * 6364136223846793005ull + 1442695040888963407ull) >> 32);
  for (int i = 0; i < 15; ++i) r[i] = (u32)((seed = seed * 6364136223846793005ull + 1) >> 32);
  for (int i = 0; i < 32; ++i) d[i] = seed = seed * 6364136223846793005ull + 1;
}
u32 Cpu::Sym(const char* n) {
  auto it = syms.find(n);
  if (it == syms.end()) {
    printf("NOVERDICT\tthe guest image has no symbol %s\n", n);
    fflush(stdout);
    _exit(77);
  }
  return it->second;
}
u32 Cpu::Call(u32 fn, std::initializer_list<u32> args) {
  const u32 saved = pc;
  r[13] = stack_ + kStack - 256;
  int k = 0;
  for (u32 a : args) {
    if (k < 4) r[k] = a;
    else *P<u32>(r[13] + 4 * (k - 4)) = a;
    ++k;
  }
  r[14] = kStop;
  u32 keep[8];
  u64 keepd[8];
  memcpy(keep, &r[4], sizeof keep);
  memcpy(keepd, &d[8], sizeof keepd);
  const u32 sp = r[13];
  Run(fn);
  // The procedure call standard: r4-r11, sp and d8-d15 survive.
  if (r[13] != sp) Fault("the stack pointer is not restored");
  for (int i = 0; i < 8; ++i) {
    if (r[4 + i] != keep[i]) Fault("a callee-saved general register is not restored");
    if (d[8 + i] != keepd[i]) Fault("a callee-saved vector register is not restored");
  }
  pc = saved;
  return r[0];
}
void Cpu::Run(u32 start) {
  pc = start;
  const size_t floor = frames_.size();
  while (true) {
    if (pc - text_lo_ >= text_n_) {
      if (pc == kStop) {
        frames_.resize(floor);
        return;
      }
      if (pc >= kHost && ((pc - kHost) >> 2) < imports_.size()) {
        HostCall((pc - kHost) >> 2);
        continue;
      }
      Where();
      fprintf(stderr, "VERIF-A32: a branch to %x\n", pc);
      abort();
    }
    if (frames_.size() > floor && frames_.back().ret == pc && frames_.back().sp == r[13]) Returned();
    if (pc & 3) NoVerdict("Thumb code", pc, 0);
    u32 i;
    memcpy(&i, P<void>(pc), 4);
    ++executed;
    ++seen[(pc - text_lo_) >> 2];
    if (executed > budget) {
      Where();
      fprintf(stderr, "VERIF-A32: the operator does not come to an end\n");
      abort();
    }
    next_ = pc + 4;
    if ((i >> 28) == 15) {
      if ((i >> 25) == 0x79) { ++vector_insns; Simd(i); }
      else if ((i & 0xFF100000) == 0xF4000000) { ++vector_insns; SimdMem(i); }
      else if ((i & 0xFF000000) == 0xF5000000 || (i & 0xFF000000) == 0xF7000000) {}  // PLD, DMB and the like
      else Und(i);
    } else if (Cond(i >> 28)) {
      Step(i);
    }
    pc = next_;
  }
}
void Cpu::HostCall(u32 k) {
  ++hostcalls;
  const u32 lr = r[14];
  auto it = host.find(imports_[k]);
  if (it == host.end()) {
    Where();
    fprintf(stderr, "VERIF-A32: the operator calls %s\n", imports_[k].c_str());
    abort();
  }
  retn = 0;
  const u64 x = it->second(*this);
  r[0] = (u32)x;
  r[1] = (u32)(x >> 32);
  r[2] = 0xC0DE0002u, r[3] = 0xC0DE0003u, r[12] = 0xC0DE000Cu;
  for (int j = 0; j < 32; ++j)
    if (j < 8 || j >= 16) d[j] = 0x7ff8c0dec0de0000ull + j;
  if (retn == 1) f[0] = retf;
  if (retn == 2) g[0] = retd;
  if (retn == 3) r[2] = (u32)rem, r[3] = (u32)(rem >> 32);
  N = !N, C = !C, excl_on_ = false;
  pc = lr;
}
void Cpu::Functions(const std::function<void(const std::string&, u64, u64, u64)>& f) {
  std::map<u32, std::string> at;
  for (auto& s : syms)
    if (s.second - text_lo_ < text_n_) at[s.second] = s.first;
  for (auto it = at.begin(); it != at.end(); ++it) {
    auto nx = std::next(it);
    const u32 end = nx == at.end() ? text_lo_ + text_n_ : nx->first;
    u64 n = 0, dd = 0;
    for (u32 a = it->first; a < end; a += 4) n += seen[(a - text_lo_) >> 2], dd += seen[(a - text_lo_) >> 2] != 0;
    if (n) f(it->second, n, dd, (end - it->first) / 4);
  }
}
static void die(const char* what) {
  printf("NOVERDICT\tloading the guest image: %s\n", what);
  fflush(stdout);
  _exit(77);
}
void Cpu::Load(const char* path) {
  int fd = open(path, O_RDONLY);
  struct stat st;
  if (fd < 0 || fstat(fd, &st)) die("open");
  std::vector<char> f(st.st_size);
  if (pread(fd, f.data(), f.size(), 0) != (ssize_t)f.size()) die("read");
  close(fd);
  Elf32_Ehdr* eh = (Elf32_Ehdr*)f.data();
  if (memcmp(eh->e_ident, ELFMAG, 4) || eh->e_machine != EM_ARM) die("no 32-bit Arm image");
  Elf32_Phdr* ph = (Elf32_Phdr*)(f.data() + eh->e_phoff);
  u32 hi = 0, dyn = 0;
  for (int i = 0; i < eh->e_phnum; ++i) {
    if (ph[i].p_type == PT_LOAD) hi = std::max<u32>(hi, ph[i].p_vaddr + ph[i].p_memsz);
    if (ph[i].p_type == PT_DYNAMIC) dyn = ph[i].p_vaddr;
  }
  const u32 raw = arena.Alloc(hi + 65536, true), B = (raw + 65535) & ~65535u;
  for (int i = 0; i < eh->e_phnum; ++i) {
    if (ph[i].p_type != PT_LOAD) continue;
    memcpy(P<char>(B + ph[i].p_vaddr), f.data() + ph[i].p_offset, ph[i].p_filesz);
    if (ph[i].p_flags & PF_X) {
      text_lo_ = B + ph[i].p_vaddr;
      text_n_ = ph[i].p_memsz;
      seen.assign(text_n_ / 4 + 1, 0);
    }
  }
  Elf32_Sym* sym = nullptr;
  const char* str = nullptr;
  u32 rel = 0, relsz = 0, jmp = 0, pltsz = 0, ia = 0, iasz = 0;
  for (Elf32_Dyn* y = P<Elf32_Dyn>(B + dyn); y->d_tag != DT_NULL; ++y) switch (y->d_tag) {
      case DT_SYMTAB: sym = P<Elf32_Sym>(B + y->d_un.d_ptr); break;
      case DT_STRTAB: str = P<char>(B + y->d_un.d_ptr); break;
      case DT_REL: rel = y->d_un.d_ptr; break;
      case DT_RELSZ: relsz = y->d_un.d_val; break;
      case DT_JMPREL: jmp = y->d_un.d_ptr; break;
      case DT_PLTRELSZ: pltsz = y->d_un.d_val; break;
      case DT_INIT_ARRAY: ia = y->d_un.d_ptr; break;
      case DT_INIT_ARRAYSZ: iasz = y->d_un.d_val; break;
    }
  u32 dummy = 0;
  auto resolve = [&](const Elf32_Sym& s) -> u32 {
    if (s.st_shndx != SHN_UNDEF) return B + s.st_value;
    const std::string n = str + s.st_name;
    if (n == "stderr") return dummy ? dummy : dummy = arena.Alloc(64, true);
    for (u32 k = 0; k < imports_.size(); ++k)
      if (imports_[k] == n) return kHost + 4 * k;
    imports_.push_back(n);
    return kHost + 4 * ((u32)imports_.size() - 1);
  };
  auto relocate = [&](u32 at, u32 n) {
    for (u32 k = 0; k < n / sizeof(Elf32_Rel); ++k) {
      Elf32_Rel& e = P<Elf32_Rel>(B + at)[k];
      u32* where = P<u32>(B + e.r_offset);
      switch (ELF32_R_TYPE(e.r_info)) {
        case R_ARM_RELATIVE: *where += B; break;
        case R_ARM_ABS32: *where += resolve(sym[ELF32_R_SYM(e.r_info)]); break;
        case R_ARM_GLOB_DAT: case R_ARM_JUMP_SLOT: *where = resolve(sym[ELF32_R_SYM(e.r_info)]); break;
        default: die("relocation");
      }
    }
  };
  relocate(rel, relsz);
  relocate(jmp, pltsz);
  Elf32_Shdr* sh = (Elf32_Shdr*)(f.data() + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; ++i)
    if (sh[i].sh_type == SHT_DYNSYM)
      for (u32 k = 0; k < sh[i].sh_size / sizeof(Elf32_Sym); ++k)
        if (sym[k].st_shndx != SHN_UNDEF) syms[str + sym[k].st_name] = B + sym[k].st_value;
  for (u32 k = 0; k < iasz / 4; ++k) Call(P<u32>(B + ia)[k], {});
}
// ------------------------------------------------------------------ general part
static u32 Bits(u32 i, int hi, int lo) { return (i >> lo) & ((1u << (hi - lo + 1)) - 1); }
static bool Bit(u32 i, int k) { return (i >> k) & 1; }
static i32 SExt(u32 v, int n) { return (i32)(v << (32 - n)) >> (32 - n); }

void Cpu::Jump(u32 to, u32 i) {
  if (to & 1) NoVerdict("Thumb code", pc, i);
  next_ = to;
}
u32 Cpu::Shift(u32 v, u32 type, u32 n, bool reg, bool& c) const {
  if (reg) {
    if (n == 0) return v;
  } else if (n == 0) {
    if (type == 0) return v;
    if (type == 3) {  // RRX
      const bool in = c;
      c = v & 1;
      return (v >> 1) | (in ? 0x80000000u : 0);
    }
    n = 32;
  }
  switch (type) {
    case 0:
      c = n <= 32 ? (n == 32 ? v & 1 : Bit(v, 32 - n)) : false;
      return n < 32 ? v << n : 0;
    case 1:
      c = n <= 32 ? Bit(v, n - 1) : false;
      return n < 32 ? v >> n : 0;
    case 2:
      if (n >= 32) {
        c = v >> 31;
        return (u32)((i32)v >> 31);
      }
      c = Bit(v, n - 1);
      return (u32)((i32)v >> n);
    default:
      n &= 31;
      if (n) v = (v >> n) | (v << (32 - n));
      c = v >> 31;
      return v;
  }
}
u32 Cpu::AddC(u32 a, u32 b, bool c, bool set) {
  const u64 u = (u64)a + b + c;
  const i64 s = (i64)(i32)a + (i32)b + c;
  const u32 x = (u32)u;
  if (set) N = x >> 31, Z = !x, C = u >> 32, V = s != (i32)x;
  return x;
}
void Cpu::Step(u32 i) {
  switch (Bits(i, 27, 25)) {
    case 0:
      if ((i & 0x90) == 0x90) {
        if (Bits(i, 6, 5) == 0) {
          if (Bit(i, 24)) Exclusive(i);
          else Multiply(i);
        } else {
          Extra(i);
        }
      } else if (Bits(i, 24, 23) == 2 && !Bit(i, 20)) {
        Misc(i);
      } else {
        DataProc(i);
      }
      break;
    case 1:
      if (Bits(i, 24, 23) == 2 && !Bit(i, 20)) {
        const u32 imm = Bits(i, 19, 16) << 12 | Bits(i, 11, 0), rd = Bits(i, 15, 12);
        if (Bits(i, 22, 21) == 0) r[rd] = imm;
        else if (Bits(i, 22, 21) == 2) r[rd] = (r[rd] & 0xFFFF) | imm << 16;
        else if (Bits(i, 22, 21) == 1 && Bits(i, 19, 16) == 0) {}  // hints
        else Und(i);
      } else {
        DataProc(i);
      }
      break;
    case 2: LoadStore(i); break;
    case 3:
      if (Bit(i, 4)) Media(i);
      else LoadStore(i);
      break;
    case 4: Block(i); break;
    case 5:
      if (Bit(i, 24)) {
        r[14] = pc + 4;
        Called();
      }
      next_ = pc + 8 + SExt(Bits(i, 23, 0), 24) * 4;
      break;
    case 6: VfpMem(i); break;
    default:
      if (Bit(i, 24)) Und(i);
      ++vector_insns;
      if (Bits(i, 11, 9) != 5) Und(i);
      if (Bit(i, 4)) VfpMove(i);
      else VfpData(i);
  }
}
void Cpu::DataProc(u32 i) {
  const u32 op = Bits(i, 24, 21), rd = Bits(i, 15, 12);
  const bool set = Bit(i, 20);
  bool c = C;
  u32 b;
  if (Bit(i, 25)) {
    const u32 rot = Bits(i, 11, 8) * 2, v = Bits(i, 7, 0);
    b = rot ? (v >> rot | v << (32 - rot)) : v;
    if (rot) c = b >> 31;
  } else if (Bit(i, 4)) {
    b = Shift(R(i & 15), Bits(i, 6, 5), R(Bits(i, 11, 8)) & 255, true, c);
  } else {
    b = Shift(R(i & 15), Bits(i, 6, 5), Bits(i, 11, 7), false, c);
  }
  const u32 a = R(Bits(i, 19, 16));
  u32 x = 0;
  bool logical = true, write = true;
  switch (op) {
    case 0: x = a & b; break;
    case 1: x = a ^ b; break;
    case 2: x = AddC(a, ~b, 1, set), logical = false; break;
    case 3: x = AddC(b, ~a, 1, set), logical = false; break;
    case 4: x = AddC(a, b, 0, set), logical = false; break;
    case 5: x = AddC(a, b, C, set), logical = false; break;
    case 6: x = AddC(a, ~b, C, set), logical = false; break;
    case 7: x = AddC(b, ~a, C, set), logical = false; break;
    case 8: x = a & b, write = false; break;
    case 9: x = a ^ b, write = false; break;
    case 10: AddC(a, ~b, 1, true), logical = write = false; break;
    case 11: AddC(a, b, 0, true), logical = write = false; break;
    case 12: x = a | b; break;
    case 13: x = b; break;
    case 14: x = a & ~b; break;
    default: x = ~b;
  }
  if (set && logical) N = x >> 31, Z = !x, C = c;
  if (!write) return;
  if (rd == 15) {
    if (set) Und(i);
    Jump(x, i);
  } else {
    r[rd] = x;
  }
}
void Cpu::Multiply(u32 i) {
  const u32 rd = Bits(i, 19, 16), ra = Bits(i, 15, 12), m = r[Bits(i, 11, 8)], n = r[i & 15];
  const bool set = Bit(i, 20);
  u32 x;
  u64 w;
  switch (Bits(i, 23, 21)) {
    case 0: x = n * m; break;
    case 1: x = n * m + r[ra]; break;
    case 3: r[rd] = r[ra] - n * m; return;
    case 2: w = (u64)n * m + r[rd] + r[ra]; goto wide;  // UMAAL
    case 4: w = (u64)n * m; goto wide;
    case 5: w = (u64)n * m + ((u64)r[rd] << 32 | r[ra]); goto wide;
    case 6: w = (u64)((i64)(i32)n * (i32)m); goto wide;
    default: w = (u64)((i64)(i32)n * (i32)m) + ((u64)r[rd] << 32 | r[ra]);
    wide:
      r[rd] = (u32)(w >> 32), r[ra] = (u32)w;
      if (set) N = w >> 63, Z = !w;
      return;
  }
  r[rd] = x;
  if (set) N = x >> 31, Z = !x;
}
void Cpu::Extra(u32 i) {
  const u32 rn = Bits(i, 19, 16), rt = Bits(i, 15, 12);
  const u32 off = Bit(i, 22) ? Bits(i, 11, 8) << 4 | (i & 15) : r[i & 15];
  const bool pre = Bit(i, 24), up = Bit(i, 23), wb = Bit(i, 21) || !pre;
  if (!pre && Bit(i, 21)) Und(i);
  const u32 moved = up ? R(rn) + off : R(rn) - off, a = pre ? moved : R(rn);
  const u32 op = Bits(i, 6, 5);
  u32 x = 0, y = 0;
  bool load = true, two = false;
  if (Bit(i, 20)) {
    x = op == 1 ? Ld<uint16_t>(a) : op == 2 ? (u32)(i32)Ld<int8_t>(a) : (u32)(i32)Ld<int16_t>(a);
  } else if (op == 1) {
    St<uint16_t>(a, (uint16_t)r[rt]), load = false;
  } else if (op == 2) {
    Align(a, 4);
    x = Ld<u32>(a), y = Ld<u32>(a + 4), two = true;
  } else {
    Align(a, 4);
    St<u32>(a, r[rt]), St<u32>(a + 4, r[rt + 1]), load = false;
  }
  if (wb) r[rn] = moved;
  if (load) r[rt] = x;
  if (two) r[rt + 1] = y;
}
void Cpu::Exclusive(u32 i) {
  const u32 rn = Bits(i, 19, 16), rt = Bits(i, 15, 12), op = Bits(i, 23, 20);
  if (!Bit(i, 23)) Und(i);
  const u32 a = r[rn];
  if (op & 1) {
    excl_ = a, excl_on_ = true;
    Align(a, op == 11 ? 8 : op == 13 ? 1 : op == 15 ? 2 : 4);
    if (op == 9) r[rt] = Ld<u32>(a);
    else if (op == 11) { r[rt] = Ld<u32>(a); r[rt + 1] = Ld<u32>(a + 4); }
    else if (op == 13) r[rt] = Ld<uint8_t>(a);
    else r[rt] = Ld<uint16_t>(a);
  } else {
    const u32 src = i & 15;
    const bool ok = excl_on_ && excl_ == a;
    excl_on_ = false;
    if (ok) {
      if (op == 8) St<u32>(a, r[src]);
      else if (op == 10) { St<u32>(a, r[src]); St<u32>(a + 4, r[src + 1]); }
      else if (op == 12) St<uint8_t>(a, (uint8_t)r[src]);
      else St<uint16_t>(a, (uint16_t)r[src]);
    }
    r[rt] = !ok;
  }
}
void Cpu::Misc(u32 i) {
  const u32 op = Bits(i, 22, 21), op2 = Bits(i, 7, 4), rm = i & 15;
  if (Bit(i, 7)) {  // signed 16-bit multiplications
    const u32 rd = Bits(i, 19, 16), ra = Bits(i, 15, 12), m = r[Bits(i, 11, 8)];
    const i32 y = Bit(i, 6) ? (i32)m >> 16 : (int16_t)m, n = Bit(i, 5) ? (i32)r[rm] >> 16 : (int16_t)r[rm];
    if (op == 0) r[rd] = (u32)(n * y) + r[ra];
    else if (op == 3) r[rd] = (u32)(n * y);
    else if (op == 1) r[rd] = (u32)(((i64)(i32)r[rm] * y) >> 16) + (Bit(i, 5) ? 0 : r[ra]);
    else Und(i);
    return;
  }
  if (op2 == 1 && op == 1) return Jump(r[rm], i);
  if (op2 == 3 && op == 1) {
    const u32 to = r[rm];
    r[14] = pc + 4;
    Called();
    return Jump(to, i);
  }
  if (op2 == 1 && op == 3) {
    r[Bits(i, 15, 12)] = r[rm] ? __builtin_clz(r[rm]) : 32;
    return;
  }
  if (op2 == 5) {  // QADD, QSUB, QDADD, QDSUB
    auto sat = [](i64 v) { return std::max<i64>(INT32_MIN, std::min<i64>(INT32_MAX, v)); };
    i64 n = (i32)r[Bits(i, 19, 16)];
    if (op & 2) n = sat(2 * n);
    r[Bits(i, 15, 12)] = (u32)sat((i64)(i32)r[rm] + (op & 1 ? -n : n));
    return;
  }
  Und(i);
}
void Cpu::Media(u32 i) {
  const u32 op = Bits(i, 24, 20), op2 = Bits(i, 7, 5), rd = Bits(i, 15, 12), rn = Bits(i, 19, 16), rm = i & 15;
  if ((op & 0x18) == 0x18) {
    if (op == 0x18 && op2 == 0) Und(i);
    if ((op & 0x1E) == 0x1A && (op2 & 3) == 2) {  // SBFX
      r[rd] = (u32)((i32)(r[rm] << (31 - Bits(i, 11, 7) - Bits(i, 20, 16))) >> (31 - Bits(i, 20, 16)));
      return;
    }
    if ((op & 0x1E) == 0x1E && (op2 & 3) == 2) {  // UBFX
      const u32 w = Bits(i, 20, 16) + 1;
      r[rd] = (r[rm] >> Bits(i, 11, 7)) & (w == 32 ? ~0u : (1u << w) - 1);
      return;
    }
    if ((op & 0x1E) == 0x1C && (op2 & 3) == 0) {  // BFI, BFC
      const u32 lsb = Bits(i, 11, 7), w = Bits(i, 20, 16) - lsb + 1;
      const u32 mask = (w == 32 ? ~0u : (1u << w) - 1) << lsb;
      r[rd] = (r[rd] & ~mask) | (rm == 15 ? 0 : (r[rm] << lsb) & mask);
      return;
    }
    Und(i);
  }
  if ((op & 0x18) == 0x10) {
    if (op == 0x15 && (op2 & 6) == 0) {  // SMMUL, SMMLA
      const u32 a = Bits(i, 15, 12);
      const i64 p = (i64)(i32)r[rm] * (i32)r[Bits(i, 11, 8)] + (a == 15 ? 0 : (i64)((u64)r[a] << 32)) + (Bit(i, 5) ? 0x80000000ll : 0);
      r[rn] = (u32)(p >> 32);
      return;
    }
    Und(i);
  }
  if ((op & 0x18) == 8) {
    const u32 k = op & 7;
    if ((k & 2) && (op2 & 1) == 0) {  // SSAT, USAT
      bool c = false;
      const u32 sh = Bits(i, 11, 7);
      const i32 v = (i32)Shift(r[rm], Bit(i, 6) ? 2 : 0, sh, false, c);
      const u32 sat = Bits(i, 20, 16);
      i64 lo, hi;
      if (k & 4) lo = 0, hi = (1ll << sat) - 1;
      else lo = -(1ll << sat), hi = (1ll << sat) - 1;
      r[rd] = (u32)std::max(lo, std::min<i64>(hi, v));
      return;
    }
    if (op2 == 3) {
      const u32 rot = Bits(i, 11, 10) * 8, v = rot ? r[rm] >> rot | r[rm] << (32 - rot) : r[rm];
      const u32 base = rn == 15 ? 0 : r[rn];
      switch (k) {
        case 2: r[rd] = base + (u32)(i32)(int8_t)v; return;
        case 3: r[rd] = base + (u32)(i32)(int16_t)v; return;
        case 6: r[rd] = base + (v & 0xFF); return;
        case 7: r[rd] = base + (v & 0xFFFF); return;
        case 4:
          if (rn == 15) { r[rd] = v & 0x00FF00FF; return; }
      }
      Und(i);
    }
    if (k == 3 && op2 == 1) { r[rd] = __builtin_bswap32(r[rm]); return; }
    if (k == 3 && op2 == 5) { r[rd] = (r[rm] & 0x00FF00FF) << 8 | (r[rm] >> 8 & 0x00FF00FF); return; }
    if (k == 7 && op2 == 1) {
      u32 x = 0;
      for (int b = 0; b < 32; ++b) x |= ((r[rm] >> b) & 1) << (31 - b);
      r[rd] = x;
      return;
    }
    if (k == 7 && op2 == 5) { r[rd] = (u32)(i32)(int16_t)__builtin_bswap16((uint16_t)r[rm]); return; }
    if (k == 0 && (op2 & 1) == 0) {  // PKH
      bool c = false;
      const u32 v = Shift(r[rm], Bit(i, 6) ? 2 : 0, Bits(i, 11, 7), false, c);
      r[rd] = Bit(i, 6) ? (r[rn] & 0xFFFF0000) | (v & 0xFFFF) : (v & 0xFFFF0000) | (r[rn] & 0xFFFF);
      return;
    }
  }
  Und(i);
}
void Cpu::LoadStore(u32 i) {
  const u32 rn = Bits(i, 19, 16), rt = Bits(i, 15, 12);
  bool c = C;
  const u32 off = Bit(i, 25) ? Shift(r[i & 15], Bits(i, 6, 5), Bits(i, 11, 7), false, c) : Bits(i, 11, 0);
  const bool pre = Bit(i, 24), wb = Bit(i, 21) || !pre;
  if (!pre && Bit(i, 21)) Und(i);
  const u32 moved = Bit(i, 23) ? R(rn) + off : R(rn) - off, a = pre ? moved : R(rn);
  if (Bit(i, 20)) {
    const u32 x = Bit(i, 22) ? Ld<uint8_t>(a) : Ld<u32>(a);
    if (wb) r[rn] = moved;
    if (rt == 15) Jump(x, i);
    else r[rt] = x;
  } else {
    if (Bit(i, 22)) St<uint8_t>(a, (uint8_t)R(rt));
    else St<u32>(a, R(rt));
    if (wb) r[rn] = moved;
  }
}
void Cpu::Block(u32 i) {
  const u32 rn = Bits(i, 19, 16), n = __builtin_popcount(i & 0xFFFF);
  if (Bit(i, 22) || !n) Und(i);
  const bool pre = Bit(i, 24), up = Bit(i, 23);
  const u32 base = r[rn], end = up ? base + 4 * n : base - 4 * n;
  u32 a = up ? base + (pre ? 4 : 0) : end + (pre ? 0 : 4);
  Align(a, 4);
  u32 jump = 0;
  bool jumps = false;
  if (Bit(i, 20)) {
    u32 v[16];
    for (int k = 0; k < 16; ++k)
      if (Bit(i, k)) v[k] = Ld<u32>(a), a += 4;
    if (Bit(i, 21)) r[rn] = end;
    for (int k = 0; k < 15; ++k)
      if (Bit(i, k)) r[k] = v[k];
    if (Bit(i, 15)) jump = v[15], jumps = true;
  } else {
    for (int k = 0; k < 16; ++k)
      if (Bit(i, k)) St<u32>(a, k == 15 ? pc + 8 : r[k]), a += 4;
    if (Bit(i, 21)) r[rn] = end;
  }
  if (jumps) Jump(jump, i);
}
// --------------------------------------------------------------------------- VFP
static u32 Sn(u32 v, bool x) { return v << 1 | x; }
static u32 Dn(u32 v, bool x) { return v | (u32)x << 4; }
void Cpu::VfpMem(u32 i) {
  ++vector_insns;
  if (Bits(i, 11, 9) != 5) Und(i);
  const bool dbl = Bit(i, 8);
  if ((i & 0x0FE000D0) == 0x0C400010) {
    const u32 rt = Bits(i, 15, 12), rt2 = Bits(i, 19, 16);
    u32* lo;
    if (dbl) lo = &s[2 * Dn(i & 15, Bit(i, 5))];
    else lo = &s[Sn(i & 15, Bit(i, 5))];
    if (Bit(i, 20)) r[rt] = lo[0], r[rt2] = lo[1];
    else lo[0] = r[rt], lo[1] = r[rt2];
    return;
  }
  const u32 rn = Bits(i, 19, 16), imm = Bits(i, 7, 0) * 4;
  u32 vd = dbl ? 2 * Dn(Bits(i, 15, 12), Bit(i, 22)) : Sn(Bits(i, 15, 12), Bit(i, 22));
  const bool p = Bit(i, 24), u = Bit(i, 23), w = Bit(i, 21);
  if (p && !w) {
    const u32 a = u ? (R(rn) & ~3u) + imm : (R(rn) & ~3u) - imm;
    if (rn != 15) Align(R(rn), 4);
    for (u32 k = 0; k < (dbl ? 2u : 1u); ++k)
      if (Bit(i, 20)) s[vd + k] = Ld<u32>(a + 4 * k);
      else St<u32>(a + 4 * k, s[vd + k]);
    return;
  }
  if (p == u) Und(i);
  u32 a = u ? r[rn] : r[rn] - imm;
  Align(a, 4);
  const u32 back = u ? r[rn] + imm : r[rn] - imm;
  const u32 n = dbl ? Bits(i, 7, 0) / 2 * 2 : Bits(i, 7, 0);
  if (vd + n > 64) Und(i);
  for (u32 k = 0; k < n; ++k, a += 4)
    if (Bit(i, 20)) s[vd + k] = Ld<u32>(a);
    else St<u32>(a, s[vd + k]);
  if (w) r[rn] = back;
}
void Cpu::VfpMove(u32 i) {
  const bool toCore = Bit(i, 20);
  const u32 rt = Bits(i, 15, 12);
  if (!Bit(i, 8)) {
    const u32 a = Bits(i, 23, 21);
    if (a == 0) {
      u32& x = s[Sn(Bits(i, 19, 16), Bit(i, 7))];
      if (toCore) r[rt] = x;
      else x = r[rt];
      return;
    }
    if (a == 7 && Bits(i, 19, 16) == 1) {
      if (!toCore) { fpscr = r[rt]; return; }
      const u32 flags = (fpscr & 0x0FFFFFFF) | (fpscr & 0xF0000000);
      if (rt == 15) N = flags >> 31, Z = Bit(flags, 30), C = Bit(flags, 29), V = Bit(flags, 28);
      else r[rt] = flags;
      return;
    }
    Und(i);
  }
  const u32 dn = Dn(Bits(i, 19, 16), Bit(i, 7));
  const u32 opc = Bits(i, 22, 21) << 2 | Bits(i, 6, 5);
  if (!toCore && Bit(i, 23)) {  // VDUP
    const u32 be = (u32)Bit(i, 22) << 1 | Bit(i, 5);
    const u32 v = r[rt];
    for (u32 k = 0; k < (Bit(i, 21) ? 4u : 2u); ++k)
      s[2 * dn + k] = be == 0 ? v : be == 1 ? (v & 0xFFFF) * 0x10001u : be == 2 ? (v & 0xFF) * 0x01010101u : (Und(i), 0);
    return;
  }
  uint8_t* b = &bytes[8 * dn];
  if (opc & 8) {
    uint8_t& x = b[opc & 7];
    if (toCore) r[rt] = Bit(i, 23) ? x : (u32)(i32)(int8_t)x;
    else x = (uint8_t)r[rt];
  } else if (opc & 1) {
    uint16_t x;
    memcpy(&x, b + 2 * (opc >> 1 & 3), 2);
    if (toCore) r[rt] = Bit(i, 23) ? x : (u32)(i32)(int16_t)x;
    else x = (uint16_t)r[rt], memcpy(b + 2 * (opc >> 1 & 3), &x, 2);
  } else if ((opc & 3) == 0) {
    if (toCore) memcpy(&r[rt], b + 4 * (opc >> 2 & 1), 4);
    else memcpy(b + 4 * (opc >> 2 & 1), &r[rt], 4);
  } else {
    Und(i);
  }
}
static u32 ToInt(double v, bool sign) {
  if (v != v) return 0;
  if (sign) return v <= -2147483648.0 ? 0x80000000u : v >= 2147483647.0 ? 0x7FFFFFFFu : (u32)(i32)v;
  return v <= 0 ? 0 : v >= 4294967295.0 ? ~0u : (u32)v;
}
void Cpu::VfpData(u32 i) {
  const bool dbl = Bit(i, 8);
  if (fpscr & 0x00C00000) NoVerdict("a rounding mode", pc, i);
  const u32 op = (u32)Bit(i, 23) << 2 | Bits(i, 21, 20);
  const u32 D = Bit(i, 22), Nb = Bit(i, 7), M = Bit(i, 5), vd = Bits(i, 15, 12), vn = Bits(i, 19, 16), vm = i & 15;
  const u32 sd = Sn(vd, D), sn = Sn(vn, Nb), sm = Sn(vm, M), dd = Dn(vd, D), dn = Dn(vn, Nb), dm = Dn(vm, M);
  if (op < 7) {
    auto go = [&](auto& x, auto n, auto m, auto fused) {
      typedef std::decay_t<decltype(n)> T;
      const T acc = x;
      volatile T p;
      switch (op) {
        case 0: p = n * m; x = Bit(i, 6) ? acc + -p : acc + p; break;
        case 1: p = n * m; x = Bit(i, 6) ? -acc + -p : -acc + p; break;
        case 2: p = n * m; x = Bit(i, 6) ? -p : (T)p; break;
        case 3: x = Bit(i, 6) ? n - m : n + m; break;
        case 4: if (Bit(i, 6)) Und(i); x = n / m; break;
        case 5: x = fused(Bit(i, 6) ? -n : n, m, -acc); break;
        case 6: x = fused(Bit(i, 6) ? -n : n, m, acc); break;
      }
    };
    if (dbl) go(g[dd], (double)g[dn], (double)g[dm], [](double a, double b, double c) { return std::fma(a, b, c); });
    else go(f[sd], (float)f[sn], (float)f[sm], [](float a, float b, float c) { return std::fmaf(a, b, c); });
    return;
  }
  if (!Bit(i, 6)) {  // VMOV immediate
    const u32 v = vn << 4 | vm;
    const u32 e = Bit(v, 6) ? 0x1F : 0x20;  // sign, not b, bbbbb, cdefgh
    if (dbl) {
      u64 x = (u64)Bit(v, 7) << 63 | (u64)(Bit(v, 6) ? 0x0FFu : 0x100u) << 54 | (u64)(v & 0x3F) << 48;
      d[dd] = x;
    } else {
      s[sd] = (u32)Bit(v, 7) << 31 | e << 25 | (v & 0x3F) << 19;
    }
    return;
  }
  const u32 opc2 = vn;
  const bool hi = Bit(i, 7);
  switch (opc2) {
    case 0:
      if (dbl) d[dd] = hi ? d[dm] & ~(1ull << 63) : d[dm];
      else s[sd] = hi ? s[sm] & 0x7FFFFFFF : s[sm];
      return;
    case 1:
      if (hi) {
        if (dbl) g[dd] = std::sqrt(g[dm]);
        else f[sd] = std::sqrt(f[sm]);
      } else {
        if (dbl) d[dd] = d[dm] ^ 1ull << 63;
        else s[sd] = s[sm] ^ 0x80000000u;
      }
      return;
    case 4: case 5: {
      const double a = dbl ? g[dd] : f[sd], b = opc2 == 5 ? 0 : dbl ? g[dm] : f[sm];
      fpscr = (fpscr & 0x0FFFFFFF) | (a != a || b != b ? 0x30000000u : a == b ? 0x60000000u : a < b ? 0x80000000u : 0x20000000u);
      return;
    }
    case 7:
      if (!hi) Und(i);
      if (dbl) f[sd] = (float)g[dm];
      else g[dd] = f[sm];
      return;
    case 8:
      if (dbl) g[dd] = hi ? (double)(i32)s[sm] : (double)s[sm];
      else f[sd] = hi ? (float)(i32)s[sm] : (float)s[sm];
      return;
    case 12: case 13: {
      const double v = dbl ? g[dm] : f[sm];
      s[sd] = ToInt(hi ? std::trunc(v) : std::nearbyint(v), opc2 == 13);
      return;
    }
    case 10: case 11: case 14: case 15: {  // fixed point
      const bool to = opc2 & 4, uns = opc2 & 1, wide = hi;
      const u32 imm = (i & 15) << 1 | M, frac = (wide ? 32 : 16) - imm;
      if (!wide) Und(i);
      if (to) {
        const double v = std::ldexp(dbl ? g[dd] : (double)f[sd], frac);
        const u32 x = ToInt(std::trunc(v), !uns);
        if (dbl) d[dd] = uns ? x : (u64)(i64)(i32)x;
        else s[sd] = x;
      } else {
        const u32 x = dbl ? (u32)d[dd] : s[sd];
        const double v = std::ldexp(uns ? (double)x : (double)(i32)x, -(int)frac);
        if (dbl) g[dd] = v;
        else f[sd] = (float)v;
      }
      return;
    }
  }
  Und(i);
}
// ----------------------------------------------------------------- Advanced SIMD
// Lanes of the register file from the 8-byte register d on; size is log2 of the bytes.
static i64 Lane(const uint8_t* b, u32 d, u32 k, u32 size, bool sign) {
  const uint8_t* p = b + 8 * d + (k << size);
  switch (size) {
    case 0: return sign ? (i64)(int8_t)*p : *p;
    case 1: { uint16_t x; memcpy(&x, p, 2); return sign ? (i64)(int16_t)x : x; }
    case 2: { u32 x; memcpy(&x, p, 4); return sign ? (i64)(i32)x : x; }
    default: { i64 x; memcpy(&x, p, 8); return x; }
  }
}
static void Put(uint8_t* b, u32 d, u32 k, u32 size, u64 v) { memcpy(b + 8 * d + (k << size), &v, 1u << size); }
static float Flush(float x) { return x != 0 && std::fabs(x) < 1.17549435e-38f ? std::copysign(0.0f, x) : x; }
static float Result(float x) {
  if (x != x) {
    const u32 q = 0x7FC00000u;
    memcpy(&x, &q, 4);
    return x;
  }
  return Flush(x);
}
static float FMax(float a, float b, bool max) {
  if (a != a || b != b) return Result(a + b);
  if (a == 0 && b == 0) return max == std::signbit(a) ? b : a;
  return (a < b) == max ? b : a;
}
typedef __int128 i128;
static u64 Sat(i128 v, u32 bits, bool sign) {
  const i128 hi = sign ? ((i128)1 << (bits - 1)) - 1 : ((i128)1 << bits) - 1, lo = sign ? -((i128)1 << (bits - 1)) : 0;
  return (u64)(v < lo ? lo : v > hi ? hi : v);
}
// Arithmetic shift to the right by n, or to the left by -n, in unlimited width.
static i128 Shr(i128 v, int n, bool round) {
  if (n <= 0) return -n > 64 ? (v ? (v < 0 ? -((i128)1 << 120) : (i128)1 << 120) : 0) : v << -n;
  if (n > 100) return round ? 0 : (v < 0 ? -1 : 0);
  return ((round ? (i128)1 << (n - 1) : 0) + v) >> n;
}
static i128 Wide(i64 v, u32 size, bool sign) { return size == 3 && !sign ? (i128)(u64)v : (i128)v; }
void Cpu::Simd(u32 i) {
  if (!Bit(i, 23)) return Same3(i);
  const bool q = Bit(i, 6);
  const u32 vd = Dn(Bits(i, 15, 12), Bit(i, 22)), vn = Dn(Bits(i, 19, 16), Bit(i, 7)), vm = Dn(i & 15, Bit(i, 5));
  if (Bit(i, 4)) {
    if (Bits(i, 21, 19) || Bit(i, 7)) return ShiftImm(i);
    const u32 cmode = Bits(i, 11, 8), imm = (u32)Bit(i, 24) << 7 | Bits(i, 18, 16) << 4 | (i & 15);
    const bool op = Bit(i, 5);
    u64 v;
    bool combine = cmode < 12 && (cmode & 1);
    if (cmode < 8) v = ((u64)imm << (8 * (cmode >> 1))) * 0x100000001ull;
    else if (cmode < 12) v = ((u64)imm << (8 * ((cmode >> 1) & 1))) * 0x0001000100010001ull;
    else if (cmode == 12) v = ((u64)imm << 8 | 0xFF) * 0x100000001ull;
    else if (cmode == 13) v = ((u64)imm << 16 | 0xFFFF) * 0x100000001ull;
    else if (cmode == 14 && !op) v = imm * 0x0101010101010101ull;
    else if (cmode == 14) {
      v = 0;
      for (int k = 0; k < 8; ++k) v |= (u64)(Bit(imm, k) ? 255 : 0) << (8 * k);
    } else if (!op) {
      v = (u64)((u32)Bit(imm, 7) << 31 | (Bit(imm, 6) ? 0x1Fu : 0x20u) << 25 | (imm & 0x3F) << 19) * 0x100000001ull;
    } else {
      Und(i);
    }
    for (u32 k = 0; k < (q ? 2u : 1u); ++k)
      if (combine) d[vd + k] = op ? d[vd + k] & ~v : d[vd + k] | v;
      else d[vd + k] = op && cmode < 14 ? ~v : v;
    return;
  }
  if (Bits(i, 21, 20) != 3) {
    if (q) ByScalar(i);
    else Diff3(i);
    return;
  }
  if (!Bit(i, 24)) {  // VEXT
    const u32 n = q ? 16 : 8, at = Bits(i, 11, 8);
    uint8_t t[32];
    memcpy(t, bytes + 8 * vn, n);
    memcpy(t + n, bytes + 8 * vm, n);
    if (!q && at > 7) Und(i);
    memcpy(bytes + 8 * vd, t + at, n);
    return;
  }
  if (!Bit(i, 11)) return Misc2(i);
  if (Bits(i, 11, 10) == 2) {  // VTBL, VTBX
    const u32 n = 8 * (Bits(i, 9, 8) + 1);
    u64 x = d[vd];
    for (u32 k = 0; k < 8; ++k) {
      const u32 at = bytes[8 * vm + k];
      u32 v;
      if (at < n) v = bytes[8 * vn + at];
      else if (Bit(i, 6)) continue;
      else v = 0;
      x = (x & ~(255ull << (8 * k))) | (u64)v << (8 * k);
    }
    d[vd] = x;
    return;
  }
  if (Bits(i, 11, 7) == 0x18) {  // VDUP scalar
    const u32 m = Bits(i, 19, 16);
    const u32 size = m & 1 ? 0 : m & 2 ? 1 : m & 4 ? 2 : 9;
    if (size == 9) Und(i);
    const u64 v = Lane(bytes, vm, m >> (size + 1), size, false);
    for (u32 k = 0; k < (q ? 16u : 8u) >> size; ++k) Put(bytes, vd, k, size, v);
    return;
  }
  Und(i);
}
void Cpu::Same3(u32 i) {
  const bool q = Bit(i, 6), u = Bit(i, 24), b4 = Bit(i, 4);
  const u32 vd = Dn(Bits(i, 15, 12), Bit(i, 22)), vn = Dn(Bits(i, 19, 16), Bit(i, 7)), vm = Dn(i & 15, Bit(i, 5));
  const u32 size = Bits(i, 21, 20), op = Bits(i, 11, 8) << 1 | b4;
  if (q && ((vd | vn | vm) & 1)) Und(i);
  const u32 nd = q ? 2 : 1;
  if (op == 3) {  // logical
    for (u32 k = 0; k < nd; ++k) {
      const u64 n = d[vn + k], m = d[vm + k], x = d[vd + k];
      u64& o = d[vd + k];
      switch (size | u << 2) {
        case 0: o = n & m; break;
        case 1: o = n & ~m; break;
        case 2: o = n | m; break;
        case 3: o = n | ~m; break;
        case 4: o = n ^ m; break;
        case 5: o = (n & x) | (m & ~x); break;
        case 6: o = (n & m) | (x & ~m); break;
        default: o = (n & ~m) | (x & m);
      }
    }
    return;
  }
  if (op >= 24) {  // single precision
    const bool hi = size & 2;
    if (size & 1) Und(i);
    float o[4];
    u32* ou = (u32*)o;
    auto N = [&](u32 k) { return Flush(f[2 * vn + k]); };
    auto M = [&](u32 k) { return Flush(f[2 * vm + k]); };
    for (u32 k = 0; k < 2 * nd; ++k) {
      const float n = N(k), m = M(k), x = Flush(f[2 * vd + k]);
      // Pairs run over both operands.
      const u32 pk = 2 * (k % nd);
      volatile float p;
      switch (op * 2 + u) {
        case 25 * 2: o[k] = Result(std::fmaf(hi ? -n : n, m, x)); break;
        case 26 * 2: o[k] = Result(hi ? n - m : n + m); break;
        case 26 * 2 + 1:
          if (hi) o[k] = Result(std::fabs(Result(n - m)));
          else if (q) Und(i);
          else o[k] = Result(k ? M(0) + M(1) : N(0) + N(1));
          break;
        case 27 * 2: p = Result(n * m); o[k] = Result(hi ? x - p : x + p); break;
        case 27 * 2 + 1: if (hi) Und(i); o[k] = Result(n * m); break;
        case 28 * 2: if (hi) Und(i); ou[k] = n == m ? ~0u : 0; break;
        case 28 * 2 + 1: ou[k] = (hi ? n > m : n >= m) ? ~0u : 0; break;
        case 29 * 2 + 1: ou[k] = (hi ? std::fabs(n) > std::fabs(m) : std::fabs(n) >= std::fabs(m)) ? ~0u : 0; break;
        case 30 * 2: o[k] = FMax(n, m, !hi); break;
        case 30 * 2 + 1: if (q) Und(i); o[k] = k ? FMax(M(0), M(1), !hi) : FMax(N(0), N(1), !hi); break;
        case 31 * 2:
          if (hi) Und(i);
          p = (std::isinf(n) && m == 0) || (n == 0 && std::isinf(m)) ? 0.0f : Result(n * m);
          o[k] = Result(2.0f - p);
          break;
        default: Und(i);
      }
      (void)pk;
    }
    memcpy(&f[2 * vd], o, 8 * nd);
    return;
  }
  const u32 bits = 8u << size, lanes = (8 * nd) >> size;
  uint8_t out[16];
  for (u32 k = 0; k < lanes; ++k) {
    const i64 n = Lane(bytes, vn, k, size, !u), m = Lane(bytes, vm, k, size, !u), x = Lane(bytes, vd, k, size, !u);
    const i128 wn = Wide(n, size, !u), wm = Wide(m, size, !u);
    u64 o = 0;
    switch (op) {
      case 0: o = (u64)((wn + wm) >> 1); break;
      case 1: o = Sat(wn + wm, bits, !u); break;
      case 2: o = (u64)((wn + wm + 1) >> 1); break;
      case 4: o = (u64)((wn - wm) >> 1); break;
      case 5: o = Sat(wn - wm, bits, !u); break;
      case 6: o = wn > wm ? ~0ull : 0; break;
      case 7: o = wn >= wm ? ~0ull : 0; break;
      case 8: case 9: case 10: case 11: {  // by register: the value is in Vm, the count in Vn
        const int by = (int8_t)Lane(bytes, vn, k, size, false);
        const i128 v = Shr(wm, -by, op >= 10);
        o = op & 1 ? Sat(v, bits, !u) : (u64)v;
        break;
      }
      case 12: o = (u64)(wn > wm ? n : m); break;
      case 13: o = (u64)(wn < wm ? n : m); break;
      case 14: o = (u64)(wn > wm ? wn - wm : wm - wn); break;
      case 15: o = (u64)x + (u64)(wn > wm ? wn - wm : wm - wn); break;
      case 16: o = u ? (u64)n - (u64)m : (u64)n + (u64)m; break;
      case 17: o = (u ? n == m : (n & m) != 0) ? ~0ull : 0; break;
      case 18: o = u ? (u64)x - (u64)n * (u64)m : (u64)x + (u64)n * (u64)m; break;
      case 19: if (u) Und(i); o = (u64)n * (u64)m; break;
      case 20: case 21: case 23: {
        if (q || (op == 23 && u)) Und(i);
        const u32 from = k < lanes / 2 ? vn : vm, at = 2 * (k % (lanes / 2));
        const i64 a = Lane(bytes, from, at, size, !u), b = Lane(bytes, from, at + 1, size, !u);
        o = op == 23 ? (u64)a + (u64)b : (u64)((op == 20) == (a > b) ? a : b);
        break;
      }
      case 22: {
        const i64 a = Lane(bytes, vn, k, size, true), b = Lane(bytes, vm, k, size, true);
        o = Sat(((i128)2 * a * b + (u ? (i128)1 << (bits - 1) : 0)) >> bits, bits, true);
        break;
      }
      default: Und(i);
    }
    memcpy(out + (k << size), &o, 1u << size);
  }
  memcpy(bytes + 8 * vd, out, 8 * nd);
}
void Cpu::Diff3(u32 i) {
  const bool u = Bit(i, 24);
  const u32 vd = Dn(Bits(i, 15, 12), Bit(i, 22)), vn = Dn(Bits(i, 19, 16), Bit(i, 7)), vm = Dn(i & 15, Bit(i, 5));
  const u32 size = Bits(i, 21, 20), op = Bits(i, 11, 8), lanes = 8u >> size, bits = 8u << size;
  uint8_t out[16];
  const bool narrow = op == 4 || op == 6;
  for (u32 k = 0; k < lanes; ++k) {
    const bool wide = op == 1 || op == 3 || narrow;
    const i64 n = Lane(bytes, vn, k, wide ? size + 1 : size, !u), m = Lane(bytes, vm, k, narrow ? size + 1 : size, !u), x = Lane(bytes, vd, k, size + 1, true);
    u64 o;
    switch (op) {
      case 0: case 1: o = (u64)n + (u64)m; break;
      case 2: case 3: o = (u64)n - (u64)m; break;
      case 4: o = ((u64)n + (u64)m + (u ? 1ull << (bits - 1) : 0)) >> bits; break;
      case 6: o = ((u64)n - (u64)m + (u ? 1ull << (bits - 1) : 0)) >> bits; break;
      case 5: o = (u64)x + (u64)(n > m ? n - m : m - n); break;
      case 7: o = (u64)(n > m ? n - m : m - n); break;
      case 8: o = (u64)x + (u64)n * (u64)m; break;
      case 10: o = (u64)x - (u64)n * (u64)m; break;
      case 12: o = (u64)n * (u64)m; break;
      case 13: o = Sat((i128)2 * n * m, 2 * bits, true); break;
      default: Und(i);
    }
    const u32 os = narrow ? size : size + 1;
    memcpy(out + (k << os), &o, 1u << os);
  }
  memcpy(bytes + 8 * vd, out, narrow ? 8 : 16);
}
void Cpu::ByScalar(u32 i) {
  const bool u = Bit(i, 24);
  const u32 vd = Dn(Bits(i, 15, 12), Bit(i, 22)), vn = Dn(Bits(i, 19, 16), Bit(i, 7));
  const u32 size = Bits(i, 21, 20), op = Bits(i, 11, 8), bits = 8u << size;
  if (size == 0) Und(i);
  const u32 vm = size == 1 ? i & 7 : i & 15, at = size == 1 ? (u32)Bit(i, 5) << 1 | Bit(i, 3) : Bit(i, 5);
  const bool longer = op == 2 || op == 6 || op == 10 || op == 11 || op == 3 || op == 7;
  const u32 lanes = longer ? 8u >> size : (u ? 16u : 8u) >> size, os = longer ? size + 1 : size;
  uint8_t out[16];
  float fm;
  memcpy(&fm, bytes + 8 * vm + 4 * (at & 1), 4);
  fm = Flush(fm);
  for (u32 k = 0; k < lanes; ++k) {
    const bool sign = longer ? !u : true;
    const i64 n = Lane(bytes, vn, k, size, sign), m = Lane(bytes, vm, at, size, sign), x = Lane(bytes, vd, k, os, true);
    u64 o = 0;
    volatile float p;
    float r;
    switch (op) {
      case 0: o = (u64)x + (u64)n * (u64)m; break;
      case 4: o = (u64)x - (u64)n * (u64)m; break;
      case 8: case 10: o = (u64)n * (u64)m; break;
      case 2: o = (u64)x + (u64)n * (u64)m; break;
      case 6: o = (u64)x - (u64)n * (u64)m; break;
      case 1: case 5: case 9: {
        if (size != 2) Und(i);
        p = Result(Flush(f[2 * vn + k]) * fm);
        const float fx = Flush(f[2 * vd + k]);
        r = op == 9 ? (float)p : op == 1 ? Result(fx + p) : Result(fx - p);
        u32 w;
        memcpy(&w, &r, 4);
        o = w;
        break;
      }
      case 12: case 13: o = Sat(((i128)2 * n * m + (op == 13 ? (i128)1 << (bits - 1) : 0)) >> bits, bits, true); break;
      default: Und(i);
    }
    memcpy(out + (k << os), &o, 1u << os);
  }
  memcpy(bytes + 8 * vd, out, lanes << os);
}
void Cpu::Misc2(u32 i) {
  const bool q = Bit(i, 6);
  const u32 vd = Dn(Bits(i, 15, 12), Bit(i, 22)), vm = Dn(i & 15, Bit(i, 5)), size = Bits(i, 19, 18), nd = q ? 2 : 1;
  const u32 a = Bits(i, 17, 16), b = Bits(i, 10, 7), lanes = (8 * nd) >> size, bits = 8u << size;
  uint8_t out[16];
  if (a == 2 && b >= 4) {  // to narrower and wider
    if (b == 6 && !q) {  // VSHLL by the width
      for (u32 k = 0; k < 8u >> size; ++k) {
        const u64 o = (u64)Lane(bytes, vm, k, size, false) << bits;
        memcpy(out + (k << (size + 1)), &o, 1u << (size + 1));
      }
      memcpy(bytes + 8 * vd, out, 16);
      return;
    }
    if (b > 5) Und(i);
    for (u32 k = 0; k < 8u >> size; ++k) {
      const bool sign = !(b == 5 && q);
      const i64 v = Lane(bytes, vm, k, size + 1, sign);
      const i128 w = Wide(v, size + 1, sign);
      const u64 o = b == 4 && !q ? (u64)v : b == 4 ? Sat(w, bits, false) : Sat(w, bits, sign);
      memcpy(out + (k << size), &o, 1u << size);
    }
    memcpy(bytes + 8 * vd, out, 8);
    return;
  }
  if (a == 2) {  // VSWP, VTRN, VUZP, VZIP
    uint8_t x[16], y[16], ox[16], oy[16];
    memcpy(x, bytes + 8 * vd, 8 * nd);
    memcpy(y, bytes + 8 * vm, 8 * nd);
    const u32 w = 1u << size;
    auto mv = [&](uint8_t* to, u32 k, const uint8_t* from, u32 j) { memcpy(to + k * w, from + j * w, w); };
    for (u32 k = 0; k < lanes; ++k) {
      auto cat = [&](u32 j) -> const uint8_t* { return j < lanes ? x : y; };
      switch (b) {
        case 0: memcpy(ox, y, 16), memcpy(oy, x, 16); break;
        case 1:
          mv(ox, k, k & 1 ? y : x, k & 1 ? k - 1 : k);
          mv(oy, k, k & 1 ? y : x, k & 1 ? k : k + 1);
          break;
        case 2:
          mv(ox, k, cat(2 * k), 2 * k % lanes);
          mv(oy, k, cat(2 * k + 1), (2 * k + 1) % lanes);
          break;
        default:
          mv(ox, k, k & 1 ? y : x, k / 2);
          mv(oy, k, k & 1 ? y : x, (lanes + k) / 2);
      }
    }
    memcpy(bytes + 8 * vd, ox, 8 * nd);
    memcpy(bytes + 8 * vm, oy, 8 * nd);
    return;
  }
  if (a == 3) {
    if (size != 2 || b < 12) Und(i);
    for (u32 k = 0; k < 2 * nd; ++k) {
      const u32 v = s[2 * vm + k];
      switch (b) {
        case 12: f[2 * vd + k] = (float)(i32)v; break;
        case 13: f[2 * vd + k] = (float)v; break;
        default: s[2 * vd + k] = ToInt(std::trunc((double)Flush(f[2 * vm + k])), b == 14);
      }
    }
    return;
  }
  if (a == 1 && (b & 8)) {  // single precision
    if (size != 2) Und(i);
    for (u32 k = 0; k < 2 * nd; ++k) {
      const u32 v = s[2 * vm + k];
      const float x = Flush(f[2 * vm + k]);
      u32 o;
      switch (b & 7) {
        case 0: o = x > 0 ? ~0u : 0; break;
        case 1: o = x >= 0 ? ~0u : 0; break;
        case 2: o = x == 0 ? ~0u : 0; break;
        case 3: o = x <= 0 ? ~0u : 0; break;
        case 4: o = x < 0 ? ~0u : 0; break;
        case 6: o = v & 0x7FFFFFFF; break;
        case 7: o = v ^ 0x80000000u; break;
        default: Und(i);
      }
      memcpy(out + 4 * k, &o, 4);
    }
    memcpy(bytes + 8 * vd, out, 8 * nd);
    return;
  }
  if (a == 0 && (b == 4 || b == 5 || b == 12 || b == 13)) {  // VPADDL, VPADAL
    for (u32 k = 0; k < lanes / 2; ++k) {
      u64 o = (u64)Lane(bytes, vm, 2 * k, size, !(b & 1)) + (u64)Lane(bytes, vm, 2 * k + 1, size, !(b & 1));
      if (b & 8) o += (u64)Lane(bytes, vd, k, size + 1, true);
      memcpy(out + (k << (size + 1)), &o, 1u << (size + 1));
    }
    memcpy(bytes + 8 * vd, out, 8 * nd);
    return;
  }
  for (u32 k = 0; k < lanes; ++k) {
    const i64 v = Lane(bytes, vm, k, size, true);
    const u64 z = (u64)Lane(bytes, vm, k, size, false);
    u64 o = 0;
    if (a == 0) {
      switch (b) {
        case 0: case 1: case 2: {  // VREV: lanes reversed in groups of 8, 4, 2 bytes
          const u32 group = (8u >> b) >> size;
          if (group < 2) Und(i);
          o = (u64)Lane(bytes, vm, k / group * group + (group - 1 - k % group), size, false);
          break;
        }
        case 8: {
          const u64 t = (u64)(v < 0 ? ~v : v);
          o = (t ? __builtin_clzll(t) - (64 - bits) : bits) - 1;
          break;
        }
        case 9: o = z ? __builtin_clzll(z) - (64 - bits) : bits; break;
        case 10: if (size) Und(i); o = __builtin_popcountll(z); break;
        case 11: if (size) Und(i); o = ~z; break;
        case 14: o = Sat(v < 0 ? -(i128)v : v, bits, true); break;
        case 15: o = Sat(-(i128)v, bits, true); break;
        default: Und(i);
      }
    } else {
      switch (b & 7) {
        case 0: o = v > 0 ? ~0ull : 0; break;
        case 1: o = v >= 0 ? ~0ull : 0; break;
        case 2: o = v == 0 ? ~0ull : 0; break;
        case 3: o = v <= 0 ? ~0ull : 0; break;
        case 4: o = v < 0 ? ~0ull : 0; break;
        case 6: o = v < 0 ? 0 - (u64)v : (u64)v; break;
        case 7: o = 0 - (u64)v; break;
        default: Und(i);
      }
    }
    memcpy(out + (k << size), &o, 1u << size);
  }
  memcpy(bytes + 8 * vd, out, 8 * nd);
}
void Cpu::ShiftImm(u32 i) {
  const bool q = Bit(i, 6), u = Bit(i, 24), l = Bit(i, 7);
  const u32 vd = Dn(Bits(i, 15, 12), Bit(i, 22)), vm = Dn(i & 15, Bit(i, 5)), op = Bits(i, 11, 8), imm = Bits(i, 21, 16);
  const u32 size = l ? 3 : imm & 32 ? 2 : imm & 16 ? 1 : 0, bits = 8u << size;
  const u32 right = l ? 64 - imm : 2 * bits - imm, left = l ? imm : imm - bits;
  uint8_t out[16];
  if (op == 14 || op == 15) {  // fixed point, 64 - imm fraction bits
    if (l || !(imm & 32)) Und(i);
    const int frac = 64 - imm;
    for (u32 k = 0; k < (q ? 4u : 2u); ++k)
      if (op == 15) s[2 * vd + k] = ToInt(std::trunc(std::ldexp((double)Flush(f[2 * vm + k]), frac)), !u);
      else f[2 * vd + k] = (float)std::ldexp(u ? (double)s[2 * vm + k] : (double)(i32)s[2 * vm + k], -frac);
    return;
  }
  if (op == 8 || op == 9) {
    if (l) Und(i);
    for (u32 k = 0; k < 8u >> size; ++k) {
      const bool sign = op == 8 || !u;
      const i64 v = Lane(bytes, vm, k, size + 1, sign);
      const i128 w = Shr(Wide(v, size + 1, sign), right, q);
      const u64 o = op == 8 ? (u ? Sat(w, bits, false) : (u64)w) : Sat(w, bits, sign);
      memcpy(out + (k << size), &o, 1u << size);
    }
    memcpy(bytes + 8 * vd, out, 8);
    return;
  }
  if (op == 10) {
    if (q || l) Und(i);
    for (u32 k = 0; k < 8u >> size; ++k) {
      const u64 o = (u64)Lane(bytes, vm, k, size, !u) << left;
      memcpy(out + (k << (size + 1)), &o, 1u << (size + 1));
    }
    memcpy(bytes + 8 * vd, out, 16);
    return;
  }
  for (u32 k = 0; k < (q ? 16u : 8u) >> size; ++k) {
    const i64 v = Lane(bytes, vm, k, size, !u), x = Lane(bytes, vd, k, size, !u);
    const i128 w = Wide(v, size, !u);
    u64 o;
    switch (op) {
      case 0: o = (u64)Shr(w, right, false); break;
      case 1: o = (u64)x + (u64)Shr(w, right, false); break;
      case 2: o = (u64)Shr(w, right, true); break;
      case 3: o = (u64)x + (u64)Shr(w, right, true); break;
      case 4: {
        if (!u) Und(i);
        const u64 mask = right == bits ? 0 : (bits == 64 ? ~0ull : (1ull << bits) - 1) >> right;
        o = ((u64)x & ~mask) | (u64)(Wide(v, size, false) >> right & mask);
        break;
      }
      case 5: o = u ? ((u64)x & ((1ull << left) - 1)) | (u64)v << left : (u64)v << left; break;
      case 6: o = Sat(Wide(Lane(bytes, vm, k, size, true), size, true) << left, bits, false); break;
      case 7: o = Sat(w << left, bits, !u); break;
      default: Und(i);
    }
    memcpy(out + (k << size), &o, 1u << size);
  }
  memcpy(bytes + 8 * vd, out, q ? 16 : 8);
}
void Cpu::SimdMem(u32 i) {
  const bool load = Bit(i, 21);
  const u32 vd = Dn(Bits(i, 15, 12), Bit(i, 22)), rn = Bits(i, 19, 16), rm = i & 15;
  u32 a = r[rn], total;
  const u32 base = a;
  auto mem = [&](u32 reg, u32 lane, u32 size) {
    if (load) {
      const u64 v = size == 0 ? Ld<uint8_t>(a) : size == 1 ? Ld<uint16_t>(a) : size == 2 ? Ld<u32>(a) : Ld<u64>(a);
      Put(bytes, reg, lane, size, v);
    } else {
      const u64 v = Lane(bytes, reg, lane, size, false);
      if (size == 0) St<uint8_t>(a, v);
      else if (size == 1) St<uint16_t>(a, v);
      else if (size == 2) St<u32>(a, v);
      else St<u64>(a, v);
    }
    a += 1u << size;
  };
  if (!Bit(i, 23)) {
    const u32 type = Bits(i, 11, 8), size = Bits(i, 7, 6), al = Bits(i, 5, 4);
    if (al) Align(base, 4u << al);
    u32 regs, n, step = 1, groups = 1;
    switch (type) {
      case 7: regs = 1, n = 1; break;
      case 10: regs = 2, n = 1; break;
      case 6: regs = 3, n = 1; break;
      case 2: regs = 4, n = 1; break;
      case 8: regs = 2, n = 2; break;
      case 9: regs = 2, n = 2, step = 2; break;
      case 3: regs = 4, n = 2, groups = 2, step = 2; break;
      case 4: regs = 3, n = 3; break;
      case 0: regs = 4, n = 4; break;
      default: Und(i);
    }
    if (vd + (type == 9 ? 3 : regs) > 32) Und(i);
    if (n == 1) {
      for (u32 k = 0; k < regs; ++k)
        for (u32 e = 0; e < 8u >> size; ++e) mem(vd + k, e, size);
    } else {
      for (u32 g = 0; g < groups; ++g)
        for (u32 e = 0; e < 8u >> size; ++e)
          for (u32 k = 0; k < n; ++k) mem(vd + g + k * step, e, size);
    }
    total = 8 * regs;
  } else if (Bits(i, 11, 10) != 3) {
    const u32 size = Bits(i, 11, 10), n = Bits(i, 9, 8) + 1, ia = Bits(i, 7, 4), at = ia >> (size + 1);
    const u32 step = n > 1 && size > 0 && Bit(ia, size) ? 2 : 1;
    if (n == 1 && (ia & ((2u << size) - 1))) Align(base, 1u << size);
    if (n > 1 && (ia & 1)) Align(base, n << size);
    for (u32 k = 0; k < n; ++k) mem(vd + k * step, at, size);
    total = n << size;
  } else {
    const u32 size = Bits(i, 7, 6), n = Bits(i, 9, 8) + 1;
    if (!load || n != 1 || size == 3) Und(i);
    const u64 v = size == 0 ? Ld<uint8_t>(a) : size == 1 ? Ld<uint16_t>(a) : Ld<u32>(a);
    if (Bit(i, 4)) Align(base, 1u << size);
    for (u32 k = 0; k < (Bit(i, 5) ? 2u : 1u); ++k)
      for (u32 e = 0; e < 8u >> size; ++e) Put(bytes, vd + k, e, size, v);
    total = 1u << size;
  }
  if (rm != 15) r[rn] = base + (rm == 13 ? total : r[rm]);
}
}  // namespace a32

#include "emu.h"
namespace a64 {
void Cpu::Step(u32 i) {
  switch (F(i, 28, 25)) {
    case 8: case 9: return DpImm(i);
    case 10: case 11: return Branch(i);
    case 4: case 6: case 12: case 14: return LdSt(i);
    case 5: case 13: return DpReg(i);
    case 7: case 15: ++vector_insns; return Fp(i);
    default: break;
  }
  if ((i >> 16) == 0) {
    fprintf(stderr, "VERIF-A64: the guest stops itself (udf)\n");
    abort();
  }
  Un(i);
}

void Cpu::DpImm(u32 i) {
  const bool sf = B(i, 31);
  const u32 rd = F(i, 4, 0), rn = F(i, 9, 5);
  switch (F(i, 25, 23)) {
    case 0: case 1: {
      const i64 imm = SX((F(i, 23, 5) << 2) | F(i, 30, 29), 21);
      W(rd, sf ? (pc & ~0xfffull) + (imm << 12) : pc + imm, true);
      return;
    }
    case 2: {
      const u64 imm = (u64)F(i, 21, 10) << (B(i, 22) ? 12 : 0);
      const bool sub = B(i, 30), fl = B(i, 29);
      const u64 r = AddC(x[rn], sub ? ~imm : imm, sub, sf, fl);
      if (fl) W(rd, r, sf);
      else WSP(rd, r, sf);
      return;
    }
    case 4: {
      u64 m;
      if (!BitMask(B(i, 22), F(i, 15, 10), F(i, 21, 16), sf, &m)) Un(i);
      const u32 op = F(i, 30, 29);
      const u64 r = Logic(op, X(rn), m, sf);
      if (op == 3) W(rd, r, sf);
      else WSP(rd, r, sf);
      return;
    }
    case 5: {
      const int sh = 16 * F(i, 22, 21);
      const u64 imm = (u64)F(i, 20, 5) << sh;
      switch (F(i, 30, 29)) {
        case 0: W(rd, ~imm, sf); return;
        case 2: W(rd, imm, sf); return;
        case 3: W(rd, (X(rd) & ~(0xffffull << sh)) | imm, sf); return;
      }
      Un(i);
    }
    case 6: {
      const int r = F(i, 21, 16), s = F(i, 15, 10), w = sf ? 64 : 32;
      if (r >= w || s >= w || B(i, 22) != sf) Un(i);
      const u64 src = sf ? X(rn) : (u32)X(rn);
      const int width = s >= r ? s - r + 1 : s + 1, pos = s >= r ? 0 : w - r;
      const u64 field = (s >= r ? src >> r : src) & M(width);
      switch (F(i, 30, 29)) {
        case 0: W(rd, (u64)SX(field, width) << pos, sf); return;
        case 1: W(rd, (X(rd) & ~(M(width) << pos)) | field << pos, sf); return;
        case 2: W(rd, field << pos, sf); return;
      }
      Un(i);
    }
    case 7: {
      const u32 rm = F(i, 20, 16), l = F(i, 15, 10);
      if (sf) W(rd, l ? (X(rn) << (64 - l)) | (X(rm) >> l) : X(rm), true);
      else W(rd, l ? ((u32)X(rn) << (32 - l)) | ((u32)X(rm) >> l) : (u32)X(rm), false);
      return;
    }
  }
  Un(i);
}

void Cpu::Branch(u32 i) {
  if (F(i, 30, 26) == 5) {
    const i64 off = SX(F(i, 25, 0), 26) * 4;
    if (B(i, 31)) {
      x[30] = pc + 4;
      Called();
    }
    next_ = pc + off;
    return;
  }
  if (F(i, 30, 25) == 0x1a) {
    const u32 r = F(i, 4, 0);
    const bool zero = B(i, 31) ? X(r) == 0 : (u32)X(r) == 0;
    if (zero != B(i, 24)) next_ = pc + SX(F(i, 23, 5), 19) * 4;
    return;
  }
  if (F(i, 30, 25) == 0x1b) {
    const bool bit = (X(F(i, 4, 0)) >> ((B(i, 31) << 5) | F(i, 23, 19))) & 1;
    if (bit == B(i, 24)) next_ = pc + SX(F(i, 18, 5), 14) * 4;
    return;
  }
  if (F(i, 31, 24) == 0x54 && !B(i, 4)) {
    if (Cond(F(i, 3, 0))) next_ = pc + SX(F(i, 23, 5), 19) * 4;
    return;
  }
  if ((i & 0xfffffc1f) == 0xd61f0000 || (i & 0xfffffc1f) == 0xd65f0000) {
    next_ = X(F(i, 9, 5));
    return;
  }
  if ((i & 0xfffffc1f) == 0xd63f0000) {
    next_ = X(F(i, 9, 5));
    x[30] = pc + 4;
    Called();
    return;
  }
  if ((i & 0xfffff01f) == 0xd503201f || (i & 0xfffff01f) == 0xd503301f) return;  // hints, barriers
  if ((i & 0xffe0001f) == 0xd4200000) {
    fprintf(stderr, "VERIF-A64: the guest stops itself (brk)\n");
    abort();
  }
  if ((i & 0xffffffe0) == 0xd53b4400 || (i & 0xffffffe0) == 0xd53b4420) return W(F(i, 4, 0), 0, true);  // fpcr, fpsr
  Un(i);
}

void Cpu::LdSt(u32 i) {
  const u32 rt = F(i, 4, 0), rn = F(i, 9, 5);
  const bool vec = B(i, 26);
  if (F(i, 29, 24) == 8) {  // exclusive, ordered
    const u32 sz = F(i, 31, 30), rs = F(i, 20, 16);
    const bool o2 = B(i, 23), L = B(i, 22), o1 = B(i, 21);
    if (o1) Un(i);
    if (L) {
      W(rt, LdN(x[rn], sz), true);
    } else {
      StN(x[rn], sz, X(rt));
      if (!o2) W(rs, 0, true);
    }
    return;
  }
  if (F(i, 29, 27) == 3 && F(i, 25, 24) == 0) {  // literal
    const u64 a = pc + SX(F(i, 23, 5), 19) * 4;
    const u32 opc = F(i, 31, 30);
    if (vec) {
      LdV(rt, a, opc + 2);
    } else if (opc == 0) {
      W(rt, LdN(a, 2), true);
    } else if (opc == 1) {
      W(rt, LdN(a, 3), true);
    } else if (opc == 2) {
      W(rt, SX(LdN(a, 2), 32), true);
    }
    return;
  }
  if (F(i, 29, 27) == 5) {  // pairs
    const u32 opc = F(i, 31, 30), rt2 = F(i, 14, 10), mode = F(i, 24, 23);
    const bool L = B(i, 22);
    const u32 sz = vec ? opc + 2 : (opc & 2 ? 3 : 2);
    const i64 imm = SX(F(i, 21, 15), 7) * (1 << sz);
    const u64 a = mode == 1 ? x[rn] : x[rn] + imm;
    if (vec) {
      if (L) {
        LdV(rt, a, sz);
        LdV(rt2, a + (1 << sz), sz);
      } else {
        StV(rt, a, sz);
        StV(rt2, a + (1 << sz), sz);
      }
    } else if (L) {
      u64 p = LdN(a, sz), q = LdN(a + (1 << sz), sz);
      if (opc == 1) p = SX(p, 32), q = SX(q, 32);
      W(rt, p, true);
      W(rt2, q, true);
    } else {
      if (opc == 1) Un(i);
      StN(a, sz, X(rt));
      StN(a + (1 << sz), sz, X(rt2));
    }
    if (mode == 1) x[rn] += imm;
    if (mode == 3) x[rn] = a;
    return;
  }
  if (F(i, 29, 27) == 7) {
    const u32 size = F(i, 31, 30), opc = F(i, 23, 22);
    const u32 sz = vec ? ((opc & 2) << 1 | size) : size;
    if (sz > 4) Un(i);
    u64 a, back = 0;
    bool wb = false;
    if (B(i, 24)) {
      a = x[rn] + ((u64)F(i, 21, 10) << sz);
    } else if (!B(i, 21)) {
      const i64 imm = SX(F(i, 20, 12), 9);
      const u32 mode = F(i, 11, 10);
      if (mode == 2) Un(i);
      a = mode == 1 ? x[rn] : x[rn] + imm;
      wb = mode != 0;
      back = x[rn] + imm;
    } else {
      if (F(i, 11, 10) != 2) Un(i);
      const u32 option = F(i, 15, 13);
      if (!(option & 2)) Un(i);
      a = x[rn] + Extend(X(F(i, 20, 16)), option, B(i, 12) ? sz : 0);
    }
    if (vec) {
      if (opc & 1) LdV(rt, a, sz);
      else StV(rt, a, sz);
    } else if (opc == 0) {
      StN(a, sz, X(rt));
    } else if (opc == 1) {
      W(rt, LdN(a, sz), true);
    } else if (size == 3) {
      if (opc == 3) Un(i);
      // prefetch: no access
    } else {
      if (opc == 3 && size == 2) Un(i);
      W(rt, SX(LdN(a, sz), 8 << sz), opc == 2);
    }
    if (wb) x[rn] = back;
    return;
  }
  if (!B(i, 31) && F(i, 29, 25) == 6) return SimdMem(i);
  Un(i);
}

void Cpu::SimdMem(u32 i) {
  ++vector_insns;
  const bool q = B(i, 30), post = B(i, 23), L = B(i, 22);
  const u32 rt = F(i, 4, 0), rn = F(i, 9, 5), rm = F(i, 20, 16);
  u64 a = x[rn];
  u32 total = 0;
  if (!B(i, 24)) {
    const u32 op = F(i, 15, 12), sz = F(i, 11, 10), n = (q ? 16 : 8) >> sz;
    int regs, selem;
    switch (op) {
      case 0: regs = selem = 4; break;
      case 2: regs = 4, selem = 1; break;
      case 4: regs = selem = 3; break;
      case 6: regs = 3, selem = 1; break;
      case 7: regs = selem = 1; break;
      case 8: regs = selem = 2; break;
      case 10: regs = 2, selem = 1; break;
      default: Un(i);
    }
    if (B(i, 21) || (!post && rm)) Un(i);
    total = regs * (q ? 16 : 8);
    // One access check for the whole range.
    if (L) Chk(a, 16 > total ? total : 16, false), loads += regs;
    else stores += regs;
    V t[4];
    for (auto& e : t) e = Zero();
    if (L) {
      if (selem == 1) {
        for (int r = 0; r < regs; ++r)
          for (u32 k = 0; k < n; ++k, a += 1 << sz) P(t[r], sz, k, LdN(a, sz));
      } else {
        for (u32 k = 0; k < n; ++k)
          for (int r = 0; r < selem; ++r, a += 1 << sz) P(t[r], sz, k, LdN(a, sz));
      }
      for (int r = 0; r < regs; ++r) v[(rt + r) & 31] = t[r];
    } else {
      if (selem == 1) {
        for (int r = 0; r < regs; ++r)
          for (u32 k = 0; k < n; ++k, a += 1 << sz) StN(a, sz, G(v[(rt + r) & 31], sz, k));
      } else {
        for (u32 k = 0; k < n; ++k)
          for (int r = 0; r < selem; ++r, a += 1 << sz) StN(a, sz, G(v[(rt + r) & 31], sz, k));
      }
    }
  } else {
    const u32 op = F(i, 15, 13), S = B(i, 12), size = F(i, 11, 10);
    const int selem = ((op & 1) << 1 | B(i, 21)) + 1;
    int sz = op >> 1;
    if (sz == 3) {  // replicate
      if (!L || S) Un(i);
      sz = size;
      for (int r = 0; r < selem; ++r, a += 1 << sz) {
        const u64 t = LdN(a, sz);
        V w = Zero();
        for (int k = 0; k < (q ? 16 : 8) >> sz; ++k) P(w, sz, k, t);
        v[(rt + r) & 31] = w;
      }
      total = selem << sz;
    } else {
      int idx;
      if (sz == 0) idx = q << 3 | S << 2 | size;
      else if (sz == 1) {
        if (size & 1) Un(i);
        idx = q << 2 | S << 1 | size >> 1;
      } else if (!(size & 1)) {
        if (size & 2) Un(i);
        idx = q << 1 | S;
      } else {
        if (S) Un(i);
        idx = q, sz = 3;
      }
      for (int r = 0; r < selem; ++r, a += 1 << sz) {
        if (L) P(v[(rt + r) & 31], sz, idx, LdN(a, sz));
        else StN(a, sz, G(v[(rt + r) & 31], sz, idx));
      }
      total = selem << sz;
    }
  }
  if (post) x[rn] += rm == 31 ? total : X(rm);
}

void Cpu::DpReg(u32 i) {
  const bool sf = B(i, 31);
  const u32 rd = F(i, 4, 0), rn = F(i, 9, 5), rm = F(i, 20, 16);
  if (!B(i, 28)) {
    if (!B(i, 24)) {  // logical
      if (!sf && F(i, 15, 10) > 31) Un(i);
      u64 b = Shift(X(rm), F(i, 23, 22), F(i, 15, 10), sf);
      if (B(i, 21)) b = ~b;
      return W(rd, Logic(F(i, 30, 29), X(rn), b, sf), sf);
    }
    const bool sub = B(i, 30), fl = B(i, 29);
    if (!B(i, 21)) {
      if (F(i, 23, 22) == 3 || (!sf && F(i, 15, 10) > 31)) Un(i);
      const u64 b = Shift(X(rm), F(i, 23, 22), F(i, 15, 10), sf);
      return W(rd, AddC(X(rn), sub ? ~b : b, sub, sf, fl), sf);
    }
    if (F(i, 23, 22) || F(i, 12, 10) > 4) Un(i);
    const u64 b = Extend(X(rm), F(i, 15, 13), F(i, 12, 10));
    const u64 r = AddC(x[rn], sub ? ~b : b, sub, sf, fl);
    if (fl) W(rd, r, sf);
    else WSP(rd, r, sf);
    return;
  }
  if (B(i, 24)) {  // three source
    const u32 ra = F(i, 14, 10), op = F(i, 23, 21);
    const bool o0 = B(i, 15);
    if (F(i, 30, 29)) Un(i);
    const u64 n = X(rn), m = X(rm), a = X(ra);
    switch (op) {
      case 0: return W(rd, o0 ? a - n * m : a + n * m, sf);
      case 1: return W(rd, o0 ? a - (u64)((i64)(i32)n * (i32)m) : a + (u64)((i64)(i32)n * (i32)m), true);
      case 5: return W(rd, o0 ? a - (u64)(u32)n * (u32)m : a + (u64)(u32)n * (u32)m, true);
      case 2: return W(rd, (u64)(((__int128)(i64)n * (i64)m) >> 64), true);
      case 6: return W(rd, (u64)(((u128)n * m) >> 64), true);
    }
    Un(i);
  }
  switch (F(i, 23, 21)) {
    case 0: {
      if (F(i, 15, 10)) Un(i);
      const bool sub = B(i, 30);
      return W(rd, AddC(X(rn), sub ? ~X(rm) : X(rm), C, sf, B(i, 29)), sf);
    }
    case 2: {
      if (!B(i, 29) || B(i, 10) || B(i, 4)) Un(i);
      if (!Cond(F(i, 15, 12))) return SetNZCV(F(i, 3, 0));
      const u64 b = B(i, 11) ? rm : X(rm);
      const bool sub = B(i, 30);
      AddC(X(rn), sub ? ~b : b, sub, sf, true);
      return;
    }
    case 4: {
      u64 t;
      if (Cond(F(i, 15, 12))) {
        t = X(rn);
      } else {
        t = X(rm);
        if (B(i, 30)) t = ~t;
        if (B(i, 10)) t += 1;
      }
      if (B(i, 29) || B(i, 11)) Un(i);
      return W(rd, t, sf);
    }
    case 6: {
      if (B(i, 29)) Un(i);
      const int w = sf ? 64 : 32;
      const u64 n = sf ? X(rn) : (u32)X(rn);
      if (B(i, 30)) {  // one source
        if (rm) Un(i);
        switch (F(i, 15, 10)) {
          case 0: {
            u64 r = 0;
            for (int k = 0; k < w; ++k) r |= ((n >> k) & 1) << (w - 1 - k);
            return W(rd, r, sf);
          }
          case 1: {
            u64 r = 0;
            for (int k = 0; k < w; k += 16) r |= (u64)__builtin_bswap16((uint16_t)(n >> k)) << k;
            return W(rd, r, sf);
          }
          case 2: {
            if (!sf) return W(rd, __builtin_bswap32((u32)n), false);
            return W(rd, (u64)__builtin_bswap32((u32)(n >> 32)) << 32 | __builtin_bswap32((u32)n), true);
          }
          case 3: return W(rd, __builtin_bswap64(n), true);
          case 4: return W(rd, n ? __builtin_clzll(n) - (64 - w) : w, sf);
          case 5: {
            const u64 t = (n ^ (n << 1)) & M(w - 1) << 1 & M(w);
            return W(rd, t ? __builtin_clzll(t) - (64 - w) : w - 1, sf);
          }
        }
        Un(i);
      }
      const u64 m = sf ? X(rm) : (u32)X(rm);
      switch (F(i, 15, 10)) {
        case 2: return W(rd, m ? n / m : 0, sf);
        case 3: {
          const i64 a = SX(n, w), b = SX(m, w);
          return W(rd, b == 0 ? 0 : b == -1 ? (u64)0 - (u64)a : (u64)(a / b), sf);
        }
        case 8: return W(rd, Shift(n, 0, m & (w - 1), sf), sf);
        case 9: return W(rd, Shift(n, 1, m & (w - 1), sf), sf);
        case 10: return W(rd, Shift(n, 2, m & (w - 1), sf), sf);
        case 11: return W(rd, Shift(n, 3, m & (w - 1), sf), sf);
      }
      Un(i);
    }
  }
  Un(i);
}

void Cpu::Fp(u32 i) {
  if (F(i, 28, 24) == 0x1e && !B(i, 30) && !B(i, 29)) {  // scalar floating point
    const u32 ty = F(i, 23, 22), rd = F(i, 4, 0), rn = F(i, 9, 5), rm = F(i, 20, 16);
    const bool sf = B(i, 31);
    const bool dbl = ty == 1;
    const int bits = sf ? 64 : 32;
    if (!B(i, 21)) {  // fixed point
      const int fb = 64 - F(i, 15, 10);
      if (ty > 1) Un(i);
      switch (F(i, 20, 16)) {
        case 2: case 3: {
          const double t = F(i, 20, 16) == 2 ? (double)SX(X(rn), bits) : sf ? (double)X(rn) : (double)(u32)X(rn);
          V w = Zero();
          if (dbl) w.g[0] = std::ldexp(t, -fb);
          else w.f[0] = std::ldexp(sf ? (F(i, 20, 16) == 2 ? (float)(i64)X(rn) : (float)X(rn)) : (float)t, -fb);
          v[rd] = w;
          return;
        }
        case 24: case 25: return W(rd, ToInt(std::ldexp(GF(v[rn], dbl, 0), fb), 3, B(i, 16), bits), sf);
      }
      Un(i);
    }
    switch (F(i, 11, 10)) {
      case 0: {
        if (F(i, 15, 10) == 0) {  // integer conversions
          const u32 rmode = F(i, 20, 19), op = F(i, 18, 16);
          if (op >= 6) {
            if (rmode == 1 && ty == 2 && sf) {
              if (op == 6) W(rd, v[rn].d[1], true);
              else v[rd].d[1] = X(rn);
              return;
            }
            if (rmode || ty != (u32)sf) Un(i);
            if (op == 6) {
              W(rd, v[rn].d[0], sf);
            } else {
              V w = Zero();
              w.d[0] = sf ? X(rn) : (u32)X(rn);
              v[rd] = w;
            }
            return;
          }
          if (ty > 1) Un(i);
          if (op == 2 || op == 3) {
            if (rmode) Un(i);
            V w = Zero();
            if (op == 2) {
              const i64 t = SX(X(rn), bits);
              if (dbl) w.g[0] = (double)t;
              else w.f[0] = (float)t;
            } else {
              const u64 t = sf ? X(rn) : (u32)X(rn);
              if (dbl) w.g[0] = (double)t;
              else w.f[0] = (float)t;
            }
            v[rd] = w;
            return;
          }
          if (op >= 4 && rmode) Un(i);
          return W(rd, ToInt(GF(v[rn], dbl, 0), op >= 4 ? 4 : rmode, op & 1, bits), sf);
        }
        if (ty > 1 && !(ty == 3 && F(i, 14, 10) == 16)) Un(i);
        if (F(i, 14, 10) == 16) {
          if (sf) Un(i);
          V w = Zero();
          const u32 op = F(i, 20, 15);
          if (op >= 4 && op <= 7) {
            if (ty == 0 && op == 5) w.g[0] = (double)v[rn].f[0];
            else if (ty == 1 && op == 4) w.f[0] = (float)v[rn].g[0];
            else Un(i);
            v[rd] = w;
            return;
          }
          if (ty == 3) Un(i);
          if (op == 0) {
            w.d[0] = dbl ? v[rn].d[0] : v[rn].s[0];
          } else if (op == 1) {
            w.d[0] = dbl ? v[rn].d[0] & M(63) : v[rn].s[0] & M(31);
          } else if (op == 2) {
            w.d[0] = dbl ? v[rn].d[0] ^ (1ull << 63) : v[rn].s[0] ^ (1u << 31);
          } else if (op == 3) {
            if (dbl) w.g[0] = std::sqrt(v[rn].g[0]);
            else w.f[0] = std::sqrt(v[rn].f[0]);
          } else if (op >= 8 && op <= 15 && op != 13) {
            static const int mode[] = {0, 1, 2, 3, 4, -1, 0, 0};
            PF(w, dbl, 0, Round(GF(v[rn], dbl, 0), mode[op - 8]));
          } else {
            Un(i);
          }
          v[rd] = w;
          return;
        }
        if (F(i, 13, 10) == 8) {
          if (sf || F(i, 15, 14) || F(i, 2, 0)) Un(i);
          const bool zero = B(i, 3);
          if (dbl) FCmp<double>(v[rn].g[0], zero ? 0.0 : v[rm].g[0]);
          else FCmp<float>(v[rn].f[0], zero ? 0.f : v[rm].f[0]);
          return;
        }
        if (F(i, 12, 10) == 4) {
          if (sf || F(i, 9, 5)) Un(i);
          V w = Zero();
          PF(w, dbl, 0, FpImm(F(i, 20, 13)));
          v[rd] = w;
          return;
        }
        Un(i);
      }
      case 1: {
        if (ty > 1 || sf) Un(i);
        if (!Cond(F(i, 15, 12))) return SetNZCV(F(i, 3, 0));
        if (dbl) FCmp<double>(v[rn].g[0], v[rm].g[0]);
        else FCmp<float>(v[rn].f[0], v[rm].f[0]);
        return;
      }
      case 2: {
        if (ty > 1 || sf) Un(i);
        V w = Zero();
        auto go = [&](auto a, auto b) -> decltype(a) {
          switch (F(i, 15, 12)) {
            case 0: return a * b;
            case 1: return a / b;
            case 2: return a + b;
            case 3: return a - b;
            case 4: return FMax(a, b, false);
            case 5: return FMin(a, b, false);
            case 6: return FMax(a, b, true);
            case 7: return FMin(a, b, true);
            case 8: return -(a * b);
          }
          Un(i);
        };
        if (dbl) w.g[0] = go(v[rn].g[0], v[rm].g[0]);
        else w.f[0] = go(v[rn].f[0], v[rm].f[0]);
        v[rd] = w;
        return;
      }
      default: {
        if (ty > 1 || sf) Un(i);
        const V& s = Cond(F(i, 15, 12)) ? v[rn] : v[rm];
        V w = Zero();
        w.d[0] = dbl ? s.d[0] : s.s[0];
        v[rd] = w;
        return;
      }
    }
  }
  if (F(i, 28, 24) == 0x1f && !B(i, 31) && !B(i, 30) && !B(i, 29)) {  // fused multiply-add
    const u32 ty = F(i, 23, 22), rd = F(i, 4, 0), rn = F(i, 9, 5), rm = F(i, 20, 16), ra = F(i, 14, 10);
    if (ty > 1) Un(i);
    const bool o1 = B(i, 21), o0 = B(i, 15);
    V w = Zero();
    auto go = [&](auto n, auto m, auto a) { return std::fma(o1 != o0 ? -n : n, m, o1 ? -a : a); };
    if (ty == 1) w.g[0] = go(v[rn].g[0], v[rm].g[0], v[ra].g[0]);
    else w.f[0] = go(v[rn].f[0], v[rm].f[0], v[ra].f[0]);
    v[rd] = w;
    return;
  }
  return Simd(i);
}

void Cpu::Simd(u32 i) {
  const bool scalar = B(i, 28);
  if (B(i, 31) || (scalar && !B(i, 30))) Un(i);
  const u32 g = F(i, 27, 24);
  if (g == 14) {
    if (B(i, 21)) {
      if (B(i, 10)) return ThreeSame(i, scalar);
      if (!B(i, 11)) {
        if (scalar) Un(i);
        return ThreeDiff(i);
      }
      if (F(i, 20, 17) == 0) return TwoMisc(i, scalar);
      if (F(i, 20, 17) == 8) {
        if (scalar) return PairScalar(i);
        return Across(i);
      }
      Un(i);
    }
    if (B(i, 15)) Un(i);
    if (B(i, 10)) {
      if (F(i, 23, 22)) Un(i);
      return Copy(i, scalar);
    }
    if (scalar) Un(i);
    return Permute(i);
  }
  if (g == 15) {
    if (B(i, 10)) {
      if (B(i, 23)) Un(i);
      if (F(i, 22, 19) == 0) {
        if (scalar) Un(i);
        return ModImm(i);
      }
      return ShiftImm(i, scalar);
    }
    return ByElement(i, scalar);
  }
  Un(i);
}

void Cpu::ThreeSame(u32 i, bool scalar) {
  const bool q = scalar || B(i, 30), U = B(i, 29);
  const u32 sz = F(i, 23, 22), op = F(i, 15, 11), rd = F(i, 4, 0);
  const V n = v[F(i, 9, 5)], m = v[F(i, 20, 16)], d = v[rd];
  V r = Zero();
  const int bits = 8 << sz, lanes = scalar ? 1 : (q ? 16 : 8) >> sz;
  if (op == 3) {
    if (scalar) Un(i);
    for (int k = 0; k < (q ? 2 : 1); ++k) {
      const u64 a = n.d[k], b = m.d[k], c = d.d[k];
      u64 t;
      if (!U) t = sz == 0 ? a & b : sz == 1 ? a & ~b : sz == 2 ? a | b : a | ~b;
      else t = sz == 0 ? a ^ b : sz == 1 ? (c & a) | (~c & b) : sz == 2 ? (c & ~b) | (a & b) : (c & b) | (a & ~b);
      r.d[k] = t;
    }
    v[rd] = r;
    return;
  }
  if (op >= 24) {
    const bool a = sz & 2, dbl = sz & 1;
    const int L = scalar ? 1 : dbl ? (q ? 2 : 0) : (q ? 4 : 2);
    if (!L) Un(i);
    const u64 ones = dbl ? ~0ull : 0xffffffffull;
    const u32 key = (U << 6) | (a << 5) | op;
    const bool pair = !scalar && U && (op == 24 || (op == 26 && !a) || op == 30);
    for (int k = 0; k < L; ++k) {
      auto put = [&](u64 t) { P(r, dbl ? 3 : 2, k, t); };
      auto go = [&](auto A, auto Bv, auto D) {
        typedef decltype(A) T;
        T t = 0;
        switch (key) {
          case 24: t = FMax(A, Bv, true); break;
          case 25: t = std::fma(A, Bv, D); break;
          case 26: t = A + Bv; break;
          case 27: t = ((A == 0 && std::isinf(Bv)) || (std::isinf(A) && Bv == 0)) ? std::copysign(T(2), A) * std::copysign(T(1), Bv) : A * Bv; break;
          case 28: put(A == Bv ? ones : 0); return;
          case 30: t = FMax(A, Bv, false); break;
          case 32 + 24: t = FMin(A, Bv, true); break;
          case 32 + 25: t = std::fma(-A, Bv, D); break;
          case 32 + 26: t = A - Bv; break;
          case 32 + 30: t = FMin(A, Bv, false); break;
          case 64 + 24: t = FMax(A, Bv, true); break;
          case 64 + 26: t = A + Bv; break;
          case 64 + 27: t = A * Bv; break;
          case 64 + 28: put(A >= Bv ? ones : 0); return;
          case 64 + 29: put(std::fabs(A) >= std::fabs(Bv) ? ones : 0); return;
          case 64 + 30: t = FMax(A, Bv, false); break;
          case 64 + 31: t = A / Bv; break;
          case 96 + 24: t = FMin(A, Bv, true); break;
          case 96 + 26: t = std::fabs(A - Bv); break;
          case 96 + 28: put(A > Bv ? ones : 0); return;
          case 96 + 29: put(std::fabs(A) > std::fabs(Bv) ? ones : 0); return;
          case 96 + 30: t = FMin(A, Bv, false); break;
          default: Un(i);
        }
        if (dbl) r.g[k] = t;
        else r.f[k] = t;
      };
      auto at = [&](int k2, bool second, auto get) {
        if (!pair) return second ? get(m, k) : get(n, k);
        const int j = 2 * k + second;
        (void)k2;
        return j < L ? get(n, j) : get(m, j - L);
      };
      if (dbl) {
        auto get = [](const V& t, int j) { return t.g[j]; };
        go(at(k, false, get), at(k, true, get), d.g[k]);
      } else {
        auto get = [](const V& t, int j) { return t.f[j]; };
        go(at(k, false, get), at(k, true, get), d.f[k]);
      }
    }
    v[rd] = r;
    return;
  }
  const bool pairwise = op == 20 || op == 21 || (op == 23 && !U);
  if (scalar && pairwise) Un(i);
  for (int k = 0; k < lanes; ++k) {
    u64 ua, ub;
    if (pairwise) {
      const int j = 2 * k;
      ua = j < lanes ? G(n, sz, j) : G(m, sz, j - lanes);
      ub = j < lanes ? G(n, sz, j + 1) : G(m, sz, j + 1 - lanes);
    } else {
      ua = G(n, sz, k), ub = G(m, sz, k);
    }
    const i64 sa = SX(ua, bits), sb = SX(ub, bits);
    const __int128 a = U ? (__int128)ua : (__int128)sa, b = U ? (__int128)ub : (__int128)sb;
    __int128 t = 0;
    const u64 dd = G(d, sz, k);
    switch (op) {
      case 0: t = (a + b) >> 1; break;
      case 1: t = U ? SatU(a + b, bits) : SatS(a + b, bits); break;
      case 2: t = (a + b + 1) >> 1; break;
      case 4: t = (a - b) >> 1; break;
      case 5: t = U ? SatU(a - b, bits) : SatS(a - b, bits); break;
      case 6: t = a > b ? -1 : 0; break;
      case 7: t = a >= b ? -1 : 0; break;
      case 8: case 9: case 10: case 11: {
        const int s = (int8_t)ub;
        const bool sat = op & 1, rnd = op & 2;
        if (s >= 0) {
          __int128 w = s >= bits ? (a == 0 ? 0 : a < 0 ? -((__int128)1 << 100) : (__int128)1 << 100) : a << s;
          t = sat ? (U ? SatU(w, bits) : SatS(w, bits)) : (s >= bits ? (__int128)0 : w);
        } else {
          const int e = -s > 100 ? 100 : -s;
          t = (a + (rnd ? (__int128)1 << (e - 1) : 0)) >> e;
        }
        break;
      }
      case 12: case 20: t = a > b ? a : b; break;
      case 13: case 21: t = a < b ? a : b; break;
      case 14: t = a > b ? a - b : b - a; break;
      case 15: t = dd + (u64)(a > b ? a - b : b - a); break;
      case 16: t = U ? (__int128)(ua - ub) : (__int128)(ua + ub); break;
      case 17: t = U ? (ua == ub ? -1 : 0) : ((ua & ub) ? -1 : 0); break;
      case 18: t = U ? (__int128)(dd - ua * ub) : (__int128)(dd + ua * ub); break;
      case 19: if (U) Un(i); t = (__int128)(u64)(ua * ub); break;
      case 22: t = SatS(((__int128)sa * sb * 2 + (U ? (__int128)1 << (bits - 1) : 0)) >> bits, bits); break;
      case 23: if (U) Un(i); t = (__int128)(u64)(ua + ub); break;
      default: Un(i);
    }
    P(r, sz, k, (u64)t & M(bits));
  }
  v[rd] = r;
}

void Cpu::ThreeDiff(u32 i) {
  const bool q = B(i, 30), U = B(i, 29);
  const u32 sz = F(i, 23, 22), op = F(i, 15, 12), rd = F(i, 4, 0);
  if (sz == 3) Un(i);
  const V n = v[F(i, 9, 5)], m = v[F(i, 20, 16)], d = v[rd];
  const int lanes = 8 >> sz, off = q ? lanes : 0, bits = 8 << sz;
  V r = Zero();
  if (op == 4 || op == 6) {  // narrow high half
    if (q) r = d;
    for (int k = 0; k < lanes; ++k) {
      u64 t = G(n, sz + 1, k);
      t = op == 4 ? t + G(m, sz + 1, k) : t - G(m, sz + 1, k);
      if (U) t += 1ull << (bits - 1);
      P(r, sz, off + k, (t & M(2 * bits)) >> bits);
    }
    if (!q) r.d[1] = 0;
    v[rd] = r;
    return;
  }
  for (int k = 0; k < lanes; ++k) {
    const __int128 a = U ? (__int128)G(n, sz, off + k) : (__int128)GS(n, sz, off + k);
    const __int128 b = U ? (__int128)G(m, sz, off + k) : (__int128)GS(m, sz, off + k);
    const __int128 w = (__int128)G(n, sz + 1, k), c = (__int128)G(d, sz + 1, k);
    __int128 t;
    switch (op) {
      case 0: t = a + b; break;
      case 1: t = w + b; break;
      case 2: t = a - b; break;
      case 3: t = w - b; break;
      case 5: t = c + (a > b ? a - b : b - a); break;
      case 7: t = a > b ? a - b : b - a; break;
      case 8: t = c + a * b; break;
      case 10: t = c - a * b; break;
      case 12: t = a * b; break;
      default: Un(i);
    }
    P(r, sz + 1, k, (u64)t & M(2 * bits));
  }
  v[rd] = r;
}

void Cpu::TwoMisc(u32 i, bool scalar) {
  const bool q = scalar || B(i, 30), U = B(i, 29);
  const u32 sz = F(i, 23, 22), op = F(i, 16, 12), rd = F(i, 4, 0);
  const V n = v[F(i, 9, 5)], d = v[rd];
  const int bits = 8 << sz, lanes = scalar ? 1 : (q ? 16 : 8) >> sz;
  V r = Zero();
  if ((op >= 12 && op <= 15) || (op >= 22)) {  // floating point
    const bool a = sz & 2, dbl = sz & 1;
    const int L = scalar ? 1 : dbl ? (q ? 2 : 0) : (q ? 4 : 2);
    if (op == 22 && !a && !U) {  // FCVTN
      if (!dbl) Un(i);
      const int off = B(i, 30) ? 2 : 0;
      if (off) r = d;
      for (int k = 0; k < 2; ++k) r.f[off + k] = (float)n.g[k];
      v[rd] = r;
      return;
    }
    if (op == 23 && !a && !U) {  // FCVTL
      if (!dbl) Un(i);
      const int off = B(i, 30) ? 2 : 0;
      for (int k = 0; k < 2; ++k) r.g[k] = (double)n.f[off + k];
      v[rd] = r;
      return;
    }
    if (!L) Un(i);
    const u64 ones = dbl ? ~0ull : 0xffffffffull;
    const int fb = dbl ? 64 : 32;
    for (int k = 0; k < L; ++k) {
      const double t = GF(n, dbl, k);
      auto put = [&](u64 w) { P(r, dbl ? 3 : 2, k, w & ones); };
      switch ((U << 6) | (a << 5) | op) {
        case 32 + 12: put(t > 0 ? ones : 0); break;
        case 32 + 13: put(t == 0 ? ones : 0); break;
        case 32 + 14: put(t < 0 ? ones : 0); break;
        case 96 + 12: put(t >= 0 ? ones : 0); break;
        case 96 + 13: put(t <= 0 ? ones : 0); break;
        case 32 + 15: put(G(n, dbl ? 3 : 2, k) & (ones >> 1)); break;
        case 96 + 15: put(G(n, dbl ? 3 : 2, k) ^ (ones ^ (ones >> 1))); break;
        case 24: PF(r, dbl, k, Round(t, 0)); break;
        case 32 + 24: PF(r, dbl, k, Round(t, 1)); break;
        case 64 + 24: PF(r, dbl, k, Round(t, 4)); break;
        case 25: PF(r, dbl, k, Round(t, 2)); break;
        case 32 + 25: PF(r, dbl, k, Round(t, 3)); break;
        case 64 + 25: case 96 + 25: PF(r, dbl, k, Round(t, 0)); break;
        case 26: case 64 + 26: put(ToInt(t, 0, U, fb)); break;
        case 32 + 26: case 96 + 26: put(ToInt(t, 1, U, fb)); break;
        case 27: case 64 + 27: put(ToInt(t, 2, U, fb)); break;
        case 32 + 27: case 96 + 27: put(ToInt(t, 3, U, fb)); break;
        case 28: case 64 + 28: put(ToInt(t, 4, U, fb)); break;
        case 29:
          if (dbl) r.g[k] = (double)(i64)n.d[k];
          else r.f[k] = (float)(i32)n.s[k];
          break;
        case 64 + 29:
          if (dbl) r.g[k] = (double)n.d[k];
          else r.f[k] = (float)n.s[k];
          break;
        case 96 + 31:
          if (dbl) r.g[k] = std::sqrt(n.g[k]);
          else r.f[k] = std::sqrt(n.f[k]);
          break;
        default: Un(i);
      }
    }
    v[rd] = r;
    return;
  }
  switch (op) {
    case 0: case 1: {
      if (scalar) Un(i);
      const int group = (op == 1 ? 2 : U ? 4 : 8) >> sz;  // elements reversed together
      if (group < 2) Un(i);
      for (int k = 0; k < lanes; ++k) P(r, sz, k, G(n, sz, k / group * group + group - 1 - k % group));
      break;
    }
    case 2: case 6: {
      if (scalar || sz == 3) Un(i);
      for (int k = 0; k < lanes / 2; ++k) {
        u64 t = U ? G(n, sz, 2 * k) + G(n, sz, 2 * k + 1) : (u64)(GS(n, sz, 2 * k) + GS(n, sz, 2 * k + 1));
        if (op == 6) t += G(d, sz + 1, k);
        P(r, sz + 1, k, t);
      }
      break;
    }
    case 4: {
      if (scalar || sz == 3) Un(i);
      for (int k = 0; k < lanes; ++k) {
        u64 t = G(n, sz, k);
        if (!U) t = (t ^ (t << 1)) & M(bits) & ~1ull;
        int c = t ? __builtin_clzll(t) - (64 - bits) : (U ? bits : bits - 1);
        P(r, sz, k, c);
      }
      break;
    }
    case 5: {
      if (scalar) Un(i);
      for (int k = 0; k < (q ? 16 : 8); ++k) {
        const uint8_t t = n.b[k];
        if (!U && sz == 0) r.b[k] = (uint8_t)__builtin_popcount(t);
        else if (U && sz == 0) r.b[k] = (uint8_t)~t;
        else if (U && sz == 1) {
          uint8_t w = 0;
          for (int e = 0; e < 8; ++e) w |= ((t >> e) & 1) << (7 - e);
          r.b[k] = w;
        } else Un(i);
      }
      break;
    }
    case 7:
      for (int k = 0; k < lanes; ++k) {
        const __int128 t = GS(n, sz, k);
        P(r, sz, k, SatS(U ? -t : t < 0 ? -t : t, bits));
      }
      break;
    case 8: case 9: case 10: case 11:
      for (int k = 0; k < lanes; ++k) {
        const i64 t = GS(n, sz, k);
        u64 w;
        if (op == 8) w = (U ? t >= 0 : t > 0) ? ~0ull : 0;
        else if (op == 9) w = (U ? t <= 0 : t == 0) ? ~0ull : 0;
        else if (op == 10) {
          if (U) Un(i);
          w = t < 0 ? ~0ull : 0;
        } else w = U ? 0 - (u64)t : (t < 0 ? 0 - (u64)t : (u64)t);
        P(r, sz, k, w & M(bits));
      }
      break;
    case 18: case 20: {
      if (sz == 3) Un(i);
      const int L = scalar ? 1 : 8 >> sz, off = !scalar && B(i, 30) ? L : 0;
      if (off) r = d;
      for (int k = 0; k < L; ++k) {
        const u64 ut = G(n, sz + 1, k);
        const i64 st = GS(n, sz + 1, k);
        u64 w;
        if (op == 18) w = U ? SatU(st, bits) : ut & M(bits);
        else w = U ? SatU((__int128)ut, bits) : SatS(st, bits);
        P(r, sz, off + k, w);
      }
      if (!off && !scalar) r.d[1] = 0;
      break;
    }
    case 19: {
      if (!U || scalar || sz == 3) Un(i);
      const int L = 8 >> sz, off = B(i, 30) ? L : 0;
      for (int k = 0; k < L; ++k) P(r, sz + 1, k, G(n, sz, off + k) << bits);
      break;
    }
    default: Un(i);
  }
  v[rd] = r;
}

void Cpu::PairScalar(u32 i) {
  const bool U = B(i, 29);
  const u32 op = F(i, 16, 12), sz = F(i, 23, 22), rd = F(i, 4, 0);
  const V n = v[F(i, 9, 5)];
  V r = Zero();
  if (op == 27 && !U && sz == 3) {
    r.d[0] = n.d[0] + n.d[1];
  } else if (U) {
    const bool dbl = sz & 1, a = sz & 2;
    auto go = [&](auto A, auto Bv) -> decltype(A) {
      if (op == 13 && !a) return A + Bv;
      if (op == 15) return a ? FMin(A, Bv, false) : FMax(A, Bv, false);
      if (op == 12) return a ? FMin(A, Bv, true) : FMax(A, Bv, true);
      Un(i);
    };
    if (dbl) r.g[0] = go(n.g[0], n.g[1]);
    else r.f[0] = go(n.f[0], n.f[1]);
  } else {
    Un(i);
  }
  v[rd] = r;
}

void Cpu::Across(u32 i) {
  const bool q = B(i, 30), U = B(i, 29);
  const u32 sz = F(i, 23, 22), op = F(i, 16, 12), rd = F(i, 4, 0);
  const V n = v[F(i, 9, 5)];
  V r = Zero();
  if (op == 12 || op == 15) {
    if (!U || (sz & 1) || !q) Un(i);
    float t = n.f[0];
    for (int k = 1; k < 4; ++k) t = (sz & 2) ? FMin(t, n.f[k], op == 12) : FMax(t, n.f[k], op == 12);
    r.f[0] = t;
    v[rd] = r;
    return;
  }
  if (sz == 3) Un(i);
  const int lanes = (q ? 16 : 8) >> sz;
  u64 usum = 0;
  i64 ssum = 0, smax = GS(n, sz, 0), smin = smax;
  u64 umax = G(n, sz, 0), umin = umax;
  for (int k = 0; k < lanes; ++k) {
    const u64 u = G(n, sz, k);
    const i64 s = GS(n, sz, k);
    usum += u, ssum += s;
    smax = std::max(smax, s), smin = std::min(smin, s), umax = std::max(umax, u), umin = std::min(umin, u);
  }
  switch (op) {
    case 3: P(r, sz + 1, 0, U ? usum : (u64)ssum); break;
    case 10: P(r, sz, 0, U ? umax : (u64)smax); break;
    case 26: P(r, sz, 0, U ? umin : (u64)smin); break;
    case 27: if (U) Un(i); P(r, sz, 0, usum); break;
    default: Un(i);
  }
  v[rd] = r;
}

void Cpu::Copy(u32 i, bool scalar) {
  const bool q = B(i, 30), op = B(i, 29);
  const u32 imm5 = F(i, 20, 16), imm4 = F(i, 14, 11), rd = F(i, 4, 0), rn = F(i, 9, 5);
  if (!(imm5 & 15)) Un(i);
  const int sz = __builtin_ctz(imm5), idx = imm5 >> (sz + 1), lanes = (q ? 16 : 8) >> sz;
  if (scalar) {
    if (op || imm4) Un(i);
    V r = Zero();
    P(r, sz, 0, G(v[rn], sz, idx));
    v[rd] = r;
    return;
  }
  if (op) {
    const V n = v[rn];
    P(v[rd], sz, idx, G(n, sz, imm4 >> sz));
    return;
  }
  V r = Zero();
  switch (imm4) {
    case 0: case 1: {
      const u64 t = imm4 ? X(rn) : G(v[rn], sz, idx);
      for (int k = 0; k < lanes; ++k) P(r, sz, k, t);
      v[rd] = r;
      return;
    }
    case 3: P(v[rd], sz, idx, X(rn)); return;
    case 5: W(rd, (u64)GS(v[rn], sz, idx), q); return;
    case 7: W(rd, G(v[rn], sz, idx), true); return;
  }
  Un(i);
}

void Cpu::Permute(u32 i) {
  const bool q = B(i, 30), U = B(i, 29);
  const u32 sz = F(i, 23, 22), rd = F(i, 4, 0);
  const V n = v[F(i, 9, 5)], m = v[F(i, 20, 16)];
  V r = Zero();
  if (U) {  // EXT
    if (sz || B(i, 15) || B(i, 10)) Un(i);
    const int pos = F(i, 14, 11), w = q ? 16 : 8;
    for (int k = 0; k < w; ++k) r.b[k] = k + pos < w ? n.b[k + pos] : m.b[k + pos - w];
    v[rd] = r;
    return;
  }
  if (!B(i, 11)) {  // TBL, TBX
    if (sz) Un(i);
    const int len = F(i, 14, 13) + 1;
    const bool tbx = B(i, 12);
    const u32 rn = F(i, 9, 5);
    if (tbx) r = v[rd];
    if (!q) r.d[1] = 0;
    for (int k = 0; k < (q ? 16 : 8); ++k) {
      const int at = m.b[k];
      if (at < 16 * len) r.b[k] = v[(rn + at / 16) & 31].b[at % 16];
      else if (!tbx) r.b[k] = 0;
    }
    v[rd] = r;
    return;
  }
  const int lanes = (q ? 16 : 8) >> sz, half = lanes / 2;
  const u32 op = F(i, 14, 12), part = op >> 2;
  for (int k = 0; k < lanes; ++k) {
    u64 t;
    switch (op & 3) {
      case 1: {  // UZP
        const int j = 2 * k + part;
        t = j < lanes ? G(n, sz, j) : G(m, sz, j - lanes);
        break;
      }
      case 2: t = (k & 1) ? G(m, sz, (k & ~1) + part) : G(n, sz, k + part); break;  // TRN
      case 3: t = (k & 1) ? G(m, sz, part * half + k / 2) : G(n, sz, part * half + k / 2); break;  // ZIP
      default: Un(i);
    }
    P(r, sz, k, t);
  }
  v[rd] = r;
}

void Cpu::ModImm(u32 i) {
  const bool q = B(i, 30), op = B(i, 29);
  const u32 cmode = F(i, 15, 12), rd = F(i, 4, 0), imm8 = F(i, 18, 16) << 5 | F(i, 9, 5);
  if (B(i, 11)) Un(i);
  u64 t;
  int what = op ? 1 : 0;  // 0 MOV, 1 MVN, 2 ORR, 3 BIC
  if (cmode < 8) {
    t = (u64)imm8 << (8 * (cmode >> 1));
    t |= t << 32;
    if (cmode & 1) what = op ? 3 : 2;
  } else if (cmode < 12) {
    t = (u64)imm8 << (8 * ((cmode >> 1) & 1));
    t |= t << 16;
    t |= t << 32;
    if (cmode & 1) what = op ? 3 : 2;
  } else if (cmode < 14) {
    t = cmode & 1 ? (u64)imm8 << 16 | 0xffff : (u64)imm8 << 8 | 0xff;
    t |= t << 32;
  } else if (cmode == 14) {
    if (!op) {
      t = imm8 * 0x0101010101010101ull;
    } else {
      t = 0;
      for (int k = 0; k < 8; ++k)
        if (imm8 >> k & 1) t |= 0xffull << (8 * k);
    }
    what = 0;
  } else {
    const double f = FpImm(imm8);
    if (op) {
      memcpy(&t, &f, 8);
    } else {
      const float g = (float)f;
      u32 w;
      memcpy(&w, &g, 4);
      t = (u64)w << 32 | w;
    }
    what = 0;
  }
  V r = v[rd];
  for (int k = 0; k < 2; ++k) r.d[k] = what == 0 ? t : what == 1 ? ~t : what == 2 ? r.d[k] | t : r.d[k] & ~t;
  if (!q) r.d[1] = 0;
  v[rd] = r;
}

void Cpu::ShiftImm(u32 i, bool scalar) {
  const bool q = scalar || B(i, 30), U = B(i, 29);
  const u32 imm = F(i, 22, 16), op = F(i, 15, 11), rd = F(i, 4, 0);
  const V n = v[F(i, 9, 5)], d = v[rd];
  const int sz = 31 - __builtin_clz(imm >> 3), bits = 8 << sz;
  const int right = 2 * bits - (int)imm, left = (int)imm - bits;
  V r = Zero();
  if (op >= 16 && op <= 19) {  // narrowing
    if (sz == 3) Un(i);
    const int L = scalar ? 1 : 8 >> sz, off = !scalar && B(i, 30) ? L : 0;
    if (off) r = d;
    for (int k = 0; k < L; ++k) {
      const __int128 s = GS(n, sz + 1, k), u = (__int128)G(n, sz + 1, k);
      const __int128 rnd = (op & 1) ? (__int128)1 << (right - 1) : 0;
      u64 t;
      if (op < 18) t = U ? SatU((s + rnd) >> right, bits) : (u64)((u + rnd) >> right) & M(bits);
      else t = U ? SatU((u + rnd) >> right, bits) : SatS((s + rnd) >> right, bits);
      P(r, sz, off + k, t);
    }
    v[rd] = r;
    return;
  }
  if (op == 20) {  // SSHLL, USHLL
    if (sz == 3 || scalar) Un(i);
    const int L = 8 >> sz, off = B(i, 30) ? L : 0;
    for (int k = 0; k < L; ++k) P(r, sz + 1, k, (U ? G(n, sz, off + k) : (u64)GS(n, sz, off + k)) << left);
    v[rd] = r;
    return;
  }
  const int lanes = scalar ? 1 : (q ? 16 : 8) >> sz;
  for (int k = 0; k < lanes; ++k) {
    const u64 ut = G(n, sz, k), dd = G(d, sz, k);
    const __int128 t = U ? (__int128)ut : (__int128)GS(n, sz, k);
    u64 w;
    switch (op) {
      case 0: w = (u64)(t >> right); break;
      case 2: w = dd + (u64)(t >> right); break;
      case 4: w = (u64)((t + ((__int128)1 << (right - 1))) >> right); break;
      case 6: w = dd + (u64)((t + ((__int128)1 << (right - 1))) >> right); break;
      case 8: {
        if (!U) Un(i);
        const u64 m = right == bits ? 0 : M(bits - right);
        w = (dd & ~m) | (right == bits ? 0 : ut >> right);
        break;
      }
      case 10: w = U ? (dd & M(left)) | ut << left : ut << left; break;
      case 12: if (!U) Un(i); w = SatU((__int128)GS(n, sz, k) << left, bits); break;
      case 14: w = U ? SatU(t << left, bits) : SatS(t << left, bits); break;
      case 28: {
        if (sz < 2) Un(i);
        if (sz == 3) {
          const double f = std::ldexp(U ? (double)ut : (double)(i64)ut, -right);
          memcpy(&w, &f, 8);
        } else {
          const float f = std::ldexp(U ? (float)(u32)ut : (float)(i32)ut, -right);
          u32 z;
          memcpy(&z, &f, 4);
          w = z;
        }
        break;
      }
      case 31: if (sz < 2) Un(i); w = ToInt(std::ldexp(GF(n, sz == 3, k), right), 3, U, bits); break;
      default: Un(i);
    }
    P(r, sz, k, w & M(bits));
  }
  v[rd] = r;
}

void Cpu::ByElement(u32 i, bool scalar) {
  const bool q = scalar || B(i, 30), U = B(i, 29);
  const u32 sz = F(i, 23, 22), op = F(i, 15, 12), rd = F(i, 4, 0);
  const int H = B(i, 11), L = B(i, 21), Mb = B(i, 20);
  const V n = v[F(i, 9, 5)], d = v[rd];
  V r = Zero();
  if (op == 1 || op == 5 || op == 9) {
    if (U || sz < 2) Un(i);
    const bool dbl = sz == 3;
    const int idx = dbl ? H : H << 1 | L, lanes = scalar ? 1 : dbl ? 2 : (q ? 4 : 2);
    const V m = v[Mb << 4 | F(i, 19, 16)];
    for (int k = 0; k < lanes; ++k) {
      if (dbl) r.g[k] = op == 9 ? n.g[k] * m.g[idx] : std::fma(op == 5 ? -n.g[k] : n.g[k], m.g[idx], d.g[k]);
      else r.f[k] = op == 9 ? n.f[k] * m.f[idx] : std::fma(op == 5 ? -n.f[k] : n.f[k], m.f[idx], d.f[k]);
    }
    v[rd] = r;
    return;
  }
  if (scalar || (sz != 1 && sz != 2)) Un(i);
  const int idx = sz == 1 ? H << 2 | L << 1 | Mb : H << 1 | L, bits = 8 << sz;
  const V m = v[sz == 1 ? F(i, 19, 16) : (Mb << 4 | F(i, 19, 16))];
  if ((op == 8 && !U) || (op == 0 && U) || (op == 4 && U)) {
    for (int k = 0; k < (q ? 16 : 8) >> sz; ++k) {
      const u64 p = G(n, sz, k) * G(m, sz, idx), c = G(d, sz, k);
      P(r, sz, k, (op == 8 ? p : op == 0 ? c + p : c - p) & M(bits));
    }
  } else if (op == 2 || op == 6 || op == 10) {
    const int lanes = 8 >> sz, off = B(i, 30) ? lanes : 0;
    for (int k = 0; k < lanes; ++k) {
      const u64 p = U ? G(n, sz, off + k) * G(m, sz, idx) : (u64)(GS(n, sz, off + k) * GS(m, sz, idx)), c = G(d, sz + 1, k);
      P(r, sz + 1, k, (op == 10 ? p : op == 2 ? c + p : c - p) & M(2 * bits));
    }
  } else {
    Un(i);
  }
  v[rd] = r;
}
}  // namespace a64

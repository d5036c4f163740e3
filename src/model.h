// Reference model: what the Arm NEON intrinsics specification says each intrinsic computes.
// Integer lanes are evaluated exactly in 128-bit arithmetic and then reduced or clamped.
#pragma once
#include "core.h"

enum {
  C_WRAP = 1, C_SAT = 2, C_ROUND = 4, C_NAN = 8, C_INF = 16, C_SUBN = 32, C_NEGZ = 64, C_OOR = 128,
  C_NEG = 256, C_MIX = 512, C_DISTINCT = 1024, C_IMMEDGE = 2048, C_WIDEVAL = 4096, C_TIE = 8192,
  C_CARRY = 16384, C_NBITS = 15
};
static const char *const CLS_NAMES[C_NBITS] = {
  "wraps_modulo", "saturates", "inexact_or_discards_bits", "nan", "infinity", "subnormal", "negative_zero",
  "index_out_of_table", "negative_operand", "mixed_mask_bits", "distinct_source_lanes", "immediate_at_bound",
  "operand_uses_upper_half", "tie_or_near_tie", "changes_kept_half_by_rounding_or_borrow" };
// classes that make a case non-trivial on their own
static const unsigned C_NONTRIVIAL = C_WRAP | C_SAT | C_ROUND | C_NAN | C_INF | C_SUBN | C_NEGZ | C_OOR | C_MIX |
  C_DISTINCT | C_IMMEDGE | C_WIDEVAL | C_TIE | C_CARRY;

struct Exp { u8 r[64]; u8 alt[64]; u8 mem[64]; bool hasAlt; unsigned cls; };

static inline float f32of(u64 r) { uint32_t w = (uint32_t)r; float f; memcpy(&f, &w, 4); return f; }
static inline u64 rawof(float f) { uint32_t w; memcpy(&w, &f, 4); return w; }
static inline double f64of(u64 r) { double f; memcpy(&f, &r, 8); return f; }
static inline u64 rawofd(double f) { u64 w; memcpy(&w, &f, 8); return w; }
static inline unsigned fcls(u64 r, int bits) {
  if (bits == 32) {
    uint32_t a = r & 0x7fffffffu;
    if (a > 0x7f800000u) return C_NAN; if (a == 0x7f800000u) return C_INF;
    if (a == 0) return (r >> 31) & 1 ? C_NEGZ : 0; if (a < 0x00800000u) return C_SUBN; return 0;
  }
  u64 a = r & 0x7fffffffffffffffULL;
  if (a > 0x7ff0000000000000ULL) return C_NAN; if (a == 0x7ff0000000000000ULL) return C_INF;
  if (a == 0) return r >> 63 ? C_NEGZ : 0; if (a < 0x0010000000000000ULL) return C_SUBN; return 0;
}

// Arm ARM shared/functions/float/fprecipestimate, single precision, FPCR all zero
static inline u64 m_recpe(u64 x) {
  uint32_t v = (uint32_t)x, sign = v & 0x80000000u, e = (v >> 23) & 255, f = v & 0x7fffffu;
  if (e == 255) return f ? 0x7fc00000u : sign;
  if (e == 0 && f < (1u << 21)) return sign | 0x7f800000u;     // zero, or magnitude below 2^-128
  u64 frac = (u64)f << 29; int exp = (int)e;
  if (exp == 0) {
    if (!((frac >> 51) & 1)) { exp = -1; frac = (frac << 2) & ((1ULL << 52) - 1); }
    else frac = (frac << 1) & ((1ULL << 52) - 1);
  }
  unsigned scaled = 256u | (unsigned)(frac >> 44);
  unsigned a = scaled * 2 + 1, b = (1u << 19) / a, est = (b + 1) / 2;
  int re = 253 - exp;
  u64 of = (u64)(est & 255) << 44;
  if (re == 0) of = (1ULL << 51) | (of >> 1);
  else if (re == -1) { of = (1ULL << 50) | (of >> 2); re = 0; }
  return sign | ((uint32_t)re << 23) | (uint32_t)(of >> 29);
}
static inline u64 m_cvt_if(u64 x, bool sgn, bool nearest, unsigned &cls) {
  float f = f32of(x); cls |= fcls(x, 32);
  if (f != f) return 0;
  double d = (double)f, t;
  if (nearest) {
    t = floor(d); double fr = d - t;
    if (fr > 0.5 || (fr == 0.5 && fmod(t, 2.0) != 0.0)) t += 1.0;
    if (fr == 0.5) cls |= C_TIE;
  } else t = d < 0 ? ceil(d) : floor(d);
  if (t != d) cls |= C_ROUND;
  double lo = sgn ? -2147483648.0 : 0.0, hi = sgn ? 2147483647.0 : 4294967295.0;
  if (t < lo) { cls |= C_SAT; t = lo; }
  if (t > hi) { cls |= C_SAT; t = hi; }
  return sgn ? (u64)(uint32_t)(int32_t)t : (u64)(uint32_t)t;
}

static inline i128 clampto(i128 v, const Ty &t, unsigned &cls) {
  i128 lo = t.k == 's' ? -((i128)1 << (t.bits - 1)) : 0, hi = ((i128)1 << (t.k == 's' ? t.bits - 1 : t.bits)) - 1;
  if (v < lo) { cls |= C_SAT; return lo; }
  if (v > hi) { cls |= C_SAT; return hi; }
  return v;
}
static inline bool fits(i128 v, const Ty &t) {
  i128 lo = t.k == 's' ? -((i128)1 << (t.bits - 1)) : 0, hi = ((i128)1 << (t.k == 's' ? t.bits - 1 : t.bits)) - 1;
  return v >= lo && v <= hi;
}

static void model(const Case &c, Exp &e) {
  const Op &op = OPS[c.op];
  const Ty &R = op.ret;
  unsigned cls = 0;
  const int imm = c.imm;
  e.hasAlt = false;
  memset(e.r, 0, 64);
  if (op.immArg() >= 0 && (imm == op.lo || imm == op.hi)) cls |= C_IMMEDGE;
  // distinctness of source lanes, for movement operations
  auto distinct = [&](int ai) {
    const Ty &t = op.a[ai]; int n = t.n(), d = 0;
    for (int i = 0; i < n; i++) { bool dup = false; for (int j = 0; j < i; j++) if (getraw(c.a[ai], t.eb(), i) == getraw(c.a[ai], t.eb(), j)) dup = true; d += !dup; }
    if (d * 2 > n || n == 1) cls |= C_DISTINCT;
  };
  auto half = [&](int ai) {   // some operand lane uses the upper half of its bits
    const Ty &t = op.a[ai]; int n = t.n(), eb = t.eb(), hb = t.bits / 2;
    for (int i = 0; i < n; i++) { u64 r = getraw(c.a[ai], eb, i); if (r >> hb) { cls |= C_WIDEVAL; if (t.k == 's' && (r >> (t.bits - 1))) cls |= C_NEG; break; } }
  };
  switch (op.sem) {
    // ---- memory
    case S_LD: { int n = R.nvec, L = R.lanes, eb = R.eb();
      for (int j = 0; j < n; j++) for (int i = 0; i < L; i++) putraw(e.r, eb, j * L + i, getraw(c.a[0], eb, n * i + j));
      distinct(0); break; }
    case S_LDDUP: for (int i = 0; i < R.n(); i++) putraw(e.r, R.eb(), i, getraw(c.a[0], R.eb(), 0)); cls |= C_DISTINCT; break;
    case S_LDLANE: { memcpy(e.r, c.a[1], R.bytes());
      for (int j = 0; j < R.nvec; j++) putraw(e.r, R.eb(), j * R.lanes + imm, getraw(c.a[0], R.eb(), j));
      distinct(1); break; }
    case S_ST: { const Ty &T = op.a[1]; int n = T.nvec, L = T.lanes, eb = T.eb();
      for (int j = 0; j < n; j++) for (int i = 0; i < L; i++) putraw(e.mem, eb, n * i + j, getraw(c.a[1], eb, j * L + i));
      distinct(1); break; }
    case S_STLANE: { const Ty &T = op.a[1]; for (int j = 0; j < T.nvec; j++) putraw(e.mem, T.eb(), j, getraw(c.a[1], T.eb(), j * T.lanes + imm));
      distinct(1); break; }
    // ---- movement
    case S_COMBINE: { int b = op.a[0].bytes(); memcpy(e.r, c.a[0], b); memcpy(e.r + b, c.a[1], b); distinct(0); distinct(1); break; }
    case S_GETLOW: memcpy(e.r, c.a[0], R.bytes()); distinct(0); break;
    case S_GETHIGH: memcpy(e.r, c.a[0] + R.bytes(), R.bytes()); distinct(0); break;
    case S_GETLANE: putraw(e.r, R.eb(), 0, getraw(c.a[0], R.eb(), imm)); distinct(0); break;
    case S_DUP: for (int i = 0; i < R.n(); i++) putraw(e.r, R.eb(), i, getraw(c.a[0], R.eb(), 0)); half(0); break;
    case S_REINT: memcpy(e.r, c.a[0], R.bytes()); distinct(0); break;
    case S_EXT: { int b = R.bytes(); u8 cat[128]; memcpy(cat, c.a[0], b); memcpy(cat + b, c.a[1], b);
      memcpy(e.r, cat + imm * R.eb(), b); distinct(0); distinct(1); break; }
    case S_REV16: case S_REV32: case S_REV64: {
      int w = op.sem == S_REV16 ? 2 : op.sem == S_REV32 ? 4 : 8, eb = R.eb(), g = w / eb;
      for (int i = 0; i < R.n(); i++) putraw(e.r, eb, (i / g) * g + (g - 1 - i % g), getraw(c.a[0], eb, i));
      distinct(0); break; }
    case S_TRN: case S_ZIP: case S_UZP: {
      int L = R.lanes, eb = R.eb();
      for (int j = 0; j < 2; j++) for (int i = 0; i < L; i++) {
        int s;  // index into the concatenation of both operands
        if (op.sem == S_TRN) s = (i & 1 ? L : 0) + (i & ~1) + j;
        else if (op.sem == S_ZIP) { int k = j * L + i; s = (k & 1 ? L : 0) + k / 2; }
        else s = 2 * i + j;
        putraw(e.r, eb, j * L + i, s < L ? getraw(c.a[0], eb, s) : getraw(c.a[1], eb, s - L));
      }
      distinct(0); distinct(1); break; }
    case S_TBL: { int T = op.a[0].bytes();
      for (int i = 0; i < R.n(); i++) { unsigned x = c.a[1][i]; e.r[i] = x < (unsigned)T ? c.a[0][x] : 0; if (x >= (unsigned)T) cls |= C_OOR; }
      distinct(0); break; }
    // ---- bitwise
    case S_AND: case S_ORR: case S_EOR: case S_MVN: case S_BSL: { int b = R.bytes(); bool mixd = false;
      for (int i = 0; i < b; i++) {
        u8 x = c.a[0][i], y = op.na > 1 ? c.a[1][i] : 0, z = op.na > 2 ? c.a[2][i] : 0;
        e.r[i] = op.sem == S_AND ? x & y : op.sem == S_ORR ? x | y : op.sem == S_EOR ? x ^ y : op.sem == S_MVN ? (u8)~x : (u8)((x & y) | (~x & z));
        if (x != 0 && x != 255) mixd = true;
      }
      if (mixd) cls |= C_MIX; break; }
    case S_CGT: for (int i = 0; i < R.n(); i++) { bool t = c.a[0][i] > c.a[1][i]; e.r[i] = t ? 255 : 0; } half(0); half(1); break;
    case S_CLT: for (int i = 0; i < R.n(); i++) { u64 x = getraw(c.a[0], 4, i), y = getraw(c.a[1], 4, i);
        cls |= fcls(x, 32) | fcls(y, 32); putraw(e.r, 4, i, f32of(x) < f32of(y) ? 0xffffffffu : 0); } half(0); break;
    // ---- pairwise
    case S_PADDL: for (int i = 0; i < R.n(); i++) { i128 v = geti(c.a[0], op.a[0], 2 * i) + geti(c.a[0], op.a[0], 2 * i + 1);
        if (v >> op.a[0].bits) cls |= C_WRAP; putraw(e.r, R.eb(), i, (u64)v); } half(0); break;
    case S_ADDHN_HIGH: { const Ty &N = op.a[0], &Wd = op.a[1]; int nb = N.bytes(); memcpy(e.r, c.a[0], nb); u64 m = Wd.bits == 64 ? ~0ULL : (1ULL << Wd.bits) - 1;
      for (int i = 0; i < N.n(); i++) { u64 x = getraw(c.a[1], Wd.eb(), i), y = getraw(c.a[2], Wd.eb(), i), s = (x + y) & m;
        if (!fits(geti(c.a[1], Wd, i) + geti(c.a[2], Wd, i), Wd)) cls |= C_WRAP;
        u64 lm = (1ULL << (Wd.bits / 2)) - 1; if (((x & lm) + (y & lm)) >> (Wd.bits / 2)) cls |= C_CARRY;
        putraw(e.r + nb, N.eb(), i, s >> (Wd.bits / 2)); } break; }
    // ---- float
    case S_FADD: case S_FSUB: case S_FMUL: case S_FDIV: case S_FMAX: case S_FMIN: case S_FPMAX: case S_FPMIN: case S_FMLA: case S_RECPS: {
      int b = R.bits, eb = R.eb();
      auto arg = [&](int a, int i) { return getraw(c.a[a], eb, op.a[a].t == 's' ? 0 : i); };
      for (int i = 0; i < R.n(); i++) {
        u64 x, y, z = 0, r = 0;
        if (op.sem == S_FPMAX || op.sem == S_FPMIN) { x = getraw(c.a[i], eb, 0); y = getraw(c.a[i], eb, 1); }
        else { x = arg(0, i); y = arg(1, i); if (op.na > 2) z = arg(2, i); }
        cls |= fcls(x, b) | fcls(y, b); if (op.na > 2) cls |= fcls(z, b);
        if (op.sem == S_FMAX || op.sem == S_FMIN || op.sem == S_FPMAX || op.sem == S_FPMIN) {
          bool mx = op.sem == S_FMAX || op.sem == S_FPMAX;
          if (isnan_raw(x, b) || isnan_raw(y, b)) r = 0x7fc00000u;
          else { float fx = f32of(x), fy = f32of(y);
            if (fx == fy) r = fx == 0 ? (mx ? (x & y) : (x | y)) : x;
            else r = ((fx > fy) == mx) ? x : y; }
        } else if (b == 32) {
          float fx = f32of(x), fy = f32of(y), fz = f32of(z); volatile float t;
          if (op.sem == S_FADD) { t = fx + fy; if ((double)t != (double)fx + (double)fy) cls |= C_ROUND; }
          else if (op.sem == S_FSUB) { t = fx - fy; if ((double)t != (double)fx - (double)fy) cls |= C_ROUND; }
          else if (op.sem == S_FMUL) { t = fx * fy; if ((double)t != (double)fx * (double)fy) cls |= C_ROUND; }
          else if (op.sem == S_FDIV) { t = fx / fy; if ((double)t != (double)fx / (double)fy) cls |= C_ROUND; }
          else if (op.sem == S_FMLA) { volatile float p = fy * fz; t = fx + p; float fu = fmaf(fy, fz, fx); if (fu != t) cls |= C_TIE; if ((double)p != (double)fy * fz) cls |= C_ROUND; }
          else { // RECPS
            bool iz = (std::isinf(fx) && fy == 0) || (std::isinf(fy) && fx == 0);
            if (iz) { t = 2.0f; cls |= C_INF; }
            else { volatile float p = fx * fy; t = 2.0f - p; volatile float fu = fmaf(-fx, fy, 2.0f);
              if (!e.hasAlt) { e.hasAlt = true; memcpy(e.alt, e.r, 64); }
              float g = fu; if (g != t) cls |= C_TIE; putraw(e.alt, 4, i, rawof(g)); }
            if (iz && e.hasAlt) putraw(e.alt, 4, i, rawof(2.0f));
          }
          float g = t; r = rawof(g); cls |= fcls(r, 32);
        } else {
          double fx = f64of(x), fy = f64of(y); volatile double t;
          if (op.sem == S_FADD) t = fx + fy; else if (op.sem == S_FSUB) t = fx - fy; else if (op.sem == S_FMUL) t = fx * fy; else t = fx / fy;
          long double q = op.sem == S_FSUB ? (long double)fx - fy : op.sem == S_FMUL ? (long double)fx * fy : op.sem == S_FDIV ? (long double)fx / fy : (long double)fx + fy;
          double g = t; if ((long double)g != q) cls |= C_ROUND; r = rawofd(g); cls |= fcls(r, 64);
        }
        putraw(e.r, eb, i, r);
        if (e.hasAlt && i == 0 && op.sem == S_RECPS) { /* alt lane set above */ }
      }
      break; }
    case S_RECPE: for (int i = 0; i < R.n(); i++) { u64 x = getraw(c.a[0], 4, i); u64 r = m_recpe(x); cls |= fcls(x, 32) | fcls(r, 32); if (x & 0x7fff) cls |= C_ROUND; putraw(e.r, 4, i, r); } break;
    case S_CVT_FI: for (int i = 0; i < R.n(); i++) { int32_t v = (int32_t)geti(c.a[0], op.a[0], i); float f = (float)v; if ((double)f != (double)v) cls |= C_ROUND; if (v < 0) cls |= C_NEG; if (v == INT32_MIN) cls |= C_WIDEVAL; putraw(e.r, 4, i, rawof(f)); } half(0); break;
    case S_CVT_IF: for (int i = 0; i < R.n(); i++) putraw(e.r, 4, i, m_cvt_if(getraw(c.a[0], 4, i), R.k == 's', false, cls)); break;
    case S_CVTN_IF: for (int i = 0; i < R.n(); i++) putraw(e.r, 4, i, m_cvt_if(getraw(c.a[0], 4, i), R.k == 's', true, cls)); break;
    // ---- lane-wise integer
    default: {
      const int n = R.n(), b0 = (op.fl & FL_HIGH0) ? n : 0, b1 = (op.fl & FL_HIGH1) ? n : 0;
      const Ty &A = op.a[0], &B = op.a[1], &Cc = op.a[2];
      const bool hb = op.na > 1 && B.t != 'i', hc = op.na > 2 && Cc.t != 'i';
      for (int i = 0; i < n; i++) {
        i128 x = geti(c.a[0], A, b0 + i), y = hb ? geti(c.a[1], B, B.t == 's' ? 0 : b1 + i) : 0, z = hc ? geti(c.a[2], Cc, Cc.t == 's' ? 0 : i) : 0, v = 0;
        bool wrapc = true;
        switch (op.sem) {
          case S_ADD: v = x + y; break;
          case S_SUB: v = x - y; break;
          case S_MUL: v = x * y; break;
          case S_MLA: v = x + y * z; break;
          case S_MLS: v = x - y * z; break;
          case S_MOV: v = x; break;
          case S_MAX: v = x > y ? x : y; if ((u128)x > (u128)y != (x > y)) cls |= C_NEG; break;
          case S_MIN: v = x < y ? x : y; break;
          case S_HSUB: v = (x - y) >> 1; if ((x - y) & 1) cls |= C_ROUND; if (!fits(x - y, A)) cls |= C_WRAP; break;
          case S_SUBHN: { u128 w = (u128)(x - y); w &= (((u128)1 << A.bits) - 1); v = (i128)(w >> (A.bits / 2)); wrapc = false;
            if (!fits(x - y, A)) cls |= C_WRAP; i128 m = ((i128)1 << (A.bits / 2)) - 1; if ((x & m) < (y & m)) cls |= C_CARRY; break; }
          case S_RSUBHN: { i128 d = x - y; u128 w = (u128)(d + ((i128)1 << (A.bits / 2 - 1))); w &= (((u128)1 << A.bits) - 1); v = (i128)(w >> (A.bits / 2)); wrapc = false;
            if (!fits(d, A)) cls |= C_WRAP; i128 h = ((u128)d & (((u128)1 << A.bits) - 1)) >> (A.bits / 2); if (h != v) cls |= C_CARRY; break; }
          case S_QADD: v = clampto(x + y, R, cls); break;
          case S_QSUB: v = clampto(x - y, R, cls); break;
          case S_QDMULL: v = clampto(2 * x * y, R, cls); break;
          case S_QMOV: v = clampto(x, R, cls); break;
          case S_QSHR: v = clampto(x >> imm, R, cls); if (x & (((i128)1 << imm) - 1)) cls |= C_ROUND; break;
          case S_QRSHR: v = clampto((x + ((i128)1 << (imm - 1))) >> imm, R, cls); if ((x & (((i128)1 << imm) - 1)) == ((i128)1 << (imm - 1))) cls |= C_TIE; break;
          case S_SHR: v = x >> imm; wrapc = false; if (x & (((i128)1 << imm) - 1)) cls |= C_ROUND; break;
          case S_RSHR: v = (x + ((i128)1 << (imm - 1))) >> imm; wrapc = false; if ((v << imm) > x) cls |= C_CARRY; break;
          case S_SRA: v = x + (y >> imm); if (y & (((i128)1 << imm) - 1)) cls |= C_ROUND; break;
          case S_SHL: v = x * ((i128)1 << imm); break;
          default: fprintf(stderr, "model: unhandled sem %d (%s)\n", op.sem, op.name); _exit(3);
        }
        if (x < 0 || y < 0 || z < 0) cls |= C_NEG;
        if (wrapc && !fits(v, R)) cls |= C_WRAP;
        putraw(e.r, R.eb(), i, (u64)v);
      }
      half(0); if (hb) half(1);
    }
  }
  e.cls = cls;
}

// Compares an observed outcome with the model; msg receives a description of the first difference.
static bool agrees(const Case &c, const Out &o, const Exp &e, std::string *msg) {
  const Op &op = OPS[c.op];
  if (op.ret.t) {
    const Ty &R = op.ret;
    if (memcmp(o.r, e.r, R.bytes()) != 0)
      for (int i = 0; i < R.n(); i++) {
        u64 g = getraw(o.r, R.eb(), i), w = getraw(e.r, R.eb(), i);
        if (g == w) continue;
        if (R.k == 'f' && (op.fl & FL_FP)) {
          if (isnan_raw(g, R.bits) && isnan_raw(w, R.bits)) continue;
          if (e.hasAlt) { u64 a = getraw(e.alt, R.eb(), i); if (g == a || (isnan_raw(g, R.bits) && isnan_raw(a, R.bits))) continue; }
        }
        if (msg) *msg = "lane " + std::to_string(i) + ": got " + lanes_text(o.r, R) + ", expected " + lanes_text(e.r, R);
        return false;
      }
  }
  int pa = op.ptrArg();
  if (pa >= 0) {
    const u8 *want = op.a[pa].cst ? c.a[pa] : e.mem;
    if (memcmp(o.mem, want, op.a[pa].bytes()) != 0) {
      if (msg) *msg = "memory: got " + lanes_text(o.mem, op.a[pa]) + ", expected " + lanes_text(want, op.a[pa]);
      return false;
    }
  }
  return true;
}

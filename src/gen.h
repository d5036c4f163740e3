// Structured random generator of cases.
#pragma once
#include "model.h"

struct Mined { std::vector<u64> own[NOPS]; std::vector<u64> all; };
static Mined g_mined;

// literals found in the sources under test: they only steer generation, never a verdict
static void load_mined(const char *path) {
  FILE *f = fopen(path, "r"); if (!f) return;
  char name[128]; unsigned long long v;
  while (fscanf(f, "%127s %llu", name, &v) == 2) {
    if (name[0] == '*') g_mined.all.push_back(v);
    else { int i = op_index(name); if (i >= 0) g_mined.own[i].push_back(v); }
  }
  fclose(f);
}

static u64 pick_mined(Rng &r, int op, int bits) {
  const std::vector<u64> &o = g_mined.own[op], &a = g_mined.all;
  u64 v;
  if (!o.empty() && r.chance(75)) v = o[r.below(o.size())];
  else if (!a.empty()) v = a[r.below(a.size())];
  else v = r.next();
  switch (r.below(16)) { case 0: v += 1; break; case 1: v -= 1; break; case 2: v = 0 - v; break; case 3: v = ~v; break; case 4: v <<= r.below(bits); break; case 5: v |= v << (bits / 2); break; case 6: v |= 1ULL << (bits - 1); break; }
  return v;
}

static const uint32_t F32_SPECIAL[] = {
  0x00000000, 0x80000000, 0x3f800000, 0xbf800000, 0x3f7fffff, 0x3f800001, 0x40000000, 0xc0000000, 0x3f000000, 0xbf000000,
  0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7f800001, 0xff800001, 0x7fbfffff, 0x7fffffff, 0xffffffff, 0x7fc12345,
  0x00000001, 0x80000001, 0x007fffff, 0x807fffff, 0x00800000, 0x80800000, 0x00800001, 0x7f7fffff, 0xff7fffff, 0x7f000000, 0x7effffff,
  0x00200000, 0x001fffff, 0x00200001, 0x80200000, 0x801fffff, 0x00400000, 0x003fffff, 0x80400000,
  0x4f000000, 0x4effffff, 0x4f000001, 0xcf000000, 0xcf000001, 0xceffffff, 0x4f800000, 0x4f7fffff, 0x4f800001,
  0x4b000000, 0x4b000001, 0x4affffff, 0x4afffffe, 0x4b7fffff, 0x4b800000, 0xcb000001, 0x3effffff, 0x3f000001, 0x3fc00000, 0x40200000, 0xc0200000, 0xbfc00000,
  0x3fffffff, 0x40490fdb, 0x3eaaaaab, 0x34000000, 0x33800000, 0x33800001, 0x7e800000, 0x7e7fffff, 0x7e800001, 0x7f400000 };

static u64 gen_f32(Rng &r, int cl = -1) {
  switch (cl >= 0 ? cl % 13 : (int)r.below(13)) {
    case 12: return (1u << r.below(31)) | (r.chance(30) ? 1u << r.below(31) : 0) | (r.chance(50) ? 0x80000000u : 0);     // few bits: powers of two, subnormal ones too
    case 0: case 1: return F32_SPECIAL[r.below(sizeof F32_SPECIAL / 4)];
    case 2: return (F32_SPECIAL[r.below(sizeof F32_SPECIAL / 4)] + (int)r.below(17) - 8) & 0xffffffffu;
    case 3: case 4: return (uint32_t)r.next();
    case 5: return rawof((float)((int)r.below(2001) - 1000));
    case 6: return rawof(((int)r.below(4001) - 2000) * 0.5f);
    case 7: { uint32_t m = (uint32_t)r.next(); return (m & 0x807fffffu) | ((120 + r.below(16)) << 23); }          // near 1
    case 8: { uint32_t m = (uint32_t)r.next(); return (m & 0x807fffffu) | ((127 + 18 + r.below(18)) << 23); }     // 2^18..2^36
    case 9: { uint32_t m = (uint32_t)r.next(); return (m & 0x807fffffu) | (r.below(4) << 23); }                   // tiny, subnormal
    case 10: { uint32_t m = (uint32_t)r.next(); return (m & 0x807fffffu) | ((250 + r.below(6)) << 23); }          // huge, inf, nan
    default: { uint32_t m = (uint32_t)r.next(); return (m & 0x80000000u) | (r.below(256) << 23) | (r.chance(50) ? 0 : (m & 0x7fffff) & (~0u << r.below(23))); }
  }
}
static u64 gen_f64(Rng &r, int cl = -1) {
  switch (cl >= 0 ? cl % 10 : (int)r.below(10)) {
    case 7: return (1ULL << r.below(63)) | (r.chance(30) ? 1ULL << r.below(63) : 0) | (r.chance(50) ? 1ULL << 63 : 0);
    case 8: { u64 m = r.next(); return (m & (1ULL << 63)) | ((u64)r.below(2048) << 52) | (r.chance(60) ? 0 : (m & 0xfffffffffffffULL) & (~0ULL << r.below(52))); }
    case 0: { static const u64 s[] = {0, 1ULL << 63, 0x3ff0000000000000ULL, 0xbff0000000000000ULL, 0x7ff0000000000000ULL, 0xfff0000000000000ULL, 0x7ff8000000000000ULL, 0x7ff0000000000001ULL, 1, 0x000fffffffffffffULL, 0x0010000000000000ULL, 0x7fefffffffffffffULL, 0x3fefffffffffffffULL, 0x3ff0000000000001ULL, 0x4008000000000000ULL, 0x3fd5555555555555ULL};
      return s[r.below(16)] ^ (r.chance(20) ? r.below(8) : 0); }
    case 1: case 2: return r.next();
    case 3: return rawofd((double)((int)r.below(2001) - 1000));
    case 4: return (r.next() & 0x800fffffffffffffULL) | ((u64)(1015 + r.below(16)) << 52);
    case 5: return (r.next() & 0x800fffffffffffffULL) | ((u64)(r.below(3)) << 52);
    case 6: return rawofd((double)f32of(gen_f32(r)));
    default: return (r.next() & 0x800fffffffffffffULL) | ((u64)(r.chance(50) ? 2040 + r.below(8) : r.below(2048)) << 52);
  }
}
static u64 gen_lane(Rng &r, char k, int bits, int op, int cl = -1) {
  if (!g_mined.all.empty() && r.chance(9)) {
    u64 v = pick_mined(r, op, bits);
    if (k == 'f' && r.chance(60)) return bits == 32 ? rawof((float)(int64_t)v) : rawofd((double)(int64_t)v);
    return v;
  }
  if (k == 'f') return bits == 32 ? gen_f32(r, cl) : gen_f64(r, cl);
  const u64 one = 1;
  switch (cl >= 0 ? cl % 11 : (int)r.below(11)) {
    case 0: case 1: case 2: return r.next();
    case 3: { static const int64_t b[] = {0, 1, -1, 2, -2, 3, -3, 7, 8, 127, 128, 129, 255, 256, -127, -128, -129, 32767, 32768, 65535, 65536, -32768, -32769, 0x7fffffff, 0x80000000LL, 0xffffffffLL, 0x100000000LL, -0x80000000LL, -0x80000001LL};
      return (u64)b[r.below(sizeof b / sizeof b[0])]; }
    case 4: { u64 v = one << r.below(bits); return r.chance(50) ? v : 0 - v; }
    case 5: { u64 v = (one << r.below(bits)) + (u64)(int64_t)((int)r.below(5) - 2); return r.chance(50) ? v : 0 - v; }
    case 6: { static const u64 top[] = {0, 1, 2, ~0ULL, ~1ULL}; return (one << (bits - 1)) + top[r.below(5)]; }   // sign boundary
    case 7: { u64 v = r.next() >> (64 - 1 - r.below(bits)); return r.chance(50) ? v : 0 - v; }                      // random magnitude
    case 8: return (u64)(int64_t)((int)r.below(33) - 16);
    case 9: { u64 lo = r.chance(50) ? r.below(4) : (u64)0 - r.below(4); return (r.next() << (bits / 2)) + lo + (r.chance(50) ? one << (bits / 2 - 1) : 0); }  // near a half-width boundary
    default: return (u8)r.next() * 0x0101010101010101ULL;
  }
}
static void gen_arg(Rng &r, Case &c, int ai) {
  const Op &op = OPS[c.op]; const Ty &t = op.a[ai];
  u8 *p = c.a[ai]; const int n = t.n(), eb = t.eb();
  if (op.sem == S_TBL && ai == 1) {
    int T = op.a[0].bytes();
    switch (r.below(10)) {      // indices that form a pattern
      case 3: {     // a permutation (often near the identity or an interleave), within the table
        int b = r.chance(60) ? 0 : (int)r.below(T); u8 q[16]; const int how = r.below(4);
        for (int i = 0; i < n; i++) q[i] = how == 0 ? i : how == 1 ? n - 1 - i : how == 2 ? (i % 2) * (n / 2) + i / 2 : (2 * i) % T + (2 * i) / T;
        for (int k = r.below(how ? 3 : 10); k > 0; k--) std::swap(q[r.below(n)], q[r.below(n)]);
        for (int i = 0; i < n; i++) p[i] = (u8)(b + q[i]);
        if (r.chance(25)) p[r.below(n)] = r.chance(50) ? (u8)r.next() : T; return; }
      case 0: { int b = (int)r.below(T + 12) - 6, st = r.chance(60) ? 1 : r.chance(60) ? -1 : (int)r.below(9) - 4; for (int i = 0; i < n; i++) p[i] = (u8)(b + st * i); return; }
      case 1: { u8 b = r.chance(70) ? r.below(T + 3) : (u8)r.next(); memset(p, b, n); if (r.chance(40)) p[r.below(n)] = (u8)r.next(); return; }
      case 2: { u8 b = r.below(T); for (int i = 0; i < n; i++) p[i] = r.chance(85) ? (u8)(b ^ i) : (u8)r.next(); return; }
    }
    for (int i = 0; i < n; i++) p[i] = r.chance(65) ? r.below(T + 3) : (u8)r.next();
    return;
  }
  if (t.nvec > 1 && r.chance(14)) {      // registers that are equal, or equal up to one lane or a permutation
    const int ln = t.lanes; const int how = r.below(3);
    for (int i = 0; i < ln; i++) { u64 v = gen_lane(r, t.k, t.bits, c.op); for (int v2 = 0; v2 < t.nvec; v2++) putraw(p, eb, v2 * ln + (how == 1 ? (i + v2) % ln : how == 2 && v2 == 1 ? ln - 1 - i : i), v); }
    if (r.chance(40)) putraw(p, eb, r.below(n), gen_lane(r, t.k, t.bits, c.op));
    return;
  }
  switch (r.below(22)) {
    case 18: {      // sorted up, down, or up and down
      for (int i = 0; i < n; i++) putraw(p, eb, i, gen_lane(r, t.k, t.bits, c.op));
      const int how = r.below(3); const bool sg = t.k == 's' || (t.k == 'u' && r.chance(20));
      auto less = [&](u64 x, u64 y) { if (t.k == 'f') { const u64 top = 1ULL << (t.bits - 1); x = x & top ? ~x & (top | (top - 1)) : x | top; y = y & top ? ~y & (top | (top - 1)) : y | top; return x < y; } return sg ? toint(x, t.bits, true) < toint(y, t.bits, true) : x < y; };
      u64 v[64]; for (int i = 0; i < n; i++) v[i] = getraw(p, eb, i);
      std::sort(v, v + n, less); if (how == 1) std::reverse(v, v + n); if (how == 2) std::reverse(v + n / 2, v + n);
      for (int i = 0; i < n; i++) putraw(p, eb, i, v[i]); return; }
    case 19: {      // small consecutive numbers, in order or shuffled
      const int b = r.chance(60) ? 0 : r.chance(50) ? 1 : (int)r.below(256) - 128; u8 q[64]; for (int i = 0; i < n; i++) q[i] = i;
      const int sw = r.chance(40) ? 0 : r.chance(50) ? 1 + r.below(2) : 2 * n; for (int k = 0; k < sw; k++) std::swap(q[r.below(n)], q[r.below(n)]);
      for (int i = 0; i < n; i++) putraw(p, eb, i, t.k != 'f' ? (u64)(int64_t)(b + q[i]) : t.bits == 32 ? rawof((float)(b + q[i])) : rawofd((double)(b + q[i]))); return; }
    case 20: {      // periodic
      const int per = 1 + (int)r.below(4); u64 v[4]; for (int i = 0; i < per; i++) v[i] = gen_lane(r, t.k, t.bits, c.op);
      for (int i = 0; i < n; i++) putraw(p, eb, i, v[i % per]); if (r.chance(30)) putraw(p, eb, r.below(n), gen_lane(r, t.k, t.bits, c.op)); return; }
    case 21: if (t.k == 'f') {      // evenly spaced numbers
      const double b = t.bits == 32 ? f32of(gen_lane(r, t.k, t.bits, c.op)) : f64of(gen_lane(r, t.k, t.bits, c.op)), st = r.chance(50) ? 1 : r.chance(50) ? 0.5 : (double)((int)r.below(41) - 20) / 8;
      for (int i = 0; i < n; i++) putraw(p, eb, i, t.bits == 32 ? rawof((float)(b + st * i)) : rawofd(b + st * i)); return; }
      else {      // groups: the memory or registers of equal neighbouring lanes
      const int g = 2 + (int)r.below(3); u64 v = 0; for (int i = 0; i < n; i++) { if (i % g == 0) v = gen_lane(r, t.k, t.bits, c.op); putraw(p, eb, i, v); } if (r.chance(30)) putraw(p, eb, r.below(n), gen_lane(r, t.k, t.bits, c.op)); return; }
    case 14: { int cl = r.below(143); for (int i = 0; i < n; i++) putraw(p, eb, i, gen_lane(r, t.k, t.bits, c.op, cl)); return; }      // all lanes of one kind
    case 15: { u64 b = gen_lane(r, t.k, t.bits, c.op); int st = (int)r.below(9) - 4; for (int i = 0; i < n; i++) putraw(p, eb, i, b + (u64)(int64_t)(st * i)); return; }
    case 16: { for (int i = 0; i < n; i++) putraw(p, eb, i, i < n / 2 ? gen_lane(r, t.k, t.bits, c.op) : getraw(p, eb, n - 1 - i)); return; }       // palindrome
    case 17: { int cl = r.below(143), cl2 = r.below(143); u64 sel = r.next(); for (int i = 0; i < n; i++) putraw(p, eb, i, gen_lane(r, t.k, t.bits, c.op, sel >> (i & 63) & 1 ? cl : cl2)); return; }
    case 0: { u64 v = gen_lane(r, t.k, t.bits, c.op); for (int i = 0; i < n; i++) putraw(p, eb, i, v); return; }
    case 1: { memset(p, 0, n * eb); putraw(p, eb, r.below(n), gen_lane(r, t.k, t.bits, c.op)); return; }
    case 2: { u64 b = r.chance(30) ? r.below(2) : r.next() & 0xffff, s = r.chance(70) ? 1 : r.next() & 0xff; for (int i = 0; i < n; i++) putraw(p, eb, i, b + s * i); return; }
    case 3: { u64 a = gen_lane(r, t.k, t.bits, c.op), b = gen_lane(r, t.k, t.bits, c.op); for (int i = 0; i < n; i++) putraw(p, eb, i, r.chance(50) ? a : b); return; }
    case 4: { for (int i = 0; i < n; i++) putraw(p, eb, i, r.next()); return; }
    case 5: { for (int i = 0; i < n; i++) putraw(p, eb, i, gen_lane(r, t.k, t.bits, c.op)); if (n > 1) { for (int i = 0; i < n / 2; i++) putraw(p, eb, n / 2 + i, getraw(p, eb, i)); } return; }
    default: for (int i = 0; i < n; i++) putraw(p, eb, i, gen_lane(r, t.k, t.bits, c.op));
  }
}
// relations between lanes of one vector: neighbours, halves, sums over all lanes
static void relate_lanes(Rng &r, const Ty &t, u8 *p, int op) {
  const int n = t.n(), eb = t.eb();
  if (n < 2) return;
  const int mode = r.below(8), d = r.chance(70) ? 1 : 1 + (int)r.below(n - 1); const bool every = r.chance(30);
  if (mode == 7 && t.k != 'f') {       // the lanes sum to something special
    u64 sum = 0; int q = r.below(n); for (int i = 0; i < n; i++) if (i != q) sum += getraw(p, eb, i);
    u64 T = r.chance(40) ? 0 : r.chance(60) ? gen_lane(r, t.k, t.bits, op) : 1ULL << r.below(t.bits); putraw(p, eb, q, T - sum); return; }
  const int step = r.chance(50) ? 2 : 1;
  for (int i = d; i < n; i += step) {
    if (!every && r.chance(50)) continue;
    u64 x = getraw(p, eb, i - d), v;
    switch (mode) {
      case 0: v = x; break;
      case 1: v = t.k == 'f' ? x ^ (1ULL << (t.bits - 1)) : 0 - x; break;
      case 2: v = ~x; break;
      case 3: v = x + 1; break;
      case 4: v = x - 1; break;
      case 5: { u64 T = r.chance(50) ? 1ULL << (t.bits - 1) : 1ULL << r.below(t.bits); v = T - x + (u64)(int64_t)((int)r.below(3) - 1); break; }
      default: v = r.chance(50) ? x << 1 : x >> 1;
    }
    putraw(p, eb, i, v);
  }
}
// make some lanes of argument ai related to an earlier argument, so that results land on boundaries
static void relate(Rng &r, Case &c, int ai) {
  const Op &op = OPS[c.op]; const Ty &t = op.a[ai];
  if (t.t == 'i' || t.t == 'p' || op.sem == S_TBL) return;
  for (int j = ai - 1; j >= 0; j--) {
    const Ty &s = op.a[j];
    if (s.t != 'v' && s.t != 's') continue;
    if (s.bits == t.bits && s.n() == t.n() && r.chance(18)) {  // whole-vector copies
      memcpy(c.a[ai], c.a[j], t.bytes());
      if (r.chance(30) && t.n() > 1) {      // the same lanes in another order
        const int n = t.n(), how = r.below(4), k = 1 + (int)r.below(n - 1);
        for (int i = 0; i < n; i++) putraw(c.a[ai], t.eb(), i, getraw(c.a[j], t.eb(), how == 0 ? n - 1 - i : how == 1 ? (i + k) % n : how == 2 ? i ^ (n / 2) : i ^ 1));
        return;
      }
      if (r.chance(50)) { int i = r.below(t.n()); putraw(c.a[ai], t.eb(), i, getraw(c.a[ai], t.eb(), i) + (r.chance(50) ? 1 : -1)); }
      return;
    }
    if (!r.chance(30)) continue;
    int off0 = (op.fl & FL_HIGH0) && j == 0 ? op.ret.n() : 0, off1 = (op.fl & FL_HIGH1) && ai == 1 ? op.ret.n() : 0;
    int mode = r.below(12); const bool every = r.chance(35);
    for (int i = 0; i < t.n(); i++) {
      if (!every && r.chance(30)) continue;
      int si = s.t == 's' ? 0 : (i - off1 + off0); if (si < 0 || si >= s.n()) continue;
      u64 x = getraw(c.a[j], s.eb(), si), v;
      if (t.k == 'f') {
        if (t.bits == 32) { float fx = f32of(x), q;
          switch (mode) {
            case 0: v = x ^ 0x80000000u; break;
            case 1: v = x + (int)r.below(5) - 2; break;
            case 2: q = 1.0f / fx; v = rawof(q) + (int)r.below(5) - 2; break;
            case 3: q = 3.40282347e38f / fx; v = rawof(q) + (int)r.below(5) - 2; break;
            case 4: q = 1.17549435e-38f / fx; v = rawof(q) + (int)r.below(5) - 2; break;
            case 5: v = (x ^ 0x80000000u) + (int)r.below(3) - 1; break;
            case 6: { int e = (int)((x >> 23) & 255) - 22 - (int)r.below(4); if (e < 1) e = 1; v = ((u64)e << 23) | (r.next() & 0x80000000u) | (r.chance(30) ? 1 : 0); break; }   // half an ulp of x
            case 7: q = fx * (float)(1 + r.below(16)) / (r.chance(50) ? 1.0f : 8.0f); v = rawof(q); break;
            case 8: q = (r.chance(50) ? 16777216.0f : 8388608.0f) - fx; v = rawof(q); break;
            default: { int d = (int)r.below(60) - 30; int e = (int)((x >> 23) & 255) + d; if (e < 0) e = 0; if (e > 255) e = 255; v = ((u64)e << 23) | (r.next() & 0x807fffffu); }
          }
        } else { double fx = f64of(x);
          switch (mode) { case 0: v = x ^ (1ULL << 63); break; case 1: v = x + (int)r.below(5) - 2; break; case 2: v = rawofd(1.0 / fx); break; case 3: v = rawofd(1.79769313486231570e308 / fx) + (int)r.below(5) - 2; break; default: { int e = (int)((x >> 52) & 2047) + (int)r.below(120) - 60; if (e < 0) e = 0; if (e > 2047) e = 2047; v = ((u64)e << 52) | (r.next() & 0x800fffffffffffffULL); } } }
      } else {
        i128 xi = toint(x, s.bits, s.k == 's'); int tb = op.ret.t ? op.ret.bits : t.bits; if (r.chance(40)) tb = t.bits;
        i128 T; switch (r.below(6)) { case 5: T = g_mined.all.empty() ? 1 : (i128)(int64_t)pick_mined(r, c.op, t.bits); break; case 0: T = ((i128)1 << (tb - 1)); break; case 1: T = ((i128)1 << tb); break; case 2: T = -((i128)1 << (tb - 1)); break; case 3: T = 0; break; default: T = ((i128)1 << r.below(tb)); }
        T += (int)r.below(5) - 2; if (tb < t.bits && r.chance(30)) T += (i128)(int64_t)(r.next() << tb);
        switch (mode) {
          case 0: v = (u64)(T - xi); break;
          case 1: v = (u64)(xi - T); break;
          case 2: v = xi ? (u64)(T / xi) + (int)r.below(3) - 1 : r.next(); break;
          case 3: v = ~x; break;
          case 4: v = 0 - x; break;
          case 5: v = x + (int)r.below(5) - 2; break;
          case 7: v = x ^ (u64)T; break;
          case 9: { int k = 1 + r.below(s.bits > 1 ? s.bits - 1 : 1); v = r.chance(40) ? x << k : r.chance(50) ? (u64)(xi >> k) : x * (2 + r.below(30)); break; }
          case 10: v = s.bits == 64 ? __builtin_bswap64(x) : s.bits == 32 ? __builtin_bswap32((uint32_t)x) : s.bits == 16 ? __builtin_bswap16((uint16_t)x) : (u64)((x << 4) | (x >> 4)); break;
          case 11: { u64 b = 1ULL << r.below(s.bits); v = r.chance(50) ? x & ~b : x ^ b ^ (1ULL << r.below(s.bits)); break; }
          case 8: v = s.bits < 64 ? (x << (s.bits / 2)) | (x >> (s.bits / 2)) : x << 32 | x >> 32; break;   // halves swapped
          default: v = (u64)(T + xi);
        }
      }
      putraw(c.a[ai], t.eb(), i, v);
    }
    return;
  }
}
static void gen_case(Rng &r, int opi, Case &c) {
  memset(&c, 0, sizeof c);
  c.op = opi;
  const Op &op = OPS[opi];
  for (int i = 0; i < op.na; i++) if (op.a[i].t != 'i') gen_arg(r, c, i);
  if (r.chance(12)) for (int i = 0; i < op.na; i++) if (op.a[i].t != 'i' && op.a[i].t != 's' && !(op.sem == S_TBL && i == 1) && r.chance(60)) relate_lanes(r, op.a[i], c.a[i], opi);
  for (int i = 1; i < op.na; i++) relate(r, c, i);
  // make a float accumulate cancel against the product
  if (op.sem == S_FMLA && r.chance(30))
    for (int i = 0; i < op.ret.n(); i++) if (r.chance(70)) {
      float y = f32of(getraw(c.a[1], 4, i)), z = f32of(getraw(c.a[2], 4, op.a[2].t == 's' ? 0 : i)); volatile float p = y * z; float q = -p;
      putraw(c.a[0], 4, i, rawof(q) + (r.chance(50) ? 0 : (int)r.below(5) - 2)); }
  // integer accumulate: results at or near zero and the bounds of the type
  if ((op.sem == S_MLA || op.sem == S_MLS) && op.ret.k != 'f' && r.chance(30))
    for (int i = 0; i < op.ret.n(); i++) if (r.chance(70)) {
      const Ty &y = op.a[1], &z = op.a[2];
      i128 pr = toint(getraw(c.a[1], y.eb(), i), y.bits, y.k == 's') * toint(getraw(c.a[2], z.eb(), z.t == 's' ? 0 : i), z.bits, z.k == 's');
      i128 T = r.chance(50) ? 0 : (i128)1 << (op.ret.bits - (r.chance(50) ? 1 : 0)); T += (int)r.below(5) - 2;
      putraw(c.a[0], op.ret.eb(), i, (u64)(op.sem == S_MLS ? T + pr : T - pr));
    }
  if (op.immArg() >= 0) c.imm = op.lo + (int)r.below(op.hi - op.lo + 1);
  if (op.immArg() >= 0 && c.imm > 0 && op.ret.t == 'v' && op.ret.k != 'f' && (op.sem == S_SHR || op.sem == S_RSHR || op.sem == S_QSHR || op.sem == S_QRSHR || op.sem == S_SRA || op.sem == S_SHL) && r.chance(60)) {
    int ai = op.sem == S_SRA ? 1 : 0; const Ty &t = op.a[ai]; const Ty &R = op.ret;
    for (int i = 0; i < t.n(); i++) if (r.chance(60)) {   // near rounding ties and near the bounds of the result
      u64 hb = r.chance(50) ? 1ULL << (R.bits - 1) : R.bits == 64 ? 0 : 1ULL << R.bits, v;
      switch (r.below(4)) { case 0: v = hb << c.imm; break; case 1: v = 0 - (hb << c.imm); break; case 2: v = r.next() << c.imm; break; default: v = ((u64)(int64_t)((int)r.below(7) - 3)) << c.imm; }
      if (c.imm < 64 && r.chance(50)) v += 1ULL << (c.imm - 1);
      putraw(c.a[ai], t.eb(), i, v + (u64)(int64_t)((int)r.below(3) - 1));
    }
  }
  if (op.sem == S_SRA && c.imm > 0 && r.chance(30))
    for (int i = 0; i < op.ret.n(); i++) if (r.chance(70)) { i128 x = geti(c.a[1], op.a[1], i) >> c.imm, T = r.chance(50) ? 0 : (i128)1 << (op.ret.bits - (r.chance(50) ? 1 : 0)); putraw(c.a[0], op.ret.eb(), i, (u64)(T + ((int)r.below(5) - 2) - x)); }
  if (op.immArg() >= 0 && r.chance(6)) for (int i = 0; i < op.na; i++) if (op.a[i].t == 'v' && op.a[i].k != 'f')     // lanes equal to the immediate
    for (int q = 0; q < op.a[i].n(); q++) if (r.chance(50)) putraw(c.a[i], op.a[i].eb(), q, (u64)(int64_t)(c.imm + (int)r.below(3) - 1));
  if (op.ptrArg() >= 0) { c.place = r.below(3); c.off = r.below(4096 * 2); }
}

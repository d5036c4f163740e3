// User kernels (kernels_user.cpp) against independently written scalar references.
#pragma once
typedef void (*kfn)(const u8 *in, u8 *out, int n, const u8 *par);
static const kfn *g_kernels = 0;
struct KCtx { const u8 *in; u8 *out; int n; const u8 *par;
  template <class T> T i(size_t k) const { T v; memcpy(&v, in + k * sizeof(T), sizeof(T)); return v; }
  template <class T> T p(size_t k) const { T v; memcpy(&v, par + k * sizeof(T), sizeof(T)); return v; }
  template <class T> void o(size_t k, T v) const { memcpy(out + k * sizeof(T), &v, sizeof(T)); } };
struct KDef {
  const char *name; int nmin, nmax, step;
  std::function<int(int, const u8 *)> insz, outsz;
  int style;                     // content: 0 bytes, 1 s16, 2 s32, 4 f32, 5 small byte indices
  int fout;                      // output lanes compared as floats (any NaN equals any NaN)
  std::function<void(const KCtx &)> ref, ref2;   // ref2: alternative allowed rounding
};
static std::vector<KDef> kernel_defs() {
  std::vector<KDef> K; typedef std::function<void(const KCtx &)> Rf; typedef std::function<int(int, const u8 *)> Sz;
  auto lin = [](int m, int c = 0) { return Sz([=](int n, const u8 *) { return m * n + c; }); };
  auto con = [](int v) { return Sz([=](int, const u8 *) { return v; }); };
  auto add = [&](const char *nm, int a, int b, int st, Sz in, Sz out, int style, int fout, Rf r, Rf r2 = Rf()) { K.push_back({nm, a, b, st, in, out, style, fout, r, r2}); };
  auto clamp = [](long long v, long long l, long long h) { return v < l ? l : v > h ? h : v; };
  add("gray", 0, 70, 1, lin(3), lin(1), 0, 0, [](const KCtx &c) { for (int i = 0; i < c.n; i++) { unsigned s = 29u * c.in[3 * i] + 150u * c.in[3 * i + 1] + 77u * c.in[3 * i + 2]; c.out[i] = (u8)(s / 256); } });
  add("swaprb", 0, 70, 1, lin(3), lin(3), 0, 0, [](const KCtx &c) { for (int i = 0; i < 3 * c.n; i++) c.out[i] = c.in[i - i % 3 + 2 - i % 3]; });
  add("rgba2argb", 0, 40, 1, lin(4), lin(4), 0, 0, [](const KCtx &c) { for (int i = 0; i < 4 * c.n; i++) c.out[i] = c.in[(i & ~3) | ((i + 3) & 3)]; });
  add("premul", 0, 40, 1, lin(4), lin(4), 0, 0, [](const KCtx &c) { for (int i = 0; i < 4 * c.n; i++) { unsigned al = c.in[i | 3]; c.out[i] = (i & 3) == 3 ? (u8)al : (u8)((c.in[i] * al + 128u) / 256u); } });
  add("blend", 0, 70, 1, lin(2), lin(1), 0, 0, [](const KCtx &c) { for (int i = 0; i < c.n; i++) { unsigned w = c.par[0]; c.out[i] = (u8)((c.in[i] * w + c.in[c.n + i] * (255u - w) + 128u) / 256u); } });
  add("bright", 0, 70, 1, lin(1), lin(1), 0, 0, [=](const KCtx &c) { for (int i = 0; i < c.n; i++) c.out[i] = (u8)clamp(clamp((int)c.in[i] + c.par[0], 0, 255) - c.par[1], 0, 255); });
  add("threshold", 0, 70, 1, lin(1), lin(1), 0, 0, [](const KCtx &c) { for (int i = 0; i < c.n; i++) { bool g = c.in[i] > c.par[0]; c.out[i] = g ? c.par[1] : c.par[2]; } });
  add("box3", 0, 70, 1, lin(1), lin(1), 0, 0, [](const KCtx &c) { for (int i = 0; i < c.n; i++) if (i == 0 || i == c.n - 1) c.out[i] = c.in[i]; else { unsigned s = (unsigned)c.in[i - 1] + c.in[i] + c.in[i + 1]; c.out[i] = (u8)((s * 85u + 128u) / 256u); } });
  add("transpose4x4", 0, 6, 1, lin(32), lin(32), 1, 0, [](const KCtx &c) { for (int k = 0; k < c.n; k++) for (int r = 0; r < 4; r++) for (int q = 0; q < 4; q++) c.o<uint16_t>(16 * k + 4 * r + q, c.i<uint16_t>(16 * k + 4 * q + r)); });
  add("transpose8x8", 0, 5, 1, lin(64), lin(64), 0, 0, [](const KCtx &c) { for (int k = 0; k < c.n; k++) for (int r = 0; r < 8; r++) for (int q = 0; q < 8; q++) c.out[64 * k + 8 * r + q] = c.in[64 * k + 8 * q + r]; });
  add("lut32", 0, 70, 1, lin(1), lin(1), 5, 0, [](const KCtx &c) { for (int i = 0; i < c.n; i++) c.out[i] = c.in[i] <= 31 ? c.par[c.in[i]] : 0; });
  add("lut16", 0, 70, 1, lin(1), lin(1), 0, 0, [](const KCtx &c) { for (int i = 0; i < c.n; i++) c.out[i] = c.par[c.in[i] % 16] ^ c.par[c.in[i] / 16]; });
  add("rgb565", 0, 50, 1, lin(3), lin(2), 0, 0, [](const KCtx &c) { for (int i = 0; i < c.n; i++) { unsigned r = c.in[3 * i] / 8, g = c.in[3 * i + 1] / 4, b = c.in[3 * i + 2] / 8; c.o<uint16_t>(i, (uint16_t)(r * 2048 + g * 32 + b)); } });
  add("dot16", 0, 50, 1, lin(4), con(4), 1, 0, [](const KCtx &c) { int64_t s = 0; for (int i = 0; i < c.n; i++) s += (int64_t)c.i<int16_t>(i) * c.i<int16_t>(c.n + i); c.o<uint32_t>(0, (uint32_t)s); });
  add("dot8", 0, 70, 1, lin(2), con(4), 0, 0, [](const KCtx &c) { int64_t s = 0; for (int i = 0; i < c.n; i++) s += c.i<int8_t>(i) * c.i<int8_t>(c.n + i); c.o<uint32_t>(0, (uint32_t)s); });
  add("saxpy", 0, 40, 1, lin(8), lin(4), 4, 1, [](const KCtx &c) { for (int i = 0; i < c.n; i++) { volatile float p = c.i<float>(i) * c.p<float>(0); volatile float s = c.i<float>(c.n + i) + p; c.o<float>(i, s); } });
  add("poly", 0, 40, 1, lin(4), lin(4), 4, 1, [](const KCtx &c) { for (int i = 0; i < c.n; i++) { volatile float r = c.p<float>(0); for (int k = 1; k < 4; k++) { volatile float p = r * c.i<float>(i); r = c.p<float>(k) + p; } c.o<float>(i, r); } });
  auto newton = [](const KCtx &c, bool fused) { for (int i = 0; i < c.n; i++) { float d = c.i<float>(c.n + i); uint32_t w; memcpy(&w, &d, 4); volatile float r = f32of(m_recpe(w));
      for (int k = 0; k < 2; k++) { volatile float s; if ((std::isinf(d) && r == 0) || (std::isinf((float)r) && d == 0)) s = 2.0f; else if (fused) s = fmaf(-d, r, 2.0f); else { volatile float p = d * r; s = 2.0f - p; } r = s * r; }
      volatile float q = c.i<float>(i) * r; c.o<float>(i, q); } };
  add("newton", 0, 40, 4, lin(8), lin(4), 4, 1, [=](const KCtx &c) { newton(c, false); }, [=](const KCtx &c) { newton(c, true); });
  add("f2u8", 0, 40, 8, lin(4), lin(1), 4, 0, [](const KCtx &c) { for (int i = 0; i < c.n; i++) { float f = c.i<float>(i); c.out[i] = !(f > 0) ? 0 : f >= 255.0f ? 255 : (u8)(int)f; } });
  add("f2s16", 0, 40, 4, lin(4), lin(2), 4, 0, [](const KCtx &c) { for (int i = 0; i < c.n; i++) { float f = c.i<float>(i); int v; if (f != f) v = 0; else if (f >= 32767.0f) v = 32767; else if (f <= -32768.0f) v = -32768; else { double fl = floor((double)f), fr = (double)f - fl; v = (int)fl; if (fr > 0.5 || (fr == 0.5 && (v & 1))) v++; } c.o<int16_t>(i, (int16_t)v); } });
  add("q15", 0, 50, 1, lin(4), lin(2), 1, 0, [=](const KCtx &c) { for (int i = 0; i < c.n; i++) { long long p = clamp(2LL * c.i<int16_t>(i) * c.i<int16_t>(c.n + i), INT32_MIN, INT32_MAX); c.o<int16_t>(i, (int16_t)((p - (((p % 65536) + 65536) % 65536)) / 65536)); } });
  add("q31", 0, 40, 1, lin(8), lin(4), 2, 0, [=](const KCtx &c) { for (int i = 0; i < c.n; i++) { i128 p = (i128)c.i<int32_t>(i) * c.i<int32_t>(c.n + i); i128 q = p / (1LL << 31); if (q * (1LL << 31) > p) q--; c.o<int32_t>(i, (int32_t)clamp((long long)q, INT32_MIN, INT32_MAX)); } });
  add("sum8", 0, 100, 1, lin(1), con(4), 0, 0, [](const KCtx &c) { uint32_t s = 0; for (int i = 0; i < c.n; i++) s += c.in[i]; c.o<uint32_t>(0, s); });
  add("absdiff", 0, 70, 1, lin(2), lin(1), 0, 0, [](const KCtx &c) { for (int i = 0; i < c.n; i++) c.out[i] = (u8)std::abs((int)c.in[i] - (int)c.in[c.n + i]); });
  add("fmax", 4, 40, 4, lin(4), con(8), 4, 1, [](const KCtx &c) { float M = c.i<float>(0), m = M; bool nan = M != M; for (int i = 1; i < c.n; i++) { float f = c.i<float>(i); if (f != f) nan = true; if (f > M || (f == 0 && M == 0 && !std::signbit(f))) M = f; if (f < m || (f == 0 && m == 0 && std::signbit(f))) m = f; } if (nan) M = m = NAN; c.o<float>(0, M); c.o<float>(1, m); });
  add("stereo", 0, 40, 1, lin(4), lin(4), 1, 0, [](const KCtx &c) { for (int i = 0; i < c.n; i++) { int l = c.i<int16_t>(2 * i), r = c.i<int16_t>(2 * i + 1); c.o<int16_t>(2 * i, (int16_t)r); int d = l - r; c.o<int16_t>(2 * i + 1, (int16_t)((d - (d & 1)) / 2)); } });
  add("reverse8", 0, 70, 1, lin(1), lin(1), 0, 0, [](const KCtx &c) { for (int i = 0; i < c.n; i++) c.out[i] = c.in[c.n - 1 - i]; });
  add("bswap16", 0, 40, 1, lin(2), lin(2), 0, 0, [](const KCtx &c) { for (int i = 0; i < 2 * c.n; i++) c.out[i] = c.in[i ^ 1]; });
  add("bswap32", 0, 40, 1, lin(4), lin(4), 0, 0, [](const KCtx &c) { for (int i = 0; i < 4 * c.n; i++) c.out[i] = c.in[i ^ 3]; });
  add("iir", 0, 24, 1, lin(16), lin(16), 2, 0, [](const KCtx &c) { int32_t y[4] = {0, 0, 0, 0}; for (int i = 0; i < 4 * c.n; i++) { int32_t d = (int32_t)((uint32_t)c.i<int32_t>(i) - (uint32_t)y[i & 3]); int64_t q = ((int64_t)d - (((int64_t)d % 8 + 8) % 8)) / 8; y[i & 3] = (int32_t)((uint32_t)y[i & 3] + (uint32_t)q); c.o<int32_t>(i, y[i & 3]); } });
  add("soa", 0, 32, 4, lin(16), lin(16), 4, 0, [](const KCtx &c) { for (int i = 0; i < c.n; i++) for (int k = 0; k < 4; k++) c.o<uint32_t>(4 * i + k, c.i<uint32_t>(k * c.n + i)); });
  add("gather", 0, 50, 1, [](int n, const u8 *p) { return n ? (1 + (p[0] & 7)) * (n - 1) + 1 : 0; }, lin(1), 0, 0, [](const KCtx &c) { for (int i = 0; i < c.n; i++) c.out[i] = c.in[i * (1 + (c.par[0] & 7))]; });
  add("hnadd", 0, 40, 8, lin(4), lin(2), 2, 0, [](const KCtx &c) { for (int i = 0; i < c.n; i++) { int b = i & ~7, k = i & 3; uint32_t x = c.i<uint32_t>(b + k), y = c.i<uint32_t>(b + 4 + k), s = (i & 4) ? x + y : x - y; c.o<uint16_t>(i, (uint16_t)(s / 65536u)); } });
  add("mask", 0, 70, 1, lin(2), lin(1), 0, 0, [](const KCtx &c) { for (int i = 0; i < c.n; i++) { u8 m = c.par[i % 16], r = 0; for (int b = 0; b < 8; b++) if (((m >> b & 1) ? c.in[i] : c.in[c.n + i]) >> b & 1) r |= 1 << b; c.out[i] = r; } });
  add("relu6", 0, 40, 4, lin(4), lin(4), 4, 1, [](const KCtx &c) { for (int i = 0; i < c.n; i++) { float f = c.i<float>(i); c.o<float>(i, f != f ? f : f <= 0 ? 0.0f : f >= 6.0f ? 6.0f : f); } });
  add("selmin", 0, 40, 4, lin(8), lin(4), 4, 0, [](const KCtx &c) { for (int i = 0; i < c.n; i++) { bool l = c.i<float>(i) < c.i<float>(c.n + i); c.o<uint32_t>(i, c.i<uint32_t>(l ? i : c.n + i)); } });
  add("scale16", 0, 50, 1, lin(2), lin(1), 1, 0, [=](const KCtx &c) { for (int i = 0; i < c.n; i++) c.out[i] = (u8)clamp((int)floor((c.i<int16_t>(i) + 8) / 16.0), 0, 255); });
  add("deint16", 0, 30, 1, lin(8), lin(8), 1, 0, [](const KCtx &c) { for (int i = 0; i < 4 * c.n; i++) c.o<uint16_t>(i, (uint16_t)((uint32_t)c.i<uint16_t>(i) * (3u + i % 4))); });
  add("deint32", 0, 30, 1, lin(12), lin(12), 2, 0, [](const KCtx &c) { for (int i = 0; i < c.n; i++) { u64 x = c.i<uint32_t>(3 * i), y = c.i<uint32_t>(3 * i + 1), z = c.i<uint32_t>(3 * i + 2); c.o<uint32_t>(3 * i, (uint32_t)(x * y)); c.o<uint32_t>(3 * i + 1, (uint32_t)(y + z * x)); c.o<uint32_t>(3 * i + 2, (uint32_t)(z - x)); } });
  return K;
}
struct KArena { u8 *rw, *ro; pid_t pid; enum { SZ = 4096 * 2 };
  KArena() : rw(0), ro(0), pid(0) {}
  // each process has its own pages: the mapping is shared memory, so it must not be inherited
  void init() { if (rw && pid == getpid()) return; pid = getpid(); int fd = memfd_create("karena", 0); if (fd < 0 || ftruncate(fd, SZ)) { perror("karena"); _exit(3); } static_assert((int)SZ == (int)Arena::USABLE, "size"); rw = Arena::mapone(fd, PROT_READ | PROT_WRITE); ro = Arena::mapone(fd, PROT_READ); close(fd); } };
static void kcontent(Rng &r, const KDef &k, u8 *in, int sz) {
  int mode = r.below(8);
  if (k.style == 5) { for (int i = 0; i < sz; i++) in[i] = r.chance(80) ? r.below(36) : (u8)r.next(); return; }
  if (mode == 0) { for (int i = 0; i < sz; i++) in[i] = (u8)r.next(); return; }
  if (mode == 1) { memset(in, 0, sz); if (sz) in[r.below(sz)] = (u8)r.next(); return; }
  if (mode == 2) { for (int i = 0; i < sz; i++) in[i] = (u8)(i * 7 + mode); return; }
  char kd = k.style == 4 ? 'f' : k.style == 0 ? 'u' : 's'; int bits = k.style == 0 ? 8 : k.style == 1 ? 16 : 32, eb = bits / 8;
  for (int i = 0; i < sz / eb; i++) putraw(in, eb, i, k.style == 4 && mode < 5 ? rawof((float)((int)r.below(80001) - 40000) / 64.0f) : gen_lane(r, kd, bits, 0));
}
static void build_kernels() {
#ifndef STATIC_PLUGIN
  if (!g_kernels) { fprintf(stderr, "plugin has no kernels\n"); _exit(3); }
#endif
  static std::vector<KDef> K = kernel_defs(); static KArena in, out;
  for (size_t q = 0; q < K.size(); q++) {
    const KDef &k = K[q]; Subject s; s.name = k.name; s.op = -1; s.na = 2;
    Ty t = {'v', 'u', 8, 16, 1, false}; s.a[0] = t; t.lanes = 32; s.a[1] = t; s.hasImm = true; s.lo = k.nmin; s.hi = k.nmax; s.weight = 1; const int id = (int)q;
    s.gen = [=](Rng &r, Case &c) { memset(&c, 0, sizeof c); c.op = id; int steps = (k.nmax - k.nmin) / k.step; c.imm = k.nmin + k.step * (int)r.below(steps + 1);
      for (int i = 0; i < 16; i++) c.a[0][i] = (u8)r.next(); for (int i = 0; i < 32; i++) c.a[1][i] = (u8)r.next();
      if (k.style == 4) for (int i = 0; i < 8; i++) putraw(c.a[1], 4, i, r.chance(70) ? rawof(((int)r.below(2001) - 1000) / 32.0f) : gen_f32(r)); };
    s.check = [=](const Case &c, std::string *m, unsigned &cls) {
      int n = c.imm; if (n < k.nmin || n > k.nmax || (n - k.nmin) % k.step) { cls = 0; return true; }
      cls = n > k.nmin ? C_DISTINCT : 0;
      in.init(); out.init();
      const int is = k.insz(n, c.a[1]), os = k.outsz(n, c.a[1]); u64 sd; memcpy(&sd, c.a[0], 8); bool e0 = c.a[0][8] & 1, e1 = c.a[0][8] & 2;
      static u8 ib[KArena::SZ], want[KArena::SZ], alt[KArena::SZ], par[64] __attribute__((aligned(16)));
      Rng r(mix(sd, hash_str(k.name))); memset(ib, 0, is); kcontent(r, k, ib, is); memcpy(par, c.a[1], 32); memset(par + 32, 0, 32);
      const int io = e0 ? KArena::SZ - is : 64, oo = e1 ? KArena::SZ - os : 64;
      memcpy(in.rw + io, ib, is); memset(out.rw, 0xC5, KArena::SZ);
      g_kernels[id](in.ro + io, out.rw + oo, n, par);
      KCtx x = {ib, want, n, par}; k.ref(x);
      bool ok = true; const u8 *got = out.rw + oo;
      auto same = [&](const u8 *w) { if (!memcmp(w, got, os)) return true; if (!k.fout) return false; for (int i = 0; i < os / 4; i++) { u64 a = getraw(w, 4, i), b = getraw(got, 4, i); if (a != b && !(isnan_raw(a, 32) && isnan_raw(b, 32))) return false; } return true; };
      if (!same(want)) { bool ok2 = false; if (k.ref2) { KCtx y = {ib, alt, n, par}; k.ref2(y); ok2 = same(alt); }
        if (!ok2) { ok = false; if (m) { int at = 0; while (at < os && want[at] == got[at]) at++; *m = "kernel " + std::string(k.name) + " n=" + std::to_string(n) + ": first differing output byte " + std::to_string(at) + "; in=" + hex(ib, std::min(is, 256)) + " out=" + hex(got, std::min(os, 256)) + " expected=" + hex(want, std::min(os, 256)); } } }
      for (int i = 0; i < KArena::SZ && ok; i++) if ((i < oo || i >= oo + os) && out.rw[i] != 0xC5) { ok = false; if (m) *m = "kernel " + std::string(k.name) + " n=" + std::to_string(n) + ": byte at output offset " + std::to_string(i - oo) + " outside the buffer was modified"; }
      return ok; };
    SUB.push_back(s);
  }
}

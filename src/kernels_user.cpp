// Typical NEON user code, compiled against the public header exactly as an application would be.
#include <string.h>
#include "neon_sim.h"
typedef void (*kfn)(const unsigned char *in, unsigned char *out, int n, const unsigned char *par);
typedef const unsigned char *cin; typedef unsigned char *uout;

static void k_gray(cin in, uout out, int n, cin) {
  uint8x8_t wb = vdup_n_u8(29), wg = vdup_n_u8(150), wr = vdup_n_u8(77); int i = 0;
  for (; i + 8 <= n; i += 8) { uint8x8x3_t p = vld3_u8(in + 3 * i); uint16x8_t s = vmull_u8(p.val[0], wb); s = vmlal_u8(s, p.val[1], wg); s = vmlal_u8(s, p.val[2], wr); vst1_u8(out + i, vshrn_n_u16(s, 8)); }
  for (; i < n; i++) out[i] = (in[3 * i] * 29 + in[3 * i + 1] * 150 + in[3 * i + 2] * 77) >> 8;
}
static void k_swaprb(cin in, uout out, int n, cin) {
  int i = 0;
  for (; i + 16 <= n; i += 16) { uint8x16x3_t p = vld3q_u8(in + 3 * i); uint8x16_t t = p.val[0]; p.val[0] = p.val[2]; p.val[2] = t; vst3q_u8(out + 3 * i, p); }
  for (; i + 8 <= n; i += 8) { uint8x8x3_t p = vld3_u8(in + 3 * i); uint8x8_t t = p.val[0]; p.val[0] = p.val[2]; p.val[2] = t; vst3_u8(out + 3 * i, p); }
  for (; i < n; i++) { out[3 * i] = in[3 * i + 2]; out[3 * i + 1] = in[3 * i + 1]; out[3 * i + 2] = in[3 * i]; }
}
static void k_rgba2argb(cin in, uout out, int n, cin) {
  int i = 0;
  for (; i + 8 <= n; i += 8) { uint8x8x4_t p = vld4_u8(in + 4 * i), q; q.val[0] = p.val[3]; q.val[1] = p.val[0]; q.val[2] = p.val[1]; q.val[3] = p.val[2]; vst4_u8(out + 4 * i, q); }
  for (; i < n; i++) { out[4 * i] = in[4 * i + 3]; for (int k = 0; k < 3; k++) out[4 * i + 1 + k] = in[4 * i + k]; }
}
static void k_premul(cin in, uout out, int n, cin) {   // RGBA, (c*a + 128) >> 8
  int i = 0;
  for (; i + 8 <= n; i += 8) { uint8x8x4_t p = vld4_u8(in + 4 * i); for (int k = 0; k < 3; k++) p.val[k] = vrshrn_n_u16(vmull_u8(p.val[k], p.val[3]), 8); vst4_u8(out + 4 * i, p); }
  for (; i < n; i++) { for (int k = 0; k < 3; k++) out[4 * i + k] = (in[4 * i + k] * in[4 * i + 3] + 128) >> 8; out[4 * i + 3] = in[4 * i + 3]; }
}
static void k_blend(cin in, uout out, int n, cin par) {  // in: a[n] b[n]
  unsigned al = par[0]; uint8x8_t va = vdup_n_u8(al), vb = vdup_n_u8(255 - al); int i = 0;
  for (; i + 8 <= n; i += 8) vst1_u8(out + i, vrshrn_n_u16(vmlal_u8(vmull_u8(vld1_u8(in + i), va), vld1_u8(in + n + i), vb), 8));
  for (; i < n; i++) out[i] = (in[i] * al + in[n + i] * (255 - al) + 128) >> 8;
}
static void k_bright(cin in, uout out, int n, cin par) {
  uint8x16_t up = vdupq_n_u8(par[0]), dn = vdupq_n_u8(par[1]); int i = 0;
  for (; i + 16 <= n; i += 16) vst1q_u8(out + i, vqsubq_u8(vqaddq_u8(vld1q_u8(in + i), up), dn));
  for (; i < n; i++) { int v = in[i] + par[0]; if (v > 255) v = 255; v -= par[1]; out[i] = v < 0 ? 0 : v; }
}
static void k_threshold(cin in, uout out, int n, cin par) {
  uint8x16_t t = vdupq_n_u8(par[0]), a = vdupq_n_u8(par[1]), b = vdupq_n_u8(par[2]); int i = 0;
  for (; i + 16 <= n; i += 16) { uint8x16_t x = vld1q_u8(in + i); vst1q_u8(out + i, vbslq_u8(vcgtq_u8(x, t), a, b)); }
  for (; i < n; i++) out[i] = in[i] > par[0] ? par[1] : par[2];
}
static void k_box3(cin in, uout out, int n, cin) {      // (sum of 3 neighbours * 85 + 128) >> 8, interior only
  int i = 1; if (n > 0) out[0] = in[0]; if (n > 1) out[n - 1] = in[n - 1];
  for (; i + 15 <= n; i += 8) { uint8x8_t c0 = vld1_u8(in + i - 1), nx = vld1_u8(in + i + 7); uint8x8_t c1 = vext_u8(c0, nx, 1), c2 = vext_u8(c0, nx, 2); uint16x8_t s = vaddw_u8(vaddl_u8(c0, c1), c2); vst1_u8(out + i, vrshrn_n_u16(vmulq_n_u16(s, 85), 8)); }
  for (; i + 1 < n; i++) out[i] = ((in[i - 1] + in[i] + in[i + 1]) * 85 + 128) >> 8;
}
static void k_transpose4x4(cin in, uout out, int n, cin) {   // n blocks of 4x4 s16
  for (int k = 0; k < n; k++) { const int16_t *p = (const int16_t *)in + 16 * k; int16_t *o = (int16_t *)out + 16 * k;
    int16x4x2_t t0 = vtrn_s16(vld1_s16(p), vld1_s16(p + 4)), t1 = vtrn_s16(vld1_s16(p + 8), vld1_s16(p + 12));
    int32x2x2_t a = vtrn_s32(vreinterpret_s32_s16(t0.val[0]), vreinterpret_s32_s16(t1.val[0])), b = vtrn_s32(vreinterpret_s32_s16(t0.val[1]), vreinterpret_s32_s16(t1.val[1]));
    vst1_s16(o, vreinterpret_s16_s32(a.val[0])); vst1_s16(o + 4, vreinterpret_s16_s32(b.val[0])); vst1_s16(o + 8, vreinterpret_s16_s32(a.val[1])); vst1_s16(o + 12, vreinterpret_s16_s32(b.val[1])); }
}
static void k_transpose8x8(cin in, uout out, int n, cin) {   // n blocks of 8x8 u8
  for (int k = 0; k < n; k++) { const uint8_t *p = in + 64 * k; uint8_t *o = out + 64 * k; uint8x8x2_t a[4]; uint16x4x2_t b[4]; uint32x2x2_t c[4];
    for (int i = 0; i < 4; i++) a[i] = vtrn_u8(vld1_u8(p + 16 * i), vld1_u8(p + 16 * i + 8));
    for (int h = 0; h < 2; h++) for (int i = 0; i < 2; i++) b[2 * h + i] = vtrn_u16(vreinterpret_u16_u8(a[2 * h].val[i]), vreinterpret_u16_u8(a[2 * h + 1].val[i]));
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) c[2 * j + i] = vtrn_u32(vreinterpret_u32_u16(b[i].val[j]), vreinterpret_u32_u16(b[2 + i].val[j]));
    for (int q = 0; q < 4; q++) { vst1_u8(o + 8 * q, vreinterpret_u8_u32(c[q].val[0])); vst1_u8(o + 8 * (q + 4), vreinterpret_u8_u32(c[q].val[1])); } }
}
static void k_lut32(cin in, uout out, int n, cin par) {      // 32-entry table in par, indices in in
  uint8x8x4_t t; for (int k = 0; k < 4; k++) t.val[k] = vld1_u8(par + 8 * k); int i = 0;
  for (; i + 8 <= n; i += 8) vst1_u8(out + i, vtbl4_u8(t, vld1_u8(in + i)));
  for (; i < n; i++) out[i] = in[i] < 32 ? par[in[i]] : 0;
}
static void k_lut16(cin in, uout out, int n, cin par) {      // nibble swap through two 16-entry lookups
  uint8x16_t t = vld1q_u8(par); uint8x8_t m = vdup_n_u8(15); int i = 0;
  for (; i + 8 <= n; i += 8) { uint8x8_t x = vld1_u8(in + i), l = vqtbl1_u8(t, vand_u8(x, m)), h = vqtbl1_u8(t, vshrn_n_u16(vmovl_u8(x), 4)); vst1_u8(out + i, veor_u8(l, h)); }
  for (; i < n; i++) out[i] = par[in[i] & 15] ^ par[in[i] >> 4];
}
static void k_rgb565(cin in, uout out, int n, cin) {         // planar-interleaved RGB to 565
  uint16_t *o = (uint16_t *)out; int i = 0; uint16x8_t mr = vdupq_n_u16(0xf800), mg = vdupq_n_u16(0x07e0), mb = vdupq_n_u16(0x001f);
  for (; i + 8 <= n; i += 8) { uint8x8x3_t p = vld3_u8(in + 3 * i); uint16x8_t r = vandq_u16(vshll_n_u8(p.val[0], 8), mr), g = vandq_u16(vshll_n_u8(p.val[1], 3), mg), b = vandq_u16(vmovl_u8(vshrn_n_u16(vmovl_u8(p.val[2]), 3)), mb); vst1q_u16(o + i, vorrq_u16(vorrq_u16(r, g), b)); }
  for (; i < n; i++) o[i] = ((in[3 * i] & 0xf8) << 8) | ((in[3 * i + 1] & 0xfc) << 3) | (in[3 * i + 2] >> 3);
}
static void k_dot16(cin in, uout out, int n, cin) {          // in: a[n] b[n] s16, wrapping s32 sum
  const int16_t *a = (const int16_t *)in, *b = a + n; int32x4_t acc = vdupq_n_s32(0); int i = 0; uint32_t s = 0;
  for (; i + 4 <= n; i += 4) acc = vmlal_s16(acc, vld1_s16(a + i), vld1_s16(b + i));
  for (int k = 0; k < 4; k++) s += (uint32_t)(k == 0 ? vgetq_lane_s32(acc, 0) : k == 1 ? vgetq_lane_s32(acc, 1) : k == 2 ? vgetq_lane_s32(acc, 2) : vgetq_lane_s32(acc, 3));
  for (; i < n; i++) s += (uint32_t)((int32_t)a[i] * b[i]);
  memcpy(out, &s, 4);
}
static void k_dot8(cin in, uout out, int n, cin) {           // s8 dot product through 16-bit products
  const int8_t *a = (const int8_t *)in, *b = a + n; int32x4_t acc = vdupq_n_s32(0); int i = 0; uint32_t s = 0;
  for (; i + 8 <= n; i += 8) { int16x8_t p = vmull_s8(vld1_s8(a + i), vld1_s8(b + i)); acc = vaddw_s16(acc, vget_low_s16(p)); acc = vaddw_high_s16(acc, p); }
  for (int k = 0; k < 4; k++) s += (uint32_t)vgetq_lane_s32(acc, k);
  for (; i < n; i++) s += (uint32_t)(a[i] * b[i]);
  memcpy(out, &s, 4);
}
static void k_saxpy(cin in, uout out, int n, cin par) {
  const float *x = (const float *)in, *y = x + n; float *o = (float *)out, s; memcpy(&s, par, 4); int i = 0;
  for (; i + 4 <= n; i += 4) vst1q_f32(o + i, vmlaq_n_f32(vld1q_f32(y + i), vld1q_f32(x + i), s));
  for (; i < n; i++) { volatile float p = x[i] * s; o[i] = y[i] + p; }
}
static void k_poly(cin in, uout out, int n, cin par) {       // Horner with broadcast loads
  const float *x = (const float *)in, *cf = (const float *)par; float *o = (float *)out; int i = 0;
  for (; i + 4 <= n; i += 4) { float32x4_t v = vld1q_f32(x + i), r = vld1q_dup_f32(cf); for (int k = 1; k < 4; k++) r = vmlaq_f32(vld1q_dup_f32(cf + k), r, v); vst1q_f32(o + i, r); }
  for (; i < n; i++) { float r = cf[0]; for (int k = 1; k < 4; k++) { volatile float p = r * x[i]; r = cf[k] + p; } o[i] = r; }
}
static void k_newton(cin in, uout out, int n, cin) {         // a/b by reciprocal estimate and two steps; n multiple of 4
  const float *a = (const float *)in, *b = a + n; float *o = (float *)out;
  for (int i = 0; i + 4 <= n; i += 4) { float32x4_t d = vld1q_f32(b + i), r = vrecpeq_f32(d); r = vmulq_f32(vrecpsq_f32(d, r), r); r = vmulq_f32(vrecpsq_f32(d, r), r); vst1q_f32(o + i, vmulq_f32(vld1q_f32(a + i), r)); }
}
static void k_f2u8(cin in, uout out, int n, cin) {           // float to u8 with clamp at 255, n multiple of 8
  const float *x = (const float *)in;
  for (int i = 0; i + 8 <= n; i += 8) { uint32x4_t top = vdupq_n_u32(65535); uint32x4_t a = vminq_u32(vcvtq_u32_f32(vld1q_f32(x + i)), top), b = vminq_u32(vcvtq_u32_f32(vld1q_f32(x + i + 4)), top); vst1_u8(out + i, vqmovn_u16(vcombine_u16(vmovn_u32(a), vmovn_u32(b)))); }
}
static void k_f2s16(cin in, uout out, int n, cin) {          // round to nearest even and saturate, n multiple of 4
  const float *x = (const float *)in; int16_t *o = (int16_t *)out;
  for (int i = 0; i + 4 <= n; i += 4) { int32x4_t v = vcvtnq_s32_f32(vld1q_f32(x + i)); v = vminq_s32(vmaxq_s32(v, vdupq_n_s32(-32768)), vdupq_n_s32(32767)); vst1_s16(o + i, vmovn_s32(v)); }
}
static void k_q15(cin in, uout out, int n, cin) {            // Q15 multiply, truncated
  const int16_t *a = (const int16_t *)in, *b = a + n; int16_t *o = (int16_t *)out; int i = 0;
  for (; i + 4 <= n; i += 4) vst1_s16(o + i, vshrn_n_s32(vqdmull_s16(vld1_s16(a + i), vld1_s16(b + i)), 16));
  for (; i < n; i++) { int64_t p = 2LL * a[i] * b[i]; if (p > 2147483647LL) p = 2147483647LL; o[i] = (int16_t)(p >> 16); }
}
static void k_q31(cin in, uout out, int n, cin) {            // Q31 multiply through 64-bit products
  const int32_t *a = (const int32_t *)in, *b = a + n; int32_t *o = (int32_t *)out; int i = 0;
  for (; i + 2 <= n; i += 2) vst1_s32(o + i, vqshrn_n_s64(vmull_s32(vld1_s32(a + i), vld1_s32(b + i)), 31));
  for (; i < n; i++) { int64_t p = ((int64_t)a[i] * b[i]) >> 31; o[i] = p > 2147483647LL ? 2147483647 : (int32_t)p; }
}
static void k_sum8(cin in, uout out, int n, cin) {
  uint32x4_t acc = vdupq_n_u32(0); int i = 0; uint32_t s = 0;
  for (; i + 16 <= n; i += 16) acc = vaddq_u32(acc, vpaddlq_u16(vpaddlq_u8(vld1q_u8(in + i))));
  uint32_t t[4]; vst1q_u32(t, acc); for (int k = 0; k < 4; k++) s += t[k];
  for (; i < n; i++) s += in[i];
  memcpy(out, &s, 4);
}
static void k_absdiff(cin in, uout out, int n, cin) {
  int i = 0;
  for (; i + 16 <= n; i += 16) { uint8x16_t a = vld1q_u8(in + i), b = vld1q_u8(in + n + i); vst1q_u8(out + i, vsubq_u8(vmaxq_u8(a, b), vminq_u8(a, b))); }
  for (; i < n; i++) out[i] = in[i] > in[n + i] ? in[i] - in[n + i] : in[n + i] - in[i];
}
static void k_fmax(cin in, uout out, int n, cin) {           // maximum and minimum of n >= 4 floats, n multiple of 4
  const float *x = (const float *)in; float32x4_t M = vld1q_f32(x), m = M;
  for (int i = 4; i + 4 <= n; i += 4) { M = vmaxq_f32(M, vld1q_f32(x + i)); m = vminq_f32(m, vld1q_f32(x + i)); }
  float32x2_t a = vpmax_f32(vget_low_f32(M), vget_high_f32(M)), b = vpmin_f32(vget_low_f32(m), vget_high_f32(m)); a = vpmax_f32(a, a); b = vpmin_f32(b, b);
  float r[2] = {vget_lane_f32(a, 0), vget_lane_f32(b, 1)}; memcpy(out, r, 8);
}
static void k_stereo(cin in, uout out, int n, cin) {         // swap channels and halve the difference
  const int16_t *x = (const int16_t *)in; int16_t *o = (int16_t *)out; int i = 0;
  for (; i + 4 <= n; i += 4) { int16x4x2_t p = vld2_s16(x + 2 * i), q; q.val[0] = p.val[1]; q.val[1] = vhsub_s16(p.val[0], p.val[1]); vst2_s16(o + 2 * i, q); }
  for (; i < n; i++) { o[2 * i] = x[2 * i + 1]; o[2 * i + 1] = (int16_t)((x[2 * i] - x[2 * i + 1]) >> 1); }
}
static void k_reverse8(cin in, uout out, int n, cin) {
  int i = 0;
  for (; i + 16 <= n; i += 16) { uint8x16_t r = vrev64q_u8(vld1q_u8(in + i)); vst1q_u8(out + n - 16 - i, vcombine_u8(vget_high_u8(r), vget_low_u8(r))); }
  for (; i < n; i++) out[n - 1 - i] = in[i];
}
static void k_bswap16(cin in, uout out, int n, cin) {        // n 16-bit words
  int i = 0;
  for (; i + 4 <= n; i += 4) vst1_u8(out + 2 * i, vrev16_u8(vld1_u8(in + 2 * i)));
  for (; i < n; i++) { out[2 * i] = in[2 * i + 1]; out[2 * i + 1] = in[2 * i]; }
}
static void k_bswap32(cin in, uout out, int n, cin) {
  int i = 0;
  for (; i + 4 <= n; i += 4) vst1q_u8(out + 4 * i, vrev32q_u8(vld1q_u8(in + 4 * i)));
  for (; i < n; i++) for (int k = 0; k < 4; k++) out[4 * i + k] = in[4 * i + 3 - k];
}
static void k_iir(cin in, uout out, int n, cin) {            // y += (x - y) >> 3 per column of 4
  const int32_t *x = (const int32_t *)in; int32x4_t y = vdupq_n_s32(0);
  for (int i = 0; i < n; i++) { y = vsraq_n_s32(y, vsubq_s32(vld1q_s32(x + 4 * i), y), 3); vst1q_s32((int32_t *)out + 4 * i, y); }
}
static void k_soa(cin in, uout out, int n, cin) {            // four float columns to rows with lane stores
  const float *x = (const float *)in; float *o = (float *)out;
  for (int i = 0; i + 4 <= n; i += 4) { float32x4x4_t v; for (int k = 0; k < 4; k++) v.val[k] = vld1q_f32(x + k * n + i); vst4q_lane_f32(o + 4 * i, v, 0); vst4q_lane_f32(o + 4 * i + 4, v, 1); vst4q_lane_f32(o + 4 * i + 8, v, 2); vst4q_lane_f32(o + 4 * i + 12, v, 3); }
}
static void k_gather(cin in, uout out, int n, cin par) {     // strided gather with lane loads; n bytes out, stride par[0]&7
  int st = 1 + (par[0] & 7), i = 0;
  for (; i + 8 <= n; i += 8) { uint8x8_t v = vdup_n_u8(0); v = vld1_lane_u8(in + st * i, v, 0); v = vld1_lane_u8(in + st * (i + 1), v, 1); v = vld1_lane_u8(in + st * (i + 2), v, 2); v = vld1_lane_u8(in + st * (i + 3), v, 3); v = vld1_lane_u8(in + st * (i + 4), v, 4); v = vld1_lane_u8(in + st * (i + 5), v, 5); v = vld1_lane_u8(in + st * (i + 6), v, 6); v = vld1_lane_u8(in + st * (i + 7), v, 7); vst1_u8(out + i, v); }
  for (; i < n; i++) out[i] = in[st * i];
}
static void k_hnadd(cin in, uout out, int n, cin) {          // high halves of u32 sums, pairs of 4-lane blocks
  const uint32_t *x = (const uint32_t *)in; uint16_t *o = (uint16_t *)out;
  for (int i = 0; i + 8 <= n; i += 8) { uint32x4_t a = vld1q_u32(x + i), b = vld1q_u32(x + i + 4); vst1q_u16(o + i, vaddhn_high_u32(vsubhn_u32(a, b), a, b)); }
}
static void k_mask(cin in, uout out, int n, cin par) {       // bitwise merge
  uint8x16_t m = vld1q_u8(par); int i = 0;
  for (; i + 16 <= n; i += 16) { uint8x16_t a = vld1q_u8(in + i), b = vld1q_u8(in + n + i); vst1q_u8(out + i, vorrq_u8(vandq_u8(a, m), vandq_u8(b, vmvnq_u8(m)))); }
  for (; i < n; i++) out[i] = (in[i] & par[i & 15]) | (in[n + i] & ~par[i & 15]);
}
static void k_relu6(cin in, uout out, int n, cin) {
  const float *x = (const float *)in; float *o = (float *)out;
  for (int i = 0; i + 4 <= n; i += 4) vst1q_f32(o + i, vminq_f32(vmaxq_f32(vld1q_f32(x + i), vdupq_n_f32(0.0f)), vmovq_n_f32(6.0f)));
}
static void k_selmin(cin in, uout out, int n, cin) {         // select by comparison
  const float *a = (const float *)in, *b = a + n; float *o = (float *)out;
  for (int i = 0; i + 4 <= n; i += 4) { float32x4_t x = vld1q_f32(a + i), y = vld1q_f32(b + i); vst1q_f32(o + i, vbslq_f32(vcltq_f32(x, y), x, y)); }
}
static void k_scale16(cin in, uout out, int n, cin par) {    // s16 scaling with rounding and clamp to u8
  const int16_t *x = (const int16_t *)in; int i = 0; (void)par;
  for (; i + 8 <= n; i += 8) vst1_u8(out + i, vqrshrun_n_s16(vld1q_s16(x + i), 4));
  for (; i < n; i++) { int v = (x[i] + 8) >> 4; out[i] = v < 0 ? 0 : v > 255 ? 255 : v; }
}
static void k_deint16(cin in, uout out, int n, cin) {        // 4-channel u16 to planes and back with gain
  const uint16_t *x = (const uint16_t *)in; uint16_t *o = (uint16_t *)out; int i = 0;
  for (; i + 8 <= n; i += 8) { uint16x8x4_t p = vld4q_u16(x + 4 * i); for (int k = 0; k < 4; k++) p.val[k] = vmulq_n_u16(p.val[k], k + 3); vst4q_u16(o + 4 * i, p); }
  for (; i + 4 <= n; i += 4) { uint16x4x4_t p = vld4_u16(x + 4 * i); for (int k = 0; k < 4; k++) p.val[k] = vmul_n_u16(p.val[k], k + 3); vst4_u16(o + 4 * i, p); }
  for (; i < n; i++) for (int k = 0; k < 4; k++) o[4 * i + k] = (uint16_t)((unsigned)x[4 * i + k] * (k + 3));
}
static void k_deint32(cin in, uout out, int n, cin) {        // xyz of 32-bit values: wrapping cross terms
  const uint32_t *x = (const uint32_t *)in; uint32_t *o = (uint32_t *)out; int i = 0;
  for (; i + 4 <= n; i += 4) { uint32x4x3_t p = vld3q_u32(x + 3 * i), q; q.val[0] = vmulq_u32(p.val[0], p.val[1]); q.val[1] = vmlaq_u32(p.val[1], p.val[2], p.val[0]); q.val[2] = vsubq_u32(p.val[2], p.val[0]); vst3q_u32(o + 3 * i, q); }
  for (; i < n; i++) { uint32_t a = x[3 * i], b = x[3 * i + 1], c = x[3 * i + 2]; o[3 * i] = a * b; o[3 * i + 1] = b + c * a; o[3 * i + 2] = c - a; }
}

extern "C" { extern const kfn neon_kernels[]; }
const kfn neon_kernels[] = { k_gray, k_swaprb, k_rgba2argb, k_premul, k_blend, k_bright, k_threshold, k_box3, k_transpose4x4, k_transpose8x8, k_lut32, k_lut16, k_rgb565, k_dot16, k_dot8, k_saxpy, k_poly, k_newton, k_f2u8, k_f2s16, k_q15, k_q31, k_sum8, k_absdiff, k_fmax, k_stereo, k_reverse8, k_bswap16, k_bswap32, k_iir, k_soa, k_gather, k_hnadd, k_mask, k_relu6, k_selmin, k_scale16, k_deint16, k_deint32 };

// Algebraic laws relating intrinsics to each other; the reference model is not used here.
#pragma once
struct V { u8 b[64]; V() { memset(b, 0, 64); } };
static V mkv(const u8 *p, int n) { V v; memcpy(v.b, p, n); return v; }
static V X(int f, const V &a, const V &b = V(), const V &c = V(), int imm = 0) {
  V r; const Op &op = OPS[f]; void *p[3] = {(void *)a.b, (void *)b.b, (void *)c.b}; (void)op;
  memset(r.b, 0xA7, 64); V out; W[f](p, r.b, imm); memcpy(out.b, r.b, op.ret.bytes()); return out;
}
static V XI(int f, const V &a, int imm) { return X(f, a, V(), V(), imm); }
static V XI2(int f, const V &a, const V &b, int imm) { return X(f, a, b, V(), imm); }
static void XST(int f, u8 *mem, const V &v, int imm = 0) { u8 r[64]; void *p[3] = {mem, (void *)v.b, 0}; W[f](p, r, imm); }
static V XLD(int f, const u8 *mem, const V &v = V(), int imm = 0) { V r; void *p[3] = {(void *)mem, (void *)v.b, 0}; W[f](p, r.b, imm); return r; }
static V lo(const V &a, int bytes) { return mkv(a.b, bytes / 2); }
static V hi(const V &a, int bytes) { return mkv(a.b + bytes / 2, bytes / 2); }
static V cat(const V &a, const V &b, int half) { V r; memcpy(r.b, a.b, half); memcpy(r.b + half, b.b, half); return r; }
static V bro(const V &s, int eb, int n) { V r; for (int i = 0; i < n; i++) putraw(r.b, eb, i, getraw(s.b, eb, 0)); return r; }
static V fillc(u64 v, int eb, int n) { V r; for (int i = 0; i < n; i++) putraw(r.b, eb, i, v); return r; }
static V xorc(const V &a, u64 v, int eb, int n) { V r; for (int i = 0; i < n; i++) putraw(r.b, eb, i, getraw(a.b, eb, i) ^ v); return r; }
template <class Fn> static V lanes(const V &a, int eb, int n, Fn fn) { V r; for (int i = 0; i < n; i++) putraw(r.b, eb, i, fn(getraw(a.b, eb, i), i)); return r; }

static bool eqt(const V &x, const V &y, const Ty &t, bool nan, std::string *m, const char *what = "") {
  if (!memcmp(x.b, y.b, t.bytes())) return true;
  for (int i = 0; i < t.n(); i++) {
    u64 p = getraw(x.b, t.eb(), i), q = getraw(y.b, t.eb(), i);
    if (p == q || (nan && t.k == 'f' && isnan_raw(p, t.bits) && isnan_raw(q, t.bits))) continue;
    if (m) *m = std::string(what) + " lane " + std::to_string(i) + ": " + lanes_text(x.b, t) + " vs " + lanes_text(y.b, t);
    return false;
  }
  return true;
}
static int need(const std::string &n) { int i = op_index(n); return i >= 0 && W[i] ? i : -1; }
typedef std::function<bool(const Case &, std::string *)> LawFn;
static int g_lawmissing = 0;
static void gen_ty(Rng &r, const Ty &t, u8 *p, int hint) {
  const int n = t.n(), eb = t.eb();
  switch (r.below(10)) {
    case 0: { u64 v = gen_lane(r, t.k, t.bits, hint); for (int i = 0; i < n; i++) putraw(p, eb, i, v); return; }
    case 1: { u64 b = r.next() & 0xffff; for (int i = 0; i < n; i++) putraw(p, eb, i, b + i); return; }
    case 2: for (int i = 0; i < n; i++) putraw(p, eb, i, r.next()); return;
    case 3: memset(p, 0, n * eb); putraw(p, eb, r.below(n), gen_lane(r, t.k, t.bits, hint)); return;
    default: for (int i = 0; i < n; i++) putraw(p, eb, i, gen_lane(r, t.k, t.bits, hint));
  }
}
// an operand made from an earlier one of the same size
static void relate_ty(Rng &r, const Ty &t, u8 *p, const u8 *q) {
  const int n = t.n(), eb = t.eb(), mode = r.below(9), k = n > 1 ? 1 + (int)r.below(n - 1) : 0; const bool every = r.chance(50), fl = t.k == 'f';
  if (mode < 2) { memcpy(p, q, t.bytes()); if (mode) { int i = r.below(n); putraw(p, eb, i, getraw(p, eb, i) + (r.chance(50) ? 1 : -1)); } return; }
  const u64 T = r.chance(50) ? 1ULL << (t.bits - 1) : r.chance(50) ? 0 : 1ULL << r.below(t.bits);
  for (int i = 0; i < n; i++) {
    if (!every && r.chance(40)) continue;
    u64 x = getraw(q, eb, i);
    putraw(p, eb, i, mode == 2 ? getraw(q, eb, n - 1 - i) : mode == 3 ? getraw(q, eb, (i + k) % n) : mode == 4 ? ~x : mode == 5 ? (fl ? x ^ (1ULL << (t.bits - 1)) : 0 - x) : mode == 6 ? T - x + (u64)(int64_t)((int)r.below(3) - 1) : mode == 7 ? x + (u64)(int64_t)((int)r.below(5) - 2) : x ^ T);
  }
}
static Ty TV(char k, int bits, int lanes, int nv = 1) { Ty t = {'v', k, bits, lanes, nv, false}; return t; }
static Ty vecof(const Ty &p) { Ty t = p; t.t = 'v'; return t; }
// genop >= 0: operands are generated as for that intrinsic; extra types follow
static void law(const std::string &name, const std::vector<int> &ops, std::vector<Ty> types, int ilo, int ihi, int genop, LawFn fn) {
  for (int o : ops) if (o < 0) { g_lawmissing++; return; }
  Subject s; s.name = name; s.op = -1; s.na = (int)types.size(); if (s.na > 4) abort();
  for (int i = 0; i < s.na; i++) s.a[i] = vecof(types[i]);
  s.hasImm = ihi > ilo; s.lo = ilo; s.hi = ihi; s.weight = 1;
  const int id = (int)SUB.size(); const int hint = ops.empty() ? 0 : ops[0]; std::vector<Ty> tt(s.a, s.a + s.na);
  s.gen = [=](Rng &r, Case &c) {
    memset(&c, 0, sizeof c); int done = 0;
    if (genop >= 0) { Case g; gen_case(r, genop, g); int k = 0; const Op &op = OPS[genop];
      for (int i = 0; i < op.na && k < (int)tt.size(); i++) if (op.a[i].t != 'i') { memcpy(c.a[k], g.a[i], 64); k++; } done = k; }
    for (int i = done; i < (int)tt.size(); i++) { gen_ty(r, tt[i], c.a[i], hint);
      if (r.chance(12)) relate_lanes(r, tt[i], c.a[i], hint);
      for (int j = i - 1; j >= 0; j--) if (tt[i].bytes() == tt[j].bytes() && r.chance(22)) { relate_ty(r, tt[i], c.a[i], c.a[j]); break; } }
    c.op = id; c.imm = ilo + (ihi > ilo ? (int)r.below(ihi - ilo + 1) : 0);
  };
  s.check = [fn, tt](const Case &c, std::string *m, unsigned &cls) {
    cls = 0;       // non-trivial: some operand lane uses its upper half, and operands are not constant vectors
    for (size_t i = 0; i < tt.size() && !cls; i++) { int n = tt[i].n(), eb = tt[i].eb(); u64 f = getraw(c.a[i], eb, 0); for (int k = 0; k < n; k++) { u64 v = getraw(c.a[i], eb, k); if (v != f || n == 1) cls |= C_DISTINCT; if (v >> (tt[i].bits / 2)) cls |= C_WIDEVAL; } }
    return fn(c, m);
  };
  SUB.push_back(s);
}
#define A0 mkv(c.a[0], 64)
#define A1 mkv(c.a[1], 64)
#define A2 mkv(c.a[2], 64)
#define A3 mkv(c.a[3], 64)

static std::string qn(const std::string &n) {   // vfoo_x -> vfooq_x, also vfoo_n_x -> vfooq_n_x
  size_t p = n.find('_'); return n.substr(0, p) + "q" + n.substr(p); }
static std::string sufx(const std::string &n) { return n.substr(n.rfind('_') + 1); }

static void build_laws() {
  static const char *KS[] = {"s8", "s16", "s32", "u8", "u16", "u32", "s64", "u64"};
  auto bitsof = [](const std::string &s) { return atoi(s.c_str() + 1); };
  auto wd = [&](const std::string &s) { return std::string(1, s[0]) + std::to_string(bitsof(s) * 2); };
  auto nr = [&](const std::string &s) { return std::string(1, s[0]) + std::to_string(bitsof(s) / 2); };
  auto D = [&](const std::string &s) { return TV(s[0], bitsof(s), 64 / bitsof(s)); };
  auto Q = [&](const std::string &s) { return TV(s[0], bitsof(s), 128 / bitsof(s)); };
  const Ty SEED = TV('u', 64, 1);

  for (int f = 0; f < NOPS; f++) {
    const Op &op = OPS[f]; const std::string n = op.name; if (!W[f]) { g_lawmissing++; continue; }
    const bool fp = op.fl & FL_FP; const int n_imm = op.immArg();
    const int L = op.ret.t ? op.ret.lanes : 0;
    std::vector<Ty> dt; for (int i = 0; i < op.na; i++) if (op.a[i].t != 'i') dt.push_back(op.a[i]);
    // lane-wise: equivariance under lane permutation, and locality of each lane
    if (op.fl & (FL_LANEWISE | FL_HIGH0 | FL_HIGH1)) {
      std::vector<Ty> ty = dt; ty.push_back(SEED);
      const int base[3] = {op.fl & FL_HIGH0 ? L : 0, op.fl & FL_HIGH1 ? L : 0, 0};
      law("permute:" + n, {f}, ty, op.lo, op.hi, f, [=, &op](const Case &c, std::string *m) {
        V a[3]; for (int i = 0; i < (int)dt.size(); i++) a[i] = mkv(c.a[i], 64);
        V r = X(f, a[0], a[1], a[2], c.imm); u64 s; memcpy(&s, c.a[dt.size()], 8); Rng g(s);
        int perm[16]; for (int i = 0; i < L; i++) perm[i] = i; for (int i = L - 1; i > 0; i--) std::swap(perm[i], perm[g.below(i + 1)]);
        V b[3], want; for (int i = 0; i < (int)dt.size(); i++) { b[i] = a[i]; if (dt[i].t == 'v') for (int k = 0; k < L; k++) putraw(b[i].b, dt[i].eb(), base[i] + k, getraw(a[i].b, dt[i].eb(), base[i] + perm[k])); }
        for (int k = 0; k < L; k++) putraw(want.b, op.ret.eb(), k, getraw(r.b, op.ret.eb(), perm[k]));
        return eqt(X(f, b[0], b[1], b[2], c.imm), want, op.ret, fp, m, "permuting the operand lanes does not permute the result:");
      });
      law("locality:" + n, {f}, ty, op.lo, op.hi, f, [=, &op](const Case &c, std::string *m) {
        V a[3]; for (int i = 0; i < (int)dt.size(); i++) a[i] = mkv(c.a[i], 64);
        V r = X(f, a[0], a[1], a[2], c.imm); u64 s; memcpy(&s, c.a[dt.size()], 8); Rng g(s); int keep = g.below(L);
        V b[3]; for (int i = 0; i < (int)dt.size(); i++) { b[i] = a[i]; if (dt[i].t == 'v') for (int k = 0; k < dt[i].n(); k++) if (k != base[i] + keep) putraw(b[i].b, dt[i].eb(), k, gen_lane(g, dt[i].k, dt[i].bits, f)); }
        V q = X(f, b[0], b[1], b[2], c.imm); u64 x = getraw(r.b, op.ret.eb(), keep), y = getraw(q.b, op.ret.eb(), keep);
        if (x == y || (fp && isnan_raw(x, op.ret.bits) && isnan_raw(y, op.ret.bits))) return true;
        if (m) *m = "lane " + std::to_string(keep) + " of the result changes when only other operand lanes change: " + lanes_text(r.b, op.ret) + " vs " + lanes_text(q.b, op.ret);
        return false;
      });
      // a lane value computed in every lane position gives the same answer
      law("uniform:" + n, {f}, ty, op.lo, op.hi, f, [=, &op](const Case &c, std::string *m) {
        V a[3]; u64 s; memcpy(&s, c.a[dt.size()], 8); Rng g(s); int src = g.below(L);
        for (int i = 0; i < (int)dt.size(); i++) { a[i] = mkv(c.a[i], 64); if (dt[i].t == 'v') { u64 v = getraw(c.a[i], dt[i].eb(), base[i] + src); for (int k = 0; k < L; k++) putraw(a[i].b, dt[i].eb(), base[i] + k, v); } }
        V r = X(f, a[0], a[1], a[2], c.imm); return eqt(r, bro(r, op.ret.eb(), L), op.ret, fp, m, "equal lanes give unequal results:");
      });
    }
    // q form = 64-bit form on both halves
    bool halves = (op.fl & FL_LANEWISE) || op.sem == S_REV16 || op.sem == S_REV32 || op.sem == S_REV64 || op.sem == S_TRN || op.sem == S_PADDL;
    if (halves && n.find("q_") == std::string::npos && need(qn(n)) >= 0 && op_index(qn(n)) >= 0 && OPS[op_index(qn(n))].sem == op.sem && OPS[op_index(qn(n))].ret.bytes() == 2 * op.ret.bytes()) {
      int q = need(qn(n)); const Op &oq = OPS[q]; std::vector<Ty> tq; for (int i = 0; i < oq.na; i++) if (oq.a[i].t != 'i') tq.push_back(oq.a[i]);
      law("halves:" + n, {f, q}, tq, op.lo, op.hi, q, [=, &op, &oq](const Case &c, std::string *m) {
        V a[3], l[3], h[3]; for (size_t i = 0; i < tq.size(); i++) { a[i] = mkv(c.a[i], 64); if (tq[i].t == 's') l[i] = h[i] = a[i]; else { l[i] = lo(a[i], tq[i].bytes()); h[i] = hi(a[i], tq[i].bytes()); } }
        V r = X(q, a[0], a[1], a[2], c.imm), rl = X(f, l[0], l[1], l[2], c.imm), rh = X(f, h[0], h[1], h[2], c.imm), w; int vb = op.ret.lanes * op.ret.eb();
        for (int v = 0; v < op.ret.nvec; v++) { memcpy(w.b + 2 * v * vb, rl.b + v * vb, vb); memcpy(w.b + (2 * v + 1) * vb, rh.b + v * vb, vb); }
        return eqt(r, w, oq.ret, fp, m, "128-bit form differs from 64-bit form on halves:");
      });
    }
    // signed and unsigned forms agree
    static const std::set<int> agree = {S_ADD, S_SUB, S_MUL, S_MLA, S_AND, S_ORR, S_EOR, S_MVN, S_REV16, S_REV32, S_REV64, S_TRN, S_ZIP, S_UZP, S_EXT, S_COMBINE, S_GETLOW, S_GETHIGH, S_GETLANE, S_DUP, S_LD, S_LDLANE, S_ST, S_SUBHN, S_RSUBHN, S_ADDHN_HIGH};
    std::string sx = sufx(n);
    if (sx[0] == 's' && (agree.count(op.sem) || (op.sem == S_MOV && op.ret.bits < op.a[0].bits) || (op.sem == S_SHR && op.ret.bits < op.a[0].bits)) && n.compare(0, 12, "vreinterpret") != 0) {
      std::string un = n.substr(0, n.size() - sx.size()) + "u" + sx.substr(1); int u = need(un);
      bool widening = op.ret.t == 'v' && op.ret.bits > op.a[op.na - 1 - (n_imm == op.na - 1)].bits;
      if (u >= 0 && OPS[u].sem == op.sem && !widening) {
        if (op.ptrArg() < 0) law("signs:" + n, {f, u}, dt, op.lo, op.hi, f, [=, &op](const Case &c, std::string *m) {
          return eqt(X(f, A0, A1, A2, c.imm), X(u, A0, A1, A2, c.imm), op.ret, false, m, "signed and unsigned forms disagree bit for bit:"); });
        else law("signs:" + n, {f, u}, dt, op.lo, op.hi, f, [=, &op](const Case &c, std::string *m) {
          if (op.sem == S_ST) { V x = A0, y = A0; XST(f, x.b, A1, c.imm); XST(u, y.b, A1, c.imm); return eqt(x, y, op.a[0], false, m, "stores differ:"); }
          V x = A0; return eqt(XLD(f, x.b, A1, c.imm), XLD(u, x.b, A1, c.imm), op.ret, false, m, "loads differ:"); });
      }
    }
    // commutativity
    static const std::set<int> comm = {S_MUL, S_AND, S_ORR, S_EOR, S_QADD, S_MAX, S_MIN, S_FADD, S_FMUL, S_FMAX, S_FMIN, S_QDMULL, S_RECPS};
    if (dt.size() == 2 && dt[0].bytes() == dt[1].bytes() && dt[0].bits == dt[1].bits && (comm.count(op.sem) || op.sem == S_ADD))
      law("commute:" + n, {f}, dt, 0, 0, f, [=, &op](const Case &c, std::string *m) { return eqt(X(f, A0, A1), X(f, A1, A0), op.ret, fp, m, "not commutative:"); });
    if (op.sem == S_ADDHN_HIGH || op.sem == S_MLA || op.sem == S_MLS || op.sem == S_FMLA) if (dt[1].t == dt[2].t)
      law("commute:" + n, {f}, dt, 0, 0, f, [=, &op](const Case &c, std::string *m) { return eqt(X(f, A0, A1, A2), X(f, A0, A2, A1), op.ret, fp, m, "not commutative in its last two operands:"); });
    // scalar forms = vector forms on a broadcast
    size_t np = n.find("_n_");
    if (np != std::string::npos && op.na >= 2 && op.a[op.na - 1].t == 's') {
      int b = need(n.substr(0, np) + n.substr(np + 2));
      if (b >= 0) { Ty vt = OPS[b].a[OPS[b].na - 1];
        law("scalar:" + n, {f, b}, dt, 0, 0, f, [=, &op](const Case &c, std::string *m) {
          V s = bro(mkv(c.a[op.na - 1], 64), vt.eb(), vt.n());
          return eqt(X(f, A0, A1, A2), op.na == 2 ? X(b, A0, s) : X(b, A0, A1, s), op.ret, fp, m, "scalar form differs from the vector form on a broadcast:"); }); }
    }
    // reversal is an involution
    if (op.sem == S_REV16 || op.sem == S_REV32 || op.sem == S_REV64) {
      law("involution:" + n, {f}, dt, 0, 0, f, [=, &op](const Case &c, std::string *m) { return eqt(X(f, X(f, A0)), A0, op.ret, false, m, "reversing twice is not the identity:"); });
      // a reversal of the whole container = byte-level composition of smaller reversals
      int eb = op.ret.eb(); std::string q = n.find("q_") != std::string::npos ? "q" : "";
      std::string outer = op.sem == S_REV64 ? "vrev64" : op.sem == S_REV32 ? "vrev32" : "";
      if (op.sem == S_REV64 && eb < 4) { int in = need("vrev32" + q + "_" + sx), ou = need("vrev64" + q + "_u32"); law("compose:" + n, {f, in, ou}, dt, 0, 0, f, [=, &op](const Case &c, std::string *m) { return eqt(X(f, A0), X(ou, X(in, A0)), op.ret, false, m, "vrev64 is not vrev64_u32 of vrev32:"); }); }
      if (op.sem == S_REV32 && eb == 1) { int in = need("vrev16" + q + "_" + sx), ou = need("vrev32" + q + "_u16"); law("compose:" + n, {f, in, ou}, dt, 0, 0, f, [=, &op](const Case &c, std::string *m) { return eqt(X(f, A0), X(ou, X(in, A0)), op.ret, false, m, "vrev32 is not vrev32_u16 of vrev16:"); }); }
    }
    if (op.sem == S_TRN) law("involution:" + n, {f}, dt, 0, 0, f, [=, &op](const Case &c, std::string *m) {
      V t = X(f, A0, A1); int b = op.a[0].bytes(); V u = X(f, mkv(t.b, b), mkv(t.b + b, b)); return eqt(u, cat(A0, A1, b), op.ret, false, m, "transposing twice is not the identity:"); });
    // casts keep every bit
    if (op.sem == S_REINT) {
      law("bits:" + n, {f}, dt, 0, 0, f, [=, &op](const Case &c, std::string *m) { return eqt(X(f, A0), A0, op.ret, false, m, "cast changes bits:"); });
      size_t p1 = n.find('_'), p2 = n.rfind('_'); int back = need(n.substr(0, p1) + n.substr(p2) + n.substr(p1, p2 - p1));
      if (back >= 0) law("roundtrip:" + n, {f, back}, dt, 0, 0, f, [=, &op](const Case &c, std::string *m) { return eqt(X(back, X(f, A0)), A0, op.a[0], false, m, "cast there and back is not the identity:"); });
      for (int g = 0; g < NOPS; g++) if (W[g] && OPS[g].sem == S_REINT && !memcmp(&OPS[g].a[0], &op.ret, sizeof(Ty))) {
        std::string gn = OPS[g].name, dn = n.substr(0, p1) + gn.substr(gn.find('_'), gn.rfind('_') - gn.find('_')) + n.substr(p2); int d = need(dn);
        if (d >= 0 && (n.find("q_") != std::string::npos) == (gn.find("q_") != std::string::npos)) law("chain:" + n + ":" + gn, {f, g, d}, dt, 0, 0, f, [=](const Case &c, std::string *m) { return eqt(X(g, X(f, A0)), X(d, A0), OPS[d].ret, false, m, "chain of casts differs from the direct cast:"); });
      }
    }
    // interleaving memory operations invert each other, and equal the 64-bit forms on each half
    if (op.sem == S_ST && op.ptrArg() == 0) {
      std::string ld = n; ld[1] = 'l'; ld[2] = 'd'; int l = need(ld);
      if (l >= 0) law("storeload:" + n, {f, l}, {op.a[0], op.a[1]}, 0, 0, f, [=, &op](const Case &c, std::string *m) {
        V mem = A0; XST(f, mem.b, A1); if (!eqt(XLD(l, mem.b), A1, op.a[1], false, m, "load after store:")) return false;
        V v = XLD(l, c.a[0]), w = A1; XST(f, w.b, v); return eqt(w, A0, op.a[0], false, m, "store after load:"); });
      if (op.a[1].nvec == 1) law("identity:" + n, {f}, {op.a[0], op.a[1]}, 0, 0, f, [=, &op](const Case &c, std::string *m) { V mem = A0; XST(f, mem.b, A1); return eqt(mem, A1, op.a[1], false, m, "contiguous store:"); });
      int q = n.find("q_") == std::string::npos ? need(qn(n)) : -1;
      if (q >= 0) { const Op &oq = OPS[q]; law("halves:" + n, {f, q}, {oq.a[0], oq.a[1]}, 0, 0, q, [=, &op, &oq](const Case &c, std::string *m) {
        V a = A0, b = A0, l, h; int vb = op.a[1].lanes * op.a[1].eb(); for (int v = 0; v < op.a[1].nvec; v++) { memcpy(l.b + v * vb, c.a[1] + 2 * v * vb, vb); memcpy(h.b + v * vb, c.a[1] + (2 * v + 1) * vb, vb); }
        XST(q, a.b, A1); XST(f, b.b, l); XST(f, b.b + op.a[0].bytes(), h); return eqt(a, b, oq.a[0], false, m, "128-bit store differs from two 64-bit stores:"); }); }
    }
    if (op.sem == S_LD) {
      if (op.ret.nvec == 1) law("identity:" + n, {f}, dt, 0, 0, f, [=, &op](const Case &c, std::string *m) { return eqt(XLD(f, c.a[0]), A0, op.ret, false, m, "contiguous load:"); });
      int q = n.find("q_") == std::string::npos ? need(qn(n)) : -1;
      if (q >= 0) { const Op &oq = OPS[q]; law("halves:" + n, {f, q}, {oq.a[0]}, 0, 0, q, [=, &op, &oq](const Case &c, std::string *m) {
        V r = XLD(q, c.a[0]), l = XLD(f, c.a[0]), h = XLD(f, c.a[0] + op.a[0].bytes()), w; int vb = op.ret.lanes * op.ret.eb();
        for (int v = 0; v < op.ret.nvec; v++) { memcpy(w.b + 2 * v * vb, l.b + v * vb, vb); memcpy(w.b + (2 * v + 1) * vb, h.b + v * vb, vb); }
        return eqt(r, w, oq.ret, false, m, "128-bit load differs from two 64-bit loads:"); }); }
      // de-interleaving a memory image: every register equals a strided contiguous read
      if (op.ret.nvec > 1) law("stride:" + n, {f}, dt, 0, 0, f, [=, &op](const Case &c, std::string *m) {
        V r = XLD(f, c.a[0]), w; int N = op.ret.nvec; for (int j = 0; j < N; j++) for (int i = 0; i < op.ret.lanes; i++) memcpy(w.b + (j * op.ret.lanes + i) * op.ret.eb(), c.a[0] + (i * N + j) * op.ret.eb(), op.ret.eb());
        return eqt(r, w, op.ret, false, m, "register is not the strided memory:"); });
    }
    if (op.sem == S_LDLANE) {
      std::string base = n.substr(0, n.find("_lane")) + "_" + sx; int l = need(base);
      if (l >= 0) law("lanes:" + n, {f, l}, {OPS[l].a[0], op.ret}, 0, 0, l, [=, &op](const Case &c, std::string *m) {
        V acc = A1; for (int i = 0; i < op.ret.lanes; i++) acc = XLD(f, c.a[0] + i * op.ret.nvec * op.ret.eb(), acc, i); return eqt(acc, XLD(l, c.a[0]), op.ret, false, m, "loading all lanes one by one differs from the full load:"); });
      law("keeps:" + n, {f}, {op.a[0], op.ret}, op.lo, op.hi, -1, [=, &op](const Case &c, std::string *m) {
        V r = XLD(f, c.a[0], A1, c.imm), w = A1; for (int j = 0; j < op.ret.nvec; j++) w.b[j * op.ret.lanes + c.imm] = c.a[0][j]; return eqt(r, w, op.ret, false, m, "lane load touches other lanes:"); });
    }
    if (op.sem == S_STLANE) { int g = need("vgetq_lane_f32"); law("lanes:" + n, {f, g}, {op.a[0], op.a[1]}, 0, 3, -1, [=, &op](const Case &c, std::string *m) {
      V mem = A0, w; XST(f, mem.b, A1, c.imm); for (int j = 0; j < 4; j++) memcpy(w.b + 4 * j, XI(g, mkv(c.a[1] + 16 * j, 16), c.imm).b, 4); return eqt(mem, w, op.a[0], false, m, "lane store differs from extracting the lanes:"); }); }
    if (op.sem == S_LDDUP) { int d = need("vdupq_n_f32"); law("dup:" + n, {f, d}, dt, 0, 0, f, [=, &op](const Case &c, std::string *m) { return eqt(XLD(f, c.a[0]), X(d, A0), op.ret, false, m, "load-dup differs from dup:"); }); }
    if (op.sem == S_DUP) law("dup:" + n, {f}, dt, 0, 0, f, [=, &op](const Case &c, std::string *m) { return eqt(X(f, A0), bro(A0, op.ret.eb(), op.ret.n()), op.ret, false, m, "broadcast lanes differ from the scalar:"); });
    if (op.sem == S_GETLANE) {
      std::string q = op.a[0].bytes() == 16 ? "q" : ""; int st = need("vst1" + q + "_" + sx), dp = need("vdup" + q + "_n_" + sx);
      law("getlane:" + n, {f}, dt, op.lo, op.hi, f, [=, &op](const Case &c, std::string *m) { V r = XI(f, A0, c.imm), w; memcpy(w.b, c.a[0] + c.imm * op.ret.eb(), op.ret.eb()); Ty t = vecof(op.ret); t.lanes = 1; t.nvec = 1; return eqt(r, w, t, false, m, "extracted lane differs from the register bits:"); });
      if (st >= 0) law("getstore:" + n, {f, st}, dt, op.lo, op.hi, f, [=, &op](const Case &c, std::string *m) { V mem, w; XST(st, mem.b, A0); memcpy(w.b, mem.b + c.imm * op.ret.eb(), op.ret.eb()); Ty t = vecof(op.ret); t.lanes = t.nvec = 1; return eqt(XI(f, A0, c.imm), w, t, false, m, "extracted lane differs from the stored element:"); });
      if (dp >= 0) law("getdup:" + n, {f, dp}, {op.ret}, op.lo, op.hi, -1, [=, &op](const Case &c, std::string *m) { Ty t = vecof(op.ret); t.lanes = t.nvec = 1; return eqt(XI(f, X(dp, A0), c.imm), A0, t, false, m, "lane of a broadcast differs from the scalar:"); });
    }
    // monotone in the first operand, for the clamping and rounding narrowing forms, min/max and conversions
    if (op.sem == S_QSHR || op.sem == S_QRSHR || op.sem == S_QMOV || op.sem == S_MAX || op.sem == S_MIN || op.sem == S_QADD || op.sem == S_QSUB || op.sem == S_CVT_FI) {
      law("monotone:" + n, {f}, dt, op.lo, op.hi, f, [=, &op](const Case &c, std::string *m) {
        const Ty &t = op.a[0]; int N = t.n(); std::vector<std::pair<i128, u64>> v; for (int i = 0; i < N; i++) v.push_back({geti(c.a[0], t, i), getraw(c.a[0], t.eb(), i)}); std::sort(v.begin(), v.end());
        V a; for (int i = 0; i < N; i++) putraw(a.b, t.eb(), i, v[i].second); V b = dt.size() > 1 ? bro(A1, op.a[1].eb(), op.a[1].n()) : V();
        V r = X(f, a, b, V(), c.imm);
        for (int i = 1; i < N; i++) { bool bad = op.ret.k == 'f' ? f32of(getraw(r.b, 4, i)) < f32of(getraw(r.b, 4, i - 1)) : geti(r.b, op.ret, i) < geti(r.b, op.ret, i - 1); if (bad) { if (m) *m = "not monotone: operand " + lanes_text(a.b, t) + " gives " + lanes_text(r.b, op.ret); return false; } }
        return true; });
    }
  }

  // ---- families by element type ----------------------------------------------------------
  for (const char *ks : KS) {
    const std::string s = ks; const int b = bitsof(s), eb = b / 8; const bool sg = s[0] == 's'; const u64 top = 1ULL << (b - 1);
    for (int q = 0; q < 2; q++) {
      const std::string qq = q ? "q" : ""; const Ty T = q ? Q(s) : D(s); const int n = T.n();
      auto N = [&](const std::string &base) { return need(base + qq + "_" + s); };
      int ad = N("vadd"), su = N("vsub"), an = N("vand"), orr = N("vorr"), eo = N("veor"), mv = N("vmvn"), mu = N("vmul"), qs = N("vqsub"), qa = N("vqadd");
      law("inverse:vadd" + qq + "_" + s, {ad, su}, {T, T}, 0, 0, ad, [=](const Case &c, std::string *m) { return eqt(X(su, X(ad, A0, A1), A1), A0, T, false, m, "(a+b)-b != a:"); });
      law("inverse2:vsub" + qq + "_" + s, {su, ad}, {T, T}, 0, 0, su, [=](const Case &c, std::string *m) { return eqt(X(ad, X(su, A0, A1), A1), A0, T, false, m, "(a-b)+b != a:"); });
      law("assoc:vadd" + qq + "_" + s, {ad}, {T, T, T}, 0, 0, -1, [=](const Case &c, std::string *m) { return eqt(X(ad, X(ad, A0, A1), A2), X(ad, A0, X(ad, A1, A2)), T, false, m, "addition is not associative:"); });
      law("antisym:vsub" + qq + "_" + s, {su}, {T, T}, 0, 0, su, [=](const Case &c, std::string *m) { return eqt(X(su, V(), X(su, A0, A1)), X(su, A1, A0), T, false, m, "0-(a-b) != b-a:"); });
      law("addbits:" + qq + s, {ad, an, orr}, {T, T}, 0, 0, ad, [=](const Case &c, std::string *m) { return eqt(X(ad, X(an, A0, A1), X(orr, A0, A1)), X(ad, A0, A1), T, false, m, "(a&b)+(a|b) != a+b:"); });
      law("subxor:" + qq + s, {su, an, eo}, {T, T}, 0, 0, su, [=](const Case &c, std::string *m) { V k = X(an, A0, A1); return eqt(X(su, A0, k), X(eo, A0, k), T, false, m, "a-(a&b) != a^(a&b):"); });
      law("xororand:" + qq + s, {eo, orr, an}, {T, T}, 0, 0, eo, [=](const Case &c, std::string *m) { return eqt(X(eo, X(orr, A0, A1), X(an, A0, A1)), X(eo, A0, A1), T, false, m, "(a|b)^(a&b) != a^b:"); });
      law("xorinv:" + qq + s, {eo}, {T, T}, 0, 0, eo, [=](const Case &c, std::string *m) { return eqt(X(eo, X(eo, A0, A1), A1), A0, T, false, m, "(a^b)^b != a:"); });
      law("absorb:" + qq + s, {an, orr}, {T, T}, 0, 0, an, [=](const Case &c, std::string *m) { return eqt(X(an, A0, X(orr, A0, A1)), A0, T, false, m, "a&(a|b) != a:") && eqt(X(orr, A0, X(an, A0, A1)), A0, T, false, m, "a|(a&b) != a:"); });
      law("demorgan:" + qq + s, {an, orr, mv}, {T, T}, 0, 0, an, [=](const Case &c, std::string *m) { return eqt(X(mv, X(an, A0, A1)), X(orr, X(mv, A0), X(mv, A1)), T, false, m, "De Morgan:"); });
      law("mvnxor:" + qq + s, {mv, eo}, {T}, 0, 0, mv, [=](const Case &c, std::string *m) { return eqt(X(mv, A0), X(eo, A0, fillc(~0ULL, 8, 2)), T, false, m, "~a != a^ones:"); });
      law("mvnsub:" + qq + s, {mv, su}, {T}, 0, 0, mv, [=](const Case &c, std::string *m) { return eqt(X(mv, A0), X(su, fillc(~0ULL, 8, 2), A0), T, false, m, "~a != -1-a:"); });
      law("distrib:vmul" + qq + "_" + s, {mu, ad}, {T, T, T}, 0, 0, -1, [=](const Case &c, std::string *m) { return eqt(X(mu, A0, X(ad, A1, A2)), X(ad, X(mu, A0, A1), X(mu, A0, A2)), T, false, m, "a*(b+c) != a*b+a*c:"); });
      law("mulone:vmul" + qq + "_" + s, {mu, su}, {T}, 0, 0, mu, [=](const Case &c, std::string *m) { return eqt(X(mu, A0, fillc(1, eb, n)), A0, T, false, m, "a*1 != a:") && eqt(X(mu, A0, fillc(~0ULL, eb, n)), X(su, V(), A0), T, false, m, "a*-1 != 0-a:"); });
      if (sg) law("satflip:vqsub" + qq + "_" + s, {qs, eo}, {T, T}, 0, 0, qs, [=](const Case &c, std::string *m) { V o = fillc(~0ULL, 8, 2); return eqt(X(qs, X(eo, A0, o), X(eo, A1, o)), X(qs, A1, A0), T, false, m, "qsub(~a,~b) != qsub(b,a):"); });
      else law("satpair:vqsub" + qq + "_" + s, {qs, su}, {T, T}, 0, 0, qs, [=](const Case &c, std::string *m) { return eqt(X(su, X(qs, A0, A1), X(qs, A1, A0)), X(su, A0, A1), T, false, m, "qsub(a,b)-qsub(b,a) != a-b:"); });
      law("nosat:vqsub" + qq + "_" + s, {qs, su}, {T, T}, 0, 0, qs, [=](const Case &c, std::string *m) {
        auto h = [&](u64 v, int) { return sg ? (u64)(toint(v, b, true) >> 1) : v; }; V x = lanes(A0, eb, n, h), y = lanes(A1, eb, n, h);
        if (!sg) for (int i = 0; i < n; i++) if (getraw(x.b, eb, i) < getraw(y.b, eb, i)) { u64 t = getraw(x.b, eb, i); putraw(x.b, eb, i, getraw(y.b, eb, i)); putraw(y.b, eb, i, t); }
        return eqt(X(qs, x, y), X(su, x, y), T, false, m, "saturating differs from wrapping where nothing saturates:"); });
      law("satbound:vqsub" + qq + "_" + s, {qs}, {T, T}, 0, 0, qs, [=](const Case &c, std::string *m) {
        V r = X(qs, A0, A1); for (int i = 0; i < n; i++) { i128 x = geti(c.a[0], T, i), y = geti(c.a[1], T, i), z = geti(r.b, T, i); bool bad = y >= 0 ? z > x : z < x; if (bad) { if (m) *m = "subtracting moves the wrong way: " + lanes_text(r.b, T); return false; } } return true; });
      if (qa >= 0) { law("nosat:vqadd" + qq + "_" + s, {qa, ad}, {T, T}, 0, 0, qa, [=](const Case &c, std::string *m) { auto h = [&](u64 v, int) { return v >> 1; }; V x = lanes(A0, eb, n, h), y = lanes(A1, eb, n, h); return eqt(X(qa, x, y), X(ad, x, y), T, false, m, "saturating differs from wrapping where nothing saturates:"); });
        law("satdual:vqadd" + qq + "_" + s, {qa, qs, mv}, {T, T}, 0, 0, qa, [=](const Case &c, std::string *m) { return eqt(X(qa, A0, A1), X(mv, X(qs, X(mv, A0), A1)), T, false, m, "a +sat b != ~(~a -sat b):"); }); }
      // halving subtract through the exact widened difference
      int hs = N("vhsub"), sl = need("vsubl_" + s), sn = b < 64 ? need("vshrn_n_" + wd(s)) : -1;
      if (!q) law("widen:vhsub_" + s, {hs, sl, sn}, {T, T}, 0, 0, hs, [=](const Case &c, std::string *m) { return eqt(X(hs, A0, A1), XI(sn, X(sl, A0, A1), 1), T, false, m, "vhsub != narrow(widened difference >> 1):"); });
      // reinterpret-style facts on halves
      if (q && b < 64) {
        int co = need("vcombine_" + s), gl = need("vget_low_" + s), gh = need("vget_high_" + s); const Ty H = D(s);
        law("split:" + s, {co, gl, gh}, {T}, 0, 0, -1, [=](const Case &c, std::string *m) { return eqt(X(co, X(gl, A0), X(gh, A0)), A0, T, false, m, "combine(low,high) != a:"); });
        law("join:" + s, {co, gl, gh}, {H, H}, 0, 0, -1, [=](const Case &c, std::string *m) { V r = X(co, A0, A1); return eqt(X(gl, r), A0, H, false, m, "low(combine) != a:") && eqt(X(gh, r), A1, H, false, m, "high(combine) != b:"); });
        int mx = N("vmax"), mn = N("vmin");
        law("minmaxsum:" + s, {mx, mn, ad}, {T, T}, 0, 0, mx, [=](const Case &c, std::string *m) { return eqt(X(ad, X(mx, A0, A1), X(mn, A0, A1)), X(ad, A0, A1), T, false, m, "max+min != a+b:"); });
        law("minmaxabsorb:" + s, {mx, mn}, {T, T}, 0, 0, mx, [=](const Case &c, std::string *m) { return eqt(X(mx, A0, X(mn, A0, A1)), A0, T, false, m, "max(a,min(a,b)) != a:") && eqt(X(mn, A0, X(mx, A0, A1)), A0, T, false, m, "min(a,max(a,b)) != a:"); });
        law("minmaxflip:" + s, {mx, mn, eo}, {T, T}, 0, 0, mx, [=](const Case &c, std::string *m) { V o = fillc(~0ULL, 8, 2); return eqt(X(eo, X(mx, A0, A1), o), X(mn, X(eo, A0, o), X(eo, A1, o)), T, false, m, "~max(a,b) != min(~a,~b):"); });
        if (!sg) { law("submax:" + s, {qs, mx, su}, {T, T}, 0, 0, qs, [=](const Case &c, std::string *m) { return eqt(X(qs, A0, A1), X(su, X(mx, A0, A1), A1), T, false, m, "qsub(a,b) != max(a,b)-b:"); });
          int mxs = need("vmaxq_s" + std::to_string(b)), mns = need("vminq_s" + std::to_string(b));
          law("signflip:max_" + s, {mx, mxs}, {T, T}, 0, 0, mx, [=](const Case &c, std::string *m) { return eqt(X(mx, A0, A1), xorc(X(mxs, xorc(A0, top, eb, n), xorc(A1, top, eb, n)), top, eb, n), T, false, m, "unsigned max differs from signed max with the sign bit flipped:"); });
          law("signflip:min_" + s, {mn, mns}, {T, T}, 0, 0, mn, [=](const Case &c, std::string *m) { return eqt(X(mn, A0, A1), xorc(X(mns, xorc(A0, top, eb, n), xorc(A1, top, eb, n)), top, eb, n), T, false, m, "unsigned min differs from signed min with the sign bit flipped:"); }); }
        int ml = N("vmla"); law("mla:" + s, {ml, ad, mu}, {T, T, T}, 0, 0, ml, [=](const Case &c, std::string *m) { return eqt(X(ml, A0, A1, A2), X(ad, A0, X(mu, A1, A2)), T, false, m, "mla(a,b,c) != a + b*c:"); });
      }
    }
    // widening families
    if (b < 64) {
      const std::string w = wd(s); const Ty T = D(s), Wt = Q(w), TQ = Q(s); const int wb = b * 2;
      int mvl = need("vmovl_" + s), aw = need("vaddw_" + s), sw = need("vsubw_" + s), sl = need("vsubl_" + s), al = need("vaddl_" + s), alh = need("vaddl_high_" + s), awh = need("vaddw_high_" + s), aq = need("vaddq_" + w), sq = need("vsubq_" + w), mll = need("vmull_" + s), mal = need("vmlal_" + s), msl = need("vmlsl_" + s), mu = need("vmul_" + s), gh = need("vget_high_" + s), mn = need("vmovn_" + w), mqw = need("vmulq_" + w);
      law("widenadd:" + s, {aw, aq, mvl}, {Wt, T}, 0, 0, aw, [=](const Case &c, std::string *m) { return eqt(X(aw, A0, A1), X(aq, A0, X(mvl, A1)), Wt, false, m, "vaddw(a,b) != a + vmovl(b):"); });
      law("widensub:" + s, {sw, sq, mvl}, {Wt, T}, 0, 0, sw, [=](const Case &c, std::string *m) { return eqt(X(sw, A0, A1), X(sq, A0, X(mvl, A1)), Wt, false, m, "vsubw(a,b) != a - vmovl(b):"); });
      law("widensubl:" + s, {sl, sw, mvl}, {T, T}, 0, 0, sl, [=](const Case &c, std::string *m) { return eqt(X(sl, A0, A1), X(sw, X(mvl, A0), A1), Wt, false, m, "vsubl(a,b) != vsubw(vmovl(a),b):"); });
      if (al >= 0) law("widenaddl:" + s, {al, aw, mvl}, {T, T}, 0, 0, al, [=](const Case &c, std::string *m) { return eqt(X(al, A0, A1), X(aw, X(mvl, A0), A1), Wt, false, m, "vaddl(a,b) != vaddw(vmovl(a),b):"); });
      law("addlhigh:" + s, {alh, aw, mvl, gh}, {TQ, TQ}, 0, 0, alh, [=](const Case &c, std::string *m) { return eqt(X(alh, A0, A1), X(aw, X(mvl, X(gh, A0)), X(gh, A1)), Wt, false, m, "vaddl_high differs from the base form on upper halves:"); });
      law("addwhigh:" + s, {awh, aw, gh}, {Wt, TQ}, 0, 0, awh, [=](const Case &c, std::string *m) { return eqt(X(awh, A0, A1), X(aw, A0, X(gh, A1)), Wt, false, m, "vaddw_high differs from vaddw on the upper half:"); });
      law("widentwice:" + s, {sw, aw}, {Wt, T}, 0, 0, aw, [=](const Case &c, std::string *m) { return eqt(X(sw, X(aw, A0, A1), A1), A0, Wt, false, m, "(a +w b) -w b != a:"); });
      law("movlvalue:" + s, {mvl}, {T}, 0, 0, mvl, [=](const Case &c, std::string *m) { V r = X(mvl, A0), v; for (int i = 0; i < T.n(); i++) putraw(v.b, wb / 8, i, (u64)(sg ? (int64_t)toint(getraw(c.a[0], eb, i), b, true) : (int64_t)getraw(c.a[0], eb, i))); return eqt(r, v, Wt, false, m, "vmovl changes a value:"); });
      if (mn >= 0) law("narrowwiden:" + s, {mn, mvl}, {T}, 0, 0, mvl, [=](const Case &c, std::string *m) { return eqt(X(mn, X(mvl, A0)), A0, T, false, m, "vmovn(vmovl(a)) != a:"); });
      law("mlal:" + s, {mal, aq, mll}, {Wt, T, T}, 0, 0, mal, [=](const Case &c, std::string *m) { return eqt(X(mal, A0, A1, A2), X(aq, A0, X(mll, A1, A2)), Wt, false, m, "vmlal(a,b,c) != a + vmull(b,c):"); });
      law("mlsl:" + s, {msl, sq, mll}, {Wt, T, T}, 0, 0, msl, [=](const Case &c, std::string *m) { return eqt(X(msl, A0, A1, A2), X(sq, A0, X(mll, A1, A2)), Wt, false, m, "vmlsl(a,b,c) != a - vmull(b,c):"); });
      law("mulllow:" + s, {mll, mu}, {T, T}, 0, 0, mll, [=](const Case &c, std::string *m) { V p = X(mll, A0, A1), v; for (int i = 0; i < T.n(); i++) putraw(v.b, eb, i, getraw(p.b, wb / 8, i)); return eqt(X(mu, A0, A1), v, T, false, m, "vmul is not the low half of vmull:"); });
      if (mqw >= 0) law("mullwide:" + s, {mll, mqw, mvl}, {T, T}, 0, 0, mll, [=](const Case &c, std::string *m) { return eqt(X(mll, A0, A1), X(mqw, X(mvl, A0), X(mvl, A1)), Wt, false, m, "vmull(a,b) != vmovl(a)*vmovl(b):"); });
      law("mulldist:" + s, {mll, mal}, {T, T}, 0, 0, mll, [=](const Case &c, std::string *m) { V x1, x2; for (int i = 0; i < T.n(); i++) { i128 v = geti(c.a[0], T, i), h = v >> 1; putraw(x1.b, eb, i, (u64)h); putraw(x2.b, eb, i, (u64)(v - h)); } return eqt(X(mal, X(mll, x1, A1), x2, A1), X(mll, A0, A1), Wt, false, m, "x1*y + x2*y != (x1+x2)*y in the wide type:"); });
      law("mullone:" + s, {mll, mvl}, {T}, 0, 0, mvl, [=](const Case &c, std::string *m) { return eqt(X(mll, A0, fillc(1, eb, T.n())), X(mvl, A0), Wt, false, m, "vmull(a,1) != vmovl(a):"); });
      // narrowing high half
      int ahn = need("vaddhn_high_" + w), shn = need("vsubhn_" + w), rsh = need("vrsubhn_" + w), sn = need("vshrn_n_" + w), qsn = need("vqshrn_n_" + w); const int WB = wb / 8, WN = Wt.n();
      law("addhn:" + w, {ahn, aq, sn}, {T, Wt, Wt}, 0, 0, ahn, [=](const Case &c, std::string *m) { return eqt(X(ahn, A0, A1, A2), cat(A0, XI(sn, X(aq, A1, A2), b), 8), TQ, false, m, "vaddhn_high(r,a,b) != combine(r, vshrn(a+b)):"); });
      law("subhn:" + w, {shn, sq, sn}, {Wt, Wt}, 0, 0, shn, [=](const Case &c, std::string *m) { return eqt(X(shn, A0, A1), XI(sn, X(sq, A0, A1), b), T, false, m, "vsubhn(a,b) != vshrn(a-b):"); });
      law("rsubhn:" + w, {rsh, sq, aq, shn}, {Wt, Wt}, 0, 0, rsh, [=](const Case &c, std::string *m) { return eqt(X(rsh, A0, A1), X(shn, X(aq, A0, fillc(1ULL << (b - 1), WB, WN)), A1), T, false, m, "vrsubhn(a,b) != vsubhn(a+half,b):"); });
      law("shrnstep:" + w, {sn}, {Wt}, 2, b, sn, [=](const Case &c, std::string *m) { V h = lanes(A0, WB, WN, [&](u64 v, int) { return sg ? (u64)(toint(v, wb, true) >> 1) : v >> 1; }); return eqt(XI(sn, A0, c.imm), XI(sn, h, c.imm - 1), T, false, m, "vshrn(a,n) != vshrn(a>>1,n-1):"); });
      law("shrnbits:" + w, {sn}, {Wt}, 1, b, sn, [=](const Case &c, std::string *m) { V v; for (int i = 0; i < WN; i++) putraw(v.b, eb, i, getraw(c.a[0], WB, i) >> c.imm); return eqt(XI(sn, A0, c.imm), v, T, false, m, "vshrn does not return bits n and up:"); });
      law("qshrnfit:" + w, {qsn, sn}, {Wt}, 1, b, qsn, [=](const Case &c, std::string *m) {   // values that fit after the shift
        V x = lanes(A0, WB, WN, [&](u64 v, int) { u64 k = b - c.imm; return sg ? (u64)(toint(v, wb, true) >> k) : v >> k; });
        return eqt(XI(qsn, x, c.imm), XI(sn, x, c.imm), T, false, m, "saturating narrowing shift differs from plain one where nothing saturates:"); });
      law("qshrnstep:" + w, {qsn}, {Wt}, 2, b, qsn, [=](const Case &c, std::string *m) { V h = lanes(A0, WB, WN, [&](u64 v, int) { return sg ? (u64)(toint(v, wb, true) >> 1) : v >> 1; }); return eqt(XI(qsn, A0, c.imm), XI(qsn, h, c.imm - 1), T, false, m, "vqshrn(a,n) != vqshrn(a>>1,n-1):"); });
      if (sg) { int qsu = need("vqshrun_n_" + w), qu = need("vqshrn_n_u" + std::to_string(wb)); const Ty UT = TV('u', b, T.lanes);
        law("qshrunpos:" + w, {qsu, qu}, {Wt}, 1, b, qsu, [=](const Case &c, std::string *m) { V x = lanes(A0, WB, WN, [&](u64 v, int) { return toint(v, wb, true) < 0 ? 0 : v; }); return eqt(XI(qsu, A0, c.imm), XI(qu, x, c.imm), UT, false, m, "vqshrun(a,n) != vqshrn_u(max(a,0),n):"); }); }
    }
  }
  // ---- single families -------------------------------------------------------------------
  for (const char *s8 : {"s8", "u8"}) { std::string s = s8; int z = need("vzip_" + s), u = need("vuzp_" + s); Ty T = D(s), T2 = TV(s[0], 8, 8, 2);
    law("zipunzip:" + s, {z, u}, {T, T}, 0, 0, -1, [=](const Case &c, std::string *m) { V r = X(z, A0, A1), q = X(u, mkv(r.b, 8), mkv(r.b + 8, 8)); return eqt(q, cat(A0, A1, 8), T2, false, m, "unzip(zip(a,b)) != (a,b):"); });
    law("unzipzip:" + s, {z, u}, {T, T}, 0, 0, -1, [=](const Case &c, std::string *m) { V r = X(u, A0, A1), q = X(z, mkv(r.b, 8), mkv(r.b + 8, 8)); return eqt(q, cat(A0, A1, 8), T2, false, m, "zip(unzip(a,b)) != (a,b):"); });
    int st2 = need("vst2_" + s), ld2 = need("vld2_" + s); law("zipstore:" + s, {z, st2}, {T, T}, 0, 0, -1, [=](const Case &c, std::string *m) { V mem; XST(st2, mem.b, cat(A0, A1, 8)); return eqt(mem, X(z, A0, A1), T2, false, m, "vst2 differs from zip:"); });
    law("unzipload:" + s, {u, ld2}, {T, T}, 0, 0, -1, [=](const Case &c, std::string *m) { V mem = cat(A0, A1, 8); return eqt(XLD(ld2, mem.b), X(u, A0, A1), T2, false, m, "vld2 differs from unzip:"); }); }
  { int z = need("vzip_s16"), t = need("vtrn_s16"), t32 = need("vtrn_s32"), st2 = need("vst2_s16"); Ty T = D("s16"), T2 = TV('s', 16, 4, 2);
    law("ziptrn:s16", {z, t, t32}, {T, T}, 0, 0, -1, [=](const Case &c, std::string *m) { V r = X(t, A0, A1), q = X(t32, mkv(r.b, 8), mkv(r.b + 8, 8)); return eqt(X(z, A0, A1), q, T2, false, m, "vzip_s16 != vtrn_s32(vtrn_s16):"); });
    law("zipstore:s16", {z, st2}, {T, T}, 0, 0, -1, [=](const Case &c, std::string *m) { V mem; XST(st2, mem.b, cat(A0, A1, 8)); return eqt(mem, X(z, A0, A1), T2, false, m, "vst2 differs from zip:"); }); }
  // vtrn through zip/unzip: even lanes of both operands interleaved
  for (const char *s8 : {"s8", "u8"}) { std::string s = s8; int t = need("vtrn_" + s), z = need("vzip_" + s), u = need("vuzp_" + s); Ty T = D(s), T2 = TV(s[0], 8, 8, 2);
    law("trnzip:" + s, {t, z, u}, {T, T}, 0, 0, -1, [=](const Case &c, std::string *m) { V x = X(u, A0, A0), y = X(u, A1, A1); V e = X(z, mkv(x.b, 8), mkv(y.b, 8)), o = X(z, mkv(x.b + 8, 8), mkv(y.b + 8, 8)); return eqt(X(t, A0, A1), cat(e, o, 8), T2, false, m, "vtrn differs from zip of unzipped lanes:"); }); }
  for (const char *w : {"u8", "u16", "s16"}) { std::string s = w; int e = need("vext_" + s); Ty T = D(s); int L = T.n(), eb = T.eb();
    law("ext0:" + s, {e}, {T, T}, 0, 0, -1, [=](const Case &c, std::string *m) { return eqt(XI2(e, A0, A1, 0), A0, T, false, m, "vext(a,b,0) != a:"); });
    law("extrot:" + s, {e}, {T}, 1, L - 1, -1, [=](const Case &c, std::string *m) { V r = XI2(e, A0, A0, c.imm); return eqt(XI2(e, r, r, L - c.imm), A0, T, false, m, "rotating by n then by L-n is not the identity:"); });
    law("extcomp:" + s, {e}, {T, T, T}, 1, L - 1, -1, [=](const Case &c, std::string *m) { V p = XI2(e, A0, A1, c.imm), q = XI2(e, A1, A2, c.imm); return eqt(XI2(e, p, q, L - c.imm), A1, T, false, m, "vext(vext(a,b,n),vext(b,c,n),L-n) != b:"); });
    if (eb == 1) { int tb = need("vtbl2_u8"); law("exttbl:" + s, {e, tb}, {T, T}, 0, L - 1, -1, [=](const Case &c, std::string *m) { V ix; for (int i = 0; i < 8; i++) ix.b[i] = i + c.imm; return eqt(XI2(e, A0, A1, c.imm), X(tb, cat(A0, A1, 8), ix), T, false, m, "vext differs from a table lookup:"); }); }
    else { int e8 = need("vext_u8"); law("extbytes:" + s, {e, e8}, {T, T}, 0, L - 1, -1, [=](const Case &c, std::string *m) { return eqt(XI2(e, A0, A1, c.imm), XI2(e8, A0, A1, c.imm * eb), T, false, m, "vext differs from the byte-wise vext:"); }); } }
  { int e = need("vextq_u16"), d = need("vext_u16"); Ty T = Q("u16"); law("extqhalves", {e, d}, {T, T}, 0, 7, -1, [=](const Case &c, std::string *m) {
      V h[4] = {lo(A0, 16), hi(A0, 16), lo(A1, 16), hi(A1, 16)}; int k = c.imm / 4, r = c.imm % 4; V x = r ? XI2(d, h[k], h[k + 1], r) : h[k], y = r ? (k + 2 < 4 ? XI2(d, h[k + 1], h[k + 2], r) : XI2(d, h[k + 1], h[k + 1], r)) : h[k + 1];
      return eqt(XI2(e, A0, A1, c.imm), cat(x, y, 8), T, false, m, "vextq_u16 differs from vext_u16 on halves:"); });
    law("extqcomp", {e}, {T, T, T}, 1, 7, -1, [=](const Case &c, std::string *m) { V p = XI2(e, A0, A1, c.imm), q = XI2(e, A1, A2, c.imm); return eqt(XI2(e, p, q, 8 - c.imm), A1, T, false, m, "vextq composition:"); }); }
  { int t1 = need("vtbl1_u8"), t2 = need("vtbl2_u8"), t4 = need("vtbl4_u8"), qt = need("vqtbl1_u8"), orr = need("vorr_u8"); Ty T = D("u8"), T2 = TV('u', 8, 8, 2), T4 = TV('u', 8, 8, 4), QT = Q("u8");
    auto smallix = [](const V &i, int m) { V r = i; for (int k = 0; k < 8; k++) if (i.b[k] & 1) r.b[k] = (i.b[k] >> 1) % m; return r; };
    auto minus = [](const V &i, int d) { V r; for (int k = 0; k < 8; k++) r.b[k] = i.b[k] < d ? 255 : i.b[k] - d; return r; };
    V iota; for (int i = 0; i < 8; i++) iota.b[i] = i;
    law("tblid", {t1}, {T}, 0, 0, -1, [=](const Case &c, std::string *m) { return eqt(X(t1, A0, iota), A0, T, false, m, "tbl1(t,iota) != t:"); });
    law("tbl2split", {t2, t1, orr}, {T2, T}, 0, 0, -1, [=](const Case &c, std::string *m) { V i = smallix(A1, 18); return eqt(X(t2, A0, i), X(orr, X(t1, mkv(c.a[0], 8), i), X(t1, mkv(c.a[0] + 8, 8), minus(i, 8))), T, false, m, "tbl2 != tbl1 | tbl1:"); });
    law("tbl4split", {t4, t2, orr}, {T4, T}, 0, 0, -1, [=](const Case &c, std::string *m) { V i = smallix(A1, 34); return eqt(X(t4, A0, i), X(orr, X(t2, mkv(c.a[0], 16), i), X(t2, mkv(c.a[0] + 16, 16), minus(i, 16))), T, false, m, "tbl4 != tbl2 | tbl2:"); });
    law("qtbl", {qt, t2}, {QT, T}, 0, 0, -1, [=](const Case &c, std::string *m) { V i = smallix(A1, 18); return eqt(X(qt, A0, i), X(t2, A0, i), T, false, m, "vqtbl1 differs from vtbl2 on the halves:"); }); 
    law("tblrev", {t1, need("vrev64_u8")}, {T}, 0, 0, -1, [=](const Case &c, std::string *m) { V r; for (int i = 0; i < 8; i++) r.b[i] = 7 - i; return eqt(X(t1, A0, r), X(need("vrev64_u8"), A0), T, false, m, "tbl1 with a reversed index differs from vrev64:"); }); }
  { int bs = need("vbslq_u8"), bf = need("vbslq_f32"), eo = need("veorq_u8"), an = need("vandq_u8"), mv = need("vmvnq_u8"); Ty T = Q("u8"), F = Q("f32"), U = Q("u32");
    law("bslxor:u8", {bs, eo, an}, {T, T, T}, 0, 0, bs, [=](const Case &c, std::string *m) { return eqt(X(bs, A0, A1, A2), X(eo, A2, X(an, A0, X(eo, A1, A2))), T, false, m, "bsl(m,a,b) != b^(m&(a^b)):"); });
    law("bslxor:f32", {bf, eo, an}, {U, F, F}, 0, 0, bf, [=](const Case &c, std::string *m) { return eqt(X(bf, A0, A1, A2), X(eo, A2, X(an, A0, X(eo, A1, A2))), F, false, m, "bsl(m,a,b) != b^(m&(a^b)) on bits:"); });
    law("bslswap:u8", {bs, mv}, {T, T, T}, 0, 0, bs, [=](const Case &c, std::string *m) { return eqt(X(bs, A0, A1, A2), X(bs, X(mv, A0), A2, A1), T, false, m, "bsl(m,a,b) != bsl(~m,b,a):"); });
    law("bslswap:f32", {bf, mv}, {U, F, F}, 0, 0, bf, [=](const Case &c, std::string *m) { return eqt(X(bf, A0, A1, A2), X(bf, X(mv, A0), A2, A1), F, false, m, "bsl(m,a,b) != bsl(~m,b,a):"); });
    int cg = need("vcgtq_u8"), mx = need("vmaxq_u8"), qs = need("vqsubq_u8");
    law("cgtmax:u8", {cg, bs, mx}, {T, T}, 0, 0, cg, [=](const Case &c, std::string *m) { return eqt(X(bs, X(cg, A0, A1), A0, A1), X(mx, A0, A1), T, false, m, "select by a>b differs from max:"); });
    law("cgtqsub:u8", {cg, qs}, {T, T}, 0, 0, cg, [=](const Case &c, std::string *m) { V q = X(qs, A0, A1), w; for (int i = 0; i < 16; i++) w.b[i] = q.b[i] ? 255 : 0; return eqt(X(cg, A0, A1), w, T, false, m, "a>b differs from qsub(a,b)!=0:"); });
    int cl = need("vcltq_f32"), sb = need("vsubq_f32"), mnf = need("vminq_f32");
    law("cltswap:f32", {cl, an}, {F, F}, 0, 0, cl, [=](const Case &c, std::string *m) { return eqt(X(an, X(cl, A0, A1), X(cl, A1, A0)), V(), U, false, m, "a<b and b<a both hold:"); });
    law("cltsub:f32", {cl, sb}, {F, F}, 0, 0, cl, [=](const Case &c, std::string *m) { V d = X(sb, A0, A1), w, skip; for (int i = 0; i < 4; i++) { u64 x = getraw(c.a[0], 4, i), y = getraw(c.a[1], 4, i); bool inf = (fcls(x, 32) | fcls(y, 32)) & C_INF; float f = f32of(getraw(d.b, 4, i)); putraw(w.b, 4, i, inf ? getraw(X(cl, A0, A1).b, 4, i) : f < 0 ? 0xffffffffu : 0); } return eqt(X(cl, A0, A1), w, U, false, m, "a<b differs from a-b<0:"); });
    law("cltmin:f32", {cl, bf, mnf}, {F, F}, 0, 0, cl, [=](const Case &c, std::string *m) { V s = X(bf, X(cl, A0, A1), A0, A1), w = X(mnf, A0, A1); for (int i = 0; i < 4; i++) { u64 x = getraw(c.a[0], 4, i), y = getraw(c.a[1], 4, i); if (isnan_raw(x, 32) || isnan_raw(y, 32) || f32of(x) == f32of(y)) putraw(s.b, 4, i, getraw(w.b, 4, i)); } return eqt(s, w, F, true, m, "select by a<b differs from min:"); }); }
  { // shifts
    int sh = need("vshlq_n_s32"), mn = need("vmulq_n_s32"), sr = need("vsraq_n_s32"), ad = need("vaddq_s32"), s16 = need("vshr_n_u16"), ll = need("vshll_n_u8"), mu16 = need("vmulq_n_u16"), mvl = need("vmovl_u8"), rn = need("vrshrn_n_u16"), sn = need("vshrn_n_u16"), co = need("vcombine_u16"), mvn = need("vmovn_u16"), mvn32 = need("vmovn_s32"), sn32 = need("vshrn_n_s32"), qru = need("vqrshrun_n_s16"), qsu = need("vqshrun_n_s16"), aq16 = need("vaddq_u16");
    Ty S32 = Q("s32"), U16 = D("u16"), U8 = D("u8"), U16Q = Q("u16"), S16Q = Q("s16"), S16D = D("s16");
    law("shlmul:s32", {sh, mn}, {S32}, 0, 31, sh, [=](const Case &c, std::string *m) { V s; putraw(s.b, 4, 0, 1u << c.imm); return eqt(XI(sh, A0, c.imm), X(mn, A0, s), S32, false, m, "a<<n != a*2^n:"); });
    law("shlsplit:s32", {sh}, {S32}, 0, 31, sh, [=](const Case &c, std::string *m) { int a = c.imm / 2; return eqt(XI(sh, XI(sh, A0, a), c.imm - a), XI(sh, A0, c.imm), S32, false, m, "(a<<i)<<j != a<<(i+j):"); });
    law("sraacc:s32", {sr, ad}, {S32, S32}, 1, 32, sr, [=](const Case &c, std::string *m) { return eqt(XI2(sr, A0, A1, c.imm), X(ad, A0, XI2(sr, V(), A1, c.imm)), S32, false, m, "sra(a,b,n) != a + sra(0,b,n):"); });
    law("srasplit:s32", {sr}, {S32}, 2, 32, -1, [=](const Case &c, std::string *m) { int a = c.imm / 2; return eqt(XI2(sr, V(), XI2(sr, V(), A0, a), c.imm - a), XI2(sr, V(), A0, c.imm), S32, false, m, "(b>>i)>>j != b>>(i+j):"); });
    law("srashl:s32", {sr, sh}, {S32}, 1, 31, -1, [=](const Case &c, std::string *m) { V w = lanes(A0, 4, 4, [&](u64 v, int) { return v & ~((1ULL << c.imm) - 1); }); return eqt(XI(sh, XI2(sr, V(), A0, c.imm), c.imm), w, S32, false, m, "(b>>n)<<n does not clear the low bits:"); });
    law("sranarrow:s32", {sr, mvn32, sn32}, {S32}, 1, 16, -1, [=](const Case &c, std::string *m) { return eqt(XI(sn32, A0, c.imm), X(mvn32, XI2(sr, V(), A0, c.imm)), S16D, false, m, "vshrn(a,n) != vmovn(a>>n):"); });
    law("shrsplit:u16", {s16}, {U16}, 2, 16, s16, [=](const Case &c, std::string *m) { int a = c.imm / 2; return eqt(XI(s16, XI(s16, A0, a), c.imm - a), XI(s16, A0, c.imm), U16, false, m, "(a>>i)>>j != a>>(i+j):"); });
    law("shrbits:u16", {s16}, {U16}, 1, 16, s16, [=](const Case &c, std::string *m) { V w = lanes(A0, 2, 4, [&](u64 v, int) { return v >> c.imm; }); return eqt(XI(s16, A0, c.imm), w, U16, false, m, "vshr_n_u16:"); });
    law("shrnarrow:u16", {s16, sn, co, mvn}, {U16Q}, 1, 8, sn, [=](const Case &c, std::string *m) { return eqt(XI(sn, A0, c.imm), X(mvn, X(co, XI(s16, lo(A0, 16), c.imm), XI(s16, hi(A0, 16), c.imm))), U8, false, m, "vshrn(a,n) != vmovn(vshr(a,n)):"); });
    law("shllmul:u8", {ll, mu16, mvl}, {U8}, 0, 8, ll, [=](const Case &c, std::string *m) { V s; putraw(s.b, 2, 0, 1u << c.imm); return eqt(XI(ll, A0, c.imm), X(mu16, X(mvl, A0), s), U16Q, false, m, "vshll(a,n) != vmovl(a)*2^n:"); });
    law("roundshift:u16", {rn, sn, aq16}, {U16Q}, 1, 8, rn, [=](const Case &c, std::string *m) { V x = lanes(A0, 2, 8, [&](u64 v, int) { return v > 0xff7f ? v - 0x100 : v; }); return eqt(XI(rn, x, c.imm), XI(sn, X(aq16, x, fillc(1u << (c.imm - 1), 2, 8)), c.imm), U8, false, m, "vrshrn(a,n) != vshrn(a+half,n):"); });
    law("qroundshift:s16", {qru, qsu, aq16}, {S16Q}, 1, 8, qru, [=](const Case &c, std::string *m) { V x = lanes(A0, 2, 8, [&](u64 v, int) { return toint(v, 16, true) > 0x7f00 ? v - 0x100 : v; }); return eqt(XI(qru, x, c.imm), XI(qsu, X(aq16, x, fillc(1u << (c.imm - 1), 2, 8)), c.imm), U8, false, m, "vqrshrun(a,n) != vqshrun(a+half,n):"); });
    int qmn = need("vqmovn_u16"), qmu = need("vqmovun_s16"), mnq = need("vminq_u16"), mns = need("vminq_s16"), mxs = need("vmaxq_s16");
    law("qmovmin:u16", {qmn, mvn, mnq}, {U16Q}, 0, 0, qmn, [=](const Case &c, std::string *m) { return eqt(X(qmn, A0), X(mvn, X(mnq, A0, fillc(255, 2, 8))), U8, false, m, "vqmovn(a) != vmovn(min(a,255)):"); });
    law("qmovunclamp:s16", {qmu, mvn, mns, mxs}, {S16Q}, 0, 0, qmu, [=](const Case &c, std::string *m) { return eqt(X(qmu, A0), X(mvn, X(mns, X(mxs, A0, V()), fillc(255, 2, 8))), U8, false, m, "vqmovun(a) != vmovn(clamp(a,0,255)):"); });
    int qd = need("vqdmull_s16"), ml = need("vmull_s16"); law("qdmull", {qd, ml, ad}, {S16D, S16D}, 0, 0, qd, [=](const Case &c, std::string *m) { V p = X(ml, A0, A1), w = X(ad, p, p); for (int i = 0; i < 4; i++) if (getraw(c.a[0], 2, i) == 0x8000 && getraw(c.a[1], 2, i) == 0x8000) putraw(w.b, 4, i, 0x7fffffff); return eqt(X(qd, A0, A1), w, S32, false, m, "vqdmull != saturated 2*a*b:"); }); }
  { // pairwise
    int p8 = need("vpaddl_u8"), pq8 = need("vpaddlq_u8"), pq16 = need("vpaddlq_u16"), al = need("vaddl_u8"), uz = need("vuzp_u8"), rv = need("vrev16q_u8"), rv32 = need("vrev32q_u16"); Ty T = D("u8"), TQ = Q("u8"), TQ16 = Q("u16"), R = D("u16"), RQ = Q("u16"), R32 = Q("u32");
    law("paddl:u8", {p8, al, uz}, {T}, 0, 0, p8, [=](const Case &c, std::string *m) { V z = X(uz, A0, A0); return eqt(X(p8, A0), X(al, mkv(z.b, 8), mkv(z.b + 8, 8)), R, false, m, "vpaddl != even lanes + odd lanes:"); });
    law("paddlswap:u8", {pq8, rv}, {TQ}, 0, 0, pq8, [=](const Case &c, std::string *m) { return eqt(X(pq8, A0), X(pq8, X(rv, A0)), RQ, false, m, "vpaddlq depends on the order inside a pair:"); });
    law("paddlswap:u16", {pq16, rv32}, {TQ16}, 0, 0, pq16, [=](const Case &c, std::string *m) { return eqt(X(pq16, A0), X(pq16, X(rv32, A0)), R32, false, m, "vpaddlq depends on the order inside a pair:"); });
    int ad32 = need("vaddq_u32"); law("paddlsplit:u16", {pq16, ad32}, {TQ16}, 0, 0, pq16, [=](const Case &c, std::string *m) { V e, o; for (int i = 0; i < 4; i++) { putraw(e.b, 4, i, getraw(c.a[0], 2, 2 * i)); putraw(o.b, 4, i, getraw(c.a[0], 2, 2 * i + 1)); } return eqt(X(pq16, A0), X(ad32, e, o), R32, false, m, "vpaddlq_u16 != even + odd:"); });
    int pM = need("vpmax_f32"), pm = need("vpmin_f32"), M = need("vmaxq_f32"), mm = need("vminq_f32"); Ty F = D("f32"), FQ = Q("f32");
    for (int k = 0; k < 2; k++) { int p = k ? pm : pM, v = k ? mm : M; law(k ? "pmin" : "pmax", {p, v}, {F, F}, 0, 0, p, [=](const Case &c, std::string *m) { V x, y; putraw(x.b, 4, 0, getraw(c.a[0], 4, 0)); putraw(y.b, 4, 0, getraw(c.a[0], 4, 1)); putraw(x.b, 4, 1, getraw(c.a[1], 4, 0)); putraw(y.b, 4, 1, getraw(c.a[1], 4, 1)); return eqt(X(p, A0, A1), X(v, x, y), F, true, m, "pairwise form differs from the lane-wise form:"); }); }
    law("negminmax", {M, mm}, {FQ, FQ}, 0, 0, M, [=](const Case &c, std::string *m) { return eqt(xorc(X(M, A0, A1), 0x80000000u, 4, 4), X(mm, xorc(A0, 0x80000000u, 4, 4), xorc(A1, 0x80000000u, 4, 4)), FQ, true, m, "-max(a,b) != min(-a,-b):"); });
    int ad = need("vaddq_f32"); law("minmaxmulti", {M, mm}, {FQ, FQ}, 0, 0, M, [=](const Case &c, std::string *m) { V x = X(M, A0, A1), y = X(mm, A0, A1); for (int i = 0; i < 4; i++) { u64 a = getraw(c.a[0], 4, i), b = getraw(c.a[1], 4, i), p = getraw(x.b, 4, i), q = getraw(y.b, 4, i); if (isnan_raw(a, 32) || isnan_raw(b, 32)) { if (!isnan_raw(p, 32) || !isnan_raw(q, 32)) { if (m) *m = "NaN operand does not give NaN: " + lanes_text(x.b, FQ) + lanes_text(y.b, FQ); return false; } continue; } if (!((p == a && q == b) || (p == b && q == a))) { if (m) *m = "max and min are not the two operands: " + lanes_text(x.b, FQ) + lanes_text(y.b, FQ); return false; } } return true; }); (void)ad; }
  { // conversions
    int fi = need("vcvtq_f32_s32"), si = need("vcvtq_s32_f32"), ui = need("vcvtq_u32_f32"), ni = need("vcvtnq_s32_f32"); Ty F = Q("f32"), S = Q("s32"), U = Q("u32");
    law("cvtround", {fi, si}, {S}, 0, 0, fi, [=](const Case &c, std::string *m) { V x = lanes(A0, 4, 4, [&](u64 v, int) { return (u64)((int64_t)(int32_t)v >> 7); }); return eqt(X(si, X(fi, x)), x, S, false, m, "int->float->int is not the identity below 2^24:"); });
    law("cvtodd", {si}, {F}, 0, 0, si, [=](const Case &c, std::string *m) { V x = A0; for (int i = 0; i < 4; i++) { float f = fabsf(f32of(getraw(x.b, 4, i))); if (!(f < 2147483648.0f)) putraw(x.b, 4, i, 0x3fc00000); } V p = X(si, x), q = X(si, xorc(x, 0x80000000u, 4, 4)); for (int i = 0; i < 4; i++) putraw(q.b, 4, i, 0 - getraw(q.b, 4, i)); return eqt(p, q, S, false, m, "cvt(-x) != -cvt(x):"); });
    law("cvtnodd", {ni}, {F}, 0, 0, ni, [=](const Case &c, std::string *m) { V x = A0; for (int i = 0; i < 4; i++) { float f = fabsf(f32of(getraw(x.b, 4, i))); if (!(f < 2147483648.0f)) putraw(x.b, 4, i, 0x3fc00000); } V p = X(ni, x), q = X(ni, xorc(x, 0x80000000u, 4, 4)); for (int i = 0; i < 4; i++) putraw(q.b, 4, i, 0 - getraw(q.b, 4, i)); return eqt(p, q, S, false, m, "cvtn(-x) != -cvtn(x):"); });
    law("cvtsign", {si, ui}, {F}, 0, 0, ui, [=](const Case &c, std::string *m) { V a = X(si, A0), b = X(ui, A0); for (int i = 0; i < 4; i++) { float f = f32of(getraw(c.a[0], 4, i)); u64 x = getraw(a.b, 4, i), y = getraw(b.b, 4, i); bool ok = f != f ? x == 0 && y == 0 : f < 0 ? y == 0 : f < 2147483648.0f ? x == y : x == 0x7fffffffu && y >= 0x80000000u; if (!ok) { if (m) *m = "signed and unsigned conversions disagree: " + lanes_text(a.b, S) + " vs " + lanes_text(b.b, U); return false; } } return true; });
    law("cvtnear", {ni, si}, {F}, 0, 0, ni, [=](const Case &c, std::string *m) { V a = X(ni, A0), t = X(si, A0); for (int i = 0; i < 4; i++) { float f = f32of(getraw(c.a[0], 4, i)); int64_t x = (int32_t)getraw(a.b, 4, i), y = (int32_t)getraw(t.b, 4, i); bool ok = true; if (f != f) ok = x == 0; else if (fabsf(f) < 2147483648.0f) { double d = (double)f - (double)x; ok = fabs(d) < 0.5 || (fabs(d) == 0.5 && !(x & 1)); } else ok = x == y; if (!ok) { if (m) *m = "not the nearest integer (ties to even): " + lanes_text(a.b, S); return false; } } return true; });
    law("cvttrunc", {si}, {F}, 0, 0, si, [=](const Case &c, std::string *m) { V a = X(si, A0); for (int i = 0; i < 4; i++) { float f = f32of(getraw(c.a[0], 4, i)); double x = (double)(int32_t)getraw(a.b, 4, i); if (fabsf(f) < 2147483648.0f && !(fabs(x) <= fabs((double)f) && fabs((double)f) - fabs(x) < 1 && (x == 0 || (x < 0) == (f < 0)))) { if (m) *m = "not truncation: " + lanes_text(a.b, S); return false; } } return true; });
    law("cvtexact", {fi}, {S}, 0, 0, fi, [=](const Case &c, std::string *m) { V r = X(fi, A0); for (int i = 0; i < 4; i++) { int32_t v = (int32_t)getraw(c.a[0], 4, i); u64 q = getraw(r.b, 4, i); double d = fabs((double)f32of(q) - (double)v), up = fabs((double)f32of(q + 1) - (double)v), dn = q & 0x7fffffff ? fabs((double)f32of(q - 1) - (double)v) : 9e99; bool ok = d <= up && d <= dn && !((d == up || d == dn) && d != 0 && (q & 1)); if (!ok) { if (m) *m = "not the nearest float (ties to even): " + lanes_text(r.b, F); return false; } } return true; }); }
  { // floating point
    Ty F = Q("f32"), G = Q("f64"), Dv = D("f32"), Gd = D("f64"); const u64 sg = 0x80000000u, sgd = 1ULL << 63;
    int ad = need("vaddq_f32"), su = need("vsubq_f32"), mu = need("vmulq_f32"), di = need("vdivq_f32"), ml = need("vmlaq_f32"), mln = need("vmlaq_n_f32"), mn = need("vmulq_n_f32"), mnd = need("vmul_n_f32"), did = need("vdiv_f32"), di64 = need("vdivq_f64"), d64 = need("vdiv_f64"), m64 = need("vmulq_n_f64"), m1 = need("vmul_n_f64"), s64 = need("vsub_f64"), sd = need("vsub_f32"), dup = need("vdupq_n_f32"), mov = need("vmovq_n_f32");
    law("fsubadd", {ad, su}, {F, F}, 0, 0, su, [=](const Case &c, std::string *m) { return eqt(X(su, A0, A1), X(ad, A0, xorc(A1, sg, 4, 4)), F, true, m, "a-b != a+(-b):"); });
    law("fmla", {ml, ad, mu}, {F, F, F}, 0, 0, ml, [=](const Case &c, std::string *m) { return eqt(X(ml, A0, A1, A2), X(ad, A0, X(mu, A1, A2)), F, true, m, "mla(a,b,c) != a + round(b*c):"); });
    law("fmlan", {mln, ml, dup}, {F, F, TV('f', 32, 1)}, 0, 0, mln, [=](const Case &c, std::string *m) { return eqt(X(mln, A0, A1, A2), X(ml, A0, A1, X(dup, A2)), F, true, m, "mla_n differs from mla on a broadcast:"); });
    law("fmuln", {mn, mu, mov}, {F, TV('f', 32, 1)}, 0, 0, mn, [=](const Case &c, std::string *m) { return eqt(X(mn, A0, A1), X(mu, A0, X(mov, A1)), F, true, m, "mul_n differs from mul on a broadcast:"); });
    law("fmulnd", {mnd, mn}, {F, TV('f', 32, 1)}, 0, 0, mn, [=](const Case &c, std::string *m) { return eqt(cat(X(mnd, lo(A0, 16), A1), X(mnd, hi(A0, 16), A1), 8), X(mn, A0, A1), F, true, m, "vmul_n_f32 differs from vmulq_n_f32:"); });
    law("fdivone", {di}, {F}, 0, 0, -1, [=](const Case &c, std::string *m) { return eqt(X(di, A0, fillc(0x3f800000, 4, 4)), A0, F, true, m, "a/1 != a:"); });
    law("fdivpow2", {di, mn}, {F}, 0, 0, -1, [=](const Case &c, std::string *m) { V s; putraw(s.b, 4, 0, 0x3e800000); return eqt(X(di, A0, fillc(0x40800000, 4, 4)), X(mn, A0, s), F, true, m, "a/4 != a*0.25:"); });
    law("fdivsign", {di}, {F, F}, 0, 0, di, [=](const Case &c, std::string *m) { return eqt(X(di, xorc(A0, sg, 4, 4), A1), xorc(X(di, A0, A1), sg, 4, 4), F, true, m, "(-a)/b != -(a/b):") && eqt(X(di, A0, xorc(A1, sg, 4, 4)), xorc(X(di, A0, A1), sg, 4, 4), F, true, m, "a/(-b) != -(a/b):"); });
    law("fdivself", {did, di}, {F}, 0, 0, -1, [=](const Case &c, std::string *m) { V q = X(di, A0, A0); for (int i = 0; i < 4; i++) { u64 v = getraw(c.a[0], 4, i); unsigned k = fcls(v, 32); bool z = (v & 0x7fffffff) == 0 || (k & (C_NAN | C_INF)); if (z ? !isnan_raw(getraw(q.b, 4, i), 32) : getraw(q.b, 4, i) != 0x3f800000) { if (m) *m = "a/a: " + lanes_text(q.b, F); return false; } } return true; });
    law("fdivinv", {di}, {F, F}, 0, 0, di, [=](const Case &c, std::string *m) { V q = X(di, A0, A1); for (int i = 0; i < 4; i++) { double a = f32of(getraw(c.a[0], 4, i)), b = f32of(getraw(c.a[1], 4, i)), r = f32of(getraw(q.b, 4, i)); if (std::isfinite(a) && std::isfinite(b) && b != 0 && std::isfinite(r) && fabs(r) > 1e-30 && fabs(a) > 1e-30 && fabs(r * b - a) > fabs(a) * 6.0e-8) { if (m) *m = "quotient times divisor is not the dividend: " + lanes_text(q.b, F); return false; } } return true; });
    law("fmulexact", {mu, di}, {F, F}, 0, 0, mu, [=](const Case &c, std::string *m) { V p = X(mu, A0, A1); for (int i = 0; i < 4; i++) { double a = f32of(getraw(c.a[0], 4, i)), b = f32of(getraw(c.a[1], 4, i)); float w = (float)(a * b); u64 g = getraw(p.b, 4, i); if (!(isnan_raw(g, 32) && w != w) && g != rawof(w)) { if (m) *m = "product differs from the double product rounded once: " + lanes_text(p.b, F); return false; } } return true; });
    law("faddexact", {ad}, {F, F}, 0, 0, ad, [=](const Case &c, std::string *m) { V p = X(ad, A0, A1); for (int i = 0; i < 4; i++) { double a = f32of(getraw(c.a[0], 4, i)), b = f32of(getraw(c.a[1], 4, i)); float w = (float)(a + b); u64 g = getraw(p.b, 4, i); if (!(isnan_raw(g, 32) && w != w) && g != rawof(w)) { if (m) *m = "sum differs from the double sum rounded once: " + lanes_text(p.b, F); return false; } } return true; });
    law("fsubself", {su, sd}, {F}, 0, 0, -1, [=](const Case &c, std::string *m) { V a = X(su, A0, A0), b = X(sd, A0, A0); for (int i = 0; i < 4; i++) { bool nf = fcls(getraw(c.a[0], 4, i), 32) & (C_NAN | C_INF); u64 g = getraw(a.b, 4, i), h = i < 2 ? getraw(b.b, 4, i) : g; if (nf ? !(isnan_raw(g, 32) && isnan_raw(h, 32)) : (g | h) != 0) { if (m) *m = "a-a: " + lanes_text(a.b, F); return false; } } return true; });
    law("dsub", {s64}, {Gd, Gd}, 0, 0, s64, [=](const Case &c, std::string *m) { V p = X(s64, A0, A1), q = X(s64, A1, A0); for (int i = 0; i < 1; i++) { u64 x = getraw(p.b, 8, 0), y = getraw(q.b, 8, 0); if (x == 0 && y == 0) continue; if (isnan_raw(x, 64) && isnan_raw(y, 64)) continue; if (x != (y ^ sgd)) { if (m) *m = "a-b != -(b-a): " + lanes_text(p.b, Gd); return false; } } return eqt(X(s64, A0, V()), [&] { V z = A0; return z; }(), Gd, true, m, "a-0 != a:"); });
    law("ddivhalves", {di64, d64}, {G, G}, 0, 0, di64, [=](const Case &c, std::string *m) { return eqt(X(di64, A0, A1), cat(X(d64, lo(A0, 16), lo(A1, 16)), X(d64, hi(A0, 16), hi(A1, 16)), 8), G, true, m, "vdivq_f64 differs from vdiv_f64:"); });
    law("ddivone", {di64}, {G}, 0, 0, -1, [=](const Case &c, std::string *m) { return eqt(X(di64, A0, fillc(0x3ff0000000000000ULL, 8, 2)), A0, G, true, m, "a/1 != a:"); });
    law("dmuldiv", {m64, di64}, {G}, 0, 0, -1, [=](const Case &c, std::string *m) { V s; putraw(s.b, 8, 0, 0x4010000000000000ULL); return eqt(X(m64, A0, s), X(di64, A0, fillc(0x3fd0000000000000ULL, 8, 2)), G, true, m, "a*4 != a/0.25:"); });
    law("dmulhalves", {m64, m1}, {G, TV('f', 64, 1)}, 0, 0, m64, [=](const Case &c, std::string *m) { return eqt(X(m64, A0, A1), cat(X(m1, lo(A0, 16), A1), X(m1, hi(A0, 16), A1), 8), G, true, m, "vmulq_n_f64 differs from vmul_n_f64:"); });
    law("dmulcomm", {m1}, {Gd, TV('f', 64, 1)}, 0, 0, m1, [=](const Case &c, std::string *m) { return eqt(X(m1, A0, A1), X(m1, A1, A0), Gd, true, m, "not commutative:"); });
    law("dmulquad", {m64, m1}, {G, TV('f', 64, 1)}, 0, 0, m64, [=](const Case &c, std::string *m) { V p = X(m64, A0, A1); for (int i = 0; i < 2; i++) { double a = f64of(getraw(c.a[0], 8, i)), b = f64of(getraw(c.a[1], 8, 0)); double w = (double)((__float128)a * b); u64 g = getraw(p.b, 8, i); if (!(isnan_raw(g, 64) && w != w) && g != rawofd(w)) { if (m) *m = "product differs from the quad product rounded once: " + lanes_text(p.b, G); return false; } } return true; });
    int re = need("vrecpeq_f32"), rs = need("vrecpsq_f32");
    law("recpeodd", {re}, {F}, 0, 0, re, [=](const Case &c, std::string *m) { return eqt(X(re, xorc(A0, sg, 4, 4)), xorc(X(re, A0), sg, 4, 4), F, true, m, "recpe(-x) != -recpe(x):"); });
    law("recpescale", {re}, {F}, 1, 251, re, [=](const Case &c, std::string *m) { V x = lanes(A0, 4, 4, [&](u64 v, int) { return (v & 0x807fffffu) | ((u64)c.imm << 23); }), y = lanes(A0, 4, 4, [&](u64 v, int) { return (v & 0x807fffffu) | ((u64)(c.imm + 1) << 23); }); V p = X(re, x), q = X(re, y); for (int i = 0; i < 4; i++) putraw(q.b, 4, i, getraw(q.b, 4, i) + 0x00800000u); return eqt(p, q, F, true, m, "recpe(x) != 2*recpe(2x):"); });
    law("recpeclose", {re}, {F}, 0, 0, re, [=](const Case &c, std::string *m) { V p = X(re, A0); for (int i = 0; i < 4; i++) { double a = f32of(getraw(c.a[0], 4, i)), r = f32of(getraw(p.b, 4, i)); if (std::isfinite(a) && fabs(a) >= 2.9387358770557188e-39 && fabs(a * r - 1) > 1.0 / 256) { if (m) *m = "estimate too far from 1/x: " + lanes_text(p.b, F); return false; } if (std::isinf(a) && r != 0) { if (m) *m = "recpe(inf) != 0"; return false; } if (a == a && fabs(a) < 2.9387358770557188e-39 && !std::isinf(r)) { if (m) *m = "recpe(tiny) is not infinite: " + lanes_text(p.b, F); return false; } } return true; });
    law("recpemono", {re}, {F}, 0, 0, re, [=](const Case &c, std::string *m) { std::vector<uint32_t> v; for (int i = 0; i < 4; i++) { uint32_t x = getraw(c.a[0], 4, i) & 0x7fffffff; if (isnan_raw(x, 32)) x = 0x7f800000; v.push_back(x); } std::sort(v.begin(), v.end()); V a; for (int i = 0; i < 4; i++) putraw(a.b, 4, i, v[i]); V p = X(re, a); for (int i = 1; i < 4; i++) if (!(f32of(getraw(p.b, 4, i)) <= f32of(getraw(p.b, 4, i - 1)))) { if (m) *m = "estimate not monotone: " + lanes_text(a.b, F) + " gives " + lanes_text(p.b, F); return false; } return true; });
    law("recps", {rs, su, mu}, {F, F}, 0, 0, rs, [=](const Case &c, std::string *m) { V r = X(rs, A0, A1), w = X(su, fillc(0x40000000, 4, 4), X(mu, A0, A1)); for (int i = 0; i < 4; i++) { float a = f32of(getraw(c.a[0], 4, i)), b = f32of(getraw(c.a[1], 4, i)); u64 g = getraw(r.b, 4, i), x = getraw(w.b, 4, i), y = rawof(fmaf(-a, b, 2.0f)); if ((std::isinf(a) && b == 0) || (std::isinf(b) && a == 0)) x = y = 0x40000000; if (g != x && g != y && !(isnan_raw(g, 32) && isnan_raw(x, 32))) { if (m) *m = "recps(a,b) != 2-a*b: " + lanes_text(r.b, F); return false; } } return true; });
    law("recpssign", {rs}, {F, F}, 0, 0, rs, [=](const Case &c, std::string *m) { return eqt(X(rs, A0, A1), X(rs, xorc(A0, sg, 4, 4), xorc(A1, sg, 4, 4)), F, true, m, "recps(a,b) != recps(-a,-b):"); }); }
}

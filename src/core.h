// Core of the property-based testing engine: operation table, random source, case execution.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cerrno>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <sys/mman.h>
#include <unistd.h>

typedef __int128 i128;
typedef unsigned __int128 u128;
typedef uint64_t u64;
typedef uint8_t u8;

#define SEM_LIST(X) \
  X(ADD) X(ADDHN_HIGH) X(AND) X(BSL) X(CGT) X(CLT) X(COMBINE) X(CVTN_IF) X(CVT_FI) X(CVT_IF) \
  X(DUP) X(EOR) X(EXT) X(FADD) X(FDIV) X(FMAX) X(FMIN) X(FMLA) X(FMUL) X(FPMAX) X(FPMIN) \
  X(FSUB) X(GETHIGH) X(GETLANE) X(GETLOW) X(HSUB) X(LD) X(LDDUP) X(LDLANE) X(MAX) X(MIN) \
  X(MLA) X(MLS) X(MOV) X(MUL) X(MVN) X(ORR) X(PADDL) X(QADD) X(QDMULL) X(QMOV) X(QRSHR) \
  X(QSHR) X(QSUB) X(RECPE) X(RECPS) X(REINT) X(REV16) X(REV32) X(REV64) X(RSHR) X(RSUBHN) \
  X(SHL) X(SHR) X(SRA) X(ST) X(STLANE) X(SUB) X(SUBHN) X(TBL) X(TRN) X(UZP) X(ZIP)
enum Sem {
#define X(n) S_##n,
  SEM_LIST(X)
#undef X
  S_COUNT
};

enum { FL_LANEWISE = 1, FL_HIGH0 = 2, FL_HIGH1 = 4, FL_FP = 8 };

struct Ty {            // t: 0 none, 'v' vector, 's' scalar, 'p' pointer, 'i' immediate
  char t, k;           // k: 's' signed, 'u' unsigned, 'f' float
  int bits, lanes, nvec;  // for 'p' lanes is the element count
  bool cst;            // pointer to const
  int n() const { return t == 's' ? 1 : lanes * nvec; }
  int eb() const { return bits / 8; }
  int bytes() const { return t == 'i' ? 4 : t == 0 ? 0 : n() * eb(); }
};
struct Op {
  const char *name, *prop;
  Sem sem;
  Ty ret;
  int na;
  Ty a[3];
  int lo, hi, rlo, rhi;
  unsigned fl;
  int immArg() const { for (int i = 0; i < na; i++) if (a[i].t == 'i') return i; return -1; }
  int ptrArg() const { for (int i = 0; i < na; i++) if (a[i].t == 'p') return i; return -1; }
};
typedef void (*wfn)(void *const *a, void *r, int imm);

#include "ops.inc"     // generated: static const Op OPS[]; enum { NOPS = ... };

static inline int op_index(const std::string &n) {
  static std::map<std::string, int> m;
  if (m.empty()) for (int i = 0; i < NOPS; i++) m[OPS[i].name] = i;
  auto it = m.find(n);
  return it == m.end() ? -1 : it->second;
}

struct Rng {
  u64 s;
  explicit Rng(u64 x = 1) : s(x) {}
  u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  unsigned below(unsigned n) { return (unsigned)(((next() >> 32) * (u64)n) >> 32); }
  bool chance(int pct) { return (int)below(100) < pct; }
};
static inline u64 hash_str(const char *s, u64 h = 1469598103934665603ULL) {
  for (; *s; s++) h = (h ^ (u8)*s) * 1099511628211ULL; return h; }
static inline u64 mix(u64 a, u64 b) { Rng r(a ^ (b * 0x9e3779b97f4a7c15ULL)); r.next(); return r.next(); }
static inline u64 hash_bytes(const void *p, size_t n, u64 h) {
  const u8 *b = (const u8 *)p; u64 w;
  while (n >= 8) { memcpy(&w, b, 8); h = (h ^ w) * 0xff51afd7ed558ccdULL; h ^= h >> 32; b += 8; n -= 8; }
  while (n--) h = (h ^ *b++) * 1099511628211ULL;
  h ^= h >> 29; h *= 0xc4ceb9fe1a85ec53ULL; return h ^ (h >> 32);
}

// ---- lanes -------------------------------------------------------------------------------
static inline u64 getraw(const u8 *p, int eb, int i) {
  switch (eb) {
    case 1: return p[i];
    case 2: { uint16_t v; memcpy(&v, p + 2 * i, 2); return v; }
    case 4: { uint32_t v; memcpy(&v, p + 4 * i, 4); return v; }
    default: { u64 v; memcpy(&v, p + 8 * i, 8); return v; }
  }
}
static inline void putraw(u8 *p, int eb, int i, u64 v) {
  switch (eb) {
    case 1: p[i] = (u8)v; break;
    case 2: { uint16_t x = (uint16_t)v; memcpy(p + 2 * i, &x, 2); break; }
    case 4: { uint32_t x = (uint32_t)v; memcpy(p + 4 * i, &x, 4); break; }
    default: memcpy(p + 8 * i, &v, 8);
  }
}
static inline i128 toint(u64 raw, int bits, bool sgn) {
  if (bits == 64) return sgn ? (i128)(int64_t)raw : (i128)raw;
  u64 m = (1ULL << bits) - 1; raw &= m;
  if (sgn && (raw >> (bits - 1))) return (i128)raw - ((i128)1 << bits);
  return (i128)raw;
}
static inline i128 geti(const u8 *p, const Ty &t, int i) { return toint(getraw(p, t.eb(), i), t.bits, t.k == 's'); }
static inline bool isnan_raw(u64 r, int bits) {
  return bits == 32 ? (r & 0x7fffffffu) > 0x7f800000u
                    : (r & 0x7fffffffffffffffULL) > 0x7ff0000000000000ULL; }

// ---- cases -------------------------------------------------------------------------------
enum { PLACE_MID = 0, PLACE_END = 1, PLACE_START = 2 };
struct Case {
  int op;
  int imm;
  int place, off;      // placement of the buffer of a memory operation
  u8 a[4][64];         // operand bytes; for a pointer the memory content before the call
};
struct Out { u8 r[64]; u8 mem[64]; };

// Two pages (plus guards) visible read-write and, for const pointers, read-only.
struct Arena {
  enum { PG = 4096, USABLE = 2 * PG };
  u8 *rw, *ro;
  Arena() : rw(0), ro(0) {}
  static u8 *mapone(int fd, int prot) {
    u8 *b = (u8 *)mmap(0, USABLE + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) { perror("mmap"); _exit(3); }
    if (mmap(b + PG, USABLE, prot, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); _exit(3); }
    return b + PG;
  }
  void init() {
    if (rw) return;
    int fd = memfd_create("arena", 0);
    if (fd < 0) { FILE *f = tmpfile(); if (!f) { perror("tmpfile"); _exit(3); } fd = dup(fileno(f)); fclose(f); }
    if (ftruncate(fd, USABLE)) { perror("ftruncate"); _exit(3); }
    rw = mapone(fd, PROT_READ | PROT_WRITE);
    ro = mapone(fd, PROT_READ);
    close(fd);
    memset(rw, 0xC5, USABLE);
  }
  int offset(const Case &c, const Ty &t) const {
    int sz = t.bytes();
    if (c.place == PLACE_END) return USABLE - sz;
    if (c.place == PLACE_START) return 0;
    int o = 64 + (c.off % (USABLE - 256)); return o - o % t.eb();
  }
};
static Arena g_arena;

// Executes one case; returns false when bytes next to the buffer changed.
static inline bool exec_case(const wfn *W, const Case &c, Out &o) {
  const Op &op = OPS[c.op];
  void *p[3] = {0, 0, 0};
  int pa = -1, off = 0;
  for (int i = 0; i < op.na; i++) {
    if (op.a[i].t == 'p') {
      pa = i; off = g_arena.offset(c, op.a[i]);
      memcpy(g_arena.rw + off, c.a[i], op.a[i].bytes());
      p[i] = (op.a[i].cst ? g_arena.ro : g_arena.rw) + off;
    } else p[i] = (void *)c.a[i];
  }
  W[c.op](p, o.r, c.imm);
  if (pa >= 0) {
    int sz = op.a[pa].bytes(), lo = off < 64 ? 0 : off - 64, hi = std::min((int)Arena::USABLE, off + sz + 64);
    memcpy(o.mem, g_arena.rw + off, sz);
    memset(g_arena.rw + off, 0xC5, sz);
    bool ok = true;
    for (int i = lo; i < hi; i++) if (g_arena.rw[i] != 0xC5) { ok = false; g_arena.rw[i] = 0xC5; }
    return ok;
  }
  return true;
}

static inline u64 case_hash(const Case &c) {
  const Op &op = OPS[c.op];
  u64 h = mix(c.op + 1, 77) ^ (u64)(uint32_t)c.imm * 0x9e3779b97f4a7c15ULL;
  for (int i = 0; i < op.na; i++) if (op.a[i].t != 'i') h = hash_bytes(c.a[i], op.a[i].bytes(), h);
  return h ? h : 1;
}

// ---- text form (replay files) ------------------------------------------------------------
static inline std::string hex(const u8 *p, int n) { std::string s; char b[3]; for (int i = 0; i < n; i++) { snprintf(b, 3, "%02x", p[i]); s += b; } return s; }
static inline std::string case_text(const Case &c) {
  const Op &op = OPS[c.op];
  std::string s = std::string("case ") + op.name;
  for (int i = 0; i < op.na; i++) {
    s += " ";
    if (op.a[i].t == 'i') s += "imm=" + std::to_string(c.imm);
    else s += std::string(op.a[i].t == 'p' ? "mem=" : "arg=") + hex(c.a[i], op.a[i].bytes());
  }
  if (op.ptrArg() >= 0) s += " place=" + std::to_string(c.place) + ":" + std::to_string(c.off);
  return s;
}
static inline bool parse_case(const std::string &line, Case &c) {
  memset(&c, 0, sizeof c);
  std::vector<std::string> tok; size_t i = 0;
  while (i < line.size()) { size_t j = line.find(' ', i); if (j == std::string::npos) j = line.size(); if (j > i) tok.push_back(line.substr(i, j - i)); i = j + 1; }
  if (tok.size() < 2 || tok[0] != "case") return false;
  c.op = op_index(tok[1]); if (c.op < 0) return false;
  const Op &op = OPS[c.op]; size_t k = 2;
  for (int a = 0; a < op.na; a++, k++) {
    if (k >= tok.size()) return false;
    std::string v = tok[k].substr(4);
    if (op.a[a].t == 'i') c.imm = atoi(v.c_str());
    else for (int b = 0; b < op.a[a].bytes() && 2 * b + 1 < (int)v.size(); b++) c.a[a][b] = (u8)strtol(v.substr(2 * b, 2).c_str(), 0, 16);
  }
  if (k < tok.size() && tok[k].compare(0, 6, "place=") == 0) sscanf(tok[k].c_str() + 6, "%d:%d", &c.place, &c.off);
  return true;
}
static inline std::string lanes_text(const u8 *p, const Ty &t) {
  std::string s = "["; char b[64];
  for (int i = 0; i < t.n(); i++) {
    u64 r = getraw(p, t.eb(), i);
    if (t.k == 'f' && t.bits == 32) { float f; uint32_t w = (uint32_t)r; memcpy(&f, &w, 4); snprintf(b, 64, "%.9g(0x%08x)", f, w); }
    else if (t.k == 'f') { double f; memcpy(&f, &r, 8); snprintf(b, 64, "%.17g(0x%016llx)", f, (unsigned long long)r); }
    else if (t.k == 's') snprintf(b, 64, "%lld", (long long)toint(r, t.bits, true));
    else snprintf(b, 64, "%llu", (unsigned long long)r);
    s += (i ? "," : ""); s += b;
  }
  return s + "]";
}
static inline std::string case_pretty(const Case &c) {
  const Op &op = OPS[c.op];
  std::string s = std::string(op.name) + "(";
  for (int i = 0; i < op.na; i++) {
    if (i) s += ", ";
    if (op.a[i].t == 'i') s += std::to_string(c.imm);
    else s += (op.a[i].t == 'p' ? "*" : "") + lanes_text(c.a[i], op.a[i]);
  }
  return s + ")";
}

// Property-based testing engine: generates cases, runs them against the library through a plugin
// of typed wrappers, compares with an oracle, shrinks and replays failures.
#include "gen.h"
#include <csignal>
#include <csetjmp>
#include <ctime>
#include <functional>
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <xmmintrin.h>
#if defined(__has_include)
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#define HAVE_VG 1
#endif
#endif

typedef std::vector<Case> Hist;
static wfn W[NOPS], W2[NOPS];
static std::string g_mode;
static u64 g_seed = 1;

#ifdef STATIC_PLUGIN
extern "C" const wfn neon_wrappers[];
#endif
static void *g_ksym = 0;
static void load_plugin(const char *path, wfn *out) {
#ifdef STATIC_PLUGIN
  memcpy(out, neon_wrappers, sizeof(wfn) * NOPS);
#else
  void *h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(3); }
  const wfn *t = (const wfn *)dlsym(h, "neon_wrappers");
  if (!t) { fprintf(stderr, "no neon_wrappers in %s\n", path); _exit(3); }
  memcpy(out, t, sizeof(wfn) * NOPS);
  g_ksym = dlsym(h, "neon_kernels");
#endif
}

// A subject is anything a case can be generated for: an intrinsic, an algebraic law, a kernel.
struct Subject {
  std::string name;
  int na; Ty a[4]; bool hasImm; int lo, hi; int op;      // op: index in OPS or -1
  std::function<void(Rng &, Case &)> gen;
  std::function<bool(const Case &, std::string *, unsigned &)> check;  // true: property holds
  int weight;
};
static std::vector<Subject> SUB;
static int sub_index(const std::string &n) { for (size_t i = 0; i < SUB.size(); i++) if (SUB[i].name == n) return (int)i; return -1; }

#ifdef WITH_LAWS
#include "laws.h"
#include "kernels.h"
#endif

// ---- oracles over one case ---------------------------------------------------------------
static bool check_model(const wfn *w, const Case &c, std::string *msg, unsigned &cls) {
  Out o; Exp e;
  memset(o.r, 0xA7, 64);
  bool canary = exec_case(w, c, o);
  model(c, e); cls = e.cls;
  if (!agrees(c, o, e, msg)) return false;
  if (!canary) { if (msg) *msg = "memory outside the addressed elements was modified"; return false; }
  return true;
}
// footprint: the outcome must not depend on, nor change, any byte outside the addressed elements
static bool check_footprint(const Case &c, std::string *msg, unsigned &cls) {
  const Op &op = OPS[c.op]; int pa = op.ptrArg(); const Ty &t = op.a[pa]; int sz = t.bytes();
  cls = c.place == PLACE_MID ? C_DISTINCT : C_IMMEDGE;
  u8 res[2][64], mem[2][64];
  for (int k = 0; k < 2; k++) {
    static u8 before[Arena::USABLE];
    u64 bg = 0x0101010101010101ULL * (k ? 0x3A : 0xC5);
    for (int i = 0; i < Arena::USABLE; i += 8) { u64 v = bg ^ (k ? (u64)i * 0x9E37 : 0); memcpy(g_arena.rw + i, &v, 8); }
    int off = g_arena.offset(c, t);
    u8 *m = g_arena.rw + off;
    memcpy(m, c.a[pa], sz);
    if (!t.cst && k) for (int i = 0; i < sz; i++) m[i] = (u8)~m[i];    // other prior content of the destination
    memcpy(before, g_arena.rw, Arena::USABLE);
    void *p[3]; for (int i = 0; i < op.na; i++) p[i] = i == pa ? (void *)((t.cst ? g_arena.ro : g_arena.rw) + off) : (void *)c.a[i];
    memset(res[k], 0x5A, 64);
    W[c.op](p, res[k], c.imm);
    memcpy(mem[k], m, sz);
    if (t.cst ? memcmp(before, g_arena.rw, Arena::USABLE) : (memcmp(before, g_arena.rw, off) || memcmp(before + off + sz, g_arena.rw + off + sz, Arena::USABLE - off - sz))) {
      int at = 0; for (int i = 0; i < Arena::USABLE; i++) if ((t.cst || i < off || i >= off + sz) && before[i] != g_arena.rw[i]) { at = i - off; break; }
      if (msg) *msg = "byte at offset " + std::to_string(at) + " of a " + std::to_string(sz) + "-byte buffer was modified";
      memset(g_arena.rw, 0xC5, Arena::USABLE); return false;
    }
  }
  memset(g_arena.rw, 0xC5, Arena::USABLE);
  if (op.ret.t && memcmp(res[0], res[1], op.ret.bytes())) { if (msg) *msg = "result depends on memory outside the addressed elements: " + lanes_text(res[0], op.ret) + " vs " + lanes_text(res[1], op.ret); return false; }
  if (!t.cst && memcmp(mem[0], mem[1], sz)) { if (msg) *msg = "stored bytes depend on what the destination held (some addressed byte not written): " + lanes_text(mem[0], t) + " vs " + lanes_text(mem[1], t); return false; }
  return true;
}
#ifdef TRACE_BUILD
// The library is compiled with every load and store calling out (KASAN outline instrumentation); these
// callbacks see the address and size of each access and compare it with the bytes the call may touch.
static volatile int g_tr_on = 0, g_tr_hit = 0; static const u8 *g_tr_buf; static int g_tr_sz; static bool g_tr_load; static long g_tr_off; static int g_tr_n, g_tr_w; static u64 g_tr_seen, g_tr_total[2];
static int g_tr_state = -1; static const u8 *g_tr_sp; static std::map<u64, std::set<int>> g_tr_wr, g_tr_rd;   // words outside stack and buffers -> intrinsics
static void tr_access(const void *pv, size_t n, int w) {
  if (!g_tr_on || !n) return;
  if (g_tr_state >= 0) {
    const u8 *q = (const u8 *)pv; if ((q > g_tr_sp - (1 << 20) && q < g_tr_sp + (1 << 16)) || (q >= g_arena.rw && q < g_arena.rw + Arena::USABLE) || (q >= g_arena.ro && q < g_arena.ro + Arena::USABLE)) return;
    int on = g_tr_on; g_tr_on = 0; auto &m = w ? g_tr_wr : g_tr_rd;
    for (u64 a = (u64)q >> 3; a <= ((u64)q + n - 1) >> 3; a++) if (m.size() < 200000 || m.count(a)) m[a].insert(g_tr_state);
    g_tr_on = on; return;
  }
  const u8 *p = (const u8 *)pv;
  const u8 *base = g_tr_load ? g_arena.ro : g_arena.rw, *other = g_tr_load ? g_arena.rw : g_arena.ro;
  bool in = p + n > base - 64 && p < base + Arena::USABLE + 64, in2 = p + n > other && p < other + Arena::USABLE;
  if (!in && !in2) return;
  bool ok = in && p >= g_tr_buf && p + n <= g_tr_buf + g_tr_sz && (w ? !g_tr_load : g_tr_load);
  if (ok) { g_tr_seen += n; return; }
  if (!g_tr_hit) { g_tr_hit = 1; g_tr_off = p - g_tr_buf; g_tr_n = (int)n; g_tr_w = w; }
}
extern "C" {
#define TR(n) void __asan_load##n##_noabort(void *p) { tr_access(p, n, 0); } void __asan_store##n##_noabort(void *p) { tr_access(p, n, 1); }
  TR(1) TR(2) TR(4) TR(8) TR(16)
  void __asan_loadN_noabort(void *p, size_t n) { tr_access(p, n, 0); }
  void __asan_storeN_noabort(void *p, size_t n) { tr_access(p, n, 1); }
  void __asan_handle_no_return(void) {}
  void *__asan_memcpy(void *d, const void *s, size_t n) { tr_access(s, n, 0); tr_access(d, n, 1); return memcpy(d, s, n); }
  void *__asan_memmove(void *d, const void *s, size_t n) { tr_access(s, n, 0); tr_access(d, n, 1); return memmove(d, s, n); }
  void *__asan_memset(void *d, int v, size_t n) { tr_access(d, n, 1); return memset(d, v, n); }
}
static bool check_trace(const Case &c, std::string *msg, unsigned &cls) {
  const Op &op = OPS[c.op]; int pa = op.ptrArg(); const Ty &t = op.a[pa]; int sz = t.bytes(), off = g_arena.offset(c, t);
  cls = c.place == PLACE_MID ? C_DISTINCT : C_IMMEDGE; u8 res[64];
  memcpy(g_arena.rw + off, c.a[pa], sz);
  g_tr_load = t.cst; g_tr_buf = (t.cst ? g_arena.ro : g_arena.rw) + off; g_tr_sz = sz; g_tr_hit = 0;
  void *p[3]; for (int i = 0; i < op.na; i++) p[i] = i == pa ? (void *)g_tr_buf : (void *)c.a[i];
  g_tr_seen = 0; g_tr_on = 1; W[c.op](p, res, c.imm); g_tr_on = 0;
  g_tr_total[0] += sz; g_tr_total[1] += g_tr_seen;
  memset(g_arena.rw + off, 0xC5, sz);
  if (g_tr_hit) { if (msg) *msg = std::string(g_tr_w ? "writes " : "reads ") + std::to_string(g_tr_n) + " bytes at offset " + std::to_string(g_tr_off) + " of its " + std::to_string(sz) + "-byte buffer" + (g_tr_load && g_tr_w ? " (a load)" : !g_tr_load && !g_tr_w ? " (a store)" : ""); return false; }
  return true;
}
#endif
// store/load round trips for the store property
static bool check_roundtrip(const Case &c, std::string *msg, unsigned &cls) {
  if (!check_model(W, c, msg, cls)) return false;
  const Op &op = OPS[c.op]; if (op.sem != S_ST) return true;
  std::string ld = op.name; ld[1] = 'l'; ld[2] = 'd';
  int li = op_index(ld); if (li < 0 || !W[li]) return true;
  Out o; exec_case(W, c, o);
  Case l; memset(&l, 0, sizeof l); l.op = li; l.place = c.place; l.off = c.off; memcpy(l.a[0], o.mem, op.a[0].bytes());
  Out lo; exec_case(W, l, lo);
  if (memcmp(lo.r, c.a[1], op.a[1].bytes())) { if (msg) *msg = "store then load does not give the registers back: " + lanes_text(lo.r, op.a[1]); return false; }
  Case l2 = l; memcpy(l2.a[0], c.a[1], op.a[0].bytes());     // load then store
  exec_case(W, l2, lo);
  Case s2 = c; memcpy(s2.a[1], lo.r, op.a[1].bytes()); Out so; exec_case(W, s2, so);
  if (memcmp(so.mem, l2.a[0], op.a[0].bytes())) { if (msg) *msg = "load then store does not give the memory back"; return false; }
  return true;
}
// signals raised inside a call (UBSan built in trap mode raises SIGILL; ASan calls back)
static sigjmp_buf g_trapjmp; static volatile sig_atomic_t g_intrap = 0; static volatile int g_trapkind = -1;
static volatile int g_asan_hits = 0; static char g_asan_msg[4096];
static void on_ill(int sig, siginfo_t *si, void *) {
  if (!g_intrap) { signal(sig, SIG_DFL); raise(sig); return; }
  const u8 *pc = (const u8 *)si->si_addr; g_trapkind = -1;
  if (sig == SIGILL && pc && pc[0] == 0x67 && pc[1] == 0x0f && pc[2] == 0xb9) g_trapkind = pc[3] == 0x40 ? pc[4] : 0;
  siglongjmp(g_trapjmp, sig);
}
static int g_callalarm = 0;                 // replays bound each call, so that two builds that both hang agree
static int exec_guard(const wfn *w, const Case &c, Out &o) {   // 0, or the signal the call raised
  int s = sigsetjmp(g_trapjmp, 0);
  if (s == 0) { if (g_callalarm) alarm(g_callalarm); g_intrap = 1; exec_case(w, c, o); g_intrap = 0; if (g_callalarm) alarm(0); return 0; }
  g_intrap = 0; if (g_callalarm) alarm(0); sigset_t ss; sigemptyset(&ss); sigaddset(&ss, s); sigprocmask(SIG_UNBLOCK, &ss, 0);
  memset(g_arena.rw, 0xC5, Arena::USABLE);
  return s;
}
// differential: two builds of the library
static bool check_diff(const Case &c, std::string *msg, unsigned &cls) {
  const Op &op = OPS[c.op];
  if (!W[c.op] || !W2[c.op]) return true;
  Out a, b; memset(a.r, 0x11, 64); memset(b.r, 0x11, 64);
  int sa = exec_guard(W, c, a), sb = exec_guard(W2, c, b);
  if (sa || sb) {        // the same abort in both builds is not a difference between builds
    cls = C_IMMEDGE; if (sa == sb) return true;
    if (msg) *msg = "one build " + (sa ? "dies with signal " + std::to_string(sa) : std::string("returns")) + ", the other " + (sb ? "dies with signal " + std::to_string(sb) : std::string("returns"));
    return false;
  }
  Exp e; model(c, e); cls = e.cls;
  if (op.ret.t) for (int i = 0; i < op.ret.n(); i++) {
    u64 x = getraw(a.r, op.ret.eb(), i), y = getraw(b.r, op.ret.eb(), i);
    if (x == y) continue;
    if (op.ret.k == 'f' && (op.fl & FL_FP) && isnan_raw(x, op.ret.bits) && isnan_raw(y, op.ret.bits)) continue;
    if (msg) *msg = "lane " + std::to_string(i) + " differs between builds: " + lanes_text(a.r, op.ret) + " vs " + lanes_text(b.r, op.ret);
    return false;
  }
  int pa = op.ptrArg();
  if (pa >= 0 && memcmp(a.mem, b.mem, op.a[pa].bytes())) { if (msg) *msg = "memory differs between builds"; return false; }
  return true;
}
static const char *UB_KIND[] = {"add overflow", "builtin unreachable", "CFI", "divrem overflow", "dynamic type cache miss", "float cast overflow", "function type mismatch", "implicit conversion", "invalid builtin", "invalid ObjC cast", "load of invalid value", "missing return", "mul overflow", "negate overflow", "nullability arg", "nullability return", "nonnull arg", "nonnull return", "array index out of bounds", "pointer overflow", "shift out of bounds", "sub overflow", "type mismatch or misaligned/null access", "alignment assumption", "VLA bound"};
#ifdef MSAN_BUILD
// The engine itself is not instrumented; the library and the wrappers are. Warnings of instrumented code
// arrive here (linker --wrap), shadow of arguments and of the parameter area is cleared before each call.
extern "C" { void __msan_unpoison(const volatile void *, size_t); intptr_t __msan_test_shadow(const volatile void *, size_t); extern __thread unsigned long long __msan_param_tls[100];
  void __wrap___msan_warning(void) { g_asan_hits = g_asan_hits + 1; }
  void __wrap___msan_warning_noreturn(void) { g_asan_hits = g_asan_hits + 1; }
  void __wrap___msan_warning_with_origin(unsigned) { g_asan_hits = g_asan_hits + 1; }
  void __wrap___msan_maybe_warning_1(u8 s, unsigned) { if (s) g_asan_hits = g_asan_hits + 1; }
  void __wrap___msan_maybe_warning_2(uint16_t s, unsigned) { if (s) g_asan_hits = g_asan_hits + 1; }
  void __wrap___msan_maybe_warning_4(uint32_t s, unsigned) { if (s) g_asan_hits = g_asan_hits + 1; }
  void __wrap___msan_maybe_warning_8(u64 s, unsigned) { if (s) g_asan_hits = g_asan_hits + 1; }
  const char *__msan_default_options() { return "poison_in_malloc=0:poison_in_free=0:poison_stack_with_zeroes=0:report_umrs=0:handle_segv=0:handle_sigbus=0:handle_sigill=0:handle_sigfpe=0:handle_abort=0:use_sigaltstack=0:halt_on_error=0:exitcode=0"; } }
#endif
static bool check_san(const Case &c, std::string *msg, unsigned &cls) {
  Out o; Exp e; model(c, e); cls = e.cls;
  int h0 = g_asan_hits;
#ifdef MSAN_BUILD
  __msan_unpoison(&c, sizeof c); __msan_unpoison(&o, sizeof o); __msan_unpoison(g_arena.rw, Arena::USABLE); __msan_unpoison(g_arena.ro, Arena::USABLE); memset(__msan_param_tls, 0, sizeof __msan_param_tls);
  int s = exec_guard(W, c, o); const Op &op = OPS[c.op];
  if (!s && g_asan_hits != h0) { if (msg) *msg = "a decision or argument depends on uninitialised memory"; return false; }
  if (!s && op.ret.t && __msan_test_shadow(o.r, op.ret.bytes()) >= 0) { if (msg) *msg = "result contains uninitialised bits"; return false; }
  if (!s && op.ptrArg() >= 0 && __msan_test_shadow(o.mem, op.a[op.ptrArg()].bytes()) >= 0) { if (msg) *msg = "stored bytes are uninitialised"; return false; }
  return true;
#else
  int s = exec_guard(W, c, o);
  if (s && s != SIGABRT && s != SIGALRM) {       // abort() on a legal immediate is another property's business
    if (msg) *msg = s == SIGILL ? std::string("undefined behaviour: ") + (g_trapkind >= 0 && g_trapkind < 25 ? UB_KIND[g_trapkind] : "sanitizer trap") : "signal " + std::to_string(s);
    return false;
  }
  if (g_asan_hits != h0) { if (msg) *msg = std::string("AddressSanitizer: ") + g_asan_msg; return false; }
  return true;
#endif
}
#ifdef ASAN_BUILD
extern "C" void __asan_set_error_report_callback(void (*)(const char *));
static void asan_cb(const char *rep) { g_asan_hits = g_asan_hits + 1; const char *p = strstr(rep, "ERROR: AddressSanitizer: "); strncpy(g_asan_msg, p ? p + 25 : rep, 200); char *n = strchr(g_asan_msg, '\n'); if (n) *n = 0; }
#endif

// ---- shared state of a run ---------------------------------------------------------------
struct Slot { volatile int active; volatile int job; volatile u64 idx; volatile int haveCase; Case cur; };
enum { MAXW = 16, MAXFAIL = 64 };
struct Shared {
  volatile int nextJob; volatile int nfail;
  volatile u64 evals, nontriv, dups, full, sweeps, sweepNontriv;
  volatile u64 cls[C_NBITS];
  volatile u64 extra[16];
  Slot slot[MAXW];
  volatile unsigned char failed[8192];
  struct F { int sub; int job; u64 idx; char file[256]; } fails[MAXFAIL];
};
static Shared *SH; static volatile u64 *HT; static u64 HTMASK;
static std::string g_outdir = "."; static int g_maxfail = 12;
static int g_worker = -1;

static bool ht_insert(u64 h) {
  u64 i = h & HTMASK;
  for (int k = 0; k < 64; k++, i = (i + 1) & HTMASK) {
    u64 v = HT[i];
    if (v == h) return false;
    if (v == 0) { u64 z = 0; if (__atomic_compare_exchange_n((u64 *)&HT[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true; if (z == h) return false; }
  }
  __atomic_fetch_add(&SH->full, 1, __ATOMIC_RELAXED); return false;
}

// Hashes of non-trivial cases are queued by the job process and entered into the table by its
// long-lived parent, which keeps the table's pages mapped.
struct HBuf { u64 n; u64 h[1 << 17]; };
static HBuf *HB[MAXW];
static void ht_count(u64 h) { __atomic_fetch_add(ht_insert(h) ? &SH->nontriv : &SH->dups, 1, __ATOMIC_RELAXED); }
static void ht_note(u64 h) {
  HBuf *b = g_worker >= 0 ? HB[g_worker] : 0;
  if (b && b->n < sizeof b->h / 8) b->h[b->n++] = h; else ht_count(h);
}
static void ht_drain(int w) { HBuf *b = HB[w]; u64 nt = 0, du = 0; for (u64 i = 0; i < b->n; i++) { if (i + 12 < b->n) __builtin_prefetch((const void *)&HT[b->h[i + 12] & HTMASK], 1); if (ht_insert(b->h[i])) nt++; else du++; } b->n = 0;
  __atomic_fetch_add(&SH->nontriv, nt, __ATOMIC_RELAXED); __atomic_fetch_add(&SH->dups, du, __ATOMIC_RELAXED); }

struct Job { int kind, sub; u64 chunk, count; };
enum { J_RANDOM = 0, J_SWEEP8, J_SWEEP16U, J_SWEEP16B, J_SWEEP32U, J_HISTORY, J_PROGRAM, J_REPEAT, J_GRID };
static std::vector<Job> JOBS;
static std::string g_cfgname = "gcc-O2", g_cfg2name;

static void write_candidate(int sub, int job, u64 idx, const Hist &h, const std::string &msg, const char *kind) {
  int n = __atomic_fetch_add(&SH->nfail, 1, __ATOMIC_SEQ_CST);
  if (sub >= 0 && sub < 8192) SH->failed[sub] = 1;
  if (n >= MAXFAIL) return;
  snprintf(SH->fails[n].file, 256, "%s/cand-%d.txt", g_outdir.c_str(), n);
  SH->fails[n].sub = sub; SH->fails[n].job = job; SH->fails[n].idx = idx;
  FILE *f = fopen(SH->fails[n].file, "w"); if (!f) return;
  fprintf(f, "mode %s\nconfig %s %s\nseed %llu\n", g_mode.c_str(), g_cfgname.c_str(), g_cfg2name.empty() ? "-" : g_cfg2name.c_str(), (unsigned long long)g_seed);
  if (job >= 0) fprintf(f, "job %d %s %llu %llu %llu\n", JOBS[job].kind, sub >= 0 ? SUB[JOBS[job].sub >= 0 ? JOBS[job].sub : sub].name.c_str() : "-", (unsigned long long)JOBS[job].chunk, (unsigned long long)JOBS[job].count, (unsigned long long)idx);
  fprintf(f, "kind %s\nsubject %s\nmsg %s\n", kind, sub >= 0 ? SUB[sub].name.c_str() : "-", msg.c_str());
  for (auto &c : h) { extern std::string sub_case_text(const Case &); fprintf(f, "%s\n", sub_case_text(c).c_str()); }
  fclose(f);
}
std::string sub_case_text(const Case &c) {   // c.op indexes OPS in op modes, SUB in law/kernel modes
  if (SUB.empty() || SUB[0].op >= 0) return case_text(c);
  const Subject &s = SUB[c.op];
  std::string t = "sub " + s.name + " imm=" + std::to_string(c.imm);
  for (int i = 0; i < s.na; i++) t += " arg=" + hex(c.a[i], s.a[i].bytes());
  return t;
}
static bool sub_parse_case(const std::string &line, Case &c) {
  if (line.compare(0, 5, "case ") == 0) return parse_case(line, c);
  if (line.compare(0, 4, "sub ") != 0) return false;
  memset(&c, 0, sizeof c); char *save; std::string l = line.substr(4);
  char *t = strtok_r(&l[0], " ", &save); if (!t) return false;
  c.op = sub_index(t); if (c.op < 0) return false;
  const Subject &s = SUB[c.op]; int k = 0;
  while ((t = strtok_r(0, " ", &save))) {
    if (!strncmp(t, "imm=", 4)) c.imm = atoi(t + 4);
    else if (!strncmp(t, "arg=", 4) && k < s.na) { std::string v = t + 4; for (int b = 0; b < s.a[k].bytes() && 2 * b + 1 < (int)v.size(); b++) c.a[k][b] = (u8)strtol(v.substr(2 * b, 2).c_str(), 0, 16); k++; }
  }
  return true;
}

struct Local { u64 evals = 0, nontriv = 0, dups = 0, sweeps = 0, sweepNontriv = 0; u64 cls[C_NBITS] = {0}; u64 extra[16] = {0};
  void note(unsigned c) { for (int b = 0; b < C_NBITS; b++) if (c >> b & 1) cls[b]++; }
  void flush() {
    __atomic_fetch_add(&SH->evals, evals, __ATOMIC_RELAXED); __atomic_fetch_add(&SH->nontriv, nontriv, __ATOMIC_RELAXED); __atomic_fetch_add(&SH->dups, dups, __ATOMIC_RELAXED);
    __atomic_fetch_add(&SH->sweeps, sweeps, __ATOMIC_RELAXED); __atomic_fetch_add(&SH->sweepNontriv, sweepNontriv, __ATOMIC_RELAXED);
    for (int b = 0; b < C_NBITS; b++) __atomic_fetch_add(&SH->cls[b], cls[b], __ATOMIC_RELAXED);
    for (int b = 0; b < 16; b++) __atomic_fetch_add(&SH->extra[b], extra[b], __ATOMIC_RELAXED);
    *this = Local(); } };
static Local L;

static u64 sub_hash(const Subject &s, const Case &c) {
  if (s.op >= 0) return case_hash(c);
  u64 h = mix(c.op + 1, 78) ^ (u64)(uint32_t)c.imm * 0x9e3779b97f4a7c15ULL;
  for (int i = 0; i < s.na; i++) h = hash_bytes(c.a[i], s.a[i].bytes(), h);
  return h ? h : 1;
}
// run one case inside a worker; returns false when it failed (candidate written)
static bool run_one(int sub, int job, u64 idx, const Case &c, bool sweep) {
  Subject &s = SUB[sub]; Slot *sl = g_worker >= 0 ? &SH->slot[g_worker] : 0;
  if (sl) { sl->cur = c; sl->idx = idx; sl->haveCase = 1; }
  std::string msg; unsigned cls = 0;
  bool ok = s.check(c, &msg, cls);
  if (sl) sl->haveCase = 0;
#ifdef TRACE_BUILD
  for (int k = 0; k < 2; k++) { L.extra[k] += g_tr_total[k]; g_tr_total[k] = 0; }
#endif
  L.note(cls);
  if (sweep) { L.sweeps++; if (cls & C_NONTRIVIAL) L.sweepNontriv++; }
  else { L.evals++; if (cls & C_NONTRIVIAL) { ht_note(sub_hash(s, c)); } }
  if (!ok) { Hist h(1, c); write_candidate(sub, job, idx, h, msg, "wrong-result"); return false; }
  return true;
}

// ---- job bodies --------------------------------------------------------------------------
static u64 job_seed(const Job &j) { return mix(mix(g_seed, hash_str(j.sub >= 0 ? SUB[j.sub].name.c_str() : "-")), mix(j.kind * 1000003ULL + hash_str(g_mode.c_str()), j.chunk)); }
static volatile int g_stopat_set = 0; static u64 g_stopat = ~0ULL;

static void data_args(const Op &op, int *ix, int &n) { n = 0; for (int i = 0; i < op.na; i++) if (op.a[i].t != 'i') ix[n++] = i; }
// Values worth crossing with each other, per element type.
static const std::vector<u64> &grid_values(const Ty &t, bool wide) {
  static std::map<int, std::vector<u64>> cache; const int key = (t.k == 'f' ? 1000 : 0) + t.bits * 2 + (wide && t.k == 'f');
  auto it = cache.find(key); if (it != cache.end()) return it->second;
  std::set<u64> v; const u64 m = t.bits == 64 ? ~0ULL : (1ULL << t.bits) - 1;
  if (t.k == 'f') {
    const bool d = t.bits == 64; const int mb = d ? 52 : 23, emax = d ? 2047 : 255, bias = d ? 1023 : 127; std::set<int> ex;
    if (wide && !d) for (int e = 0; e <= emax; e++) ex.insert(e);
    else for (int e : {0, 1, 2, 3, mb, mb + 1, bias / 2, bias / 2 + 1, bias - 2 * mb, bias - mb - 2, bias - mb - 1, bias - mb, bias - 9, bias - 2, bias - 1, bias, bias + 1, bias + 2, bias + 3, bias + 7, bias + 15, bias + mb - 1, bias + mb, bias + mb + 1, bias + 30, bias + 31, bias + 32, bias + 63, bias + 64, emax - bias / 2, emax - 3, emax - 2, emax - 1, emax}) if (e >= 0 && e <= emax) ex.insert(e);
    const u64 top = (1ULL << mb) - 1, ms[] = {0, 1, 1ULL << (mb - 1), top, top / 3};
    for (int e : ex) for (int k = 0; k < (wide ? 4 : 5); k++) for (int sg = 0; sg < 2; sg++) v.insert((u64)sg << (t.bits - 1) | (u64)e << mb | ms[k]);
  } else {
    for (int k = 0; k <= 16; k++) { v.insert(k); v.insert((u64)-k & m); }
    for (int k = 2; k < t.bits; k++) for (int x = -2; x <= 2; x++) { v.insert(((1ULL << k) + x) & m); v.insert((0 - (1ULL << k) + x) & m); }
    const u64 rt = t.bits == 64 ? 0xb504f333ULL : t.bits == 32 ? 0xb504 : 0xb5;     // about sqrt(2^(bits-1))
    for (u64 q : {0x5555555555555555ULL, 0x3333333333333333ULL, 0x0f0f0f0f0f0f0f0fULL, 0x00ff00ff00ff00ffULL, 0x0000ffff0000ffffULL, 0x00000000ffffffffULL, 0x8080808080808080ULL, 0x0101010101010101ULL, 0x0123456789abcdefULL, 100ULL, 1000ULL, 1000000ULL}) { v.insert(q & m); v.insert(~q & m); }
    for (int x = -1; x <= 1; x++) { v.insert((rt + x) & m); v.insert((0 - rt + x) & m); v.insert(((1ULL << (t.bits / 2)) * 3 + x) & m); v.insert((m / 3 + x) & m); v.insert((m / 5 + x) & m); }
  }
  return cache[key] = std::vector<u64>(v.begin(), v.end());
}
static u64 g_gridbudget = 400000; static bool g_gridwide = false;
// count = first operand | second operand << 8 (the same operand twice: alone); all pairs of grid values, each
// lane of a call a different pair, strided down to the budget (the phase varies with the seed).
static void job_grid(const Job &j, int jn) {
  const int sub = j.sub; if (SH->failed[sub]) return; const Op &op = OPS[SUB[sub].op]; int ix[3], nd; data_args(op, ix, nd);
  const int p = (int)(j.count & 255), q = (int)(j.count >> 8); Rng r(job_seed(j)); Case c; gen_case(r, SUB[sub].op, c);
  const Ty &tp = op.a[p], &tq = op.a[q]; const bool alone = p == q;
  const std::vector<u64> &A = grid_values(tp, alone || g_gridwide), &B = grid_values(tq, alone || g_gridwide);
  const u64 na = A.size(), nb = alone ? 1 : B.size(), per = na * nb; const int lo = op.immArg() >= 0 ? op.lo : 0, hi = op.immArg() >= 0 ? op.hi : 0;
  const u64 total = per * (u64)(hi - lo + 1), stride = std::max<u64>(1, total / g_gridbudget); u64 idx = 0;
  for (u64 t = stride > 1 ? r.below((unsigned)stride) : 0; t < total; t += stride > 1 ? 1 + r.below((unsigned)(2 * stride - 1)) : 1, idx++) {
    const u64 row = t % per / nb, col = t % per % nb; c.imm = lo + (int)(t / per);
    if ((idx & 15) == 0) for (int k = 0; k < nd; k++) if (ix[k] != p && ix[k] != q) gen_arg(r, c, ix[k]);
    for (int i = 0; i < tp.n(); i++) putraw(c.a[p], tp.eb(), i, A[(row + 7 * i) % na]);
    if (!alone) for (int i = 0; i < tq.n(); i++) putraw(c.a[q], tq.eb(), i, B[(col + i) % nb]);
    if (!run_one(sub, jn, idx, c, true)) return;
  }
}
static void job_sweep(const Job &j, int jn) {
  const int sub = j.sub; if (SH->failed[sub]) return; const Op &op = OPS[SUB[sub].op]; int ix[3], nd; data_args(op, ix, nd);
  Rng r(job_seed(j)); Case c; gen_case(r, SUB[sub].op, c);
  u64 idx = 0;
  if (j.kind == J_SWEEP8) {            // every pair of 8-bit lane values in every lane position
    for (int imm = op.immArg() >= 0 ? op.lo : 0; imm <= (op.immArg() >= 0 ? op.hi : 0); imm++) {
      c.imm = imm;
      for (u64 t = 0; t < 65536; t++, idx++) {
        int e = 0;
        for (int k = 0; k < nd; k++) { const Ty &t8 = op.a[ix[k]];
          if (t8.bits == 8 && e < 2) { for (int i = 0; i < t8.n(); i++) { u64 p = (t + i * 4099ULL) & 0xffff; c.a[ix[k]][i] = e == 0 ? (u8)p : (u8)(p >> 8); } e++; }
          else if ((t & 15) == 0) gen_arg(r, c, ix[k]); }
        if (!run_one(sub, jn, idx, c, true)) return;
      }
    }
  } else if (j.kind == J_SWEEP16U) {   // every 16-bit value of the first 16-bit operand, every immediate
    int imm = (int)j.chunk; c.imm = imm;
    for (u64 t = 0; t < 65536; t++, idx++) {
      int e = 0;
      for (int k = 0; k < nd; k++) { const Ty &tt = op.a[ix[k]];
        if (tt.bits == 16 && e == 0) { for (int i = 0; i < tt.n(); i++) putraw(c.a[ix[k]], 2, i, (t + i * 4099ULL) & 0xffff); e++; }
        else if ((t & 15) == 0) gen_arg(r, c, ix[k]); }
      if (!run_one(sub, jn, idx, c, true)) return;
    }
  } else if (j.kind == J_SWEEP16B) {   // 16-bit pairs: rows [chunk*count, +count) of the first operand; special rows first
    static const int special[] = {0, 1, 0xffff, 0x7fff, 0x8000, 0x8001, 0x00ff, 0x0100, 0xff00, 0x007f, 0x0080, 0xff80, 0x5555, 0xaaaa, 2, 0xfffe};
    const Ty &t0 = op.a[ix[0]], &t1 = op.a[ix[1]]; int n = std::max(t0.n(), t1.n());
    bool full = j.count > 64;
    for (u64 q = 0; q < j.count; q++) {
      u64 row = full ? j.chunk * j.count + q : (q < 16 && j.chunk == 0) ? special[q] : r.next() & 0xffff;
      for (u64 t = 0; t < 65536; t += full ? n : 1, idx++) {
        for (int i = 0; i < t0.n(); i++) putraw(c.a[ix[0]], 2, i, row);
        for (int i = 0; i < t1.n(); i++) putraw(c.a[ix[1]], 2, i, full ? t + (i + row) % n : (t + i * 4099ULL) & 0xffff);
        if (!run_one(sub, jn, idx, c, true)) return;
      }
    }
  } else if (j.kind == J_SWEEP32U) {   // every 32-bit value of the operand
    const int n = op.a[ix[0]].n();
    for (u64 t = j.chunk * j.count; t < (j.chunk + 1) * j.count; t += n, idx++) {
      for (int i = 0; i < n; i++) putraw(c.a[ix[0]], 4, i, t + ((i + t / n) % n));
      if (!run_one(sub, jn, idx, c, true)) return;
    }
  }
}
static void job_random(const Job &j, int jn) {
  Rng r(job_seed(j)); Case c;
  for (u64 k = 0; k < j.count; k++) {
    if ((k & 1023) == 0 && (SH->failed[j.sub] || SH->nfail >= g_maxfail)) return;
    SUB[j.sub].gen(r, c);
    if (!run_one(j.sub, jn, k, c, false)) return;
  }
}

static std::string *g_sample = 0;
static bool take_sample(const Hist &h);
// ---- fresh-state reference: what a call gives as the first call of a process ----
static int g_srv_q = -1, g_srv_a = -1;
struct SrvAns { int st; Out o; };
static void srv_one(const Case &c, SrvAns &ans) {   // runs c in a forked child of this (pristine) process
  static SrvAns *sh = (SrvAns *)mmap(0, sizeof(SrvAns), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)sh, 0, sizeof *sh); pid_t p = fork();
  if (p == 0) { alarm(20); for (int s : {SIGALRM, SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) signal(s, SIG_DFL); g_arena.rw = 0; g_arena.init(); memset(sh->o.r, 0xA7, 64); exec_case(W, c, sh->o); _exit(0); }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
  ans = *sh; ans.st = WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st) ? 1000 : 0;
}
static void srv_start() {                          // a server forked before any library call was made
  int q[2], a[2]; if (pipe(q) || pipe(a)) _exit(3);
  pid_t p = fork();
  if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); close(q[1]); close(a[0]); Case c; while (read(q[0], &c, sizeof c) == (ssize_t)sizeof c) { SrvAns x; srv_one(c, x); if (write(a[1], &x, sizeof x) < 0) break; } _exit(0); }
  close(q[0]); close(a[1]); g_srv_q = q[1]; g_srv_a = a[0];
}
static bool same_as_fresh(const Case &c, const Out &o) {
  if (g_srv_q < 0) return false;
  SrvAns x; if (write(g_srv_q, &c, sizeof c) < 0) return false;
  size_t got = 0; while (got < sizeof x) { ssize_t n = read(g_srv_a, (char *)&x + got, sizeof x - got); if (n <= 0) return false; got += n; }
  if (x.st) return false;
  const Op &op = OPS[c.op]; int pa = op.ptrArg();
  return (!op.ret.t || !memcmp(x.o.r, o.r, op.ret.bytes())) && (pa < 0 || !memcmp(x.o.mem, o.mem, op.a[pa].bytes()));
}
// ---- call histories: model-based ---------------------------------------------------------
static void paint_stack(int v) { volatile u8 buf[6144]; for (size_t i = 0; i < sizeof buf; i++) buf[i] = (u8)v; __asm__ volatile("" ::: "memory"); }
static void SH_skip(int op) { if (SH) SH->failed[op] = 1; }
static bool hist_step(Case &c, Out &o, std::string *msg, unsigned &cls, int paint) {
  Exp e; memset(o.r, 0xA7, 64);
  unsigned csr0 = _mm_getcsr() & ~0x3fu;
  if (paint >= 0) paint_stack(paint);
  bool can = exec_case(W, c, o);
  unsigned csr1 = _mm_getcsr() & ~0x3fu;
  model(c, e); cls = e.cls;
  if (!agrees(c, o, e, msg)) {
    if (g_mode != "history" ) return false;
    if (same_as_fresh(c, o)) { SH_skip(c.op); return true; }    // wrong, but a function of the arguments: not this property
    if (msg) *msg = "result differs from the same call in a fresh process (" + *msg + ")";
    return false;
  }
  if (!can && g_mode != "history") { if (msg) *msg = "memory outside the addressed elements was modified"; return false; }
  if (csr0 != csr1) { _mm_setcsr(csr0); if (msg) *msg = "the call changed the floating-point control state"; return false; }
  return true;
}
static std::vector<int> g_live;       // implemented ops
static bool run_history(const Hist &h, std::string *msg, int paint) {
  for (size_t i = 0; i < h.size(); i++) { Case c = h[i]; Out o; unsigned cls; if (!W[c.op]) continue;
    if (!hist_step(c, o, msg, cls, paint < 0 ? -1 : (int)((i * 37 + paint) & 255))) return false; }
  return true;
}
static void job_history(const Job &j, int jn) {
  Rng r(job_seed(j)); Slot *sl = g_worker >= 0 ? &SH->slot[g_worker] : 0;
  for (u64 k = 0; k < j.count; k++) {
    if (SH->nfail >= g_maxfail) return;
    Hist done; int nops = 1 + r.below(5); int ops[5];
    for (int i = 0; i < nops; i++) {
      if (i && r.chance(45)) {   // a relative of an earlier op: same family name prefix
        const char *base = OPS[ops[r.below(i)]].name; int start = g_live.empty() ? 0 : r.below(g_live.size()), f = -1;
        for (size_t q = 0; q < g_live.size(); q++) { int o = g_live[(start + q) % g_live.size()]; if (!strncmp(OPS[o].name, base, 4)) { f = o; break; } }
        ops[i] = f < 0 ? g_live[r.below(g_live.size())] : f;
      } else ops[i] = g_live[r.below(g_live.size())];
      if (SH->failed[ops[i]]) ops[i] = ops[0];
    }
    int len = 4 + r.below(r.chance(10) ? 120 : 28); u64 h = 0x51ed27;
    std::vector<Out> outs; bool repeated = false;
    for (int s = 0; s < len; s++) {
      Case c; bool rep = !done.empty() && r.chance(35);
      if (rep) { c = done[r.below(done.size())]; repeated = true;
        if (r.chance(35)) { const Op &op = OPS[c.op]; int a = r.below(op.na);   // same call with one argument changed
          if (op.a[a].t == 'i') c.imm = op.lo + (int)r.below(op.hi - op.lo + 1); else { int b = r.below(op.a[a].bytes()); c.a[a][b] ^= 1 << r.below(8); } } }
      else gen_case(r, ops[r.below(nops)], c);
      if (SH->failed[c.op]) continue;
      done.push_back(c);
      if (sl) { sl->cur = c; sl->idx = k; sl->haveCase = 1; }
      Out o; unsigned cls; std::string msg;
      bool ok = hist_step(c, o, &msg, cls, r.chance(50) ? (int)r.below(256) : -1);
      if (sl) sl->haveCase = 0;
      h = hash_bytes(&h, 8, case_hash(c)); L.extra[0]++; L.note(cls);
      if (!ok) { write_candidate(c.op, jn, k, done, msg, "history"); break; }
    }
    if (take_sample(done)) return;
    L.evals++; if (repeated && done.size() >= 4) { ht_note(h ? h : 1); }
  }
}
// memory the process holds: heap blocks in use, and address space (mappings made without malloc)
struct Held { size_t heap, space; };
static Held held() {
  struct mallinfo2 m = mallinfo2(); Held h = {(size_t)m.uordblks + m.hblkhd, 0};
  char b[64]; int fd = open("/proc/self/statm", O_RDONLY); if (fd >= 0) { ssize_t n = read(fd, b, 63); close(fd); if (n > 0) { b[n] = 0; h.space = strtoull(b, 0, 10) * 4096; } }
  return h;
}
// the same call repeated very many times must keep giving the same answer and hold no memory
static void job_repeat(const Job &j, int jn) {
  if (SH->failed[j.sub]) return;
  Rng r(job_seed(j)); Slot *sl = g_worker >= 0 ? &SH->slot[g_worker] : 0;
  enum { NC = 16 }; Case c[NC]; Exp e[NC]; Out o; const Op &op = OPS[SUB[j.sub].op];
  for (int i = 0; i < NC; i++) { gen_case(r, SUB[j.sub].op, c[i]); model(c[i], e[i]); }
  const int rb = op.ret.bytes(), pa = op.ptrArg(); const bool strict = !(op.fl & FL_FP);
  for (int k = 0; k < 8; k++) exec_case(W, c[k % NC], o);
  const Held m0 = held();
  if (sl) { sl->cur = c[0]; sl->haveCase = 1; }
  for (u64 k = 0; k < j.count; k++) {
    int q = (k >> 5) % NC;
    if (sl) { if ((k & 31) == 0) sl->cur = c[q]; sl->idx = k; }
    exec_case(W, c[q], o);
    if (strict && (!rb || !memcmp(o.r, e[q].r, rb)) && (pa < 0 || !memcmp(o.mem, op.a[pa].cst ? c[q].a[pa] : e[q].mem, op.a[pa].bytes()))) continue;
    std::string msg;
    if (!agrees(c[q], o, e[q], &msg)) { if (same_as_fresh(c[q], o)) { SH_skip(c[q].op); break; } write_candidate(j.sub, jn, k, Hist(1, c[q]), "call number " + std::to_string(k + 9) + " of a series with the same few arguments: " + msg, "repeat"); break; }
  }
  const Held m1 = held();
  if (m1.heap > m0.heap + 4096 && !SH->failed[j.sub]) write_candidate(j.sub, jn, j.count, Hist(1, c[0]), std::to_string(m1.heap - m0.heap) + " bytes still allocated after " + std::to_string(j.count) + " calls", "leak");
  else if (m1.space > m0.space + (1 << 19) && !SH->failed[j.sub]) write_candidate(j.sub, jn, j.count, Hist(1, c[0]), std::to_string(m1.space - m0.space) + " bytes more are mapped after " + std::to_string(j.count) + " calls", "leak");
  // many different arguments, rounds of the same ones: what one-time tables and caches cost is paid in the first
  Held mem[4]; std::vector<Case> cs(2000); for (auto &x : cs) gen_case(r, SUB[j.sub].op, x);
  const int passes = 1 + (int)(j.count / 40000);
  for (int round = 0; round < 4; round++) {
    for (int k = 0; k < passes; k++) for (auto &x : cs) { if (sl) { sl->cur = x; sl->idx++; } exec_case(W, x, o); }
    mem[round] = held();
  }
  auto grows = [&](size_t Held::*f) { return mem[3].*f > mem[2].*f && mem[2].*f > mem[1].*f && mem[1].*f > mem[0].*f; };
  if ((grows(&Held::heap) || grows(&Held::space)) && !SH->failed[j.sub]) write_candidate(j.sub, jn, j.count, Hist(1, cs[0]), "each round of the same " + std::to_string(passes * cs.size()) + " calls leaves more memory allocated (" + std::to_string(grows(&Held::heap) ? mem[3].heap - mem[2].heap : mem[3].space - mem[2].space) + " bytes in the last)", "leak");
  L.extra[4] += 4 * passes * cs.size();
  if (sl) sl->haveCase = 0;
  L.extra[1] += j.count; L.evals++; ht_note(case_hash(c[0]) ^ 0x5555);
}

// ---- random straight-line programs over registers and memory ------------------------------
static bool take_sample(const Hist &h) {
  if (!g_sample) return false;
  for (size_t i = 0; i < h.size() && i < 12; i++) *g_sample += (i ? "; " : "") + case_pretty(h[i]);
  if (h.size() > 12) *g_sample += "; ... (" + std::to_string(h.size()) + " calls)";
  return true;
}
struct Reg { Ty t; u8 b[64]; };
static u64 tykey(const Ty &t) { return (u64)t.t << 40 | (u64)t.k << 32 | t.bits << 16 | t.lanes << 4 | t.nvec; }
static void job_program(const Job &j, int jn) {
  Rng r(job_seed(j)); Slot *sl = g_worker >= 0 ? &SH->slot[g_worker] : 0;
  for (u64 k = 0; k < j.count; k++) {
    if (SH->nfail >= g_maxfail) return;
    std::map<u64, std::vector<Reg>> regs; u8 mem[256]; for (int i = 0; i < 256; i++) mem[i] = (u8)r.next();
    Hist done; int len = 6 + r.below(34), flow = 0, memops = 0; u64 h = 0x77; bool bad = false;
    // programs prefer one width so that values flow
    for (int s = 0; s < len && !bad; s++) {
      int best = -1, bestv = -1;
      for (int q = 0; q < 6; q++) {        // prefer ops whose operands are available
        int o = g_live[r.below(g_live.size())]; if (SH->failed[o]) continue; int v = 0;
        for (int a = 0; a < OPS[o].na; a++) if (OPS[o].a[a].t == 'v' || OPS[o].a[a].t == 's') v += regs.count(tykey(OPS[o].a[a])) ? 2 : 0;
        if (v > bestv) { bestv = v; best = o; }
      }
      if (best < 0) break;
      const Op &op = OPS[best]; Case c; gen_case(r, best, c);
      int moff = -1;
      for (int a = 0; a < op.na; a++) {
        if (op.a[a].t == 'p') { int sz = op.a[a].bytes(); moff = r.below(256 - sz); moff -= moff % op.a[a].eb(); memcpy(c.a[a], mem + moff, sz); memops++; }
        else if (op.a[a].t == 'v' || op.a[a].t == 's') {
          auto it = regs.find(tykey(op.a[a]));
          if (it != regs.end() && r.chance(85)) { const Reg &g = it->second[r.chance(60) ? it->second.size() - 1 : r.below(it->second.size())]; memcpy(c.a[a], g.b, op.a[a].bytes()); flow++; }
        }
      }
      if (op.sem == S_TBL && r.chance(70)) for (int i = 0; i < 8; i++) c.a[1][i] &= 31;
      done.push_back(c);
      if (sl) { sl->cur = c; sl->idx = k; sl->haveCase = 1; }
      Out o; unsigned cls; std::string msg; bool ok = hist_step(c, o, &msg, cls, -1);
      if (sl) sl->haveCase = 0;
      h = hash_bytes(&h, 8, case_hash(c)); L.extra[0]++; L.note(cls);
      if (!ok) { write_candidate(best, jn, k, done, msg, "program"); bad = true; break; }
      if (op.ret.t) { Reg g; g.t = op.ret; memcpy(g.b, o.r, 64); regs[tykey(op.ret)].push_back(g);
        if (op.ret.t == 'v' && op.ret.nvec > 1) for (int v = 0; v < op.ret.nvec; v++) { Reg p; p.t = op.ret; p.t.nvec = 1; memcpy(p.b, o.r + v * op.ret.lanes * op.ret.eb(), op.ret.lanes * op.ret.eb()); regs[tykey(p.t)].push_back(p); } }
      if (moff >= 0 && !op.a[op.ptrArg()].cst) memcpy(mem + moff, o.mem, op.a[op.ptrArg()].bytes());
    }
    if (take_sample(done)) return;
    L.evals++; if (flow >= 4) { ht_note(h ? h : 1); }
    L.extra[2] += flow; L.extra[3] += memops;
  }
}

// ---- worker pool -------------------------------------------------------------------------
static void imm_setup();
static void run_job(int jn) {
  const Job &j = JOBS[jn];
  if (SH->nfail >= g_maxfail) return;
  if (j.sub >= 0 && SH->failed[j.sub]) return;
  switch (j.kind) {
    case J_RANDOM: job_random(j, jn); break;
    case J_HISTORY: job_history(j, jn); break;
    case J_PROGRAM: job_program(j, jn); break;
    case J_REPEAT: job_repeat(j, jn); break;
    case J_GRID: job_grid(j, jn); break;
    default: job_sweep(j, jn);
  }
  L.flush();
}
static void setup_handlers() {
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  if (g_mode == "san" || g_mode == "diff" || g_mode == "state" || g_mode == "memcheck") {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_ill; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGABRT, &sa, 0); sigaction(SIGALRM, &sa, 0);
    sigaction(SIGILL, &sa, 0); sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0);
  }
}
static void worker_main(int w) {
  g_worker = w; setup_handlers();
  int dn = open("/dev/null", O_WRONLY); if (dn >= 0 && g_mode != "san" && g_mode != "imm") dup2(dn, 2);
  g_arena.rw = 0; g_arena.init();
  Slot &s = SH->slot[w];
  for (;;) {
    int jn = __atomic_fetch_add(&SH->nextJob, 1, __ATOMIC_SEQ_CST);
    if (jn >= (int)JOBS.size()) break;
    s.job = jn; s.active = 1;
    pid_t p = fork();                       // every job starts from the same process state
    if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (g_mode == "history") srv_start(); if (g_mode == "imm") imm_setup(); run_job(jn); _exit(0); }
    if (p < 0) { perror("fork"); _exit(3); }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    ht_drain(w);
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); sigset_t ss; sigfillset(&ss); sigprocmask(SIG_UNBLOCK, &ss, 0); raise(WTERMSIG(st)); _exit(98); }
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    s.active = 0;
  }
  s.active = 2; _exit(0);
}
static const char *death(int st, char *b) {
  if (WIFSIGNALED(st)) snprintf(b, 96, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  else snprintf(b, 96, "process exited with status %d inside the call", WEXITSTATUS(st));
  return b;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void run_pool(int nw) {
  pid_t pid[MAXW]; u64 last[MAXW]; double since[MAXW]; int alive = 0; bool hung[MAXW];
  auto spawn = [&](int w) { SH->slot[w].active = 0; SH->slot[w].haveCase = 0; hung[w] = false; fflush(stdout); pid[w] = fork(); if (pid[w] == 0) worker_main(w); alive++; last[w] = ~0ULL; since[w] = now(); };
  for (int w = 0; w < nw; w++) if (!HB[w]) HB[w] = (HBuf *)mmap(0, sizeof(HBuf), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int w = 0; w < nw; w++) spawn(w);
  while (alive > 0) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) {
      usleep(5000);
      for (int w = 0; w < nw; w++) if (pid[w] > 0) {
        Slot &s = SH->slot[w]; u64 sig = s.idx * 2654435761u + s.job + (s.haveCase ? 0 : 1);
        if (sig != last[w] || !s.haveCase) { last[w] = sig; since[w] = now(); }
        else if (now() - since[w] > 25) { hung[w] = true; kill(pid[w], SIGKILL); since[w] = now(); }
      }
      continue;
    }
    for (int w = 0; w < nw; w++) if (pid[w] == p) {
      pid[w] = 0; alive--;
      Slot &s = SH->slot[w];
      if (s.active == 2 && WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
      char b[128]; const Job *j = &JOBS[s.job];
      if (!s.haveCase) { fprintf(stderr, "engine: worker died outside a case: %s (job %d)\n", death(st, b), s.job); _exit(3); }
      int sub = j->sub >= 0 ? j->sub : (SUB.size() && SUB[0].op >= 0 ? s.cur.op : 0);
      Case c; memcpy(&c, (void *)&s.cur, sizeof c);
      if (g_mode == "history") { SrvAns x; if (SH->failed[c.op]) { spawn(w); break; } srv_one(c, x); if (x.st) { SH_skip(c.op); spawn(w); break; } }   // dies as a first call too: not a matter of history
      g_worker = w; write_candidate(sub, s.job, s.idx, Hist(1, c), hung[w] ? "no answer within 25 s" : death(st, b), hung[w] ? "hang" : "crash"); g_worker = -1;
      if (SH->nfail < g_maxfail && SH->nextJob <= (int)JOBS.size()) spawn(w);
      break;
    }
  }
}

// ---- replay and shrink -------------------------------------------------------------------
static bool fails_now(const Hist &h, std::string *msg) {   // in this process
  if (g_mode == "history" || g_mode == "program") return !run_history(h, msg, 1);
  for (size_t i = 0; i < h.size(); i++) { unsigned cls = 0; int s = SUB[0].op >= 0 ? -1 : h[i].op;
    if (s < 0) { for (size_t q = 0; q < SUB.size(); q++) if (SUB[q].op == h[i].op) { s = q; break; } }
    if (s < 0) continue;
    if (!SUB[s].check(h[i], msg, cls)) return true; }
  return false;
}
static int g_replay_timeout = 20;
// 0: holds, 1: fails, 2: hang
static int fails_forked(const Hist &h, std::string *msg) {
  int pfd[2]; if (pipe(pfd)) return 0;
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    close(pfd[0]); setup_handlers(); alarm(g_replay_timeout);
    if (g_mode == "diff" || g_mode == "san") { alarm(0); g_callalarm = std::max(2, g_replay_timeout / 3); }
    int dn = open("/dev/null", O_WRONLY); if (dn >= 0) dup2(dn, 2);
    if (g_mode == "imm") imm_setup();
    if (g_mode == "history") srv_start();
    g_arena.rw = 0; g_arena.init();
    std::string m; bool f = fails_now(h, &m);
    if (f) { m = m.substr(0, 2000); ssize_t x = write(pfd[1], m.data(), m.size()); (void)x; _exit(41); }
    _exit(40);
  }
  close(pfd[1]); std::string m; char b[512]; ssize_t n; while ((n = read(pfd[0], b, sizeof b)) > 0) m.append(b, n); close(pfd[0]);
  int st; waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 40) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 41) { if (msg) *msg = m; return 1; }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { if (msg) *msg = "no answer within " + std::to_string(g_replay_timeout) + " s"; return 2; }
  if (g_mode == "history" && h.size()) for (auto &c : h) { SrvAns x; srv_one(c, x); if (x.st) return 0; }
  char d[128]; if (msg) *msg = death(st, d); return 1;
}
static void shrink(Hist &h, std::string &msg, int budget) {
  auto fails = [&](const Hist &t) { if (budget-- <= 0) return false; std::string m; if (fails_forked(t, &m) == 1) { msg = m; return true; } return false; };
  // fewer cases
  if (h.size() > 1) { Hist t(1, h.back()); if (fails(t)) h = t; }
  for (size_t step = h.size() / 2; step >= 1 && h.size() > 1; step /= 2)
    for (size_t i = 0; i + 1 < h.size();) { Hist t = h; size_t e = std::min(i + step, t.size() - 1); t.erase(t.begin() + i, t.begin() + e); if (t.size() < h.size() && fails(t)) h = t; else i += step; }
  if (h.size() > 6) return;
  for (size_t ci = 0; ci < h.size(); ci++) {
    const bool isop = SUB[0].op >= 0; 
    int na = isop ? OPS[h[ci].op].na : SUB[h[ci].op].na; const Ty *ta = isop ? OPS[h[ci].op].a : SUB[h[ci].op].a;
    int lo = isop ? OPS[h[ci].op].lo : SUB[h[ci].op].lo; bool im = isop ? OPS[h[ci].op].immArg() >= 0 : SUB[h[ci].op].hasImm;
    for (int round = 0; round < 3; round++) {
      bool any = false;
      auto attempt = [&](const Case &c) { Hist t = h; t[ci] = c; if (!memcmp(&c, &h[ci], sizeof c)) return false; if (fails(t)) { h = t; any = true; return true; } return false; };
      for (int a = 0; a < na; a++) { if (ta[a].t == 'i') continue; Case c = h[ci]; memset(c.a[a], 0, 64); attempt(c); }
      { Case c = h[ci]; if (c.place) { c.place = 0; attempt(c); } c = h[ci]; if (c.off) { c.off = 0; attempt(c); } }
      if (im) for (int d = h[ci].imm - lo; d > 0; d /= 2) { Case c = h[ci]; c.imm -= d; attempt(c); }
      for (int a = 0; a < na; a++) if (ta[a].t != 'i') {
        int eb = ta[a].eb(), n = ta[a].n();
        for (int i = 0; i < n; i++) {
          u64 v = getraw(h[ci].a[a], eb, i); if (!v) continue;
          u64 m = eb == 8 ? ~0ULL : (1ULL << (8 * eb)) - 1;
          u64 tries[] = {0, 1, m, v >> 1, v & (v - 1), v >> (4 * eb), v & (m >> 1), v - 1, (v & (1ULL << (8 * eb - 1))) };
          for (u64 t : tries) { if ((t & m) == v || (t & m) > v) continue; Case c = h[ci]; putraw(c.a[a], eb, i, t & m); if (attempt(c)) break; }
          for (int b = 8 * eb - 1; b >= 0; b--) { u64 cur = getraw(h[ci].a[a], eb, i); if (cur >> b & 1) { Case c = h[ci]; putraw(c.a[a], eb, i, cur & ~(1ULL << b)); attempt(c); } }
        }
      }
      if (!any || budget <= 0) break;
    }
  }
}

// ---- illegal immediates ------------------------------------------------------------------
static sigjmp_buf g_abjmp; static volatile int g_inab = 0;
static void on_abrt(int s) { if (g_inab) siglongjmp(g_abjmp, s); signal(s, SIG_DFL); raise(s); }
static int g_errfd = -1;
// kind of termination inside this process: 0 returned, 1 abort, 2 other signal
static int call_abort(const Case &c, Out &o, bool &diag, bool &memok) {
  const Op &op = OPS[c.op]; void *p[3]; int pa = op.ptrArg(), off = 0;
  for (int i = 0; i < op.na; i++) p[i] = (void *)c.a[i];
  static u8 before[Arena::USABLE];
  if (pa >= 0) { off = g_arena.offset(c, op.a[pa]); memcpy(g_arena.rw + off, c.a[pa], op.a[pa].bytes()); p[pa] = (op.a[pa].cst ? g_arena.ro : g_arena.rw) + off; memcpy(before, g_arena.rw, Arena::USABLE); }
  if (g_errfd >= 0) { int x = ftruncate(g_errfd, 0); (void)x; lseek(g_errfd, 0, SEEK_SET); }
  int s = sigsetjmp(g_abjmp, 1), kind;
  if (!s) { g_inab = 1; W[c.op](p, o.r, c.imm); g_inab = 0; kind = 0; }
  else { g_inab = 0; kind = s == SIGABRT ? 1 : 2; }
  fflush(stderr);
  diag = g_errfd >= 0 && lseek(g_errfd, 0, SEEK_END) > 0;
  memok = true;
  if (pa >= 0) { memok = memcmp(before, g_arena.rw, Arena::USABLE) == 0; memset(g_arena.rw, 0xC5, Arena::USABLE); }
  return kind;
}
static bool check_imm(const Case &c, std::string *msg, unsigned &cls) {
  const Op &op = OPS[c.op]; Out o; bool diag, memok; bool illegal = c.imm < op.rlo || c.imm > op.rhi, legal = c.imm >= op.lo && c.imm <= op.hi;
  cls = illegal ? C_OOR : legal ? C_IMMEDGE : 0;
  if (!illegal && !legal) return true;
  if (legal) {       // only whether it comes back matters
    const int s = sigsetjmp(g_abjmp, 0); if (!s) { g_inab = 1; exec_case(W, c, o); g_inab = 0; return true; }
    g_inab = 0; fflush(stderr); if (op.ptrArg() >= 0) memset(g_arena.rw, 0xC5, Arena::USABLE);
    if (msg) *msg = "legal immediate " + std::to_string(c.imm) + (s == SIGABRT ? " aborts" : " kills the process"); return false;
  }
  int k = call_abort(c, o, diag, memok);
  if (k != 1) { if (msg) *msg = "illegal immediate " + std::to_string(c.imm) + (k == 0 ? " is accepted (the call returns)" : " is not rejected by abort (other signal)"); return false; }
  if (!diag) { if (msg) *msg = "illegal immediate " + std::to_string(c.imm) + " aborts without a diagnostic on stderr"; return false; }
  if (!memok) { if (msg) *msg = "illegal immediate " + std::to_string(c.imm) + ": memory was written before the abort"; return false; }
  return true;
}
static void imm_setup() {
  int fd = memfd_create("err", 0); if (fd < 0) { FILE *f = tmpfile(); fd = f ? fileno(f) : -1; }
  dup2(fd, 2); g_errfd = 2;
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_abrt; sa.sa_flags = SA_NODEFER;
  sigaction(SIGABRT, &sa, 0); sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0);
}
static int gen_imm(Rng &r, const Op &op) {
  static const int big[] = {INT32_MIN, INT32_MAX, INT32_MIN + 1, -1, -2, 255, 256, -128, -129, 128, 127, 65535, 65536, 32768, -32768, 32767, 64, 63, 65, 32, 33, 31, 16, 17, 8, 9};
  int span = op.hi - op.lo + 1;
  switch (r.below(8)) {
    case 0: return op.rlo - 1 - (int)r.below(3);
    case 1: return op.rhi + 1 + (int)r.below(3);
    case 2: return big[r.below(sizeof big / sizeof big[0])];
    case 3: return (int)(op.lo + r.below(span) + (1LL << (3 + r.below(28))));      // legal value plus a power of two
    case 4: return (int)(op.lo + r.below(span) - (1LL << (3 + r.below(29))));
    case 5: return (int)r.next();
    case 6: return (int)r.below(300) - 150;
    default: return op.lo + (int)r.below(span);
  }
}

// ---- thread runs (built with -fsanitize=thread, or natively as a stress) ------------------
static volatile int g_curop = -1; static volatile int g_tsan_op = -1; static volatile int g_tsan_n = 0; static volatile unsigned char g_tsan_ops[NOPS + 1];
extern "C" __attribute__((no_sanitize("thread"))) void __tsan_on_report(void *) { g_tsan_n = g_tsan_n + 1; g_tsan_op = g_curop; if (g_curop >= -1 && g_curop < NOPS) g_tsan_ops[g_curop + 1] = 1; }
static pthread_barrier_t g_bar; static u64 g_tcases; static std::vector<std::vector<int>> g_phases; static int g_nthr = 4;
static volatile int g_tfail = 0; static Case g_tcase; static std::string *g_tmsg; static pthread_mutex_t g_tmx = PTHREAD_MUTEX_INITIALIZER;
static volatile u64 g_tcalls = 0;
static __attribute__((no_sanitize("thread"), noinline)) bool phase_raced() { return g_tsan_n > 0 && g_curop >= 0 && g_tsan_ops[g_curop + 1]; }
static void *thread_main(void *arg) {
  long id = (long)arg; u8 *buf = (u8 *)aligned_alloc(64, 256); u64 calls = 0;
  for (size_t ph = 0; ph < g_phases.size(); ph++) {
    pthread_barrier_wait(&g_bar); if (id == 0) g_curop = g_phases[ph][0]; pthread_barrier_wait(&g_bar);
    Rng r(mix(mix(g_seed, ph * 64 + id), 4242));
    for (u64 k = 0; k < g_tcases; k++) {
      if ((k & 15) == 15 && phase_raced()) break;      // one report per phase is enough
      int o = g_phases[ph][r.below(g_phases[ph].size())]; const Op &op = OPS[o]; Case c; gen_case(r, o, c);
      void *p[3]; int pa = -1; for (int i = 0; i < op.na; i++) { p[i] = c.a[i]; if (op.a[i].t == 'p') { pa = i; memcpy(buf, c.a[i], op.a[i].bytes()); p[i] = buf; } }
      Out out; Exp e; memset(out.r, 0, 64); W[o](p, out.r, c.imm); calls++;
      if (pa >= 0) memcpy(out.mem, buf, op.a[pa].bytes());
      model(c, e); std::string m;
      if (!agrees(c, out, e, &m)) { pthread_mutex_lock(&g_tmx); if (!g_tfail) { g_tfail = 1; g_tcase = c; *g_tmsg = m; } pthread_mutex_unlock(&g_tmx); }
    }
  }
  __atomic_fetch_add(&g_tcalls, calls, __ATOMIC_RELAXED);
  free(buf); return 0;
}

// ---- main --------------------------------------------------------------------------------
static std::string jesc(const std::string &s) { std::string o; for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if ((u8)ch < 32) o += ' '; else o += ch; } return o; }
static bool wanted(const std::string &sel, const Op &op) {
  // sel: "all", "prop:C04", "sem:LD,ST", or comma-separated op names
  if (sel == "all") return true;
  size_t i = 0; while (i <= sel.size()) { size_t j = sel.find(',', i); if (j == std::string::npos) j = sel.size(); std::string t = sel.substr(i, j - i);
    if (t == op.prop || t == op.name) return true; if (t == "mem" && op.ptrArg() >= 0) return true; if (t == "imm" && op.immArg() >= 0) return true; i = j + 1; }
  return false;
}
int main(int argc, char **argv) {
  std::map<std::string, std::string> A;
  for (int i = 1; i + 1 < argc; i += 2) A[argv[i] + 2] = argv[i + 1];
  auto num = [&](const char *k, u64 d) { return A.count(k) ? strtoull(A[k].c_str(), 0, 0) : d; };
  g_mode = A.count("mode") ? A["mode"] : "model"; g_seed = num("seed", 1); g_outdir = A.count("outdir") ? A["outdir"] : ".";
  g_maxfail = (int)num("maxfail", 12); if (A.count("cfg")) g_cfgname = A["cfg"]; if (A.count("cfg2")) g_cfg2name = A["cfg2"];
  if (A.count("mined")) load_mined(A["mined"].c_str());
  load_plugin(A.count("plugin") ? A["plugin"].c_str() : 0, W);
  if (A.count("plugin2")) load_plugin(A["plugin2"].c_str(), W2);
  g_arena.init();
  const std::string sel = A.count("ops") ? A["ops"] : "all";
  // subjects
  std::vector<int> ops; for (int i = 0; i < NOPS; i++) if (W[i]) { g_live.push_back(i); if (wanted(sel, OPS[i])) ops.push_back(i); }
  if (A.count("focus")) g_live = ops;       // histories over these intrinsics only
  const std::string oracle = A.count("oracle") ? A["oracle"] : g_mode;
#ifdef WITH_LAWS
  if (g_mode == "laws") build_laws();
  else if (g_mode == "kernels") { g_kernels = (const kfn *)g_ksym; build_kernels(); }
  else
#endif
  for (int i = 0; i < NOPS; i++) {     // subject index == op index in op modes
    Subject s; s.name = OPS[i].name; s.op = i; s.na = OPS[i].na; for (int k = 0; k < 3; k++) s.a[k] = OPS[i].a[k]; s.hasImm = OPS[i].immArg() >= 0; s.lo = OPS[i].lo; s.hi = OPS[i].hi; s.weight = 1;
    s.gen = [i](Rng &r, Case &c) { gen_case(r, i, c); };
    if (oracle == "footprint") s.check = check_footprint;
#ifdef TRACE_BUILD
    else if (oracle == "trace") s.check = check_trace;
#endif
    else if (oracle == "roundtrip") s.check = check_roundtrip;
    else if (oracle == "diff") s.check = check_diff;
    else if (oracle == "san") s.check = check_san;
    else if (oracle == "imm") { const bool legal = num("legal", 0); s.check = check_imm; s.gen = [i, legal](Rng &r, Case &c) { gen_case(r, i, c); if (!legal) c.imm = gen_imm(r, OPS[i]); }; }
    else s.check = [](const Case &c, std::string *m, unsigned &cls) { return check_model(W, c, m, cls); };
    SUB.push_back(s);
  }
#ifdef ASAN_BUILD
  __asan_set_error_report_callback(asan_cb);
#endif
  if (A.count("replay") || A.count("shrink")) {
    const std::string path = A.count("replay") ? A["replay"] : A["shrink"];
    FILE *f = fopen(path.c_str(), "r"); if (!f) { perror("replay"); return 3; }
    Hist h; std::string head; char *line = 0; size_t cap = 0; ssize_t n; int jk = -1; char jn[128] = ""; unsigned long long jc = 0, jcount = 0, ji = 0;
    while ((n = getline(&line, &cap, f)) > 0) { if (line[n - 1] == '\n') line[n - 1] = 0; Case c; std::string l = line;
      if (sub_parse_case(l, c)) h.push_back(c); else if (l.compare(0, 4, "msg ") != 0) { head += l + "\n"; sscanf(line, "job %d %127s %llu %llu %llu", &jk, jn, &jc, &jcount, &ji); } }
    fclose(f);
    g_replay_timeout = (int)num("timeout", 20);
    std::string msg;
    if (A.count("job")) {       // deterministic re-run of the whole job that failed
      SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); HTMASK = (1 << 16) - 1;
      HT = (u64 *)mmap(0, (HTMASK + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      g_outdir = "/tmp"; if (A.count("outdir")) g_outdir = A["outdir"];
      int s = sub_index(jn); Job j = {jk, jk == J_HISTORY || jk == J_PROGRAM ? -1 : s, jc, jcount}; JOBS.push_back(j); g_maxfail = 1;
      run_pool(1); printf("%s\n", SH->nfail ? "FAIL job" : "OK"); return SH->nfail ? 1 : 0;
    }
    int r = fails_forked(h, &msg);
    if (r == 0) { printf("OK\n"); return 0; }
    if (A.count("shrink") && r == 1) {
      for (auto &c : h) (void)c;
      shrink(h, msg, (int)num("budget", 4000)); std::string m2; if (fails_forked(h, &m2) == 1) msg = m2;
      FILE *o = fopen(A["out"].c_str(), "w"); if (!o) { perror("out"); return 3; }
      fprintf(o, "%smsg %s\n", head.c_str(), msg.c_str());
      for (auto &c : h) { fprintf(o, "%s\n", sub_case_text(c).c_str()); if (SUB[0].op >= 0) fprintf(o, "# %s\n", case_pretty(c).c_str()); }
      fclose(o);
    }
    printf("FAIL %s\n", msg.c_str()); return 1;
  }

  size_t bits = (size_t)num("hashbits", 25);
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  HTMASK = (1ULL << bits) - 1;
  HT = (u64 *)mmap(0, (HTMASK + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (SH == MAP_FAILED || HT == MAP_FAILED) { perror("mmap"); return 3; }
  double t0 = now();
  u64 cases = num("cases", 10000), chunk = num("chunk", 20000); int sweeps = (int)num("sweeps", 0);
  std::string extraJson;

  if (g_mode == "threads") {
    g_nthr = (int)num("threads", 4); g_tcases = cases; g_tmsg = new std::string;
    { std::vector<int> ok; for (int i : ops) {     // intrinsics that are wrong or die without any thread are left to other checks
        pid_t p = fork(); if (p == 0) { alarm(20); Rng r(mix(g_seed, i)); for (int k = 0; k < 200; k++) { Case c; gen_case(r, i, c); std::string m; unsigned cls; if (!check_model(W, c, &m, cls)) _exit(1); } _exit(0); }
        int st = 0; waitpid(p, &st, 0); if (st == 0) ok.push_back(i); }
      ops = ok; if (ops.empty()) { printf("{\"calls\":0,\"phases\":0,\"threads\":0,\"races\":0,\"race_ops\":[],\"wrong\":0,\"msg\":\"\",\"case\":\"\"}\n"); return 0; } }
    for (int i : ops) g_phases.push_back(std::vector<int>(1, i));
    Rng r(mix(g_seed, 99)); int mixed = (int)num("mixed", 200);
    for (int k = 0; k < mixed; k++) { std::vector<int> v; for (int q = 0; q < 6; q++) v.push_back(ops[r.below(ops.size())]); g_phases.push_back(v); }
    pthread_barrier_init(&g_bar, 0, g_nthr); std::vector<pthread_t> th(g_nthr);
    for (long t = 0; t < g_nthr; t++) pthread_create(&th[t], 0, thread_main, (void *)t);
    for (auto &t : th) pthread_join(t, 0);
    if (g_tfail) { pid_t p = fork(); if (p == 0) { std::string m; unsigned cls; _exit(check_model(W, g_tcase, &m, cls) ? 0 : 1); } int st = 0; waitpid(p, &st, 0); if (st) g_tfail = 0; }   // wrong without threads as well
    printf("{\"calls\":%llu,\"phases\":%zu,\"threads\":%d,\"races\":%d,\"race_ops\":[", (unsigned long long)g_tcalls, g_phases.size(), g_nthr, g_tsan_n);
    int q = 0; for (int o = -1; o < NOPS; o++) if (g_tsan_ops[o + 1]) printf("%s\"%s\"", q++ ? "," : "", o >= 0 ? OPS[o].name : "?");
    printf("],\"wrong\":%d,\"msg\":\"%s\",\"case\":\"%s\"}\n", g_tfail, jesc(*g_tmsg).c_str(), g_tfail ? case_text(g_tcase).c_str() : "");
    return 0;
  }
#ifdef TRACE_BUILD
  if (g_mode == "state") {       // which intrinsics keep anything between calls: they write, or read what is written, outside stack and buffers
    setup_handlers(); u64 done = 0; std::set<int> writers, focus;
    for (int pass = 0; pass < 2; pass++) for (int i : ops) { if (pass && !g_tr_wr.size()) break; Rng r(mix(mix(g_seed, hash_str(OPS[i].name)), 9191)); Case c; Out o;
      for (u64 k = 0; k < cases; k++, done++) { gen_case(r, i, c); g_tr_state = i; u8 here; g_tr_sp = &here; if ((k & 63) == 0) alarm(10); g_tr_on = 1; int sg = exec_guard(W, c, o); g_tr_on = 0; if (sg) break; } }
    alarm(0); for (auto &p : g_tr_wr) for (int i : p.second) writers.insert(i);
    focus = writers; for (auto &p : g_tr_wr) { auto it = g_tr_rd.find(p.first); if (it != g_tr_rd.end()) focus.insert(it->second.begin(), it->second.end()); }
    printf("{\"calls\":%llu,\"writers\":%zu,\"focus\":[", (unsigned long long)done, writers.size()); int q = 0; for (int i : focus) printf("%s\"%s\"", q++ ? "," : "", OPS[i].name); printf("]}\n"); return 0;
  }
#endif
#ifdef HAVE_VG
  if (g_mode == "memcheck") {
    u64 done = 0; unsigned bad = 0; setup_handlers(); Case one; bool haveOne = false;
    if (A.count("one")) { FILE *f = fopen(A["one"].c_str(), "r"); char *line = 0; size_t cap = 0; ssize_t n; if (!f) { perror("one"); return 3; }
      while ((n = getline(&line, &cap, f)) > 0) { if (line[n - 1] == '\n') line[n - 1] = 0; if (sub_parse_case(line, one)) haveOne = true; }
      fclose(f); free(line); ops.clear(); if (haveOne) ops.push_back(one.op); cases = 1; }
    for (int i : ops) {
      Rng r(mix(mix(g_seed, hash_str(OPS[i].name)), 1717)); bool failed = false;
      for (u64 k = 0; k < cases && !failed; k++) {
        Case c; gen_case(r, i, c); if (haveOne) c = one; Out o; VALGRIND_MAKE_MEM_UNDEFINED(&o, sizeof o);
        unsigned e0 = VALGRIND_COUNT_ERRORS;
        done++; alarm(30); const int sg = exec_guard(W, c, o); alarm(0); if (sg) break;
        unsigned e1 = VALGRIND_COUNT_ERRORS; std::string msg;
        // a query, not a report: works whether or not values were copied around
        u8 vb[64]; bool undef = false;
        if (OPS[i].ret.t && VALGRIND_GET_VBITS(o.r, vb, OPS[i].ret.bytes()) == 1) for (int b = 0; b < OPS[i].ret.bytes(); b++) if (vb[b]) undef = true;
        if (OPS[i].ptrArg() >= 0 && VALGRIND_GET_VBITS(o.mem, vb, OPS[i].a[OPS[i].ptrArg()].bytes()) == 1) for (int b = 0; b < OPS[i].a[OPS[i].ptrArg()].bytes(); b++) if (vb[b]) undef = true;
        if (undef) msg = "result contains uninitialised bits"; else if (e1 != e0) msg = "memcheck error (invalid access or decision on uninitialised memory)";
        if (!msg.empty()) { failed = true; bad++; if (A.count("replaycase")) continue; write_candidate(i, -1, k, Hist(1, c), msg, "memcheck"); }
      }
    }
    printf("{\"evals\":%llu,\"ops\":%zu,\"valgrind\":%d,\"candidates\":[", (unsigned long long)done, ops.size(), (int)RUNNING_ON_VALGRIND);
    for (int i = 0; i < std::min((int)SH->nfail, (int)MAXFAIL); i++) printf("%s\"%s\"", i ? "," : "", SH->fails[i].file);
    printf("]}\n"); return 0;
  }
#endif
  if (g_mode == "history") {
    u64 n = cases, ch = std::max<u64>(1, chunk);
    for (u64 k = 0; k * ch < n; k++) JOBS.push_back({J_HISTORY, -1, k, std::min(ch, n - k * ch)});
    for (int i : ops) JOBS.push_back({J_REPEAT, i, 0, num("repeat", 100000)});
  } else if (g_mode == "program") {
    for (u64 k = 0; k * chunk < cases; k++) JOBS.push_back({J_PROGRAM, -1, k, std::min(chunk, cases - k * chunk)});
  } else {
    std::vector<int> subs; if (g_mode == "laws" || g_mode == "kernels") for (size_t i = 0; i < SUB.size(); i++) { if (sel == "all" || SUB[i].name.find(sel) != std::string::npos) subs.push_back((int)i); } else subs = ops;
    u64 maxchunks = (cases + chunk - 1) / chunk;
    for (u64 k = 0; k < maxchunks; k++) for (int i : subs) { u64 n = std::min(chunk, cases - k * chunk); JOBS.push_back({J_RANDOM, i, k, std::max<u64>(1, n / (SUB[i].weight > 0 ? SUB[i].weight : 1))}); }
    if (sweeps) g_gridwide = sweeps >= 2; 
    if (sweeps) g_gridbudget = num("grid", sweeps >= 2 ? 8000000 : 400000);
    if (sweeps) for (int i : ops) {      // grids of interesting values: every operand alone, every pair of operands
      const Op &op = OPS[i]; int ix[3], nd; data_args(op, ix, nd); if (op.ptrArg() >= 0) continue;
      for (int p = 0; p < nd; p++) for (int q = p; q < nd; q++) if (op.a[ix[p]].bits >= 16 && op.a[ix[q]].bits >= 16)
        JOBS.push_back({J_GRID, i, 0, (u64)ix[p] | (u64)ix[q] << 8});
    }
    if (sweeps) for (int i : ops) {
      const Op &op = OPS[i]; int ix[3], nd; data_args(op, ix, nd); if (!(op.fl & (FL_LANEWISE | FL_HIGH0 | FL_HIGH1)) && op.sem != S_PADDL && op.sem != S_TBL) continue;
      int n8 = 0, n16 = 0; for (int k = 0; k < nd; k++) { n8 += op.a[ix[k]].bits == 8; n16 += op.a[ix[k]].bits == 16; }
      if (op.a[ix[0]].k == 'f' || op.ret.k == 'f') {
        if (nd == 1 && op.a[ix[0]].bits == 32 && op.a[ix[0]].t != 's') { u64 per = 1ULL << 24; for (u64 k = 0; k < (sweeps >= 2 || (g_mode != "san" && (op.sem == S_RECPE || op.sem == S_CVT_IF || op.sem == S_CVTN_IF || op.sem == S_CVT_FI)) ? 256 : 0); k++) JOBS.push_back({J_SWEEP32U, i, k, per}); }
        continue;
      }
      if (sweeps >= 2 && g_mode != "san" && nd == 1 && op.a[ix[0]].bits == 32 && op.immArg() < 0 && op.a[ix[0]].t != 's') for (u64 k = 0; k < 256; k++) JOBS.push_back({J_SWEEP32U, i, k, 1ULL << 24});
      if (n8) JOBS.push_back({J_SWEEP8, i, 0, 0});
      else if (n16 && (nd == 1 || n16 == 1)) for (int m = op.immArg() >= 0 ? op.lo : 0; m <= (op.immArg() >= 0 ? op.hi : 0); m++) JOBS.push_back({J_SWEEP16U, i, (u64)m, 0});
      else if (n16 >= 2 && nd == 2) {
        u64 rows = num("rows16", 48);
        if (sweeps >= 2) for (u64 k = 0; k < 256; k++) JOBS.push_back({J_SWEEP16B, i, k, 256});
        else for (u64 k = 0; k * 24 < rows; k++) JOBS.push_back({J_SWEEP16B, i, k, std::min<u64>(24, rows - k * 24)});
      }
    }
  }
  if (SUB.size() >= 8192) { fprintf(stderr, "too many subjects\n"); return 3; }
  if (A.count("skip")) { const std::string sk = "," + A["skip"] + ","; for (size_t i = 0; i < SUB.size(); i++) if (sk.find("," + SUB[i].name + ",") != std::string::npos) SH->failed[i] = 1; }
  run_pool((int)num("workers", 8));
  // samples: actual cases of this run, regenerated from their seeds
  std::string samples; int ns = 0;
  if (g_mode != "history" && g_mode != "program") {
    int want = 6; size_t nj = JOBS.size();
    for (int q = 0; q < want * 4 && ns < want && nj; q++) {
      const Job &j = JOBS[(q * 7919ULL + 13) % nj]; if (j.kind != J_RANDOM) continue;
      Rng r(job_seed(j)); Case c; for (u64 k = 0; k <= std::min<u64>(3, j.count - 1); k++) SUB[j.sub].gen(r, c);
      std::string t = SUB[j.sub].op >= 0 ? case_pretty(c) : sub_case_text(c);
      samples += (ns++ ? "," : "") + std::string("\"") + jesc(t) + "\"";
    }
  } else if (SH->nfail == 0) {
    for (size_t q = 0; q < JOBS.size() && ns < 3; q++) if (JOBS[q].kind != J_REPEAT) {
      std::string t; g_sample = &t; if (JOBS[q].kind == J_HISTORY) job_history(JOBS[q], (int)q); else job_program(JOBS[q], (int)q); g_sample = 0;
      samples += (ns++ ? "," : "") + std::string("\"") + jesc(t) + "\"";
    }
  }
  printf("{\"evals\":%llu,\"nontrivial\":%llu,\"duplicates\":%llu,\"uncounted\":%llu,\"sweep_calls\":%llu,\"sweep_nontrivial\":%llu,\"subjects\":%zu,\"jobs\":%zu,\"wall\":%.2f,\"classes\":{",
    (unsigned long long)SH->evals, (unsigned long long)SH->nontriv, (unsigned long long)SH->dups, (unsigned long long)SH->full, (unsigned long long)SH->sweeps, (unsigned long long)SH->sweepNontriv,
    g_mode == "laws" || g_mode == "kernels" ? SUB.size() : ops.size(), JOBS.size(), now() - t0);
  for (int b = 0; b < C_NBITS; b++) printf("%s\"%s\":%llu", b ? "," : "", CLS_NAMES[b], (unsigned long long)SH->cls[b]);
  printf("},\"extra\":["); for (int b = 0; b < 16; b++) printf("%s%llu", b ? "," : "", (unsigned long long)SH->extra[b]);
  printf("],\"samples\":[%s],\"candidates\":[", samples.c_str());
  for (int i = 0; i < std::min((int)SH->nfail, (int)MAXFAIL); i++) printf("%s\"%s\"", i ? "," : "", SH->fails[i].file);
  printf("]}\n");
  return 0;
}

// Coverage-guided stage: libFuzzer drives the same cases against the same oracle.
// Input layout: 2 bytes operation selector, 4 bytes immediate, 2 bytes placement, operand bytes.
#include "gen.h"
extern "C" const wfn neon_wrappers[];
static std::vector<int> g_ops; static std::string g_out; static u64 g_nt = 0, g_n = 0; static const char *g_seed_s = "1";
static void on_exit_stats() {
  const char *s = getenv("FUZZ_STATS"); if (!s) return; FILE *f = fopen(s, "w"); if (!f) return;
  fprintf(f, "%llu %llu\n", (unsigned long long)g_n, (unsigned long long)g_nt); fclose(f); }
static void init() {
  g_arena.init();
  const char *o = getenv("FUZZ_OPS"); std::string s = o ? o : ""; size_t i = 0;
  while (i < s.size()) { size_t j = s.find(',', i); if (j == std::string::npos) j = s.size(); int k = op_index(s.substr(i, j - i)); if (k >= 0 && neon_wrappers[k]) g_ops.push_back(k); i = j + 1; }
  if (g_ops.empty()) for (int k = 0; k < NOPS; k++) if (neon_wrappers[k]) g_ops.push_back(k);
  g_out = getenv("FUZZ_OUT") ? getenv("FUZZ_OUT") : "/dev/null";
  atexit(on_exit_stats);
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
  static bool once = (init(), true); (void)once;
  if (n < 9) return 0;
  Case c; memset(&c, 0, sizeof c);
  c.op = g_ops[(d[0] | d[1] << 8) % g_ops.size()];
  const Op &op = OPS[c.op];
  if (op.immArg() >= 0) { uint32_t v; memcpy(&v, d + 2, 4); c.imm = op.lo + (int)(v % (uint32_t)(op.hi - op.lo + 1)); }
  c.place = d[6] % 3; c.off = d[7] * 8; unsigned style = d[8]; size_t p = 9;
  for (int a = 0; a < op.na; a++) { if (op.a[a].t == 'i') continue; int nb = op.a[a].bytes(), eb = op.a[a].eb();
    if (style >> a & 1) { int k = 0; for (; k < eb && p < n; k++) c.a[a][k] = d[p++]; for (int i = eb; i < nb; i++) c.a[a][i] = c.a[a][i - eb]; }   // broadcast
    else for (int k = 0; k < nb && p < n; k++) c.a[a][k] = d[p++]; }
  Out o; Exp e; memset(o.r, 0xA7, 64); std::string msg;
  static bool trace = getenv("FUZZ_TRACE") != 0;
  if (trace) { FILE *f = fopen(g_out.c_str(), "w"); if (f) { fprintf(f, "mode model\nconfig clang-O1 -\nseed 1\nkind crash\nsubject %s\nmsg crash or hang\n%s\n", op.name, case_text(c).c_str()); fclose(f); } }
  bool can = exec_case(neon_wrappers, c, o); model(c, e); g_n++; if (e.cls & C_NONTRIVIAL) g_nt++;
  bool ok = agrees(c, o, e, &msg); if (ok && !can) { ok = false; msg = "memory outside the addressed elements was modified"; }
  if (!ok) {
    FILE *f = fopen(g_out.c_str(), "w");
    if (f) { fprintf(f, "mode model\nconfig clang-O1 -\nseed 1\nkind fuzz\nsubject %s\nmsg %s\n%s\n", op.name, msg.c_str(), case_text(c).c_str()); fclose(f); }
    on_exit_stats(); _exit(77);
  }
  return 0;
}

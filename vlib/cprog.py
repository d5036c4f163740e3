"""Generated C and C++ programs that check type layout and brace initialisation."""
import os, random, subprocess
from . import build as B
LANGS = [("c99-gcc", ["gcc", "-std=gnu99", "-x", "c"]), ("c11-clang", ["clang", "-std=c11", "-x", "c"]), ("cxx11-gcc", ["g++", "-std=gnu++11", "-x", "c++"]), ("cxx17-clang", ["clang++", "-std=c++17", "-x", "c++"])]
BASE = {'u': 'uint', 's': 'int', 'f': 'float'}
def scal(k, b): return "float" if (k, b) == ('f', 32) else "double" if (k, b) == ('f', 64) else f"{BASE[k]}{b}_t"
def used_types():
    seen = {}
    for o in B.OPLIST:
        for t in list(o.args) + [o.ret]:
            if t and t[0] == 'v': seen[B.spec.ctype(t)] = t
    for t in B.all_vector_types(): seen[B.spec.ctype(t)] = t      # every vector type the header offers
    for t in list(seen.values()):       # single vectors of every array type
        s = (t[0], t[1], t[2], t[3], 1); seen[B.spec.ctype(s)] = s
    return seen
def lit(r, k, b):
    if k == 'f': return repr(r.choice([0.5, -1.25, 3.0, 1024.0, -0.0078125, float(r.randrange(-4096, 4096)) / 8])) + ("f" if b == 32 else "")
    v = r.choice([0, 1, (1 << b) - 1, 1 << (b - 1), r.getrandbits(b), r.getrandbits(b), r.getrandbits(b)])
    if k == 's':
        v = v - (1 << b) if v >> (b - 1) else v
        return f"({v + 1}{'LL' if b == 64 else ''}-1)" if v < 0 else f"{v}{'LL' if b == 64 else ''}"
    return f"{v}{'ULL' if b == 64 else 'u'}"
def program(seed, kind):
    r = random.Random(seed); L = ["#include <stdio.h>", "#include <string.h>", "#include <stdint.h>", "#include <stddef.h>"]
    cxx = kind.startswith("cxx")
    if cxx: L.append("#include <type_traits>")
    L += ['#include "neon_sim.h"', "static int bad = 0, n = 0;", "#define CK(c, m) do { n++; if (!(c)) { bad++; printf(\"BAD %s\\n\", m); } } while (0)", "#ifdef __cplusplus", 'extern "C"', "#endif", "int other_unit(int);", "int main(void) {"]
    ts = used_types(); names = sorted(ts); r.shuffle(names)
    for i, nm in enumerate(names):
        _, k, b, ln, nv = ts[nm]; s = scal(k, b)
        L.append(f'  CK(sizeof({nm}) == {b // 8 * ln * nv}, "sizeof({nm})");')
        vals = [[lit(r, k, b) for _ in range(ln)] for _ in range(nv)]
        if nv == 1: init = "{" + ", ".join(vals[0]) + "}"
        elif r.random() < 0.5: init = "{{" + ", ".join("{" + ", ".join(v) + "}" for v in vals) + "}}"
        else: init = "{" + ", ".join(x for v in vals for x in v) + "}"
        flat = ", ".join(x for v in vals for x in v)
        L.append(f"  {{ {nm} v = {init}; const {s} w[] = {{{flat}}}; {s} g[{ln * nv}]; memcpy(g, &v, sizeof g); CK(memcmp(g, w, sizeof g) == 0, \"brace initialisation of {nm} does not put element i in lane i\");")
        if nv > 1: L.append(f'    {nm} u; u = v; CK((const char *)&u.val[1] - (const char *)&u.val[0] == {b // 8 * ln}, "val[] of {nm} not contiguous"); {nm[:nm.rfind("x")]}_t e = u.val[{nv - 1}]; memcpy(g, &e, {b // 8 * ln}); CK(memcmp(g, w + {ln * (nv - 1)}, {b // 8 * ln}) == 0, "val[{nv - 1}] of {nm}"); }}')
        else: L.append(f'    {nm} u; u = v; CK(memcmp(&u, &v, sizeof v) == 0, "assignment of {nm}"); }}')
    for _ in range(300):
        x, y = r.sample(names, 2)
        if cxx: L.append(f'  CK((!std::is_same<{x}, {y}>::value), "{x} and {y} are the same type");')
        elif kind.startswith("c11"): L.append(f'  CK(!__builtin_types_compatible_p({x}, {y}), "{x} and {y} are compatible types");')
    L += ['  CK(other_unit(3) == 3 * 3 + 1, "a second translation unit that includes the header");', '  printf("N %d\\n", n); return bad ? 1 : 0;', "}", ""]
    return "\n".join(L)
OTHER = """#include "neon_sim.h"
#ifdef __cplusplus
extern "C"
#endif
int other_unit(int k)
{
    int32x4_t a = {%s}, b = {1, 1, 1, 1}, c;
    int32_t m[4];
    c = vaddq_s32(vmulq_n_s32(a, k), b);
    vst1q_s32(m, c);
    return m[%d] + (int)vgetq_lane_u8(vdupq_n_u8(0), 5);
}
"""
def run(d, seed, kind, cmd, repo):
    text = program(seed, kind); src = os.path.join(d, "p." + ("cpp" if kind.startswith("cxx") else "c")); exe = os.path.join(d, "p")
    open(src, "w").write(text)
    lane = seed % 4; src2 = os.path.join(d, "q" + os.path.splitext(src)[1])
    open(src2, "w").write(OTHER % (", ".join("3" if i == lane else "-7" for i in range(4)), lane))
    r = B.sh(cmd + ["-O1", "-w"] + defs_for(seed, kind) + ["-I", repo, src, src2, "-x", "none"] + B.build_plugin(B.GCC_O2).objs[1:] + ["-o", exe, "-lstdc++", "-lm", "-lpthread"])
    if r.returncode: return ["header unusable: " + r.stdout[-800:]], 0, text
    try: q = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    except subprocess.TimeoutExpired: return [], 0, text
    fails = [l[4:] for l in q.stdout.split("\n") if l.startswith("BAD ")]
    if q.returncode and not fails: fails = [f"layout program died with status {q.returncode}"]
    n = [int(l[2:]) for l in q.stdout.split("\n") if l.startswith("N ")]
    return fails, (n or [0])[0], text
def sample(seed):
    t = program(seed, "cxx11-gcc").split("\n"); return "[layout program] " + " ".join(x.strip() for x in t[10:13])

# ---- calls as users write them: argument expressions, const operands, temporaries --------------
CALLS_HEAD = """#include <stdio.h>
#include <string.h>
%s
#include "neon_sim.h"
%s
#include "neon_sim.h"
static int bad, n, total; static unsigned long long seed = %dULL;
static void put(const char *f, const char *m) { bad++; printf("BAD %%s %%s\\n", f, m); }
static void fill(void *p, size_t k) { unsigned char *b = (unsigned char *)p; while (k--) { seed = seed * 6364136223846793005ULL + 1442695040888963407ULL; *b++ = (unsigned char)(seed >> 56); } }
static int same32(const void *p, const void *q, int k) { const char *a = (const char *)p, *b = (const char *)q; for (; k > 0; k -= 4, a += 4, b += 4) { unsigned x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); if (x != y && ((x & 0x7fffffffu) <= 0x7f800000u || (y & 0x7fffffffu) <= 0x7f800000u)) return 0; } return 1; }
static int same64(const void *p, const void *q, int k) { const char *a = (const char *)p, *b = (const char *)q; for (; k > 0; k -= 8, a += 8, b += 8) { unsigned long long x, y; memcpy(&x, a, 8); memcpy(&y, b, 8); if (x != y && ((x << 1) <= 0xffe0000000000000ULL || (y << 1) <= 0xffe0000000000000ULL)) return 0; } return 1; }
static int same(const void *p, const void *q, int k) { return memcmp(p, q, k) == 0; }
"""
HDRS = ["<stdlib.h>", "<math.h>", "<stdint.h>", "<limits.h>", "<float.h>", "<assert.h>", "<immintrin.h>", "<pthread.h>", "<ctype.h>", "<errno.h>", "<time.h>", "<setjmp.h>", "<signal.h>", "<inttypes.h>", "<stdbool.h>", "<wchar.h>"]
CXXHDRS = ["<vector>", "<algorithm>", "<complex>", "<valarray>", "<string>", "<functional>", "<limits>", "<cmath>", "<cstring>", "<map>", "<thread>", "<iostream>"]
DEFS = ["-DNDEBUG", "-DDEBUG=1", "-D_DEBUG", "-D_GNU_SOURCE", "-funsigned-char", "-fshort-enums", "-O0", "-O2", "-fno-strict-aliasing", "-DUSE_NEON=1", "-Wall", "-fPIC", "-g"]
NAMES = "min max clamp swap_ lerp blend lane lanes saturate sat shift width value tmp data src dst idx vec reg val elem mask lo hi acc delta scale table rows cols pixel in out a b c d i j k n1 r x y z p q s t u v w".split()
def calls_program(seed, kind, drop):
    r = random.Random(seed); cxx = kind.startswith("cxx"); hs = HDRS + (CXXHDRS if cxx else [])
    inc = lambda k: "\n".join("#include " + h for h in r.sample(hs, k))
    L = [CALLS_HEAD % (inc(r.randrange(6)), inc(r.randrange(6)), r.getrandbits(60))]; names = []
    for w in NAMES:      # ordinary names stay the user's own
        L.append(f"namespace user {{ static inline int {w}(int a1, int b1) {{ return a1 - b1; }} struct s_{w} {{ int {w}; }}; }}" if cxx else f"static inline int {w}(int a1, int b1) {{ return a1 - b1; }} struct s_{w} {{ int {w}; }};")
    for o in B.OPLIST:
        if o.name in drop: continue
        names.append(o.name); decl, plain, counted, consts, cnt, st, ptr = [], [], [], [], 0, o.ret is None, None
        for i, t in enumerate(o.args):
            c = B.spec.ctype(t)
            if t[0] == 'i': v = str(r.randint(o.lo, o.hi)); plain.append(v); counted.append(v); consts.append(v); continue
            cnt += 1
            if t[0] == 'p':
                e = scal(t[1], t[2]); ptr = (e, t[3]); decl.append(f"{e} m[{t[3]}], m2[{t[3]}], m3[{t[3]}]; fill(m, sizeof m); memcpy(m2, m, sizeof m); memcpy(m3, m, sizeof m);")
                plain.append("m"); counted.append("(n++, m2)"); consts.append("m3")
            else:
                decl.append(f"{c} x{i}; fill(&x{i}, sizeof x{i}); const {c} y{i} = x{i};")
                plain.append(f"x{i}"); counted.append(f"(n++, x{i})"); consts.append(f"y{i}")
        call = lambda a: f"{o.name}({', '.join(a)})"
        if st: body = f"n = 0; {call(plain)}; {call(counted)}; int k = n; {call(consts)}; int eq = same(m, m2, sizeof m) && same(m, m3, sizeof m);"
        else:
            c = B.spec.ctype(o.ret); f = f"same{o.ret[2]}" if o.ret[1] == 'f' and 'fp' in o.flags else "same"
            body = f"n = 0; {c} r1 = {call(plain)}, r2 = {call(counted)}; int k = n; const {c} r3 = {call(consts)}; int eq = {f}(&r1, &r2, sizeof r1) && {f}(&r1, (const void *)&r3, sizeof r1);"
        L.append(f"__attribute__((noinline)) static void t_{o.name}(void) {{ {' '.join(decl)} {body} total += 2; if (k != {cnt}) put(\"{o.name}\", \"does not evaluate each argument exactly once\"); if (!eq) put(\"{o.name}\", \"gives different results for equal argument expressions\"); }}")
    L += ["int main(void) {"] + [f"  t_{x}();" for x in names] + ['  printf("N %d\\n", total); return bad ? 1 : 0;', "}", ""]
    return "\n".join(L), defs_for(seed, kind)
def defs_for(seed, kind):
    """Flags of the caller's unit; consecutive seeds and languages go round the whole list."""
    k = (seed * len(LANGS) + [x for x, _ in LANGS].index(kind)) * 2
    return [DEFS[k % len(DEFS)], DEFS[(k + 1 + k // len(DEFS)) % len(DEFS)]]
def run_calls(d, seed, kind, cmd, repo, drop=()):
    """Failures as (intrinsic or header, message), number of assertions."""
    text, defs = calls_program(seed, kind, drop); src = os.path.join(d, "c." + ("cpp" if kind.startswith("cxx") else "c")); exe = os.path.join(d, "c")
    open(src, "w").write(text)
    r = B.sh(cmd + ["-O1", "-w"] + defs + ["-I", repo, src, "-x", "none"] + B.build_plugin(B.GCC_O2).objs[1:] + ["-o", exe, "-lstdc++", "-lm", "-lpthread"])
    if r.returncode: return [("header", f"calls with argument expressions do not compile ({' '.join(defs)}): " + r.stdout[-800:])], 0
    try: q = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
    except subprocess.TimeoutExpired: return [], 0      # a call that hangs is another property's business
    n = [int(l[2:]) for l in q.stdout.split("\n") if l.startswith("N ")]
    return [tuple(l[4:].split(" ", 1)) for l in q.stdout.split("\n") if l.startswith("BAD ")], (n or [0])[0]

"""Builds the library under test from /repo's working tree in many configurations, together with
generated call wrappers, outside /repo."""
import threading
import hashlib, itertools, json, os, random, re, shlex, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NEON_SIM_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "spec"))
import spec
OPS = spec.OPS
OPLIST = list(OPS.values())
SRC = os.path.join(HERE, "src")

class BuildError(Exception):
    def __init__(self, msg, log=""):
        super().__init__(msg); self.log = log

def sh(cmd, cwd=None, timeout=600, env=None):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", timeout=timeout, env=env)

def tree_hash(bases):
    h = hashlib.sha256()
    for base, exts in bases:
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in (".git", "_build", "tests", "__pycache__"))
            for f in sorted(fs):
                if exts and not f.endswith(exts): continue
                p = os.path.join(d, f)
                if not os.path.isfile(p): continue
                h.update(os.path.relpath(p, base).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

BROOT = os.environ.get("NEON_VERIF_BUILD", os.path.join(HERE, "build"))
OWN = ((SRC, None), (os.path.join(HERE, "spec"), (".py",)), (os.path.join(HERE, "vlib"), (".py",)))
_dirs = {}
def _dir(kind, bases):
    if kind not in _dirs:
        os.makedirs(BROOT, exist_ok=True)
        w = os.path.join(BROOT, kind + "-" + tree_hash(bases))
        os.makedirs(w, exist_ok=True); os.utime(w)
        old = sorted((os.path.join(BROOT, d) for d in os.listdir(BROOT) if d.startswith(kind)), key=os.path.getmtime)
        for d in old[:-5]:
            if d != w and time.time() - os.path.getmtime(d) > 7200: shutil.rmtree(d, ignore_errors=True)
        _dirs[kind] = w
    return _dirs[kind]
def work():
    """Build directory of the current source tree (content addressed; older ones are dropped)."""
    return _dir("tree", ((REPO, None),) + OWN)
def ework():
    """Build directory of what depends only on this framework, not on the tree under test."""
    return _dir("own", OWN)

def uniq(): return f"{os.getpid()}-{threading.get_ident() & 0xffffff:x}-{time.time_ns() & 0xffffffffff:x}"
def atomic_write(path, text):
    if os.path.exists(path) and open(path).read() == text: return
    tmp = f"{path}.{uniq()}.tmp"
    open(tmp, "w").write(text); os.replace(tmp, path)

# ---- generated code -----------------------------------------------------------------------
def ty_c(t):
    if t is None: return "{0,0,0,0,0,false}"
    if t[0] == 'v': return f"{{'v','{t[1]}',{t[2]},{t[3]},{t[4]},false}}"
    if t[0] == 's': return f"{{'s','{t[1]}',{t[2]},1,1,false}}"
    if t[0] == 'p': return f"{{'p','{t[1]}',{t[2]},{t[3]},1,{'true' if t[4] else 'false'}}}"
    return "{'i','s',32,1,1,false}"
def gen_ops_inc():
    fl = {'lanewise': 1, 'high0': 2, 'high1': 4, 'fp': 8}
    rows = []
    for o in OPLIST:
        a = ",".join(ty_c(t) for t in o.args)
        rows.append(f'  {{"{o.name}","{o.prop}",S_{o.sem},{ty_c(o.ret)},{len(o.args)},{{{a}}},{o.lo},{o.hi},{o.rlo},{o.rhi},{sum(fl[f] for f in o.flags)}}},')
    return "static const Op OPS[] = {\n" + "\n".join(rows) + "\n};\nenum { NOPS = sizeof(OPS) / sizeof(OPS[0]) };\n"

WRAP_HEAD = """#include <string.h>
#include "neon_sim.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef void (*wfn)(void *const *a, void *r, int imm);
"""
def wrapper(o):
    decl, call = [], []
    for i, t in enumerate(o.args):
        if t[0] == 'p': call.append(f"({spec.ctype(t)})a[{i}]")
        elif t[0] == 'i': call.append("imm")
        else:
            decl.append(f"{spec.ctype(t)} p{i}; memcpy(&p{i}, a[{i}], sizeof p{i});"); call.append(f"p{i}")
    c = f"{o.name}({', '.join(call)})"
    if o.ret is None: body = f"{c};"
    else: body = f"{spec.ctype(o.ret)} x = {c}; memcpy(r, &x, sizeof x);"
    return f"static void w_{o.name}(void *const *a, void *r, int imm) {{ (void)a; (void)r; (void)imm; {' '.join(decl)} {body} }}"
def gen_wrap(drop):
    lines = WRAP_HEAD.split("\n")[:-1]; where = {}
    for o in OPLIST:
        if o.name in drop: continue
        lines.append(wrapper(o)); where[len(lines)] = o.name
    lines.append("extern const wfn neon_wrappers[];")
    lines.append("const wfn neon_wrappers[] = {")
    for o in OPLIST: lines.append("  0," if o.name in drop else f"  w_{o.name},")
    lines += ["};", "#ifdef __cplusplus", "}", "#endif", ""]
    return "\n".join(lines), where
def argtypes(o): return ", ".join(spec.ctype(t) for t in o.args)
def gen_protos(drop):
    """Typed function pointers: the declared prototype must be the ACLE one exactly."""
    lines = WRAP_HEAD.split("\n")[:-1]; where = {}
    for o in OPLIST:
        if o.name in drop: continue
        lines.append(f"{spec.ctype(o.ret)} (*fp_{o.name})({argtypes(o)}) = {o.name};"); where[len(lines)] = o.name
    lines += ["#ifdef __cplusplus", "}", "#endif", ""]
    return "\n".join(lines), where

def all_vector_types():
    r = []
    for n in (1, 2, 3, 4):
        for q in (0, 1):
            for s in ("s8", "s16", "s32", "s64", "u8", "u16", "u32", "u64", "f32", "f64"):
                r.append(spec.N(spec.V(s, q), n))
    return r

# ---- literals of the sources, as generator hints ------------------------------------------
NUM = re.compile(r"(?<![\w.])(0[xX][0-9a-fA-F]+(?![pP.\w])|0[xX][0-9a-fA-F.]+[pP][+-]?\d+|\d+\.\d*(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+|\d+)(?:[uUlLfF]*)")
CHR = re.compile(r"'(\\?.)'")
def mine_literals():
    import struct
    bodies = {}; order = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in (".git", "_build", "tests"))
        for f in sorted(fs):
            if not f.endswith((".cpp", ".c", ".cc", ".cxx", ".h", ".hpp", ".inc", ".inl")): continue
            cur = "*"
            text = re.sub(r"/\*.*?\*/", " ", open(os.path.join(d, f), errors="replace").read(), flags=re.S)
            for line in text.split("\n"):
                line = re.sub(r"//.*", "", line)
                if line and not line[0].isspace() and line[0] not in "#}{/":
                    m = re.search(r"(\w+)\s*\(", line)
                    if m and not line.rstrip().endswith(";"): cur = m.group(1)
                if line.startswith("#"): bodies.setdefault("*", []).append(line)
                else: bodies.setdefault(cur, []).append(line)
                if line.startswith("}"): cur = "*"
    def lits(lines):
        out = set()
        for l in lines:
            for m in NUM.finditer(l):
                t = m.group(1)
                try:
                    if t[:2].lower() == "0x" and 'p' not in t.lower(): v = int(t, 16)
                    elif 'p' in t.lower() and t[:2].lower() == "0x": v = float.fromhex(t)
                    elif '.' in t or 'e' in t.lower(): v = float(t)
                    else: v = int(t, 10)
                except ValueError: continue
                if isinstance(v, float):
                    try: out.add(struct.unpack("<I", struct.pack("<f", v))[0])
                    except OverflowError: pass
                    out.add(struct.unpack("<Q", struct.pack("<d", v))[0])
                    if abs(v) < 1e18: out.add(int(v) & (2**64 - 1))
                else: out.add(v & (2**64 - 1))
            for m in CHR.finditer(l):
                c = m.group(1); out.add(ord(c[-1]))
        return out
    direct = {k: lits(v) for k, v in bodies.items()}
    calls = {k: set(re.findall(r"\b([A-Za-z_]\w*)\b", "\n".join(v))) & set(bodies) - {k} for k, v in bodies.items()}
    allv = set().union(*direct.values()) if direct else set()
    rows = []
    for v in sorted(allv): rows.append(f"* {v}")
    for name in OPS:
        if name not in bodies: continue
        seen = {name}; todo = [name]
        while todo:
            for c in calls.get(todo.pop(), ()):
                if c not in seen: seen.add(c); todo.append(c)
        s = set().union(*(direct[x] for x in seen))
        for v in sorted(s): rows.append(f"{name} {v}")
    return "\n".join(rows) + "\n"

# ---- library sources -----------------------------------------------------------------------
_src = None
def lib_sources():
    """(source, extra flags) of target neon_sim, as the project's own CMakeLists says."""
    global _src
    if _src is not None: return _src
    bd = os.path.join(work(), "cmake"); cc = os.path.join(bd, "compile_commands.json")
    if not os.path.exists(cc):
        tmp = f"{bd}.{uniq()}"
        r = sh(["cmake", "-S", REPO, "-B", tmp, "-G", "Ninja", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON",
                "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++"])
        if r.returncode: raise BuildError("cmake configure failed", r.stdout)
        # generated sources, if the project ever has them
        try: os.rename(tmp, bd)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    out = []
    for e in json.load(open(cc)):
        if "CMakeFiles/neon_sim.dir" not in e.get("command", "") + e.get("output", ""): continue
        toks = shlex.split(e["command"]); keep = []
        i = 0
        while i < len(toks):
            t = toks[i]
            if t in ("-I", "-D", "-isystem", "-include"): keep += [t, toks[i + 1]]; i += 1
            elif t.startswith(("-I", "-D", "-isystem")): keep.append(t)
            i += 1
        out.append((e["file"], keep))
    if not out: raise BuildError("no sources found for target neon_sim")
    _src = out
    return out

class Config:
    def __init__(self, name, family, flags, std="gnu++11", ld=(), wflags=None, cwrap=None):
        self.name, self.family, self.flags, self.std, self.ld = name, family, list(flags), std, list(ld)
        self.wflags = list(flags) if wflags is None else list(wflags)
        self.cwrap = cwrap            # None: wrappers are C++; otherwise the C standard
    @property
    def cxx(self): return "g++" if self.family == "gcc" else "clang++"
    @property
    def cc(self): return "gcc" if self.family == "gcc" else "clang"

def compile_lib(cfg):
    d = os.path.join(work(), "lib-" + cfg.name); os.makedirs(d, exist_ok=True)
    objs = []
    for i, (src, extra) in enumerate(lib_sources()):
        o = os.path.join(d, f"l{i}.o")
        if not os.path.exists(o):
            isc = src.endswith(".c")
            tmp = f"{o}.{uniq()}.o"
            cmd = [cfg.cc if isc else cfg.cxx] + ([] if isc else [f"-std={cfg.std}"]) + cfg.flags + ["-fPIC"] + extra + ["-I", REPO, "-c", src, "-o", tmp]
            r = sh(cmd)
            if r.returncode: raise BuildError(f"library does not compile in configuration {cfg.name}", " ".join(cmd) + "\n" + r.stdout)
            os.replace(tmp, o)
        objs.append(o)
    return objs

class Plugin:
    """Library + wrappers of one configuration. broken maps an intrinsic to why it is unusable."""
    def __init__(self, cfg): self.cfg, self.so, self.objs, self.broken = cfg, None, [], {}

def compile_wrapped(cfg, gen, stem, where_from=None, drop0=()):
    """Compiles generated per-intrinsic lines, dropping the lines the compiler rejects."""
    d = os.path.join(work(), "lib-" + cfg.name); os.makedirs(d, exist_ok=True)
    ext = ".c" if cfg.cwrap else ".cpp"
    src = os.path.join(d, stem + ext); obj = os.path.join(d, stem + ".o")
    drop = dict(drop0)
    for _ in range(6):
        text, where = gen(drop)
        atomic_write(src, text)
        if cfg.cwrap: cmd = [cfg.cc, f"-std={cfg.cwrap}"]
        else: cmd = [cfg.cxx, f"-std={cfg.std}"]
        cmd += cfg.wflags + ["-fPIC", "-w", "-I", REPO]
        if cfg.family == "clang": cmd += ["-ferror-limit=0"]
        else: cmd += ["-fmax-errors=0"]
        if cfg.cwrap:
            cmd += ["-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types", "-Werror=int-conversion"]
        tmp = f"{obj}.{uniq()}.o"
        r = sh(cmd + ["-c", src, "-o", tmp])
        if r.returncode == 0:
            os.replace(tmp, obj); return obj, drop
        bad = {}
        for m in re.finditer(re.escape(os.path.basename(src)) + r":(\d+):\d*:? (?:fatal )?error: (.*)", r.stdout):
            n = where.get(int(m.group(1)))
            if n and n not in bad: bad[n] = "does not compile as the ACLE prototype says: " + m.group(2)
        if not bad: raise BuildError(f"wrappers do not compile in configuration {cfg.name}", r.stdout)
        drop.update(bad)
    raise BuildError(f"wrappers do not compile in configuration {cfg.name}")

def build_plugin(cfg, link=True):
    p = Plugin(cfg)
    d = os.path.join(work(), "lib-" + cfg.name); os.makedirs(d, exist_ok=True)
    so = os.path.join(d, "plugin.so"); meta = os.path.join(d, "plugin.json")
    if os.path.exists(meta):
        m = json.load(open(meta)); p.so, p.objs, p.broken = m["so"], m["objs"], m["broken"]
        if all(os.path.exists(x) for x in p.objs) and (not link or os.path.exists(p.so)): return p
    objs = compile_lib(cfg)
    wobj, broken = compile_wrapped(cfg, gen_wrap, "wrap")
    for _ in range(4):
        r = sh([cfg.cxx] + cfg.flags + ["-shared", "-Wl,-z,defs", "-Wl,-Bsymbolic", "-o", so + ".tmp", wobj] + objs + cfg.ld)
        if r.returncode == 0: break
        und = set(re.findall(r"undefined reference to [`'\"]?(v\w+)", r.stdout)) & set(OPS)
        if not und: raise BuildError(f"link failed in configuration {cfg.name}", r.stdout)
        wobj, broken = compile_wrapped(cfg, gen_wrap, "wrap", drop0={**broken, **{n: "declared but does not link (no definition with this name and C linkage)" for n in und}})
    else: raise BuildError(f"link failed in configuration {cfg.name}", r.stdout)
    os.replace(so + ".tmp", so)
    p.so, p.objs, p.broken = so, [wobj] + objs, broken
    atomic_write(meta, json.dumps({"so": so, "objs": p.objs, "broken": broken}))
    return p

def build_kernels(cfg):
    """The user kernels, compiled against the public header and linked with the library."""
    p = build_plugin(cfg)
    d = os.path.join(work(), "lib-" + cfg.name); so = os.path.join(d, "kernels.so")
    if os.path.exists(so): return so
    tmp = f"{so}.{uniq()}"
    cmd = [cfg.cxx, f"-std={cfg.std}"] + cfg.flags + ["-fPIC", "-w", "-I", REPO, os.path.join(SRC, "kernels_user.cpp"), "-shared", "-Wl,-z,defs", "-Wl,-Bsymbolic", "-o", tmp] + p.objs + cfg.ld
    r = sh(cmd)
    if r.returncode: raise BuildError(f"user kernels do not build in configuration {cfg.name}", " ".join(cmd) + "\n" + r.stdout)
    os.replace(tmp, so)
    return so

def gen_dir():
    g = os.path.join(ework(), "gen"); os.makedirs(g, exist_ok=True)
    atomic_write(os.path.join(g, "ops.inc"), gen_ops_inc())
    return g
def mined():
    m = os.path.join(work(), "mined.txt")
    if not os.path.exists(m): atomic_write(m, mine_literals())
    return m
def build_exe(d, name, srcs, compiler, flags, objs=(), ld=()):
    g = gen_dir()
    exe = os.path.join(d, name)
    if os.path.exists(exe): return exe
    tmp = f"{exe}.{uniq()}"
    cmd = [compiler, "-std=gnu++17"] + list(flags) + ["-I", g, "-I", SRC] + [os.path.join(SRC, s) for s in srcs] + list(objs) + ["-o", tmp, "-ldl", "-lpthread"] + list(ld)
    r = sh(cmd)
    if r.returncode: raise BuildError(f"building {name} failed", " ".join(cmd) + "\n" + r.stdout)
    os.replace(tmp, exe)
    return exe
ENGFLAGS = ["-ffp-contract=off", "-fno-strict-aliasing", "-w"]
def engine(): return build_exe(ework(), "engine", ["engine.cpp"], "g++", ["-O2"] + ENGFLAGS)
def engine_laws(): return build_exe(ework(), "engine-laws", ["engine.cpp"], "g++", ["-O1", "-DWITH_LAWS"] + ENGFLAGS)

def par(fns):
    with ThreadPoolExecutor(8) as ex: return [f.result() for f in [ex.submit(fn) for fn in fns]]

UB = ["-fsanitize=undefined,float-cast-overflow", "-fno-sanitize=vptr,function", "-fsanitize-trap=all"]
class Configs(dict):
    def __missing__(self, name):        # mix-gcc-O1-NDEBUG-gnu++14-uchar-zero and the like
        p = name.split("-")
        if len(p) != 7 or p[0] != "mix": raise KeyError(name)
        fl = ["-" + p[2]] + (["-DNDEBUG"] if p[3] == "NDEBUG" else []) + (["-funsigned-char"] if p[5] == "uchar" else []) + ([f"-ftrivial-auto-var-init={p[6]}"] if p[6] != "undef" else [])
        self[name] = c = Config(name, p[1], fl, std=p[4])
        return c
FACTORS = [["gcc", "clang"], ["O0", "O1", "O2", "O3", "Os"], ["debug", "NDEBUG"], ["c++11", "gnu++11", "c++14", "gnu++14", "c++17", "gnu++17", "c++20", "gnu++20", "c++23", "gnu++23"], ["schar", "uchar"], ["undef", "zero", "pattern"]]
def mix_name(row): return "mix-" + "-".join(row)
def random_mixes(seed, n):
    rnd = random.Random(seed); out = set()
    while len(out) < n: out.add(mix_name([rnd.choice(f) for f in FACTORS]))
    return sorted(out)
def covering_mixes(seed):
    """Configurations that, with every compiler at every level (plain), contain every pair of settings and every
    triple not involving the standard (of which six of ten are used)."""
    F = FACTORS[:3] + [["c++11", "gnu++11", "gnu++14", "c++17", "gnu++20", "c++23"]] + FACTORS[4:]
    comb = [i for k in (2, 3) for i in itertools.combinations(range(6), k) if not (k == 3 and 3 in i)]
    tup = lambda row: {(i, tuple(row[j] for j in i)) for i in comb}
    todo = {(i, v) for i in comb for v in itertools.product(*[F[j] for j in i])}
    for c, o in itertools.product(F[0], F[1]): todo -= tup((c, o, "debug", "gnu++11", "schar", "undef"))
    rnd = random.Random(seed); rows = []
    while todo:
        best = max((tuple(rnd.choice(f) for f in F) for _ in range(300)), key=lambda r: len(tup(r) & todo))
        if not tup(best) & todo:            # aim at one that is left
            i, v = min(todo); best = list(rnd.choice(f) for f in F)
            for j, x in zip(i, v): best[j] = x
            best = tuple(best)
        rows.append(best); todo -= tup(best)
    return [mix_name(r) for r in rows]
CONFIGS = Configs({c.name: c for c in [
    Config("gcc-O2", "gcc", ["-O2", "-g"]),
    Config("gcc-O0", "gcc", ["-O0", "-g"]),
    Config("gcc-O1", "gcc", ["-O1"]),
    Config("gcc-O3", "gcc", ["-O3", "-funroll-loops"]),
    Config("gcc-Os", "gcc", ["-Os"]),
    Config("gcc-O2-NDEBUG", "gcc", ["-O2", "-DNDEBUG"]),
    Config("gcc-O3-native-sse4", "gcc", ["-O3", "-msse4.2", "-ffp-contract=off"]),
    Config("gcc-O2-uchar", "gcc", ["-O2", "-funsigned-char"]),
    Config("gcc-O2-cxx17", "gcc", ["-O2"], std="gnu++17"),
    Config("gcc-O2-strict", "gcc", ["-O2", "-ftrivial-auto-var-init=zero"], std="c++11"),
    Config("gcc-O2-pattern", "gcc", ["-O2", "-ftrivial-auto-var-init=pattern"]),
    Config("clang-O0", "clang", ["-O0"]),
    Config("clang-O1", "clang", ["-O1"]),
    Config("clang-O2", "clang", ["-O2"]),
    Config("clang-O3", "clang", ["-O3"]),
    Config("clang-Os", "clang", ["-Os"]),
    Config("clang-O2-NDEBUG", "clang", ["-O2", "-DNDEBUG"]),
    Config("clang-O2-uchar-cxx20", "clang", ["-O2", "-funsigned-char"], std="gnu++20"),
    Config("clang-O0-pattern", "clang", ["-O0", "-ftrivial-auto-var-init=pattern"]),
    Config("clang-O2-pattern", "clang", ["-O2", "-ftrivial-auto-var-init=pattern"], std="c++14"),
    Config("gcc-O1-cxx14", "gcc", ["-O1"], std="c++14"),
    Config("gcc-O3-cxx23", "gcc", ["-O3"], std="gnu++23"),
    Config("clang-O1-cxx17", "clang", ["-O1"], std="c++17"),
    Config("clang-O2-zero", "clang", ["-O2", "-ftrivial-auto-var-init=zero"]),
    Config("ubsan", "clang", ["-O1", "-g"] + UB, wflags=["-O1"]),
    Config("asan", "clang", ["-O1", "-g", "-fsanitize=address", "-fsanitize-recover=address", "-fno-omit-frame-pointer"]),
    Config("msan", "clang", ["-O0", "-g", "-fsanitize=memory", "-fsanitize-recover=memory"]),
    Config("trace", "clang", ["-O1", "-g", "-fsanitize=kernel-address"] + [x for o in ("asan-instrumentation-with-call-threshold=0", "asan-stack=0", "asan-globals=0", "asan-opt=0", "asan-kernel-mem-intrinsic-prefix=1") for x in ("-mllvm", "-" + o)], wflags=["-O1"]),
    Config("tsan", "gcc", ["-O1", "-g", "-fsanitize=thread"]),
    Config("fuzz", "clang", ["-O1", "-fsanitize=fuzzer-no-link", "-fno-builtin"]),
    Config("c99-gcc", "gcc", ["-O2"], cwrap="gnu99"),
    Config("c11-clang", "clang", ["-O2"], cwrap="c11"),
    Config("cxx11-clang", "clang", ["-O2"], std="c++11"),
]})
GCC_O2 = CONFIGS["gcc-O2"]

def build_static(cfg, exename, src, compiler, flags, broken, ld=()):
    """Executable with the library and wrappers linked in (sanitizer runtimes, libFuzzer)."""
    d = os.path.join(work(), "lib-" + cfg.name)
    exe = os.path.join(work(), exename)
    if os.path.exists(exe): return exe
    objs = compile_lib(cfg)
    wobj, _ = compile_wrapped(cfg, gen_wrap, "wrap", drop0=broken)
    return build_exe(work(), exename, [src], compiler, ["-DSTATIC_PLUGIN"] + list(flags), [wobj] + objs, ld)

#!/usr/bin/env python3
"""run.py <property> quick|thorough   decide one property on /repo's current working tree
   run.py replay <file>               re-run a recorded failure
   run.py setup                       build what does not depend on the tree under test"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import build as B
from vlib import cprog
spec = B.spec
RULES = {
 "model": "Cases are operand vectors drawn from a structured generator (boundary, special-float, power-of-two, related-operand, constant, one-hot, uniform lanes; immediates over the legal range; buffers mid-page and against guard pages) plus exhaustive lane sweeps where stated. A case is non-trivial when the model classifies it as exercising the operation's interesting behaviour (wraps, saturates, discards bits, ties, NaN/inf/subnormal/-0, index out of table, mixed mask bits, distinct source lanes, upper-half values, immediate at a bound). distinct_nontrivial counts non-trivial random cases with a distinct hash of all operands.",
}

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed, self.t0 = pid, tier, seed, time.time()
        self.thorough = tier == "thorough"
        self.violations, self.known, self.unconfirmed, self.notes = [], [], [], []
        self.evals = self.nontrivial = 0
        self.samples, self.cov, self.assumptions = [], {}, []
        self.scratch = os.path.join(B.BROOT, f"run-{pid}-{B.uniq()}")
        os.makedirs(self.scratch, exist_ok=True)
        self.nsub = 0
        self.seen = set(); self.hung = set(); self.nhung = 0
    def sub(self):
        self.nsub += 1
        d = os.path.join(self.scratch, str(self.nsub)); os.makedirs(d, exist_ok=True); return d
    def note(self, s): self.notes.append(s); print("note:", s, flush=True)

KNOWN_FILE = os.path.join(HERE, "known_findings.txt")
def known_findings(pid):
    """known: property=<id> subject=<subject> | <exact case line or build error text>"""
    r = []
    if os.path.exists(KNOWN_FILE):
        for l in open(KNOWN_FILE):
            m = re.match(r"known: property=(\S+) subject=(\S+) \| (.*)$", l.strip())
            if m and m.group(1) == pid: r.append((m.group(2), m.group(3)))
    return r

def report(ctx, subject, msg, body):
    """Records a confirmed violation; body is the text of the replay file."""
    for s, text in known_findings(ctx.pid):
        if s == subject and text in body.split("\n"):
            if (s, text) not in ctx.known:
                ctx.known.append((s, text)); print(f"KNOWN-FINDING: property={ctx.pid} {subject}: {msg}", flush=True)
            return
    d = os.path.join(HERE, "replays"); os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(body.encode()).hexdigest()[:8]
    path = os.path.join(d, f"{ctx.pid}-{re.sub(r'[^A-Za-z0-9_.-]', '_', subject)[:60]}-{h}.txt")
    if not body.startswith("property "): body = f"property {ctx.pid}\n" + body
    open(path, "w").write(body)
    ctx.violations.append((subject, msg, path))
    print(f"{subject}: {msg[:1500]}", flush=True)
    print(f"VIOLATION property={ctx.pid} replay={path}", flush=True)

# ---- engine runs -----------------------------------------------------------------------------
ASAN_ENV = {"ASAN_OPTIONS": "halt_on_error=0:suppress_equal_pcs=0:detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_sigill=0:handle_sigfpe=0:handle_abort=0:detect_stack_use_after_return=0:use_sigaltstack=0:allocator_may_return_null=1"}
def base_args(runner, mode, oracle, cfg, cfg2=None):
    if runner == "asan": exe, plug = asan_exe(), None
    elif runner == "msan": exe, plug = msan_exe(), None
    elif runner == "trace": exe, plug = trace_exe(), None
    else:
        exe = B.engine_laws() if runner == "engine-laws" else B.engine()
        plug = B.build_kernels(B.CONFIGS[cfg]) if mode == "kernels" else B.build_plugin(B.CONFIGS[cfg]).so
    a = [exe, "--mode", mode, "--oracle", oracle, "--cfg", cfg, "--mined", B.mined()]
    if plug: a += ["--plugin", plug]
    if cfg2: a += ["--plugin2", B.build_plugin(B.CONFIGS[cfg2]).so, "--cfg2", cfg2]
    return a
def run_cmd(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=e, cwd=cwd)
class CheckError(Exception): pass

def engine_run(ctx, label, mode, ops="all", cfg="gcc-O2", oracle=None, runner="engine", cfg2=None, count=True, seed=None, **kw):
    """One engine campaign. Its counts are added to the evidence under `label`."""
    oracle = oracle or mode; seed = ctx.seed if seed is None else seed
    out = ctx.sub()
    base = base_args(runner, mode, oracle, cfg, cfg2)
    kw.setdefault("hashbits", 29 if ctx.thorough else 27)
    kw.setdefault("maxfail", 16)
    args = base + ["--ops", ops, "--seed", str(seed), "--outdir", out]
    for k, v in kw.items(): args += ["--" + k, str(v)]
    if ctx.hung: args += ["--skip", ",".join(sorted(ctx.hung))]      # do not wait for the same call in every campaign
    r = run_cmd(args, 5400 if ctx.thorough else 800, ASAN_ENV)
    if r.returncode != 0: raise CheckError(f"engine failed ({r.returncode}): {' '.join(args)}\n{r.stderr[-2000:]}")
    try: j = json.loads(r.stdout)
    except ValueError: raise CheckError("engine output unreadable: " + r.stdout[:500] + r.stderr[-1000:])
    cls = {k: v for k, v in j["classes"].items() if v}
    ctx.cov.setdefault("campaigns", []).append({"label": label, "config": cfg + (" vs " + cfg2 if cfg2 else ""), "random_cases": j["evals"], "distinct_nontrivial": j["nontrivial"], "duplicate_nontrivial": j["duplicates"],
        "not_counted_table_full": j["uncounted"], "exhaustive_sweep_cases": j["sweep_calls"], "sweep_nontrivial": j["sweep_nontrivial"], "subjects": j["subjects"], "classes": cls, "extra": [x for x in j["extra"]], "wall_s": j["wall"]})
    ctx.evals += j["evals"] + j["sweep_calls"]
    if count: ctx.nontrivial += j["nontrivial"]
    ctx.samples += [f"[{label}] {s}" for s in j["samples"][:4]]
    for c in j["candidates"]: confirm(ctx, c, runner, mode, oracle, cfg, cfg2, seed)
    return j

def header(path):
    h = {}
    for l in open(path, errors="replace"):
        k, _, v = l.rstrip("\n").partition(" ")
        if k in ("case", "sub"): break
        h.setdefault(k, v)
    return h
def replay3(base, path, extra, timeout=400, limit=60):
    """Replays in three fresh processes; returns the message if all three fail, else None."""
    msg = None
    for _ in range(3):
        try: r = run_cmd(base + ["--replay", path, "--timeout", str(limit)] + extra, timeout, ASAN_ENV)
        except subprocess.TimeoutExpired: return None
        if r.returncode != 1: return None
        msg = r.stdout.strip().split("\n")[-1]
        msg = msg[5:] if msg.startswith("FAIL ") else msg
    return msg
MAXREPORT = 6
def confirm(ctx, cand, runner, mode, oracle, cfg, cfg2, seed):
    h = header(cand); subject = h.get("subject", "?"); key = (mode, subject, cfg2)
    if key in ctx.seen or len(ctx.violations) >= MAXREPORT: return
    base = base_args(runner, mode, oracle, cfg, cfg2) + ["--seed", str(seed)]
    small = cand + ".min"
    if h.get("kind") == "hang":      # every evaluation costs its time limit: no shrinking
        ctx.hung.add(subject); ctx.nhung += 1
        if ctx.nhung > 2 or oracle in ("imm", "footprint", "trace"): return ctx.note(f"a call of {subject} did not return; left to other checks")
        m = replay3(base, cand, [], limit=15)
        if m is not None: ctx.seen.add(key); return report(ctx, subject, m, f"property {ctx.pid}\nrunner {runner}\noracle {oracle}\nhow case\n" + open(cand, errors="replace").read())
        return ctx.note(f"a hanging call of {subject} is not a violation of this property or did not reproduce")
    budget = 250 if runner == "asan" else 3000
    head = f"property {ctx.pid}\nrunner {runner}\noracle {oracle}\n"
    try: run_cmd(base + ["--shrink", cand, "--out", small, "--budget", str(budget)], 300, ASAN_ENV)
    except subprocess.TimeoutExpired: pass
    for path in (small, cand):
        if os.path.exists(path):
            m = replay3(base, path, [])
            if m is not None and runner == "msan" and not memcheck_one(ctx, path):   # a second, independent opinion
                ctx.note(f"{subject}: MemorySanitizer says '{m}', memcheck does not confirm it"); continue
            if m is not None:
                ctx.seen.add(key)
                return report(ctx, subject, m, head + "how case\n" + open(path, errors="replace").read())
    if "job" in h and runner != "msan":     # state accumulated over the run: replay the whole (deterministic) job
        m = replay3(base, cand, ["--job", "1", "--outdir", ctx.sub()])
        if m is not None:
            ctx.seen.add(key)
            return report(ctx, subject, h.get("msg", "") + " (reproduces by re-running the generated job)", head + "how job\n" + open(cand, errors="replace").read())
    ctx.unconfirmed.append({"subject": subject, "msg": h.get("msg", ""), "kind": h.get("kind", "")})
    ctx.note(f"a failure of {subject} did not reproduce in three fresh processes and is not reported: {h.get('msg', '')[:200]}")

def names(pid): return [o.name for o in B.OPLIST if o.prop == pid]
def plugin(cfg): return B.build_plugin(B.CONFIGS[cfg])
def report_broken(ctx, broken, subset, cfg, what="", lang=""):
    for n in sorted(broken):
        if n in subset and len(ctx.violations) < MAXREPORT:
            report(ctx, n, f"{n} {broken[n]}{what}", f"runner build\nconfig {cfg}\nsubject {n}\nmsg {n} {broken[n]}\n")

# ---- coverage-guided stage -----------------------------------------------------------------
def fuzz_exe():
    o = os.path.join(B.ework(), "fuzz.o")
    if not os.path.exists(o):
        g = B.gen_dir(); tmp = f"{o}.{B.uniq()}.o"
        r = B.sh(["clang++", "-std=gnu++17", "-O2"] + B.ENGFLAGS + ["-I", g, "-I", B.SRC, "-c", os.path.join(B.SRC, "fuzz.cpp"), "-o", tmp])
        if r.returncode: raise B.BuildError("fuzz target does not build", r.stdout)
        os.replace(tmp, o)
    exe = os.path.join(B.work(), "fuzz")
    if not os.path.exists(exe):
        cfg = B.CONFIGS["fuzz"]; objs = B.compile_lib(cfg)
        wobj, _ = B.compile_wrapped(cfg, B.gen_wrap, "wrap", drop0=plugin("gcc-O2").broken)
        tmp = f"{exe}.{B.uniq()}"
        r = B.sh(["clang++", "-O1", "-fsanitize=fuzzer", o, wobj] + objs + ["-o", tmp])
        if r.returncode: raise B.BuildError("fuzz target does not link", r.stdout)
        os.replace(tmp, exe)
    return exe
def fuzz_stage(ctx, ops, secs):
    try: exe = fuzz_exe()
    except B.BuildError as e: ctx.note(f"coverage-guided stage skipped: {e}"); return
    groups = [g for g in (ops[i::8] for i in range(8)) if g]
    while len(groups) < 8: groups += groups[:8 - len(groups)]
    def one(i):
        d = ctx.sub(); cand, stats = os.path.join(d, "cand.txt"), os.path.join(d, "stats")
        env = {"FUZZ_OPS": ",".join(groups[i]), "FUZZ_OUT": cand, "FUZZ_STATS": stats}
        cmd = [exe, f"-seed={(ctx.seed * 31 + i) % 2000000000 + 1}", f"-runs={200000000}", f"-max_total_time={secs}", "-use_value_profile=1", "-max_len=120", "-len_control=0", "-timeout=25", "-rss_limit_mb=3000", "-detect_leaks=0", "-verbosity=0", f"-artifact_prefix={d}/"]
        try: r = run_cmd(cmd, secs + 100, env, cwd=d)
        except subprocess.TimeoutExpired: return (0, 0, None)
        n = nt = 0
        if os.path.exists(stats): n, nt = map(int, open(stats).read().split())
        if not os.path.exists(cand) and r.returncode != 0:       # crash inside the library: recover the case
            art = [os.path.join(d, f) for f in os.listdir(d) if f.startswith(("crash-", "timeout-"))]
            if art: env["FUZZ_TRACE"] = "1"; run_cmd([exe, art[0]], 200, env, cwd=d)
        return (n, nt, cand if os.path.exists(cand) else None)
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, range(8)))
    ctx.evals += sum(r[0] for r in res)
    ctx.cov["coverage_guided"] = {"engine": "libFuzzer, value profile, empty corpus", "executions": sum(r[0] for r in res), "nontrivial_executions_with_repeats": sum(r[1] for r in res), "seconds_per_worker": secs, "workers": 8}
    for r in res:
        if r[2]:
            plugin("clang-O1")
            done = len(ctx.violations)
            confirm(ctx, r[2], "engine", "model", "model", "gcc-O2", None, ctx.seed)
            if len(ctx.violations) == done and not ctx.known: confirm(ctx, r[2], "engine", "model", "model", "clang-O1", None, ctx.seed)

# ---- checks ----------------------------------------------------------------------------------
def check_model(ctx, oracle="model"):
    """C01, C02, C04..C17: generated calls against the reference model."""
    ops = names(ctx.pid)
    p = plugin("gcc-O2")
    report_broken(ctx, p.broken, ops, "gcc-O2")
    n = len(ops)
    total = 1_200_000_000 if ctx.thorough else 90_000_000
    per = max(20000, min(total // n, 60_000_000 if ctx.thorough else 6_000_000))
    engine_run(ctx, "generated calls against the model", "model", ctx.pid, oracle=oracle, cases=per, chunk=max(20000, per // 8), sweeps=2 if ctx.thorough else 1, rows16=96)
    if len(ctx.violations) < MAXREPORT: fuzz_stage(ctx, [o for o in ops if o not in p.broken and o not in {v[0] for v in ctx.violations}], 240 if ctx.thorough else 12)
    ctx.cov["rule"] = RULES["model"]
    ctx.assumptions += ["the reference model states the Arm NEON definition of each intrinsic", "host is little-endian x86-64 with IEEE-754 arithmetic"]

def check_c03(ctx):
    for k, cfg in enumerate(("gcc-O2", "gcc-O0", "clang-O2")):
        engine_run(ctx, "memory operations: footprint", "footprint", "mem", cfg=cfg, seed=ctx.seed * 1000 + k, cases=400_000 if ctx.thorough else 40_000, chunk=5000, count=cfg == "gcc-O2")
    try:
        trace_exe()
        j = engine_run(ctx, "memory operations: every access of an instrumented build (clang -O1) against the addressed elements", "footprint", "mem", cfg="trace", oracle="trace", runner="trace", cases=4_000_000 if ctx.thorough else 300_000, chunk=50_000, count=False)
        ctx.cov["traced_bytes"] = {"addressed": j["extra"][0], "seen_by_instrumentation": j["extra"][1]}
    except B.BuildError as e: ctx.note(f"access-tracing stage skipped: {e}")
    ctx.cov["rule"] = "In the access-tracing stage the library is compiled so that each of its loads and stores reports address and size; a load may touch only its elements and only read, a store may touch only its elements and only write. In the other stages: Each case calls one load or store twice in two pages of shared memory whose surrounding bytes (and, for stores, prior destination bytes) differ, with the buffer mid-page, at the very start or at the very end of mapped memory (guard pages beyond); loads get a read-only mapping. All bytes of both pages are compared, results and stored bytes must agree between the two runs. Non-trivial: every such case; distinct by operand bytes, lane and placement."
    ctx.assumptions += ["access tracing sees what clang's instrumentation sees: not inline assembly or accesses made inside libc string functions other than memcpy, memmove and memset"]

def check_c18(ctx):
    p = plugin("gcc-O2")
    cfgs = ["gcc-O2", "gcc-O2-NDEBUG", "clang-O2", "gcc-O0", "clang-O2-NDEBUG"] + B.random_mixes(ctx.seed, 24 if ctx.thorough else 4)
    for k, cfg in enumerate(cfgs):
        if len(ctx.violations) < MAXREPORT: engine_run(ctx, "immediates in and out of range", "imm", "imm", cfg=cfg, seed=ctx.seed * 1000 + k, cases=(120_000 if ctx.thorough else 8_000) * (8 if cfg == "gcc-O2" else 1), chunk=8000, count=cfg == "gcc-O2", maxfail=40)
    if len(ctx.violations) < MAXREPORT: engine_run(ctx, "legal immediates with varied operands", "imm", "imm", legal=1, cases=60_000_000 if ctx.thorough else 5_000_000, chunk=100_000, maxfail=40)
    ctx.cov["configurations"] = cfgs
    ctx.cov["rule"] = "Each case is an intrinsic with an immediate, generated operands, and an int immediate drawn around both range bounds, from extreme ints, from legal values plus/minus powers of two, and from the legal range. The call must return for every architecturally legal immediate and must raise SIGABRT, having written a diagnostic to stderr and no memory, for every illegal one. Non-trivial: immediate illegal or legal (values the property leaves open are discarded); distinct by operands and immediate."
    ctx.assumptions += ["SIGABRT is intercepted in-process; a handler-free abort ends the process"]

def tsan_exe():
    cfg = B.CONFIGS["tsan"]
    return B.build_static(cfg, "engine-tsan", "engine.cpp", "g++", ["-O1", "-g", "-fsanitize=thread"] + B.ENGFLAGS, plugin("gcc-O2").broken)
WRAPS = ["warning", "warning_noreturn", "warning_with_origin", "maybe_warning_1", "maybe_warning_2", "maybe_warning_4", "maybe_warning_8"]
def special_exe(kind, define, ld):
    """Engine (not instrumented) linked with the library and wrappers of configuration `kind`."""
    cfg = B.CONFIGS[kind]
    o = os.path.join(B.ework(), f"engine-{kind}.o")
    if not os.path.exists(o):
        tmp = f"{o}.{B.uniq()}.o"
        r = B.sh(["clang++", "-std=gnu++17", "-O2", "-DSTATIC_PLUGIN", "-D" + define] + B.ENGFLAGS + ["-I", B.gen_dir(), "-I", B.SRC, "-c", os.path.join(B.SRC, "engine.cpp"), "-o", tmp])
        if r.returncode: raise B.BuildError(f"engine for {kind} does not build", r.stdout)
        os.replace(tmp, o)
    exe = os.path.join(B.work(), f"engine-{kind}")
    if not os.path.exists(exe):
        objs = B.compile_lib(cfg); wobj, _ = B.compile_wrapped(cfg, B.gen_wrap, "wrap", drop0=plugin("gcc-O2").broken); tmp = f"{exe}.{B.uniq()}"
        r = B.sh(["clang++", o, wobj] + objs + ["-o", tmp, "-ldl", "-lpthread"] + ld)
        if r.returncode: raise B.BuildError(f"engine for {kind} does not link", r.stdout)
        os.replace(tmp, exe)
    return exe
def msan_exe(): return special_exe("msan", "MSAN_BUILD", ["-fsanitize=memory"] + ["-Wl,--wrap=__msan_" + w for w in WRAPS])
def trace_exe(): return special_exe("trace", "TRACE_BUILD", [])
TSAN_ENV = {"TSAN_OPTIONS": "report_bugs=1:halt_on_error=0:exitcode=0:history_size=3:suppress_equal_stacks=0:suppress_equal_addresses=0:symbolize=0:log_path=/dev/null"}
def asan_exe():
    cfg = B.CONFIGS["asan"]
    return B.build_static(cfg, "engine-asan", "engine.cpp", "clang++", ["-O1", "-DASAN_BUILD", "-fsanitize=address", "-fsanitize-recover=address"] + B.ENGFLAGS, plugin("gcc-O2").broken)
def threads_cmd(exe, seed, ops, cases, mixed, nthr, plug=None):
    pre = ["setarch", "-R"] if shutil.which("setarch") and "tsan" in exe and run_cmd(["setarch", "-R", "true"], 20).returncode == 0 else []
    return pre + [exe, "--mode", "threads", "--ops", ops, "--seed", str(seed), "--cases", str(cases), "--mixed", str(mixed), "--threads", str(nthr), "--mined", B.mined()] + (["--plugin", plug] if plug else [])
def run_threads(cmd, limit=None):
    limit = limit or (1500 if "thorough" in sys.argv else 90)
    try: r = run_cmd(cmd, limit, TSAN_ENV)
    except subprocess.TimeoutExpired: return {"calls": 0, "races": 0, "race_ops": [], "wrong": 1, "msg": f"threads calling intrinsics did not finish within {limit} s", "case": ""}
    if r.returncode != 0:
        if r.returncode < 0 or r.returncode >= 128: return {"calls": 0, "races": 0, "race_ops": [], "wrong": 1, "msg": f"process died with status {r.returncode} while threads were calling intrinsics: {r.stderr[-300:]}", "case": ""}
        raise CheckError(f"thread run failed ({r.returncode}): {r.stderr[-1500:]}")
    try: return json.loads(r.stdout.strip().split("\n")[-1])
    except ValueError: raise CheckError("thread run output unreadable: " + r.stdout[:400] + r.stderr[-800:])
def check_c19(ctx):
    p = plugin("gcc-O2")
    engine_run(ctx, "call histories against the model; repeated calls; heap and FP-control state", "history", "all", cases=10_000_000 if ctx.thorough else 900_000, chunk=1000 if ctx.thorough else 500, repeat=100_000_000 if ctx.thorough else 2_000_000)
    # intrinsics that keep something between calls (none on a tree without hidden state) get histories of their own
    try:
        r = run_cmd([trace_exe(), "--mode", "state", "--ops", "all", "--cases", str(20000 if ctx.thorough else 4000), "--seed", str(ctx.seed), "--mined", B.mined()], 600, ASAN_ENV)
        try: st = json.loads(r.stdout.strip().split("\n")[-1])
        except (ValueError, IndexError): st = {"calls": 0, "writers": 0, "focus": []}; ctx.note(f"state tracing ended with status {r.returncode}")
        ctx.cov["state_tracing"] = {"calls": st["calls"], "intrinsics_writing_outside_stack_and_buffers": st["writers"], "intrinsics_in_focus": st["focus"][:60]}
        if st["focus"] and len(ctx.violations) < MAXREPORT:
            engine_run(ctx, "call histories over the intrinsics that keep state", "history", ",".join(st["focus"]), focus=1, count=False, cases=10_000_000 if ctx.thorough else 500_000, chunk=500, repeat=min(20_000_000, 600_000_000 // len(st["focus"])) * (10 if ctx.thorough else 1))
    except B.BuildError as e: ctx.note(f"state tracing skipped: {e}")
    # data races
    specs = []
    try: specs.append(("tsan", tsan_exe(), 4, 2000 if ctx.thorough else 40, 4000 if ctx.thorough else 300, None))
    except B.BuildError as e: ctx.note(f"ThreadSanitizer build skipped: {e}")
    specs.append(("native", B.engine(), 8, 20000 if ctx.thorough else 1500, 1000 if ctx.thorough else 60, p.so))
    for kind, exe, nthr, cases, mixed, plug in specs:
        j = run_threads(threads_cmd(exe, ctx.seed, "all", cases, mixed, nthr, plug))
        ctx.evals += j["calls"]; ctx.cov.setdefault("threads", []).append({"kind": kind, **{k: j.get(k) for k in ("calls", "phases", "threads", "races")}})
        subj = [o for o in j["race_ops"] if o != "?"] or (["any"] if j["races"] else [])
        for s in subj[:MAXREPORT]:
            ops = s if s != "any" else "all"
            cmd = threads_cmd(exe, ctx.seed, ops, 400 if s != "any" else cases, 0 if s != "any" else mixed, nthr, plug)
            got = [run_threads(cmd)["races"] for _ in range(3)]
            if all(got): report(ctx, s, f"ThreadSanitizer: data race while {nthr} threads call {s} on their own data", f"runner threads\nkind {kind}\nops {ops}\nseed {ctx.seed}\nsubject {s}\n")
            else: ctx.unconfirmed.append({"subject": s, "msg": "race did not reproduce"}); ctx.note(f"race in {s} did not reproduce")
        if j["wrong"]:
            cmd = threads_cmd(exe, ctx.seed, "all", cases, mixed, nthr, plug)
            subject = (j["case"].split() + ["", "any"])[1] or "any"
            alone = run_threads(threads_cmd(exe, ctx.seed, "all", cases, 0, 1, plug))     # dies without concurrency as well?
            if alone["wrong"]: ctx.note("calls die without threads too; left to other checks: " + j["msg"][:200])
            elif all(run_threads(cmd)["wrong"] for _ in range(3)): report(ctx, subject, "wrong result while other threads were calling intrinsics: " + j["msg"], f"runner threads\nkind {kind}\nops all\nseed {ctx.seed}\nsubject {subject}\nmsg {j['msg']}\n# {j['case']}\n")
            else: ctx.unconfirmed.append({"subject": subject, "msg": j["msg"]}); ctx.note("wrong result under threads did not reproduce: " + j["msg"][:300])
    ctx.cov["rule"] = "A history is 4-120 calls over 1-5 intrinsics (related ones preferred), about a third of them repeats or one-bit variations of earlier calls, run in one process with the stack painted with varying bytes between calls; after each call result, memory and FP control state are checked. Non-trivial: at least 4 calls with at least one repeated or varied call; distinct by the sequence of all operands. Every intrinsic is also called in long series cycling four cases, with the heap measured before and after. Thread phases run every intrinsic alone and random mixes on disjoint data in 4 (ThreadSanitizer) and 8 (native) threads."
    ctx.assumptions += ["schedules are those the operating system produced; ThreadSanitizer reports unordered conflicting accesses whatever the interleaving"]

def check_c20(ctx):
    p = plugin("gcc-O2")
    rep = lambda a, b: a if ctx.thorough else b
    engine_run(ctx, "UndefinedBehaviorSanitizer (clang, trapping)", "san", "all", cfg="ubsan", oracle="san", cases=rep(4_000_000, 120_000), chunk=rep(400_000, 30_000), sweeps=1, rows16=16)
    try:
        asan_exe()
        engine_run(ctx, "AddressSanitizer (clang)", "san", "all", cfg="asan", oracle="san", runner="asan", cases=rep(300_000, 12_000), chunk=rep(50_000, 6000), count=False, hashbits=22)
    except B.BuildError as e: ctx.note(f"AddressSanitizer stage skipped: {e}")
    try:
        msan_exe(); plugin("gcc-O0")
        engine_run(ctx, "MemorySanitizer (clang -O0, findings confirmed by memcheck)", "san", "all", cfg="msan", oracle="san", runner="msan", cases=rep(2_000_000, 100_000), chunk=rep(100_000, 25_000), count=False, hashbits=22)
    except B.BuildError as e: ctx.note(f"MemorySanitizer stage skipped: {e}")
    memcheck(ctx, rep(400, 24))
    ctx.cov["rule"] = RULES["model"] + " Here the oracle is the absence of sanitizer traps/reports, crashes, and (memcheck, -O0 build) of invalid accesses, decisions on uninitialised memory and uninitialised result bits."
    ctx.assumptions += ["UBSan (undefined, float-cast-overflow), ASan and memcheck detect the undefined behaviour classes they document"]
def memcheck_cmd(seed, ops, cases, out):
    so = plugin("gcc-O0").so
    return ["valgrind", "-q", "--error-exitcode=0", "--undef-value-errors=yes", "--expensive-definedness-checks=yes", "--log-file=/dev/null", B.engine(), "--mode", "memcheck", "--plugin", so, "--cfg", "gcc-O0", "--ops", ops, "--cases", str(cases), "--seed", str(seed), "--outdir", out, "--hashbits", "8", "--mined", B.mined()]
def memcheck_one(ctx, path):
    if not shutil.which("valgrind"): return True
    for _ in range(2):
        r = run_cmd(memcheck_cmd(1, "all", 1, ctx.sub()) + ["--one", path], 300)
        try:
            if not json.loads(r.stdout.strip().split("\n")[-1])["candidates"]: return False
        except (ValueError, IndexError): return False
    return True
def memcheck(ctx, cases, only=None):
    if not shutil.which("valgrind"): ctx.note("valgrind not found: memcheck stage skipped"); return
    B.engine(); plugin("gcc-O0"); B.mined()
    allops = [o.name for o in B.OPLIST]; parts = [allops[i::8] for i in range(8)]
    def one(i):
        d = ctx.sub()
        try: r = run_cmd(memcheck_cmd(ctx.seed, ",".join(parts[i]), cases, d), 3000 if ctx.thorough else 300)
        except subprocess.TimeoutExpired: return {"evals": 0, "err": "no answer in time", "candidates": []}
        try: return json.loads(r.stdout.strip().split("\n")[-1])
        except (ValueError, IndexError): return {"evals": 0, "err": f"status {r.returncode}: {r.stderr[-300:]}", "candidates": []}
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, range(8)))
    errs = [r["err"] for r in res if "err" in r]
    ctx.evals += sum(r["evals"] for r in res)
    ctx.cov["memcheck"] = {"calls": sum(r["evals"] for r in res), "cases_per_intrinsic": cases, "failed_workers": errs}
    if errs: ctx.note("memcheck workers failed: " + "; ".join(errs)[:500])
    for r in res:
        for c in r["candidates"]:
            h = header(c); s = h["subject"]
            if len(ctx.violations) >= MAXREPORT: return
            got = 0
            for _ in range(3):
                d = ctx.sub(); q = run_cmd(memcheck_cmd(ctx.seed, s, cases, d), 600)
                try: got += bool(json.loads(q.stdout.strip().split("\n")[-1])["candidates"])
                except (ValueError, IndexError): pass
            if got == 3: report(ctx, s, h.get("msg", ""), f"runner memcheck\nseed {ctx.seed}\ncases {cases}\n" + open(c, errors="replace").read())
            else: ctx.note(f"memcheck report for {s} did not reproduce")

C21_CFGS = ["gcc-O0", "gcc-O1", "gcc-O3", "gcc-Os", "gcc-O3-native-sse4", "clang-O0", "clang-O1", "clang-O2", "clang-O3", "clang-Os"]
def try_plugin(cfg):
    try: return plugin(cfg)
    except B.BuildError as e: return e
def check_c21(ctx):
    base = plugin("gcc-O2")
    cover = B.covering_mixes(ctx.seed); extra = [c for c in B.random_mixes(ctx.seed, 60) if c not in cover] if ctx.thorough else []
    cfgs = C21_CFGS + cover + extra
    pl = dict(zip(cfgs, B.par([lambda c=c: try_plugin(c) for c in cfgs])))
    B.engine()
    for k, c in enumerate(cfgs):
        q = pl[c]
        if isinstance(q, B.BuildError):
            if "library does not compile" in str(q) or "link failed" in str(q): report(ctx, "build-" + c, f"{q}: {q.log[-700:]}", f"runner build\nconfig {c}\nsubject build-{c}\nmsg {q}\n{q.log[-4000:]}\n")
            else: raise CheckError(f"{q}\n{q.log[-1500:]}")
            continue
        only = {n: w for n, w in q.broken.items() if n not in base.broken}
        report_broken(ctx, only, set(only), c, f" in configuration {c} (it is usable in gcc-O2)")
        if len(ctx.violations) >= MAXREPORT: break
        engine_run(ctx, "differential", "diff", "all", cfg="gcc-O2", cfg2=c, cases=40_000 if ctx.thorough else 6_000, chunk=20_000 if ctx.thorough else 6_000, count=c == "gcc-O0", maxfail=6, seed=ctx.seed * 1000 + k)
    for c in ("gcc-O3", "clang-O2", "clang-O3"):
        if len(ctx.violations) < MAXREPORT and not isinstance(pl[c], B.BuildError):
            engine_run(ctx, "differential, extreme pairs", "diff", "all", cfg=c, cfg2="clang-O0", cases=400_000 if ctx.thorough else 20_000, chunk=20_000, count=False, maxfail=6)
    ctx.cov["configurations"] = {"reference": "gcc-O2", "plain": C21_CFGS, "covering all pairs, and all triples without the standard": cover, "random": extra}
    ctx.cov["rule"] = RULES["model"] + " Here every case is run in two builds of the library and the result bits (any NaN equal to any NaN where the operation computes floats) and memory must agree."
    ctx.assumptions += ["all configurations are x86-64; wrappers are compiled with the same configuration as the library"]

def check_c22(ctx):
    cfgs = ["gcc-O2", "c99-gcc", "c11-clang", "cxx11-clang"]
    allops = [o.name for o in B.OPLIST]
    for c in cfgs:
        q = try_plugin(c)
        if isinstance(q, B.BuildError):
            report(ctx, "header-" + c, f"{q}: {q.log[-700:]}", f"runner build\nconfig {c}\nsubject header-{c}\nmsg {q}\n{q.log[-4000:]}\n"); continue
        report_broken(ctx, q.broken, allops, c, f" (callers compiled as {c})")
        try:
            _, bad = B.compile_wrapped(B.CONFIGS[c], B.gen_protos, "protos", drop0=q.broken)
            report_broken(ctx, {n: w for n, w in bad.items() if n not in q.broken}, allops, c, f" (function pointer of the ACLE type, {c})")
        except B.BuildError as e: report(ctx, "protos-" + c, f"{e}: {e.log[-700:]}", f"runner build\nconfig {c}\nsubject protos-{c}\nmsg {e}\n")
        ctx.cov.setdefault("prototypes_checked", {})[c] = len(allops) - len(q.broken)
    if len(ctx.violations) < MAXREPORT:
        for c in ("c99-gcc", "c11-clang", "cxx11-clang"):
            engine_run(ctx, f"calls compiled as {c} against calls from C++", "diff", "all", cfg="gcc-O2", cfg2=c, cases=250_000 if ctx.thorough else 15_000, chunk=15_000, count=c == "c99-gcc")
    n = 0
    for kind, cmd in cprog.LANGS:
        for k in range(200 if ctx.thorough else 12):
            fails, cnt, text = cprog.run(ctx.sub(), ctx.seed * 1000 + k, kind, cmd, B.REPO); n += cnt
            if fails:
                again = [cprog.run(ctx.sub(), ctx.seed * 1000 + k, kind, cmd, B.REPO)[0] for _ in range(3)]
                if all(again): report(ctx, f"types-{kind}", fails[0], f"runner cprog\nkind {kind}\nseed {ctx.seed * 1000 + k}\nsubject types-{kind}\nmsg {fails[0]}\n"); break
    ctx.evals += n; ctx.cov["generated_initialiser_and_layout_programs_assertions"] = n
    ctx.samples.append(cprog.sample(ctx.seed * 1000))
    drop = set(plugin("gcc-O2").broken); n = 0
    jobs = [(kind, cmd, ctx.seed * 1000 + k, ctx.sub()) for k in range(60 if ctx.thorough else 4) for kind, cmd in cprog.LANGS]
    with B.ThreadPoolExecutor(8) as ex: got = list(ex.map(lambda j: cprog.run_calls(j[3], j[2], j[0], j[1], B.REPO, drop), jobs))
    for (kind, cmd, seed, _d), (fails, cnt) in zip(jobs, got):
        n += cnt
        for who, msg in fails[:3]:
            if any(v[0] == who for v in ctx.violations) or len(ctx.violations) >= MAXREPORT: continue
            if all(any(f[0] == who for f in cprog.run_calls(ctx.sub(), seed, kind, cmd, B.REPO, drop)[0]) for _ in range(2)): report(ctx, who, f"{msg} (called from {kind})", f"runner calls\nkind {kind}\nseed {seed}\nsubject {who}\nmsg {msg}\n")
    ctx.evals += n; ctx.cov["generated_call_program_assertions"] = n
    ctx.cov["rule"] = RULES["model"] + " Calls are made from wrappers compiled as C99 (gcc), C11 (clang) and C++11 (clang). Every intrinsic is also bound to a function pointer of its exact ACLE type in each language. Generated C and C++ programs initialise every vector type from random brace lists and check lane order, sizes, contiguity of val[] arrays and (C++/C11) that differently named types are different types."
    ctx.assumptions += ["the prototype table in spec/spec.py is the ACLE one"]

def check_c23(ctx):
    p = plugin("gcc-O2")
    engine_run(ctx, "random programs against the model", "program", "all", cases=12_000_000 if ctx.thorough else 900_000, chunk=20_000 if ctx.thorough else 4_000)
    for k, cfg in enumerate(("gcc-O2", "clang-O3")):
        try: B.build_kernels(B.CONFIGS[cfg])
        except B.BuildError as e:
            report(ctx, "kernels-build-" + cfg, f"{e}: {e.log[-1200:]}", f"runner build\nconfig {cfg}\nkernels 1\nsubject kernels-build-{cfg}\nmsg {e}\n{e.log[-4000:]}\n"); continue
        engine_run(ctx, f"user kernels against scalar references", "kernels", "all", cfg=cfg, runner="engine-laws", seed=ctx.seed * 1000 + k, cases=2_000_000 if ctx.thorough else 120_000, chunk=100_000 if ctx.thorough else 15_000)
    ctx.cov["rule"] = "A program is 6-39 generated intrinsic calls whose operands mostly come from earlier results (typed register file, including parts of vector arrays) or a 256-byte memory that loads read and stores update; every step is compared with the model. Non-trivial: at least 4 operands taken from earlier results; distinct by the sequence of all operands. A kernel case is a kernel, a size over its whole range (including sizes below one vector and ragged tails), generated content and parameters, buffers against guard pages; output and canaries are compared with an independent scalar reference. Non-trivial: size above the minimum; distinct by size, content seed and parameters."
    ctx.assumptions += ["scalar references and the model state the intended result"]

def check_c24(ctx):
    j = engine_run(ctx, "algebraic laws", "laws", "all", runner="engine-laws", cases=3_000_000 if ctx.thorough else 100_000, chunk=200_000 if ctx.thorough else 25_000, maxfail=24, hashbits=29 if ctx.thorough else 28)
    ctx.cov["laws"] = j["subjects"]
    ctx.cov["rule"] = "Each case instantiates one law (an equation between several intrinsic calls, no reference model) with generated operands. Non-trivial: the operands are not all constant vectors or use the upper half of their lanes; distinct by law and all operands."
    ctx.assumptions += ["a change that breaks all sides of every law in the same way is left to the model-based checks"]

CHECKS = {"C03": check_c03, "C18": check_c18, "C19": check_c19, "C20": check_c20, "C21": check_c21, "C22": check_c22, "C23": check_c23, "C24": check_c24,
          "C02": lambda c: check_model(c, "roundtrip")}
for _p in ("C01", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17"): CHECKS[_p] = check_model

def write_evidence(ctx):
    e = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": "exploration",
         "coverage": {"evaluations": ctx.evals, "distinct_nontrivial": ctx.nontrivial, "rule": ctx.cov.pop("rule", ""), "samples": ctx.samples[:16], **ctx.cov,
                      "unconfirmed": ctx.unconfirmed, "notes": ctx.notes, "known_findings": [f"{a}: {b}" for a, b in ctx.known]},
         "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.violations)}
    d = os.path.join(HERE, "evidence"); os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{ctx.pid}.{B.uniq()}.tmp"); json.dump(e, open(tmp, "w"), indent=1); os.replace(tmp, os.path.join(d, ctx.pid + ".json"))

def do_replay(path):
    h = header(path); pid = h.get("property", "?"); runner = h.get("runner", "engine")
    def out(bad, msg):
        print(("FAIL " if bad else "OK ") + msg); 
        if bad: print(f"VIOLATION property={pid} replay={path}")
        return 1 if bad else 0
    if runner == "build":
        cfg = B.CONFIGS[h["config"]]; s = h["subject"]
        try:
            if "kernels" in h: B.build_kernels(cfg); return out(False, "kernels build")
            p = B.build_plugin(cfg); bad = dict(p.broken)
            if s in B.OPS: bad.update(B.compile_wrapped(cfg, B.gen_protos, "protos", drop0=p.broken)[1])
            return out(s in bad, bad.get(s, s + " builds"))
        except B.BuildError as e: return out(True, str(e) + "\n" + e.log[-1500:])
    if runner == "threads":
        j = run_threads(threads_cmd(tsan_exe() if h["kind"] == "tsan" else B.engine(), int(h["seed"]), h["ops"], 400, 0, 4, None if h["kind"] == "tsan" else plugin("gcc-O2").so))
        return out(j["races"] or j["wrong"], str(j))
    if runner == "cprog":
        cmd = dict(cprog.LANGS)[h["kind"]]; d = os.path.join(B.BROOT, f"replay-{B.uniq()}"); os.makedirs(d)
        try: f, _, _ = cprog.run(d, int(h["seed"]), h["kind"], cmd, B.REPO)
        finally: shutil.rmtree(d, ignore_errors=True)
        return out(bool(f), f[0] if f else "layout holds")
    if runner == "calls":
        cmd = dict(cprog.LANGS)[h["kind"]]; d = os.path.join(B.BROOT, f"replay-{B.uniq()}"); os.makedirs(d)
        try: f = [x for x in cprog.run_calls(d, int(h["seed"]), h["kind"], cmd, B.REPO, set(B.build_plugin(B.GCC_O2).broken))[0] if x[0] == h["subject"]]
        finally: shutil.rmtree(d, ignore_errors=True)
        return out(bool(f), f"{f[0][0]}: {f[0][1]}" if f else "calls hold")
    if runner == "memcheck":
        d = os.path.join(B.BROOT, f"replay-{B.uniq()}"); os.makedirs(d)
        try: j = json.loads(run_cmd(memcheck_cmd(int(h["seed"]), h["subject"], int(h["cases"]), d), 600).stdout.strip().split("\n")[-1])
        finally: shutil.rmtree(d, ignore_errors=True)
        return out(bool(j["candidates"]), h.get("msg", ""))
    c1, c2 = (h["config"].split() + ["-"])[:2]
    base = base_args(runner, h["mode"], h.get("oracle", h["mode"]), c1, None if c2 == "-" else c2) + ["--seed", h.get("seed", "1")]
    d = os.path.join(B.BROOT, f"replay-{B.uniq()}"); os.makedirs(d)
    try: r = run_cmd(base + ["--replay", path, "--timeout", "60"] + (["--job", "1", "--outdir", d] if h.get("how") == "job" else []), 1000, ASAN_ENV)
    finally: shutil.rmtree(d, ignore_errors=True)
    return out(r.returncode == 1, r.stdout.strip() + r.stderr[-300:])

def main():
    a = sys.argv[1:]
    if a and a[0] == "replay": return do_replay(os.path.abspath(a[1]))
    if a and a[0] == "setup":
        B.par([B.engine, B.engine_laws]); print("built", B.ework()); return 0
    pid, tier = a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    ctx = Ctx(pid, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        try: CHECKS[pid](ctx)
        except (B.BuildError, CheckError, subprocess.TimeoutExpired) as e:
            if not ctx.violations:
                print(f"error: {e}\n{getattr(e, 'log', '')[-3000:]}", file=sys.stderr); return 2
            ctx.note(f"stopped early: {e}")
        write_evidence(ctx)
        print(f"{pid} {tier}: {ctx.evals} evaluations, {ctx.nontrivial} distinct non-trivial, {len(ctx.violations)} violations, {time.time() - ctx.t0:.1f} s")
        return 1 if ctx.violations else 0
    finally: shutil.rmtree(ctx.scratch, ignore_errors=True)
if __name__ == "__main__": sys.exit(main())

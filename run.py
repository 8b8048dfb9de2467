#!/usr/bin/env python3
"""Decide one property of /repo by running monitored workloads.

    run.py <property> [quick|thorough]      exit 0 held / 1 VIOLATION / 2 no answer
    run.py --replay <file>                  run one recorded failing step again

Everything is rebuilt from /repo's working tree (into /verif/build, keyed by the
contents of the sources and the flags).
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
H = VERIF + "/harness"
OUT = VERIF + "/build"
JOBS = min(8, os.cpu_count() or 4)

# ------------------------------------------------------------------- builds
ASAN = "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"
KL = f"-I{REPO}/public -I{H} -w"
CFG = {  # configurations of the numeric library
    "g17-sse3": ("g++", "-std=c++17 -O1 -msse3"),
    "g17-sse41": ("g++", "-std=c++17 -O2 -msse4.1 -DKLEIN_SSE_4_1 -DKLEIN_VALIDATE"),
    "g11-sse3": ("g++", "-std=c++11 -O2 -msse3"),
    "g11-sse41": ("g++", "-std=c++11 -O0 -msse4.1 -DKLEIN_SSE_4_1"),
    "c17-simde": ("clang++", "-std=c++17 -O1 -msse3 -DKLEIN_USE_SIMDE -DSIMDE_NO_NATIVE -I/usr/include/simde"),
    "c17-native": ("clang++", "-std=c++17 -O3 -DNDEBUG -march=native -ffp-contract=off -DKLEIN_SSE_4_1"),
    "g17-O3": ("g++", "-std=c++17 -O3 -DNDEBUG -msse3"),
    "c11-O0": ("clang++", "-std=c++11 -O0 -msse4.1 -DKLEIN_SSE_4_1"),
    "g14-Os": ("g++", "-std=c++14 -Os -msse3"),
    "c20-O2": ("clang++", "-std=c++20 -O2 -msse4.1 -DKLEIN_SSE_4_1"),
    "c17-asan": ("clang++", "-std=c++17 -msse3 " + ASAN),
    "c11-asan41": ("clang++", "-std=c++11 -msse4.1 -DKLEIN_SSE_4_1 " + ASAN),
    "g11-asan": ("g++", "-std=c++11 -msse4.1 -DKLEIN_SSE_4_1 " + ASAN),
    "g17-asan": ("g++", "-std=c++17 -msse3 " + ASAN),
    "g17-vg": ("g++", "-std=c++17 -O1 -g -msse3"),
    "g11-vg": ("g++", "-std=c++11 -O1 -g -msse4.1 -DKLEIN_SSE_4_1"),
    "c17-tsan": ("clang++", "-std=c++17 -O1 -g -msse4.1 -DKLEIN_SSE_4_1 -fsanitize=thread"),
    "c11-tsan": ("clang++", "-std=c++11 -O1 -g -msse3 -fsanitize=thread"),
}
FUNC = ["g17-sse3", "g17-sse41", "g11-sse3", "g11-sse41", "c17-simde", "c17-native"]
C19 = FUNC + ["g17-O3", "c11-O0", "g14-Os", "c20-O2"]
SYMSRC = " ".join(
    f"{REPO}/sym/{f}"
    for f in (sorted(os.listdir(f"{REPO}/sym")) if os.path.isdir(f"{REPO}/sym") else [])
    if f.endswith(".cpp") and f not in ("main.cpp", "repl.cpp", "test.cpp")
)
SYMCFG = {
    "g": ("g++", "-O1 -g"),
    "c": ("clang++", "-O2 -g"),
    "asan": ("clang++", ASAN),
    "gasan": ("g++", ASAN),
    "tsan": ("clang++", "-O1 -g -fsanitize=thread"),
    "gcount": ("g++", "-O1 -g -DVF_COUNT"),
    "ccount": ("clang++", "-O2 -g -DVF_COUNT"),
    "fuzz": ("clang++", "-O1 -g -fsanitize=fuzzer,address,undefined -fno-sanitize-recover=all -DVF_FUZZ"),
}


def build_cmds(name):
    """name = driver:config -> (list of commands writing to {o}, inputs that key it)"""
    drv, cfg = name.split(":")
    if drv in ("ops", "geo", "mem", "trace"):
        src = f"{H}/trace.cpp" if drv == "trace" else f"{H}/mon_{drv}.cpp"
        cc, fl = CFG[cfg]
        return [f"{cc} {fl} {KL} {src} -o {{o}}"]
    if drv == "glsl":
        cc, fl = CFG[cfg]
        return [f"{cc} {fl} {KL} -I{REPO}/test -I{REPO}/glsl {H}/mon_glsl.cpp -o {{o}}"]
    if drv in ("c", "thread", "pure"):
        cc, fl = CFG[cfg]
        san = " ".join(f for f in fl.split() if not f.startswith("-std") and not f.startswith("-DKLEIN"))
        c = {"g++": "gcc", "clang++": "clang"}[cc]
        src = "mon_" + drv
        std = re.search(r"-std=\S+", fl).group(0)
        dk = "-DKLEIN_SSE_4_1" if "-DKLEIN_SSE_4_1" in fl else ""
        return [
            f"{c} -std=c99 {san} -I{REPO}/c_src -w -c {H}/c_calls.c -o {{o}}.c.o",
            f"{cc} {std} {dk} {san} {KL} -I{REPO}/c_src -c {REPO}/c_src/klein_c.cpp -o {{o}}.k.o",
            f"{cc} {fl} {KL} -I{REPO}/c_src {H}/{src}.cpp {{o}}.c.o {{o}}.k.o -pthread -o {{o}}",
        ]
    if drv == "cross":
        cc, fl = CFG[cfg]
        san = " ".join(f for f in fl.split() if f.startswith(("-O", "-g", "-f")))
        # the tool has its own language standard and instruction set
        tool = [f"{cc} -std=c++17 -msse4.2 {san} -w -I{REPO}/sym -I{H} -c {f} -o {{o}}.{i}.o" for i, f in enumerate([f"{H}/formula.cpp"] + SYMSRC.split())]
        return tool + [f"{cc} {fl} {KL} {H}/mon_cross.cpp " + " ".join(f"{{o}}.{i}.o" for i in range(len(tool))) + " -o {o}"]
    if drv == "sym":
        cc, fl = SYMCFG[cfg]
        return [f"{cc} -std=c++17 -msse4.2 {fl} -w -I{REPO}/sym -I{H} {H}/sym_mon.cpp {SYMSRC} -pthread -o {{o}}"]
    if drv == "shell":
        cc, fl = SYMCFG[cfg]
        return [f"{cc} -std=c++17 -msse4.2 {fl} -w -I{REPO}/sym {SYMSRC} {REPO}/sym/repl.cpp {REPO}/sym/main.cpp -o {{o}}"]
    raise KeyError(name)


_tree = None


def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        roots = [f"{REPO}/public", f"{REPO}/glsl", f"{REPO}/c_src", f"{REPO}/sym", f"{REPO}/test", H]
        for r in roots:
            for d, dn, fs in os.walk(r):
                dn.sort()
                for f in sorted(fs):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    try:
                        with open(p, "rb") as fh:
                            h.update(hashlib.sha256(fh.read()).digest())
                    except OSError:
                        pass
        _tree = h.hexdigest()
    return _tree


class BuildError(Exception):
    pass


def build(name):
    cmds = build_cmds(name)
    key = hashlib.sha256((tree_hash() + json.dumps(cmds)).encode()).hexdigest()[:20]
    out = f"{OUT}/{name.replace(':', '-')}-{key}"
    if os.path.exists(out):
        return out
    tmp = f"{out}.{os.getpid()}"
    try:
        for c in cmds:
            p = subprocess.run(c.format(o=tmp), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if p.returncode:
                err = [l for l in p.stdout.decode(errors="replace").splitlines() if "error" in l]
                raise BuildError(f"{name}: {c}\n" + "\n".join((err or ["(no diagnostics)"])[:5]))
        os.replace(tmp, out)
    finally:
        for f in [tmp, tmp + ".c.o", tmp + ".k.o"] + [f"{tmp}.{i}.o" for i in range(20)]:
            if os.path.exists(f):
                os.remove(f)
    return out


# -------------------------------------------------------------------- steps
class Step:
    """One monitored execution.

    kind: func    FAIL lines of the monitor and abnormal ends are violations
          san     built with sanitizers: their reports and abnormal ends are
                  violations, FAIL lines only if own=True
          vg      run under valgrind memcheck
          fuzz    libFuzzer: abnormal end is a violation
    """

    def __init__(self, b, args, n, kind="func", own=True, tol=None, needs=(), timeout=400):
        self.b, self.args, self.n, self.kind, self.own = b, args, n, kind, own
        self.tol, self.needs, self.timeout = tol, list(needs), timeout

    def argv(self, seed, paths):
        exe = paths[self.b]
        if self.kind == "fuzz":
            return [exe, f"-runs={self.n}", "-max_len=160", f"-seed={seed}", "-print_final_stats=1", "-verbosity=0"]
        a = [exe] + [x.format(**{k.replace(":", "_"): v for k, v in paths.items()}) for x in self.args]
        a += ["--seed", str(seed), "--n", str(self.n)]
        if self.tol:
            a += ["--tol", str(self.tol)]
        if self.kind == "vg":
            a = ["valgrind", "-q", "--error-exitcode=9", "--exit-on-first-error=yes"] + a
        return a


ENV = dict(
    os.environ,
    ASAN_OPTIONS="exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1",
    UBSAN_OPTIONS="print_stacktrace=1:exitcode=77",
    TSAN_OPTIONS="exitcode=66:halt_on_error=0:report_thread_leaks=0",
    LC_ALL="C",
)


def run(argv, timeout):
    t0 = time.time()
    p = subprocess.Popen(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, start_new_session=True, cwd=OUT)
    try:
        o, e = p.communicate(timeout=timeout)
        hung = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        hung = True
    return p.returncode, o.decode(errors="replace"), e.decode(errors="replace"), hung, time.time() - t0


REPORT = re.compile(r"(==\d+==\s*ERROR: \w+Sanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|[^\n]*runtime error:[^\n]*|==\d+== (?:Invalid|Conditional|Use of|Syscall|Argument|Mismatched|Source and dest)[^\n]*|[^\n]*Assertion `[^\n]*|[^\n]*terminate called[^\n]*)")


def sanitizer_key(err):
    """first report with the first frame inside /repo"""
    m = REPORT.search(err)
    if not m:
        return None
    head = re.sub(r"==\d+==\s*|0x[0-9a-f]+|\(pid=\d+\)", "", m.group(1)).strip()
    head = re.sub(r"^\S*/repo/", "", head)
    frame = ""
    for f in re.finditer(r"(?:#\d+|at|by) [^\n]*?((?:/repo/|\()?[\w./+-]+\.(?:hpp|inl|cpp|h|klein)):\d+", err[m.start():]):
        if "/harness/" not in f.group(0) and "/usr/" not in f.group(0) and "libsan" not in f.group(0):
            frame = f.group(1).lstrip("(")
            break
    return f"{head} in {frame}" if frame else head


def execute(step, seed, paths):
    argv = step.argv(seed, paths)
    rc, out, err, hung, wall = run(argv, step.timeout)
    if hung:  # a loaded machine is not a hang: once more, alone in its verdict
        rc, out, err, hung, wall = run(argv, step.timeout * 2)
    r = dict(step=step, seed=seed, argv=argv, rc=rc, wall=wall, fails=[], stats={}, ops={}, samples=[], error=None, worst=0.0)
    done = False
    for l in out.splitlines():
        f = l.split("\t")
        if f[0] == "FAIL" and len(f) >= 3:
            r["fails"].append((f[1], f[2]))
        elif f[0] == "STAT" and len(f) == 3:
            r["stats"][f[1]] = int(f[2])
        elif f[0] == "OP" and len(f) == 3:
            r["ops"][f[1]] = int(f[2])
        elif f[0] == "SAMPLE":
            r["samples"].append(l[7:])
        elif f[0] == "WORST" and len(f) == 3:
            r["worst"] = float(f[2])
        elif l == "DONE":
            done = True
    if step.kind == "fuzz":
        done = rc == 0
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", err)
        if m:
            r["stats"]["evaluations"] = int(m.group(1))
        m = re.search(r"stat::new_units_added:\s*(\d+)", err)
        if m:
            r["stats"]["distinct"] = int(m.group(1))
    if not step.own:
        r["fails"] = []
    rep = sanitizer_key(err) if step.kind in ("san", "vg", "fuzz") or rc != 0 else None
    if hung:
        r["fails"].append(("terminates", f"no result within {step.timeout * 2} s: {' '.join(argv)}"))
    elif rc == 3 or rc == 127 or rc == 126:
        r["error"] = f"harness error {rc}: {' '.join(argv)}: {(out + err)[-300:]}"
    elif rep:
        r["fails"].append(("sanitizer report" if step.kind in ("san", "vg", "fuzz") else "abnormal end", rep))
    elif rc < 0:
        s = signal.Signals(-rc).name
        if s == "SIGKILL":  # the machine ran out of memory, or somebody ended it
            r["error"] = f"killed: {' '.join(argv)}"
        else:
            r["fails"].append(("abnormal end", f"killed by {s}"))
    elif rc != 0:
        r["fails"].append(("abnormal end", f"exit status {rc}: {(err or out)[-200:].strip()}"))
    elif not done and not r["fails"]:
        r["error"] = f"no result: {' '.join(argv)}: {(out + err)[-300:]}"
    elif step.kind != "fuzz" and not r["fails"] and r["stats"].get("evaluations", 0) == 0:
        r["error"] = f"observed nothing: {' '.join(argv)}"
    return r


# --------------------------------------------------------------------- plans
OPS = {"C01", "C02", "C03", "C04", "C05", "C06", "C12", "C13", "C16", "C17"}
GEO = {"C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10", "C11", "C14", "C15", "C16", "C17", "C18", "C28"}
SYM_SCRIPTS = ",".join(f"{REPO}/scripts/{s}.klein" for s in ("demo", "test", "validation"))


def plan(prop, tier):
    """list of (step, number of seeds)"""
    T = tier == "thorough"
    k = 12 if T else 1  # size of one execution
    kn = 24 if T else 3  # the numeric monitors are fast
    seeds = 3 if T else 1
    s = []
    if prop in OPS:
        for c in FUNC:
            s.append((Step(f"ops:{c}", ["--prop", prop], 500000 * kn, tol=3 if c == "c17-simde" else None, timeout=900 if T else 300), seeds))
    if prop in GEO:
        heavy = {"C07": 12000, "C08": 24000, "C10": 25000}.get(prop, 75000)
        if prop in ("C02", "C03", "C04", "C05"):
            heavy = 40000
        for c in FUNC:
            s.append((Step(f"geo:{c}", ["--prop", prop], heavy * kn, tol=3 if c == "c17-simde" else None, timeout=900 if T else 300), seeds))
    if prop == "C19":
        return None
    if prop == "C20":
        for c in ("c17-asan", "g11-asan"):
            s.append((Step(f"mem:{c}", ["--prop", prop], 120 * k, "san"), seeds))
        for c in ("g17-vg", "g11-vg"):
            s.append((Step(f"mem:{c}", ["--prop", prop], 12 * (8 if T else 1), "vg", timeout=900 if T else 400), 4 if T else 1))
        for c in ("c17-asan", "c11-asan41"):
            s.append((Step(f"ops:{c}", ["--prop", prop, "--mode", "program"], 60000 * k, "san", own=False, timeout=900), seeds))
            s.append((Step(f"geo:{c}", ["--prop", "all"], 400 * k, "san", own=False, timeout=900), seeds))
        s.append((Step("c:g17-asan", ["--prop", prop], 20000 * k, "san", own=False, timeout=900), seeds))
    if prop == "C21":
        s.append((Step("thread:c17-tsan", ["--prop", prop], 12 if not T else 200, "san", timeout=900), 3 if not T else 8))
        s.append((Step("thread:c11-tsan", ["--prop", prop], 12 if not T else 200, "san", timeout=900), 2 if not T else 8))
        s.append((Step("thread:g17-sse3", ["--prop", prop], 60 * k, timeout=900), 2 if not T else 6))
        s.append((Step("sym:tsan", ["--prop", prop, "--mode", "threads"], 30 * k, "san", timeout=900), 3 if not T else 8))
    if prop == "C22":
        for c in ("g17-sse3", "c17-asan"):
            s.append((Step(f"glsl:{c}", ["--prop", prop], (40000 if c == "g17-sse3" else 10000) * kn, "san" if "asan" in c else "func", timeout=900), seeds))
    if prop == "C23":
        for c in ("g17-sse3", "g11-sse41", "c17-native"):
            s.append((Step(f"c:{c}", ["--prop", prop], 60000 * kn, timeout=900), seeds))
        s.append((Step("c:g17-asan", ["--prop", prop], 10000 * kn, "san", timeout=900), seeds))
    if prop == "C24":
        s.append((Step("sym:g", ["--prop", prop, "--mode", "algebra"], 6000 * k, timeout=900), seeds))
        s.append((Step("sym:c", ["--prop", prop, "--mode", "algebra"], 6000 * k, timeout=900), seeds))
        s.append((Step("sym:asan", ["--prop", prop, "--mode", "algebra"], 1500 * k, "san", timeout=900), seeds))
        s.append((Step("sym:g", ["--prop", prop, "--mode", "algebra"], 40, "vg", timeout=900), 1))
    if prop == "C25":
        s.append((Step("sym:g", ["--prop", prop, "--mode", "poly"], 8000 * k, timeout=900), seeds))
        s.append((Step("sym:c", ["--prop", prop, "--mode", "poly"], 8000 * k, timeout=900), seeds))
        s.append((Step("sym:asan", ["--prop", prop, "--mode", "poly"], 1500 * k, "san", timeout=900), seeds))
        s.append((Step("sym:g", ["--prop", prop, "--mode", "poly"], 150, "vg", timeout=900), 1))
    if prop == "C26":
        sh = "{shell_g},x," + SYM_SCRIPTS
        s.append((Step("sym:g", ["--prop", prop, "--mode", "expr"], 60000 * k, timeout=900), seeds + 1))
        s.append((Step("sym:c", ["--prop", prop, "--mode", "expr"], 60000 * k, timeout=900), seeds + 1))
        s.append((Step("sym:asan", ["--prop", prop, "--mode", "expr"], 6000 * k, "san", timeout=900), seeds))
        s.append((Step("sym:g", ["--prop", prop, "--mode", "hostile"], 40000 * k, timeout=900), seeds))
        s.append((Step("sym:asan", ["--prop", prop, "--mode", "hostile"], 5000 * k, "san", timeout=900), seeds))
        s.append((Step("sym:g", ["--prop", prop, "--mode", "shell", "--opt", sh], 15000 * k, needs=["shell:g"], timeout=900), seeds))
    if prop == "C27":
        s.append((Step("sym:asan", ["--prop", prop, "--mode", "hostile"], 20000 * k, "san", timeout=900), seeds + 1))
        s.append((Step("sym:gasan", ["--prop", prop, "--mode", "hostile"], 20000 * k, "san", timeout=900), seeds))
        s.append((Step("sym:g", ["--prop", prop, "--mode", "hostile"], 60000 * k, timeout=900), seeds))
        s.append((Step("sym:g", ["--prop", prop, "--mode", "hostile"], 300, "vg", timeout=900), 1))
        s.append((Step("sym:g", ["--prop", prop, "--mode", "shell", "--opt", "{shell_asan},x"], 8000 * k, needs=["shell:asan"], timeout=900), seeds))
        s.append((Step("sym:g", ["--prop", prop, "--mode", "shell", "--opt", "{shell_g},x," + SYM_SCRIPTS], 20000 * k, needs=["shell:g"], timeout=900), seeds))
        s.append((Step("sym:fuzz", [], 30000 * (16 if T else 1), "fuzz", timeout=1500), 6 if T else 1))
    if prop == "C29":
        for c in FUNC:
            s.append((Step(f"cross:{c}", ["--prop", prop], 400000 * k, tol=3 if c == "c17-simde" else None, timeout=900), seeds))
        s.append((Step("cross:c17-asan", ["--prop", prop], 60000 * k, "san", timeout=900), seeds))
    if prop == "C31":
        s.append((Step("sym:gcount", ["--prop", prop, "--mode", "pure"], 500 * k, timeout=900), seeds + 1))
        s.append((Step("sym:ccount", ["--prop", prop, "--mode", "pure"], 500 * k, timeout=900), seeds + 1))
        s.append((Step("sym:asan", ["--prop", prop, "--mode", "pure"], 100 * k, "san", timeout=900), seeds))
    if prop == "C30":
        for c in FUNC + ["g17-O3", "c11-O0", "c20-O2"]:
            s.append((Step(f"pure:{c}", ["--prop", prop], 24 * (10 if T else 1), timeout=900), seeds))
    return s


RULE = {
    "default": "Operands are generated in several styles (random, small integers, signed zeros, wide exponents, special values, normalized entities and versors, pairs that are equal, opposite, parallel or nearly so) and, in histories, are the values earlier operations of the run produced; every result is judged against a double precision reference of the algebra. An evaluation is one judged result; it is non-trivial when the expected result is not identically zero, and distinct by the bits of its operands and the operation.",
    "geo": "Random geometry (points, planes, lines, motions built from angles, axes and displacements, including degenerate and coincident ones) is pushed through the library and judged against a classical double precision oracle. An evaluation is one judged observation, distinct by the bits of what was observed.",
    "C07": "Arrays of generated entities and versors: every length 0..17 and longer, in place and to a separate array, guarded by canaries; every element judged against the single-element call and the reference. Distinct by operand bits and position.",
    "C19": "One log of every registered operation and geometric function on identical inputs is written by each build of the library; the comparer judges every observed coefficient of every event across builds. An evaluation is one compared event, distinct by operand bits.",
    "C20": "Exactly sized heap buffers at every float alignment, batches of exactly n elements, every operation on heap operands, plus the histories of the other monitors, under AddressSanitizer, UndefinedBehaviorSanitizer and memcheck. An evaluation is one call observed; non-trivial when it computed or moved data.",
    "C21": "Eight threads run every registered operation, shared const operands, batches on adjacent parts of shared arrays, C calls and the symbolic parser in random orders and in lockstep, under ThreadSanitizer; every result is compared bit for bit with one computed alone. An evaluation is one (operation, thread) comparison; overlap counters show how many runs had other threads inside.",
    "C24": "All pairs of basis elements of all signatures up to five dimensions and a sample of six, random pairs up to thirty dimensions, random multivectors with polynomial coefficients; integers, so comparison with the model is exact. Non-trivial when the expected value is not zero.",
    "C25": "Random polynomials (also with negative exponents, equal, opposite and cancelling pairs) with integer coefficients, judged exactly. Distinct by operands and operation.",
    "C26": "Random syntax trees written out with random spacing, redundant parentheses, permuted basis indices and decimal coefficients; value, printed form and the shell's answer are judged against an independent reader. Distinct by text.",
    "C27": "Hostile text: mutations of valid expressions, token soup, random bytes, NULs, long numbers, deep nesting, operator runs; in process under sanitizers and libFuzzer, and as whole sessions of the shell process. An evaluation is one judged input line; distinct by text.",
    "C29": "Random typed expression trees, operands written in random order and spelling, expanded by the symbolic calculator and executed by the numeric library on generated coefficients; the polynomials are evaluated in double precision at the operands' coefficients and every coefficient of the result is judged. An evaluation is one expression on one set of coefficients, distinct by text and operand bits; non-trivial when the expected result is not identically zero.",
    "C30": "Every registered operation, calls on shared operands, batches and the C calls, on families of related operands, repeated 18 times in shuffled orders, at once and after related calls, over a stack and registers filled with stale values, under six settings of the caller's floating-point control register. An evaluation is one repeated call judged (bits of the result, bytes of the operands, control words, heap blocks); distinct by task, setting, result bits and stale word.",
    "C31": "Texts (valid, hostile, variants of each other), operations of multivectors, polynomials and monomials on a pool of shared operands, and printing to streams set up at random, repeated seven times in shuffled orders over a dirtied stack. An evaluation is one repetition judged (digest of every term and of the printed text, blocks in use, operands, settings of the stream); distinct by task and text.",
}


def rule(prop):
    if prop in RULE:
        return RULE[prop]
    if prop in OPS and prop not in ("C16", "C17"):
        return RULE["default"]
    return RULE["geo"] if prop not in OPS else RULE["default"] + " " + RULE["geo"]


# ------------------------------------------------------------ known findings
def known(prop):
    """finding: property=<id> match=<regex> :: what fails"""
    r = []
    p = VERIF + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) match=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                r.append((re.compile(m.group(2)), m.group(3)))
    return r


# ---------------------------------------------------------------------- main
def c19(tier, seed):
    """write one log per build, then compare"""
    n = 300000 if tier == "thorough" else 120000
    rounds = 6 if tier == "thorough" else 1
    results, skipped = [], []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {c: ex.submit(build, f"trace:{c}") for c in C19}
        paths = {}
        for c, f in futs.items():
            try:
                paths[c] = f.result()
            except BuildError as e:
                skipped.append(str(e))
        if len(paths) < 2 or FUNC[0] not in paths:
            raise BuildError("\n".join(skipped))
        for rd in range(rounds):
            d = tempfile.mkdtemp(prefix="vftrace")
            try:
                sd = seed * 1000 + rd
                logs = {c: f"{d}/{c}" for c in paths}

                class W:
                    kind, own, timeout = "func", True, 600

                def write(c):
                    argv = [paths[c], "--mode", "write", "--seed", str(sd), "--n", str(n), "--opt", logs[c]]
                    rc, o, e, hung, w = run(argv, 900)
                    return c, argv, rc, o, e, hung

                bad = None
                for c, argv, rc, o, e, hung in ex.map(write, list(paths)):
                    if rc != 0 or not os.path.exists(logs[c]):
                        bad = (c, argv, rc, e)
                if bad:
                    c, argv, rc, e = bad
                    results.append(dict(step=Step(f"trace:{c}", [], n), seed=sd, argv=argv, rc=rc, wall=0, stats={}, ops={}, samples=[], worst=0.0,
                                        error=None if rc < 0 and rc != -9 else f"writer failed {rc}: {e[-300:]}",
                                        fails=[(f"abnormal end in configuration {c}", f"status {rc}")] if rc < 0 and rc != -9 else []))
                    continue
                st = Step(f"trace:{FUNC[0]}", ["--mode", "compare", "--opt", ",".join(logs[c] for c in paths)], n, tol=3 if "c17-simde" in paths else None, timeout=900)
                r = execute(st, sd, {f"trace:{FUNC[0]}": paths[FUNC[0]]})
                r["configs"] = list(paths)
                results.append(r)
            finally:
                shutil.rmtree(d, ignore_errors=True)
    return results, skipped


def decide(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
    skipped, results = [], []
    if prop == "C19":
        results, skipped = c19(tier, seed)
    else:
        steps = plan(prop, tier)
        if not steps:
            print(f"unknown property {prop}", file=sys.stderr)
            return 2
        names = []
        for s, _ in steps:
            for b in [s.b] + s.needs:
                if b not in names:
                    names.append(b)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = {b: ex.submit(build, b) for b in names}
            paths = {}
            for b, f in futs.items():
                try:
                    paths[b] = f.result()
                except BuildError as e:
                    skipped.append(str(e))
            todo, have = [], set()
            for i, (s, ns) in enumerate(steps):
                if all(b in paths for b in [s.b] + s.needs):
                    have.add(s.b.split(":")[0])
                    for j in range(ns):
                        todo.append((s, seed * 1000 + j * 50 + i))
            for s, _ in steps:
                # a configuration may be unavailable; a whole driver may not
                if s.b.split(":")[0] not in have:
                    raise BuildError("\n".join(skipped))
            todo.sort(key=lambda x: 0 if x[0].kind in ("vg", "san", "fuzz") else 1)
            results = list(ex.map(lambda x: execute(x[0], x[1], paths), todo))

    for m in skipped:
        print("note: configuration left out, it does not build: " + m)
    errors = [r["error"] for r in results if r["error"]]
    kf = known(prop)
    new, listed = [], set()
    for r in results:
        for op, detail in r["fails"]:
            text = f"{op}: {detail}"
            for rx, what in kf:
                if rx.search(text):
                    listed.add(what)
                    break
            else:
                new.append((r, text))
    # ---------------------------------------------------------------- evidence
    ev = sum(r["stats"].get("evaluations", 0) for r in results)
    di = sum(r["stats"].get("distinct", 0) for r in results)
    ops, extra, samples = {}, {}, []
    for r in results:
        for k, v in r["ops"].items():
            ops[k] = ops.get(k, 0) + v
        for k, v in r["stats"].items():
            if k not in ("evaluations", "distinct", "fails"):
                extra[k] = extra.get(k, 0) + v
    for i in range(4):
        for r in results:
            if i < len(r["samples"]) and len(samples) < 10:
                samples.append(r["samples"][i][:400])
    for r in results:
        if r["step"].kind == "fuzz":
            samples.append("libFuzzer: " + " ".join(r["argv"][1:]))
    evid = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": min(di, ev),
            "rule": rule(prop),
            "samples": samples or ["none"],
            "executions": [
                {"build": r["step"].b, "monitor": r["step"].kind, "seed": r["seed"], "n": r["step"].n,
                 "evaluations": r["stats"].get("evaluations", 0), "worst_error_over_tolerance": round(r["worst"], 3), "wall_s": round(r["wall"], 2)}
                for r in results
            ],
            "observations_per_operation": dict(sorted(ops.items())),
            "counters": extra,
            "configurations_left_out": skipped,
        },
        "assumptions": ["the double precision reference in /verif/harness and the compilers are right", "held on the executions listed, not beyond"],
        "violations": len(new),
        "violation_texts": [t[:600] for _, t in new[:20]],
        "wall_s": round(time.time() - t0, 2),
    }
    with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
        json.dump(evid, f, indent=1)
        f.write("\n")
    for w in sorted(listed):
        print(f"KNOWN-FINDING: property={prop} {w}")
    if new:
        r, text = new[0]
        rp = f"{VERIF}/evidence/replay/{prop}.json"
        with open(rp, "w") as f:
            json.dump({"property": prop, "build": r["step"].b, "needs": r["step"].needs, "kind": r["step"].kind, "own": r["step"].own,
                       "args": r["step"].args, "n": r["step"].n, "tol": r["step"].tol, "seed": r["seed"], "argv": r["argv"],
                       "c19": [tier, seed] if prop == "C19" else None, "violations": [t for _, t in new]}, f, indent=1)
        seen = set()
        for rr, t in new:
            k = t.split(":")[0]
            if k not in seen and len(seen) < 12:
                seen.add(k)
                print(f"  [{rr['step'].b} seed {rr['seed']}] {t[:500]}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if errors:
        for e in errors[:5]:
            print("ERROR " + e, file=sys.stderr)
        return 2
    print(f"{prop} {tier}: held on {ev} observations ({di} distinct and non-trivial) in {len(results)} executions, {time.time() - t0:.1f} s")
    return 0


def setup():
    """the tools the checks need are there"""
    missing = [t for t in ("g++", "gcc", "clang++", "clang", "valgrind") if not shutil.which(t)]
    if missing:
        print("missing: " + " ".join(missing), file=sys.stderr)
        return 1
    os.makedirs(OUT, exist_ok=True)
    return 0


def replay(path):
    j = json.load(open(path))
    if j.get("c19"):
        os.environ["VERIF_SEED"] = str(j["c19"][1])
        return decide("C19", j["c19"][0])
    os.makedirs(OUT, exist_ok=True)
    paths = {b: build(b) for b in [j["build"]] + j["needs"]}
    s = Step(j["build"], j["args"], j["n"], j["kind"], j["own"], j["tol"], j["needs"])
    r = execute(s, j["seed"], paths)
    for op, d in r["fails"]:
        print(f"{op}: {d}")
    print("reproduced" if r["fails"] else "not reproduced")
    return 1 if r["fails"] else 0


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) < 2:
        print(__doc__, file=sys.stderr)
        return 2
    if sys.argv[1] == "--setup":
        return setup()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        return decide(sys.argv[1], tier)
    except BuildError as e:
        print(f"ERROR does not build\n{e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())

"""Build the harness, run cases through the real interpreter, and have TLC decide
whether the recorded runs are behaviours of the specification."""
import json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIN = os.path.join(ROOT, "harness/target/debug/sieve-conf")
TLA = "/opt/veriftools/tla"
CP = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def build():
    env = dict(os.environ)
    env.pop("CARGO_TARGET_DIR", None)
    env.pop("RUSTFLAGS", None)
    env["CARGO_NET_OFFLINE"] = "true"
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(ROOT, "harness"), env=env,
                       capture_output=True, text=True)
    if p.returncode != 0:
        raise ToolError("harness does not build:\n" + p.stderr[-4000:])


def harness(cases, wd, timeout=600, env=None):
    """cases: list of Case. Returns list of raw result records (one or more per case).
    A case that takes the whole process down is found by bisection and recorded as a crash."""
    if not cases:
        return []
    try:
        return harness1(cases, wd, timeout, env)
    except Crash as e:
        if len(cases) == 1:
            return [{"id": cases[0].id, "run": "crash", "compile": {"ok": True, "kind": "", "arg": "", "line": 0},
                     "steps": [{"in": {"k": "?"}, "out": {"k": "crash", "why": str(e)[:300]}}],
                     "end": {"again": "none", "globals": [], "changed": False, "part": 0, "now": {"day": 0, "sec": 0}}}]
        k = len(cases) // 2
        return harness(cases[:k], wd, timeout, env) + harness(cases[k:], wd, timeout, env)


class Crash(Exception):
    pass


def harness1(cases, wd, timeout=600, env=None):
    os.makedirs(wd, exist_ok=True)
    ci, co = os.path.join(wd, "h_cases.ndjson"), os.path.join(wd, "h_out.ndjson")
    with open(ci, "w") as f:
        for c in cases:
            f.write(json.dumps(c.h, ensure_ascii=False) + "\n")
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run([BIN, ci, co], capture_output=True, text=True, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        raise Crash("timed out")
    if p.returncode != 0:
        raise Crash("exit status %d: %s" % (p.returncode, p.stderr[-3000:]))
    return [json.loads(l) for l in open(co)]


def tlc(module, wd, files=(), workers=8, heap="6g", timeout=800, cfg=None, extra=()):
    for f in os.listdir(os.path.join(ROOT, "spec")):
        shutil.copy(os.path.join(ROOT, "spec", f), wd)
    if not os.path.exists(os.path.join(wd, "chars.ndjson")):
        subprocess.run([sys.executable, os.path.join(ROOT, "tools/mkchars.py"), os.path.join(wd, "chars.ndjson")], check=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx" + heap, "-Djava.io.tmpdir=" + wd, "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
           "-Dtlc2.TLC.stopAfter=%d" % timeout, "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(wd, "states"),
           "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg", *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=wd, capture_output=True, text=True, timeout=timeout + 30)
    except subprocess.TimeoutExpired:
        return "TLC_TIMEOUT"
    shutil.rmtree(os.path.join(wd, "states"), ignore_errors=True)
    return p.stdout + p.stderr


def stats(out):
    m = re.findall(r"(\d+) states generated.*?, (\d+) distinct states found", out)
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    return {"states": int(m[-1][1]) if m else 0, "generated": int(m[-1][0]) if m else 0, "depth": int(d.group(1)) if d else 0}


class Verdict:
    def __init__(self):
        self.accepted = set()
        self.notes = {}     # run index -> list of diagnostics
        self.inv = {}       # run index -> set of invariant names
        self.skipped = set()
        self.stats = {"states": 0, "generated": 0, "depth": 0}


def validate(cases, runs, wd, workers=8, heap="6g", timeout=800, chunk=4000, ideal=False):
    """runs: list of (case index from 0, record). Which runs does the specification allow?"""
    v = Verdict()
    odd = []        # runs the specification cannot even be evaluated on
    todo = [list(range(b, min(b + chunk, len(runs)))) for b in range(0, len(runs), chunk)]
    while todo:
        part = todo.pop(0)
        out = validate1(cases, [runs[i] for i in part], wd, workers, heap, timeout, ideal)
        s = stats(out)
        for k in ("states", "generated"):
            v.stats[k] += s[k]
        v.stats["depth"] = max(v.stats["depth"], s["depth"])
        if "Model checking completed. No error has been found." not in out:
            why = "\n".join(re.findall(r"Error: .*(?:\n(?!Error|State |/).*){0,12}", out))[:3000]
            open(os.path.join(wd, "tlc_error.txt"), "w").write(out)
            if "TLC_TIMEOUT" in out or "OutOfMemory" in out or not why:
                raise ToolError("TLC failed:\n" + why + out[-500:])
            if len(part) > 1:
                k = len(part) // 2
                todo[:0] = [part[:k], part[k:]]
            else:
                odd.append(part[0])
                v.notes.setdefault(part[0], []).append(("EVAL", 0, why[:1500]))
                if len(odd) >= 3:
                    # enough: leave the rest of the runs undecided
                    v.skipped |= {i for t in todo for i in t}
                    break
            continue
        for m in re.finditer(r'^"@(\w+) (\d+) (\d+) (.*)"$', out, re.M):
            i = part[int(m.group(2)) - 1]
            if m.group(1) == "ACCEPT":
                v.accepted.add(i)
            elif m.group(1) == "INV":
                v.inv.setdefault(i, set()).add(m.group(4))
            else:
                v.notes.setdefault(i, []).append((m.group(1), int(m.group(3)), m.group(4).replace('\\"', '"')[:1500]))
        if os.environ.get("KEEPOUT"): open(os.path.join(wd, "tlc_out.txt"), "w").write(out)
    return v


def validate1(cases, part, wd, workers, heap, timeout, ideal):
    used = sorted({c for c, _ in part})
    pos = {c: i + 1 for i, c in enumerate(used)}
    d = os.path.join(wd, "tlc")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(os.path.join(d, "cases.ndjson"), "w") as f:
        for c in used:
            f.write(json.dumps(cases[c].s, ensure_ascii=False) + "\n")
    with open(os.path.join(d, "runs.ndjson"), "w") as f:
        for c, r in part:
            f.write(json.dumps({"ci": pos[c], "steps": r["steps"], "end": r["end"]}, ensure_ascii=False) + "\n")
    out = tlc("SieveTrace", d, workers=workers, heap=heap, timeout=timeout, cfg="SieveIdeal" if ideal else None)
    shutil.rmtree(d, ignore_errors=True)
    return out

"""Known findings and replays."""
import json, os, re
from . import run

FILE = os.path.join(run.ROOT, "KNOWN_FINDINGS.txt")


class Raw:
    """a stored case"""

    def __init__(self, h, s):
        self.h, self.s, self.id, self.group = h, s, h["id"], None


def findings(pid):
    out = []
    if os.path.exists(FILE):
        for l in open(FILE):
            m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def check(pid, wd):
    """cases listed as known findings: report the ones that still fail"""
    fs = findings(pid)
    if not fs:
        return []
    stored = [json.load(open(os.path.join(run.ROOT, f))) for f, _ in fs]
    cases = [Raw(d["h"], d["s"]) for d in stored]
    recs = run.harness(cases, wd)
    idx = {c.id: i for i, c in enumerate(cases)}
    runs = [(idx[r["id"]], r) for r in recs]
    v = run.validate(cases, runs, wd, workers=2, ideal=True)
    failing = {c for i, (c, r) in enumerate(runs) if i not in v.accepted}
    return [fs[c] for c in sorted(failing)]


def replay_compile(d, wd):
    from . import comp
    h = d["case"]["h"]
    c = comp.Src("replay", bytes.fromhex(h["hex"]), h["o"], h["via"])
    c.h.update(h)
    c.big = len(h["hex"]) > 20000
    print(h["src"])
    print("-- recorded reason:", d["why"])
    viol, st = comp.judge([c], wd)
    print(st)
    for _, why, r in viol:
        print("REJECTED:", why)
        print(json.dumps(r, ensure_ascii=False)[:2000])
    return 1 if viol else 0


def replay(path):
    d = json.load(open(path))
    run.build()
    wd = os.path.join(run.ROOT, "work", "replay-run")
    os.makedirs(wd, exist_ok=True)
    if d["case"].get("s") is None:
        return replay_compile(d, wd)
    cases = [Raw(d["case"]["h"], d["case"]["s"])]
    send = cases
    if "group" in d:
        g = d["group"]
        cases = [Raw(h, s) for h, s in zip(g["h"]["group"], g["s"])]
        send = [Raw(g["h"], None)]
    idx = {c.id: i for i, c in enumerate(cases)}
    idx[send[0].id] = 0
    c = cases[0]
    print(c.h["src"])
    for x in c.h.get("inc", []):
        print("-- script", x["loc"], x["name"])
        print(x["src"])
    print("-- message\n" + c.h["message"])
    print("-- recorded reason:", d["why"])
    bad = False
    recs = run.harness(send, wd)
    for r in recs:
        print(r["id"], "run", r["run"], r["compile"])
        for s in r["steps"]:
            print("  ", json.dumps(s, ensure_ascii=False))
        print("   end", json.dumps(r["end"], ensure_ascii=False))
    good = [r for r in recs if r["compile"]["ok"]]
    v = run.validate(cases, [(idx[r["id"]], r) for r in good], wd, workers=2)
    for i, r in enumerate(good):
        ok = i in v.accepted
        bad |= not ok
        print(r["id"], "run", r["run"], "accepted by the specification" if ok else "REJECTED", v.notes.get(i), v.inv.get(i, ""))
    return 1 if bad or len(good) < len(recs) else 0

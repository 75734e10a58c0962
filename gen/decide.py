"""Decide one property: generate its cases, enumerate behaviours of the
specification, run the cases on the real code, and let TLC validate every run."""
import json, os, re, shutil, time
from . import run, fam, known, comp, text

MAXREPORT = 5


def write_replay(pid, n, c, why, rec):
    d = os.path.join(run.ROOT, "work", "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (pid, n))
    with open(p, "w") as f:
        d = {"property": pid, "why": why, "case": {"h": c.h, "s": c.s}, "run": rec}
        if getattr(c, "group", None):
            d["group"] = {"h": c.group.h, "s": [m.s for m in c.group.members]}
        json.dump(d, f, ensure_ascii=False, indent=1)
    return p


def model_check(cases, wd, timeout=300):
    """all behaviours of the specification for these cases -> {case index: set of answer vectors}, stats"""
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    with open(os.path.join(wd, "cases.ndjson"), "w") as f:
        for c in cases:
            f.write(json.dumps(c.s, ensure_ascii=False) + "\n")
    out = run.tlc("SieveMC", wd, timeout=timeout)
    if "Model checking completed. No error has been found." not in out:
        open(os.path.join(run.ROOT, "work", "mc_error.txt"), "w").write(out)
        raise run.ToolError("model checking failed:\n" + "\n".join(re.findall(r"Error: .*|\"@BROKEN.*", out))[:2000])
    beh = {}
    for m in re.finditer(r'^"@BEH (\d+) (\S+)"$', out, re.M):
        beh.setdefault(int(m.group(1)) - 1, set()).add(m.group(2))
    shutil.rmtree(wd, ignore_errors=True)
    return beh, run.stats(out)


def decide(pid, tier, seed):
    thorough = tier == "thorough"
    wd = os.path.join(run.ROOT, "work", "run-%s-%d" % (pid, os.getpid()))
    os.makedirs(wd, exist_ok=True)
    try:
        return decide_in(pid, thorough, seed, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def decide_in(pid, thorough, seed, wd):
    run.build()
    cases = []
    fams = []
    for f, q, t in fam.FAMS[pid] if pid in fam.FAMS else text.FAMS:
        cs = f(seed, t if thorough else q)
        fams.append({"family": f.__name__, "cases": len(cs)})
        cases += cs
    cases, reading = text.fill(cases, wd)
    groups = []
    for i, c in enumerate(cases):
        c.h["id"] = c.s["id"] = c.id = "%s#%d" % (c.id, i)
    for c in cases:
        if c.group and c.group not in groups:
            c.group.rename()
            groups.append(c.group)
    viol = []       # (case, why, record)

    # behaviours of the specification
    mc = [i for i, c in enumerate(cases) if c.h.get("dfs")][: 400 if thorough else 60]
    beh, mst = {}, {"states": 0, "generated": 0}
    if mc:
        b, mst = model_check([cases[i] for i in mc], os.path.join(wd, "mc"))
        beh = {mc[k]: v for k, v in b.items()}

    # behaviours of the code
    recs = run.harness([c for c in cases if not c.group] + groups, wd)
    idx = {c.id: i for i, c in enumerate(cases)}
    idx.update({g.id: idx[g.members[0].id] for g in groups})
    runs, vectors, refused = [], {}, 0
    for r in recs:
        i = idx[r["id"]]
        if not r["compile"]["ok"] and getattr(cases[i], "maybe", False) and r["compile"].get("kind") != "panic":
            refused += 1
            continue
        if not r["compile"]["ok"]:
            viol.append((cases[i], "the compiler rejects a well-formed script: %s %s at line %s" % (r["compile"].get("kind"), r["compile"].get("arg"), r["compile"].get("line")), r))
            continue
        runs.append((i, r))
        vectors.setdefault(i, set()).add(r["run"])
    bad_compile = {id(c) for c, _, _ in viol}
    for i, vs in beh.items():
        # under a tight instruction limit the specification may end a run early or
        # go on (the exact count is not part of the property): one way is enough
        tight = (cases[i].h.get("runtime") or {}).get("cpu_limit", 5000) < 1000
        got = vectors.get(i, set())
        if id(cases[i]) not in bad_compile and (not got or not got <= vs if tight else got != vs):
            viol.append((cases[i], "the code has the behaviours %s, the specification %s" % (sorted(got), sorted(vs)), None))
    v = run.validate(cases, runs, wd, timeout=3000 if thorough else 700)
    for i, (c, r) in enumerate(runs):
        if i in v.skipped:
            continue
        if i not in v.accepted:
            viol.append((cases[c], "not a behaviour of the specification: %s" % (v.notes.get(i),), r))
        elif i in v.inv:
            viol.append((cases[c], "breaks %s" % sorted(v.inv[i]), r))
    extra = fam.EXTRA.get(pid)
    ex = {}
    if extra:
        more, ex = extra(seed, thorough, wd)
        viol += more
    for f, what in known.check(pid, wd):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, what, f))
    for n, (c, why, r) in enumerate(viol[:MAXREPORT]):
        p = write_replay(pid, n, c, why, r)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  %s: %s" % (c.id, why[:600]))
    if len(viol) > MAXREPORT:
        print("  ... and %d more" % (len(viol) - MAXREPORT))
    good = [r for i, r in runs]
    smp = []
    for k in range(0, len(runs), max(1, len(runs) // 3)):
        i, r = runs[k]
        smp.append({"case": cases[i].id, "script": cases[i].h["src"][:600], "exchanges": r["steps"][:8]})
    ev = {"level": "model_checking", "violations": len(viol),
          "coverage": {"states": v.stats["states"] + mst["states"], "transitions": v.stats["generated"] + mst["generated"],
                       "traces_validated_against_impl": len(v.accepted), "runs": len(good), "cases": len(cases), "families": fams,
                       "exchanges_validated": sum(len(r["steps"]) for r in good),
                       "model_behaviours_enumerated": sum(len(x) for x in beh.values()), "model_cases": len(mc), "samples": smp[:3]},
          "assumptions": ["the generator's printed script and its abstract form mean the same", "mail-parser parses the generated messages as constructed"]}
    if reading:
        ev["coverage"]["states"] += reading["states"]
        ev["coverage"]["transitions"] += reading["generated"]
        ev["coverage"]["reading"] = dict(reading, refused=refused)
        ev["assumptions"] = ev["assumptions"][1:]
    if "compile" in ex:
        ev["coverage"]["states"] += ex["compile"]["states"]
        ev["coverage"]["transitions"] += ex["compile"]["generated"]
        ev["coverage"]["traces_validated_against_impl"] += ex["compile"]["sources"]
    ev["coverage"].update(ex)
    print("%s: %d cases, %d runs, %d accepted, %d states" % (pid, len(cases), len(runs), len(v.accepted), ev["coverage"]["states"]))
    return not viol, ev

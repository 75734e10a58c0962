#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]      decide one property
   check.py --setup                                            build the harness
   check.py --replay FILE                                      show one recorded violation again"""
import json, os, shutil, sys, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from gen import run, fam, known  # noqa: E402


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return known.replay(a[1])
    if a and a[0] == "--setup":
        run.build()
        return 0
    pid = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(a[a.index("--seed") + 1] if "--seed" in a else os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        from gen import decide
        ok, ev = decide.decide(pid, tier, seed)
    except run.ToolError as e:
        print("ERROR: %s" % e)
        return 2
    ev.update(property=pid, tier=tier, seed=seed, wall_s=round(time.time() - t0, 1))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return 0 if ok else 1


sys.exit(main())

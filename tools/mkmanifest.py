"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P21 P22 P23 P24 P25 P26 P27".split()
TECH = "TLA+ specification model-checked with TLC; recorded runs of the real interpreter validated against it (trace checking)"
NOTE = ("Every behaviour of the specification for the enumerated scripts satisfies the property (TLC), and every recorded run of the "
        "real interpreter on generated scripts, messages and host answers is a behaviour of the specification. Bounded by the generated "
        "cases; trusts the generator's printing of scripts and the description of generated messages.")
SPECIAL = {
 "P21": "Scripts of every family of cases, serialised and deserialised (serde, rkyv, or both in a row) before they are executed: every recorded run must still be the behaviour the specification gives the original script. Bounded by the generated scripts.",
 "P22": "The specification's executions share nothing; two to four real executions that share one runtime and one set of compiled scripts are run one after another, advanced alternately in random orders, in every order of their first three calls, and in parallel threads, and each must be a behaviour of the specification on its own.",
 "P27": "The scripts of this check are texts; what they mean is read off their octets by the specification (Reading.tla over Lexer.tla: escapes, dot-stuffed blocks, encoded characters, variable references, numbers and their multipliers, comments, case, tags, lists, tests, blocks), and the recorded runs of the real interpreter must be behaviours of the program read. The sub-language read is that of Reading.tla; texts outside it or left open are skipped and counted. Bounded by the generated texts.",
}
COMP = (" The compiler is decided by a second specification (Lexer.tla, Compile.tla): a walk over the tokens of a source given as octets that says which "
        "sources are accepted, and else for which reasons and on which lines they are refused; the compiler's verdicts on generated sources (every "
        "argument of every command right, missing, repeated, wrong, without its capability; block structures and limits at their edges; mutated, "
        "random and very large sources) must be among the specification's. Readings that RFC 5228 leaves open are left open.")
for x in ("P19", "P20", "P23"):
    SPECIAL[x] = NOTE + COMP
NA = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i, "technique": TECH,
                       "level": "model_checking", "level_note": SPECIAL.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, "machinery for this property is not finished yet; not claimed")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness uses the public API. Repairs in /repo are the commits starting with fix:, listed in KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

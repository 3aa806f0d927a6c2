"""Runner: one property -> exit status, VIOLATION / KNOWN-FINDING lines, evidence."""
import json
import os
import sys
import time

sys.setrecursionlimit(20000)

from .model import AnalysisBroken, REPO
from . import core
from . import rules  # noqa: F401  (registers the rules)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(prop):
    """-> {key: text} of recorded, unrepaired defects of this property."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property=%s " % prop):
                    rest = line.split(" ", 2)[2]
                    key, _, text = rest.partition(" :: ")
                    out[key.strip()] = text.strip()
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    started = time.time()
    replay_dir = os.path.join(VERIF, "evidence", "replay")
    try:
        findings, records = core.run_rules(prop)
        if not records:
            raise AnalysisBroken("no rules for %s" % prop)
    except AnalysisBroken as err:
        print("%s: no answer: %s" % (prop, err), file=sys.stderr)
        return 2
    known = known_findings(prop)
    bad = []
    for f in findings:
        if f.key in known:
            continue
        bad.append(f)
    present = set(f.key for f in findings)
    for key, text in known.items():
        if key in present:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, text))
    for r in records:
        print("%s %-24s %4d obligations, %5d paths, %2d functions, %d findings" % (
            prop, r["rule"], r["obligations"], r["paths"], len(r["functions"]), r["findings"]))
    if bad:
        os.makedirs(replay_dir, exist_ok=True)
        for n, f in enumerate(bad):
            rel = os.path.join("evidence", "replay", "%s-%d.txt" % (prop, n))
            with open(os.path.join(VERIF, rel), "w") as out:
                out.write("property %s\nrule %s\nconstruct %s\nlocation %s\n%s\n\npath:\n" % (
                    prop, f.rule, f.construct, f.loc, f.message))
                for t in f.trace:
                    out.write("  " + t + "\n")
            print("  %s %s: %s [%s]" % (f.loc, f.construct, f.message, f.rule))
            for t in f.trace:
                print("      " + t)
            print("VIOLATION property=%s replay=%s" % (prop, os.path.join(VERIF, rel)))
    evidence(prop, tier, findings, bad, records, time.time() - started)
    return 1 if bad else 0


def evidence(prop, tier, findings, bad, records, wall):
    obligations = sum(r["obligations"] for r in records)
    funcs = sorted(set(q for r in records for q in r["functions"]))
    paths = sum(r["paths"] for r in records)
    data = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": {
            "explanation": "static analysis of the current source: %d rules decided %d obligations on %d abstract paths "
                           "of %d functions; every path of each named function is covered (loops by one representative "
                           "iteration per loop state)" % (len(records), obligations, paths, len(funcs)),
            "obligations": obligations, "paths": paths, "functions": funcs,
            "rules": records,
            "reported": [{"rule": f.rule, "construct": f.construct, "message": f.message, "location": f.loc} for f in bad],
        },
        "wall_s": round(wall, 3),
        "violations": len(bad),
        "assumptions": [
            "Python semantics of the constructs the engine models; no monkey patching of the package at run time",
            "no exception other than the ones a surrounding handler names is modelled inside try blocks",
        ],
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(data, f, indent=1, sort_keys=True, default=str)
        f.write("\n")

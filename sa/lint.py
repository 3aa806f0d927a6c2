"""python3 -m sa.lint [rule or property...]: runs rules and prints their findings (development)."""
import os, sys, time
sys.setrecursionlimit(20000)
from . import core, rules
from .model import AnalysisBroken

def brief():
    try:
        ctx = core.Ctx()
    except AnalysisBroken as e:
        print("BROKEN", e)
        return
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    for r in core.RULES:
        if names and not any(a in r.name or a in r.props or r.fn.__module__.endswith("." + a) for a in names):
            continue
        ctx.rule, ctx.obligations = r, 0
        n = len(ctx.findings)
        try:
            r.fn(ctx)
        except Exception as e:
            print("BROKEN", r.name, type(e).__name__, e)
            continue
        if ctx.obligations < r.least and len(ctx.findings) == n:
            print("BROKEN", r.name, "below floor")
    known = set()
    for l in open(os.path.join(os.path.dirname(__file__), "..", "known_findings.txt")):
        if l.startswith("finding:"):
            known.add(tuple(l.split(" :: ")[0].split(" ", 3)[2:4]))
    for f in ctx.findings:
        if (f.rule, f.construct) in known:
            continue
        print("FOUND", f.rule, f.construct, f.message, f.loc)

def main():
    if "--brief" in sys.argv:
        return brief()
    ctx = core.Ctx()
    for r in core.RULES:
        if len(sys.argv) > 1 and not any(a in r.name or a in r.props for a in sys.argv[1:]):
            continue
        ctx.rule = r
        ctx.obligations = 0
        n = len(ctx.findings)
        t = time.time()
        r.fn(ctx)
        print("%-24s %4d obligations %3d findings %.1fs%s" % (r.name, ctx.obligations, len(ctx.findings) - n, time.time() - t,
              "  BELOW FLOOR" if ctx.obligations < r.least else ""))
        for f in ctx.findings[n:]:
            print("   ", f.loc, f.construct, f.message)
            for x in f.trace:
                print("         ", x)

main()

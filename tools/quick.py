#!/usr/bin/env python3
"""quick.py FILE...: applies each edit of a plants list to a scratch copy and prints which rules report it (no demo)."""
import os, sys, subprocess, shutil, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(p):
    d = tempfile.mkdtemp(prefix="quick")
    try:
        shutil.copytree("/repo/agentspeak", d + "/repo/agentspeak", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree("/repo/tests", d + "/repo/tests", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree("/repo/examples", d + "/repo/examples")
        for f, old, new in p["edits"]:
            q = d + "/repo/" + f
            s = open(q).read()
            if s.count(old) < 1:
                return p["id"], "EDIT DOES NOT APPLY %s" % old[:60]
            if s.count(old) > 1:
                return p["id"], "EDIT AMBIGUOUS %s" % old[:60]
            open(q, "w").write(s.replace(old, new))
        x = subprocess.run([sys.executable, "-m", "sa.lint", "--brief"], cwd=HERE,
                           env=dict(os.environ, VERIF_REPO=d + "/repo"), capture_output=True, text=True, timeout=900)
        hits = sorted({l.split()[1] for l in x.stdout.splitlines() if l.startswith("FOUND")})
        broken = [l[:150] for l in (x.stdout + x.stderr).splitlines() if l.startswith("BROKEN")]
        if x.returncode not in (0, 1):
            return p["id"], "CRASH " + x.stderr[-200:]
        if hits:
            return p["id"], "caught " + " ".join(hits) + (" BROKEN %s" % broken if broken else "")
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "tests"], cwd=d + "/repo", env=dict(os.environ, PYTHONPATH=d + "/repo"),
                           capture_output=True, text=True, timeout=300)
        return p["id"], "MISSED %s (tests %s)" % (broken, "pass" if t.returncode == 0 else "FAIL " + t.stdout.strip().splitlines()[-1][:80])
    finally:
        shutil.rmtree(d)


def main():
    ps = []
    for f in sys.argv[1:]:
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        ps += ns["plants"]
    with cf.ThreadPoolExecutor(7) as ex:
        for i, r in ex.map(one, ps):
            print("%-24s %s" % (i, r), flush=True)


main()

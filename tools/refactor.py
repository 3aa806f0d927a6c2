"""Development tool: edits that keep the behaviour (tools/refactors/*.py), on which every rule has to stay quiet.
python3 tools/refactor.py [NAME...] [--rules=a,b] [--tests]"""
import glob, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [x for a in sys.argv if a.startswith("--rules=") for x in a[8:].split(",")]


def work(r):
    d = tempfile.mkdtemp(prefix="refac")
    try:
        shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git", "__pycache__"), symlinks=True)
        for f, old, new in r["edits"]:
            p = os.path.join(d, "repo", "agentspeak", f)
            s = open(p).read()
            if s.count(old) < 1:
                return r["id"], ["NO MATCH %r" % old[:60]]
            open(p, "w").write(s.replace(old, new))
            compile(open(p).read(), p, "exec")
        out = []
        x = subprocess.run([sys.executable, "-m", "sa.lint", "--brief"] + RULES, cwd=HERE, env=dict(os.environ, VERIF_REPO=d + "/repo"), capture_output=True, text=True)
        out += [l for l in x.stdout.split("\n") + x.stderr.split("\n")[-3:] if l.strip()]
        if "--tests" in sys.argv:
            t = subprocess.run(["timeout", "60", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider", "tests"], cwd=d + "/repo",
                               env=dict(os.environ, PYTHONPATH=d + "/repo"), capture_output=True, text=True)
            if t.returncode:
                out.append("TESTS FAIL " + t.stdout[-300:])
        return r["id"], out
    finally:
        shutil.rmtree(d)


names = [a for a in sys.argv[1:] if not a.startswith("-")]
todo = [r for f in sorted(glob.glob(os.path.join(HERE, "tools/refactors/*.py"))) for r in runpy.run_path(f)["R"] if not names or any(n in r["id"] or n in f for n in names)]
with ProcessPoolExecutor(8) as ex:
    bad = 0
    for i, out in ex.map(work, todo):
        if out:
            bad += 1
            print(i)
            for l in out[:6]:
                print("   ", l[:220])
print("%d refactorings, %d not quiet" % (len(todo), bad))

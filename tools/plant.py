"""Development tool: build seeded/<id> from a plant description and confirm it.
python3 tools/plant.py FILE... ; each FILE is Python that sets plants = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
A plant is kept when it builds, the tests pass and the demo tells the two trees apart; whether the checks see it is printed."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))

PRELUDE = '''import contextlib, io, os, sys
sys.path.insert(0, os.getcwd())
import agentspeak, agentspeak.runtime, agentspeak.stdlib, agentspeak.ext_stdlib, agentspeak.lexer, agentspeak.parser
assert os.path.dirname(os.path.dirname(os.path.abspath(agentspeak.__file__))) == os.path.realpath(os.getcwd()), agentspeak.__file__


def run(text, actions=agentspeak.ext_stdlib.actions, name="demo"):
    """What a program prints, line by line; an error ends the list with its class."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try:
            env = agentspeak.runtime.Environment()
            env.build_agent(agentspeak.StringSource(name + ".asl", text), actions)
            env.run()
        except Exception as err:
            print(type(err).__name__)
    return out.getvalue().split("\\n")[:-1]


def parse(text, name="<demo>"):
    log = agentspeak.Log(agentspeak.get_logger("demo"))
    tree = agentspeak.parser.parse(name, agentspeak.lexer.TokenStream(agentspeak.StringSource(name, text), log), log)
    log.throw()
    return tree


def expect(got, want):
    if got != want:
        print("expected %r\\ngot      %r" % (want, got))
        sys.exit(1)


'''
TESTS = r"""ulimit -v 4000000
timeout -k 5 100 /opt/venv/bin/python -m pytest -q -x --no-header -p no:cacheprovider tests || exit 1
for f in $(sed -nE 's/^[[:space:]]+(commands[[:space:]]*=[[:space:]]*)?python -m agentspeak (tests\/asl\/[^[:space:]]+\.asl)[[:space:]]*$/\2/p' tox.ini | sort -u); do
    timeout -k 5 30 /opt/venv/bin/python -m agentspeak "$f" </dev/null >/dev/null 2>&1 || { echo FAIL $f; exit 1; }
done
"""


def one(p):
    d = tempfile.mkdtemp(prefix="plant")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    try:
        repo = d + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        for rel, old, new in p["edits"]:
            f = os.path.join(repo, rel)
            s = open(f).read()
            if s.count(old) != 1:
                return p["id"], "BAD: %d matches for %r" % (s.count(old), old[:60])
            open(f, "w").write(s.replace(old, new))
        patch = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True, check=True).stdout
        base = subprocess.run(["git", "-C", "/repo", "diff", "fda036b", "HEAD", "--stat"], capture_output=True, text=True)
        # the touched lines must be lines of the original repository
        orig = {}
        for rel, old, new in p["edits"]:
            orig[rel] = set(subprocess.run(["git", "-C", "/repo", "show", "fda036b:" + rel], capture_output=True, text=True).stdout.split("\n"))
            gone = [l[1:] for l in patch.split("\n") if l.startswith("-") and not l.startswith("---")]
        note = "" if any(any(g in o for o in orig.values()) for g in gone) or not gone else " [removes only lines of own commits]"
        t = subprocess.run(["bash", "-c", TESTS], cwd=repo, stdin=subprocess.DEVNULL, env=dict(env, PYTHONPATH=repo), capture_output=True, text=True, timeout=250)
        if t.returncode:
            return p["id"], "TESTS FAIL " + t.stdout[-300:]
        out = os.path.join(d, "seed")
        os.makedirs(out)
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec timeout -k 5 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(PRELUDE + p["demo"].strip("\n") + "\n")
        open(out + "/patch.diff", "w").write(patch)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        a = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True, timeout=200, env=env)
        if a.returncode:
            return p["id"], "DEMO FAILS CLEAN " + (a.stdout + a.stderr)[-600:]
        b = subprocess.run(["bash", out + "/demo.sh"], cwd=repo, capture_output=True, text=True, timeout=200, env=env)
        if not b.returncode:
            return p["id"], "DEMO PASSES PATCHED " + (b.stdout + b.stderr)[-300:]
        r = subprocess.run([sys.executable, "-m", "sa.lint", "--brief"], cwd=HERE, env=dict(env, VERIF_REPO=repo), capture_output=True, text=True, timeout=300)
        c = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, '.'); from sa import core, rules; f, r = core.run_rules(%r); print('\\n'.join(x.rule + ' ' + x.construct for x in f))" % p["property"]],
                           cwd=HERE, env=dict(env, VERIF_REPO=repo), capture_output=True, text=True, timeout=300)
        dest = os.path.join(HERE, "seeded", p["id"])
        if os.path.exists(dest):
            shutil.rmtree(dest)
        shutil.copytree(out, dest)
        return p["id"], ("kept; own check: %s; all: %s | demo: %s" % (
            c.stdout.split("\n")[:2] if c.stdout.strip() else "MISSED " + c.stderr[-150:], [l.split(" ")[1] for l in r.stdout.split("\n") if l.startswith(("FOUND", "BROKEN"))][:3],
            (b.stdout + b.stderr).strip().split("\n")[-1][:100])) + note
    finally:
        shutil.rmtree(d)


def main():
    ps = []
    for f in sys.argv[1:]:
        ns = {}
        exec(open(f).read(), ns)
        ps += ns["plants"]
    with ProcessPoolExecutor(6) as ex:
        for k, r in ex.map(one, ps):
            print(k, r, flush=True)

if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""onone.py FILE ID RULE...: what the given rules say about one plant (in a scratch copy left at /tmp/one)."""
import os, shutil, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
p = next(x for x in ns["plants"] if x["id"] == sys.argv[2])
shutil.rmtree("/tmp/one", ignore_errors=True)
shutil.copytree("/repo/agentspeak", "/tmp/one/agentspeak")
shutil.copytree("/repo/examples", "/tmp/one/examples")
for f, o, n in p["edits"]:
    s = open("/tmp/one/" + f).read()
    open("/tmp/one/" + f, "w").write(s.replace(o, n))
subprocess.run([sys.executable, "-m", "sa.lint"] + sys.argv[3:], env=dict(os.environ, VERIF_REPO="/tmp/one"), cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

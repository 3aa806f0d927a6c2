"""Runs all rules against every planted bug and renders DESIGN.md (from tools/DESIGN.in.md) and RULES.md.
python3 tools/seeds.py [--run]: --run analyses the bugs anew (otherwise only those that are not in tools/caught.json)."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TABLE = os.path.join(HERE, "tools", "caught.json")


def analyse(d):
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        shutil.copytree("/repo", tmp + "/repo", ignore=shutil.ignore_patterns(".git"))
        subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + tmp + "/repo", os.path.join(d, "patch.diff")], check=True, cwd="/")
        r = subprocess.run([sys.executable, "-m", "sa.lint", "--brief"], cwd=HERE, env=dict(os.environ, VERIF_REPO=tmp + "/repo"),
                           capture_output=True, text=True)
        return sorted({l.split()[1] for l in r.stdout.split("\n") if l.strip()})
    finally:
        shutil.rmtree(tmp)


def main():
    old = json.load(open(TABLE)) if os.path.exists(TABLE) else {}
    new = {}
    dirs = sorted(glob.glob(os.path.join(HERE, "seeded", "*")))
    todo = [d for d in dirs if "--run" in sys.argv or os.path.basename(d) not in old]
    with ThreadPoolExecutor(6) as ex:
        done = dict(zip(todo, ex.map(analyse, todo)))
    rows = ["| planted bug | property | what it needs | rules that report it | first missed |", "|---|---|---|---|---|"]
    for d in dirs:
        b = os.path.basename(d)
        rules = done.get(d, old.get(b, {}).get("rules"))
        meta = json.load(open(os.path.join(d, "meta.json")))
        new[b] = {"rules": rules, "missed": old.get(b, {}).get("missed", d in done and not rules)}
        rows.append("| %s | %s | %s | %s | %s |" % (b, meta["property"], meta["needs"].replace("|", "/"), ", ".join(rules) or "none", "yes" if new[b]["missed"] else ""))
    json.dump(new, open(TABLE, "w"), indent=1, sort_keys=True)
    fixed = sum(l.startswith("fixed:") for l in open(os.path.join(HERE, "known_findings.txt")))
    text = open(os.path.join(HERE, "tools", "DESIGN.in.md")).read().replace("@FIXED@", str(fixed)).replace("@SEEDED@", "\n".join(rows))
    open(os.path.join(HERE, "DESIGN.md"), "w").write(text)
    subprocess.run([sys.executable, os.path.join(HERE, "tools", "rulelist.py")], check=True)
    for b in new:
        print(b, new[b])


main()

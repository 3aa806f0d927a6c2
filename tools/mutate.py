"""Development tool: syntactic mutants of the package, which of them the rules see, and which of the others the tests see.
python3 tools/mutate.py OUT.jsonl MODULE [REGEX of function names] ; never used by a check."""
import ast, copy, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {"left": "right", "right": "left", "success": "failure", "failure": "success", "head": "tail", "tail": "head",
        "if_body": "else_body", "else_body": "if_body", "scope": "stack", "stack": "scope", "args": "annots", "annots": "args",
        "terms": "annotations", "annotations": "terms", "append": "appendleft", "popleft": "pop", "pop": "popleft",
        "beliefs": "goals", "goals": "beliefs", "rules": "plans", "plans": "rules", "unify": "unify_annotated",
        "unify_annotated": "unify", "freeze": "grounded", "grounded": "freeze", "evaluate": "deref",
        "addition": "removal", "removal": "addition", "belief": "achievement", "achievement": "test", "min": "max", "max": "min",
        "trigger": "goal_type", "goal_type": "trigger", "calling_intention": "intention", "agent": "receiver",
        "asl_str": "asl_repr", "asl_repr": "asl_str", "is_number": "is_string", "is_string": "is_number", "loc": "end_loc",
        "error": "warning", "until": "event", "event": "until"}
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
       ast.GtE: [ast.Gt], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}


def sites(tree):
    """(path-independent index, description, function applying the mutation to the n-th node)"""
    out = []
    nodes = list(ast.walk(tree))
    fn = {}
    for n in nodes:
        if isinstance(n, ast.FunctionDef):
            for k in ast.walk(n):
                fn[k] = n.name if k not in fn or True else fn[k]
        if isinstance(n, ast.ClassDef):
            for k in ast.walk(n):
                k._cls = n.name
    for i, n in enumerate(nodes):
        w = getattr(n, "_cls", "") + "." + fn.get(n, "<module>")
        def add(desc, f):
            out.append((i, w, getattr(n, "lineno", 0), desc, f))
        if isinstance(n, ast.Compare):
            for c in CMP.get(type(n.ops[0]), []):
                add("cmp %s" % c.__name__, lambda m, c=c: m.ops.__setitem__(0, c()))
        if isinstance(n, ast.BoolOp):
            add("and/or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for j in range(len(n.values)):
                add("drop operand %d" % j, lambda m, j=j: m.values.__delitem__(j))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add("binop", lambda m: setattr(m, "op", BIN[type(m.op)]()))
            add("swap operands", lambda m: (lambda l, r: (setattr(m, "left", r), setattr(m, "right", l)))(m.left, m.right))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add("drop not", lambda m: setattr(m, "op", ast.UAdd()) if False else (setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand))))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add("negate", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test)))
            if not isinstance(n, ast.While):
                add("always", lambda m: setattr(m, "test", ast.Constant(True)))
            add("never", lambda m: setattr(m, "test", ast.Constant(False)))
        if isinstance(n, ast.If) and n.orelse:
            add("drop else", lambda m: setattr(m, "orelse", []))
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add("bool", lambda m: setattr(m, "value", not m.value))
            elif isinstance(n.value, (int, float)):
                add("+1", lambda m: setattr(m, "value", m.value + 1))
                add("-1", lambda m: setattr(m, "value", m.value - 1))
            elif isinstance(n.value, str) and 0 < len(n.value) < 20 and n in fn:
                add("str", lambda m: setattr(m, "value", m.value + "x"))
            elif n.value is None and n in fn:
                add("None->True", lambda m: setattr(m, "value", True))
        if isinstance(n, (ast.Attribute,)) and n.attr in SWAP:
            add("attr %s->%s" % (n.attr, SWAP[n.attr]), lambda m: setattr(m, "attr", SWAP[m.attr]))
        if isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
            add("name %s->%s" % (n.id, SWAP[n.id]), lambda m: setattr(m, "id", SWAP[m.id]))
        if isinstance(n, ast.Call):
            for j in range(len(n.args) - 1):
                add("swap args %d" % j, lambda m, j=j: (lambda a: (m.args.__setitem__(j, m.args[j + 1]), m.args.__setitem__(j + 1, a)))(m.args[j]))
            for j in range(len(n.keywords)):
                add("drop kw %s" % n.keywords[j].arg, lambda m, j=j: m.keywords.__delitem__(j))
            if len(n.args) == 1 and isinstance(n.func, (ast.Name, ast.Attribute)) and not n.keywords:
                pass
        if isinstance(n, (ast.For, ast.comprehension)):
            add("skip first", lambda m: setattr(m, "iter", ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [m.iter], []), ast.Slice(ast.Constant(1)), ast.Load())))
            add("reversed", lambda m: setattr(m, "iter", ast.Call(ast.Name("reversed", ast.Load()), [ast.Call(ast.Name("list", ast.Load()), [m.iter], [])], [])))
            if isinstance(n, ast.comprehension) and n.ifs:
                add("drop filter", lambda m: setattr(m, "ifs", []))
        if isinstance(n, ast.Return) and n.value is not None and n in fn:
            add("return None", lambda m: setattr(m, "value", ast.Constant(None)))
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if isinstance(b, list) and n is not tree and not isinstance(n, ast.ClassDef):
                for j, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Return, ast.Break, ast.Continue, ast.If, ast.For, ast.While, ast.Delete)) \
                            and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        out.append((i, getattr(s, "_cls", "") + "." + fn.get(s, "<module>"), s.lineno, "delete " + type(s).__name__,
                                    lambda m, j=j, field=field: getattr(m, field).__setitem__(j, ast.Pass())))
                    if isinstance(s, ast.Break):
                        out.append((i, fn.get(s, ""), s.lineno, "break->continue", lambda m, j=j, field=field: getattr(m, field).__setitem__(j, ast.Continue())))
                    if j + 1 < len(b) and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.If)) and isinstance(b[j + 1], (ast.Expr, ast.Assign, ast.AugAssign, ast.If)):
                        out.append((i, getattr(s, "_cls", "") + "." + fn.get(s, ""), s.lineno, "swap with next",
                                    lambda m, j=j, field=field: (lambda l: l.insert(j, l.pop(j + 1)))(getattr(m, field))))
        if isinstance(n, ast.Try) and n.handlers and n in fn:
            add("drop handler body", lambda m: setattr(m.handlers[0], "body", [ast.Raise()]))
            add("catch all", lambda m: setattr(m.handlers[0], "type", ast.Name("Exception", ast.Load())))
    return out


def source(path, k):
    src = open(path).read()
    tree = ast.parse(src)
    s = sites(tree)[k]
    nodes = list(ast.walk(tree))
    s[4](nodes[s[0]])
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


RULES = [a[8:] for a in sys.argv if a.startswith("--rules=")]
RULES = RULES[0].split(",") if RULES else []


TESTS = r"""ulimit -v 4000000
timeout -k 5 60 /opt/venv/bin/python -m pytest -q -x --no-header -p no:cacheprovider tests || exit 1
for f in $(sed -nE 's/^[[:space:]]+(commands[[:space:]]*=[[:space:]]*)?python -m agentspeak (tests\/asl\/[^[:space:]]+\.asl)[[:space:]]*$/\2/p' tox.ini | sort -u); do
    timeout -k 5 30 /opt/venv/bin/python -m agentspeak "$f" </dev/null >/dev/null 2>&1 || exit 1
done
"""


def work(job):
    mod, k, w, line, desc, tests = job
    d = tempfile.mkdtemp(prefix="mut")
    try:
        rel = "agentspeak/" + mod
        try:
            text = source(os.path.join("/repo", rel), k)
            compile(text, rel, "exec")
        except Exception as e:
            return dict(k=k, where=w, line=line, desc=desc, status="invalid")
        shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git", "__pycache__"), symlinks=True)
        old = ast.unparse(ast.parse(open("/repo/" + rel).read()))
        if old == text:
            return dict(k=k, where=w, line=line, desc=desc, status="invalid")
        open(os.path.join(d, "repo", rel), "w").write(text)
        import difflib
        diff = "\n".join(l for l in difflib.unified_diff(old.split("\n"), text.split("\n"), lineterm="", n=0) if not l.startswith(("---", "+++", "@@")))
        r = subprocess.run([sys.executable, "-m", "sa.lint", "--brief"] + RULES, cwd=HERE, env=dict(os.environ, VERIF_REPO=d + "/repo"),
                           capture_output=True, text=True, timeout=300)
        found = [l for l in r.stdout.split("\n") if l.startswith("FOUND ")]
        broke = [l for l in r.stdout.split("\n") if l.startswith("BROKEN ")]
        status = "caught" if found else "broken" if broke or r.returncode else "missed"
        if status != "caught" and "--notests" not in sys.argv:
            t = subprocess.run(["bash", "-c", TESTS], cwd=d + "/repo", stdin=subprocess.DEVNULL,
                               env=dict(os.environ, PYTHONPATH=d + "/repo", PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True, timeout=200)
            status += "+tests" if t.returncode not in (0,) else ""
        return dict(k=k, where=w, line=line, desc=desc, status=status, diff=diff, found=found[:3], broke=broke[:2], err=r.stderr[-300:] if r.returncode else "")
    except subprocess.TimeoutExpired:
        return dict(k=k, where=w, line=line, desc=desc, status="timeout")
    finally:
        shutil.rmtree(d)


def main():
    out, mod = sys.argv[1:3]
    rx = re.compile(sys.argv[3] if len(sys.argv) > 3 else "")
    tree = ast.parse(open("/repo/agentspeak/" + mod).read())
    again = None
    if "--again" in sys.argv:       # only the ones an earlier run missed
        again = {r["k"] for r in map(json.loads, open(out)) if r["status"] in ("missed", "broken")}
    jobs = [(mod, k, s[1], s[2], s[3], True) for k, s in enumerate(sites(tree)) if rx.search(s[1]) and (again is None or k in again)
            and s[3] != "swap with next"]
    print(len(jobs), "mutants")
    with ProcessPoolExecutor(8) as ex, open(out, "w") as f:
        for r in ex.map(work, jobs):
            f.write(json.dumps(r) + "\n")
            f.flush()
    import collections
    print(collections.Counter(json.loads(l)["status"] for l in open(out)))

main()

"""Development tool: random behaviour-preserving rewrites of the source, one kind per site, on which every rule must stay quiet.
python3 tools/autoref.py N SEED [MODULE.py] [KIND...] [--rules=a,b] [--tests] [--func=REGEX] [--all]"""
import ast, copy, os, random, re, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [x for a in sys.argv if a.startswith("--rules=") for x in a[8:].split(",")]
FUNC = [re.compile(a[7:]) for a in sys.argv if a.startswith("--func=")]
pos = [a for a in sys.argv[1:] if not a.startswith("-")]
N, SEED = int(pos[0]), int(pos[1])
MODS = [a for a in pos[2:] if a.endswith(".py")] or ["__init__.py", "runtime.py", "parser.py", "lexer.py", "stdlib.py", "ext_stdlib.py", "util.py"]
SEL = [a for a in pos[2:] if not a.endswith(".py")]


def funcs(tree):
    out = []

    def walk(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                if isinstance(c, ast.FunctionDef):
                    out.append((".".join(q + [c.name]), c))
                walk(c, q + [c.name])
            else:
                walk(c, q)
    walk(tree, [])
    return out


def bodies(fn):
    """All statement lists of a function, not of nested ones."""
    stack, out = [fn], []
    while stack:
        n = stack.pop()
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append((n, f, b))
                stack += [x for x in b if not isinstance(x, (ast.FunctionDef, ast.ClassDef))]
        for h in getattr(n, "handlers", []):
            stack.append(h)
    return out


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def has(n, *types):
    return any(isinstance(x, types) for x in ast.walk(n))


def flows_out(stmts):
    """Does control leave the statements other than at their end?"""
    return any(has(s, ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom) for s in stmts)


def terminates(b):
    return bool(b) and (isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) or
                        isinstance(b[-1], ast.If) and terminates(b[-1].body) and terminates(b[-1].orelse))


def name(x, ctx=None):
    return ast.Name(x, ctx or ast.Load())


def assign(t, v):
    return ast.Assign([name(t, ast.Store())], v)


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        inv = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        k = inv.get(type(t.ops[0]))
        if k:
            return ast.Compare(t.left, [k()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


# each kind: generator of thunks that change the tree in place

def k_rename(tree, fn, q):
    params = {a.arg for a in fn.args.args}
    declared = {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
    inner = [n for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn]
    inner_params = {a.arg for f in inner for a in f.args.args}
    excs = {h.name for h in ast.walk(fn) if isinstance(h, ast.ExceptHandler)}
    loc = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params - declared - inner_params - excs
    imports = {a.asname or a.name.split(".")[0] for n in ast.walk(fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
    for v in sorted(loc - imports):
        def do(v=v):
            for x in ast.walk(fn):
                if isinstance(x, ast.Name) and x.id == v:
                    x.id = v + "_value"
        yield do


def k_negate(tree, fn, q):
    for o, f, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and s.orelse:
                def do(s=s):
                    s.test, s.body, s.orelse = neg(s.test), s.orelse, s.body
                yield do


def k_unelse(tree, fn, q):
    """if c: return x  else: y   ->   if c: return x ; y"""
    for o, f, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and s.orelse and terminates(s.body):
                def do(b=b, i=i, s=s):
                    b[i + 1:i + 1] = s.orelse
                    s.orelse = []
                yield do


def k_else(tree, fn, q):
    """if c: return x ; y   ->   if c: return x  else: y"""
    for o, f, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and terminates(s.body) and b[i + 1:]:
                def do(b=b, i=i, s=s):
                    s.orelse = b[i + 1:]
                    del b[i + 1:]
                yield do


def k_guard(tree, fn, q):
    """if c: body (last statement of a loop or function)   ->   if not c: continue/return ; body"""
    for o, f, b in bodies(fn):
        s = b[-1]
        if f == "body" and isinstance(s, ast.If) and not s.orelse and isinstance(o, (ast.For, ast.While, ast.FunctionDef)):
            def do(b=b, s=s, o=o):
                b[-1:] = [ast.If(neg(s.test), [ast.Continue() if not isinstance(o, ast.FunctionDef) else ast.Return(None)], [])] + s.body
            yield do


def k_temp(tree, fn, q):
    """hoist the value of return/raise/assignment/first call argument into a local"""
    for o, f, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)):
                def do(b=b, i=i, s=s):
                    b[i:i + 1] = [assign("outcome", s.value), ast.Return(name("outcome"))]
                yield do
            if isinstance(s, (ast.Assign, ast.Expr)) and isinstance(s.value, ast.Call) and s.value.args and not isinstance(s.value.args[0], (ast.Starred, ast.Constant, ast.Name)) and \
                    isinstance(s.value.func, (ast.Name,)) and not (isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name)):
                def do(b=b, i=i, s=s):
                    b[i:i] = [assign("first_arg", s.value.args[0])]
                    s.value.args[0] = name("first_arg")
                yield do
            if isinstance(s, ast.If) and not isinstance(s.test, ast.Name) and not (isinstance(o, ast.If) and f == "orelse" and len(b) == 1):
                def do(b=b, i=i, s=s):
                    b[i:i] = [assign("holds", s.test)]
                    s.test = name("holds")
                yield do
            if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
                def do(b=b, i=i, s=s):
                    b[i:i] = [assign("candidates", s.iter)]
                    s.iter = name("candidates")
                yield do
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield) and s.value.value is not None and not isinstance(s.value.value, (ast.Name, ast.Constant)):
                def do(b=b, i=i, s=s):
                    b[i:i] = [assign("outcome", s.value.value)]
                    s.value.value = name("outcome")
                yield do


def k_and(tree, fn, q):
    """if a and b: x (no else)  ->  if a: if b: x"""
    for o, f, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                def do(s=s):
                    last = s.test.values[-1]
                    rest = s.test.values[:-1]
                    s.body = [ast.If(last, s.body, [])]
                    s.test = rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest)
                yield do


def k_unchain(tree, fn, q):
    """elif -> else: if"""   # the same tree; the printed text differs only
    return
    yield


def k_ifexp(tree, fn, q):
    for o, f, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                def do(b=b, i=i, s=s):
                    e = s.value
                    a, c = copy.deepcopy(s), copy.deepcopy(s)
                    a.value, c.value = e.body, e.orelse
                    b[i] = ast.If(e.test, [a], [c])
                yield do
            if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and isinstance(s.body[0], ast.Return) and isinstance(s.orelse[0], ast.Return) and s.body[0].value and s.orelse[0].value:
                def do(b=b, i=i, s=s):
                    b[i] = ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
                yield do


def k_comp(tree, fn, q):
    """x = [e for t in it if c]  ->  loop with append; return all/any(...) -> loop; tuple(gen)"""
    for o, f, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)):
                v = s.value
                wrap = None
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("list", "tuple") and len(v.args) == 1 and isinstance(v.args[0], (ast.ListComp, ast.GeneratorExp)):
                    wrap, v = v.func.id, v.args[0]
                elif not isinstance(v, ast.ListComp):
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("all", "any") and len(v.args) == 1 and isinstance(v.args[0], ast.GeneratorExp) and isinstance(s, ast.Return):
                        def do(b=b, i=i, s=s, v=v):
                            g = v.args[0]
                            al = v.func.id == "all"
                            inner = [ast.If(neg(g.elt) if al else g.elt, [ast.Return(ast.Constant(not al))], [])]
                            for c in reversed(g.generators):
                                for t in reversed(c.ifs):
                                    inner = [ast.If(t, inner, [])]
                                inner = [ast.For(c.target, c.iter, inner, [])]
                            b[i:i + 1] = inner + [ast.Return(ast.Constant(al))]
                        yield do
                    continue
                def do(b=b, i=i, s=s, v=v, wrap=wrap):
                    inner = [ast.Expr(ast.Call(ast.Attribute(name("collected"), "append", ast.Load()), [v.elt], []))]
                    for c in reversed(v.generators):
                        for t in reversed(c.ifs):
                            inner = [ast.If(t, inner, [])]
                        inner = [ast.For(c.target, c.iter, inner, [])]
                    s.value = name("collected") if wrap != "tuple" else ast.Call(name("tuple"), [name("collected")], [])
                    b[i:i] = [assign("collected", ast.List([], ast.Load()))] + inner
                yield do


def k_yieldfrom(tree, fn, q):
    for o, f, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Yield) and \
                    ast.dump(s.body[0].value.value or ast.Constant(0)).replace("Load", "Store") == ast.dump(s.target):
                def do(b=b, i=i, s=s):
                    b[i] = ast.Expr(ast.YieldFrom(s.iter))
                yield do


def k_extract(tree, fn, q):
    """move a run of statements without control flow out of a method into a helper method / module function"""
    owner = None
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef) and fn in n.body:
            owner = n
    top = fn in tree.body
    if not owner and not top:
        return
    if owner and (not fn.args.args or fn.args.args[0].arg != "self"):
        return
    loc = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | names(fn, ast.Store) | ({fn.args.vararg.arg} if fn.args.vararg else set()) | \
        ({fn.args.kwarg.arg} if fn.args.kwarg else set())
    loc |= {n.name for n in ast.walk(fn) if isinstance(n, ast.FunctionDef) and n is not fn}
    imports = {a.asname or a.name.split(".")[0] for n in ast.walk(fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
    if imports or has(fn, ast.Nonlocal, ast.Global):
        return
    order = list(ast.walk(fn))
    for o, f, b in bodies(fn):
        for i in range(len(b)):
            for j in range(i + 1, min(len(b), i + 4) + 1):
                run = b[i:j]
                if flows_out(run) or any(has(s, ast.FunctionDef, ast.Lambda, ast.Delete, ast.ClassDef) for s in run):
                    continue
                if any(isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) for s in run) or all(isinstance(s, (ast.Pass,)) for s in run):
                    continue
                if any(isinstance(x, ast.Name) and x.id == "super" for s in run for x in ast.walk(s)):
                    continue
                used = sorted(set().union(*[names(s, ast.Load) for s in run]) & loc - {"self"})
                sets = sorted(set().union(*[names(s, ast.Store) for s in run]) & loc)
                if len(sets) > 1:
                    continue
                # only variables certainly assigned may come back
                if sets:
                    last = run[-1]
                    if not (isinstance(last, ast.Assign) and names(last.targets[0], ast.Store) == set(sets)) or any(names(s, ast.Store) for s in run[:-1]):
                        continue
                if any(isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) for s in run):
                    continue
                # what it uses must be assigned for sure: parameters or names stored in earlier sibling statements
                params = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | ({fn.args.vararg.arg} if fn.args.vararg else set()) | ({fn.args.kwarg.arg} if fn.args.kwarg else set())
                if f == "body" and isinstance(o, ast.For):
                    params |= names(o.target, ast.Store)
                for s in b[:i]:
                    if isinstance(s, ast.Assign):
                        params |= names(s.targets[0], ast.Store)
                comp = {x for s in run for c in ast.walk(s) if isinstance(c, ast.comprehension) for x in names(c.target)}
                comp |= {x for s in run for c in ast.walk(s) if isinstance(c, ast.For) for x in names(c.target)}
                comp |= {h.name for s in run for h in ast.walk(s) if isinstance(h, ast.ExceptHandler) and h.name}
                if not set(used) - comp <= params or comp & params:
                    continue
                if owner and "self" not in set().union(*[names(s) for s in run]):
                    pass

                def do(b=b, i=i, j=j, run=run, used=[u for u in used if u not in comp], sets=[x for x in sets if x not in comp]):
                    hn = "_%s_part" % fn.name.strip("_")
                    args = (["self"] if owner else []) + used
                    body = list(run) + ([ast.Return(name(sets[0]))] if sets else [])
                    h = ast.FunctionDef(name=hn, args=ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in args], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                        body=body, decorator_list=[], type_params=[])
                    call = ast.Call(ast.Attribute(name("self"), hn, ast.Load()) if owner else name(hn), [name(u) for u in used], [])
                    b[i:j] = [assign(sets[0], call) if sets else ast.Expr(call)]
                    if owner:
                        owner.body.insert(owner.body.index(fn), h)
                    else:
                        tree.body.insert(tree.body.index(fn), h)
                yield do


def k_noop(tree, fn, q):
    for o, f, b in bodies(fn):
        def do(b=b):
            i = random.randrange(len(b) + 1) if not terminates(b) else random.randrange(len(b))
            if i == 0 and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
                i = 1
            b.insert(min(i, len(b)), random.choice([ast.Pass(), ast.Expr(ast.Constant(0)), assign("unused_marker", ast.Constant(None)),
                                      ast.Assert(ast.Constant(True), None), ast.If(ast.Constant(False), [ast.Pass()], [])]))
        yield do


def k_swapassign(tree, fn, q):
    """two neighbouring assignments of self.x = constant/name swapped"""
    ok = lambda s: isinstance(s, ast.Assign) and isinstance(s.value, (ast.Constant, ast.Name)) and isinstance(s.targets[0], ast.Attribute) and isinstance(s.targets[0].value, ast.Name)
    for o, f, b in bodies(fn):
        for i in range(len(b) - 1):
            if ok(b[i]) and ok(b[i + 1]) and ast.dump(b[i].targets[0]) != ast.dump(b[i + 1].targets[0]):
                def do(b=b, i=i):
                    b[i], b[i + 1] = b[i + 1], b[i]
                yield do


def k_while(tree, fn, q):
    """while c: body -> while True: if not c: break; body"""
    for o, f, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.While) and not s.orelse and not isinstance(s.test, ast.Constant):
                def do(s=s):
                    s.body.insert(0, ast.If(neg(s.test), [ast.Break()], []))
                    s.test = ast.Constant(True)
                yield do


def k_kwargs(tree, fn, q):
    """format strings: '%s' % x -> '{}'.format(x) for %s only"""
    for n in ast.walk(fn):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and \
                isinstance(n.right, ast.Tuple) and re.fullmatch(r"(?:[^%{}]|%s)*", n.left.value):
            def do(n=n):
                parts = n.left.value.split("%s")
                vals = []
                for k, t in enumerate(parts):
                    if t:
                        vals.append(ast.Constant(t))
                    if k < len(parts) - 1:
                        vals.append(ast.FormattedValue(n.right.elts[k], 115, None))
                new = ast.JoinedStr(vals)
                n.__class__ = ast.JoinedStr
                n.__dict__.clear()
                n.values = vals
            yield do


def k_demorgan(tree, fn, q):
    for o, f, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp):
                def do(s=s):
                    t = s.test
                    other = ast.Or() if isinstance(t.op, ast.And) else ast.And()
                    s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(other, [neg(v) for v in t.values]))
                yield do


def k_eqswap(tree, fn, q):
    """a == b -> b == a; for side-effect free operands"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.Is)) and not has(n, ast.Call, ast.Yield):
            def do(n=n):
                n.left, n.comparators = n.comparators[0], [n.left]
            yield do


def k_alias(tree, fn, q):
    """name for a module attribute or attribute chain: x = self.attr at function start for attributes never assigned in the function"""
    if has(fn, ast.Yield, ast.YieldFrom) or has(fn, ast.Import, ast.ImportFrom):
        return
    attrs = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ("agentspeak", "os", "colorama"):
            attrs.setdefault((n.value.id, n.attr), []).append(n)
    for (m, a), ns in attrs.items():
        def do(m=m, a=a):
            tgt = "the_" + a

            class Sub(ast.NodeTransformer):
                def visit_Attribute(self, x):
                    if isinstance(x.value, ast.Name) and x.value.id == m and x.attr == a and isinstance(x.ctx, ast.Load):
                        return name(tgt)
                    return self.generic_visit(x)
            i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
            fn.body = fn.body[:i] + [Sub().visit(s) for s in fn.body[i:]]
            fn.body.insert(i, assign(tgt, ast.Attribute(name(m), a, ast.Load())))
        yield do


def k_isinstance(tree, fn, q):
    """isinstance(x, (A, B)) -> isinstance(x, A) or isinstance(x, B)"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple):
            def do(n=n):
                x, t = n.args
                n.__class__ = ast.BoolOp
                n.__dict__.clear()
                n.op = ast.Or()
                n.values = [ast.Call(name("isinstance"), [copy.deepcopy(x), e], []) for e in t.elts]
            yield do


def k_tryelse(tree, fn, q):
    """try: a; b except E -> keep; (move nothing) ; with: nothing"""
    return
    yield


def k_inline(tree, fn, q):
    """x = e; return x / y = f(x) directly after, x used once -> inlined"""
    for o, f, b in bodies(fn):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(t, ast.Return) and isinstance(t.value, ast.Name) and t.value.id == s.targets[0].id:
                def do(b=b, i=i, s=s):
                    b[i:i + 2] = [ast.Return(s.value)]
                yield do


def k_enumerate(tree, fn, q):
    """for x in xs -> for position, x in enumerate(xs)"""
    for o, f, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and isinstance(s.target, ast.Name):
                def do(s=s):
                    s.target = ast.Tuple([name("position", ast.Store()), s.target], ast.Store())
                    s.iter = ast.Call(name("enumerate"), [s.iter], [])
                yield do


def k_lambda(tree, fn, q):
    """f(lambda: e) -> def helper(): return e"""
    for o, f, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and s.value is not None:
                for l in [x for x in ast.walk(s.value) if isinstance(x, ast.Lambda)][:1]:
                    def do(b=b, i=i, l=l):
                        h = ast.FunctionDef(name="helper", args=l.args, body=[ast.Return(l.body)], decorator_list=[], type_params=[])
                        b.insert(i, h)
                        l.__class__ = ast.Name
                        l.__dict__.clear()
                        l.id, l.ctx = "helper", ast.Load()
                    yield do


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("k_")}


def work(job):
    mod, kind, q, idx, seed = job
    random.seed(seed)
    d = tempfile.mkdtemp(prefix="autoref")
    try:
        shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git", "__pycache__"), symlinks=True)
        p = os.path.join(d, "repo/agentspeak", mod)
        src = open(p).read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        fn = dict(funcs(tree))[q]
        list(KINDS[kind](tree, fn, q))[idx]()
        ast.fix_missing_locations(tree)
        new = ast.unparse(tree)
        compile(new, p, "exec")
        open(p, "w").write(new)
        import difflib
        diff = "\n".join(l for l in difflib.unified_diff(base.split("\n"), new.split("\n"), lineterm="", n=1) if not l.startswith(("---", "+++")))
        out = []
        x = subprocess.run([sys.executable, "-m", "sa.lint", "--brief"] + RULES, cwd=HERE, env=dict(os.environ, VERIF_REPO=d + "/repo"), capture_output=True, text=True, timeout=600)
        out += [l for l in x.stdout.split("\n") + x.stderr.split("\n")[-3:] if l.strip()]
        if "--tests" in sys.argv or out:
            try:
                t = subprocess.run(["timeout", "90", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider", "tests"], cwd=d + "/repo",
                                   env=dict(os.environ, PYTHONPATH=d + "/repo"), capture_output=True, text=True)
                if t.returncode:
                    out.append("TESTS FAIL " + t.stdout[-200:])
            except Exception as e:
                out.append("TESTS " + str(e))
        return job, out, diff
    except Exception as e:
        return job, ["ERROR %s %s" % (type(e).__name__, e)], ""
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    jobs = {}
    for m in MODS:
        tree = ast.parse(open("/repo/agentspeak/" + m).read())
        for q, fn in funcs(tree):
            if FUNC and not any(r.search(m[:-3] + "." + q) for r in FUNC):
                continue
            for k, g in KINDS.items():
                if SEL and k not in SEL:
                    continue
                for i, _ in enumerate(list(g(tree, fn, q))):
                    jobs.setdefault(k, []).append((m, k, q, i, SEED))
    random.seed(SEED)
    if "--all" in sys.argv:
        todo = [j for v in jobs.values() for j in v]
    else:
        for v in jobs.values():
            random.shuffle(v)
        todo = []
        while len(todo) < N and any(jobs.values()):
            for v in jobs.values():
                if v and len(todo) < N:
                    todo.append(v.pop())
    if N < len(todo):
        todo = random.sample(todo, N)
    print("%d rewrites" % len(todo), {k: sum(1 for j in todo if j[1] == k) for k in KINDS})
    bad = 0
    with ProcessPoolExecutor(8) as ex:
        for job, out, diff in ex.map(work, todo):
            if out:
                bad += 1
                print("====", *job[:4])
                for l in out[:5]:
                    print("   ", l[:200])
                print("\n".join("      | " + l[:110] for l in diff.split("\n")[:14]))
    print("%d rewrites, %d not quiet" % (len(todo), bad))

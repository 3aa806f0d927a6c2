"""Equivalent spellings are brought into one form before the analysis."""
import ast
import copy


def same(a, b):
    return ast.dump(a) == ast.dump(b)


def pure(n):
    return all(isinstance(x, (ast.Name, ast.Attribute, ast.expr_context, ast.Constant)) for x in ast.walk(n))


def negated(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    return ast.copy_location(ast.UnaryOp(ast.Not(), t), t)


def uses(stmts, name):
    return any(isinstance(x, ast.Name) and x.id == name for s in stmts for x in ast.walk(s))


def clean(fn):
    """Drops statements that do nothing."""
    def idle(s):
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return True
        if isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and s.test.value:
            return True
        return isinstance(s, ast.If) and isinstance(s.test, ast.Constant) and not s.test.value and not s.orelse and \
            not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Name)) for b in s.body for x in ast.walk(b))
    stack = [fn]
    while stack:
        n = stack.pop()
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                keep = [s for s in b if not idle(s)]
                if len(keep) != len(b):
                    setattr(n, f, keep or ([b[0]] if f == "body" else []))
                stack += [x for x in keep if not isinstance(x, (ast.FunctionDef, ast.ClassDef))]
        stack += getattr(n, "handlers", [])


def moved_back(s, init, methods):
    if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and
            isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == init.args.args[0].arg and not s.value.keywords):
        return None
    m = methods.get(s.value.func.attr)
    simple = lambda e: isinstance(e, (ast.Name, ast.Constant))
    if m is None or m is init or m.decorator_list or not all(simple(a) for a in s.value.args):
        return None
    a = m.args
    if a.vararg or a.kwarg or a.kwonlyargs or a.defaults or a.posonlyargs or len(a.args) != len(s.value.args) + 1:
        return None
    params = [p.arg for p in a.args]
    store = lambda x: isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Attribute) and \
        isinstance(x.targets[0].value, ast.Name) and x.targets[0].value.id == params[0] and \
        not any(isinstance(y, (ast.Lambda, ast.NamedExpr, ast.comprehension)) for y in ast.walk(x))
    if not all(store(x) or isinstance(x, ast.Pass) for x in m.body):
        return None
    to = dict(zip(params, [s.value.func.value] + s.value.args))
    m.moved_back = True     # its statements are looked at where __init__ runs them

    class Sub(ast.NodeTransformer):
        def visit_Name(self, x):
            return ast.copy_location(copy.deepcopy(to[x.id]), x) if x.id in to else x
    return [Sub().visit(copy.deepcopy(x)) for x in m.body if not isinstance(x, ast.Pass)]


def renamed(e, names):
    class Sub(ast.NodeTransformer):
        def visit_Name(self, x):
            return ast.copy_location(ast.Name(names[x.id], x.ctx), x) if x.id in names else x
    return Sub().visit(copy.deepcopy(e))


def substituted(e, name, value):
    class Sub(ast.NodeTransformer):
        def visit_Name(self, x):
            return ast.copy_location(copy.deepcopy(value), x) if x.id == name else x
    return Sub().visit(copy.deepcopy(e))


def exclusive(fn, a, b):
    """Whether a and b are in different branches of one condition."""
    has = lambda stmts, x: any(y is x for s in stmts for y in ast.walk(s))
    return any(isinstance(i, ast.If) and (has(i.body, a) and has(i.orelse, b) or has(i.body, b) and has(i.orelse, a)) for i in ast.walk(fn))


def own(n):
    """The nodes of a function without those of the functions inside it."""
    todo = list(n.body)
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            todo += list(ast.iter_child_nodes(x))


def yielding(n):
    """A function that returns a generator expression is a generator."""
    nodes = list(own(n))
    rets = [x for x in nodes if isinstance(x, ast.Return)]
    empty = lambda v: v is None or isinstance(v, (ast.Tuple, ast.List)) and not v.elts or isinstance(v, ast.Call) and \
        isinstance(v.func, ast.Name) and v.func.id == "iter" and len(v.args) == 1 and empty(v.args[0])
    gens = [r for r in rets if isinstance(r.value, ast.GeneratorExp)]
    if not gens or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in nodes) or any(not empty(r.value) for r in rets if r not in gens):
        return

    class Sub(ast.NodeTransformer):
        def visit_FunctionDef(self, x):
            return x

        def visit_Return(self, r):
            if r not in gens:
                r.value = None
                return r
            body = [ast.Expr(ast.Yield(r.value.elt))]
            for g in reversed(r.value.generators):
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            for b in body:
                ast.copy_location(b, r)
                for x in ast.walk(b):
                    if not hasattr(x, "lineno") and isinstance(x, (ast.stmt, ast.expr)):
                        ast.copy_location(x, r)
            return body + [ast.copy_location(ast.Return(None), r)]
    n.body = [y for x in n.body for y in (lambda v: v if isinstance(v, list) else [v])(Sub().visit(x))]
    if isinstance(n.body[-1], ast.Return) and n.body[-1].value is None:
        n.body.pop()


def breaks(s):
    """Does the statement leave the loop it stands in?"""
    if isinstance(s, ast.Break):
        return True
    if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
        return any(breaks(x) for x in s.orelse)
    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
        return False
    return any(breaks(x) for x in ast.iter_child_nodes(s) if isinstance(x, (ast.stmt, ast.ExceptHandler, ast.match_case)))


class Normal(ast.NodeTransformer):
    def __init__(self, tree=None):
        self.fn = [None]
        # whether functools.partial can be named in this module
        self.partial = tree is not None and any(isinstance(x, ast.Import) and any(a.name == "functools" and not a.asname for a in x.names) for x in tree.body)

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        self.generic_visit(n)
        self.fn.pop()
        yielding(n)
        clean(n)
        return n

    # parts of a constructor that were moved to a method are moved back
    def visit_ClassDef(self, n):
        self.generic_visit(n)
        methods = {m.name: m for m in n.body if isinstance(m, ast.FunctionDef)}
        init = methods.get("__init__")
        if init is not None and init.args.args:
            for _ in range(4):
                new = []
                for s in init.body:
                    new += moved_back(s, init, methods) or [s]
                if len(new) == len(init.body) and all(a is b for a, b in zip(new, init.body)):
                    break
                init.body = new
        return n

    # while True: if c: break; rest  ->  while not c: rest
    def visit_While(self, n):
        self.generic_visit(n)
        while isinstance(n.test, ast.Constant) and n.test.value and not n.orelse and n.body and isinstance(n.body[0], ast.If):
            s = n.body[0]
            stops = lambda b: len(b) == 1 and isinstance(b[0], ast.Break)
            if stops(s.body):
                n.test, n.body = negated(s.test), list(s.orelse) + n.body[1:]
            elif stops(s.orelse):
                n.test, n.body = s.test, list(s.body) + n.body[1:]
            else:
                break
            if not n.body:
                n.body = [ast.copy_location(ast.Pass(), s)]
            break
        return n

    # for _, x in enumerate(xs) with an index nobody reads  ->  for x in xs
    def loop(self, target, it, body):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args and \
                isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == 2 and isinstance(target.elts[0], ast.Name):
            name = target.elts[0].id
            fn = self.fn[-1]
            scope = fn.body if fn is not None else body
            count = sum(1 for s in scope for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load))
            declared = any(isinstance(x, (ast.Global, ast.Nonlocal)) and name in x.names for s in scope for x in ast.walk(s))
            if not count and not declared and fn is not None:
                return target.elts[1], it.args[0]
        return target, it

    # for i in range(len(xs)): ... xs[i] ...  ->  for i, x in enumerate(xs): ... x ...
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(n.target, ast.Name) and isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and \
                len(it.args) == 1 and isinstance(it.args[0], ast.Call) and isinstance(it.args[0].func, ast.Name) and it.args[0].func.id == "len" and \
                len(it.args[0].args) == 1 and pure(it.args[0].args[0]):
            xs, i = it.args[0].args[0], n.target.id
            root = next(x for x in ast.walk(xs) if isinstance(x, ast.Name)).id
            stored = any(isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in (i, root) for s in n.body for x in ast.walk(s))
            writes = any(isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and same(x.value, xs) for s in n.body for x in ast.walk(s))
            if not stored and not writes:
                el = "%s_%s_element" % (root, i)

                class Sub(ast.NodeTransformer):
                    def visit_Subscript(self, x):
                        self.generic_visit(x)
                        if isinstance(x.ctx, ast.Load) and same(x.value, xs) and isinstance(x.slice, ast.Name) and x.slice.id == i:
                            return ast.copy_location(ast.Name(el, ast.Load()), x)
                        return x
                before = [ast.dump(s) for s in n.body]
                body = [Sub().visit(s) for s in n.body]
                if [ast.dump(s) for s in body] != before:
                    n.body = body
                    n.target = ast.copy_location(ast.Tuple([n.target, ast.Name(el, ast.Store())], ast.Store()), n.target)
                    n.iter = ast.copy_location(ast.Call(ast.Name("enumerate", ast.Load()), [xs], []), it)
                    ast.fix_missing_locations(n)
        n.target, n.iter = self.loop(n.target, n.iter, n.body)
        # for x in (e for y in ys if c): ...  ->  for y in ys: if c: x = e; ...
        g = n.iter
        while isinstance(g, ast.GeneratorExp) and len(g.generators) == 1 and not g.generators[0].is_async and not n.orelse:
            c = g.generators[0]
            if isinstance(g.elt, ast.Name) and isinstance(c.target, ast.Name) and g.elt.id == c.target.id and isinstance(n.target, ast.Name):
                ren, bind = {c.target.id: n.target.id}, []
            else:
                ren = {x.id: "%s_of_%d" % (x.id, g.lineno) for x in ast.walk(c.target) if isinstance(x, ast.Name)}
                bind = [ast.copy_location(ast.Assign([n.target], renamed(g.elt, ren)), n.target)]
            n.target, n.iter = renamed(c.target, ren), c.iter
            skip = [ast.copy_location(ast.If(negated(renamed(t, ren)), [ast.copy_location(ast.Continue(), t)], []), t) for t in c.ifs]
            n.body = skip + bind + n.body
            ast.fix_missing_locations(n)
            g = n.iter
        # for x in (e for a in A for b in B): ...  ->  for a in A: for x in (e for b in B): ...
        if isinstance(g, ast.GeneratorExp) and len(g.generators) > 1 and not any(c.is_async for c in g.generators) and not n.orelse and \
                not any(breaks(s) for s in n.body):
            ren = {x.id: "%s_of_%d" % (x.id, g.lineno) for c in g.generators[:-1] for x in ast.walk(c.target) if isinstance(x, ast.Name)}
            first, rest = g.generators[0], g.generators[1:]
            gen = ast.copy_location(ast.GeneratorExp(renamed(g.elt, ren), [ast.comprehension(renamed(c.target, ren), renamed(c.iter, ren),
                                                                                          [renamed(t, ren) for t in c.ifs], 0) for c in rest]), g)
            inner = ast.copy_location(ast.For(n.target, gen, n.body, [], None), n)
            skip = [ast.copy_location(ast.If(negated(renamed(t, ren)), [ast.copy_location(ast.Continue(), t)], []), t) for t in first.ifs]
            inner = self.visit_For(ast.fix_missing_locations(inner))
            n.target, n.iter = renamed(first.target, ren), first.iter
            n.body = skip + (inner if isinstance(inner, list) else [inner])
            ast.fix_missing_locations(n)
        return self.unrolled(n)

    # for x in (a, b): body  ->  x = a; body; x = b; body
    def unrolled(self, n):
        it = n.iter
        if not isinstance(it, (ast.Tuple, ast.List)) or n.orelse or not 0 < len(it.elts) <= 6 or self.fn[-1] is None:
            return n
        if sum(1 for s in n.body for x in ast.walk(s) if isinstance(x, ast.stmt)) > 4:
            return n
        inner = [x for s in n.body for x in ast.walk(s)]
        if any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Lambda, ast.For, ast.While, ast.Try, ast.If))
               for x in inner):
            return n
        stored = {x.id for x in inner if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}

        def simple(e):
            if isinstance(e, ast.Constant):
                return True
            if isinstance(e, (ast.Tuple, ast.List)):
                return all(simple(x) for x in e.elts)
            if isinstance(e, ast.Attribute) and any(isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load) for x in inner):
                return False
            return pure(e) and not any(isinstance(x, ast.Name) and x.id in stored for x in ast.walk(e))
        if not all(simple(e) for e in it.elts):
            return n
        out = []
        for e in it.elts:
            out.append(ast.copy_location(ast.Assign([copy.deepcopy(n.target)], e), n))
            out += copy.deepcopy(n.body)
        return [ast.fix_missing_locations(x) for x in out]

    def generators(self, n):
        self.generic_visit(n)
        out = []
        for c in n.generators:
            g = c.iter
            if isinstance(g, ast.GeneratorExp) and len(g.generators) == 1 and not c.is_async:
                d = g.generators[0]
                if isinstance(g.elt, ast.Name) and isinstance(d.target, ast.Name) and g.elt.id == d.target.id and isinstance(c.target, ast.Name):
                    ren = {d.target.id: c.target.id}
                    out.append(ast.comprehension(renamed(d.target, ren), d.iter, [renamed(t, ren) for t in d.ifs] + c.ifs, 0))
                else:
                    ren = {x.id: "%s_of_%d" % (x.id, g.lineno) for x in ast.walk(d.target) if isinstance(x, ast.Name)}
                    out.append(ast.comprehension(renamed(d.target, ren), d.iter, [renamed(t, ren) for t in d.ifs], 0))
                    out.append(ast.comprehension(c.target, ast.copy_location(ast.Tuple([renamed(g.elt, ren)], ast.Load()), g.elt), c.ifs, 0))
            else:
                out.append(c)
        n.generators = out
        return ast.fix_missing_locations(n)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = generators

    # map(f, xs)  ->  (f(x) for x in xs), filter(f, xs)  ->  (x for x in xs if f(x)), chain(a, b) -> (x for s in (a, b) for x in s)
    def visit_Call(self, n):
        self.generic_visit(n)
        if n.keywords or any(isinstance(a, ast.Starred) for a in n.args):
            return n
        name = n.func.id if isinstance(n.func, ast.Name) else None

        def gen(elt, *gens):
            return ast.fix_missing_locations(ast.copy_location(ast.GeneratorExp(elt, list(gens)), n))
        load, store = (lambda x: ast.Name(x, ast.Load())), (lambda x: ast.Name(x, ast.Store()))
        if name == "map" and len(n.args) == 2 and pure(n.args[0]):
            v = "element_of_map"
            return gen(ast.Call(n.args[0], [load(v)], []), ast.comprehension(store(v), n.args[1], [], 0))
        if name == "filter" and len(n.args) == 2 and pure(n.args[0]):
            v = "element_of_filter"
            none = isinstance(n.args[0], ast.Constant)
            return gen(load(v), ast.comprehension(store(v), n.args[1], [load(v) if none else ast.Call(n.args[0], [load(v)], [])], 0))
        dotted = ast.unparse(n.func) if isinstance(n.func, ast.Attribute) and pure(n.func) else name
        if dotted in ("itertools.chain.from_iterable", "chain.from_iterable") and len(n.args) == 1:
            v, w = "element_of_chain", "part_of_chain"
            return gen(load(v), ast.comprehension(store(w), n.args[0], [], 0), ast.comprehension(store(v), load(w), [], 0))
        if dotted in ("itertools.chain", "chain") and n.args:
            v, w = "element_of_chain", "part_of_chain"
            return gen(load(v), ast.comprehension(store(w), ast.Tuple(n.args, ast.Load()), [], 0), ast.comprehension(store(v), load(w), [], 0))
        return n

    # lambda a, b: f(x, a, b)  ->  functools.partial(f, x), when x is not bound again later
    def visit_Lambda(self, n):
        self.generic_visit(n)
        c, a = n.body, n.args
        ps = [x.arg for x in a.args]
        if not self.partial or not ps or a.vararg or a.kwarg or a.kwonlyargs or a.defaults or a.posonlyargs or \
                not isinstance(c, ast.Call) or c.keywords or len(c.args) <= len(ps) or not pure(c.func):
            return n
        given, rest = c.args[:-len(ps)], c.args[-len(ps):]
        if not all(isinstance(x, ast.Name) for x in rest) or [x.id for x in rest] != ps or not all(isinstance(x, (ast.Name, ast.Constant)) for x in given):
            return n
        names = {x.id for e in given + [c.func] for x in ast.walk(e) if isinstance(x, ast.Name)}
        fn = self.fn[-1]
        if names & set(ps) or fn is None:
            return n
        loops = [x for x in ast.walk(fn) if isinstance(x, (ast.For, ast.While)) and any(y is n for y in ast.walk(x))]
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in names and not isinstance(x.ctx, ast.Load):
                if any(y is x for l in loops for y in ast.walk(l)) or x.lineno > n.lineno and not exclusive(fn, x, n):
                    return n
        f = ast.Attribute(ast.Name("functools", ast.Load()), "partial", ast.Load())
        return ast.fix_missing_locations(ast.copy_location(ast.Call(f, [c.func] + given, []), n))

    # a, b = (e for x in (p, q))  ->  a, b = (e with p, e with q)
    def visit_Assign(self, n):
        self.generic_visit(n)
        t, v = n.targets[0], n.value
        if len(n.targets) == 1 and isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (ast.GeneratorExp, ast.ListComp)) and \
                len(v.generators) == 1 and not v.generators[0].ifs and isinstance(v.generators[0].target, ast.Name) and \
                not any(isinstance(e, ast.Starred) for e in t.elts):
            g = v.generators[0]
            name, it = g.target.id, g.iter
            used = any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(v.elt))
            items = None
            if isinstance(it, (ast.Tuple, ast.List)) and all(pure(e) for e in it.elts) and not any(isinstance(x, (ast.Lambda, ast.comprehension)) for x in ast.walk(v.elt)):
                items = [substituted(v.elt, name, e) for e in it.elts]
            elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) == 1 and \
                    isinstance(it.args[0], ast.Constant) and isinstance(it.args[0].value, int) and not used:
                items = [copy.deepcopy(v.elt) for _ in range(it.args[0].value)]
            if items is not None and len(items) == len(t.elts):
                n.value = ast.fix_missing_locations(ast.copy_location(ast.Tuple(items, ast.Load()), v))
        return n

    # with contextlib.suppress(E): body  ->  try: body  except E: pass
    def visit_With(self, n):
        self.generic_visit(n)
        c = n.items[0].context_expr
        if len(n.items) == 1 and n.items[0].optional_vars is None and isinstance(c, ast.Call) and c.args and not c.keywords and \
                ast.unparse(c.func) in ("contextlib.suppress", "suppress"):
            t = c.args[0] if len(c.args) == 1 else ast.Tuple(c.args, ast.Load())
            h = ast.ExceptHandler(t, None, [ast.Pass()])
            return ast.fix_missing_locations(ast.copy_location(ast.Try(n.body, [h], [], []), n))
        return n

    # match x: case A: ...  ->  if x == A: ...
    def visit_Match(self, n):
        self.generic_visit(n)
        if pure(n.subject) or isinstance(n.subject, ast.Tuple) and all(pure(e) for e in n.subject.elts):
            subject, pre = n.subject, []
        else:
            name = "subject_%d" % n.lineno
            pre = [ast.Assign([ast.Name(name, ast.Store())], n.subject)]
            subject = ast.Name(name, ast.Load())
        top = node = None
        for c in n.cases:
            r = self.pattern(c.pattern, subject)
            if r is None:
                return n
            tests, binds = r
            if c.guard is not None:
                if binds:
                    return n
                tests = tests + [c.guard]
            test = ast.Constant(True) if not tests else tests[0] if len(tests) == 1 else ast.BoolOp(ast.And(), tests)
            i = ast.copy_location(ast.If(test, binds + c.body, []), c.body[0])
            if node is None:
                top = i
            else:
                node.orelse = [i]
            node = i
        out = pre + [top]
        for x in out:
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return out

    def pattern(self, p, subject):
        """The tests and assignments a pattern stands for, or None."""
        if isinstance(p, ast.MatchValue):
            return [ast.Compare(subject, [ast.Eq()], [p.value])], []
        if isinstance(p, ast.MatchSingleton):
            return [ast.Compare(subject, [ast.Is()], [ast.Constant(p.value)])], []
        if isinstance(p, ast.MatchOr):
            rs = [self.pattern(x, subject) for x in p.patterns]
            if any(r is None or r[1] or not r[0] for r in rs):
                return None
            return [ast.BoolOp(ast.Or(), [r[0][0] if len(r[0]) == 1 else ast.BoolOp(ast.And(), r[0]) for r in rs])], []
        if isinstance(p, ast.MatchAs):
            tests, binds = ([], []) if p.pattern is None else self.pattern(p.pattern, subject) or (None, None)
            if tests is None:
                return None
            return tests, binds + ([ast.Assign([ast.Name(p.name, ast.Store())], subject)] if p.name else [])
        if isinstance(p, ast.MatchClass):
            tests, binds = [ast.Call(ast.Name("isinstance", ast.Load()), [subject, p.cls], [])], []
            if p.patterns:
                return None
            for k, q in zip(p.kwd_attrs, p.kwd_patterns):
                r = self.pattern(q, ast.Attribute(subject, k, ast.Load()))
                if r is None:
                    return None
                tests, binds = tests + r[0], binds + r[1]
            return tests, binds
        if isinstance(p, ast.MatchSequence) and isinstance(subject, ast.Tuple) and len(p.patterns) == len(subject.elts):
            tests, binds = [], []
            for q, e in zip(p.patterns, subject.elts):
                r = self.pattern(q, e)
                if r is None:
                    return None
                tests, binds = tests + r[0], binds + r[1]
            return tests, binds
        return None

    # isinstance(x, A) or isinstance(x, B)  ->  isinstance(x, (A, B)); and the negation
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        neg = isinstance(n.op, ast.And)

        def test(v):
            if neg:
                if not (isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not)):
                    return None
                v = v.operand
            ok = isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "isinstance" and len(v.args) == 2 and not v.keywords and pure(v.args[0])
            return v if ok else None
        out = []
        for v in n.values:
            a, b = test(out[-1]) if out else None, test(v)
            if a is not None and b is not None and same(a.args[0], b.args[0]):
                elts = [e for c in (a, b) for e in (c.args[1].elts if isinstance(c.args[1], ast.Tuple) else [c.args[1]])]
                c = ast.Call(a.func, [a.args[0], ast.Tuple(elts, ast.Load())], [])
                out[-1] = ast.copy_location(ast.UnaryOp(ast.Not(), c) if neg else c, v)
                ast.fix_missing_locations(out[-1])
            else:
                out.append(v)
        if len(out) == 1:
            return out[0]
        n.values = out
        return n


def normal(tree):
    return Normal(tree).visit(tree)

"""Program model: parses the current source of /repo/agentspeak and resolves
names, classes, methods and imports.  Nothing in here executes repository
code; the input is the text of the files, the output an index of the syntax
trees."""
import ast

import os

from .norm import normal

REPO = os.environ.get("VERIF_REPO", "/repo")
PACKAGE = "agentspeak"

MODULES = {
    "agentspeak": "__init__.py",
    "agentspeak.lexer": "lexer.py",
    "agentspeak.parser": "parser.py",
    "agentspeak.runtime": "runtime.py",
    "agentspeak.stdlib": "stdlib.py",
    "agentspeak.ext_stdlib": "ext_stdlib.py",
    "agentspeak.util": "util.py",
    "agentspeak.optimizer": "optimizer.py",
    "agentspeak.__main__": "__main__.py",
}


class AnalysisBroken(Exception):
    """An anchor of a rule is gone: the check cannot give an answer."""


class Func(object):
    __slots__ = ("qual", "node", "module", "cls", "params", "is_gen", "parent", "decorators",
                 "vararg", "kwarg", "static", "classm")

    def __init__(self, qual, node, module, cls, parent=None):
        self.qual, self.node, self.module, self.cls, self.parent = qual, node, module, cls, parent
        a = node.args
        self.params = [p.arg for p in a.posonlyargs + a.args]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.params += [p.arg for p in a.kwonlyargs]
        self.is_gen = has_yield(node)
        self.decorators = getattr(node, "decorator_list", [])
        self.static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in self.decorators)
        self.classm = any(isinstance(d, ast.Name) and d.id == "classmethod" for d in self.decorators)

    def default(self, name):
        a = self.node.args
        pos = a.posonlyargs + a.args
        defs = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        for p, d in zip(pos, defs):
            if p.arg == name:
                return d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg == name:
                return d
        return None

    @property
    def name(self):
        return self.qual.rsplit(".", 1)[-1]

    def loc(self, node=None):
        return "%s:%d" % (self.module.relpath, (node or self.node).lineno)

    def __repr__(self):
        return "<Func %s>" % self.qual


def has_yield(fn):
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


class Class(object):
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.methods = {}
        self.assigns = {}      # class level name -> value expression
        self.bases = []        # canonical names

    @property
    def name(self):
        return self.qual.rsplit(".", 1)[-1]


class Module(object):
    def __init__(self, name, relpath, src):
        self.name, self.relpath, self.src = name, relpath, src
        self.tree = normal(ast.parse(src, relpath))
        self.imports = {}      # local name -> canonical dotted name
        self.functions = {}
        self.funclist = []
        self.classes = {}
        self.assigns = {}      # module level name -> list of value expressions
        self.names = set()     # every name bound at module level


class Program(object):
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.functions = {}    # qual -> Func (methods included)
        self.classes = {}      # qual -> Class
        self.methods_by_name = {}
        self.all_functions = []
        pkg = os.path.join(self.root, PACKAGE)
        files = {}
        for fn in sorted(os.listdir(pkg)):
            if fn.endswith(".py"):
                name = PACKAGE if fn == "__init__.py" else PACKAGE + "." + fn[:-3]
                files[name] = fn
        for name, fn in files.items():
            with open(os.path.join(pkg, fn), encoding="utf-8") as f:
                src = f.read()
            try:
                self.modules[name] = Module(name, PACKAGE + "/" + fn, src)
            except SyntaxError as err:
                raise AnalysisBroken("cannot parse %s: %s" % (fn, err))
        for name in MODULES:
            if name not in self.modules and name in ("agentspeak", "agentspeak.lexer", "agentspeak.parser",
                                                     "agentspeak.runtime", "agentspeak.stdlib"):
                raise AnalysisBroken("module %s is gone" % name)
        for m in self.modules.values():
            self._index(m)
        for c in self.classes.values():
            c.bases = [self.resolve_expr(c.module, b) for b in c.node.bases]

    def _index(self, m):
        self._index_body(m, m.tree.body)
        for n in ast.walk(m.tree):
            # imports inside functions bind module names too, as far as this
            # repository is concerned (import agentspeak.runtime in a function)
            if isinstance(n, ast.Import):
                for al in n.names:
                    if al.asname:
                        m.imports.setdefault(al.asname, al.name)
                    else:
                        m.imports.setdefault(al.name.split(".")[0], al.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom) and n.module:
                for al in n.names:
                    m.imports.setdefault(al.asname or al.name, n.module + "." + al.name)

    def _index_body(self, m, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                f = self._add_func(m, n, None, m.name + "." + n.name)
                m.functions[n.name] = f
                m.funclist.append(f)
                m.names.add(n.name)
            elif isinstance(n, ast.ClassDef):
                c = Class(m.name + "." + n.name, n, m)
                m.classes[n.name] = c
                m.names.add(n.name)
                self.classes[c.qual] = c
                for k in n.body:
                    if isinstance(k, ast.FunctionDef):
                        f = self._add_func(m, k, c, c.qual + "." + k.name)
                        c.methods[k.name] = f
                        self.methods_by_name.setdefault(k.name, []).append(f)
                    elif isinstance(k, ast.Assign):
                        for t in k.targets:
                            if isinstance(t, ast.Name):
                                c.assigns[t.id] = k.value
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                targets = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in targets:
                    for q in ast.walk(t):
                        if isinstance(q, ast.Name):
                            m.names.add(q.id)
                            if isinstance(t, ast.Name) and n.value is not None:
                                m.assigns.setdefault(q.id, []).append(n.value)
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for field in ("body", "orelse", "finalbody"):
                    self._index_body(m, getattr(n, field, []) or [])
                for h in getattr(n, "handlers", []):
                    self._index_body(m, h.body)

    def _add_func(self, m, node, cls, qual):
        f = Func(qual, node, m, cls)
        self.functions[qual] = f
        self.all_functions.append(f)
        for k in ast.walk(node):
            if k is not node and isinstance(k, ast.FunctionDef):
                g = Func(qual + ".<locals>." + k.name, k, m, cls, parent=f)
                self.functions.setdefault(g.qual, g)
                self.all_functions.append(g)
        return f

    # -- resolution -----------------------------------------------------

    def canonical(self, dotted, _seen=None):
        """Follows re-exports: agentspeak.runtime.UnaryOp -> agentspeak.UnaryOp."""
        _seen = _seen or set()
        if dotted in _seen:
            return dotted
        _seen.add(dotted)
        if dotted in self.modules:
            return dotted
        # longest module prefix
        parts = dotted.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mod = ".".join(parts[:i])
            if mod in self.modules:
                m = self.modules[mod]
                head, rest = parts[i], parts[i + 1:]
                if head in m.functions or head in m.classes:
                    return dotted
                if head in m.assigns:
                    vals = m.assigns[head]
                    if len(vals) == 1 and isinstance(vals[0], (ast.Name, ast.Attribute)):
                        tgt = self.resolve_expr(m, vals[0])
                        if tgt:
                            return self.canonical(".".join([tgt] + rest), _seen)
                    return dotted
                if head in m.imports:
                    return self.canonical(".".join([m.imports[head]] + rest), _seen)
                return dotted
        return dotted

    def resolve_expr(self, module, node):
        """Canonical dotted name for a Name/Attribute chain at module scope."""
        parts = []
        while isinstance(node, ast.Attribute):
            parts.append(node.attr)
            node = node.value
        if not isinstance(node, ast.Name):
            return None
        parts.append(node.id)
        parts.reverse()
        head = parts[0]
        if head in module.functions or head in module.classes or head in module.assigns:
            return self.canonical(".".join([module.name] + parts))
        if head in module.imports:
            return self.canonical(".".join([module.imports[head]] + parts[1:]))
        return ".".join(["builtins"] + parts)

    def mro(self, qual):
        out, todo = [], [qual]
        while todo:
            q = todo.pop(0)
            if q in self.classes and q not in out:
                out.append(q)
                todo.extend(b for b in self.classes[q].bases if b)
        return out

    def find_method(self, cls_qual, name):
        for q in self.mro(cls_qual):
            c = self.classes[q]
            if name in c.methods:
                return c.methods[name]
            if name in c.assigns and isinstance(c.assigns[name], ast.Name):
                alias = c.assigns[name].id
                if alias in c.methods:
                    return c.methods[alias]
        return None

    def subclasses(self, qual):
        return [c for c in self.classes if qual in self.mro(c)]

    def func(self, qual):
        f = self.functions.get(qual)
        if f is None:
            # method inherited or aliased
            if "." in qual:
                cls, name = qual.rsplit(".", 1)
                if cls in self.classes:
                    f = self.find_method(cls, name)
        if f is None:
            raise AnalysisBroken("anchor %s is gone" % qual)
        return f

    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None:
            raise AnalysisBroken("anchor class %s is gone" % qual)
        return c

    def action(self, functor, arity=None):
        """Finds the implementation registered for a library action by reading
        the registrations (decorators and calls on the `actions` tables)."""
        for reg in self.registrations():
            if reg["functor"] == functor and (arity is None or reg["arity"] in (arity, None)):
                return reg
        raise AnalysisBroken("action %s/%s is no longer registered" % (functor, arity))

    _regs = None

    def registrations(self):
        if self._regs is not None:
            return self._regs
        regs = []
        for mod in self.modules.values():
            for n in ast.walk(mod.tree):
                if isinstance(n, ast.FunctionDef):
                    for d in n.decorator_list:
                        r = self._registration(mod, d)
                        if r:
                            r["func"] = next((f for f in self.all_functions if f.node is n), None)
                            r["impl"] = n
                            regs.append(r)
                elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                    r = self._registration(mod, n.value)
                    if r and r["extra"]:
                        r["impl"] = r["extra"]
                        q = self.resolve_expr(mod, r["extra"]) if isinstance(r["extra"], (ast.Name, ast.Attribute)) else None
                        r["func"] = self.functions.get(q) if q else None
                        r["target"] = q
                        regs.append(r)
        self._regs = regs
        return regs

    def _registration(self, mod, call):
        if not (isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute)
                and call.func.attr in ("add", "add_function", "add_predicate", "add_procedure")):
            return None
        if not (call.args and isinstance(call.args[0], ast.Constant) and isinstance(call.args[0].value, str)
                and call.args[0].value.startswith(".")):
            return None
        kind = call.func.attr
        specs = None
        arity = None
        rest = call.args[1:]
        kw = {k.arg: k.value for k in call.keywords}
        second = rest[0] if rest else kw.get("arity", kw.get("arg_specs"))
        extra = rest[1] if len(rest) > 1 else kw.get("f")
        if kind == "add":
            if isinstance(second, ast.Constant) and isinstance(second.value, int):
                arity = second.value
        else:
            specs = second.elts if isinstance(second, (ast.Tuple, ast.List)) else ([second] if second is not None else [])
            n = 0
            for s in specs:
                q = self.resolve_expr(mod, s) if isinstance(s, (ast.Name, ast.Attribute)) else None
                if q in ("agentspeak.runtime.Agent", "agentspeak.runtime.Environment"):
                    continue
                n += 1
            arity = n + (1 if kind == "add_function" else 0)
        return {"functor": call.args[0].value, "kind": kind, "arity": arity, "specs": specs, "extra": extra,
                "module": mod, "node": call, "func": None, "impl": None, "target": None}

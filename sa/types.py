"""Which classes of objects can be where: a flow-insensitive inference over the whole package (fields per class,
containers per place where they are made, functions and bound methods as values).  Everything that is not known is ANY,
and nothing is claimed about it."""
import ast
import builtins as _b
import collections
import importlib
import inspect

from .model import AnalysisBroken, has_yield

_external = {}


def external(q):
    """(known, object) for a dotted name of the standard library."""
    if q in _external:
        return _external[q]
    mod, _, name = q.rpartition(".")
    r = (False, None)
    if q in STDLIB:
        try:
            r = (True, importlib.import_module(q))
        except ImportError:
            pass
    elif mod:
        known, o = external(mod)
        if known and o is not None and (inspect.ismodule(o) or inspect.isclass(o)):
            r = (True, getattr(o, name)) if hasattr(o, name) else (True, None)
            if not hasattr(o, name):
                r = (False, None)
    _external[q] = r
    return r


def lacks(q, name):
    known, o = external(q)
    if not known or not (inspect.ismodule(o) or inspect.isclass(o)):
        return False
    return not hasattr(o, name)


# callables that have no signature for inspect: least and most positional arguments (without self)
COUNTS = {"next": (1, 2), "iter": (1, 2), "int": (0, 2), "float": (0, 1), "str": (0, 3), "bool": (0, 1), "type": (1, 3), "getattr": (2, 3),
          "range": (1, 3), "list": (0, 1), "tuple": (0, 1), "set": (0, 1), "frozenset": (0, 1), "super": (0, 2), "dict.pop": (1, 2),
          "object": (0, 0), "min": (1, None), "max": (1, None), "map": (2, None), "filter": (2, 2), "reversed": (1, 1), "slice": (1, 3),
          "deque.append": (1, 1), "deque.appendleft": (1, 1), "deque.pop": (0, 0), "deque.popleft": (0, 0), "deque.remove": (1, 1),
          "deque.clear": (0, 0), "deque.extend": (1, 1), "deque.extendleft": (1, 1), "set.add": (1, 1), "set.remove": (1, 1),
          "set.discard": (1, 1), "set.clear": (0, 0), "set.copy": (0, 0), "str.startswith": (1, 3), "str.endswith": (1, 3),
          "str.find": (1, 3), "str.index": (1, 3), "str.rfind": (1, 3), "str.count": (1, 3), "dict.update": (0, 1), "dict.keys": (0, 0),
          "dict.values": (0, 0), "dict.items": (0, 0), "dict.get": (1, 2), "re.Match.group": (0, None), "str.join": (1, 1)}


def misfit(o, args, kw, bound):
    """Why a call does not fit a function of the standard library, or None."""
    name = getattr(o, "__qualname__", None) or getattr(o, "__name__", "")
    if name in COUNTS and not kw:
        low, high = COUNTS[name]
        if not (low <= len(args) and (high is None or len(args) <= high)):
            return "takes %s to %s arguments and gets %d" % (low, "any" if high is None else high, len(args))
        return None
    try:
        sig = inspect.signature(o)
    except (ValueError, TypeError):
        return None
    try:
        sig.bind(*([None] * (len(args) + bound)), **{k: None for k in kw})
    except TypeError as err:
        return str(err)
    return None


ANY = ("any",)
NONE = ("b", "NoneType")
BUILTIN = {"str": str, "int": int, "float": float, "bool": bool, "NoneType": type(None), "bytes": bytes, "range": range, "complex": complex,
           "list": list, "dict": dict, "set": set, "tuple": tuple, "gen": type(x for x in ()), "object": object, "slice": slice, "type": type}
for _n in ("re.Pattern", "re.Match", "io.TextIOWrapper", "datetime.datetime", "datetime.date", "datetime.timedelta", "argparse.ArgumentParser",
           "argparse.Namespace", "logging.Logger"):
    _m, _, _c = _n.rpartition(".")
    BUILTIN[_n] = getattr(importlib.import_module(_m), _c)
for _n in dir(_b):
    if isinstance(getattr(_b, _n), type) and issubclass(getattr(_b, _n), BaseException):
        BUILTIN[_n] = getattr(_b, _n)
# what calls into the standard library return
RETURNS = {
    "re.compile": ("re.Pattern",), "re.match": ("re.Match", "NoneType"), "re.search": ("re.Match", "NoneType"), "re.fullmatch": ("re.Match", "NoneType"),
    "re.sub": ("str",), "re.escape": ("str",), "io.open": ("io.TextIOWrapper",), "builtins.open": ("io.TextIOWrapper",), "os.getcwd": ("str",),
    "re.Pattern.match": ("re.Match", "NoneType"), "re.Pattern.search": ("re.Match", "NoneType"), "re.Pattern.fullmatch": ("re.Match", "NoneType"),
    "re.Pattern.sub": ("str",), "re.Match.end": ("int",), "re.Match.start": ("int",), "re.Match.group": ("str", "NoneType"),
    "io.TextIOWrapper.read": ("str",), "io.TextIOWrapper.readline": ("str",), "io.TextIOWrapper.write": ("int",),
    "os.path.join": ("str",), "os.path.dirname": ("str",), "os.path.normpath": ("str",), "os.path.basename": ("str",), "os.path.abspath": ("str",),
    "os.path.isfile": ("bool",), "os.path.exists": ("bool",), "math.floor": ("int",), "math.ceil": ("int",), "math.sqrt": ("float",),
    "random.random": ("float",), "random.uniform": ("float",), "time.time": ("float",), "time.monotonic": ("float",), "time.sleep": ("NoneType",),
    "logging.getLogger": ("logging.Logger",), "argparse.ArgumentParser": ("argparse.ArgumentParser",),
    "datetime.datetime.now": ("datetime.datetime",), "datetime.datetime.isoformat": ("str",), "datetime.datetime.strftime": ("str",),
    "traceback.format_exc": ("str",), "sys.exit": (), "builtins.exit": (), "os.linesep": ("str",),
    "int.__str__": ("str",), "str.__len__": ("int",),
}
STDLIB = {"re", "os", "os.path", "sys", "math", "random", "time", "datetime", "collections", "functools", "enum", "operator", "traceback", "argparse",
          "hashlib", "logging", "copy", "itertools", "json", "signal", "threading", "inspect", "types", "string", "contextlib", "errno", "io",
          "pprint", "warnings", "numbers", "abc", "textwrap", "builtins"}
CONTAINERS = ("list", "dict", "set", "tuple", "deque", "iter")
NAMES = set(dir(_b)) | {"__file__", "__name__", "__doc__", "raw_input", "unicode", "basestring", "long", "xrange"}


class Types(object):
    def __init__(self, prog, skip=()):
        self.prog, self.skip = prog, set(skip)
        self.vars = {}         # (scope, name) -> set
        self.fields = {}       # (object, field) -> set
        self.rets = {}         # function id -> set
        self.yields = {}
        self.changed = True
        self.missing = {}      # node -> (base set, attr, scope)
        self.arity = {}        # node -> message
        self.calls = {}        # call node -> set of callees
        self.values = {}       # expression node -> set
        self.where = {}        # expression node -> Scope
        self.unknown = {}      # name node -> name
        self.fns = {}          # id -> Scope
        self.parts = {}
        self.nt = {}           # namedtuple qual -> fields
        self.reached = set()
        self.locals_cache = {}
        rounds = 0
        for m in prog.modules.values():
            if m.name not in self.skip:
                self.named_tuples(m)
        while self.changed:
            self.changed = False
            self.arity = {}
            self.missing = {}
            self.reports = rounds
            rounds += 1
            for m in prog.modules.values():
                if m.name not in self.skip:
                    self.module(m)
            if rounds > 60:
                raise AnalysisBroken("the inference of types does not end")
        self.rounds = rounds

    # -- values

    def add(self, d, k, vs):
        s = d.setdefault(k, set())
        n = len(s)
        s |= vs
        if ANY in s and len(s) > 400:
            pass
        if len(s) != n:
            self.changed = True

    def named_tuples(self, m):
        for name, vals in m.assigns.items():
            for v in vals:
                if isinstance(v, ast.Call) and self.prog.resolve_expr(m, v.func) == "collections.namedtuple" and len(v.args) > 1:
                    a = v.args[1]
                    if isinstance(a, ast.Constant):
                        self.nt[m.name + "." + name] = a.value.replace(",", " ").split()
                    elif isinstance(a, (ast.List, ast.Tuple)):
                        self.nt[m.name + "." + name] = [x.value for x in a.elts]

    def module(self, m):
        s = Scope(self, m, None, None, m.name)
        self.body(m.tree.body, s)

    # -- statements

    def body(self, stmts, s):
        old = s.narrow
        for n in stmts:
            self.stmt(n, s)
            if isinstance(n, ast.If):
                if terminates(n.body, loops=True):
                    s.narrow = s.narrow + self.tests(n.test, False, s)
                elif n.orelse and terminates(n.orelse, loops=True):
                    s.narrow = s.narrow + self.tests(n.test, True, s)
            elif isinstance(n, ast.Assert):
                s.narrow = s.narrow + self.tests(n.test, True, s)
            self.forget(n, s)
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.became(t, n.value, s)
        s.narrow = old

    def forget(self, n, s):
        if s.narrow:
            st = stored(n)
            if st:
                s.narrow = tuple(x for x in s.narrow if not (x[3] & st))

    def became(self, t, value, s):
        """After x = value, x is that value until it is set again."""
        if isinstance(t, ast.Name) and t.id in s.names and t.id not in names_in(value) or isinstance(t, ast.Name) and t.id in s.names:
            vs = self.values.get((value, s.ctx))
            if vs is not None:
                s.narrow = s.narrow + ((ast.dump(ast.Name(t.id, ast.Load())), frozenset(vs), "is", frozenset([t.id])),)
        elif isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Name) for x in t.elts):
            vs = self.values.get((value, s.ctx))
            for i, x in enumerate(t.elts):
                if vs is not None and x.id in s.names:
                    s.narrow = s.narrow + ((ast.dump(ast.Name(x.id, ast.Load())), frozenset(self.item(vs, i, len(t.elts))), "is", frozenset([x.id])),)

    def under(self, facts, f, s):
        old = s.narrow
        s.narrow = s.narrow + facts
        try:
            return f()
        finally:
            s.narrow = old

    def tests(self, t, pol, s):
        """What a condition says about the classes of names: ((place, classes, polarity, names), ...)"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.tests(t.operand, not pol, s)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == pol:
                out = ()
                for x in t.values:
                    out += self.tests(x, pol, s)
                return out
            return ()
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2 and isinstance(t.args[0], (ast.Name, ast.Attribute)):
            cls = frozenset(self.flat(self.eval(t.args[1], s)))
            if cls:
                return ((ast.dump(t.args[0]), cls, pol, names_in(t.args[0])),)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot)) and isinstance(t.comparators[0], ast.Constant) and \
                t.comparators[0].value is None and isinstance(t.left, (ast.Name, ast.Attribute)):
            return ((ast.dump(t.left), frozenset([NONE]), pol == isinstance(t.ops[0], ast.Is), names_in(t.left)),)
        if isinstance(t, (ast.Name, ast.Attribute)) and pol:
            return ((ast.dump(t), frozenset([NONE]), False, names_in(t)),)
        return ()

    def narrowed(self, n, vs, s):
        sc = s
        fs = ()
        while sc is not None:
            fs += sc.narrow
            if sc.fn is not None and not sc.comp:
                break
            sc = sc.parent
        if not fs:
            return vs
        d = ast.dump(n)
        for place, cls, pol, _ in fs:
            if place == d and pol == "is":
                vs = vs & cls
            elif place == d:
                vs = {v for v in vs if self.matches(v, cls) in (pol, None)}
        return vs

    def matches(self, v, cls):
        """Is the object an instance of one of these classes?  None: not known."""
        if v == ANY:
            return None
        r = False
        for c in cls:
            if c == NONE:
                r = r or v == NONE
            elif c[0] == "cls":
                r = r or v[0] == "inst" and v[1] in self.prog.classes and c[1] in self.prog.mro(v[1]) or v[0] == "inst" and v[1] == c[1]
            elif c[0] == "ext" and c[1].startswith("builtins."):
                k = c[1].rsplit(".", 1)[1]
                if k == "object":
                    r = True
                elif k in ("str", "int", "float", "bool", "tuple", "list", "dict", "set", "bytes", "complex"):
                    r = r or v == ("b", k) or v[0] == k or k == "int" and v == ("b", "bool") or k == "tuple" and v[0] == "inst" and v[1] in self.nt
                elif r is False:
                    return None
            else:
                return None
        return r

    def stmt(self, n, s):
        t = type(n)
        if t in (ast.FunctionDef, ast.AsyncFunctionDef):
            f = self.function(n, s)
            v = {f}
            for d in reversed(n.decorator_list):
                dv = self.eval(d, s)
                if dv == {("ext", "builtins.staticmethod")} or dv == {("ext", "builtins.classmethod")} or dv == {("ext", "builtins.property")}:
                    v = {("deco", next(iter(dv))[1].rsplit(".", 1)[1], f)}
                    continue
                v = self.call_values(dv, [v], {}, d, s, None)
            self.bind(s, n.name, v)
            if s.cls is None or s.fn is not None:
                pass
        elif t is ast.ClassDef:
            self.classdef(n, s)
        elif t is ast.Return:
            if n.value is not None:
                self.add(self.rets, s.id, self.eval(n.value, s))
            else:
                self.add(self.rets, s.id, {NONE})
        elif t is ast.Assign:
            v = self.eval(n.value, s)
            if s.fn is None and not s.is_class and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                    s.module.name + "." + n.targets[0].id in self.nt:
                v = {("cls", s.module.name + "." + n.targets[0].id)}
            for x in n.targets:
                self.assign(x, v, s, n.value)
        elif t is ast.AugAssign:
            v = self.eval(n.value, s)
            if isinstance(n.target, (ast.Name, ast.Attribute)):
                old = self.eval(self.load(n.target), s)
                cont = {x for x in old if x[0] in CONTAINERS}
                for x in cont:
                    self.add(self.fields, (x, "[]"), self.element(v))
                if not cont:
                    self.assign(n.target, self.binop(old, v, n.op), s)
            else:
                self.eval(n.target, s)
        elif t is ast.AnnAssign:
            if n.value is not None:
                self.assign(n.target, self.eval(n.value, s), s, n.value)
        elif t in (ast.For, ast.AsyncFor):
            self.assign(n.target, self.element(self.eval(n.iter, s)), s)
            self.forget(n, s)
            self.body(n.body, s)
            self.body(n.orelse, s)
        elif t is ast.While:
            self.forget(n, s)
            self.eval(n.test, s)
            self.under(tuple(x for x in self.tests(n.test, True, s)), lambda: self.body(n.body, s), s)
            self.body(n.orelse, s)
        elif t is ast.If:
            self.eval(n.test, s)
            self.under(self.tests(n.test, True, s), lambda: self.body(n.body, s), s)
            self.under(self.tests(n.test, False, s), lambda: self.body(n.orelse, s), s)
        elif t is ast.With:
            for it in n.items:
                v = self.eval(it.context_expr, s)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v if v <= {("b", "io.TextIOWrapper")} else {ANY}, s)
            self.body(n.body, s)
        elif t is ast.Try:
            self.body(n.body, s)
            self.forget(n, s)
            for h in n.handlers:
                if h.type is not None:
                    ty = self.eval(h.type, s)
                    if h.name:
                        vs = set()
                        for x in self.flat(ty):
                            vs.add(("inst", x[1]) if x[0] == "cls" else
                                   ("b", x[1][9:]) if x[0] == "ext" and x[1].startswith("builtins.") and x[1][9:] in BUILTIN else ANY)
                        self.bind(s, h.name, vs)
                self.body(h.body, s)
            self.body(n.orelse, s)
            self.body(n.finalbody, s)
        elif t is ast.Raise:
            for x in (n.exc, n.cause):
                if x is not None:
                    v = self.eval(x, s)
                    for c in v:
                        if c[0] == "cls":
                            self.construct(c[1], [], {}, x, s)
        elif t is ast.Expr:
            self.eval(n.value, s)
        elif t is ast.Assert:
            self.eval(n.test, s)
            if n.msg is not None:
                self.eval(n.msg, s)
        elif t is ast.Delete:
            for x in n.targets:
                if isinstance(x, ast.Subscript):
                    self.eval(x.value, s)
        elif t is ast.Import:
            for a in n.names:
                name = a.asname or a.name.split(".")[0]
                q = a.name if a.asname else a.name.split(".")[0]
                self.bind(s, name, {self.imported(q)})
        elif t is ast.ImportFrom:
            for a in n.names:
                q = (n.module or "") + "." + a.name
                if n.module in self.prog.modules and q not in self.prog.modules:
                    v = self.module_attr(n.module, a.name, None, s)
                    self.bind(s, a.asname or a.name, v)
                else:
                    self.bind(s, a.asname or a.name, {self.imported(q)})

    def imported(self, q):
        if q in self.prog.modules and q not in self.skip:
            return ("mod", q)
        if q.split(".")[0] == "agentspeak":
            return ANY
        return ("ext", q)

    def load(self, t):
        if isinstance(t, ast.Name):
            r = ast.Name(t.id, ast.Load())
        else:
            r = ast.Attribute(t.value, t.attr, ast.Load())
        return ast.copy_location(r, t)

    def flat(self, vs):
        out = set()
        for x in vs:
            if x[0] == "tuple":
                out |= self.element({x})
            else:
                out.add(x)
        return out

    def bind(self, s, name, vs):
        self.add(self.vars, (s.owner(name), name), vs)

    def assign(self, t, vs, s, value=None):
        if isinstance(t, ast.Name):
            self.bind(s, t.id, vs)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                for x, v in zip(t.elts, value.elts):
                    self.assign(x, self.eval(v, s), s, v)
                return
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    l = ("list", id(x))
                    self.add(self.fields, (l, "[]"), self.element(vs))
                    self.assign(x.value, {l}, s)
                else:
                    self.assign(x, self.item(vs, i, len(t.elts)), s)
        elif isinstance(t, ast.Attribute):
            for o in self.eval(t.value, s):
                if o[0] == "inst":
                    self.add(self.fields, (o, t.attr), vs)
                elif o[0] in ("cls", "fn", "mod"):
                    self.add(self.fields, (o, t.attr), vs)
        elif isinstance(t, ast.Subscript):
            k = self.eval(t.slice, s)
            for o in self.eval(t.value, s):
                if o[0] in CONTAINERS:
                    self.add(self.fields, (o, "[]"), vs if not isinstance(t.slice, ast.Slice) else self.element(vs))
                    if o[0] == "dict":
                        self.add(self.fields, (o, "k"), k)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, vs, s)

    def item(self, vs, i, n=None):
        out = set()
        for v in vs:
            if v[0] == "tuple" and isinstance(v[2], int):
                if n is not None and v[2] != n:
                    continue
                if -v[2] <= i < v[2]:
                    out |= self.fields.get((v, i % v[2]), set())
            elif v[0] == "inst" and v[1] in self.nt:
                fs = self.nt[v[1]]
                if -len(fs) <= i < len(fs):
                    out |= self.fields.get((v, fs[i]), set())
            else:
                out |= self.element({v})
        return out

    def element(self, vs):
        out = set()
        for v in vs:
            if v[0] == "tuple" and isinstance(v[2], int):
                for i in range(v[2]):
                    out |= self.fields.get((v, i), set())
            elif v[0] == "dict":
                out |= self.fields.get((v, "k"), set())
            elif v[0] in CONTAINERS or v[0] == "tuple":
                out |= self.fields.get((v, "[]"), set())
            elif v[0] == "gen":
                out |= self.yields.get(v[1], set())
            elif v == ("b", "str") or v == ("b", "io.TextIOWrapper"):
                out.add(("b", "str"))
            elif v == ("b", "range") or v == ("b", "bytes"):
                out.add(("b", "int"))
            elif v[0] == "inst":
                if v[1] in self.nt:
                    for f in self.nt[v[1]]:
                        out |= self.fields.get((v, f), set())
                    continue
                m = self.prog.find_method(v[1], "__iter__")
                if m is not None:
                    r = self.call_fn(self.fnid(m), [{v}], {}, None, None)
                    out |= self.element({x for x in r if x != v})
                    if v in r:
                        nx = self.prog.find_method(v[1], "__next__")
                        if nx is not None:
                            out |= self.call_fn(self.fnid(nx), [{v}], {}, None, None)
                else:
                    nx = self.prog.find_method(v[1], "__getitem__")
                    out |= self.call_fn(self.fnid(nx), [{v}, {("b", "int")}], {}, None, None) if nx is not None else {ANY}
            elif v[0] == "cls" and self.is_enum(v[1]):
                out.add(("inst", v[1]))
            elif v == NONE or v[0] == "b":
                pass
            else:
                out.add(ANY)
        return out

    # -- definitions

    def function(self, n, s, ctx=None):
        ctx = ctx if ctx is not None else s.ctx
        fid = ("fn", id(n), ctx)
        if fid not in self.fns:
            self.fns[fid] = Scope(self, s.module, n, s, ("f", id(n), ctx), cls=s.cls if s.is_class else None, ctx=ctx)
        if s.is_class and ctx is None and isinstance(n, ast.FunctionDef) and n.args.args and not any(
                isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in n.decorator_list):
            # a method is looked at once for every class that has it
            for c in self.prog.subclasses(s.cls):
                if n.name in DUNDER or not forwards(n):
                    self.function(n, s, ctx=("inst", c))
            return fid
        sc = self.fns[fid]
        a = n.args
        for p, d in list(zip((a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults)) + \
                [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            self.bind(sc, p.arg, self.eval(d, s))
        if s.is_class and (a.posonlyargs + a.args) and not any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in getattr(n, "decorator_list", ())):
            self.bind(sc, (a.posonlyargs + a.args)[0].arg, {ctx if ctx[0] == "inst" else ctx[0]} if ctx else {("inst", c) for c in self.prog.subclasses(s.cls)})
        if a.vararg:
            self.bind(sc, a.vararg.arg, {("tuple", sc.id, "*")})
        if a.kwarg:
            self.bind(sc, a.kwarg.arg, {("dict", sc.id)})
        if isinstance(n, ast.Lambda):
            self.add(self.rets, sc.id, self.eval(n.body, sc))
        else:
            self.body(n.body, sc)
            if not terminates(n.body) and not sc.is_gen:
                self.add(self.rets, sc.id, {NONE})
        return fid

    def fnid(self, f):
        return ("fn", id(f.node), None)

    def classdef(self, n, s):
        q = s.module.name + "." + n.name
        if q not in self.prog.classes or self.prog.classes[q].node is not n:
            self.bind(s, n.name, {ANY})
            return
        for b in n.bases:
            self.eval(b, s)
        cs = Scope(self, s.module, None, s, ("c", q), cls=q, is_class=True)
        self.body(n.body, cs)
        for d in n.decorator_list:
            self.eval(d, s)
        self.bind(s, n.name, {("cls", q)})

    def is_enum(self, q):
        return any(b in ("enum.Enum", "enum.IntEnum") for c in self.prog.mro(q) for b in self.prog.classes[c].bases)

    def known_bases(self, q):
        """Does the class inherit from nothing but classes of the package (and object)?"""
        return all(b in self.prog.classes or b in ("builtins.object",) for c in self.prog.mro(q) for b in self.prog.classes[c].bases)

    # -- attributes

    def module_attr(self, m, name, node, s):
        if (m, name) in self.vars:
            return self.vars[(m, name)]
        if m + "." + name in self.prog.modules:
            return {("mod", m + "." + name)} if m + "." + name not in self.skip else {ANY}
        if ("mod", m) and (("mod", m), name) in self.fields:
            return self.fields[(("mod", m), name)]
        mod = self.prog.modules[m]
        if name in mod.names or name in mod.imports or name.startswith("__"):
            return set() if name in mod.names else {ANY}
        if node is not None:
            self.missing[node] = ({("mod", m)}, name, s)
        return set()

    def attr(self, vs, name, node, s):
        out = set()
        lack = set()
        for v in vs:
            r = self.attr1(v, name, node, s)
            if r is None:
                lack.add(v)
            else:
                out |= r
        if node is not None:
            if lack:
                self.missing[node, s.ctx] = (lack, name, s, set(vs))
            else:
                self.missing.pop((node, s.ctx), None)
        return out

    def attr1(self, v, name, node, s):
        k = v[0]
        if k == "any":
            return {ANY}
        if k == "mod":
            if node is None:
                return set()
            before = self.missing.get(node)
            r = self.module_attr(v[1], name, None, s)
            if r or (v[1], name) in self.vars or name in self.prog.modules[v[1]].names or name in self.prog.modules[v[1]].imports:
                return r
            return r if v[1] + "." + name in self.prog.modules else None
        if k == "ext":
            if lacks(v[1], name):
                return None
            return {("ext", v[1] + "." + name)} if not v[1].startswith("builtins.") else {ANY}
        if k == "inst":
            q = v[1]
            if q in self.nt:
                if name in self.nt[q]:
                    return self.fields.get((v, name), set())
                return {("bi", v, name)} if name in dir(tuple) + ["_replace", "_asdict", "_fields"] else None
            if self.is_enum(q):
                if name == "name":
                    return {("b", "str")}
                if name == "value":
                    out = set()
                    for c in self.prog.mro(q):
                        for n_ in self.prog.classes[c].assigns:
                            if n_.startswith("_"):
                                continue
                            out |= self.vars.get((("c", c), n_), set())
                    return out
            out = set(self.fields.get((v, name), set()))
            found = (v, name) in self.fields
            for c in self.prog.mro(q):
                key = (("c", c), name)
                if key in self.vars:
                    found = True
                    for x in self.vars[key]:
                        if x[0] == "fn":
                            out.add(("bm", x, v))
                        elif x[0] == "deco":
                            if x[1] == "staticmethod":
                                out.add(x[2])
                            elif x[1] == "classmethod":
                                out.add(("bm", x[2], ("cls", q)))
                            else:
                                out |= self.call_fn(x[2], [{v}], {}, node, s)
                        else:
                            out.add(x)
                    break
            if found:
                return out
            if name in dir(object) or not self.known_bases(q):
                return {ANY}
            return None
        if k == "cls":
            q = v[1]
            if q in self.nt:
                return {ANY}
            if self.is_enum(q) and name in self.prog.classes[q].assigns:
                return {("inst", q)}
            for c in self.prog.mro(q):
                if (("c", c), name) in self.vars:
                    return {x[2] if x[0] == "deco" else x for x in self.vars[(("c", c), name)]}
            if (v, name) in self.fields:
                return self.fields[(v, name)]
            if name in dir(type) or not self.known_bases(q):
                return {ANY}
            return None
        if k == "b":
            return {("bi", v, name)} if hasattr(BUILTIN[v[1]], name) or v[1] == "float" and hasattr(int, name) else None
        if k in CONTAINERS:
            if k == "deque":
                import collections
                return {("bi", v, name)} if hasattr(collections.deque, name) else None
            if k == "iter":
                return {("bi", v, name)} if name in dir(list) or name.startswith("__") or name == "next" else None
            return {("bi", v, name)} if hasattr(BUILTIN[k], name) else None
        if k == "gen":
            return {("bi", v, name)} if hasattr(BUILTIN["gen"], name) else None
        if k in ("fn", "bm", "bi", "deco", "part"):
            return {ANY}
        return {ANY}

    # -- expressions

    def eval(self, n, s):
        r = self.eval1(n, s)
        self.values[n, s.ctx] = r
        self.where.setdefault(n, s)
        return r

    def eval1(self, n, s):
        t = type(n)
        if t is ast.Constant:
            return {("b", type(n.value).__name__)} if type(n.value).__name__ in BUILTIN else {ANY}
        if t is ast.Name:
            return self.narrowed(n, self.name(n, s), s)
        if t is ast.Attribute:
            return self.narrowed(n, self.attr(self.eval(n.value, s), n.attr, n, s), s)
        if t is ast.Call:
            return self.call(n, s)
        if t in (ast.List, ast.Set, ast.Tuple):
            k = {ast.List: "list", ast.Set: "set", ast.Tuple: "tuple"}[t]
            star = any(isinstance(x, ast.Starred) for x in n.elts)
            if t is ast.Tuple:
                o = ("tuple", (id(n), s.ctx), len(n.elts) if not star else "*")
            else:
                o = (k, (id(n), s.ctx))
            for i, x in enumerate(n.elts):
                if isinstance(x, ast.Starred):
                    self.add(self.fields, (o, "[]"), self.element(self.eval(x.value, s)))
                else:
                    self.add(self.fields, (o, i if k == "tuple" and not star else "[]"), self.eval(x, s))
            return {o}
        if t is ast.Dict:
            o = ("dict", (id(n), s.ctx))
            for a, b in zip(n.keys, n.values):
                if a is not None:
                    self.add(self.fields, (o, "k"), self.eval(a, s))
                    self.add(self.fields, (o, "[]"), self.eval(b, s))
                else:
                    self.eval(b, s)
            return {o}
        if t is ast.BoolOp:
            out = set()
            facts = ()
            for x in n.values:
                r = self.under(facts, lambda: self.eval(x, s), s)
                facts += self.tests(x, isinstance(n.op, ast.And), s)
                if isinstance(n.op, ast.Or) and x is not n.values[-1]:
                    r = r - {NONE}
                out |= r
            return out
        if t is ast.BinOp:
            a, b = self.eval(n.left, s), self.eval(n.right, s)
            return self.binop(a, b, n.op)
        if t is ast.UnaryOp:
            v = self.eval(n.operand, s)
            return {("b", "bool")} if isinstance(n.op, ast.Not) else v
        if t is ast.Compare:
            self.eval(n.left, s)
            for x in n.comparators:
                self.eval(x, s)
            return {("b", "bool")}
        if t is ast.IfExp:
            self.eval(n.test, s)
            return self.under(self.tests(n.test, True, s), lambda: self.eval(n.body, s), s) | \
                self.under(self.tests(n.test, False, s), lambda: self.eval(n.orelse, s), s)
        if t is ast.Lambda:
            return {self.function(n, s)}
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            sc = Scope(self, s.module, None, s, ("x", id(n), s.ctx), cls=s.cls, comp=True)
            for g in n.generators:
                self.assign_comp(g.target, self.element(self.eval(g.iter, sc)), sc)
                for c in g.ifs:
                    self.eval(c, sc)
                    sc.narrow = sc.narrow + self.tests(c, True, sc)
            if t is ast.DictComp:
                o = ("dict", (id(n), s.ctx))
                self.add(self.fields, (o, "k"), self.eval(n.key, sc))
                self.add(self.fields, (o, "[]"), self.eval(n.value, sc))
                return {o}
            o = ({ast.ListComp: "list", ast.SetComp: "set", ast.GeneratorExp: "iter"}[t], (id(n), s.ctx))
            self.add(self.fields, (o, "[]"), self.eval(n.elt, sc))
            return {o}
        if t is ast.Subscript:
            vs = self.eval(n.value, s)
            if isinstance(n.slice, ast.Slice):
                for x in (n.slice.lower, n.slice.upper, n.slice.step):
                    if x is not None:
                        self.eval(x, s)
                out = set()
                for v in vs:
                    if v[0] == "tuple" and isinstance(v[2], int):
                        o = ("tuple", (id(n), s.ctx), "*")
                        self.add(self.fields, (o, "[]"), self.element({v}))
                        out.add(o)
                    else:
                        out.add(v if v[0] in CONTAINERS or v == ("b", "str") else ANY)
                return out
            self.eval(n.slice, s)
            out = set()
            for v in vs:
                if v[0] == "dict":
                    out |= self.fields.get((v, "[]"), set())
                elif v[0] in ("cls", "inst") and v[1] not in self.nt:
                    out.add(ANY if v[0] == "inst" else ("inst", v[1]))
                else:
                    i = n.slice.value if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) else None
                    if isinstance(n.slice, ast.UnaryOp) and isinstance(n.slice.op, ast.USub) and isinstance(n.slice.operand, ast.Constant):
                        i = -n.slice.operand.value
                    out |= self.item({v}, i) if i is not None else self.element({v})
            return out
        if t is ast.Starred:
            return self.eval(n.value, s)
        if t is ast.JoinedStr:
            for x in n.values:
                if isinstance(x, ast.FormattedValue):
                    self.eval(x.value, s)
            return {("b", "str")}
        if t in (ast.Yield, ast.YieldFrom):
            if n.value is None:
                self.add(self.yields, s.fn_id(), {NONE})
            else:
                v = self.eval(n.value, s)
                self.add(self.yields, s.fn_id(), v if t is ast.Yield else self.element(v))
            return {ANY}
        if t is ast.NamedExpr:
            v = self.eval(n.value, s)
            self.assign(n.target, v, s)
            return v
        return {ANY}

    def assign_comp(self, t, vs, sc):
        for x in ast.walk(t):
            if isinstance(x, ast.Name):
                sc.names.add(x.id)
        self.assign(t, vs, sc)

    def binop(self, a, b, op):
        out = set()
        if isinstance(op, ast.Mod) and ("b", "str") in a:
            return {("b", "str")} | ({ANY} if ANY in a else set())
        for x in a | b:
            if x == ANY or x[0] in ("inst", "ext"):
                out.add(ANY)
            elif x[0] == "tuple":
                o = ("tuple", x[1], "*")
                if x[2] != "*":
                    self.add(self.fields, (o, "[]"), self.element({x}))
                out.add(o)
            else:
                out.add(x)
        lists = [x for x in out if x[0] in ("list", "tuple", "set", "deque")]
        if len(lists) > 1:
            els = self.element(set(lists))
            for x in lists:
                if x[0] != "tuple" or x[2] == "*":
                    self.add(self.fields, (x, "[]"), els)
        return out

    def name(self, n, s):
        sc = s
        while sc is not None:
            if sc.has(n.id):
                r = self.vars.get((sc.key, n.id), set())
                return r
            sc = sc.parent
            while sc is not None and sc.is_class and not (s.is_class and sc is s):
                sc = sc.parent
        if n.id in NAMES:
            return {("ext", "builtins." + n.id)}
        self.unknown[n] = (n.id, s)
        return {ANY}

    # -- calls

    def call(self, n, s):
        fv = self.eval(n.func, s)
        args, star = [], False
        for a in n.args:
            if isinstance(a, ast.Starred):
                star = True
                self.add(self.vars, (("star", id(n)), "*"), self.element(self.eval(a.value, s)))
                args.append(("*", self.vars[(("star", id(n)), "*")]))
            else:
                args.append(self.eval(a, s))
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value, s)
            kw[k.arg] = v
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            q = s.method_cls()
            return {("super", q, v) for v in self.vars.get((s.method_key(), s.method_self()), ())} if q else {ANY}
        return self.call_values(fv, args, kw, n, s, star)

    def call_values(self, fv, args, kw, n, s, star):
        out = set()
        for f in list(fv):
            out |= self.call1(f, args, kw, n, s)
        if n is not None:
            self.calls[n] = set(fv)
        return out

    def call1(self, f, args, kw, n, s):
        k = f[0]
        if k == "fn":
            return self.call_fn(f, args, kw, n, s)
        if k == "bm":
            return self.call_fn(f[1], [{f[2]}] + list(args), kw, n, s)
        if k == "cls":
            return self.construct(f[1], args, kw, n, s)
        if k == "ext":
            return self.call_ext(f[1], args, kw, n, s)
        if k == "bi":
            return self.call_builtin(f[1], f[2], args, kw, n, s)
        if k == "inst":
            m = self.prog.find_method(f[1], "__call__") if f[1] in self.prog.classes else None
            return self.call_fn(self.fnid(m), [{f}] + list(args), kw, n, s) if m is not None else {ANY}
        if k == "deco":
            return self.call1(f[2], args, kw, n, s)
        if k == "part":
            given, names, node, scope = self.parts[f]
            out = set()
            for g in list(self.fields.get((f, "func"), ())):
                out |= self.call1(g, given + list(args), dict(names, **kw), node, scope)
            return out
        for a in list(args) + list(kw.values()):
            self.escape(a)
        return {ANY}

    def escape(self, a):
        """A function handed to code that is not known is called with anything."""
        if isinstance(a, tuple):
            return
        for x in a:
            if x[0] == "fn" and x in self.fns:
                sc = self.fns[x]
                for p in sc.params():
                    self.bind(sc, p, {ANY})

    def construct(self, q, args, kw, n, s):
        v = ("inst", q)
        if q in self.nt:
            fs = self.nt[q]
            pos = [a for a in args if not isinstance(a, tuple)]
            if len(pos) == len(args):
                for f, a in zip(fs, pos):
                    self.add(self.fields, (v, f), a)
                for f, a in kw.items():
                    if f in fs:
                        self.add(self.fields, (v, f), a)
                if n is not None:
                    self.check(len(pos) <= len(fs) and all(f in fs for f in kw if f) and (len(pos) + len(kw) >= len(fs) or None in kw),
                               n, "%s takes %d values" % (q, len(fs)), q, s)
            else:
                for f in fs:
                    for a in args:
                        self.add(self.fields, (v, f), a[1] if isinstance(a, tuple) else a)
            return {v}
        if self.is_enum(q):
            return {v}
        m = self.prog.find_method(q, "__init__")
        if m is not None:
            self.call_fn(self.fnid(m), [{v}] + list(args), kw, n, s)
        elif self.known_bases(q) and n is not None:
            self.check(not args and not kw, n, "%s takes no arguments" % q, q, s)
        return {v}

    def check(self, ok, n, msg, who, s):
        d = self.arity.setdefault((n, s.ctx), {})
        d[who] = d.get(who, ()) + ((msg,) if not ok and msg not in d.get(who, ()) else ())

    def call_fn(self, fid, args, kw, n, s):
        sc = self.fns.get(fid)
        if sc is not None and fid[2] is None and sc.parent is not None and sc.parent.is_class and args and not isinstance(args[0], tuple):
            # methods: by the class of the object they are called on
            k = forwards(sc.fn)
            out = set()
            for o in args[0]:
                ctx = o if o[0] == "inst" else None
                if k and len(args) > k and not isinstance(args[k], tuple) and ctx is not None:
                    for v in args[k]:
                        c2 = (ctx, v)
                        g = ("fn", fid[1], c2)
                        if g not in self.fns:
                            self.function(sc.fn, sc.parent, ctx=c2)
                        out |= self.call_fn(g, [{o}] + list(args[1:k]) + [{v}] + list(args[k + 1:]), kw, n, s)
                        self.function(sc.fn, sc.parent, ctx=c2)
                        out |= self.rets.get(self.fns[g].id, set())
                    continue
                g = ("fn", fid[1], ctx)
                if ctx is not None and g in self.fns:
                    out |= self.call_fn(g, [{o}] + list(args[1:]), kw, n, s)
            return out
        if sc is None:
            return set()
        self.reached.add(fid)
        a = sc.fn.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        only = [p.arg for p in a.kwonlyargs]
        star = [x for x in args if isinstance(x, tuple)]
        plain = []
        for x in args:
            if isinstance(x, tuple):
                break
            plain.append(x)
        for p, v in zip(pos, plain):
            self.bind(sc, p, v)
        rest = plain[len(pos):]
        if star:
            for p in pos[len(plain):]:
                for x in star:
                    self.bind(sc, p, x[1])
        if a.vararg:
            o = ("tuple", sc.id, "*")
            for x in rest:
                self.add(self.fields, (o, "[]"), x)
            for x in star:
                self.add(self.fields, (o, "[]"), x[1])
        for k, v in kw.items():
            if k is None:
                continue
            if k in pos or k in only:
                self.bind(sc, k, v)
            elif a.kwarg:
                o = ("dict", sc.id)
                self.add(self.fields, (o, "k"), {("b", "str")})
                self.add(self.fields, (o, "[]"), v)
        if n is not None:
            name = getattr(sc.fn, "name", "lambda")
            if not star and None not in kw:
                ndef = len(a.defaults)
                need = [p for p in pos[:len(pos) - ndef] if p not in kw][0:]
                given = len(plain)
                missing = [p for p in pos[given:len(pos) - ndef] if p not in kw] + [p for p, d in zip(only, a.kw_defaults) if d is None and p not in kw]
                self.check(not missing, n, "%s is called without %s" % (name, ", ".join(missing) or "its arguments"), fid, s)
                self.check(a.vararg or not rest, n, "%s is called with too many arguments" % name, fid, s)
            bad = [k for k in kw if k is not None and k not in pos + only]
            self.check(a.kwarg or not bad, n, "%s has no argument %s" % (name, ", ".join(bad) or "of this name"), fid, s)
            dup = [k for k in kw if k in pos[:len(plain)]]
            self.check(not dup, n, "%s is called with %s twice" % (name, ", ".join(dup) or "an argument"), fid, s)
        if sc.is_gen:
            return {("gen", sc.id)}
        return self.rets.get(sc.id, set())

    def site(self, kind, n, s, *elements):
        o = (kind, (id(n), s.ctx))
        for e in elements:
            self.add(self.fields, (o, "[]"), e)
        self.fields.setdefault((o, "[]"), set())
        return {o}

    def call_ext(self, q, args, kw, n, s):
        name = q.rsplit(".", 1)[-1]
        vals = [a[1] if isinstance(a, tuple) else a for a in args]
        known, o = external(q)
        if n is not None and isinstance(n, ast.Call) and known and callable(o) and not any(isinstance(a, tuple) for a in args) and None not in kw:
            why = misfit(o, args, kw, 0)
            self.check(why is None, n, "%s: %s" % (name, why), ("ext", q), s)
        if q in RETURNS:
            return {("b", x) for x in RETURNS[q]}
        if q.startswith("builtins.") and name in BUILTIN and isinstance(o, type) and issubclass(o, BaseException):
            return {("b", name)}
        if q.startswith("builtins."):
            if name in ("str", "repr", "format", "chr", "input", "ascii"):
                return {("b", "str")}
            if name in ("int", "len", "id", "hash", "ord"):
                return {("b", "int")}
            if name == "float":
                return {("b", "float")}
            if name in ("bool", "isinstance", "issubclass", "any", "all", "hasattr", "callable"):
                return {("b", "bool")}
            if name in ("list", "sorted"):
                return self.site("list", n, s, self.element(vals[0]) if vals else set())
            if name in ("set", "frozenset"):
                return self.site("set", n, s, self.element(vals[0]) if vals else set())
            if name == "tuple":
                o = ("tuple", (id(n), s.ctx), "*")
                self.add(self.fields, (o, "[]"), self.element(vals[0]) if vals else set())
                return {o}
            if name == "dict":
                o = ("dict", (id(n), s.ctx))
                for f in ("k", "[]"):
                    self.add(self.fields, (o, f), {ANY} if vals or kw else set())
                return {o}
            if name == "object":
                return {("b", "object")}
            if name in ("iter", "reversed", "filter"):
                return self.site("iter", n, s, self.element(vals[-1]) if vals else {ANY})
            if name == "next":
                out = set()
                for v in vals[0] if vals else ():
                    m = self.prog.find_method(v[1], "__next__") if v[0] == "inst" and v[1] in self.prog.classes else None
                    out |= self.call_fn(self.fnid(m), [{v}], {}, None, s) if m is not None else self.element({v})
                for v in vals[1:]:
                    out |= v
                return out
            if name == "enumerate":
                o = ("tuple", (id(n), s.ctx), 2)
                self.add(self.fields, (o, 0), {("b", "int")})
                self.add(self.fields, (o, 1), self.element(vals[0]) if vals else {ANY})
                return self.site("iter", n, s, {o})
            if name == "zip":
                o = ("tuple", (id(n), s.ctx), len(vals) if len(vals) == len(args) and not any(isinstance(a, tuple) for a in args) else "*")
                for i, v in enumerate(vals):
                    self.add(self.fields, (o, i if o[2] != "*" else "[]"), self.element(v))
                return self.site("iter", n, s, {o})
            if name == "map":
                out = set()
                for f in vals[0] if vals else ():
                    out |= self.call1(f, [self.element(v) for v in vals[1:]], {}, None, s)
                return self.site("iter", n, s, out)
            if name == "range":
                return {("b", "range")}
            if name in ("min", "max", "sum", "abs", "round", "divmod", "pow"):
                if name in ("min", "max"):
                    return self.element(vals[0]) if len(vals) == 1 else set().union(*vals) if vals else {ANY}
                return {ANY}
            if name == "print":
                return {NONE}
            if name == "getattr":
                return {ANY}
        if q in ("collections.deque",):
            return self.site("deque", n, s, self.element(vals[0]) if vals else set())
        if q in ("collections.defaultdict",):
            o = ("dict", (id(n), s.ctx))
            self.fields.setdefault((o, "k"), set())
            for f in vals[0] if vals else ():
                self.add(self.fields, (o, "[]"), self.call1(f, [], {}, n, s))
            return {o}
        if q in ("copy.copy", "copy.deepcopy"):
            return vals[0] if vals else {ANY}
        if q == "functools.partial" and vals and not any(isinstance(a, tuple) for a in args) and n is not None:
            o = ("part", (id(n), s.ctx))
            self.add(self.fields, (o, "func"), vals[0])
            self.parts[o] = (vals[1:], kw, n, s)
            return {o}
        if q == "functools.wraps":
            return {ANY}
        for a in list(args) + list(kw.values()):
            self.escape(a)
        return {ANY}

    def call_builtin(self, o, name, args, kw, n, s):
        k = o[0]
        vals = [a[1] if isinstance(a, tuple) else a for a in args]
        cls = BUILTIN.get(o[1]) if k == "b" else collections.deque if k == "deque" else BUILTIN.get(k)
        if cls is not None and n is not None and isinstance(n, ast.Call) and not any(isinstance(a, tuple) for a in args) and None not in kw:
            m = inspect.getattr_static(cls, name, None)
            if m is not None and not isinstance(m, (staticmethod, classmethod)) and type(m).__name__ != "classmethod_descriptor":
                why = misfit(m, args, kw, 1)
                self.check(why is None, n, "%s: %s" % (name, why), ("ext", (cls.__name__ + "." + name)), s)
        if k == "b" and o[1] + "." + name in RETURNS:
            return {("b", x) for x in RETURNS[o[1] + "." + name]}
        if k in CONTAINERS:
            if name in ("append", "appendleft", "add"):
                self.add(self.fields, (o, "[]"), vals[0] if vals else set())
                return {NONE}
            if name == "insert":
                self.add(self.fields, (o, "[]"), vals[1] if len(vals) > 1 else set())
                return {NONE}
            if name in ("extend", "update", "extendleft") and k != "dict":
                self.add(self.fields, (o, "[]"), self.element(vals[0]) if vals else set())
                return {NONE}
            if k == "dict":
                if name == "update":
                    for f in ("k", "[]"):
                        for v in vals[0] if vals else ():
                            self.add(self.fields, (o, f), self.fields.get((v, f), set()) if v[0] == "dict" else {ANY})
                    return {NONE}
                if name in ("get", "pop", "setdefault"):
                    out = set(self.fields.get((o, "[]"), set()))
                    if name == "setdefault" and len(vals) > 1:
                        self.add(self.fields, (o, "[]"), vals[1])
                        self.add(self.fields, (o, "k"), vals[0])
                    for v in vals[1:]:
                        out |= v
                    return out | ({NONE} if name == "get" and len(vals) < 2 else set())
                if name == "values":
                    return self.site("iter", n, s, self.fields.get((o, "[]"), set()))
                if name == "keys":
                    return self.site("iter", n, s, self.fields.get((o, "k"), set()))
                if name == "items":
                    p = ("tuple", (id(n), s.ctx), 2)
                    self.add(self.fields, (p, 0), self.fields.get((o, "k"), set()))
                    self.add(self.fields, (p, 1), self.fields.get((o, "[]"), set()))
                    return self.site("iter", n, s, {p})
                if name == "copy":
                    return {o}
            if name in ("pop", "popleft"):
                return self.element({o})
            if name == "copy":
                return {o}
            if name in ("remove", "clear", "sort", "reverse", "discard"):
                return {NONE}
            if name in ("index", "count"):
                return {("b", "int")}
            return {ANY}
        if o == ("b", "str"):
            if name in ("join", "strip", "lstrip", "rstrip", "replace", "lower", "upper", "format", "title", "capitalize", "ljust", "rjust", "expandtabs"):
                return {("b", "str")}
            if name in ("startswith", "endswith", "isalnum", "isdigit", "isupper", "islower", "isalpha"):
                return {("b", "bool")}
            if name in ("split", "splitlines", "rsplit"):
                return self.site("list", n, s, {("b", "str")})
            if name in ("find", "index", "count", "rfind"):
                return {("b", "int")}
            if name == "encode":
                return {("b", "bytes")}
            if name in ("partition", "rpartition"):
                o = ("tuple", (id(n), s.ctx), 3)
                for i in range(3):
                    self.add(self.fields, (o, i), {("b", "str")})
                return {o}
        if o == ("b", "bytes") and name == "decode":
            return {("b", "str")}
        return {ANY}


DUNDER = ("__init__", "__str__", "__repr__")


def forwards(fn):
    """Position of the argument to which a method does nothing but forward: def accept(self, v): return v.visit(self)"""
    body = [x for x in fn.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))] if isinstance(fn.body, list) else []
    if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Call) and isinstance(body[0].value.func, ast.Attribute):
        v = body[0].value.func.value
        names = [a.arg for a in fn.args.args]
        if isinstance(v, ast.Name) and v.id in names[1:]:
            return names.index(v.id)
    return None


class Scope(object):
    def __init__(self, types, module, fn, parent, key, cls=None, is_class=False, comp=False, ctx=None):
        self.types, self.module, self.fn, self.parent, self.key = types, module, fn, parent, key
        self.cls, self.is_class, self.comp = cls, is_class, comp
        self.id = key
        self.ctx = ctx if ctx is not None else parent.ctx if parent is not None else None
        self.is_gen = fn is not None and has_yield(fn)
        self.names = set()
        self.narrow = ()
        if fn is not None:
            a = fn.args
            self.names |= {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
            for p in (a.vararg, a.kwarg):
                if p:
                    self.names.add(p.arg)
            if not isinstance(fn, ast.Lambda):
                self.collect(fn.body)
        elif parent is None:
            self.names |= bound(module.tree.body)[0]
        elif is_class:
            self.names |= bound(types.prog.classes[cls].node.body)[0]

    def collect(self, body):
        names, globals_ = bound(body)
        self.names |= names - globals_

    def has(self, name):
        if self.parent is None:
            return name in self.names
        return name in self.names

    def owner(self, name):
        sc = self
        while sc is not None and not sc.has(name):
            sc = sc.parent
        return sc.key if sc is not None else self.key

    def params(self):
        a = self.fn.args
        return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]

    def fn_id(self):
        sc = self
        while sc.fn is None and sc.parent is not None:
            sc = sc.parent
        return sc.id

    def _method(self):
        sc = self
        while sc is not None and not (sc.fn is not None and sc.parent is not None and sc.parent.is_class):
            sc = sc.parent
        return sc

    def method_cls(self):
        m = self._method()
        return m.parent.cls if m is not None else None

    def method_key(self):
        m = self._method()
        return m.key if m is not None else None

    def method_self(self):
        m = self._method()
        return m.fn.args.args[0].arg if m is not None and m.fn.args.args else None


def bound(body):
    names, globals_ = set(), set()
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
            stack += n.decorator_list
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            stack += [x for x in ast.walk(n) if isinstance(x, ast.NamedExpr)]
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add(a.asname or a.name.split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            globals_ |= set(n.names)
        stack += list(ast.iter_child_nodes(n))
    return names, globals_


def stored(n):
    """Names and attributes that a statement may set."""
    out = set()
    for x in ast.walk(n):
        if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id if isinstance(x, ast.Name) else "." + x.attr)
    return out


def names_in(t):
    return {x.id if isinstance(x, ast.Name) else "." + x.attr for x in ast.walk(t) if isinstance(x, (ast.Name, ast.Attribute))}


def terminates(body, loops=False):
    for n in body:
        if isinstance(n, (ast.Return, ast.Raise)) or loops and isinstance(n, (ast.Continue, ast.Break)):
            return True
        if isinstance(n, ast.If) and n.orelse and terminates(n.body, loops) and terminates(n.orelse, loops):
            return True
        if isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and n.test.value and not any(isinstance(x, ast.Break) for x in ast.walk(n)):
            return True
        if isinstance(n, ast.Try) and (terminates(n.finalbody) or terminates(n.body) and all(terminates(h.body) for h in n.handlers)):
            return True
        if isinstance(n, ast.With) and terminates(n.body):
            return True
    return False

"""Names, members, arguments and message formats: nothing that is used can be missing."""
import ast
import collections
import glob
import os
import string
import sys

from ..core import rule, AnalysisBroken
from ..types import Types, ANY, NONE, BUILTIN, external
from ..flow import local_names

# optimizer.py does not work with this version of the interpreter and nothing imports it (see P90)
SKIP = {"agentspeak.optimizer"}


def types(ctx):
    t = getattr(ctx.prog, "_types", None)
    if t is None:
        import sys
        if sys.getrecursionlimit() < 20000:
            sys.setrecursionlimit(20000)
        try:
            t = Types(ctx.prog)
        except (AttributeError, KeyError, TypeError, IndexError, ValueError, RecursionError) as err:
            raise AnalysisBroken("the inference of types failed: %s: %s" % (type(err).__name__, err))
        ctx.prog._types = t
    return t


def where(ctx, scope, node):
    """Qualified name of the innermost function around a node of a scope."""
    s = scope
    names = []
    while s is not None:
        if s.fn is not None and hasattr(s.fn, "name"):
            names.append(s.fn.name)
        elif getattr(s, "cls", None) and s.is_class:
            names.append(s.cls.rsplit(".", 1)[-1])
        s = s.parent
    return ".".join([scope.module.name] + names[::-1])


def inner(scope):
    return scope is None or scope.module.name not in SKIP


class Place(object):
    """Something with a name and a location, for reports."""

    def __init__(self, ctx, scope, node):
        self.qual = where(ctx, scope, node)
        self.module = scope.module

    def loc(self, node=None):
        return "%s:%s" % (self.module.relpath, getattr(node, "lineno", "?"))


def shown(o):
    if o[0] == "inst" or o[0] == "cls" or o[0] == "b" or o[0] == "ext" or o[0] == "mod":
        return o[1].replace("agentspeak.", "")
    return {"fn": "a function", "bm": "a method", "gen": "a generator"}.get(o[0], o[0])


def member_names(ctx, t):
    """Every name that some object of the package or of the standard types used has."""
    out = {f for _, f in t.fields if isinstance(f, str)}
    for m in ctx.prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                for x in n.body:
                    if isinstance(x, ast.FunctionDef):
                        out.add(x.name)
                    elif isinstance(x, ast.Assign):
                        out |= {y.id for y in x.targets if isinstance(y, ast.Name)}
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr", "setattr"):
                out |= {a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)}
    for fs in t.nt.values():
        out |= set(fs)
    for b in BUILTIN.values():
        out |= set(dir(b))
    return out | set(dir(collections.deque)) | set(dir(object))


@rule("members", "P25", floor=1000, example="resolve")
def members(ctx):
    """Every attribute that is read exists: for an object that can only be of known classes, one of them has it, and a
    module has what is taken from it."""
    t = types(ctx)
    everywhere = member_names(ctx, t)
    for (node, c), (lack, name, scope, every) in t.missing.items():
        real = lack - {NONE}
        if not inner(scope):
            continue
        if every == {NONE}:
            ctx.bad(Place(ctx, scope, node), "%s of a value that is always None" % name, node, sub=name)
        elif real and not every - lack and ANY not in every:
            ctx.bad(Place(ctx, scope, node), "no %s has a member %s" % (" or ".join(sorted(set(map(shown, real)))[:4]), name), node, sub=name)
        elif real and every - lack <= {ANY} and name not in everywhere:
            ctx.bad(Place(ctx, scope, node), "nothing has a member %s" % name, node, sub=name)
        elif real and any(o[0] in ("mod",) for o in real):
            ctx.bad(Place(ctx, scope, node), "module %s has no %s" % (shown(next(o for o in real if o[0] == "mod")), name), node, sub=name)
    seen = {n for n, _ in t.values if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)}
    ctx.ob(len(seen), "%d attribute reads" % len(seen))
    for m in ctx.prog.modules.values():
        if m.name not in SKIP:
            ctx.functions |= {f.qual for f in m.functions.values()} if isinstance(m.functions, dict) else set()


@rule("dispatch", "P19 P25", floor=40, example="resolve")
def dispatch(ctx):
    """Every visitor that can be handed a construct has the handler that the construct calls."""
    t = types(ctx)
    n = 0
    for node, c in t.values:
        if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load) and node.attr.startswith("visit"):
            n += 1
    ctx.ob(n, "%d dispatches over classes of constructs and visitors" % n)
    for (node, c), (lack, name, scope, every) in t.missing.items():
        if name.startswith("visit") and inner(scope):
            for o in lack:
                if o[0] == "inst":
                    ctx.bad(Place(ctx, scope, node), "%s does not handle %s" % (shown(o), name), node, sub=name + " " + shown(o))


@rule("arguments", "P25", floor=400, example="resolve")
def arguments(ctx):
    """Every call fits the parameters of the functions it can reach."""
    t = types(ctx)
    ctx.ob(len({n for n, _ in t.arity}), "%d calls of functions of the package" % len({n for n, _ in t.arity}))
    for (node, c), d in t.arity.items():
        bad = {k: v for k, v in d.items() if v}
        if not bad or not hasattr(node, "func") or not inner(t.where.get(node)):
            continue
        if len(bad) < len(d):
            # only some: a table of functions, unless it is a method of that name
            f = node.func
            bad = {k: v for k, v in bad.items() if isinstance(f, ast.Attribute) and k[0] == "fn" and k in t.fns and
                   getattr(t.fns[k].fn, "name", None) == f.attr}
        for k, v in bad.items():
            scope = t.fns[k] if k in t.fns else None
            owner = t.where.get(node)
            if owner is not None:
                ctx.bad(Place(ctx, owner, node), v[0], node, sub="call")


@rule("names", "P25", floor=1000, example="resolve")
def names(ctx):
    """Every name is bound where it is used: it is a parameter, an import, a definition, a builtin, or a local variable
    that every path to the place assigns."""
    t = types(ctx)
    for node, (name, scope) in t.unknown.items():
        if inner(scope):
            ctx.bad(Place(ctx, scope, node), "undefined name %s" % name, node, sub=name)
    n = {x for x, _ in t.values if isinstance(x, ast.Name)}
    ctx.ob(len(n), "%d names" % len(n))


@rule("unbound-locals", "P25", floor=300, example="resolve")
def unbound(ctx):
    """No path through a function reads a local variable that it has not assigned."""
    done = set()
    for q, f in sorted(ctx.prog.functions.items()):
        if f.module.name in SKIP:
            continue
        if not local_names(f.node):
            ctx.ob()
            continue
        paths = ctx.paths(f)
        ctx.ob()
        for (fq, name), (fn, st) in ctx.flows[f.qual].unbound.items():
            if (fq, name) not in done:
                done.add((fq, name))
                ctx.bad(fn, "%s may be read before it is assigned" % name, sub=name)


def init_fields(ctx, q, memo):
    """Attributes of objects of class q that exist after construction, or None if unknown."""
    if q in memo:
        return memo[q]
    memo[q] = set()
    out = set()
    for c in ctx.prog.mro(q):
        k = ctx.prog.classes.get(c)
        if k is None:
            known, o = external(c if "." in c else "builtins." + c)
            if not known or not isinstance(o, type):
                out = None
                break
            out |= set(dir(o))
            continue
        out |= set(k.assigns)
        out |= set(k.methods)
    if out is not None:
        f = ctx.prog.find_method(q, "__init__")
        if f is not None:
            got = assigned(ctx, f, q, memo)
            out = None if got is None else out | got
    memo[q] = out
    return out


def assigned(ctx, f, q, memo, depth=0):
    got = None
    me = ("p", f.params[0]) if f.params else None
    for p in ctx.paths(f):
        if p.kind not in ("return", "normal"):
            continue
        mine = {e[2] for e in p.events if e[0] == "setattr" and e[1] == me}
        for c in p.calls:
            if c.name == "__init__" and depth < 5:
                for b in ctx.prog.mro(q)[1:]:
                    g = ctx.prog.functions.get(b + ".__init__")
                    if g is not None and g is not f:
                        mine |= assigned(ctx, g, b, memo, depth + 1) or set()
                        break
        got = mine if got is None else got & mine
    return got if got is not None else set()


@rule("initialised", "P25", floor=600, example="resolve")
def initialised(ctx):
    """Attributes that are read exist from construction on: every normal path through the constructor sets them."""
    t = types(ctx)
    memo = {}
    for (node, c), vs in list(t.values.items()):
        if not (isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load) and inner(t.where[node])):
            continue
        base = t.values.get((node.value, c))
        if not base or ANY in base:
            continue
        insts = [o for o in base if o[0] == "inst" and o[1] in ctx.prog.classes and o[1] not in t.nt and not t.is_enum(o[1])]
        if not insts or len(insts) != len(base - {NONE}):
            continue
        ctx.ob()
        lacking = []
        for o in insts:
            have = init_fields(ctx, o[1], memo)
            if have is None or node.attr in have or node.attr in dir(object) or (o, node.attr) not in t.fields:
                lacking = None
                break
            lacking.append(o)
        if lacking:
            ctx.bad(Place(ctx, t.where[node], node), "%s is not set when a %s is made" % (node.attr, shown(lacking[0])), node, sub=node.attr)


# ---------------------------------------------------------------- formats

LOG = {"debug", "info", "warning", "error", "critical", "exception"}


def spec_count(text):
    """Number of values a % format takes, a set of names, or None if it is not a valid format."""
    i, n, keys = 0, 0, set()
    while i < len(text):
        if text[i] != "%":
            i += 1
            continue
        i += 1
        if i >= len(text):
            return None
        if text[i] == "%":
            i += 1
            continue
        if text[i] == "(":
            j = text.find(")", i)
            if j < 0:
                return None
            keys.add(text[i + 1:j])
            i = j + 1
        while i < len(text) and text[i] in "#0- +":
            i += 1
        for part in (0, 1):
            while i < len(text) and (text[i].isdigit() or text[i] == "*"):
                n += text[i] == "*"
                i += 1
            if part == 0 and i < len(text) and text[i] == ".":
                i += 1
            else:
                break
        while i < len(text) and text[i] in "hlL":
            i += 1
        if i >= len(text) or text[i] not in "diouxXeEfFgGcrsa":
            return None
        i += 1
        n += 1
    return keys if keys else n


def brace_fields(text):
    """(number of positional, names) of a str.format text, or None."""
    auto, most, names_ = 0, 0, set()
    try:
        for _, field, spec, _ in string.Formatter().parse(text):
            if field is None:
                continue
            head = field.split(".")[0].split("[")[0]
            if head == "":
                auto += 1
            elif head.isdigit():
                most = max(most, int(head) + 1)
            else:
                names_.add(head)
    except ValueError:
        return None
    return max(auto, most), names_


def const_str(t, node, c):
    return node.value if isinstance(node, ast.Constant) and isinstance(node.value, str) else None


def fits(ctx, place, node, text, args, star):
    n = spec_count(text)
    if n is None:
        ctx.bad(place, "%r is not a valid format" % text, node, sub="format")
    elif isinstance(n, set):
        pass
    elif not star and len(args) != n:
        ctx.bad(place, "%r takes %d values and gets %d" % (text, n, len(args)), node, sub="format")


@rule("formats", "P25", floor=60, example="resolve")
def formats(ctx):
    """Message formats take as many values as they are given, and are formats in the first place."""
    t = types(ctx)
    done = set()
    for (node, c) in list(t.values):
        if node in done or not inner(t.where[node]):
            continue
        place = lambda: Place(ctx, t.where[node], node)
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mod):
            text = const_str(t, node.left, c)
            if text is None:
                continue
            done.add(node)
            ctx.ob()
            n = spec_count(text)
            r = t.values.get((node.right, c), set())
            if isinstance(node.right, ast.Tuple):
                fits(ctx, place(), node, text, node.right.elts, any(isinstance(e, ast.Starred) for e in node.right.elts))
            elif isinstance(node.right, ast.Dict):
                if not isinstance(n, set):
                    ctx.bad(place(), "%r takes no names" % text, node, sub="format")
            elif not r or ANY in r or any(o[0] == "tuple" or o[0] == "dict" for o in r):
                if n is None:
                    ctx.bad(place(), "%r is not a valid format" % text, node, sub="format")
            else:
                fits(ctx, place(), node, text, [node.right], False)
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
            f = node.func
            if f.attr == "format":
                text = const_str(t, f.value, c)
                if text is None or any(isinstance(a, ast.Starred) for a in node.args) or any(k.arg is None for k in node.keywords):
                    continue
                done.add(node)
                ctx.ob()
                b = brace_fields(text)
                if b is None:
                    ctx.bad(place(), "%r is not a valid format" % text, node, sub="format")
                elif b[0] > len(node.args) or b[1] - {k.arg for k in node.keywords}:
                    ctx.bad(place(), "%r takes more values than it gets" % text, node, sub="format")
            elif f.attr in LOG and is_log(ctx, t, f.value, c):
                if not node.args or isinstance(node.args[0], ast.Starred):
                    continue
                done.add(node)
                ctx.ob()
                text = const_str(t, node.args[0], c)
                star = any(isinstance(a, ast.Starred) for a in node.args)
                if text is not None:
                    if len(node.args) > 1 or "%" in text:
                        fits(ctx, place(), node, text, node.args[1:], star) if len(node.args) > 1 else None
                    if len(node.args) == 1 and spec_count(text) not in (0, None):
                        ctx.bad(place(), "%r takes values and gets none" % text, node, sub="format")
                else:
                    kinds = t.values.get((node.args[0], c), set())
                    if len(node.args) > 1 and any(const_str(t, a, c) is not None for a in node.args[1:]):
                        ctx.bad(place(), "a message is given a format as value", node, sub="format")
                    elif kinds and ANY not in kinds and not any(o == ("b", "str") for o in kinds):
                        ctx.bad(place(), "the message is not a text", node, sub="format")


def is_log(ctx, t, node, c):
    """Is the receiver a log: the package's own, or one of the logging module?"""
    vs = t.values.get((node, c), set())
    for o in vs:
        if o[0] == "inst" and o[1].endswith(".Log") or o[0] == "ext" and o[1].startswith("logging"):
            return True
    return isinstance(node, ast.Attribute) and node.attr in ("log", "LOGGER", "logger") or isinstance(node, ast.Name) and node.id in ("log", "LOGGER", "logger")


def truth_positions(tree):
    """(node whose truth decides, statement or expression it stands in)"""
    for n in ast.walk(tree):
        if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
            yield n.test
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield n.operand
        elif isinstance(n, ast.BoolOp):
            for v in n.values:
                yield v
        elif isinstance(n, ast.comprehension):
            for v in n.ifs:
                yield v
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("all", "any") and len(n.args) == 1 and \
                isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
            yield n.args[0].elt


@rule("generators", "P25 P14 P02", floor=100, example="resolve")
def generators(ctx):
    """A call that only prepares solutions is never taken for an answer (it would always be true) and never thrown away
    (it would do nothing)."""
    t = types(ctx)
    kinds = {}
    for (node, c), ts in t.values.items():
        kinds.setdefault(id(node), [node, set()])[1].update(ts)
    for m in sorted(ctx.prog.modules.values(), key=lambda m: m.name):
        if m.name in SKIP:
            continue
        owner = {}
        for q, f in ctx.prog.functions.items():
            if f.module is m:
                for n in ast.walk(f.node):
                    if id(n) not in owner or len(q) > len(owner[id(n)].qual):
                        owner[id(n)] = f
        for n, what in [(x, "is always true") for x in truth_positions(m.tree)] + \
                [(x.value, "does nothing") for x in ast.walk(m.tree) if isinstance(x, ast.Expr)]:
            if not isinstance(n, ast.Call):
                continue
            ctx.ob()
            ts = kinds.get(id(n), (n, set()))[1]
            if ts and all(o[0] == "gen" for o in ts):
                f = owner.get(id(n))
                ctx.bad(f or m.name, "%s %s: it is a generator that nobody goes through" % (ast.unparse(n)[:60], what), n, sub=ast.unparse(n.func)[:40])


# ------------------------------------------------------ installed packages

PACKAGES = ("/opt/venv/lib/python3*/site-packages", sys.prefix + "/lib/python3*/site-packages", "/usr/lib/python3/dist-packages")


def package_dir(name):
    for pattern in PACKAGES:
        for d in sorted(glob.glob(os.path.join(pattern, name))):
            if os.path.isfile(os.path.join(d, "__init__.py")):
                return d
    return None


class Source(object):
    """The names of a module of an installed package, as its source binds them."""
    known = {}

    def __init__(self, path):
        self.path = path
        with open(path, encoding="utf-8") as f:
            self.tree = ast.parse(f.read())
        self.names, self.open = {}, False
        for n in self.statements(self.tree.body):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.names[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            self.names[x.id] = n.value if x is t else None
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if a.name == "*":
                        self.open = True
                    self.names[a.asname or a.name] = (n.level, n.module, a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.names[(a.asname or a.name).split(".")[0]] = None
            elif isinstance(n, (ast.AnnAssign, ast.AugAssign)) and isinstance(n.target, ast.Name):
                self.names[n.target.id] = None

    def statements(self, body):
        for n in body:
            if isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for part in ("body", "orelse", "finalbody"):
                    yield from self.statements(getattr(n, part, []))
                for h in getattr(n, "handlers", []):
                    yield from self.statements(h.body)
            else:
                yield n

    @classmethod
    def of(cls, path):
        if path not in cls.known:
            cls.known[path] = cls(path)
        return cls.known[path]

    def module(self, level, name):
        if level != 1:
            return None
        base = os.path.join(os.path.dirname(self.path), *(name or "").split("."))
        for p in (base + ".py", os.path.join(base, "__init__.py")):
            if os.path.isfile(p):
                return Source.of(p)
        return None

    def submodule(self, name):
        return os.path.basename(self.path) == "__init__.py" and (
            os.path.isfile(os.path.join(os.path.dirname(self.path), name + ".py")) or os.path.isdir(os.path.join(os.path.dirname(self.path), name)))

    def member(self, name):
        """("no",) or ("unknown",) or ("value", module, node)"""
        if name not in self.names:
            if self.open or "__getattr__" in self.names or name.startswith("__") or self.submodule(name):
                return ("unknown",)
            return ("no",)
        v = self.names[name]
        if isinstance(v, tuple):
            m = self.module(v[0], v[1])
            return m.member(v[2]) if m is not None else ("unknown",)
        return ("value", self, v) if v is not None else ("unknown",)

    def class_names(self, node, seen=()):
        """Names of a class and of its objects, or None if they cannot be told."""
        if node in seen or node.decorator_list or node.keywords:
            return None
        out = set(dir(object))
        for x in ast.walk(node):
            if isinstance(x, ast.FunctionDef) and x.name in ("__getattr__", "__getattribute__"):
                return None
            if isinstance(x, ast.FunctionDef):
                out.add(x.name)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                out.add(x.attr)
        for b in node.bases:
            if isinstance(b, ast.Name) and b.id == "object":
                continue
            r = self.member(b.id) if isinstance(b, ast.Name) else ("unknown",)
            if r[0] != "value" or not isinstance(r[2], ast.ClassDef):
                return None
            more = r[1].class_names(r[2], seen + (node,))
            if more is None:
                return None
            out |= more
        return out


def lacking(names):
    """The first of the dotted names that an installed package does not have: (owner, name), or None; KeyError if there is no such package."""
    d = package_dir(names[0])
    if d is None:
        raise KeyError(names[0])
    at, shown_ = Source.of(os.path.join(d, "__init__.py")), names[0]
    for name in names[1:]:
        if isinstance(at, Source):
            r = at.member(name)
            if r[0] == "no":
                return shown_, name
            if r[0] != "value":
                return None
            mod, node = r[1:]
            if isinstance(node, ast.ClassDef):
                at = (mod.class_names(node), shown_)
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
                c = mod.member(node.func.id)
                if c[0] != "value" or not isinstance(c[2], ast.ClassDef):
                    return None
                at = (c[1].class_names(c[2]), shown_)
            else:
                return None
        else:
            if at[0] is None:
                return None
            return None if name in at[0] else (shown_, name)
        shown_ += "." + name
    return None


@rule("package-members", "P25 P23", example="resolve")
def package_members(ctx):
    """What is taken from an installed package exists in the source of that package."""
    import_names = getattr(sys, "stdlib_module_names", ())
    for m in ctx.prog.modules.values():
        if m.name in SKIP:
            continue
        for n in ast.walk(m.tree):
            if not isinstance(n, (ast.Attribute, ast.Name)) or not isinstance(n.ctx, ast.Load):
                continue
            q = ctx.prog.resolve_expr(m, n) if isinstance(n, ast.Attribute) else None
            if not q:
                continue
            names = q.split(".")
            root = n
            while isinstance(root, ast.Attribute):
                root = root.value
            if names[0] in ("agentspeak", "builtins") or names[0] in import_names or root.id not in m.imports:
                continue
            try:
                r = lacking(names)
            except KeyError:
                continue        # an optional package that is not installed
            ctx.ob()
            if r is not None and names[-1] == r[1]:
                ctx.bad(Spot(ctx, m, n), "%s has no %s" % r, n, sub=r[1])


class Spot(object):
    """A place in a module, named by the function around it."""

    def __init__(self, ctx, module, node):
        self.module = module
        best = module.name
        for f in ctx.prog.all_functions:
            if f.module is module and any(x is node for x in ast.walk(f.node)):
                best = f.qual
        self.qual = best

    def loc(self, node=None):
        return "%s:%s" % (self.module.relpath, getattr(node, "lineno", "?"))

"""Path-sensitive dataflow over the syntax tree.

`Flow(program).run(func)` walks one function and yields its abstract paths.
A path is a list of events (calls, stores, yields, branch facts, loop marks) in
program order plus the way it leaves the function.  Values are *origins*
(value numbers): where a value came from, never what it is at run time.
Branch conditions are recorded as facts, nothing is handed to a solver; a path
is only pruned when the same fact was already decided on it.

Loops are walked from an abstract head state: what an iteration changed is
replaced by a ('phi', loop, name) origin until the set of head states is
closed, so a path shows one representative iteration of every loop.

Calls of functions that the rules know by name are events ("opaque").  Every
other function of the repository is walked in place, so that extracting a
helper does not change the paths.
"""
import ast

from .model import AnalysisBroken, Func

TRUE = ("c", "bool", True)
FALSE = ("c", "bool", False)
NONE = ("c", "NoneType", None)


def const(v):
    return ("c", type(v).__name__, v)


CONTAINER_METHODS = {
    "append", "appendleft", "pop", "popleft", "add", "remove", "discard", "clear", "update", "extend", "get",
    "items", "keys", "values", "insert", "sort", "reverse", "copy", "join", "split", "format", "replace",
    "startswith", "endswith", "encode", "decode", "find", "index", "count", "strip", "lstrip", "rstrip", "lower",
    "upper", "isalnum", "setdefault", "match", "group", "end", "write", "flush", "close", "read", "union",
    "difference", "intersection",
}
MUTATORS = {"append", "appendleft", "pop", "popleft", "add", "remove", "discard", "clear", "update", "extend",
            "insert", "sort", "reverse", "setdefault", "rotate", "extendleft", "move_to_end"}
PURE_BUILTINS = {"len", "str", "int", "float", "bool", "repr", "hash", "id", "type", "min", "max", "abs", "sum",
                 "round", "callable", "ord", "chr", "hex", "zip", "range", "map", "filter", "sorted", "reversed",
                 "enumerate", "getattr", "vars", "issubclass", "super", "divmod", "format"}
PURE_METHODS = {"join", "split", "format", "replace", "startswith", "endswith", "encode", "decode", "find", "strip",
                "lstrip", "rstrip", "lower", "upper", "isalnum", "get", "items", "keys", "values", "index", "copy",
                "group", "end", "union", "difference", "intersection", "is_atom", "literal_group", "is_integer"}

# what the project calls its parameters, used only to resolve methods
PARAM_TYPES = {
    "agent": "agentspeak.runtime.Agent", "receiver": "agentspeak.runtime.Agent",
    "intention": "agentspeak.runtime.Intention", "calling_intention": "agentspeak.runtime.Intention",
    "env": "agentspeak.runtime.Environment",
    "log": "agentspeak.Log",
}


class State(object):
    __slots__ = ("env", "heap", "ev", "n", "facts", "ver", "mut")

    def __init__(self, env=None, heap=None, ev=None, n=0, facts=None, ver=0, mut=None):
        self.env, self.heap, self.ev, self.n = env or {}, heap or {}, ev, n
        self.facts, self.ver, self.mut = facts or {}, ver, mut or {}

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.ev, self.n, dict(self.facts), self.ver, self.mut)

    def emit(self, *event):
        s = self.copy()
        m = mutated(event)
        if m:
            s.mut = dict(s.mut)
            for v in m:
                s.mut[v] = s.ver + 1
            b = resized(event)
            if b is not None:
                s.mut[("seq", b)] = min(s.mut.get(("seq", b), 0) + 1, 2)
        s.ev = (s.ev, event)
        s.n += 1
        return s

    def events(self):
        out, e = [], self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out


EXITS = {("g", "sys.exit"), ("g", "os._exit"), ("g", "builtins.exit"), ("g", "builtins.quit")}


class Path(object):
    def __init__(self, func, state, kind, val, flow, events):
        self.func, self.kind, self.val, self.flow = func, kind, val, flow
        self.events = events
        self.state, self.env, self.heap = state, state.env, state.heap

    def __repr__(self):
        return "<Path %s %s>" % (self.kind, show(self.val))


def variants(events):
    """Linear event lists of a trace whose loops were merged: every alternative
    of every merged loop appears in one of them (the other loops show their
    first alternative, except that a loop over a collection that an alternative
    fills is shown together with it).  Lists with contradictory facts are left
    out."""
    alts = [i for i, e in enumerate(events) if e[0] == "alts"]
    if not alts:
        return [events]
    dflt = {}
    for i in alts:
        dflt[i] = [variants(list(s)) for s in events[i][2]]

    def build(choice):
        out = []
        for i, e in enumerate(events):
            if i in dflt:
                a, b = choice.get(i, (0, 0))
                out.extend(dflt[i][a][b])
            else:
                out.append(e)
        return out
    res = [build({})]
    for i in alts:
        for a, vs in enumerate(dflt[i]):
            for b in range(len(vs)):
                if (a, b) == (0, 0):
                    continue
                res.append(build({i: (a, b)}))
                boxes = {e[1][1] for e in vs[b] if e[0] == "call" and e[1][0] == "a" and e[1][2] in ("append", "add") and e[1][1][0] == "new"}
                for j in alts if boxes else ():
                    if j > i and any(events[k][0] == "loop" and events[k][2] in boxes for k in (j - 1,)):
                        for c, ws in enumerate(dflt[j]):
                            for d in range(len(ws)):
                                if (c, d) != (0, 0):
                                    res.append(build({i: (a, b), j: (c, d)}))
    good = [r for r in res if consistent(r)]
    return good or res[:1]


def box_of(v):
    while v and v[0] == "i":
        v = v[1]
    return v


def consistent(events):
    seen, mut = {}, {}
    for i, e in enumerate(events):
        for v in mutated(e):
            mut[v] = i
        if e[0] == "fact" and stable(e[1]):
            if e[1] in seen:
                pol, at = seen[e[1]]
                if pol != e[2] and unchanged(e[1], at, mut):
                    return False
            seen[e[1]] = (e[2], i)
    return True


class Liveness(object):
    """Backward liveness of local names, over the statements of one function."""

    def __init__(self, fn):
        self.at = {}
        self.head = {}
        self.always = set()
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda)):
                self.always |= self.reads(n)
        self.brk = []
        self.exc = []
        if isinstance(fn.body, list):
            self.block(fn.body, set())
        else:
            # comprehensions of a lambda: nothing is assigned outside them
            for n in ast.walk(fn):
                self.at[id(n)] = self.always | self.reads(fn)

    def reads(self, n):
        return set(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)))

    def writes(self, n):
        return set(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))

    def block(self, stmts, out):
        for s in reversed(stmts):
            out = self.stmt(s, out)
        return out

    def mark(self, n, out):
        """Comprehension loops inside an expression: live after is at least
        what the statement itself reads and what follows."""
        for x in ast.walk(n):
            if isinstance(x, (ast.comprehension, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp, ast.Call,
                              ast.Yield, ast.YieldFrom)) or isinstance(x, ast.expr):
                self.at[id(x)] = set(out) | self.reads(n) | self.always

    def stmt(self, s, out):
        out = set(out) | self.always
        for h in self.exc:
            out |= h
        t = type(s)
        if t in (ast.For,):
            head = set(out)
            after_else = self.block(s.orelse, out) if s.orelse else out
            self.at[id(s)] = set(out) | set(after_else)
            for _ in range(3):
                self.brk.append((out, head | after_else))
                inn = self.block(s.body, head | after_else) - self.writes(s.target)
                self.brk.pop()
                head = head | inn | after_else
            self.head[id(s)] = set(head)
            self.mark(s.iter, head)
            return head | self.reads(s.iter) | self.reads(s.target)
        if t is ast.While:
            head = set(out)
            after_else = self.block(s.orelse, out) if s.orelse else out
            self.at[id(s)] = set(out) | set(after_else)
            for _ in range(3):
                self.brk.append((out, head | self.reads(s.test) | after_else))
                head = head | self.reads(s.test) | after_else | self.block(s.body, head | self.reads(s.test) | after_else)
                self.brk.pop()
            self.head[id(s)] = set(head)
            self.mark(s.test, head)
            return head
        if t is ast.If:
            r = self.block(s.body, out) | self.block(s.orelse, out) | self.reads(s.test)
            self.mark(s.test, r)
            return r
        if t in (ast.Try, getattr(ast, "TryStar", ast.Try)):
            fin = self.block(s.finalbody, out) if s.finalbody else out
            hs = set()
            for h in s.handlers:
                hs |= self.block(h.body, fin)
            self.exc.append(hs | fin)
            r = self.block(s.body, self.block(s.orelse, fin) if s.orelse else fin)
            self.exc.pop()
            return r | hs
        if t is ast.With:
            r = self.block(s.body, out)
            for i in s.items:
                if i.optional_vars is not None:
                    r = (r - self.writes(i.optional_vars)) | self.reads(i.optional_vars)
                r |= self.reads(i.context_expr)
                self.mark(i.context_expr, r)
            return r
        if t is ast.Break and self.brk:
            return set(self.brk[-1][0]) | self.always
        if t is ast.Continue and self.brk:
            return set(self.brk[-1][1]) | self.always
        if t in (ast.Return, ast.Raise):
            base = set(self.always)
            for h in self.exc:
                base |= h
            self.mark(s, base)
            return base | self.reads(s)
        if t in (ast.FunctionDef, ast.ClassDef):
            return out | self.reads(s)
        if t is ast.AugAssign:
            self.mark(s, out)
            return out | self.reads(s) | self.writes(s)
        self.mark(s, out)
        if t in (ast.Assign, ast.AnnAssign):
            targets = s.targets if t is ast.Assign else [s.target]
            w = set()
            for x in targets:
                w |= self.writes(x)
            return (out - w) | self.reads(s)
        return (out - self.writes(s)) | self.reads(s)


class _All(object):
    def __contains__(self, x):
        return True


ALLNAMES = _All()


class Frame(object):
    _n = 0

    def __init__(self, func, parent=None, on_yield=None, depth=0):
        Frame._n += 1
        self.id = Frame._n
        self.func, self.parent, self.on_yield, self.depth = func, parent, on_yield, depth
        self.nonlocals = set()
        self.comp = False
        self.module = func.module if func is not None else parent.module
        self.cls = func.cls if func is not None else parent.cls


def node_is_display(n):
    if isinstance(n, ast.Call):
        return isinstance(n.func, ast.Name) and n.func.id in ("frozenset", "set", "tuple") and len(n.args) == 1 and not n.keywords and \
            isinstance(n.args[0], (ast.Tuple, ast.List, ast.Set))
    return bool(n.keys if isinstance(n, ast.Dict) else n.elts)


def altered(tree, name):
    """Whether something in the module changes the table of that name."""
    called = lambda x: isinstance(x, ast.Name) and x.id == name or isinstance(x, ast.Attribute) and x.attr == name
    for x in ast.walk(tree):
        if isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load) and called(x.value):
            return True
        if isinstance(x, ast.AugAssign) and called(x.target):
            return True
        if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load) and x.attr == name:
            return True
        if isinstance(x, ast.Global) and name in x.names:
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS | {"__setitem__"} and called(x.func.value):
            return True
    return False


def is_property(f):
    return any(ast.unparse(d).rsplit(".", 1)[-1] in ("property", "cached_property") for d in getattr(f.node, "decorator_list", ()))


_locals = {}


def local_names(fn):
    """The names a function binds itself, without those it declares global or nonlocal."""
    r = _locals.get(fn)
    if r is None:
        names, other = set(), set()
        stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
                stack += n.decorator_list
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                names |= {a.asname or a.name.split(".")[0] for a in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                other |= set(n.names)
            stack += list(ast.iter_child_nodes(n))
        r = _locals[fn] = names - other
    return r


class TooManyPaths(Exception):
    pass


def subterms(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                for y in subterms(x):
                    yield y


def max_id(v):
    m = -1
    for t in subterms(v):
        if t and t[0] in ("call", "new", "elem", "list", "exc", "func", "unk") and isinstance(t[-1], int):
            m = max(m, t[-1])
    return m


def mutated(event):
    """Containers an event may change."""
    if event[0] == "call":
        fv = event[1]
        out = [a for a in event[2] if a[0] not in ("c", "g")]
        if fv[0] == "a" and fv[2] not in PURE_METHODS:
            out.append(fv[1])
        if fv[0] == "a" and fv[2] in ("isinstance",) or fv[0] == "g" and fv[1] in ("builtins.isinstance",):
            return []
        return out
    if event[0] in ("setitem", "delitem"):
        return [event[1]]
    return []


RESIZERS = {"append", "appendleft", "pop", "popleft", "remove", "insert", "extend", "clear", "rotate", "reverse", "sort"}


def resized(event):
    """The sequence whose positions an event shifts."""
    if event[0] == "call" and event[1][0] == "a" and event[1][2] in RESIZERS:
        return event[1][1]
    if event[0] in ("setitem", "delitem"):
        return event[1]
    return None


def unchanged(pred, since, mut):
    """The truth of a predicate on a container lasts until it may be changed."""
    if pred[0] not in ("truth", "in", "lt"):
        for v in pred[1:]:
            if isinstance(v, tuple):
                for t in subterms(v):
                    if len(t) > 2 and t[0] == "i" and t[1] in mut and mut[t[1]] > since:
                        return False
        return True
    for v in pred[1:]:
        if isinstance(v, tuple):
            for t in subterms(v):
                if t in mut and mut[t] > since:
                    return False
    return True


def stable(pred):
    """Does the predicate speak about values only, not about places?"""
    if isinstance(pred, tuple) and pred:
        if pred[0] == "i" and pred[1][0] == "new":
            # an item of a container made here stays until the container is changed
            return stable(pred[1]) and stable(pred[2])
        if pred[0] in ("a", "i", "len"):
            return False
        if pred[0] in ("call", "new", "elem") and isinstance(pred[-1], int) and pred[-1] > 0:
            return True
        return all(stable(x) for x in pred if isinstance(x, tuple))
    return True


def show(v, d=0):
    """Readable form of an origin, for reports."""
    if not isinstance(v, tuple) or not v:
        return repr(v)
    if d > 6:
        return "..."
    k = v[0]
    s = lambda x: show(x, d + 1)
    if k == "p":
        return v[1]
    if k == "c":
        return repr(v[2])
    if k == "g":
        return v[1].replace("builtins.", "")
    if k == "a":
        return "%s.%s" % (s(v[1]), v[2])
    if k == "i":
        return "%s[%s]%s" % (s(v[1]), s(v[2]), "'" * (v[3] if len(v) > 3 else 0))
    if k == "len":
        return "len(%s)" % s(v[1])
    if k == "call":
        return "%s(%s)" % (s(v[1]), ", ".join(s(x) for x in v[2]))
    if k == "new":
        return "new %s" % v[1].rsplit(".", 1)[-1]
    if k == "elem":
        return "each(%s)" % s(v[1])
    if k == "phi":
        return "loop-carried %s" % (v[2] if not isinstance(v[2], tuple) else s(v[2][0]) + "." + str(v[2][1]))
    if k == "tuple":
        return "(%s)" % ", ".join(s(x) for x in v[1])
    if k == "bin":
        return "(%s %s %s)" % (s(v[2]), v[1], s(v[3]))
    if k == "conv":
        return "%s(%s)" % (v[1], s(v[2]))
    if k == "not":
        return "not %s" % s(v[1])
    if k == "partial":
        return "partial(%s, %s)" % (s(v[1]), ", ".join(s(x) for x in v[2]))
    if k in ("is", "eq", "lt", "le", "in"):
        return "%s %s %s" % (s(v[1]), {"is": "is", "eq": "==", "lt": "<", "le": "<=", "in": "in"}[k], s(v[2]))
    if k == "truth":
        return s(v[1])
    if k == "isinst":
        return "isinstance(%s, %s)" % (s(v[1]), "/".join(str(x).rsplit(".", 1)[-1] for x in v[2]))
    if k == "hasattr":
        return "hasattr(%s, %s)" % (s(v[1]), v[2])
    return "<%s>" % " ".join(s(x) if isinstance(x, tuple) else str(x) for x in v)


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}


class Flow(object):
    def __init__(self, prog, opaque=(), inline=(), max_paths=30000, max_depth=6, param_types=None):
        """opaque: qualified names (or bare method names) kept as events.
        inline: names walked in place although they are in the opaque set."""
        self.prog = prog
        self.opaque = set(opaque) - set(inline)
        self.max_paths = max_paths
        self.unbound = {}
        self.max_depth = max_depth
        self.counter = 0
        self.pending = []
        self.try_stack = []
        self.loops = {}        # loop id -> {"iter":..., "back": {var: set(values)}, "init": {var: value}}
        self.callstack = []
        self.unroll = 0        # >0: walk for-loops with 0..unroll elements instead of one representative iteration
        self.snapshots = False # do iterations of while loops tell the variables they start with?
        self.steps = 0
        self.param_types = dict(PARAM_TYPES)
        if param_types:
            self.param_types.update(param_types)
        self.inlined = set()
        self.raw = {}           # loop -> what it walks, copies included
        self.newfields = {}
        self.backs = []
        self.info = {}         # id of 'new' value -> constructor args
        self.live_cache = {}

    # ------------------------------------------------------------ driver

    def fresh(self):
        self.counter += 1
        return self.counter

    def run(self, func, args=None):
        """All paths of a function.  `args` gives origins for parameters."""
        fr = Frame(func)
        st = State()
        names = list(func.params)
        for v in (func.vararg, func.kwarg):
            if v:
                names.append(v)
        for n in names:
            st.env[(fr.id, n)] = (args or {}).get(n, ("p", n))
        self.callstack = [func.qual]
        self.pending, self.try_stack = [], []
        outs = self.block(func.node.body if isinstance(func.node.body, list) else [ast.Return(func.node.body)], st, fr)
        res = []
        for s, k, v in outs:
            if k == "normal":
                k, v = "return", NONE
            if isinstance(k, tuple):
                continue
            for ev in variants(s.events()):
                res.append(Path(func, s, k, v, self, ev))
        self.paths_seen = len(res)
        return res

    def run_closure(self, path, val, args=None):
        """All paths of a function made on a path, with the variables it closes over as they are at its end."""
        func, parent = self.info[val[2]]
        fr = Frame(func, parent=parent)
        st = State(env=dict(path.env))
        names = list(func.params)
        for v in (func.vararg, func.kwarg):
            if v:
                names.append(v)
        for n in names:
            st.env[(fr.id, n)] = (args or {}).get(n, ("p", n))
        self.callstack = [func.qual]
        self.pending, self.try_stack = [], []
        outs = self.block(func.node.body if isinstance(func.node.body, list) else [ast.Return(func.node.body)], st, fr)
        res = []
        for s, k, v in outs:
            if k == "normal":
                k, v = "return", NONE
            if isinstance(k, tuple):
                continue
            for ev in variants(s.events()):
                res.append(Path(func, s, k, v, self, ev))
        return res

    def _check(self, outs):
        self.steps += len(outs)
        if len(outs) > self.max_paths or self.steps > 3000000:
            raise TooManyPaths()
        return outs

    # -------------------------------------------------------- statements

    def block(self, stmts, st, fr):
        cur = [st]
        done = []
        for stmt in stmts:
            nxt = []
            for s in cur:
                for o in self.stmt(stmt, s, fr):
                    if o[1] == "normal":
                        nxt.append(o[0])
                    else:
                        done.append(o)
            cur = self.dedup(nxt)
            self._check(cur)
            self._check(done)
            if not cur:
                break
        return done + [(s, "normal", None) for s in cur]

    def dedup(self, states):
        return states

    def stmt(self, node, st, fr):
        saved, self.pending = self.pending, []
        try:
            outs = getattr(self, "s_" + type(node).__name__, self.s_other)(node, st, fr)
            outs = outs + self.pending
        finally:
            self.pending = saved
        return outs

    def s_other(self, node, st, fr):
        return [(st, "normal", None)]

    def s_Expr(self, node, st, fr):
        return [(s, "normal", None) for s, _ in self.eval(node.value, st, fr)]

    def s_Pass(self, node, st, fr):
        return [(st, "normal", None)]

    def s_Return(self, node, st, fr):
        if node.value is None:
            return [(st, "return", NONE)]
        return [(s, "return", v) for s, v in self.eval(node.value, st, fr)]

    def s_Raise(self, node, st, fr):
        if node.exc is None:
            return [(st.emit("raise", ("reraise",), node), "raise", ("reraise",))]
        return [(s.emit("raise", v, node), "raise", v) for s, v in self.eval(node.exc, st, fr)]

    def s_Break(self, node, st, fr):
        return [(st, "break", None)]

    def s_Continue(self, node, st, fr):
        return [(st, "continue", None)]

    def s_Global(self, node, st, fr):
        return [(st, "normal", None)]

    def s_Nonlocal(self, node, st, fr):
        fr.nonlocals.update(node.names)
        return [(st, "normal", None)]

    def s_FunctionDef(self, node, st, fr):
        f = next((g for g in self.prog.all_functions if g.node is node), None)
        if f is None:
            f = Func((fr.func.qual if fr.func else "?") + ".<locals>." + node.name, node, fr.module, fr.cls)
        n = self.fresh()
        self.info[n] = (f, fr)
        s = st.copy()
        val = ("func", f.qual, n)
        s.env[(fr.id, node.name)] = val
        return [(s, "normal", None)]

    def s_ClassDef(self, node, st, fr):
        s = st.copy()
        s.env[(fr.id, node.name)] = ("unk", node.name, self.fresh())
        return [(s, "normal", None)]

    def s_ImportFrom(self, node, st, fr):
        s = st.copy()
        for al in node.names:
            if node.module and not node.level:
                s.env[(fr.id, al.asname or al.name)] = ("g", self.prog.canonical(node.module + "." + al.name) or node.module + "." + al.name)
        return [(s, "normal", None)]

    def s_Import(self, node, st, fr):
        s = st.copy()
        for al in node.names:
            s.env[(fr.id, al.asname or al.name.split(".")[0])] = ("g", al.name if al.asname else al.name.split(".")[0])
        return [(s, "normal", None)]

    def s_Assign(self, node, st, fr):
        outs = []
        for s, v in self.eval(node.value, st, fr):
            cur = [s]
            for t in node.targets:
                cur = [s3 for s2 in cur for s3 in self.assign(t, v, s2, fr)]
            outs += cur
        return [(s, "normal", None) for s in outs]

    def s_AnnAssign(self, node, st, fr):
        if node.value is None:
            return [(st, "normal", None)]
        return [(s2, "normal", None) for s, v in self.eval(node.value, st, fr)
                for s2 in self.assign(node.target, v, s, fr)]

    def s_AugAssign(self, node, st, fr):
        outs = []
        load = {ast.Name: lambda t: ast.Name(t.id, ast.Load()),
                ast.Attribute: lambda t: ast.Attribute(t.value, t.attr, ast.Load()),
                ast.Subscript: lambda t: ast.Subscript(t.value, t.slice, ast.Load())}[type(node.target)](node.target)
        ast.copy_location(load, node.target)
        for s, old in self.eval(load, st, fr):
            for s2, v in self.eval(node.value, s, fr):
                val = self.binop(BINOPS[type(node.op)], old, v)
                s2 = s2.emit("aug", old, BINOPS[type(node.op)], v, node)
                outs += self.assign(node.target, val, s2, fr)
        return [(s, "normal", None) for s in outs]

    def s_Delete(self, node, st, fr):
        cur = [st]
        for t in node.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Subscript):
                    for s2, b in self.eval(t.value, s, fr):
                        for s3, k in self.eval(t.slice, s2, fr):
                            s4 = s3.emit("delitem", b, k, node)
                            s4.ver += 1
                            nxt.append(s4)
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.eval(t.value, s, fr):
                        nxt.append(s2.emit("delattr", b, t.attr, node))
                else:
                    s2 = s.copy()
                    s2.env.pop((fr.id, getattr(t, "id", None)), None)
                    nxt.append(s2)
            cur = nxt
        return [(s, "normal", None) for s in cur]

    def s_Assert(self, node, st, fr):
        t, f = self.branch(node.test, st, fr)
        return [(s, "normal", None) for s in t] + \
               [(s.emit("raise", ("g", "builtins.AssertionError"), node), "raise", ("g", "builtins.AssertionError")) for s in f]

    def s_If(self, node, st, fr):
        t, f = self.branch(node.test, st, fr)
        outs = []
        for s in t:
            outs += self.block(node.body, s, fr)
        for s in f:
            outs += self.block(node.orelse, s, fr) if node.orelse else [(s, "normal", None)]
        return self._check(outs)

    def s_With(self, node, st, fr):
        cur = [st]
        mgrs = []
        for it in node.items:
            nxt = []
            for s in cur:
                for s2, v in self.eval(it.context_expr, s, fr):
                    s2 = s2.emit("enter", v, node)
                    if it.optional_vars is not None:
                        nxt += self.assign(it.optional_vars, v, s2, fr)
                    else:
                        nxt.append(s2)
            cur = nxt
        outs = []
        for s in cur:
            for o in self.block(node.body, s, fr):
                outs.append((o[0].emit("exit", None, node), o[1], o[2]))
        return outs

    def s_Try(self, node, st, fr):
        names = []
        for h in node.handlers:
            names.append(self.handler_names(h, fr))
        self.try_stack.append([n for ns in names for n in ns])
        depth = len(self.try_stack)
        try:
            outs = self.block(node.body, st, fr)
        finally:
            del self.try_stack[depth - 1:]
        res = []
        for s, k, v in outs:
            if k == "normal":
                res += self.block(node.orelse, s, fr) if node.orelse else [(s, k, v)]
            elif k == "raise":
                res += self.handle(node, names, s, v, fr)
            else:
                res.append((s, k, v))
        if node.finalbody:
            fin = []
            for s, k, v in res:
                for s2, k2, v2 in self.block(node.finalbody, s, fr):
                    fin.append((s2, k, v) if k2 == "normal" else (s2, k2, v2))
            res = fin
        return self._check(res)

    s_TryStar = s_Try

    def handler_names(self, h, fr):
        if h.type is None:
            return ["builtins.BaseException"]
        elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [self.prog.resolve_expr(fr.module, e) or "?" for e in elts]

    def handle(self, node, names, s, v, fr):
        """Routes a raised value to the handlers that may catch it."""
        out = []
        kinds = self.exc_kinds(v)
        implicit = v and v[0] == "exc"
        matched = False
        for h, ns in zip(node.handlers, names):
            hit = None
            for n in ns:
                for k in kinds:
                    if self.exc_sub(k, n):
                        hit = n
            if hit:
                s2 = s.emit("except", hit, v, h)
                if h.name:
                    s2 = s2.copy()
                    s2.env[(fr.id, h.name)] = v
                for o in self.block(h.body, s2, fr):
                    if o[1] == "raise" and o[2] == ("reraise",):
                        o = (o[0], "raise", v)
                    out.append(o)
                matched = True
                break
        if not matched:
            out.append((s, "raise", v))
        return out

    EXC_TREE = {
        "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError", "ArithmeticError": "Exception",
        "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
        "IOError": "OSError", "OSError": "Exception", "StopIteration": "Exception", "TypeError": "Exception",
        "ValueError": "Exception", "UnicodeDecodeError": "ValueError", "AttributeError": "Exception",
        "RuntimeError": "Exception", "AssertionError": "Exception", "NameError": "Exception", "ImportError": "Exception",
        "Exception": "BaseException", "KeyboardInterrupt": "BaseException", "GeneratorExit": "BaseException",
        "SystemExit": "BaseException", "AslError": "Exception", "AggregatedError": "Exception",
        "UnicodeError": "ValueError", "RecursionError": "RuntimeError",
    }

    def exc_sub(self, a, b):
        a, b = a.rsplit(".", 1)[-1], b.rsplit(".", 1)[-1]
        if b == "IOError":
            b = "OSError"
        if a == "IOError":
            a = "OSError"
        seen = set()
        while a and a not in seen:
            if a == b:
                return True
            seen.add(a)
            a = self.EXC_TREE.get(a, "Exception" if a not in ("BaseException", "Exception") else None)
        return False

    def exc_kinds(self, v):
        if not v:
            return ["Exception"]
        if v[0] == "exc":
            return [v[1]]
        if v[0] == "new":
            return [v[1]]
        if v[0] == "g":
            return [v[1]]
        if v[0] == "call":
            f = v[1]
            name = f[1] if f[0] == "g" else f[2] if f[0] == "a" else "?"
            if name in ("error", "exception"):
                return ["agentspeak.AggregatedError"]
            return [name if name[:1].isupper() or "." in name else "Exception"]
        return ["Exception"]

    def implicit(self, st, node, *kinds):
        """An operation inside a try block may leave it with an exception that a
        surrounding handler waits for."""
        if not self.try_stack:
            return
        for names in self.try_stack:
            for n in names:
                short = n.rsplit(".", 1)[-1]
                if "*" in kinds:
                    ok = short not in ("AttributeError", "KeyboardInterrupt", "GeneratorExit", "NameError", "ImportError")
                else:
                    ok = any(self.exc_sub(k, n) for k in kinds)
                if ok:
                    exc = n if "*" in kinds else next(k for k in kinds if self.exc_sub(k, n))
                    self.pending.append((st, "raise", ("exc", exc, self.fresh())))

    # ------------------------------------------------------------- loops

    def s_For(self, node, st, fr):
        outs = []
        for s, it in self.eval(node.iter, st, fr):
            def body(s2, el):
                res = []
                for s3 in self.assign(node.target, el, s2, fr):
                    res += self.block(node.body, s3, fr)
                return res
            outs += self.iterate(it, s, fr, body, node, node.orelse)
        return outs

    def s_While(self, node, st, fr):
        lid = self.fresh()
        self.loops[lid] = {"iter": None, "init": dict(st.env), "back": {}, "node": node, "base": self.counter}
        start = self.loops[lid]["start"] = self.counter
        base = st.emit("loop", lid, None, node)
        heads = [base]
        seen = [self.headkey(base)]
        outs = []
        exits = []
        i = 0
        while i < len(heads):
            h = heads[i]
            i += 1
            t, f = self.branch(node.test, h, fr)
            if i == 1:
                exits += f
            for s in t:
                s = s.emit("iter", lid, tuple(sorted((k[1], v) for k, v in h.env.items() if k[0] == fr.id)) if self.snapshots else None)
                for s2, k, v in self.block(node.body, s, fr):
                    if k in ("normal", "continue"):
                        s2 = s2.emit("enditer", lid, node)
                        self.note_back(lid, h, s2)
                        if len(self.backs) < 2000:
                            self.backs.append((lid, s2))
                        nh = self.abstract_head(h, base, s2, lid, start, fr)
                        key = self.headkey(nh)
                        if key not in seen:
                            if len(heads) >= 8:
                                nh = self.abstract_head(h, base, s2, lid, start, fr, force=True)
                                key = self.headkey(nh)
                            if key not in seen and len(heads) < 24:
                                seen.append(key)
                                heads.append(nh)
                        # leave the loop after this iteration
                        ex = s2.copy()
                        ex.ver += 1
                        _, f2 = self.branch(node.test, ex, fr)
                        exits += f2
                    elif k == "break":
                        outs.append((s2.emit("endloop", lid, "break", node), "normal", None))
                    else:
                        outs.append((s2, k, v))
            self._check(outs)
        for s in self.merge(exits, base, lid, node, fr):
            outs += self.loop_exit(s, lid, node, fr)
        return self.merge_outs(outs, base, lid, node, fr)

    # exits of a loop that agree on every live variable continue as one state;
    # what the iterations did is kept as alternatives of an ("alts", ...) event
    def merge(self, states, base, lid, node, fr):
        if len(states) < 2:
            return states
        live = self.live_names(fr, node)
        groups = {}
        for s in states:
            s = s.copy()
            for k in list(s.env):
                if k not in base.env and (k[0] == fr.id or k[0] > fr.id) and (k[0] != fr.id or k[1] not in live):
                    del s.env[k]
                elif k[0] == fr.id and k[1] not in live:
                    del s.env[k]
            self.collect_heap(s, self.loops[lid].get("start", 0))
            groups.setdefault(self.headkey(s), []).append(s)
        out = []
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
                continue
            m = g[0].copy()
            m.ver = max(x.ver for x in g) + 1
            m.mut = {}
            for x in g:
                for v, k in x.mut.items():
                    m.mut[v] = max(m.mut.get(v, 0), k)
            m.facts = dict((p, v) for p, v in g[0].facts.items()
                           if all(p in x.facts and x.facts[p][0] == v[0] for x in g) and
                           all(self.holds(p, x.facts[p][1], x) for x in g))
            for p in m.facts:
                m.facts[p] = (m.facts[p][0], m.ver)
            segs = []
            for x in g:
                seg, e = [], x.ev
                while e is not base.ev:
                    if e is None:
                        break
                    seg.append(e[1])
                    e = e[0]
                seg.reverse()
                segs.append(tuple(seg))
            m.ev = (base.ev, ("alts", lid, tuple(segs)))
            out.append(m)
        return out

    def merge_outs(self, outs, base, lid, node, fr):
        """Normal continuations (after else blocks and breaks) merge as well."""
        norm = [o[0] for o in outs if o[1] == "normal"]
        if len(norm) < 2:
            return outs
        return [o for o in outs if o[1] != "normal"] + \
            [(s, "normal", None) for s in self.merge(norm, base, lid, node, fr)]

    def live_names(self, fr, node, at_head=False):
        """Names of the enclosing function that may be read after the given
        loop before they are written again."""
        f = fr.func
        if f is None or not isinstance(f.node, (ast.FunctionDef, ast.Lambda)):
            return ALLNAMES
        c = self.live_cache.get(id(f.node))
        if c is None:
            c = Liveness(f.node)
            self.live_cache[id(f.node)] = c
        return (c.head if at_head else c.at).get(id(node), ALLNAMES)

    def collect_heap(self, s, start):
        """Forgets fields of objects made after `start` that nothing live
        refers to any more."""
        if not s.heap:
            return
        young = lambda v: max_id(v) > start
        cand = [k for k in s.heap if young(k[0])]
        if not cand:
            return
        reach = set()
        for v in s.env.values():
            reach.update(subterms(v))
        rest = dict((k, v) for k, v in s.heap.items())
        changed = True
        keep = {}
        while changed:
            changed = False
            for k in list(rest):
                if not young(k[0]) or k[0] in reach:
                    v = rest.pop(k)
                    keep[k] = v
                    reach.update(subterms(v))
                    changed = True
        s.heap = keep

    def loop_exit(self, s, lid, node, fr):
        s = s.emit("endloop", lid, "exhausted", node)
        return self.block(node.orelse, s, fr) if getattr(node, "orelse", None) else [(s, "normal", None)]

    def headkey(self, s):
        return (tuple(sorted(((k, v) for k, v in s.env.items()), key=repr)),
                tuple(sorted(s.heap.items(), key=repr)))

    def note_back(self, lid, h, s2):
        back = self.loops[lid]["back"]
        for k, v in s2.env.items():
            if h.env.get(k) != v:
                back.setdefault(k, [])
                if v not in back[k]:
                    back[k].append(v)
        for k, v in s2.heap.items():
            if h.heap.get(k) != v:
                back.setdefault(k, [])
                if v not in back[k]:
                    back[k].append(v)

    def abstract_head(self, h, base, end, lid, start, fr, force=False):
        n = base.copy()
        n.ver = end.ver + 1
        n.mut = dict(n.mut)
        for v, k in end.mut.items():
            n.mut[v] = max(n.mut.get(v, 0), k)
        live = self.live_names(fr, self.loops[lid]["node"], at_head=True)
        end = end.copy()
        for k in list(end.env):
            if k[0] == fr.id and k[1] not in live or k[0] > fr.id and k not in base.env:
                del end.env[k]
        self.collect_heap(end, start)
        env = {}
        for k, v in end.env.items():
            if h.env.get(k) == v and not force:
                env[k] = v
            elif k in base.env and base.env[k] == v and not force:
                env[k] = v
            elif force and base.env.get(k) == v:
                env[k] = v
            elif max_id(v) > start or force or self.mentions_loop(v, lid) or self.grows(v, h.env.get(k)):
                env[k] = ("phi", lid, k[1])
            else:
                env[k] = v
        n.env = env
        heap = {}
        for k, v in end.heap.items():
            if h.heap.get(k) == v:
                heap[k] = v
            elif max_id(v) > start or force or self.mentions_loop(v, lid) or self.grows(v, h.heap.get(k)):
                heap[k] = ("phi", lid, k)
            else:
                heap[k] = v
        n.heap = heap
        self.collect_heap(n, start)
        return n

    def grows(self, v, old):
        return old is not None and any(t == old for t in subterms(v)) and v != old

    def mentions_loop(self, v, lid):
        return any(t and t[0] in ("elem", "phi") and t[2 if t[0] == "elem" else 1] == lid
                   for t in subterms(v) if isinstance(t, tuple))

    def iterate(self, it, st, fr, body, node, orelse=None):
        """for-like iteration: body(state, element) -> outcomes."""
        # generator written in this repository and not known to the rules
        g = self.as_gen(it)
        if g is not None:
            return self.iterate_gen(g, st, fr, body, node, orelse)
        lid = self.fresh()
        src = self.strip(it)
        el = self.element(it, lid)
        self.loops[lid] = {"iter": src, "init": dict(st.env), "back": {}, "node": node}
        start = self.loops[lid]["start"] = self.counter
        self.raw[lid] = it
        base = st.emit("loop", lid, src, node)
        outs = []
        lit = src[1] if src[0] == "tuple" else None
        if lit is not None and len(lit) <= 6:
            # iteration over a display: unrolled
            cur = [st.emit("loop", lid, src, node)]
            for x in lit:
                nxt = []
                for s in cur:
                    for s2, k, v in body(s.emit("iter", lid, x), x):
                        if k in ("normal", "continue"):
                            nxt.append(s2.emit("enditer", lid, node))
                        elif k == "break":
                            outs.append((s2.emit("endloop", lid, "break", node), "normal", None))
                        else:
                            outs.append((s2, k, v))
                cur = nxt
            for s in cur:
                s = s.emit("endloop", lid, "exhausted", node)
                outs += self.block(orelse, s, fr) if orelse else [(s, "normal", None)]
            return self._check(outs)
        self.implicit(base, node, "*")
        made = self.appended(st, src) if self.unroll else None
        if made is not None:
            return self._check(self.rewalk(base, made[0][1], lid, body, node, orelse, fr))
        if self.unroll:
            return self._check(self.unrolled(base, src, lid, body, node, orelse, fr))
        made = self.appended(st, src)
        if made is not None:
            full = st.facts.get(("truth", self.box(src)[0] or src), (None,))[0]
            for s, vals in made:
                if full is None or full == bool(vals) or len(made) == 1 and not vals:
                    if full and not vals:
                        break
                    outs += self.rewalk(s.emit("loop", lid, src, node), vals, lid, body, node, orelse, fr)
            else:
                base = base.copy()
                base.ev = self.shared(base.ev, [s.ev for s, _ in made])
                return self._check(self.merge_outs(outs, base, lid, node, fr))
            outs = []
        if src[0] == "bin" and src[1] == "+":
            # one collection after the other
            leaving = ("leave", self.fresh())

            def part(s2, e):
                return [(s3, leaving, v) if k == "break" else (s3, k, v) for s3, k, v in body(s2, e)]
            cur = [st]
            for half in src[2:4]:
                nxt = []
                for s in cur:
                    for s2, k, v in self.iterate(half, s, fr, part, node):
                        if k == "normal":
                            nxt.append(s2)
                        elif k == leaving:
                            outs.append((s2, "normal", None))
                        else:
                            outs.append((s2, k, v))
                cur = nxt
            for s in cur:
                outs += self.block(orelse, s, fr) if orelse else [(s, "normal", None)]
            return self.merge_outs(self._check(outs), base, lid, node, fr)
        heads = [base]
        seen = [self.headkey(base)]

        def leave(s):
            if endless:
                return []
            s = s.emit("endloop", lid, "exhausted", node)
            return self.block(orelse, s, fr) if orelse else [(s, "normal", None)]

        endless = src[0] == "call" and (src[1] == ("g", "itertools.count") or src[1] == ("g", "itertools.repeat") and len(src[2]) < 2)
        exits = [base]
        i = 0
        while i < len(heads):
            h = heads[i]
            i += 1
            for s2, k, v in body(self.new_element(h, src, lid).emit("iter", lid, el), el):
                if k in ("normal", "continue"):
                    s2 = s2.emit("enditer", lid, node)
                    self.note_back(lid, h, s2)
                    nh = self.abstract_head(h, base, s2, lid, start, fr)
                    key = self.headkey(nh)
                    if key not in seen:
                        if len(heads) >= 8:
                            nh = self.abstract_head(h, base, s2, lid, start, fr, force=True)
                            key = self.headkey(nh)
                        if key not in seen and len(heads) < 24:
                            seen.append(key)
                            heads.append(nh)
                    ex = s2.copy()
                    ex.ver += 1
                    exits.append(ex)
                elif k == "break":
                    outs.append((s2.emit("endloop", lid, "break", node), "normal", None))
                else:
                    outs.append((s2, k, v))
            self._check(outs)
        for s in self.merge(exits, base, lid, node, fr):
            outs += leave(s)
        return self.merge_outs(outs, base, lid, node, fr)

    def appended(self, st, src):
        """What was put, on this path, into a list made on it and only appended to: [(state, values)], one for each
        way the loop that fills it may have been walked; None if that is not known.

        The path shows one walk of the loop that fills the list, and any walk of it is shown by some path."""
        if src[0] == "conv" and src[1] == "list" and src[2][0] == "tuple":
            return [(st, list(src[2][1]))]
        if src[0] == "bin" and src[1] == "+":
            out = []
            for s, vs in self.appended(st, src[2]) or [(st, None)]:
                more = self.appended(s, src[3]) if vs is not None else None
                if more is None:
                    return None
                out += [(s2, vs + ws) for s2, ws in more]
            return out if len(out) <= 8 else None
        box, view = self.box(src)
        if box is None:
            return None
        tail, closed, e = [], set(), st.ev
        while e is not None:
            x = e[1]
            if x[0] == "endloop":
                closed.add(x[1])
            elif x[0] == "loop" and x[1] not in closed and isinstance(x[1], int) and x[1] > box[2] and self.fills(x[3], st, box):
                return None
            tail.append(e)
            e = e[0]
        tail.reverse()
        ways, root = [([], [])], None
        for e in tail:
            more = self.filling(e[1], box, src)
            if more is None:
                return None
            if len(more) > 1 and root is None:
                root = e[0]
                ways = [([], vs) for _, vs in ways]
            ways = [(ev + e2, vs + v2) for ev, vs in ways for e2, v2 in more]
            if len(ways) > 8:
                return None
        if root is None:
            vals = self.viewed(ways[0][1], box, src, view)
            return None if vals is None else [(st, vals)]
        out = []
        for ev, vals in ways:
            if not consistent([y for y in ev if y[0] != "alts"]):
                continue
            s = st.copy()
            s.ev = root
            for y in ev:
                s.ev = (s.ev, y)
            mut = {}
            for i in range(len(ev) - 1, -1, -1):
                y = ev[i]
                if y[0] == "fact" and stable(y[1]) and y[1] not in s.facts and unchanged(y[1], i, mut):
                    s.facts[y[1]] = (y[2], s.ver)
                for v in mutated(y):
                    mut.setdefault(v, i)
            vals = self.viewed(vals, box, src, view)
            if vals is None:
                return None
            out.append((s, vals))
        return out

    def fills(self, loop, st, box):
        """May the body of the loop change the box, or hand it on?"""
        names = {k[1] for k, v in st.env.items() if v == box}
        body = getattr(loop, "body", None)
        for n in [x for y in body for x in ast.walk(y)] if isinstance(body, list) else ast.walk(loop):
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in MUTATORS and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(f.value)):
                    return True
                if any(isinstance(a, ast.Name) and a.id in names for a in n.args + [k.value for k in n.keywords]) and \
                        not (isinstance(f, ast.Name) and f.id in PURE_BUILTINS):
                    return True
            elif isinstance(n, (ast.Subscript, ast.AugAssign)):
                t = n.value if isinstance(n, ast.Subscript) else n.target
                if (isinstance(n, ast.AugAssign) or not isinstance(n.ctx, ast.Load)) and \
                        any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(t)):
                    return True
            elif isinstance(n, ast.Yield) and isinstance(n.value, ast.Name) and n.value.id in names:
                return True
        return False

    def filling(self, x, box, src):
        """The ways an event may have filled the list: [(events, values)]; None if it is not only appended to."""
        if x[0] == "alts":
            idle, ways = [], []
            for seg in x[2]:
                seqs = [([], [])]
                for y in seg:
                    more = self.filling(y, box, src)
                    if more is None:
                        return None
                    seqs = [(ev + e2, vs + v2) for ev, vs in seqs for e2, v2 in more]
                    if len(seqs) > 8:
                        return None
                idle += [tuple(ev) for ev, vs in seqs if not vs]
                ways += [q for q in seqs if q[1]]
            if len(idle) == 1:
                ways.insert(0, (list(idle[0]), []))
            elif idle:
                ways.insert(0, ([("alts", x[1], tuple(idle))], []))
            return ways
        if x[0] == "new" and x[4] == box or x[0] == "delitem" and box_of(x[1]) == box:
            return None
        made_list = box[1] == "builtins.list"
        if x[0] == "setitem" and x[1] == box:
            return None if made_list else [([x], [("item", x[2], x[3])])]
        if x[0] == "setitem" and box_of(x[1]) == box:
            return None
        if x[0] == "call":
            fv = x[1]
            if fv[0] == "a" and fv[1] == box and fv[2] not in ("items", "values", "keys", "get", "copy"):
                return [([x], [x[2][0]])] if made_list and fv[2] == "append" and len(x[2]) == 1 else None
            if fv[0] == "a" and fv[1] != box and box_of(fv[1]) == box:
                # a list of its own for every key
                if fv[1][0] == "i" and fv[1][1] == box and box[1] == "collections.defaultdict" and fv[2] == "append" and len(x[2]) == 1:
                    return [([x], [("part", fv[1], x[2][0])])]
                return None
            if box in x[2]:
                return None
        return [([x], [])]

    def box(self, src):
        """The list or dict made on the path that a walk goes over, and what it sees of it."""
        view = None
        if src[0] == "call" and src[1][0] == "a" and src[1][2] in ("values", "items", "keys") and not src[2]:
            view, src = src[1][2], src[1][1]
        elif src[0] == "i" and src[1][0] == "new" and src[1][1] == "collections.defaultdict":
            view, src = "part", src[1]
        if src[0] != "new" or not isinstance(src[2], int):
            return None, None
        if src[1] == "builtins.list":
            return (src, "list") if view is None else (None, None)
        if src[1] in ("builtins.dict", "collections.defaultdict"):
            return src, view or "keys"
        return None, None

    def viewed(self, vals, box, src, view):
        if view == "list":
            return vals
        if view == "part":
            return [v[2] for v in vals if v[0] == "part" and v[1] == src] if all(v[0] == "part" for v in vals) else None
        out = {}
        for v in vals:
            k, x = (v[1], v[2]) if v[0] == "item" else (v[1][2], v[1])
            if k in out and out[k] != x:
                return None
            out[k] = x
        if len(out) > 1 and not all(k[0] == "c" for k in out):
            return None
        return [k if view == "keys" else x if view == "values" else ("tuple", (k, x)) for k, x in out.items()]

    def shared(self, e, others):
        """The last event all traces have in common."""
        def nodes(x):
            out = []
            while x is not None:
                out.append(x)
                x = x[0]
            return out[::-1]
        last = None
        for row in zip(*[nodes(x) for x in others]):
            if any(x is not row[0] for x in row):
                break
            last = row[0]
        return last

    def rewalk(self, base, made, lid, body, node, orelse, fr):
        """Walks a list again whose elements are known."""
        outs, cur = [], [base]
        for x in made:
            nxt = []
            for s in cur:
                for s2, k, v in body(s.emit("iter", lid, x), x):
                    if k in ("normal", "continue"):
                        nxt.append(s2.emit("enditer", lid, node))
                    elif k == "break":
                        outs.append((s2.emit("endloop", lid, "break", node), "normal", None))
                    else:
                        outs.append((s2, k, v))
            cur = nxt
            self._check(cur)
        for s in cur:
            s = s.emit("endloop", lid, "exhausted", node)
            outs += self.block(orelse, s, fr) if orelse else [(s, "normal", None)]
        return outs

    def new_element(self, h, src, lid):
        """The element of the next iteration is another object: nothing is known about it."""
        old = lambda t: any(x and x[0] in ("elem", "index", "key") and x[-1] == lid for x in subterms(t))
        if any(old(k) for k in h.heap) or any(old(k) for k in h.facts):
            h = h.copy()
            h.heap = dict((k, v) for k, v in h.heap.items() if not old(k))
            h.facts = dict((k, v) for k, v in h.facts.items() if not old(k))
        return h

    def strip(self, it):
        while it[0] == "conv" and it[1] in ("list", "tuple", "iter"):
            it = it[2]
        return it

    # ---- exact iteration: every number of elements up to a bound (for functions that build text)

    def unrolled(self, base, src, lid, body, node, orelse, fr):
        coll = self.counted(src)
        outs, cur = [], [base]
        for n in range(self.unroll + 1):
            for s in cur:
                if coll is None or self.may_have(s, base, coll, n):
                    s = s.emit("endloop", lid, "exhausted", node)
                    outs += self.block(orelse, s, fr) if orelse else [(s, "normal", None)]
            if n == self.unroll:
                break
            el = self.element_at(src, self.fresh(), n)
            nxt = []
            for s in cur:
                for s2, k, v in body(s.emit("iter", lid, el), el):
                    if k in ("normal", "continue"):
                        nxt.append(s2.emit("enditer", lid, node))
                    elif k == "break":
                        outs.append((s2.emit("endloop", lid, "break", node), "normal", None))
                    else:
                        outs.append((s2, k, v))
            cur = nxt
            self._check(cur)
        return outs

    def counted(self, src):
        """The collection whose length is the number of iterations."""
        src = self.strip(src)
        while src[0] == "call" and src[1] in (("g", "builtins.enumerate"), ("g", "builtins.reversed"), ("g", "builtins.sorted")):
            src = self.strip(src[2][0])
        return src

    def element_at(self, it, lid, n):
        el = self.element(it, lid)

        def sub(v):
            if isinstance(v, tuple) and v:
                if v[0] == "index" and len(v) > 2 and v[2] == lid:
                    return const(n)
                if v[0] == "c":
                    return v
                w = tuple(sub(x) for x in v)
                if w[0] == "bin" and w[1] == "+" and w[2][0] == "c" and w[3][0] == "c":
                    return const(w[2][2] + w[3][2])
                return w
            return v
        return sub(el)

    def size(self, st, v):
        """Number of elements of a list made on the path, or of a collection walked to its end on it; None if unknown."""
        v = self.strip(v)
        made = v[0] == "new" and v[1] == "builtins.list"
        n, ends, e = 0, {}, st.ev
        evs = []
        while e is not None:
            evs.append(e[1])
            e = e[0]
        if made:
            for x in evs:
                if x[0] == "call" and x[1][0] == "a" and x[1][1] == v:
                    if x[1][2] == "append":
                        n += 1
                    elif x[1][2] in MUTATORS:
                        return None
                elif x[0] == "new" and x[4] == v and x[2]:
                    return None
            return n
        for x in evs:
            if x[0] == "endloop" and x[2] == "exhausted":
                ends[x[1]] = 0
            elif x[0] == "iter" and x[1] in ends:
                ends[x[1]] += 1
            elif x[0] == "loop" and x[1] in ends and x[2] is not None and self.counted(x[2]) == v:
                return ends[x[1]]
        return None

    def may_have(self, st, base, coll, n):
        """Is it consistent with what is known that a collection has n elements?"""
        k = self.size(base, coll)
        if k is not None:
            return k == n
        for pred, (pol, ver) in st.facts.items():
            t = self.sized(pred, coll, n)
            if t is not None and t != pol:
                return False
        return True

    def sized(self, pred, coll, n):
        """Truth of a predicate about a collection of n elements."""
        if pred == ("truth", coll) or pred == ("truth", ("len", coll)):
            return n > 0

        def sub(v):
            if v == ("len", coll):
                return const(n)
            if isinstance(v, tuple) and v and v[0] != "c":
                w = tuple(sub(x) for x in v)
                if w[0] == "bin" and len(w) == 4 and w[2][0] == "c" and w[3][0] == "c" and w[1] in "+-":
                    return const(w[2][2] + w[3][2] if w[1] == "+" else w[2][2] - w[3][2])
                return w
            return v
        new = sub(pred)
        return self.evaluate_pred(new) if new != pred else None

    def sized_any(self, st, pred):
        for t in subterms(pred):
            c = t[1] if t and t[0] == "len" else t[1] if t is pred and pred[0] == "truth" else None
            if isinstance(c, tuple) and c and c[0] in ("new", "a", "p", "elem", "len", "conv", "call"):
                c = self.strip(c[1] if c[0] == "len" else c)
                k = self.size(st, c)
                if k is not None:
                    return self.sized(pred, c, k)
        if pred[0] == "truth":
            v = pred[1]
            if v[0] in ("bin", "fmt") and any(x[0] == "c" and x[1] == "str" and x[2] for x in subterms(v) if x and x[0] == "c") and v[1] in ("+",):
                return True
        return None

    def element(self, it, lid):
        src = self.strip(it)
        if src[0] == "call" and src[1] == ("g", "builtins.enumerate"):
            k = ("index", src[2][0], lid)
            first = src[2][1] if len(src[2]) > 1 else None
            if first is not None and first[0] == "kw":
                first = first[2]
            return ("tuple", (k if first is None else ("bin", "+", k, first), self.element(src[2][0], lid)))
        if src[0] == "call" and src[1] == ("g", "builtins.zip"):
            return ("tuple", tuple(self.element(a, lid) for a in src[2]))
        if src[0] == "call" and src[1][0] == "a" and src[1][2] == "items" and not src[2]:
            return ("tuple", (("key", src[1][1], lid), ("elem", src, lid)))
        return ("elem", src, lid)

    def as_gen(self, it):
        it = self.strip(it)
        if it[0] == "gencall":
            return it
        return None

    def iterate_gen(self, g, st, fr, body, node, orelse):
        fn, args = self.info[g[2]]
        f, pfr = fn
        token = ("escape", self.fresh())

        def on_yield(s, v):
            res = []
            for s2, k, val in body(s, v):
                if k in ("normal", "continue"):
                    res.append(s2)
                else:
                    self.pending.append((s2, (token, k), val))
            return res
        gfr = Frame(f, parent=pfr, on_yield=on_yield, depth=fr.depth + 1)
        s = st.copy()
        for k, v in args.items():
            s.env[(gfr.id, k)] = v
        self.callstack.append(f.qual)
        self.inlined.add(f.qual)
        outs = []
        for s2, k, v in self.block(f.node.body, s, gfr):
            if k in ("normal", "return"):
                outs += self.block(orelse, s2, fr) if orelse else [(s2, "normal", None)]
            elif isinstance(k, tuple) and k[0] == token:
                if k[1] == "break":
                    outs.append((s2, "normal", None))
                else:
                    outs.append((s2, k[1], v))
            else:
                outs.append((s2, k, v))
        self.callstack.pop()
        return outs

    # ----------------------------------------------------------- targets

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            s = st.copy()
            f = fr
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None and (f.id, t.id) not in s.env:
                    f = f.parent
                f = f or fr
            s.env[(f.id, t.id)] = v
            return [s]
        if isinstance(t, (ast.Tuple, ast.List)):
            cur = [st]
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                after = len(t.elts) - 1 - i
                if isinstance(e, ast.Starred):
                    e = e.value
                    if v[0] == "tuple":
                        val = ("conv", "list", ("tuple", v[1][i:len(v[1]) - after]))
                    else:
                        val = ("conv", "list", ("i", v, ("slice", const(i) if i else const(None), const(-after) if after else const(None), const(None))))
                elif star and i > star[0]:
                    val = v[1][i - len(t.elts)] if v[0] == "tuple" and after < len(v[1]) else ("i", v, const(i - len(t.elts)))
                elif v[0] == "tuple" and i < len(v[1]):
                    val = v[1][i]
                else:
                    val = ("i", v, const(i))
                cur = [s2 for s in cur for s2 in self.assign(e, val, s, fr)]
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.eval(t.value, st, fr):
                s = s.emit("setattr", b, t.attr, v, t)
                s.heap[(b, t.attr)] = v
                s.ver += 1
                out.append(s)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, b in self.eval(t.value, st, fr):
                for s2, k in self.eval(t.slice, s, fr):
                    s2 = s2.emit("setitem", b, k, v, t)
                    s2.heap = dict((hk, hv) for hk, hv in s2.heap.items() if not (hk[0] == b and isinstance(hk[1], tuple)))
                    s2.heap[(b, k)] = v
                    s2.ver += 1
                    out.append(s2)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        return [st]

    # ------------------------------------------------------- expressions

    def eval(self, node, st, fr):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            return [(st, ("unk", type(node).__name__, self.fresh()))]
        return m(node, st, fr)

    def evals(self, nodes, st, fr):
        cur = [(st, ())]
        for n in nodes:
            cur = [(s2, vs + (v,)) for s, vs in cur for s2, v in self.eval(n, s, fr)]
        return cur

    def e_Constant(self, node, st, fr):
        return [(st, const(node.value))]

    def e_Name(self, node, st, fr):
        return [(st, self.lookup(node.id, st, fr))]

    def lookup(self, name, st, fr):
        f, own = fr, True
        while f is not None:
            if (f.id, name) in st.env:
                return st.env[(f.id, name)]
            if own and f.func is not None and not f.comp:
                if name in local_names(f.func.node):
                    # assigned somewhere in this function, but not on this path
                    self.unbound.setdefault((f.func.qual, name), (f.func, st))
                own = False
            f = f.parent
        return self.global_name(name, fr.module)

    def global_name(self, name, module):
        if name in module.assigns:
            vals = module.assigns[name]
            if len(vals) == 1:
                try:
                    lit = ast.literal_eval(vals[0])
                    if isinstance(lit, (str, int, float, bool, type(None))):
                        return const(lit)
                    if isinstance(lit, tuple) and all(isinstance(x, (str, int, float, bool, type(None))) for x in lit):
                        return ("tuple", tuple(const(x) for x in lit))
                except (ValueError, SyntaxError, TypeError):
                    pass
                if isinstance(vals[0], ast.Lambda):
                    n = self.fresh()
                    return ("g", module.name + "." + name)
                if isinstance(vals[0], (ast.Name, ast.Attribute)):
                    q = self.prog.resolve_expr(module, vals[0])
                    if q:
                        return ("g", q)
                v = self.table(module, name, vals[0])
                if v is not None:
                    return v
            return ("g", module.name + "." + name)
        if name in module.functions or name in module.classes:
            return ("g", module.name + "." + name)
        if name in module.imports:
            return ("g", self.prog.canonical(module.imports[name]))
        return ("g", "builtins." + name)

    def table(self, module, name, node):
        """The value of a module level (or class level) display that nothing changes later."""
        if not isinstance(node, (ast.Dict, ast.Set, ast.Tuple, ast.Call)) or not node_is_display(node):
            return None
        key = (module.name, name)
        cache = self.prog.__dict__.setdefault("tables", {})
        if key not in cache:
            cache[key] = not any(altered(m.tree, name) for m in self.prog.modules.values())
        return self.static(node, module) if cache[key] else None

    def static(self, node, module):
        if isinstance(node, ast.Constant):
            return const(node.value)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) and isinstance(node.operand, ast.Constant):
            return const(-node.operand.value)
        if isinstance(node, ast.Name):
            return self.global_name(node.id, module)
        if isinstance(node, ast.Attribute):
            q = self.prog.resolve_expr(module, node)
            return ("g", q) if q else None
        if isinstance(node, (ast.Tuple, ast.List, ast.Set)):
            vs = tuple(self.static(x, module) for x in node.elts)
            if any(v is None for v in vs):
                return None
            return ("tuple", vs) if isinstance(node, ast.Tuple) else ("conv", type(node).__name__.lower(), ("tuple", vs))
        if isinstance(node, ast.Dict):
            if any(k is None for k in node.keys):
                return None
            items = tuple((self.static(k, module), self.static(v, module)) for k, v in zip(node.keys, node.values))
            return None if any(k is None or v is None for k, v in items) else ("dict", items)
        if isinstance(node, ast.Call) and node_is_display(node):
            v = self.static(node.args[0], module)
            if v is None:
                return None
            v = v[2] if v[0] == "conv" else v
            return v if node.func.id == "tuple" else ("conv", "set", v)
        if isinstance(node, ast.Lambda):
            n = self.fresh()
            f = Func("<lambda>", node, module, None)
            self.info[n] = (f, Frame(Func("<module>", ast.parse("lambda: 0", mode="eval").body, module, None)))
            return ("func", "<lambda:%d>" % node.lineno, n)
        return None

    def e_Attribute(self, node, st, fr):
        out = []
        for s, b in self.eval(node.value, st, fr):
            v = self.attr(b, node.attr, s, fr)
            if v == ("a", b, node.attr) and node.attr not in CONTAINER_METHODS:
                cls = self.type_of(b, fr)
                fs = [self.prog.find_method(cls, node.attr)] if cls else self.prog.methods_by_name.get(node.attr, [])
                fs = [f for f in fs if f is not None and is_property(f)]
                if len(fs) == 1:
                    out += self.call_func(fs[0], (), (), s, fr, node, None, v, selfv=b)
                    continue
            out.append((s, v))
            if b[0] not in ("g",):
                self.implicit(s, node, "AttributeError")
        return out

    def attr(self, b, name, s, fr):
        if b[0] == "g":
            q = b[1] + "." + name
            if b[1].startswith("builtins."):
                return ("a", b, name)
            c = self.prog.canonical(q)
            m = self.prog
            mod, _, last = c.rpartition(".")
            if mod in m.modules and last in m.modules[mod].assigns and last not in m.modules[mod].classes:
                return self.global_name(last, m.modules[mod])
            if (b, name) in s.heap:
                return s.heap[(b, name)]
            if b[1] in m.classes:
                cl = m.classes[b[1]]
                if name in cl.assigns and isinstance(cl.assigns[name], ast.Constant) and not self.is_enum(b[1]):
                    return const(cl.assigns[name].value)
                if name in cl.assigns and not self.is_enum(b[1]):
                    v = self.table(cl.module, name, cl.assigns[name])
                    if v is not None:
                        return v
            return ("g", c)
        if (b, name) in s.heap:
            return s.heap[(b, name)]
        # class level constants through self
        cls = self.type_of(b, fr)
        if cls:
            for q in self.prog.mro(cls):
                c = self.prog.classes[q]
                if name in c.assigns and isinstance(c.assigns[name], ast.Constant):
                    return const(c.assigns[name].value)
                if name in c.assigns and not self.is_enum(q):
                    v = self.table(c.module, name, c.assigns[name])
                    if v is not None:
                        return v
        return ("a", b, name)

    def is_enum(self, q):
        return q in self.prog.classes and any(b and b.startswith("enum.") for b in self.prog.classes[q].bases)

    def e_Subscript(self, node, st, fr):
        out = []
        for s, b in self.eval(node.value, st, fr):
            if isinstance(node.slice, ast.Slice):
                parts = [node.slice.lower, node.slice.upper, node.slice.step]
                cur = [(s, ())]
                for p in parts:
                    if p is None:
                        cur = [(a, vs + (NONE,)) for a, vs in cur]
                    else:
                        cur = [(a2, vs + (v,)) for a, vs in cur for a2, v in self.eval(p, a, fr)]
                for a, vs in cur:
                    out.append((a, ("i", b, ("slice",) + vs)))
                continue
            for s2, k in self.eval(node.slice, s, fr):
                self.implicit(s2, node, "KeyError", "IndexError", "TypeError")
                if (b, k) in s2.heap:
                    out.append((s2, s2.heap[(b, k)]))
                elif b[0] == "tuple" and k[0] == "c" and isinstance(k[2], int) and -len(b[1]) <= k[2] < len(b[1]):
                    out.append((s2, b[1][k[2]]))
                elif b[0] == "dict" and any(kk == k for kk, _ in b[1]):
                    out.append((s2, dict(b[1])[k]))
                elif b[0] == "dict" and b[1] and all(self.constlike(kk) for kk, _ in b[1]):
                    # table dispatch: one path per entry
                    found, missing = self.entries(s2, b, k, node)
                    out += found
                    for s3 in missing:
                        self.implicit(s3, node, "KeyError")
                elif k[0] == "c" and isinstance(k[2], int) and ("seq", b) in s2.mut:
                    # another object than before the sequence changed
                    out.append((s2, ("i", b, k, s2.mut[("seq", b)])))
                else:
                    out.append((s2, ("i", b, k)))
        return out

    def entries(self, st, table, key, node):
        """Looking up a key in a dict display: the entry found on each path, and the states where there is none."""
        found, rest = [], [st]
        for kk, vv in table[1]:
            nxt = []
            for s in rest:
                t, f = self.fork_eq(s, key, kk, node)
                found += [(q, vv) for q in t]
                nxt += f
            rest = nxt
        return found, rest

    def constlike(self, v):
        return v[0] == "c" or (v[0] == "g") or (v[0] == "tuple" and all(self.constlike(x) for x in v[1]))

    def e_Tuple(self, node, st, fr):
        return [(s, ("tuple", vs)) for s, vs in self.evals(node.elts, st, fr)]

    def e_List(self, node, st, fr):
        if not node.elts:
            return [(st, ("new", "builtins.list", self.fresh()))]
        return [(s, ("conv", "list", ("tuple", vs))) for s, vs in self.evals(node.elts, st, fr)]

    def e_Set(self, node, st, fr):
        return [(s, ("conv", "set", ("tuple", vs))) for s, vs in self.evals(node.elts, st, fr)]

    def e_Dict(self, node, st, fr):
        if not node.keys:
            return [(st, ("new", "builtins.dict", self.fresh()))]
        if any(k is None for k in node.keys):
            return [(st, ("unk", "dict", self.fresh()))]
        out = []
        for s, ks in self.evals(node.keys, st, fr):
            for s2, vs in self.evals(node.values, s, fr):
                out.append((s2, ("dict", tuple(zip(ks, vs)))))
        return out

    def e_Starred(self, node, st, fr):
        return [(s, ("star", v)) for s, v in self.eval(node.value, st, fr)]

    def e_Lambda(self, node, st, fr):
        n = self.fresh()
        f = Func("<lambda>", node, fr.module, fr.cls)
        self.info[n] = (f, fr)
        return [(st, ("func", "<lambda:%d>" % node.lineno, n))]

    def e_JoinedStr(self, node, st, fr):
        parts = []
        for v in node.values:
            parts.append(v.value if isinstance(v, ast.FormattedValue) else v)
        return [(s, ("fmt", vs)) for s, vs in self.evals(parts, st, fr)]

    def e_IfExp(self, node, st, fr):
        t, f = self.branch(node.test, st, fr)
        out = []
        for s in t:
            out += self.eval(node.body, s, fr)
        for s in f:
            out += self.eval(node.orelse, s, fr)
        return out

    def e_NamedExpr(self, node, st, fr):
        return [(s2, v) for s, v in self.eval(node.value, st, fr) for s2 in self.assign(node.target, v, s, fr)]

    def binop(self, op, l, r):
        return ("bin", op, l, r)

    def e_BinOp(self, node, st, fr):
        out = []
        for s, l in self.eval(node.left, st, fr):
            for s2, r in self.eval(node.right, s, fr):
                self.implicit(s2, node, "ZeroDivisionError", "OverflowError", "TypeError")
                out.append((s2, self.binop(BINOPS.get(type(node.op), "?"), l, r)))
        return out

    def e_UnaryOp(self, node, st, fr):
        if isinstance(node.op, ast.Not):
            t, f = self.branch(node.operand, st, fr)
            return [(s, FALSE) for s in t] + [(s, TRUE) for s in f]
        out = []
        for s, v in self.eval(node.operand, st, fr):
            if v[0] == "c" and isinstance(v[2], (int, float)) and isinstance(node.op, ast.USub):
                out.append((s, const(-v[2])))
            else:
                out.append((s, ("un", type(node.op).__name__, v)))
        return out

    def e_BoolOp(self, node, st, fr):
        # value context: the deciding operand is the value
        out = []
        cur = [st]
        is_and = isinstance(node.op, ast.And)
        for i, x in enumerate(node.values):
            nxt = []
            for s in cur:
                if i == len(node.values) - 1:
                    out += self.eval(x, s, fr)
                    continue
                if self.boolish(x):
                    t, f = self.branch(x, s, fr)
                    if is_and:
                        nxt += t
                        out += [(q, FALSE) for q in f]
                    else:
                        nxt += f
                        out += [(q, TRUE) for q in t]
                else:
                    for s2, v in self.eval(x, s, fr):
                        t, f = self.truth(v, s2, fr, x)
                        if is_and:
                            nxt += t
                            out += [(q, v) for q in f]
                        else:
                            nxt += f
                            out += [(q, v) for q in t]
            cur = nxt
        return out

    def boolish(self, x):
        return isinstance(x, (ast.Compare,)) or (isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not)) or \
            (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("isinstance", "hasattr", "any", "all"))

    def e_Compare(self, node, st, fr):
        t, f = self.branch(node, st, fr)
        return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]

    def e_Yield(self, node, st, fr):
        out = []
        vals = self.eval(node.value, st, fr) if node.value is not None else [(st, NONE)]
        for s, v in vals:
            f = fr
            while f is not None and f.on_yield is None and f.func is None:
                f = f.parent
            if f is not None and f.on_yield is not None:
                out += [(s2, NONE) for s2 in f.on_yield(s, v)]
            else:
                s = s.emit("yield", v, node)
                s.ver += 1
                out.append((s, NONE))
        return out

    def e_YieldFrom(self, node, st, fr):
        out = []
        for s, it in self.eval(node.value, st, fr):
            def body(s2, el):
                if fr.on_yield is not None:
                    return [(s3, "normal", None) for s3 in fr.on_yield(s2, el)]
                s2 = s2.emit("yield", el, node)
                s2.ver += 1
                return [(s2, "normal", None)]
            for s3, k, v in self.iterate(it, s, fr, body, node):
                if k == "normal":
                    out.append((s3, NONE))
                else:
                    self.pending.append((s3, k, v))
        return out

    def e_Await(self, node, st, fr):
        return self.eval(node.value, st, fr)

    # comprehensions ------------------------------------------------------

    def comp(self, gens, st, fr, inner):
        """Runs inner(state, frame) -> outcomes for each element."""
        cfr = Frame(None, parent=fr, depth=fr.depth)
        cfr.func = fr.func
        cfr.comp = True
        cfr.on_yield = fr.on_yield

        def level(i, s):
            if i == len(gens):
                return inner(s, cfr)
            g = gens[i]
            outs = []
            for s1, it in self.eval(g.iter, s, cfr if i else fr):
                def body(s2, el):
                    res = []
                    for s3 in self.assign(g.target, el, s2, cfr):
                        cur, skip = [s3], []
                        for c in g.ifs:
                            nxt = []
                            for q in cur:
                                t, f = self.branch(c, q, cfr)
                                nxt += t
                                skip += f
                            cur = nxt
                        for q in cur:
                            res += level(i + 1, q)
                        res += [(q, "normal", None) for q in skip]
                    return res
                outs += self.iterate(it, s1, fr, body, g.iter)
            return outs
        return level(0, st)

    def collect(self, node, st, fr, kind):
        n = self.fresh()
        lst = ("new", "builtins." + kind, n)
        out = []

        def inner(s, cfr):
            res = []
            if isinstance(node, ast.DictComp):
                for s2, k in self.eval(node.key, s, cfr):
                    for s3, v in self.eval(node.value, s2, cfr):
                        res.append((s3.emit("setitem", lst, k, v, node), "normal", None))
                return res
            for s2, v in self.eval(node.elt, s, cfr):
                s2 = s2.emit("call", ("a", lst, "add" if kind == "set" else "append"), (v,), (), NONE, node)
                res.append((s2, "normal", None))
            return res
        for s, k, v in self.comp(node.generators, st, fr, inner):
            if k == "normal":
                out.append((s, lst))
            else:
                self.pending.append((s, k, v))
        return out

    def e_ListComp(self, node, st, fr):
        return self.collect(node, st, fr, "list")

    def e_SetComp(self, node, st, fr):
        return self.collect(node, st, fr, "set")

    def e_DictComp(self, node, st, fr):
        return self.collect(node, st, fr, "dict")

    def e_GeneratorExp(self, node, st, fr):
        return self.collect(node, st, fr, "list")

    # ------------------------------------------------------------ branches

    def branch(self, node, st, fr):
        """-> (states where true, states where false)"""
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            cur, done = [st], []
            for x in node.values:
                nxt = []
                for s in cur:
                    t, f = self.branch(x, s, fr)
                    if is_and:
                        nxt += t
                        done += f
                    else:
                        nxt += f
                        done += t
                cur = nxt
            return (cur, done) if is_and else (done, cur)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            t, f = self.branch(node.operand, st, fr)
            return f, t
        if isinstance(node, ast.Compare):
            if len(node.ops) > 1:
                # a < b < c
                cur, done = [st], []
                left = node.left
                for op, right in zip(node.ops, node.comparators):
                    c = ast.copy_location(ast.Compare(left, [op], [right]), node)
                    nxt = []
                    for s in cur:
                        t, f = self.branch(c, s, fr)
                        nxt += t
                        done += f
                    cur = nxt
                    left = right
                return cur, done
            T, F = [], []
            for s, l in self.eval(node.left, st, fr):
                for s2, r in self.eval(node.comparators[0], s, fr):
                    t, f = self.compare(node.ops[0], l, r, s2, node)
                    T += t
                    F += f
            return T, F
        T, F = [], []
        for s, v in self.eval(node, st, fr):
            t, f = self.truth(v, s, fr, node)
            T += t
            F += f
        return T, F

    def sym(self, k, a, b):
        return (k,) + tuple(sorted((a, b), key=repr))

    def compare(self, op, l, r, st, node):
        neg = isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn))
        if isinstance(op, (ast.Is, ast.IsNot)):
            pred = self.sym("is", l, r)
        elif isinstance(op, (ast.Eq, ast.NotEq)):
            if l == const(0) and r[0] == "len":
                l, r = r, l
            if l[0] == "len" and r == const(0):
                pred, neg = ("truth", l), not neg
            elif l[0] == "c" and l[1] == "NoneType" or r[0] == "c" and r[1] == "NoneType":
                pred = self.sym("is", l, r)
            elif l[0] == "tuple" and r[0] == "tuple":
                t, f = self.fork_eq(st, l, r, node)
                return (f, t) if neg else (t, f)
            else:
                pred = self.sym("eq", l, r)
        elif isinstance(op, (ast.In, ast.NotIn)):
            if r[0] in ("conv",) and r[2][0] == "tuple":
                r = r[2]
            if r[0] == "dict":
                r = ("tuple", tuple(k for k, _ in r[1]))
            if r[0] == "tuple" and r[1] and all(self.constlike(x) for x in r[1]):
                # membership in a display of constants: the alternatives
                T, F = [], [st]
                for x in r[1]:
                    nf = []
                    for s in F:
                        t, f = self.fork_eq(s, l, x, node)
                        T += t
                        nf += f
                    F = nf
                return (F, T) if neg else (T, F)
            pred = ("in", l, r)
        elif isinstance(op, ast.Lt):
            pred = ("lt", l, r)
        elif isinstance(op, ast.Gt):
            pred = ("lt", r, l)
        elif isinstance(op, ast.LtE):
            pred, neg = ("lt", r, l), True
        elif isinstance(op, ast.GtE):
            pred, neg = ("lt", l, r), True
        else:
            pred = ("unk", self.fresh())
        if pred[0] == "lt" and pred[1] == const(0) and pred[2][0] == "len":
            pred = ("truth", pred[2])
        elif pred[0] == "lt" and pred[2] == const(1) and pred[1][0] == "len":
            pred, neg = ("truth", pred[1]), not neg
        t, f = self.fork(st, pred, node)
        return (f, t) if neg else (t, f)

    def fork_eq(self, st, a, b, node):
        """Equality; of tuples, that of their elements."""
        if a[0] == "tuple" and b[0] == "tuple":
            if len(a[1]) != len(b[1]):
                return [], [st]
            T, F = [st], []
            for x, y in zip(a[1], b[1]):
                nt = []
                for s in T:
                    t, f = self.fork_eq(s, x, y, node)
                    nt += t
                    F += f
                T = nt
            return T, F
        return self.fork(st, self.sym("eq", a, b), node)

    def truth(self, v, st, fr, node):
        if v[0] == "c":
            return ([st], []) if v[2] else ([], [st])
        if v[0] in ("new",) and v[1] not in ("builtins.list", "builtins.dict", "builtins.set", "collections.deque",
                                              "builtins.tuple", "builtins.frozenset", "collections.defaultdict"):
            return [st], []
        if v[0] == "tuple":
            return ([st], []) if v[1] else ([], [st])
        if v[0] in ("func", "partial", "dict"):
            return [st], []
        if v[0] == "conv" and v[1] == "bool":
            return self.truth(v[2], st, fr, node)
        return self.fork(st, ("truth", v), node)

    def evaluate_pred(self, pred):
        k = pred[0]
        if k in ("is", "eq"):
            a, b = pred[1], pred[2]
            if a == b and (k == "is" or stable(pred)):
                return True
            if a[0] == "c" and b[0] == "c":
                return a == b if k == "is" else a[2] == b[2]
            if a[0] == "g" and b[0] == "g" and self.enum_member(a[1]) and self.enum_member(b[1]):
                return a[1] == b[1]
            distinct = ("new", "tuple", "func", "partial", "dict", "c", "conv")
            if k == "is" and a[0] in distinct and b[0] in distinct and a != b and (a[0] == "new" or b[0] == "new"):
                return False
            if k == "is" and {a[0], b[0]} == {"new", "elem"} and (a if a[0] == "new" else b)[1] == "builtins.object":
                # a marker made on the way is not among the elements of something else
                return False
            if k == "is" and NONE in (a, b):
                o = b if a == NONE else a
                if o[0] in ("new", "tuple", "func", "partial", "dict", "list", "conv", "bin", "fmt"):
                    return False
                if o[0] == "g" and (self.enum_member(o[1]) or o[1] in self.prog.functions or o[1] in self.prog.classes):
                    return False
                if self.bound_method(o) or self.member(o):
                    return False
                if o[0] == "call" and o[1][0] == "g" and o[1][1] in ("builtins.min", "builtins.max", "builtins.sorted", "builtins.str", "builtins.int",
                                                                    "builtins.len", "builtins.repr", "builtins.float", "builtins.sum"):
                    return False
        if k == "truth" and (self.bound_method(pred[1]) or self.enum_value(pred[1])):
            return True
        if k == "is" and NONE in (pred[1], pred[2]) and self.enum_value(pred[2] if pred[1] == NONE else pred[1]):
            return False
        if k == "truth" and pred[1][0] == "g" and (pred[1][1] in self.prog.functions or pred[1][1] in self.prog.classes or
                                                   self.enum_member(pred[1][1]) and "enum.Enum" in self.prog.classes[pred[1][1].rpartition(".")[0]].bases and
                                                   not self.prog.find_method(pred[1][1].rpartition(".")[0], "__bool__")):
            return True
        if k == "isinst":
            v = pred[1]
            if v[0] == "new" and v[1] in self.prog.classes:
                m = self.prog.mro(v[1])
                if any(c in m for c in pred[2]):
                    return True
                return False
            if v[0] == "exc" and v[1].rsplit(".", 1)[-1] not in ("Exception", "BaseException"):
                if any(self.exc_sub(v[1], c) for c in pred[2]):
                    return True
                if not any(self.exc_sub(c, v[1]) for c in pred[2]):
                    return False
            if v[0] == "c" and all(isinstance(c, str) and c.startswith("builtins.") for c in pred[2]):
                return any(v[1] == c[9:] or (v[1] == "bool" and c == "builtins.int") for c in pred[2])
        if k == "in" and pred[2][0] == "c" and pred[1][0] == "c":
            try:
                return pred[1][2] in pred[2][2]
            except TypeError:
                return None
        if k == "lt" and pred[1][0] == "c" and pred[2][0] == "c":
            try:
                return pred[1][2] < pred[2][2]
            except TypeError:
                return None
        return None

    def member(self, v):
        """An element of a collection that holds objects only."""
        if v[0] != "elem":
            return False
        v = self.strip(v[1])
        while v[0] == "i" and v[2][0] != "slice" or v[0] == "call" and v[1][0] == "a" and v[1][2] in ("values", "get", "copy"):
            v = v[1] if v[0] == "i" else v[1][1]
        return v[0] == "a" and v[2] in ("intentions", "beliefs", "rules", "plans", "annots", "agents")

    def bound_method(self, v):
        if v[0] != "a" or v[1][0] != "p":
            return False
        cls = self.type_of(v[1])
        f = self.prog.find_method(cls, v[2]) if cls else None
        return f is not None and not is_property(f)

    def enum_value(self, v):
        """The value of some member of an enumeration whose values are all objects made by a class."""
        if v[0] != "a" or v[2] != "value":
            return False
        x = v[1]
        cls = x[1][1] if x[0] == "elem" and x[1][0] == "g" else x[1].rpartition(".")[0] if x[0] == "g" and self.enum_member(x[1]) else None
        if cls is None or not self.is_enum(cls):
            return False
        c = self.prog.classes[cls]
        for name, n in c.assigns.items():
            for w in [] if name.startswith("__") else n if isinstance(n, list) else [n]:
                if not isinstance(w, ast.Call) or not isinstance(w.func, ast.Name):
                    return False
                q = c.module.name + "." + w.func.id
                if q not in self.prog.classes or self.prog.find_method(q, "__bool__") or self.prog.find_method(q, "__len__"):
                    return False
        return bool(c.assigns)

    def enum_member(self, q):
        cls, _, name = q.rpartition(".")
        return cls in self.prog.classes and self.is_enum(cls) and name in self.prog.classes[cls].assigns

    def holds(self, pred, ver, st):
        return ver == st.ver or (stable(pred) and unchanged(pred, ver, st.mut))

    def assume(self, st, pred, pol, node):
        known = self.known(st, pred)
        if known is not None:
            return st, known == pol
        s = st.emit("fact", pred, pol, node)
        s.facts[pred] = (pol, s.ver)
        return s, True

    def known(self, st, pred):
        v = self.evaluate_pred(pred)
        if v is None and self.unroll:
            v = self.sized_any(st, pred)
        if v is not None:
            return v
        if pred in st.facts:
            pol, ver = st.facts[pred]
            if self.holds(pred, ver, st):
                return pol
        if pred[0] in ("eq", "is"):
            # x == A is known and A, B are distinct members of an enumeration
            a, b = pred[1], pred[2]
            for (x, y) in ((a, b), (b, a)):
                if y[0] == "c" or (y[0] == "g" and self.enum_member(y[1])):
                    for p, (pol, ver) in st.facts.items():
                        if pol and p[0] in ("eq", "is") and x in (p[1], p[2]) and self.holds(p, ver, st):
                            z = p[2] if p[1] == x else p[1]
                            if (z[0] == y[0] == "g" and self.enum_member(z[1]) and z != y) or \
                               (z[0] == y[0] == "c" and z[2] != y[2]):
                                return False
        if pred[0] == "truth":
            # x is None / x is True / isinstance(x, bool) settle truthiness partly
            for p, (pol, ver) in st.facts.items():
                if pol and p[0] == "is" and self.holds(p, ver, st):
                    if p[1:] in ((pred[1], NONE), (NONE, pred[1])):
                        return False
                    if p[1:] in ((pred[1], TRUE), (TRUE, pred[1])):
                        return True
        if pred[0] == "isinst":
            for p, (pol, ver) in st.facts.items():
                if pol and p[0] == "isinst" and p[1] == pred[1] and self.disjoint(p[2], pred[2]) and self.holds(p, ver, st):
                    return False
        if pred[0] == "is" and NONE in pred[1:]:
            o = pred[2] if pred[1] == NONE else pred[1]
            q = ("truth", o)
            if q in st.facts and st.facts[q][0] and self.holds(q, st.facts[q][1], st):
                return False
            for p, (pol, ver) in st.facts.items():
                if pol and p[0] == "isinst" and p[1] == o and self.holds(p, ver, st):
                    return False
        return None

    def disjoint(self, xs, ys):
        """No object belongs to a class of both groups: classes of the program that do not inherit from each other, nor
        together to a third one, and the plain builtin types."""
        plain = {"builtins." + n for n in ("tuple", "str", "int", "float", "bool", "list", "dict", "set", "frozenset")}

        def ok(x, y):
            if x in plain and y in plain:
                return x != y and {x, y} != {"builtins.int", "builtins.bool"}
            for c in self.prog.classes:
                m = set(self.prog.mro(c)) | {b for k in self.prog.mro(c) if k in self.prog.classes for b in self.prog.classes[k].bases if b}
                m |= {"builtins." + b for b in m}
                if x in m and y in m:
                    return False
            return all(z in plain or z in self.prog.classes for z in (x, y)) and x != y
        return all(ok(x, y) for x in xs for y in ys)

    def fork(self, st, pred, node):
        k = self.known(st, pred)
        if k is True:
            return [st], []
        if k is False:
            return [], [st]
        a = st.emit("fact", pred, True, node)
        a.facts[pred] = (True, a.ver)
        b = st.emit("fact", pred, False, node)
        b.facts[pred] = (False, b.ver)
        return [a], [b]

    # --------------------------------------------------------------- calls

    def type_of(self, v, fr=None):
        if v[0] == "new" and v[1] in self.prog.classes:
            return v[1]
        if v[0] == "p":
            if v[1] == "self":
                f = fr
                while f is not None and f.func is None:
                    f = f.parent
                root = self.prog.functions.get(self.callstack[0])
                if root is not None and root.cls is not None:
                    return root.cls.qual
            return self.param_types.get(v[1])
        if v[0] == "a" and v[2] in ("env",):
            return "agentspeak.runtime.Environment"
        if v[0] == "a" and v[2] == "log":
            return "agentspeak.Log"
        return None

    def resolve_method(self, recv, name, fr):
        cls = self.type_of(recv, fr)
        if cls:
            return self.prog.find_method(cls, name)
        if name in CONTAINER_METHODS:
            return None
        cands = self.prog.methods_by_name.get(name, [])
        if len(cands) == 1:
            return cands[0]
        return None

    def e_Call(self, node, st, fr):
        f = node.func
        # any/all/next over generator expressions are loops
        if isinstance(f, ast.Name) and f.id in ("any", "all") and len(node.args) == 1 and \
                isinstance(node.args[0], (ast.GeneratorExp, ast.ListComp)) and self.lookup(f.id, st, fr) == ("g", "builtins." + f.id):
            return self.anyall(f.id, node.args[0], st, fr)
        if isinstance(f, ast.Name) and f.id == "next" and node.args and isinstance(node.args[0], ast.GeneratorExp):
            return self.next_genexp(node, st, fr)
        out = []
        # super().m(...)
        for s, fv in self.callee(f, st, fr):
            cur = [(s, (), ())]
            for a in node.args:
                cur = [(s3, vs + (v[1][1] if v[0] == "star" and v[1][0] == "tuple" else (v,)), kw) for s2, vs, kw in cur for s3, v in self.eval(a, s2, fr)]
            for k in node.keywords:
                cur = [(s3, vs, kw + (tuple((x[2], y) for x, y in v[1]) if k.arg is None and v[0] == "dict" and
                                      all(x[0] == "c" for x, _ in v[1]) else ((k.arg, v),)))
                       for s2, vs, kw in cur for s3, v in self.eval(k.value, s2, fr)]
            for s2, vs, kw in cur:
                out += self.apply(fv, vs, kw, s2, fr, node)
            self._check(out)
        return out

    def callee(self, f, st, fr):
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                cls = fr.cls.qual if fr.cls else None
                selfv = self.lookup("self", st, fr)
                m = None
                if cls:
                    for q in self.prog.mro(cls)[1:]:
                        if f.attr in self.prog.classes[q].methods:
                            m = self.prog.classes[q].methods[f.attr]
                            break
                return [(st, ("super", selfv, f.attr, m.qual if m else "?"))]
            out = []
            for s, b in self.eval(f.value, st, fr):
                if b[0] == "g" and not b[1].startswith("builtins.") and b[1] not in ("",):
                    v = self.attr(b, f.attr, s, fr)
                elif (b, f.attr) in s.heap:
                    v = s.heap[(b, f.attr)]
                    if v[0] not in ("func", "partial", "g"):
                        v = ("a", b, f.attr)
                else:
                    v = ("a", b, f.attr)
                    self.implicit(s, f, "AttributeError")
                out.append((s, v))
            return out
        return self.eval(f, st, fr)

    def left(self, s, since, node):
        """Marks the loops begun after the state since as left early."""
        open_, e = [], s.ev
        done = set()
        while e is not None and e is not since.ev:
            x = e[1]
            if x[0] == "endloop":
                done.add(x[1])
            elif x[0] == "loop" and x[1] not in done:
                open_.append(x[1])
            e = e[0]
        for lid in open_:
            s = s.emit("endloop", lid, "break", node)
        return s

    def anyall(self, which, gen, st, fr):
        out = []

        whole = isinstance(gen, ast.ListComp)       # the list is made before any element is looked at
        mark = (self.fresh(), "<any>")

        def inner(s, cfr):
            t, f = self.branch(gen.elt, s, cfr)
            stop, go = (t, f) if which == "any" else (f, t)
            if whole:
                for q in stop:
                    q.env[mark] = TRUE
            return [(q, "normal" if whole else "break2", None) for q in stop] + [(q, "normal", None) for q in go]
        for s, k, v in self.comp(gen.generators, st, fr, inner):
            if k == "normal" and mark in s.env:
                out.append((s, TRUE if which == "any" else FALSE))
            elif k == "normal":
                out.append((s, FALSE if which == "any" else TRUE))
            elif k == "break2":
                out.append((self.left(s, st, gen), TRUE if which == "any" else FALSE))
            else:
                self.pending.append((s, k, v))
        return out

    def next_genexp(self, node, st, fr):
        gen = node.args[0]
        out = []

        def inner(s, cfr):
            return [(s2, "break2", v) for s2, v in self.eval(gen.elt, s, cfr)]
        for s, k, v in self.comp(gen.generators, st, fr, inner):
            if k == "break2":
                out.append((s.emit("endloop", None, "break", gen), v))
            elif k == "normal":
                if len(node.args) > 1:
                    out += self.eval(node.args[1], s, fr)
                else:
                    self.pending.append((s, "raise", ("exc", "builtins.StopIteration", self.fresh())))
            else:
                self.pending.append((s, k, v))
        return out

    def bind(self, f, args, kw, fr, skip_self=False, selfv=None):
        """Parameter name -> origin, or None if it cannot be matched."""
        names = list(f.params)
        res = {}
        vals = list(args)
        if selfv is not None and names:
            vals = [selfv] + vals
        if any(v[0] == "star" for v in vals) or any(k is None for k, _ in kw):
            return None
        if len(vals) > len(names):
            if f.vararg is None:
                return None
            res[f.vararg] = ("tuple", tuple(vals[len(names):]))
            vals = vals[:len(names)]
        for n, v in zip(names, vals):
            res[n] = v
        for k, v in kw:
            if k in names:
                res[k] = v
            elif f.kwarg:
                pass
            else:
                return None
        if f.kwarg and f.kwarg not in res:
            res[f.kwarg] = ("dict", tuple((const(k), v) for k, v in kw if k not in names))
        if f.vararg and f.vararg not in res:
            res[f.vararg] = ("tuple", ())
        for n in names:
            if n not in res:
                d = f.default(n)
                if d is None:
                    return None
                res[n] = self.default_value(f, d, n)
        return res

    def default_value(self, f, d, n):
        try:
            lit = ast.literal_eval(d)
            if isinstance(lit, tuple):
                return ("tuple", tuple(const(x) for x in lit))
            if not isinstance(lit, (list, dict, set)):
                return const(lit)
        except (ValueError, SyntaxError, TypeError):
            pass
        if isinstance(d, (ast.Name, ast.Attribute)):
            q = self.prog.resolve_expr(f.module, d)
            if q:
                return ("g", q)
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ("frozenset", "tuple", "set", "list", "dict") and not d.args:
            return ("conv", d.func.id, ("tuple", ()))
        return ("default", f.qual, n)

    def is_opaque(self, f):
        return f.qual in self.opaque or f.name in self.opaque

    def norm_args(self, f, args, kw, fr, selfv=None):
        b = self.bind(f, args, kw, fr, selfv=selfv)
        if b is None:
            return args, kw
        names = f.params
        if selfv is not None:
            names = names[1:]
        return tuple(b[n] for n in names) + (tuple(self.untuple(b[f.vararg])) if f.vararg else ()), \
            (tuple((k, v) for k, v in kw if k not in f.params) if f.kwarg else ())

    def untuple(self, v):
        return v[1] if v[0] == "tuple" else (v,)

    def apply(self, fv, args, kw, st, fr, node):
        k = fv[0]
        if k == "partial":
            return self.apply(fv[1], fv[2] + args, kw, st, fr, node)
        if k == "func":
            f, pfr = self.info[fv[2]]
            if isinstance(f.node, ast.Lambda):
                b = self.bind(f, args, kw, fr)
                if b is not None and fr.depth < self.max_depth + 4:
                    lfr = Frame(None, parent=pfr, depth=fr.depth + 1)
                    lfr.func = pfr.func
                    s = st.copy()
                    for n, v in b.items():
                        s.env[(lfr.id, n)] = v
                    return self.eval(f.node.body, s, lfr)
            return self.call_func(f, args, kw, st, fr, node, pfr, fv)
        if k == "super":
            f = self.prog.functions.get(fv[3])
            if f is not None and not self.is_opaque(f) and f.name != "__init__":
                return self.call_func(f, args, kw, st, fr, node, None, fv, selfv=fv[1])
            return self.event(("a", ("g", "super"), fv[2]), args, kw, st, fr, node)
        if k == "g":
            q = fv[1]
            if q.startswith("builtins."):
                return self.builtin(q[9:], args, kw, st, fr, node)
            if q == "functools.partial" and args:
                return [(st, ("partial", args[0], args[1:]))]
            if q in ("collections.deque", "collections.OrderedDict") and not args and not kw:
                return [(st, ("new", "collections.deque" if q.endswith("deque") else "builtins.dict", self.fresh()))]
            if q == "collections.deque":
                return [(st, ("conv", "deque", args[0]))]
            if q == "collections.defaultdict":
                n = self.fresh()
                self.info[n] = args
                return [(st, ("new", q, n))]
            if q in self.prog.classes:
                return self.construct(q, args, kw, st, fr, node)
            f = self.prog.functions.get(q)
            if f is None and "." in q:
                cls, _, name = q.rpartition(".")
                if cls in self.prog.classes:
                    f = self.prog.find_method(cls, name)
                    if f is not None and f.classm:
                        return self.call_func(f, args, kw, st, fr, node, None, fv, selfv=("g", cls))
                    if f is not None and f.static:
                        return self.call_func(f, args, kw, st, fr, node, None, fv)
                    if f is not None and args and not self.is_enum(cls):
                        # Class.method(self, ...)
                        return self.call_func(f, args[1:], kw, st, fr, node, None, ("a", args[0], name), selfv=args[0])
            if f is not None and f.classm:
                return self.call_func(f, args, kw, st, fr, node, None, fv, selfv=("g", f.cls.qual))
            if f is not None and f.cls is not None and args and not f.static:
                return self.call_func(f, args[1:], kw, st, fr, node, None, ("a", args[0], f.name), selfv=args[0])
            if f is not None:
                return self.call_func(f, args, kw, st, fr, node, None, fv)
            # a module level lambda
            mod, _, last = q.rpartition(".")
            if mod in self.prog.modules and last in self.prog.modules[mod].assigns:
                v = self.prog.modules[mod].assigns[last]
                if len(v) == 1 and isinstance(v[0], ast.Lambda):
                    f = Func(q, v[0], self.prog.modules[mod], None)
                    b = self.bind(f, args, kw, fr)
                    if b is not None:
                        lfr = Frame(f, depth=fr.depth + 1)
                        s = st.copy()
                        for n, x in b.items():
                            s.env[(lfr.id, n)] = x
                        return self.eval(v[0].body, s, lfr)
            return self.event(fv, args, kw, st, fr, node)
        if k == "a":
            recv, name = fv[1], fv[2]
            if recv[0] == "dict" and name == "get" and 1 <= len(args) <= 2 and not kw and all(self.constlike(kk) for kk, _ in recv[1]):
                found, rest = self.entries(st, recv, args[0], node)
                return found + [(s, args[1] if len(args) > 1 else NONE) for s in rest]
            f = self.resolve_method(recv, name, fr)
            if f is not None:
                selfv = None if f.static else recv
                if f.classm:
                    selfv = ("g", self.type_of(recv, fr) or f.cls.qual)
                return self.call_func(f, args, kw, st, fr, node, None, fv, selfv=selfv)
            return self.event(fv, args, kw, st, fr, node)
        return self.event(fv, args, kw, st, fr, node)

    def call_func(self, f, args, kw, st, fr, node, pfr, fv, selfv=None):
        if self.is_opaque(f) or f.qual in self.callstack or fr.depth >= self.max_depth:
            a, k = self.norm_args(f, args, kw, fr, selfv=selfv)
            return self.event(fv, a, k, st, fr, node)
        b = self.bind(f, args, kw, fr, selfv=selfv)
        if b is None:
            return self.event(fv, args, kw, st, fr, node)
        if f.is_gen:
            n = self.fresh()
            self.info[n] = ((f, pfr), b)
            return [(st, ("gencall", f.qual, n))]
        nfr = Frame(f, parent=pfr, depth=fr.depth + 1)
        s = st.copy()
        for n, v in b.items():
            s.env[(nfr.id, n)] = v
        self.callstack.append(f.qual)
        self.inlined.add(f.qual)
        out = []
        try:
            for s2, k, v in self.block(f.node.body, s, nfr):
                if k == "normal":
                    out.append((self.pop_frame(s2, nfr), NONE))
                elif k == "return":
                    out.append((self.pop_frame(s2, nfr), v))
                else:
                    self.pending.append((s2, k, v))
        finally:
            self.callstack.pop()
        return self._check(out)

    def pop_frame(self, s, nfr):
        s = s.copy()
        for k in [k for k in s.env if k[0] == nfr.id]:
            del s.env[k]
        return s

    def construct(self, q, args, kw, st, fr, node):
        n = self.fresh()
        val = ("new", q, n)
        init = self.prog.find_method(q, "__init__")
        b = None
        if init is not None:
            b = self.bind(init, args, kw, fr, selfv=val)
            a, k = self.norm_args(init, args, kw, fr, selfv=val)
        else:
            a, k = args, kw
        self.info[n] = b or {}
        s = st.emit("new", q, a, k, val, node)
        # straight-line constructors give the fields of the new object
        if init is not None and b is not None and self.simple_init(init):
            s = self.run_init(init, b, s, val, fr)
        return [(s, val)]

    def simple_init(self, init):
        return all(isinstance(x, (ast.Assign, ast.Expr, ast.AnnAssign)) for x in init.node.body)

    def run_init(self, init, b, s, val, fr, depth=0):
        for x in init.node.body:
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
                # super().__init__(...) / Base.__init__(self, ...)
                c = x.value
                if isinstance(c.func, ast.Attribute) and c.func.attr == "__init__" and depth < 4:
                    for qq in self.prog.mro(init.cls.qual)[1:]:
                        m = self.prog.classes[qq].methods.get("__init__")
                        if m is not None:
                            if self.simple_init(m) and len(m.params) == 1:
                                s = self.run_init(m, {"self": val}, s, val, fr, depth + 1)
                            break
                continue
            if not isinstance(x, ast.Assign) or len(x.targets) != 1:
                continue
            t = x.targets[0]
            if not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == init.params[0]):
                continue
            v = self.pure_value(x.value, b, init)
            if v is not None:
                s = s.copy()
                s.heap[(val, t.attr)] = v
                self.newfields.setdefault(val, {})[t.attr] = v
        return s

    def pure_value(self, e, b, init):
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, ast.Name) and e.id in b:
            return b[e.id]
        if isinstance(e, (ast.List, ast.Tuple, ast.Dict)) and not getattr(e, "elts", getattr(e, "keys", None)):
            return ("tuple", ()) if isinstance(e, ast.Tuple) else ("new", "builtins." + ("list" if isinstance(e, ast.List) else "dict"), self.fresh())
        if isinstance(e, ast.Call) and not e.args and not e.keywords:
            q = self.prog.resolve_expr(init.module, e.func)
            if q in ("collections.deque", "builtins.list", "builtins.dict", "builtins.set", "builtins.object"):
                return ("new", q, self.fresh())
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("tuple", "frozenset") and len(e.args) == 1:
            v = self.pure_value(e.args[0], b, init)
            return ("conv", e.func.id, v) if v is not None else None
        return None

    def event(self, fv, args, kw, st, fr, node):
        n = self.fresh()
        name = fv[2] if fv[0] == "a" else fv[1] if fv[0] == "g" else ""
        pure = fv[0] == "a" and name in PURE_METHODS
        res = ("call", fv, args, n) if not kw else ("call", fv, args + tuple(("kw", k, v) for k, v in kw), n)
        if pure:
            res = res[:-1] + (0,)
        if fv[0] == "a" and not kw and (name == "pop" and args in ((), (const(0),), (const(-1),)) or name == "popleft" and not args):
            # the first or last element, as it was
            k = const(-1) if name == "pop" and args != (const(0),) else const(0)
            m = st.mut.get(("seq", fv[1]))
            res = st.heap.get((fv[1], k)) or ("i", fv[1], k) + ((m,) if m is not None else ())
        s = st.emit("call", fv, args, kw, res, node)
        if fv in EXITS:
            self.pending.append((s, "raise", ("exc", "builtins.SystemExit", self.fresh())))
            return []
        if not pure:
            s.ver += 1
            # what the callee may write
            touched = set(a for a in args)
            if fv[0] == "a":
                touched.add(fv[1])
            if s.heap and name in ("accept", "add_instr"):
                # a visitor passed on (or told to add code) may change its own state
                s.heap = dict((k, v) for k, v in s.heap.items() if k[0] not in touched or k[0][0] != "p")
            elif s.heap and not self.heap_pure(fv):
                s.heap = dict((k, v) for k, v in s.heap.items() if k[0] not in touched or k[0][0] == "new" and k[0][1] in self.KEEP)
        if name.rsplit(".", 1)[-1] not in ("execute",):
            self.implicit(s, node, "*")
        return [(s, res)]

    KEEP = ()

    HEAP_PURE = ("unify", "unify_annotated", "unifies", "unifies_annotated", "freeze", "grounded", "evaluate", "is_ground",
                 "deref", "reroll", "execute", "asl_str", "asl_repr", "is_atom", "is_literal", "is_list", "is_number",
                 "is_string", "append", "accept", "add_instr", "lookup", "push", "error", "warning", "info", "exception")

    def heap_pure(self, fv):
        name = fv[2] if fv[0] == "a" else fv[1].rsplit(".", 1)[-1] if fv[0] == "g" else ""
        return name in self.HEAP_PURE

    def builtin(self, name, args, kw, st, fr, node):
        if name == "object" and not args:
            return [(st, ("new", "builtins.object", self.fresh()))]
        if name in ("list", "dict", "set", "tuple", "frozenset") and not args and not kw:
            return [(st, ("tuple", ())) if name == "tuple" else (st, ("new", "builtins." + name, self.fresh()))]
        if name == "dict" and not args and all(k is not None for k, _ in kw):
            return [(st, ("dict", tuple((const(k), v) for k, v in kw)))]
        if name in ("list", "tuple", "set", "frozenset", "iter", "bool", "deque") and len(args) == 1:
            a = args[0]
            if name == "iter" and a[0] == "gencall":
                return [(st, a)]
            g = self.as_gen(a) if name != "bool" else None
            if g is not None and name != "iter":
                lst = ("new", "builtins.list", self.fresh())
                out = []

                def body(s2, el):
                    return [(s2.emit("call", ("a", lst, "append"), (el,), (), NONE, node), "normal", None)]
                for s, k, v in self.iterate_gen(g, st, fr, body, node, None):
                    if k == "normal":
                        out.append((s, ("conv", name, lst)))
                    else:
                        self.pending.append((s, k, v))
                return out
            if name in ("tuple", "list") and a[0] == "conv" and a[1] in ("list", "tuple"):
                a = a[2]
            self.implicit(st, node, "TypeError")
            return [(st, ("conv", name, a))]
        if name == "len" and len(args) == 1:
            if args[0][0] == "tuple":
                return [(st, const(len(args[0][1])))]
            return [(st, ("len", args[0]))]
        if name in ("isinstance",) and len(args) == 2:
            classes = args[1][1] if args[1][0] == "tuple" else (args[1],)
            names = tuple(sorted(c[1] if c[0] == "g" else show(c) for c in classes))
            t, f = self.fork(st, ("isinst", args[0], names), node)
            return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]
        if name == "hasattr" and len(args) == 2:
            t, f = self.fork(st, ("hasattr", args[0], args[1][2] if args[1][0] == "c" else "?"), node)
            return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]
        if name == "setattr" and len(args) == 3 and args[1][0] == "c":
            s = st.emit("setattr", args[0], args[1][2], args[2], node)
            s.heap[(args[0], args[1][2])] = args[2]
            s.ver += 1
            return [(s, NONE)]
        if name == "getattr" and len(args) >= 2 and args[1][0] == "c":
            if len(args) == 2:
                return [(st, self.attr(args[0], args[1][2], st, fr))]
            t, f = self.fork(st, ("hasattr", args[0], args[1][2]), node)
            return [(s, ("a", args[0], args[1][2])) for s in t] + [(s, args[2]) for s in f]
        if name == "next" and args:
            g = self.as_gen(args[0])
            if g is not None:
                out = []

                def body(s2, el):
                    return [(s2, "break2", el)]
                for s, k, v in self.iterate_gen(g, st, fr, body, node, None):
                    if k == "break2":
                        out.append((s, v))
                    elif k == "normal":
                        if len(args) > 1:
                            out.append((s, args[1]))
                        else:
                            self.pending.append((s, "raise", ("exc", "builtins.StopIteration", self.fresh())))
                    else:
                        self.pending.append((s, k, v))
                return out
            src = self.strip(args[0])
            n = self.fresh()
            el = ("elem", src, n)
            s = st.emit("call", ("g", "builtins.next"), args[:1], (), el, node)
            s.ver += 1
            if len(args) > 1:
                s2 = st.emit("call", ("g", "builtins.next"), args[:1], (), args[1], node)
                s2.ver += 1
                s2 = s2.emit("except", "builtins.StopIteration", ("exc", "builtins.StopIteration", n), node)
                self.implicit(s, node, "*")
                return [(s.emit("fact", ("more", src, n), True, node), el), (s2.emit("fact", ("more", src, n), False, node), args[1])]
            # exhausted
            bad = st.emit("call", ("g", "builtins.next"), args[:1], (), ("exhausted", src, n), node)
            bad.ver += 1
            self.implicit_next(bad, node)
            return [(s, el)]
        if name in ("any", "all") and len(args) == 1:
            out = []

            def body(s2, el):
                t, f = self.truth(el, s2, fr, node)
                stop, go = (t, f) if name == "any" else (f, t)
                return [(q, "break2", None) for q in stop] + [(q, "normal", None) for q in go]
            src = args[0]
            for s, k, v in self.iterate(src, st, fr, body, node):
                if k == "normal":
                    out.append((s, FALSE if name == "any" else TRUE))
                elif k == "break2":
                    out.append((self.left(s, st, node), TRUE if name == "any" else FALSE))
                else:
                    self.pending.append((s, k, v))
            return out
        if name in ("map", "filter") and len(args) == 2:
            lst = ("new", "builtins.list", self.fresh())
            out = []

            def mbody(s2, el):
                res = []
                if args[0] == NONE:
                    vals = [(s2, el)]
                else:
                    vals = self.apply(args[0], (el,), (), s2, fr, node)
                for s3, v in vals:
                    if name == "map":
                        res.append((s3.emit("call", ("a", lst, "append"), (v,), (), NONE, node), "normal", None))
                    else:
                        t, f = self.truth(v, s3, fr, node)
                        res += [(q.emit("call", ("a", lst, "append"), (el,), (), NONE, node), "normal", None) for q in t]
                        res += [(q, "normal", None) for q in f]
                return res
            for s, k, v in self.iterate(args[1], st, fr, mbody, node):
                if k == "normal":
                    out.append((s, lst))
                else:
                    self.pending.append((s, k, v))
            return out
        if name in ("min", "max") and len(args) == 1 and dict(kw).get("default") is not None:
            rest = tuple((k, v) for k, v in kw if k != "default")
            t, f = self.truth(args[0], st, fr, node)
            return [q for s in t for q in self.builtin(name, args, rest, s, fr, node)] + [(s, dict(kw)["default"]) for s in f]
        if name == "setattr" and len(args) == 3 and args[1][0] == "c":
            s = st.emit("setattr", args[0], args[1][2], args[2], node)
            s.heap[(args[0], args[1][2])] = args[2]
            return [(s, NONE)]
        if name in PURE_BUILTINS:
            self.implicit(st, node, "*")
            a = args + tuple(("kw", k, v) for k, v in kw)
            return [(st, ("call", ("g", "builtins." + name), a, 0))]
        if name[:1].isupper() and (name.endswith("Error") or name in ("Exception", "StopIteration", "KeyboardInterrupt")):
            return [(st, ("new", "builtins." + name, self.fresh()))]
        return self.event(("g", "builtins." + name), args, kw, st, fr, node)

    def implicit_next(self, st, node):
        if not self.try_stack:
            return
        for names in self.try_stack:
            for n in names:
                if n.rsplit(".", 1)[-1] in ("StopIteration", "Exception", "BaseException"):
                    self.pending.append((st, "raise", ("exc", "builtins.StopIteration", self.fresh())))
                    return

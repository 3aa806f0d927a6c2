"""Rule framework: registration, path access, obligations, findings."""
import ast
import json
import os
import traceback

from .model import AnalysisBroken, Program, REPO
from .flow import Flow, Path, TooManyPaths, variants, show, subterms, const, NONE, TRUE, FALSE, stable

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "known.json")) as _f:
    KNOWN = set(json.load(_f))

# helpers the rules never mention: always walked in place
ALWAYS_INLINE = {
    "agentspeak.runtime.Agent._unachieve", "agentspeak.runtime.Agent._tell_how", "agentspeak.runtime.Agent._ask_how",
    "agentspeak.runtime.Agent._untell_how", "agentspeak.runtime.Agent._call_ask_how", "agentspeak._zip_specs",
    "agentspeak._count_specs", "agentspeak.runtime.Environment._build_agent", "agentspeak.runtime.Agent.waiters",
}

RULES = []


class Rule(object):
    def __init__(self, name, props, doc, fn, floor, example=None):
        self.example = example
        self.name, self.props, self.doc, self.fn, self.floor = name, props, doc, fn, floor
        # the floor is what the tree had when the rule was written; code that says the same with fewer paths is fine
        self.least = max(1, floor // 5)


def rule(name, props, floor=1, example=None):
    def deco(fn):
        RULES.append(Rule(name, props.split(), " ".join((fn.__doc__ or "").split()), fn, floor, example))
        return fn
    return deco


class Finding(object):
    def __init__(self, rule, construct, message, loc, trace=()):
        self.rule, self.construct, self.message, self.loc, self.trace = rule, construct, message, loc, list(trace)

    @property
    def key(self):
        return "%s %s" % (self.rule, self.construct)


TERM_OPS = {"unify": 4, "unify_annotated": 4, "freeze": 3, "grounded": 2, "is_ground": 2, "evaluate": 2}
# functions whose trailing arguments have defaults in the source
MODULE_TERM_FUNCS = {"unify", "unify_annotated", "unifies", "unifies_annotated", "freeze", "grounded", "is_ground",
                     "evaluate", "deref", "reroll"}


class Call(object):
    __slots__ = ("i", "ev", "name", "qual", "recv", "args", "kw", "res", "node")

    def __init__(self, i, ev):
        self.i, self.ev = i, ev
        _, fv, args, kw, res, node = ev
        self.args, self.kw, self.res, self.node = tuple(args), dict(kw), res, node
        self.recv = None
        if fv[0] == "a":
            self.name, self.qual, self.recv = fv[2], "." + fv[2], fv[1]
            if fv[2] in TERM_OPS and len(args) < TERM_OPS[fv[2]]:
                # x.unify(y, scope, stack)  ==  unify(x, y, scope, stack)
                self.args = (fv[1],) + tuple(args)
                self.recv = None
        elif fv[0] == "g":
            self.qual = fv[1]
            self.name = fv[1].rsplit(".", 1)[-1]
        else:
            self.name, self.qual = "", ""

    def arg(self, i, kw=None):
        if i < len(self.args):
            return self.args[i]
        return self.kw.get(kw)

    def __repr__(self):
        return "<%d %s(%s)>" % (self.i, (show(self.recv) + "." if self.recv else "") + self.name,
                                ", ".join(show(a) for a in self.args))


class P(object):
    """One abstract path, with accessors."""

    def __init__(self, path):
        self.path = path
        self.events, self.kind, self.val = path.events, path.kind, path.val
        self.flow = path.flow
        self.func = path.func
        self._calls = None

    @property
    def calls(self):
        if self._calls is None:
            self._calls = [Call(i, e) for i, e in enumerate(self.events) if e[0] == "call"]
        return self._calls

    def calls_to(self, *names):
        return [c for c in self.calls if c.name in names]

    def facts(self, upto=None):
        """(pred, polarity, index)"""
        return [(e[1], e[2], i) for i, e in enumerate(self.events[:upto]) if e[0] == "fact"]

    def fact(self, pred, upto=None):
        """Polarity last established for a predicate, or None."""
        r = None
        for e in self.events[:upto]:
            if e[0] == "fact" and e[1] == pred:
                r = e[2]
        return r

    def find(self, *kinds):
        return [(i, e) for i, e in enumerate(self.events) if e[0] in kinds]

    def yields(self):
        return [(i, e[1], e[2]) for i, e in enumerate(self.events) if e[0] == "yield"]

    def iter_of(self, idx):
        """Loop ids whose iteration contains event idx."""
        open_ = []
        for i, e in enumerate(self.events[:idx + 1]):
            if e[0] == "iter":
                open_.append(e[1])
            elif e[0] == "enditer":
                if e[1] in open_:
                    while open_ and open_.pop() != e[1]:
                        pass
            elif e[0] == "endloop":
                if e[1] in open_:
                    while open_ and open_.pop() != e[1]:
                        pass
        return open_

    def trace(self, limit=14):
        out = []
        for e in self.events:
            line = getattr(e[-1], "lineno", None)
            if e[0] == "call":
                out.append((line, show(("call", e[1], e[2], 0))))
            elif e[0] == "fact":
                out.append((line, ("" if e[2] else "not ") + show(e[1])))
            elif e[0] == "yield":
                out.append((line, "yield " + show(e[1])))
            elif e[0] == "setattr":
                out.append((line, "%s.%s = %s" % (show(e[1]), e[2], show(e[3]))))
            elif e[0] == "setitem":
                out.append((line, "%s[%s] = %s" % (show(e[1]), show(e[2]), show(e[3]))))
            elif e[0] == "raise":
                out.append((line, "raise " + show(e[1])))
            elif e[0] == "iter":
                out.append((line, "next iteration"))
        out.append((None, "%s %s" % (self.kind, show(self.val) if isinstance(self.val, tuple) else "")))
        if len(out) > limit:
            out = out[:limit // 2] + [(None, "...")] + out[-limit // 2:]
        return ["%s%s" % ("line %d: " % l if l else "", t) for l, t in out]


class Ctx(object):
    def __init__(self, prog=None):
        self.prog = prog or Program()
        self.cache = {}
        self.flows = {}
        self.rule = None
        self.findings = []
        self.obligations = 0
        self.functions = set()
        self.npaths = 0
        self.samples = []

    # -- analysis

    def paths(self, qual, inline=(), args=None, opaque=(), max_paths=30000, types=None, snapshots=False, unroll=0):
        func = qual if not isinstance(qual, str) else self.prog.func(qual)
        key = (func.qual, id(func.node), tuple(sorted(inline)), tuple(sorted(opaque)), repr(args), repr(types), snapshots, unroll)
        r = self.cache.get(key)
        if r is None:
            op = (KNOWN - ALWAYS_INLINE) | set(opaque)
            fl = Flow(self.prog, opaque=op, inline=set(inline), max_paths=max_paths, param_types=types)
            fl.shape_of = func.qual
            fl.snapshots = snapshots
            fl.unroll = unroll
            try:
                r = [P(x) for x in fl.run(func, args)]
            except TooManyPaths:
                raise AnalysisBroken("too many paths in %s" % func.qual)
            except RecursionError:
                raise AnalysisBroken("recursion limit in %s" % func.qual)
            for p in r:
                p.inlined = fl.inlined
            self.flows[func.qual] = fl
            self.cache[key] = r
        self.functions.add(func.qual)
        for p in r[:1]:
            self.functions |= p.inlined
        self.npaths += len(r)
        return r

    def closure(self, p, val):
        """Paths of a function value made on path p."""
        try:
            r = [P(x) for x in p.flow.run_closure(p.path, val)]
        except TooManyPaths:
            raise AnalysisBroken("too many paths in %s" % (val,))
        for q in r:
            q.inlined = p.flow.inlined
        if r:
            self.functions.add(r[0].func.qual)
        self.npaths += len(r)
        return r

    def iterations(self, qual, snapshots=False):
        """Iterations of while loops that come back to the loop head, as paths."""
        func = qual if not isinstance(qual, str) else self.prog.func(qual)
        self.paths(func, snapshots=snapshots)
        fl = self.flows[func.qual]
        out = []
        for lid, s in fl.backs:
            for ev in variants(s.events()):
                q = P(Path(func, s, "back", NONE, fl, ev))
                q.lid = lid
                out.append(q)
        return out

    # -- obligations

    def ob(self, n=1, text=None):
        self.obligations += n
        if text and len(self.samples) < 40 and text not in self.samples:
            self.samples.append(text)

    def bad(self, where, message, node=None, path=None, sub=""):
        """A violation at a construct.  `where` is a Func or a name."""
        if hasattr(where, "qual"):
            name = where.qual
            loc = where.loc(node) if node is not None and hasattr(node, "lineno") else where.loc()
        else:
            name, loc = str(where), ""
        f = Finding(self.rule.name, name + (":" + sub if sub else ""), message, loc,
                    path.trace() if path is not None else ())
        if any(g.key == f.key and g.message == f.message for g in self.findings):
            return
        self.findings.append(f)

    def check(self, cond, where, message, node=None, path=None, sub=""):
        self.ob()
        if not cond:
            self.bad(where, message, node, path, sub)
        return cond


_examples = {}


def positive(r):
    """A rule that finds nothing in a correct program must still find what is wrong in its example."""
    root = os.path.join(HERE, "examples", r.example)
    if r.example not in _examples:
        with open(os.path.join(root, "expected.json")) as f:
            _examples[r.example] = (Ctx(Program(root)), json.load(f))
    ctx, expected = _examples[r.example]
    ctx.rule, ctx.findings = r, []
    r.fn(ctx)
    got = {f.construct.replace("agentspeak.", "", 1).split(" ")[0] for f in ctx.findings}
    want = set(expected[r.name])
    if got != want:
        raise AnalysisBroken("on its example, %s reports %s instead of %s" % (r.name, sorted(got), sorted(want)))
    return len(want)


def run_rules(prop, prog=None):
    """-> (findings, per-rule records)"""
    ctx = Ctx(prog)
    records = []
    broken = []
    for r in RULES:
        if prop not in r.props:
            continue
        ctx.rule = r
        ctx.obligations, ctx.npaths, ctx.functions, ctx.samples = 0, 0, set(), []
        before = len(ctx.findings)
        try:
            planted = positive(r) if r.example else 0
            r.fn(ctx)
        except AnalysisBroken as err:
            broken.append("%s: %s" % (r.name, err))
            continue
        except Exception as err:
            tb = traceback.extract_tb(err.__traceback__)[-1]
            broken.append("%s: %s: %s at %s:%d" % (r.name, type(err).__name__, err, os.path.basename(tb.filename), tb.lineno))
            continue
        if ctx.obligations < r.least and len(ctx.findings) == before:
            broken.append("rule %s decided %d obligations, expected at least %d: its anchors are gone"
                          % (r.name, ctx.obligations, r.least))
            continue
        records.append({"rule": r.name, "decides": r.doc, "obligations": ctx.obligations, "paths": ctx.npaths,
                        "functions": sorted(ctx.functions), "findings": len(ctx.findings) - before,
                        "found_in_example": planted,
                        "samples": ctx.samples[:8]})
    if broken and not ctx.findings:
        # a violation found by another rule stands; without one there is no answer
        raise AnalysisBroken("; ".join(broken))
    return ctx.findings, records


# ---------------------------------------------------------------- patterns

def A(base, *names):
    for n in names:
        base = ("a", base, n)
    return base


def param(n):
    return ("p", n)


def G(q):
    return ("g", q)


def is_const(v, x):
    return v[0] == "c" and v[2] == x and type(v[2]) is type(x)


def strip_conv(v, kinds=("list", "tuple", "iter", "frozenset", "set", "bool")):
    while v[0] == "conv" and v[1] in kinds:
        v = v[2]
    return v


def elems_of(v):
    """All sources s such that v is an element taken from s."""
    return [t[1] for t in subterms(v) if t and t[0] == "elem"]


def mentions(v, w):
    return any(t == w for t in subterms(v))


def owner_of_scope(v):
    return v[1] if v[0] == "a" and v[2] == "scope" else None

"""Equality, order and hash of literals and lists (P28)."""
from ..core import rule, A, AnalysisBroken
from ..flow import NONE, TRUE, FALSE, show, subterms
from ..pat import *

M = "agentspeak."
OTHER = param("other")
LITERAL, LINKED = M + "Literal", M + "LinkedList"
NOTIMPL = ("g", "builtins.NotImplemented")
OPS = {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__"}
OPERATOR = {"operator.eq": "eq", "operator.ne": "ne", "operator.lt": "lt", "operator.le": "le", "operator.gt": "gt", "operator.ge": "ge"}


def tup(v):
    """The elements of v as a tuple, under any of the ways to write it."""
    if v[0] == "conv" and v[1] in ("tuple", "list"):
        return ("conv", "tuple", v[2])
    return v


def comparisons(p, op):
    """What the path found out by comparing: (relation, left, right, holds).  A comparison whose result is returned as
    it is counts with the relation it computes and holds=None."""
    for pred, pol, i in p.facts():
        if pred[0] in ("lt", "eq"):
            yield pred[0], tup(pred[1]), tup(pred[2]), pol
        elif pred[0] == "truth" and pred[1][0] == "call" and pred[1][1][0] == "g" and pred[1][1][1] in OPERATOR and len(pred[1][2]) >= 2:
            yield normal(OPERATOR[pred[1][1][1]], tup(pred[1][2][0]), tup(pred[1][2][1]), pol)
    v = p.val
    if p.kind == "return" and v[0] == "call" and v[1][0] == "g" and v[1][1] in OPERATOR and p.fact(("truth", v)) is None:
        yield OPERATOR[v[1][1]], tup(v[2][0]), tup(v[2][1]), None


def normal(rel, x, y, pol):
    if rel == "ne":
        return "eq", x, y, not pol
    if rel == "gt":
        return "lt", y, x, pol
    if rel == "ge":
        return "lt", x, y, not pol
    if rel == "le":
        return "lt", y, x, not pol
    return rel, x, y, pol


def answer(p):
    """The value returned, true or false where the path has decided it."""
    v = p.val
    if v is not None and v[0] == "call" and truthy(p, v) is not None:
        return TRUE if truthy(p, v) else FALSE
    return v


def dunder(ctx, cls, name):
    f = ctx.prog.find_method(cls, name)
    if f is None:
        c = ctx.prog.cls(cls)
        v = c.assigns.get(name)
        if v is not None:
            raise AnalysisBroken("%s.%s is computed" % (cls, name))
    return f


def ordered_by_decorator(ctx, cls):
    return any("total_ordering" in (getattr(d, "attr", None) or getattr(d, "id", None) or "") for d in ctx.prog.cls(cls).node.decorator_list)


def names(f):
    """self and other under the names the method uses."""
    a = [x.arg for x in f.node.args.args]
    return param(a[0]), param(a[1]) if len(a) > 1 else OTHER


class Answer(object):
    """What one path of a comparison method establishes about self and other."""

    def __init__(self, ctx, cls, p, S, O):
        self.p, self.S, self.O = p, S, O
        kind = {LITERAL} if cls == LITERAL else {"builtins.tuple", LINKED}
        kinds = []
        for pred, pol, i in p.facts():
            if pred[0] == "isinst" and pred[1] == O:
                if pol and set(pred[2]) <= kind:
                    kinds.append(True)
                elif not pol and kind <= set(pred[2]):
                    kinds.append(False)
                elif not pol and cls == LINKED:
                    self.parts = getattr(self, "parts", set()) | set(pred[2])
                    if kind <= self.parts:
                        kinds.append(False)
            elif pred[0] == "truth" and pred[1][0] == "call" and pred[1][1][0] == "g" and pred[1][2] == (O,):
                k = PREDICATES.get(pred[1][1][1])
                if k is not None and pol and k <= kind:
                    kinds.append(True)
                elif k is not None and not pol and kind <= k:
                    kinds.append(False)
            elif pred[0] in ("eq", "is") and len(kind) == 1:
                t = [("call", ("g", "builtins.type"), (x,), 0) for x in (S, O)]
                if set(pred[1:]) in ({t[0], t[1]}, {t[1], ("g", cls)}):
                    kinds.append(pol)
        if any(e[0] == "except" and e[1].rsplit(".", 1)[-1] == "AttributeError" for e in p.events) and cls == LITERAL:
            kinds.append(False)
        self.kind = kinds[-1] if kinds else None
        self.possible = len(set(kinds)) < 2      # asking twice gives the same answer
        self.eqs, self.nes, self.cmps, self.returned = set(), set(), [], None
        self.same = False
        for pred, pol, i in p.facts():
            if pred[0] == "is" and set(pred[1:]) == {S, O}:
                self.same = pol
        for rel, x, y, pol in comparisons(p, None):
            if pol is None:
                self.returned = (rel, x, y)
                continue
            if rel == "eq":
                for u, v in self.parts_of(x, y):
                    if pol:
                        self.eqs.add(frozenset((u, v)))
                if not pol:
                    self.nes.add(frozenset((x, y)))
            else:
                self.cmps.append((x, y, pol))

    def parts_of(self, x, y):
        if x[0] == "tuple" and y[0] == "tuple" and len(x[1]) == len(y[1]):
            out = []
            for u, v in zip(x[1], y[1]):
                out += self.parts_of(u, v)
            return out
        if x[0] == "call" and x[1][0] == "a" and x[1][2] == "literal_group" and y[0] == "call" and y[1][0] == "a" and y[1][2] == "literal_group":
            u, v = x[1][1], y[1][1]
            return [(A(u, "functor"), A(v, "functor")), (("len", A(u, "args")), ("len", A(v, "args")))]
        return [(x, y)]

    def pair(self, f):
        return frozenset((f(self.S), f(self.O)))

    def eq(self, f):
        return self.pair(f) in self.eqs

    def ne(self, f):
        """Some inequality on the path implies that f differs or is part of a comparison of f."""
        return self.pair(f) in self.nes

    def differs(self, fs):
        """An inequality of one of the parts, or of a tuple made of such parts only."""
        allowed = {self.pair(f) for f in fs}
        for n in self.nes:
            xs = list(n)
            if len(xs) != 2:
                continue
            ps = self.parts_of(xs[0], xs[1])
            if all(frozenset(q) in allowed for q in ps):
                return True
        return False

    def empty(self, what):
        t = [truthy(self.p, what)]
        for pred, pol, i in self.p.facts():
            if pred[0] == "eq" and ("len", what) in pred[1:]:
                o = [x for x in pred[1:] if x != ("len", what)]
                if o and o[0] == ("c", "int", 0):
                    t.append(not pol)
        return False in t

    def full(self, what):
        t = [truthy(self.p, what)]
        for pred, pol, i in self.p.facts():
            if pred[0] == "eq" and ("len", what) in pred[1:]:
                o = [x for x in pred[1:] if x != ("len", what)]
                if o and o[0] == ("c", "int", 0):
                    t.append(not pol)
        return True in t

    def atom(self, x):
        t = [pol for pred, pol, i in self.p.facts() if pred[0] == "truth" and is_call(pred[1], "is_atom", (x,))]
        if True in t or self.empty(A(x, "args")) and self.empty(A(x, "annots")):
            return True
        if False in t or self.full(A(x, "args")) or self.full(A(x, "annots")):
            return False
        return None


FUN, ARGS, ANN = (lambda x: A(x, "functor")), (lambda x: A(x, "args")), (lambda x: A(x, "annots"))
NARGS = lambda x: ("len", A(x, "args"))
ELEMS = lambda x: ("conv", "tuple", x)


def truthy(p, x):
    return p.fact(("truth", x))


def method_paths(ctx, cls, f):
    others = [g.qual for g in ctx.prog.cls(cls).methods.values() if g.name.startswith("__") and g.name not in ("__init__", "__iter__", "__len__", "__bool__")]
    return ctx.paths(f, inline=[q for q in others if q != f.qual] + [cls + ".is_atom"])


def delegated(p, S, O):
    """Other comparisons of the two terms that the path relies on: (relation, holds)."""
    for pred, pol, i in p.facts():
        if pred[0] == "lt" and set(pred[1:]) == {S, O}:
            yield ("__lt__" if pred[1] == S else "__gt__"), pol
        elif pred[0] == "eq" and set(pred[1:]) == {S, O}:
            yield "__eq__", pol


@rule("equality", "P28 P04", floor=4)
def equality(ctx):
    """Equality and inequality of literals and lists: equal only if the other is of that kind and all of functor,
    arguments and annotations (all elements) are equal, different only if one of them is not."""
    for cls, parts in ((LITERAL, (FUN, ARGS, ANN)), (LINKED, (ELEMS,))):
        eq, ne = dunder(ctx, cls, "__eq__"), dunder(ctx, cls, "__ne__")
        short = cls.rsplit(".", 1)[-1]
        if eq is None:
            ctx.bad(ctx.prog.cls(cls), "has no equality of its own, so equal terms differ", sub=short + ".__eq__")
            continue
        for f, positive in ((eq, True), (ne, False)):
            if f is None:
                ctx.ob()     # Python's default: the negation of __eq__
                continue
            S, O = names(f)
            for p in method_paths(ctx, cls, f):
                ctx.ob()
                if p.kind == "raise":
                    ctx.bad(f, "comparing for equality fails", path=p, sub=f.name)
                    continue
                a = Answer(ctx, cls, p, S, O)
                if not a.possible:
                    continue
                v = answer(p)
                d = dict(delegated(p, S, O))
                if v == NOTIMPL:
                    if a.kind is not False:
                        ctx.bad(f, "does not answer for a term of the same kind", path=p, sub=f.name)
                    continue
                if f is eq and "__eq__" in d or f is ne and "__eq__" in d and d["__eq__"] == (v == FALSE):
                    if f is eq:
                        ctx.bad(f, "is defined by itself", path=p, sub=f.name)
                    continue
                if v in (TRUE, FALSE):
                    equal = (v == TRUE) == positive
                elif v[0] == "call" and v[1][0] == "a" and v[1][1] == S and v[1][2] in ("__eq__", "__ne__"):
                    ctx.bad(f, "is defined by itself", path=p, sub=f.name)
                    continue
                elif a.returned is not None and a.returned[0] in ("eq", "ne") and (a.returned[0] == "eq") == positive:
                    # returned undecided: both outcomes at once
                    got = {frozenset(q) for q in a.parts_of(a.returned[1], a.returned[2])} | a.eqs
                    if not a.kind or not {a.pair(f_) for f_ in parts} <= got:
                        ctx.bad(f, "compares only some of %s" % what(cls), path=p, sub=f.name)
                    continue
                else:
                    ctx.bad(f, "answers neither true nor false but %s" % show(v), path=p, sub=f.name)
                    continue
                if loops(p):
                    continue
                if equal:
                    if a.same:
                        continue
                    missing = [q for q in parts if not a.eq(q)]
                    if cls == LITERAL and missing == [ANN] and a.empty(ANN(S)) and a.empty(ANN(O)):
                        missing = []
                    if cls == LITERAL and missing == [ARGS] and a.empty(ARGS(S)) and a.empty(ARGS(O)):
                        missing = []
                    if a.kind is not True:
                        ctx.bad(f, "something that is no %s is equal to one" % short, path=p, sub=f.name)
                    elif missing:
                        ctx.bad(f, "two %ss are equal although %s may differ" % (
                            short, " and ".join(show(q(O)) for q in missing)), path=p, sub=f.name)
                    elif cls == LITERAL and a.eq(ARGS):
                        ctx.bad(cls, "equality of the argument tuples takes true for 1 and false for 0", sub="booleans-and-numbers")
                else:
                    allowed = parts + ((NARGS,) if cls == LITERAL else ())
                    if a.kind is not False and not a.differs(allowed):
                        ctx.bad(f, "two %ss differ although nothing that was compared does" % short, path=p, sub=f.name)


def what(cls):
    return "functor, arguments and annotations" if cls == LITERAL else "the elements"


@rule("order", "P28 P24 P27", floor=8)
def order(ctx):
    """<, <=, > and >= of literals and lists: the answer is that of the same comparison of functors (two atoms) or of
    arguments (same functor and arity) or of elements, and only then is there an answer."""
    for cls in (LITERAL, LINKED):
        short = cls.rsplit(".", 1)[-1]
        have = {n: dunder(ctx, cls, n) for n in OPS}
        decorated = ordered_by_decorator(ctx, cls)
        for n, f in have.items():
            ctx.ob()
            if f is None:
                if have[OPS[n]] is None and not (decorated and any(have.values())):
                    ctx.bad(ctx.prog.cls(cls), "has no %s" % n, sub="%s.%s" % (short, n))
                continue
            S, O = names(f)
            for p in method_paths(ctx, cls, f):
                ctx.ob()
                order_path(ctx, cls, f, n, p, S, O)


def order_path(ctx, cls, f, n, p, S, O):
    a = Answer(ctx, cls, p, S, O)
    if not a.possible:
        return
    v = answer(p)
    atoms = None
    if cls == LITERAL:
        x, y = a.atom(S), a.atom(O)
        atoms = False if x is False or y is False else True if x and y else None
    if p.kind == "raise" or v == NOTIMPL:
        if p.kind == "raise" and not (v and any(t in show(v) for t in ("TypeError", "AslError", "NotImplemented"))):
            ctx.bad(f, "a comparison fails with an unexpected error", path=p, sub=f.name)
        if a.kind is False:
            return
        if cls == LITERAL and (atoms is False and a.differs((FUN, NARGS)) or a.differs((NARGS,))):
            return
        if any(e[0] == "except" for e in p.events):
            return
        ctx.bad(f, "refuses to compare comparable terms", path=p, sub=f.name)
        return
    want = n.strip("_")
    found = []
    if v in (TRUE, FALSE):
        for x, y, pol in a.cmps:
            # the relation that holds exactly if the answer is yes; not (y < x) is x <= y
            found.append(("lt", x, y) if pol == (v == TRUE) else ("le", y, x))
    elif a.returned is not None:
        found.append(a.returned)
    else:
        ctx.bad(f, "answers neither true nor false but %s" % show(v), path=p, sub=f.name)
        return
    good = False
    for rel, x, y in found:
        if rel in ("gt", "ge"):
            rel, x, y = {"gt": "lt", "ge": "le"}[rel], y, x
        w, l, r = (want, S, O) if want in ("lt", "le") else ({"gt": "lt", "ge": "le"}[want], O, S)
        if (x, y) == (l, r) and rel == w:
            # in terms of another comparison of the same terms
            good = True
            continue
        if rel != w:
            continue
        if cls == LINKED:
            good = good or a.kind is True and (x, y) == (ELEMS(l), ELEMS(r))
            continue
        if (x, y) == (FUN(l), FUN(r)):
            good = good or a.kind is True and atoms is True
        elif (x, y) == (ARGS(l), ARGS(r)):
            good = good or a.kind is True and a.eq(FUN) and a.eq(NARGS)
        elif x == ("tuple", (FUN(l), ARGS(l))) and y == ("tuple", (FUN(r), ARGS(r))):
            good = good or a.kind is True and (atoms is True or a.eq(FUN) and a.eq(NARGS))
    if not good and cls == LITERAL and a.kind is True and a.eq(FUN) and a.eq(NARGS) and a.empty(ARGS(S)):
        good = v == (TRUE if want in ("le", "ge") else FALSE)
    if not good and loops(p):
        return
    if not good:
        ctx.bad(f, "the answer is not that of comparing %s with %s" % (
            "functors of atoms or arguments of one functor and arity" if cls == LITERAL else "the elements", n), path=p, sub=f.name)


@rule("hash", "P28 P04", floor=2)
def hash_rule(ctx):
    """Hashes are made from what equality compares, and from nothing else; a list hashes like the tuple of its
    elements."""
    for cls in (LITERAL, LINKED):
        short = cls.rsplit(".", 1)[-1]
        f = dunder(ctx, cls, "__hash__")
        ctx.ob()
        if f is None:
            ctx.bad(ctx.prog.cls(cls), "has equality but no hash, so it cannot be stored", sub=short + ".__hash__")
            continue
        S = param(f.node.args.args[0].arg)
        normal_ = 0
        for p in ctx.paths(f):
            ctx.ob()
            if p.kind == "raise":
                ctx.bad(f, "hashing fails", path=p, sub=short + ".__hash__")
                continue
            v = p.val
            caught = any(e[0] == "except" for e in p.events)
            normal_ += not caught
            if cls == LITERAL:
                allowed = {A(S, n) for n in ("functor", "args", "annots")}
                if any(t and t[0] == "conv" and t[1] in ("tuple", "list") and t[2] == A(S, "annots") or
                       t and t[0] == "call" and t[1][0] == "g" and t[1][1] in ("builtins.str", "builtins.repr", "builtins.id")
                       for t in subterms(v)):
                    ctx.bad(f, "the hash depends on the order in which a set keeps the annotations: %s" % show(v), path=p, sub=short + ".__hash__")
                elif not made_of(v, allowed, S):
                    ctx.bad(f, "the hash depends on more than functor, arguments and annotations: %s" % show(v), path=p, sub=short + ".__hash__")
            elif not caught:
                if v != ("call", ("g", "builtins.hash"), (ELEMS(S),), 0) and tuple_hash(v, S) is False:
                    ctx.bad(f, "a list with a known end hashes differently from the tuple it equals: %s" % show(v), path=p, sub=short + ".__hash__")
            elif not made_of(v, {A(S, "head"), A(S, "tail")}, S):
                ctx.bad(f, "the hash depends on more than head and tail: %s" % show(v), path=p, sub=short + ".__hash__")
        if not normal_:
            ctx.bad(f, "never gives a hash", sub=short + ".__hash__")


def tuple_hash(v, S):
    return v[0] == "call" and v[1] in (("g", "builtins.hash"), ("a", ELEMS(S), "__hash__")) and (not v[2] or tup(v[2][0]) == ELEMS(S) and v[2][0][1] != "list")


def made_of(v, allowed, S):
    if v in allowed:
        return True
    if not isinstance(v, tuple) or not v:
        return True
    if v == S:
        return False
    if v[0] == "call":
        if v[1][0] == "g":
            if v[1][1] not in ("builtins.hash", "builtins.len", "builtins.tuple", "builtins.frozenset", "builtins.hasattr"):
                return False
        elif v[1][0] == "a" and v[1][1] == S:
            return v[1][2] == "literal_group"
        elif v[1][0] == "a" and not made_of(v[1][1], allowed, S):
            return False
        return all(made_of(x, allowed, S) for x in v[2])
    if v[0] in ("c",):
        return True
    if v[0] == "a":
        return made_of(v[1], allowed, S) if v[1] != S else False
    if v[0] in ("p", "new", "phi", "elem"):
        return v[0] != "p" and v[0] != "new"
    return all(made_of(x, allowed, S) for x in v[1:] if isinstance(x, tuple))


@rule("literal-parts", "P28 P04 P02", floor=2)
def literal_parts(ctx):
    """A literal keeps functor, arguments and annotations in the form that equality and hash rely on: arguments as a
    tuple in the order given, annotations as a set without order."""
    f = ctx.prog.func(LITERAL + ".__init__")
    for p in ctx.paths(f):
        if p.kind == "raise":
            ctx.bad(f, "making a literal fails", path=p, sub="init")
            continue
        ctx.ob()
        got = {e[2]: e[3] for e in p.events if e[0] == "setattr" and e[1] == SELF}
        if got.get("functor") != param("functor"):
            ctx.bad(f, "does not keep its functor", path=p, sub="functor")
        for name, conv in (("args", "tuple"), ("annots", "frozenset")):
            v = got.get(name)
            if v is None:
                ctx.bad(f, "does not keep its %s" % name, path=p, sub=name)
                continue
            empty = p.fact(("truth", param(name))) is False or p.fact(("eq", NONE, param(name))) is True or p.fact(("is", param(name), NONE)) is True
            if v == ("conv", conv, param(name)) or v[0] == "call" and v[1] == ("g", "builtins." + conv) and v[2] == (param(name),):
                continue
            if empty and (v in (("tuple", ()), ("conv", conv, ("tuple", ()))) or v[0] == "call" and v[1] == ("g", "builtins." + conv) and not v[2]):
                continue
            if v == param(name) and typefact(p, param(name), "builtins." + conv):
                continue
            ctx.bad(f, "keeps its %s as %s instead of the %s of what is given" % (name, show(v), conv), path=p, sub=name)


@rule("list-elements", "P28 P02 P27", floor=2)
def list_elements(ctx):
    """Going through a list in head-and-tail notation gives the head and then the elements of the tail; its length
    counts them."""
    f = dunder(ctx, LINKED, "__iter__")
    if f is None:
        ctx.bad(ctx.prog.cls(LINKED), "cannot be gone through", sub="iter")
    else:
        S = param(f.node.args.args[0].arg)
        head, tail = A(S, "head"), A(S, "tail")
        for p in ctx.paths(f):
            ctx.ob()
            if p.kind == "raise":
                ctx.bad(f, "going through a list fails", path=p, sub="iter")
                continue
            ys = [(i, e) for i, e in enumerate(p.events) if e[0] in ("yield", "yieldfrom")]
            if not ys:
                v = p.val
                if v is not None and v[0] == "call" and v[1] == ("g", "itertools.chain") or v is not None and v[0] == "call" and "iter" in show(v[1]):
                    if not mentions(v, head) or not mentions(v, tail):
                        ctx.bad(f, "leaves out elements", path=p, sub="iter")
                    continue
                ctx.bad(f, "yields nothing", path=p, sub="iter")
                continue
            if ys[0][1][1] != head:
                ctx.bad(f, "the first element is not the head", path=p, sub="iter")
            rest = ys[1:]
            ls = loops_over(p, lambda s: copied_tail(s) == tail)
            if rest and all(e[0] == "yieldfrom" and e[1] == tail for i, e in rest) and len(rest) == 1:
                continue
            ok = len(ls) == 1 and ls[0][1]["exhausted"] is not None
            if ok:
                lid, l = ls[0]
                for a, b in l["iters"]:
                    mine = [e for i, e in rest if a < i < b]
                    if len(mine) != 1 or not is_elem(mine[0][1], tail):
                        ok = False
                if any(inside(l, i) is None for i, e in rest):
                    ok = False
            if not ok and not any(l["src"] is None for l in loops(p).values()):
                ctx.bad(f, "does not yield every element of the tail once and in order", path=p, sub="iter")
    f = dunder(ctx, LINKED, "__len__")
    if f is not None:
        S = param(f.node.args.args[0].arg)
        for p in ctx.paths(f):
            ctx.ob()
            if p.kind == "raise":
                continue
            n = ("len", A(S, "tail"))
            ok = p.val[0] == "bin" and p.val[1] == "+" and set(p.val[2:4]) == {n, ("c", "int", 1)} or not mentions(p.val, n)
            if not ok or p.val[0] == "c" or p.val == n:
                ctx.bad(f, "the length is not one more than that of the tail: %s" % show(p.val), path=p, sub="len")
    f = ctx.prog.find_method(LITERAL, "__len__")
    if f is not None:
        S = param(f.node.args.args[0].arg)
        for p in ctx.paths(f):
            ctx.ob()
            if p.kind == "return" and p.val != ("len", A(S, "args")) and not loops(p):
                ctx.bad(f, "the length of a literal is not the number of its arguments: %s" % show(p.val), path=p, sub="literal-len")


def copied_tail(s):
    return strip_conv(s)

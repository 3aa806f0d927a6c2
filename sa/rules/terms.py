"""Terms: unification, trail, freezing, groundness, evaluation, equality."""
import ast

from ..core import rule, A, AnalysisBroken
from ..flow import NONE, TRUE, FALSE, const, show, subterms
from ..pat import *

M = "agentspeak."
TUPLE, BOOL = "builtins.tuple", "builtins.bool"
EXPRS = (M + "UnaryExpr", M + "BinaryExpr")


def rets(paths):
    return [p for p in paths if p.kind == "return"]


def pair_walk(p, X, Y, name):
    """Does this (successful) path unify every pair of elements of X and Y?"""
    if any(c for c in true_calls(p, name) if len(c.args) >= 2 and {strip_conv(c.args[0]), strip_conv(c.args[1])} == {X, Y}):
        return True
    for lid, l in loops(p).items():
        srcs = loop_sources(l["src"]) if l["src"] is not None else None
        if srcs is not None and X not in srcs and Y not in srcs:
            continue
        if l["exhausted"] is None:
            continue
        ok = True
        for a, b in l["iters"]:
            hit = False
            for c in true_calls(p, name):
                if not a < c.i < b or len(c.args) < 2:
                    continue
                for u, v in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                    if is_elem(u, X) and is_elem(v, Y) and elem_key(u) == elem_key(v):
                        hit = True
            ok = ok and hit
        if not l["iters"] and srcs is None:
            continue
        if ok:
            return True
    return False


def eqfact(p, a, b):
    r = None
    for pred, pol, i in p.facts():
        if pred[0] == "eq" and {pred[1], pred[2]} == {a, b}:
            r = pol
        elif pred[0] == "is" and {pred[1], pred[2]} == {a, b}:
            r = pol
    return r


def tuple_eq(p, parts):
    """(a.x, a.y) == (b.x, b.y) comparisons decompose."""
    for pred, pol, i in p.facts():
        if pred[0] == "eq" and pred[1][0] == "tuple" and pred[2][0] == "tuple" and len(pred[1][1]) == len(pred[2][1]):
            for u, v in zip(pred[1][1], pred[2][1]):
                parts.append(((u, v), pol))
    return parts


def established_eq(p, a, b):
    f = eqfact(p, a, b)
    if f is not None:
        return f
    for (u, v), pol in tuple_eq(p, []):
        if {u, v} == {a, b}:
            return True if pol else None
    return None


def group_eq(p, a, b):
    """literal_group() comparisons stand for functor and arity."""
    for pred, pol, i in p.facts():
        if pred[0] == "eq" and all(x[0] == "call" and x[1][0] == "a" and x[1][2] == "literal_group" for x in pred[1:]):
            if {pred[1][1][1], pred[2][1][1]} == {a, b}:
                return pol
    return None


def any_false(p, *names):
    return any(p.fact(("truth", c.res)) is False or (p.kind == "return" and p.val == c.res) for c in p.calls_to(*names))


def mismatch(p, *values):
    """Some comparison, type test, or partial unification failed."""
    for pred, pol, i in p.facts():
        if pred[0] in ("eq", "is") and not pol:
            return True
        if pred[0] in ("isinst", "hasattr") and not pol:
            return True
        if pred[0] == "truth" and not pol:
            return True
        if pred[0] == "lt" :
            return True
    return bool(excepts(p))


# ------------------------------------------------------------------ unify

@rule("unify-dispatch", "P02", floor=8)
def unify_dispatch(ctx):
    """unify(): terms with their own unification decide; otherwise booleans are compared by identity, tuples
    element by element with equal lengths, everything else by equality."""
    f = ctx.prog.func(M + "unify")
    for p in rets(ctx.paths(f)):
        ctx.ob()
        hl, hr = p.fact(("hasattr", LEFT, "unify")), p.fact(("hasattr", RIGHT, "unify"))
        if hl:
            if not is_call(p.val, "unify", (LEFT, RIGHT, SCOPE, STACK)):
                ctx.bad(f, "a left operand with its own unification does not decide the result", path=p, sub="left")
            continue
        if hr:
            if not is_call(p.val, "unify", (RIGHT, LEFT, SCOPE, STACK)):
                ctx.bad(f, "a right operand with its own unification does not decide the result", path=p, sub="right")
            continue
        if hl is None or hr is None:
            if succeeded(p):
                ctx.bad(f, "unifies without asking both operands for their own unification", path=p, sub="skip")
            continue
        lb, rb = typefact(p, LEFT, BOOL), typefact(p, RIGHT, BOOL)
        lt, rt = typefact(p, LEFT, TUPLE), typefact(p, RIGHT, TUPLE)
        if p.val not in (TRUE, FALSE) and not (p.val[0] == "call"):
            ctx.bad(f, "result %s is not decided by the operands" % show(p.val), path=p, sub="result")
        elif succeeded(p):
            same = p.fact(("is",) + tuple(sorted((LEFT, RIGHT), key=repr)))
            eq = p.fact(("eq",) + tuple(sorted((LEFT, RIGHT), key=repr)))
            if lb or rb:
                ok = same or (lb and rb and eq)
                if not ok:
                    ctx.bad(f, "a boolean unifies with something that is not the same boolean", path=p, sub="bool")
            elif lt and rt:
                n = eqfact(p, ("len", LEFT), ("len", RIGHT))
                if not n:
                    ctx.bad(f, "tuples unify although their lengths were not found equal", path=p, sub="length")
                elif not pair_walk(p, LEFT, RIGHT, "unify"):
                    ctx.bad(f, "tuples unify without unifying every pair of elements", path=p, sub="elements")
            else:
                if not (lb is False and rb is False):
                    ctx.bad(f, "compares for equality without having set booleans aside (true would unify with 1)",
                            path=p, sub="bool")
                if not (lt is False or rt is False):
                    ctx.bad(f, "tuples are compared without unifying their elements", path=p, sub="elements")
                if not (eq or same):
                    ctx.bad(f, "unifies values that were not found equal", path=p, sub="equal")
        elif failed(p):
            if not mismatch_pair(p):
                ctx.bad(f, "fails although no difference between the operands was found", path=p, sub="fail")


def mismatch_pair(p):
    """A failing path must rest on a comparison that came out different."""
    for pred, pol, i in p.facts():
        if pred[0] in ("eq", "is") and not pol:
            return True
        if pred[0] == "truth" and not pol and pred[1][0] in ("call", "len"):
            return True
        if pred[0] == "lt":
            return True
    lt, rt = typefact(p, LEFT, TUPLE), typefact(p, RIGHT, TUPLE)
    if lt is not None and rt is not None and lt != rt:
        return True
    lb, rb = typefact(p, LEFT, BOOL), typefact(p, RIGHT, BOOL)
    if lb is not None and rb is not None and lb != rb:
        return True
    return p.val[0] == "call" or bool(excepts(p))


@rule("unify-var", "P02 P01", floor=4)
def unify_var(ctx):
    """A bound variable unifies like its value, an unbound one is bound to the evaluated other side unless that
    side is a wildcard; a wildcard unifies with anything and never binds."""
    f = ctx.prog.func(M + "Var.unify")
    for p in rets(ctx.paths(f)):
        ctx.ob()
        bound = p.fact(("in", SELF, SCOPE))
        binds = p.calls_to("bind")
        if bound is None:
            ctx.bad(f, "does not look whether the variable is bound already", path=p, sub="bound")
        elif bound:
            ok = p.val[0] == "call" and is_call(p.val, "unify") and \
                any(c.res == p.val and len(c.args) >= 4 and deref_of(c.args[0], SELF, SCOPE) and c.args[1] in (RIGHT,) or
                    c.res == p.val and len(c.args) >= 4 and deref_of(c.args[1], SELF, SCOPE) and c.args[0] in (RIGHT,)
                    or c.res == p.val and len(c.args) >= 4 and deref_of(c.args[0], SELF, SCOPE) and is_call(c.args[1], "evaluate", (RIGHT, SCOPE))
                    for c in p.calls_to("unify") if c.args[2:4] == (SCOPE, STACK))
            if not ok:
                ctx.bad(f, "a bound variable does not unify as its value with the other side", path=p, sub="bound")
            if binds:
                ctx.bad(f, "binds a variable that is bound already", path=p, sub="rebind")
        else:
            ev = [c.res for c in p.calls_to("evaluate") if c.args == (RIGHT, SCOPE)]
            wild = any(typefact(p, v, M + "Wildcard") for v in [RIGHT] + ev)
            same = any(p.fact(("is",) + tuple(sorted((SELF, v), key=repr))) for v in [RIGHT] + ev)
            if p.val != TRUE:
                ctx.bad(f, "an unbound variable does not unify with the other side", path=p, sub="fail")
            good = [c for c in binds if c.recv == SELF and len(c.args) == 3 and c.args[0] in ev and c.args[1:] == (SCOPE, STACK)]
            if wild or same:
                if binds:
                    ctx.bad(f, "binds a variable to a wildcard", path=p, sub="wild")
            elif len(good) != 1 or len(binds) != 1:
                ctx.bad(f, "does not bind the variable to the evaluated other side exactly once", path=p, sub="bind")
            elif not any(typefact(p, v, M + "Wildcard") is False for v in [RIGHT] + ev):
                ctx.bad(f, "may bind a variable to a wildcard", path=p, sub="wild")
    w = M + "Wildcard"
    for name in ("unify", "bind", "evaluate", "freeze"):
        g = ctx.prog.find_method(w, name)
        if g is None or g.cls.qual != w:
            ctx.bad(ctx.prog.cls(w).qual, "the wildcard inherits the %s of variables" % name, sub=name)
            continue
        for p in ctx.paths(g):
            ctx.ob()
            if any(e[0] == "setitem" for e in p.events) or p.calls_to("bind", "append"):
                ctx.bad(g, "a wildcard is bound", path=p)
            if name == "unify" and p.val != TRUE:
                ctx.bad(g, "a wildcard does not unify", path=p)
            if name in ("evaluate", "freeze"):
                n = new_fields(p, p.val)
                if not (p.val == SELF or (n and n[1] == w)):
                    ctx.bad(g, "a wildcard stops being a wildcard", path=p)


@rule("unify-expr", "P02 P24", floor=2)
def unify_expr(ctx):
    """Arithmetic and comparison expressions unify as their value."""
    for cls in EXPRS:
        f = ctx.prog.find_method(cls, "unify")
        if f is None:
            ctx.bad(cls, "expressions have no unification", sub="unify")
            continue
        for p in rets(ctx.paths(f)):
            ctx.ob()
            ok = any(c.res == p.val and is_call(c.args[0], "evaluate", (SELF, SCOPE)) and c.args[1] == RIGHT and
                     c.args[2:4] == (SCOPE, STACK) or
                     c.res == p.val and is_call(c.args[1], "evaluate", (SELF, SCOPE)) and c.args[0] == RIGHT and
                     c.args[2:4] == (SCOPE, STACK)
                     for c in p.calls_to("unify") if len(c.args) >= 4)
            if not ok:
                ctx.bad(f, "does not unify the value of the expression with the other side", path=p)


def evaluated_right(p):
    return [c.res for c in p.calls_to("evaluate") if c.args == (RIGHT, SCOPE)]


def scope_ok(ctx, f, p, *names):
    for c in p.calls_to(*names):
        if len(c.args) == 4 and c.args[2:] != (SCOPE, STACK):
            ctx.bad(f, "unifies in another scope or on another trail", c.node, p, "scope")


def operand_of(p, v):
    """The field whose value v is, when v is what evaluating a field of the expression in its scope gave."""
    for c in p.calls_to("evaluate"):
        if c.res == v and len(c.args) == 2 and c.args[1] == SCOPE and c.args[0][0] == "a" and c.args[0][1] == SELF:
            return c.args[0][2]
    return None


def number_fact(p, v):
    r = None
    for pred, pol, i in p.facts():
        if pred[0] == "truth" and is_call(pred[1], "is_number") and pred[1][2] == (v,):
            r = pol
    return r


@rule("expr-evaluate", "P24", floor=12)
def expr_evaluate(ctx):
    """Evaluating an expression applies the function of its operator to the values of its operands, in order; logical
    operators are applied to truth values only, arithmetic ones to numbers only, and anything else is an error of the
    AgentSpeak program."""
    for cls, op, fields, kinds in ((M + "BinaryExpr", "binary_op", ["left", "right"], ["boolean_op", "numeric_op", "comp_op"]),
                                   (M + "UnaryExpr", "unary_op", ["operand"], ["boolean_op", "numeric_op"])):
        f = need_method(ctx, cls, "evaluate")
        seen = set()
        for p in ctx.paths(f):
            flags = {k: p.fact(("truth", A(SELF, op, k))) for k in kinds}
            on = [k for k in kinds if flags[k] is True]
            if len(on) > 1:
                continue                # no operator is of two kinds (operator-table)
            cand = on or [k for k in kinds if flags[k] is None]
            vals = {}
            for c in p.calls_to("evaluate"):
                n = operand_of(p, c.res)
                if n:
                    vals[n] = c.res
            if p.kind == "return":
                c = [c for c in p.calls if c.res == p.val and c.ev[1] == A(SELF, op, "func")]
                ctx.ob()
                if not c:
                    ctx.bad(f, "an expression has a value the function of its operator did not compute", path=p, sub="value")
                    continue
                args = list(c[0].args)
                plain = []
                for a in args:
                    g = is_call(a, "grounded") and len(a[2]) == 2 and a[2][1] == SCOPE
                    plain.append((a[2][0] if g else a, g))
                if [operand_of(p, a) for a, g in plain] != fields:
                    ctx.bad(f, "the operator is not applied to the values of its operands in order", c[0].node, p, "operands")
                    continue
                for k in cand:
                    seen.add(k)
                    ctx.ob()
                    if k == "boolean_op" and not all(typefact(p, a, "builtins.bool") is True for a, g in plain):
                        ctx.bad(f, "a logical operator is applied to something that was not found to be a truth value", c[0].node, p, k)
                    elif k == "numeric_op" and not all(number_fact(p, a) is True for a, g in plain):
                        ctx.bad(f, "an arithmetic operator is applied to something that was not found to be a number", c[0].node, p, k)
                    elif k == "comp_op" and not all(g for a, g in plain):
                        ctx.bad(f, "a comparison is applied to terms whose variables were not replaced by their values", c[0].node, p, k)
            elif p.kind == "raise":
                ctx.ob()
                if not (p.val[0] == "new" and p.val[1] in set(ctx.prog.subclasses(M + "AslError")) | {M + "AslError"}):
                    if p.val[0] in ("new",):
                        ctx.bad(f, "operands of the wrong type are not reported as an error of the program", path=p, sub="error")
                    continue
                wrong = {"boolean_op": lambda v: typefact(p, v, "builtins.bool") is False,
                         "numeric_op": lambda v: number_fact(p, v) is False, "comp_op": lambda v: False}
                if not all(any(wrong[k](v) for v in vals.values()) for k in cand):
                    ctx.bad(f, "operands of the right type are refused", path=p, sub="refused")
        for k in kinds:
            ctx.check(k in seen, f, "no path applies an operator of kind %s" % k, sub="kind:" + k)


@rule("unify-literal", "P02", floor=6)
def unify_literal(ctx):
    """Literals unify exactly if functor and arity agree and every pair of arguments unifies; a variable on the
    right is bound to the literal."""
    f = ctx.prog.func(M + "Literal.unify")
    for p in rets(ctx.paths(f)):
        ctx.ob()
        scope_ok(ctx, f, p, "unify")
        ev = evaluated_right(p)
        R = next((v for v in ev), None)
        if R is None:
            ctx.bad(f, "does not look at the value of the right side", path=p, sub="evaluate")
            continue
        if typefact(p, R, M + "Var"):
            if not is_call(p.val, "unify", (R, SELF, SCOPE, STACK)):
                ctx.bad(f, "an unbound right side is not unified with the literal", path=p, sub="var")
            continue
        if succeeded(p):
            g = group_eq(p, SELF, R)
            if not g:
                if not established_eq(p, A(SELF, "functor"), A(R, "functor")):
                    ctx.bad(f, "unifies literals whose functors were not found equal", path=p, sub="functor")
                arity = established_eq(p, ("len", A(SELF, "args")), ("len", A(R, "args"))) or \
                    any(is_call(c.res, "unify") and {strip_conv(c.args[0]), strip_conv(c.args[1])} == {A(SELF, "args"), A(R, "args")}
                        for c in true_calls(p, "unify")) or \
                    established_eq(p, ("len", SELF), ("len", R))
                if not arity:
                    ctx.bad(f, "unifies literals whose arities were not found equal", path=p, sub="arity")
            if not pair_walk(p, A(SELF, "args"), A(R, "args"), "unify"):
                ctx.bad(f, "unifies literals without unifying every pair of arguments", path=p, sub="args")
        elif failed(p):
            if not mismatch_literal(p, SELF, R):
                ctx.bad(f, "fails although functor, arity and arguments agree", path=p, sub="fail")
        else:
            ctx.bad(f, "result %s is not decided by functor, arity and arguments" % show(p.val), path=p, sub="result")


def mismatch_literal(p, S, R):
    if group_eq(p, S, R) is False or excepts(p):
        return True
    for x in ("functor",):
        if eqfact(p, A(S, x), A(R, x)) is False:
            return True
    if eqfact(p, ("len", A(S, "args")), ("len", A(R, "args"))) is False:
        return True
    if any(pol is False for _, pol in tuple_eq(p, [])):
        return True
    if typefact(p, R, M + "Literal") is False or any(pr[0] == "hasattr" and not pol for pr, pol, _ in p.facts()):
        return True
    return any_false(p, "unify")


@rule("unify-linked-list", "P02", floor=4)
def unify_linked_list(ctx):
    """[H|T] unifies with another such list or with a non-empty list exactly if head and tail do."""
    f = ctx.prog.func(M + "LinkedList.unify")
    head, tail = A(SELF, "head"), A(SELF, "tail")
    for p in rets(ctx.paths(f)):
        ctx.ob()
        scope_ok(ctx, f, p, "unify")
        ev = evaluated_right(p)
        R = next((v for v in ev), None)
        if R is None:
            ctx.bad(f, "does not look at the value of the right side", path=p, sub="evaluate")
            continue
        if typefact(p, R, M + "Var"):
            if not is_call(p.val, "unify", (R, SELF, SCOPE, STACK)):
                ctx.bad(f, "an unbound right side is not unified with the list", path=p, sub="var")
            continue
        done = [(c.args[0], c.args[1]) for c in true_calls(p, "unify") if len(c.args) >= 2]
        done += [(b, a) for a, b in done]
        if succeeded(p):
            tup = typefact(p, R, TUPLE)
            rest = ("i", R, ("slice", const(1), NONE, NONE))
            if tup:
                nonempty = p.fact(("truth", ("len", R))) or p.fact(("truth", R)) or \
                    p.fact(("lt", ("len", R), const(1))) is False or p.fact(("lt", const(0), ("len", R)))
                if not nonempty:
                    ctx.bad(f, "takes the head of a list that may be empty", path=p, sub="empty")
                h, t = ("i", R, const(0)), rest
            else:
                h, t = A(R, "head"), A(R, "tail")
            if (head, h) not in done:
                ctx.bad(f, "lists unify although their heads were not unified", path=p, sub="head")
            if (tail, t) not in done:
                ctx.bad(f, "lists unify although their tails were not unified", path=p, sub="tail")
        elif failed(p):
            ok = excepts(p) or any_false(p, "unify") or p.fact(("truth", ("len", R))) is False or \
                p.fact(("truth", R)) is False or any(pr[0] == "lt" for pr, _, _ in p.facts()) or \
                typefact(p, R, M + "LinkedList") is False or any(pr[0] == "hasattr" and not pol for pr, pol, _ in p.facts())
            if not ok:
                ctx.bad(f, "lists do not unify although head and tail agree", path=p, sub="fail")
        else:
            ctx.bad(f, "result %s is not decided by head and tail" % show(p.val), path=p, sub="result")


@rule("unify-annotated", "P02", floor=6)
def unify_annotated(ctx):
    """Annotated unification needs the plain unification to hold and a different matching annotation on the right
    for each annotation on the left."""
    f = ctx.prog.func(M + "Literal.unify_annotated")
    seen_loop = False
    for p in rets(ctx.paths(f)):
        ctx.ob()
        scope_ok(ctx, f, p, "unify", "unify_annotated")
        ev = evaluated_right(p)
        R = ev[0] if ev else None
        if R is None:
            ctx.bad(f, "does not look at the value of the right side", path=p, sub="evaluate")
            continue
        tc = true_calls(p, "unify")
        if typefact(p, R, M + "Var"):
            hit = [c for c in tc if c.args[:2] in ((R, SELF), (SELF, R))]
            if p.yields() and not hit:
                ctx.bad(f, "a variable is matched without being bound", path=p, sub="var")
            if not p.yields() and not any_false(p, "unify"):
                ctx.bad(f, "a variable on the right is not matched", path=p, sub="var")
            continue
        basic = [c for c in tc if c.args[:2] in ((SELF, R), (R, SELF), (SELF, RIGHT))]
        la, ra = A(SELF, "annots"), A(R, "annots")

        def less(t):
            """t is one of the annotations on the right without those in a set: that set"""
            src = strip_conv(t[1]) if t[0] == "elem" else NONE
            if src[0] == "bin" and src[1] == "-" and src[2] == ra:
                return src[3]
            if src[0] == "call" and src[1] == ("a", ra, "difference") and len(src[2]) == 1:
                return src[2][0]
            return None
        ls = [l for lid, l in loops(p).items() if la in loop_sources(l["src"])]
        if p.yields():
            if len(p.yields()) > 1:
                ctx.bad(f, "yields the same match twice", path=p, sub="twice")
            if not basic:
                ctx.bad(f, "matches although functor and arguments were not unified", path=p, sub="basic")
            ls = [l for l in ls if l["exhausted"] is not None]
            if not ls:
                ctx.bad(f, "matches without visiting every annotation of the left side", path=p, sub="annots")
            for l in ls:
                for a, b in l["iters"]:
                    seen_loop = True
                    good = None
                    for c in p.calls_to("unify_annotated", "unifies_annotated"):
                        if a < c.i < b and is_elem(c.args[0], la) and (is_elem(c.args[1], ra) or less(c.args[1]) is not None):
                            it = [k for k in range(c.i, b) if p.events[k][0] == "iter" and p.events[k][2] is not None and
                                  p.events[k][2] == ("elem", c.res, p.events[k][1])]
                            if it or p.fact(("truth", c.res)):
                                good = c
                    if good is None:
                        ctx.bad(f, "an annotation of the left side has no match on the right, but the literals match",
                                path=p, sub="annots")
                        continue
                    r = good.args[1]
                    distinct = False
                    for pred, pol, i in p.facts():
                        if pred[0] == "in" and pred[1] == r and not pol and i < good.i:
                            if any(c.recv == pred[2] and c.name in ("add", "append") and c.args == (r,) and c.i > good.i
                                   for c in p.calls):
                                distinct = True
                    if any(c.name in ("remove", "discard") and c.args == (r,) and c.i > good.i for c in p.calls):
                        distinct = True
                    if less(r) is not None and any(c.recv == less(r) and c.name == "add" and c.args == (r,) and c.i > good.i for c in p.calls):
                        distinct = True
                    if not distinct:
                        ctx.bad(f, "one annotation on the right may serve two annotations on the left", path=p, sub="distinct")
        else:
            if not any_false(p, "unify") and not any(ra in loop_sources(l["src"]) or l["src"] and less(("elem", l["src"], 0)) is not None for l in loops(p).values()) and \
                    not any(l["iters"] for l in ls):
                ctx.bad(f, "does not match although nothing differs", path=p, sub="fail")
            for l in loops(p).values():
                if (ra in loop_sources(l["src"]) or l["src"] and less(("elem", l["src"], 0)) is not None) and l["exhausted"] is None and not any(
                        k for k in range(l["start"], len(p.events))
                        if p.events[k][0] == "iter" and p.events[k][2] and p.events[k][2][0] == "elem" and
                        is_call(p.events[k][2][1], "unify_annotated")):
                    ctx.bad(f, "gives up on an annotation before all annotations on the right were tried", path=p, sub="early")
    if not seen_loop:
        ctx.bad(f, "annotations of the left side are never matched", sub="annots")
    g = ctx.prog.func(M + "unify_annotated")
    for p in rets(ctx.paths(g)):
        ctx.ob()
        scope_ok(ctx, g, p, "unify", "unify_annotated")
        h = p.fact(("hasattr", LEFT, "unify_annotated"))
        if h:
            c = [c for c in p.calls_to("unify_annotated") if c.args == (LEFT, RIGHT, SCOPE, STACK)]
            if len(c) != 1:
                ctx.bad(g, "does not delegate to the annotated unification of the left side", path=p, sub="delegate")
            else:
                for l in loops(p).values():
                    if l["src"] == c[0].res:
                        for a, b in l["iters"]:
                            if len([y for y in p.yields() if a < y[0] < b]) != 1:
                                ctx.bad(g, "loses or repeats a match of the left side", path=p, sub="delegate")
                if p.yields() and not any(l["src"] == c[0].res for l in loops(p).values()):
                    ctx.bad(g, "matches without a match of the left side", path=p, sub="delegate")
        else:
            ok = any(c.args[:2] in ((LEFT, RIGHT), (RIGHT, LEFT)) for c in true_calls(p, "unify"))
            if p.yields() and not ok or len(p.yields()) > 1:
                ctx.bad(g, "matches without unifying", path=p, sub="plain")
            if not p.yields() and not any_false(p, "unify"):
                ctx.bad(g, "does not match although the terms unify", path=p, sub="plain")


@rule("unifies", "P02 P06 P09", floor=4)
def unifies(ctx):
    """The yes/no forms answer what unification in a fresh (or the given) scope answers."""
    f = ctx.prog.func(M + "unifies")
    for p in rets(ctx.paths(f)):
        ctx.ob()
        cs = [c for c in p.calls_to("unify") if c.args[:2] == (LEFT, RIGHT) and c.args[2][0] in ("new", "conv", "dict") and
              (c.args[3][0] in ("new", "conv") )]
        if not cs or not (p.val == cs[-1].res or p.fact(("truth", cs[-1].res)) == (p.val == TRUE)):
            ctx.bad(f, "does not answer whether the terms unify in a fresh scope", path=p)
    g = ctx.prog.func(M + "unifies_annotated")
    for p in rets(ctx.paths(g)):
        ctx.ob()
        cs = [c for c in p.calls_to("unify_annotated") if c.args[:2] == (LEFT, RIGHT)]
        if not cs:
            ctx.bad(g, "does not try to unify", path=p)
            continue
        c = cs[-1]
        for a, prm in ((c.args[2], SCOPE), (c.args[3], STACK)):
            none = p.fact(("is",) + tuple(sorted((NONE, prm), key=repr)))
            if none is None:
                none = p.fact(("truth", prm))
                none = (not none) if none is not None else None
            if none is False and a != prm:
                ctx.bad(g, "bindings do not go to the scope of the caller", path=p, sub="scope")
            if none is None and a != prm and a[0] != "new":
                ctx.bad(g, "bindings do not go to the scope of the caller", path=p, sub="scope")
        found = any(e[0] == "iter" and e[2] == ("elem", c.res, e[1]) for e in p.events) or \
            p.fact(("truth", c.res)) or any(pr[0] == "more" and pol for pr, pol, _ in p.facts())
        if bool(found) != succeeded(p):
            ctx.bad(g, "does not answer whether the terms unify", path=p, sub="answer")


# ------------------------------------------------------------------ trail

def _told_apart(ctx):
    """Every caller of bind makes sure that it does not pass the variable itself."""
    for f in ctx.prog.functions.values():
        if f.module.name != "agentspeak" or not any(isinstance(n, ast.Attribute) and n.attr == "bind" for n in ast.walk(f.node)):
            continue
        for p in ctx.paths(f):
            for c in p.calls_to("bind"):
                if c.recv is None or not c.args or p.fact(("is",) + tuple(sorted((c.recv, c.args[0]), key=repr))) is not False:
                    return False
    return True


@rule("trail-bind", "P01", floor=2)
def trail_bind(ctx):
    """Binding a variable writes the scope and records the variable on the trail, both or neither, and never
    overwrites a binding."""
    f = ctx.prog.func(M + "Var.bind")
    for p in ctx.paths(f):
        ctx.ob()
        w = [(i, e) for i, e in p.find("setitem") if e[1] == SCOPE]
        a = [c for c in p.calls_to("append") if c.recv == STACK]
        upd = [c for c in p.calls if c.recv == SCOPE and c.name in ("update", "setdefault", "clear", "pop")]
        if upd:
            ctx.bad(f, "changes the scope other than by binding the variable", path=p, sub="scope")
        same = p.fact(("is",) + tuple(sorted((SELF, TERM), key=repr)))
        if p.kind == "raise":
            if w or a:
                ctx.bad(f, "binds although it reports an error", path=p, sub="raise")
            if not p.fact(("in", SELF, SCOPE)):
                ctx.bad(f, "refuses to bind a variable that is not bound", path=p, sub="raise")
            continue
        if same:
            if w or a:
                ctx.bad(f, "binds a variable to itself", path=p, sub="self")
            continue
        if w and same is None and not _told_apart(ctx):
            ctx.bad(f, "may bind a variable to itself: looking up its value would never end", path=p, sub="self")
        if p.fact(("in", SELF, SCOPE)) is not False:
            ctx.bad(f, "may overwrite a binding", path=p, sub="overwrite")
        if len(w) != 1 or w[0][1][2] != SELF or w[0][1][3] != TERM:
            ctx.bad(f, "does not write the binding of the variable exactly once", path=p, sub="bind")
        if len(a) != 1 or a[0].args != (SELF,):
            ctx.bad(f, "does not record the binding on the trail exactly once", path=p, sub="trail")


@rule("trail-reroll", "P01", floor=2)
def trail_reroll(ctx):
    """Rerolling pops the trail from its end up to the given choicepoint and unbinds every variable popped."""
    f = ctx.prog.func(M + "reroll")
    CP = param("choicepoint")
    unbound = stopped = False
    for p in ctx.paths(f):
        ctx.ob()
        pops = [c for c in p.calls if c.recv == STACK and c.name in ("pop", "popleft", "clear", "remove")]
        for c in pops:
            if c.name != "pop" or c.args:
                ctx.bad(f, "takes entries off the wrong end of the trail", c.node, p, "order")
        dels = [(c.i, c.args[0]) for c in p.calls if c.recv == SCOPE and c.name in ("pop",)] + \
            [(i, e[2]) for i, e in p.find("delitem") if e[1] == SCOPE]
        if any(c.recv == SCOPE and c.name in ("clear", "update") for c in p.calls) or p.find("setitem"):
            ctx.bad(f, "changes bindings that are not on the trail", path=p, sub="scope")
        for n, c in enumerate(pops):
            t = c.res
            is_cp = p.fact(("is",) + tuple(sorted((t, CP), key=repr)))
            eq_cp = p.fact(("eq",) + tuple(sorted((t, CP), key=repr)))
            is_cp = eq_cp if is_cp is None else is_cp
            removed = [d for i, d in dels if d == t]
            if is_cp is None:
                ctx.bad(f, "does not look for the choicepoint among the popped entries", path=p, sub="stop")
            elif is_cp:
                stopped = True
                if n != len(pops) - 1 or any(e[0] == "iter" for e in p.events[c.i:]):
                    ctx.bad(f, "goes on past the choicepoint", path=p, sub="stop")
            else:
                unbound = unbound or bool(removed)
                guarded = p.fact(("in", t, SCOPE)) is False
                if not removed and not guarded:
                    ctx.bad(f, "leaves the binding of a popped variable in place", path=p, sub="unbind")
                later = any(e[0] in ("iter",) for e in p.events[c.i:]) or \
                    any(e[0] == "fact" and e[1] in (("truth", STACK), ("truth", ("len", STACK))) and not e[2] for e in p.events[c.i:]) or \
                    any(e[0] == "enditer" for e in p.events[c.i:])
                if not later:
                    ctx.bad(f, "stops before the choicepoint was found", path=p, sub="early")
        # removing something else than a popped entry
        for i, d in dels:
            if d not in [c.res for c in pops]:
                ctx.bad(f, "unbinds something that was not on the trail", path=p, sub="scope")
        if not pops:
            empty = p.fact(("truth", STACK)) is False or p.fact(("truth", ("len", STACK))) is False
            if not empty:
                ctx.bad(f, "returns without undoing anything although the trail may not be empty", path=p, sub="early")
    if not unbound:
        ctx.bad(f, "no binding is ever undone", sub="unbind")
    if not stopped:
        ctx.bad(f, "never stops at a choicepoint", sub="stop")


# ----------------------------------------------------------- evaluation

@rule("deref", "P02 P03", floor=4)
def deref(ctx):
    """Dereferencing follows bindings to the end; evaluating a variable gives the evaluated value it is bound to."""
    f = ctx.prog.func(M + "deref")
    steps = False
    for p in rets(ctx.paths(f)):
        ctx.ob()
        v = p.val
        last = p.fact(("in", v, SCOPE))
        rec = is_call(v, "deref") and any(c.res == v and c.args[0] == ("i", SCOPE, TERM) for c in p.calls_to("deref"))
        steps = steps or rec or (v[0] == "i" and v[1] == SCOPE)
        if not rec and last is not False and "KeyError" not in excepts(p):
            ctx.bad(f, "returns a variable that may be bound", path=p)
        base = v
        while base[0] == "i" and base[1] == SCOPE:
            base = base[2]
        if not rec and base != TERM and base[0] != "phi":
            ctx.bad(f, "returns something that is not the value of the term", path=p)
    if not steps:
        ctx.bad(f, "bindings are never followed")
    g = ctx.prog.func(M + "evaluate")
    for p in rets(ctx.paths(g)):
        ctx.ob()
        h = p.fact(("hasattr", TERM, "evaluate"))
        if h and not is_call(p.val, "evaluate", (TERM, SCOPE)):
            ctx.bad(g, "an expression or variable is not evaluated", path=p)
        if h is False and p.val != TERM:
            ctx.bad(g, "changes a term that needs no evaluation", path=p)
        if h is None and "AttributeError" not in excepts(p) and not is_call(p.val, "evaluate", (TERM, SCOPE)):
            ctx.bad(g, "does not evaluate", path=p)
    g = ctx.prog.func(M + "Var.evaluate")
    for p in rets(ctx.paths(g)):
        ctx.ob()
        b = p.fact(("in", SELF, SCOPE))
        if b and not any(is_call(p.val, "evaluate") and c.res == p.val and deref_of(c.args[0], SELF, SCOPE) and c.args[1] == SCOPE
                         for c in p.calls_to("evaluate")):
            ctx.bad(g, "a bound variable does not evaluate to its value", path=p)
        if b is False and p.val != SELF:
            ctx.bad(g, "an unbound variable does not evaluate to itself", path=p)
        if b is None:
            ctx.bad(g, "does not look whether the variable is bound", path=p)


# ------------------------------------------------ freeze, grounded, is_ground

@rule("walkers-dispatch", "P03", floor=9)
def walkers_dispatch(ctx):
    """freeze(), grounded() and is_ground() ask terms that know themselves, go through every element of a list,
    and leave plain values alone."""
    for name, extra in (("freeze", (SCOPE, MEMO)), ("grounded", (SCOPE,)), ("is_ground", (SCOPE,))):
        f = ctx.prog.func(M + name)
        looped = False
        for p in rets(ctx.paths(f)):
            ctx.ob()
            h = p.fact(("hasattr", TERM, name))
            if h:
                if not is_call(p.val, name, (TERM,) + extra):
                    ctx.bad(f, "a term with its own %s is not asked" % name, path=p, sub="delegate")
                continue
            if h is None:
                ctx.bad(f, "does not ask the term for its own %s" % name, path=p, sub="delegate")
                continue
            t = typefact(p, TERM, TUPLE)
            if t is None:
                ctx.bad(f, "lists are not told from plain values", path=p, sub="list")
            elif not t:
                if p.val != (TRUE if name == "is_ground" else TERM):
                    ctx.bad(f, "changes a plain value", path=p, sub="plain")
            elif name == "is_ground":
                ls = walked(p, TERM)
                looped = looped or any(l["iters"] for _, l in ls)
                check_all(ctx, f, p, name, TERM, extra)
            else:
                vals = mapped(p, p.val, TERM)
                if vals is None or not (p.val[0] == "conv" and p.val[1] == "tuple"):
                    ctx.bad(f, "does not rebuild the list from all its elements", path=p, sub="list")
                else:
                    for v in vals:
                        looped = True
                        if not any(is_call(v, name) and c.res == v and is_elem(c.args[0], TERM) and c.args[1:] == extra
                                   for c in p.calls_to(name)):
                            ctx.bad(f, "an element of the list is copied without %s" % name, path=p, sub="element")
        if not looped:
            ctx.bad(f, "the elements of a list are never visited", sub="element")


def check_all(ctx, f, p, name, coll, extra):
    """A conjunction over all elements: true only after all were visited and true, false only after one was false."""
    if p.val == FALSE or failed(p):
        if not any_false(p, name):
            ctx.bad(f, "says no although no part said no", path=p, sub="false")
        return
    good = [l for _, l in walked(p, coll) if l["exhausted"] is not None]
    if not good:
        ctx.bad(f, "says yes before all parts of %s were looked at" % show(coll), path=p, sub="true")
        return
    for l in good:
        for a, b in l["iters"]:
            if not any(a < c.i < b and is_elem(c.args[0], coll) and c.args[1:] == extra for c in true_calls(p, name)):
                ctx.bad(f, "says yes although a part of %s was not asked" % show(coll), path=p, sub="true")


@rule("walkers-var", "P03", floor=6)
def walkers_var(ctx):
    """Variables: bound ones are walked through their value; unbound ones are renamed consistently through the
    memo, are not ground, and cannot be made ground."""
    f = ctx.prog.func(M + "Var.freeze")
    for p in rets(ctx.paths(f)):
        ctx.ob()
        v = p.val
        inm, ins = p.fact(("in", SELF, MEMO)), p.fact(("in", SELF, SCOPE))
        got = ("i", MEMO, SELF)
        if v == got or (v[0] == "call" and v[1] == ("a", MEMO, "get")):
            if inm is False:
                ctx.bad(f, "uses a memo entry that does not exist", path=p)
            continue
        if is_call(v, "freeze"):
            if not any(c.res == v and deref_of(c.args[0], SELF, SCOPE) and c.args[1:] == (SCOPE, MEMO) for c in p.calls_to("freeze")):
                ctx.bad(f, "does not freeze the value of the variable with the same memo", path=p, sub="value")
            elif ins is not True:
                ctx.bad(f, "freezes the value of a variable that may be unbound", path=p, sub="value")
            continue
        n = new_fields(p, v)
        if not n or n[1] != M + "Var":
            ctx.bad(f, "an unbound variable is not replaced by a fresh variable", path=p, sub="fresh")
            continue
        st = [e for i, e in p.find("setitem") if e[1] == MEMO and e[2] == SELF and e[3] == v]
        known = inm is False or "KeyError" in excepts(p) or any(
            pr[0] == "is" and NONE in pr[1:] and pol and any(x[0] == "call" and x[1] == ("a", MEMO, "get") for x in pr[1:])
            for pr, pol, _ in p.facts())
        sd = any(c.recv == MEMO and c.name == "setdefault" for c in p.calls)
        if not sd and not st:
            ctx.bad(f, "the fresh variable is not remembered: two occurrences become different variables", path=p, sub="memo")
        if not sd and not known:
            ctx.bad(f, "a variable seen before gets another fresh variable", path=p, sub="memo")
        if ins is not False:
            ctx.bad(f, "a bound variable may be renamed instead of replaced by its value", path=p, sub="bound")
    for name in ("grounded", "is_ground"):
        g = ctx.prog.func(M + "Var." + name)
        for p in ctx.paths(g):
            ctx.ob()
            ins = p.fact(("in", SELF, SCOPE))
            if ins is None:
                ctx.bad(g, "does not look whether the variable is bound", path=p)
            elif ins:
                if p.kind != "return" or not any(c.res == p.val and deref_of(c.args[0], SELF, SCOPE) and c.args[1:] == (SCOPE,)
                                                 for c in p.calls_to(name)):
                    ctx.bad(g, "does not ask the value of a bound variable", path=p)
            elif name == "grounded" and not (p.kind == "raise" and aslerror(p)):
                ctx.bad(g, "an unbound variable passes as ground", path=p)
            elif name == "is_ground" and p.val != FALSE:
                ctx.bad(g, "an unbound variable passes as ground", path=p)
        w = ctx.prog.find_method(M + "Wildcard", name)
        for p in ctx.paths(w):
            ctx.ob()
            ins = p.fact(("in", SELF, SCOPE))
            if ins:
                continue
            if name == "grounded" and not (p.kind == "raise" and aslerror(p)) or name == "is_ground" and p.val != FALSE:
                ctx.bad(w, "a wildcard passes as ground", path=p)


def aslerror(p):
    return p.val and any(t and t[0] in ("new", "g") and t[1] == M + "AslError" for t in subterms(p.val))


@rule("walkers-structures", "P03", floor=10)
def walkers_structures(ctx):
    """freeze, grounded and is_ground of literals, linked lists and expressions reach every argument, annotation,
    head, tail and operand with the same scope and memo."""
    lit = M + "Literal"
    for name, extra in (("freeze", (SCOPE, MEMO)), ("grounded", (SCOPE,))):
        f = need_method(ctx, lit, name)
        if f:
            hits = set()
            for p in rets(ctx.paths(f)):
                ctx.ob()
                n = new_fields(p, p.val)
                if not n or n[1] != lit or len(n[2]) < 3:
                    ctx.bad(f, "the result is not a new literal", path=p, sub="literal")
                    continue
                if n[2][0] != A(SELF, "functor"):
                    ctx.bad(f, "the functor is not kept", path=p, sub="functor")
                for field, arg in (("args", n[2][1]), ("annots", n[2][2])):
                    vals = mapped(p, arg, A(SELF, field))
                    if vals is None and is_call(strip_conv(arg), name) and any(
                            c.res == strip_conv(arg) and strip_conv(c.args[0]) == A(SELF, field) and
                            (c.args[0] == A(SELF, field) or c.args[0][:2] == ("conv", "tuple")) and
                            (field == "args" or c.args[0][:2] == ("conv", "tuple")) and c.args[1:] == extra for c in p.calls_to(name)):
                        hits.add(field)
                        continue
                    if vals is None:
                        ctx.bad(f, "not every element of %s is carried over" % field, path=p, sub=field)
                        continue
                    for v in vals:
                        hits.add(field)
                        if not any(c.res == v and is_elem(c.args[0], A(SELF, field)) and c.args[1:] == extra for c in p.calls_to(name)):
                            ctx.bad(f, "an element of %s is carried over without %s in the same scope" % (field, name), path=p, sub=field)
            for field in ("args", "annots"):
                if field not in hits:
                    ctx.bad(f, "the elements of %s are never visited" % field, sub=field)
        g = need_method(ctx, M + "LinkedList", name)
        if g:
            for p in rets(ctx.paths(g)):
                ctx.ob()
                n = new_fields(p, p.val)
                if not n or n[1] != M + "LinkedList":
                    ctx.bad(g, "the result is not a linked list", path=p, sub="list")
                    continue
                for field, arg in (("head", n[2][0]), ("tail", n[2][1])):
                    if not any(c.res == arg and c.args == (A(SELF, field),) + extra for c in p.calls_to(name)):
                        ctx.bad(g, "the %s is not carried over by %s in the same scope" % (field, name), path=p, sub=field)
        for cls in EXPRS:
            h = need_method(ctx, cls, name)
            for p in rets(ctx.paths(h)) if h else ():
                ctx.ob()
                if not any(c.res == p.val and is_call(c.args[0], "evaluate", (SELF, SCOPE)) and c.args[1:] == extra
                           for c in p.calls_to(name)):
                    ctx.bad(h, "the result is not the %s value of the expression" % name, path=p)
    # is_ground
    f = need_method(ctx, lit, "is_ground")
    if f:
        ps = rets(ctx.paths(f))
        for field in ("args", "annots"):
            coll = A(SELF, field)
            seen = False
            for p in ps:
                ctx.ob()
                if succeeded(p):
                    check_all(ctx, f, p, "is_ground", coll, (SCOPE,))
                    seen = seen or any(l["iters"] for _, l in walked(p, coll))
                elif not any_false(p, "is_ground"):
                    ctx.bad(f, "says no although no part said no", path=p, sub="false")
            if not seen:
                ctx.bad(f, "the elements of %s are never asked" % field, sub=field)
    for cls, fields in ((M + "LinkedList", ("head", "tail")), (EXPRS[0], ("operand",)), (EXPRS[1], ("left", "right"))):
        g = need_method(ctx, cls, "is_ground")
        for p in rets(ctx.paths(g)) if g else ():
            ctx.ob()
            asked = [c.args[0] for c in true_calls(p, "is_ground") if c.args[1:] == (SCOPE,)]
            if succeeded(p):
                for x in fields:
                    if A(SELF, x) not in asked and not any(is_elem(t, ("tuple", tuple(A(SELF, y) for y in fields))) for t in asked):
                        ctx.bad(g, "says yes although the %s was not asked" % x, path=p, sub=x)
            elif not any_false(p, "is_ground"):
                ctx.bad(g, "says no although no part said no", path=p, sub="false")


def need_method(ctx, cls, name):
    f = ctx.prog.find_method(ctx.prog.cls(cls).qual, name)
    if f is None:
        ctx.bad(cls, "%s has no %s: such terms are taken as they are" % (cls.rsplit(".", 1)[-1], name), sub=name)
    return f


@rule("match-trail", "P01 P02", floor=12)
def match_trail(ctx):
    """The enumerating match takes back what it has bound before it ends: every attempt on the scope it is given that
    has not ended by itself is followed by a reroll to a choice point set before it; nothing is tried or handed on after
    a failed attempt whose bindings are still there, and what is handed on is in force."""
    for q in (M + "Literal.unify_annotated", M + "unify_annotated"):
        f = ctx.prog.func(q)
        tried = 0
        for p in rets(ctx.paths(f)):
            ctx.ob()
            attempts = []
            for c in p.calls_to("unify", "unify_annotated"):
                if len(c.args) < 3 or c.args[-2:] != (SCOPE, STACK):
                    continue
                ls = [(lid, l) for lid, l in loops(p).items() if l["src"] == c.res]
                if ls and all(l["exhausted"] is not None for _, l in ls):
                    continue        # it has ended, and takes back its own bindings
                if c.name == "unify_annotated" and not ls and p.val == c.res:
                    continue        # handed on as it is
                attempts.append((c, hit(p, c)))
            ps = [c for c in p.calls if c.recv == STACK and c.name == "append" and len(c.args) == 1]
            rs = [c for c in p.calls_to("reroll") if c.args[:2] == (SCOPE, STACK) and len(c.args) == 3]
            ys = [y[0] for y in p.yields()]

            def undone(c, before):
                return any(c.i < r.i < before and any(x.i < c.i and x.args[0] == r.args[2] for x in ps) for r in rs)
            end = len(p.events) + 1
            for c, ok in attempts:
                tried += 1
                if not undone(c, end):
                    ctx.bad(f, "ends with the bindings of an attempt still there", c.node, p, "undo")
                if ok is False:
                    later = [d.i for d, _ in attempts if d.i > c.i] + [y for y in ys if y > c.i]
                    if later and not undone(c, min(later)):
                        ctx.bad(f, "goes on with the bindings of a failed attempt", c.node, p, "failed")
                for y in ys:
                    if c.i < y and ok is not False and undone(c, y) and not any(d.i > c.i and d.i < y and k is not False for d, k in attempts):
                        ctx.bad(f, "a match is handed on when its bindings are already undone", c.node, p, "early")
        if not tried:
            ctx.bad(f, "binds nothing", sub="none")


KINDS = {
    "true": {"builtins.bool", "builtins.int", "numbers.Number", "numbers.Complex", "numbers.Real", "numbers.Rational",
             "numbers.Integral", "builtins.object"},
    "false": {"builtins.bool", "builtins.int", "numbers.Number", "numbers.Complex", "numbers.Real", "numbers.Rational",
              "numbers.Integral", "builtins.object"},
    "an integer": {"builtins.int", "numbers.Number", "numbers.Complex", "numbers.Real", "numbers.Rational", "numbers.Integral",
                   "builtins.object"},
    "a float": {"builtins.float", "numbers.Number", "numbers.Complex", "numbers.Real", "builtins.object"},
    "a string": {"builtins.str", "builtins.object"},
    "a tuple": {"builtins.tuple", "builtins.object"},
    "a linked list": {M + "LinkedList", "builtins.object"},
    "a literal": {M + "Literal", "builtins.object"},
    "a variable": {M + "Var", "builtins.object"},
}
EXACT = {"true": "builtins.bool", "false": "builtins.bool", "an integer": "builtins.int", "a float": "builtins.float", "a string": "builtins.str",
         "a tuple": "builtins.tuple", "a linked list": M + "LinkedList", "a literal": M + "Literal", "a variable": M + "Var"}
OF_KIND = {
    "is_number": {"an integer", "a float"},
    "is_string": {"a string"},
    "is_list": {"a tuple", "a linked list"},
    "is_literal": {"a literal"},
    "is_structure": {"a tuple", "a linked list", "a literal"},
}


def _holds(pred, term, kind):
    """Whether the fact holds of a term of the kind: True, False, "either" (it depends on the value), None (unknown)."""
    sup = KINDS[kind]
    if pred[0] == "isinst" and pred[1] == term:
        known = set().union(*KINDS.values()) | set(EXACT.values()) | {"collections.abc.Sequence", "builtins.list", "builtins.complex"}
        if set(pred[2]) & sup:
            return True
        return False if set(pred[2]) <= known and not set(pred[2]) & {"collections.abc.Sequence"} else None
    if pred[0] in ("is", "eq"):
        t = ("call", ("g", "builtins.type"), (term,))
        for x, y in ((pred[1], pred[2]), (pred[2], pred[1])):
            if x[:3] == t and y[0] == "g":
                return y[1] == EXACT[kind]
            if x == term and y in (TRUE, FALSE):
                return kind == ("true" if y == TRUE else "false")
            if x == term and y == NONE:
                return False
            if x == term and y[0] == "c":
                return "either" if kind in ("an integer", "a float", "a string") else None
        return None
    if pred[0] == "lt" and term in pred[1:] and any(x[0] == "c" for x in pred[1:]):
        return "either" if kind in ("an integer", "a float") else None
    if pred[0] == "truth":
        return _value(pred[1], term, kind)
    return None


def _value(v, term, kind):
    if v in (TRUE, FALSE):
        return v == TRUE
    if v == term:
        return kind != "false" if kind in ("a linked list", "a literal", "a variable", "true", "false") else "either"
    if v[0] == "call" and v[1][0] == "g" and v[1][1].startswith(M) and v[1][1][len(M):] in OF_KIND and v[2][:1] == (term,):
        return kind in OF_KIND[v[1][1][len(M):]]
    if v[0] == "not":
        r = _value(v[1], term, kind)
        return r if r in (None, "either") else not r
    return None


@rule("kind-predicates", "P27 P24 P10", floor=45)
def kind_predicates(ctx):
    """is_number, is_string, is_list, is_literal and is_structure answer yes for exactly the terms of their kind: every path
    a term of a kind can take (by its class) answers what the kind asks for."""
    for name, yes in sorted(OF_KIND.items()):
        f = ctx.prog.func(M + name)
        term = param(f.node.args.args[0].arg)
        for kind in sorted(KINDS):
            ctx.ob()
            for p in ctx.paths(f):
                if p.kind != "return":
                    continue
                held = [(_holds(pred, term, kind), pol) for pred, pol, i in p.facts()]
                if any(h is None or (h != "either" and h != pol) for h, pol in held):
                    continue
                got = _value(p.val, term, kind)
                if got is None:
                    continue
                if got == "either" or got != (kind in yes):
                    ctx.bad(f, "%s %s" % ("takes" if kind not in yes else "does not always take",
                                          kind + " for " + name[3:].replace("_", " ")), path=p, sub=kind)

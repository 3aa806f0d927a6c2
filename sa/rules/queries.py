"""Queries: solutions of every query form, choicepoint discipline."""
from ..core import rule, A, G, AnalysisBroken
from ..flow import NONE, TRUE, FALSE, const, show, subterms
from ..pat import *
from .terms import rets, need_method, M

SC, ST = A(INTENTION, "scope"), A(INTENTION, "stack")


def each_yields(ctx, f, p, lid, l, what, sub):
    """Every solution of the loop is handed on exactly once."""
    for a, b in l["iters"]:
        n = [i for i, v, _ in p.yields() if a < i < b]
        if not n:
            ctx.bad(f, "a solution of %s is not handed on" % what, path=p, sub=sub)
        elif len(n) > 1:
            ctx.bad(f, "a solution of %s is handed on more than once" % what, path=p, sub=sub)
    if l["exhausted"] is None and p.kind == "return":
        ctx.bad(f, "stops before all solutions of %s were asked for" % what, path=p, sub=sub)


def only_yields_in(ctx, f, p, ls, what):
    for i, v, _ in p.yields():
        if not any(inside(l, i) is not None for _, l in ls):
            ctx.bad(f, "gives a solution that no %s gave" % what, path=p, sub="invented")


@rule("query-constants", "P14", floor=2)
def query_constants(ctx):
    """The query true has exactly one solution, the query false has none; neither touches a binding."""
    for cls, n in (("TrueQuery", 1), ("FalseQuery", 0)):
        f = ctx.prog.func(R_ + cls + ".execute")
        for p in ctx.paths(f):
            ctx.ob()
            if len(p.yields()) != n or p.kind != "return" or p.val != NONE:
                ctx.bad(f, "has not exactly %d solutions" % n, path=p)
            if p.calls:
                ctx.bad(f, "does something besides answering", path=p, sub="effect")


@rule("query-and", "P14 P01", floor=3)
def query_and(ctx):
    """A conjunction gives, for every solution of its left side, every solution of its right side, computed while
    the left solution is in force."""
    f = ctx.prog.func(R_ + "AndQuery.execute")
    L, R = A(SELF, "left"), A(SELF, "right")
    full = False
    for p in ctx.paths(f):
        ctx.ob()
        left = loops_over(p, lambda s: is_execute(s, L))
        right = loops_over(p, lambda s: is_execute(s, R))
        if len(left) != 1:
            ctx.bad(f, "does not ask the left side exactly once", path=p, sub="left")
            continue
        ll = left[0][1]
        if ll["exhausted"] is None:
            ctx.bad(f, "stops before all solutions of the left side were asked for", path=p, sub="left")
        for a, b in ll["iters"]:
            inner = [(i, l) for i, l in right if a < l["start"] < b]
            if len(inner) != 1:
                ctx.bad(f, "does not ask the right side once for a solution of the left side", path=p, sub="right")
            for i, l in inner:
                call = [c for c in p.calls if c.res == l["src"]]
                if not call or not a < call[0].i < b:
                    ctx.bad(f, "the right side is started before the left solution is in force", path=p, sub="right")
                each_yields(ctx, f, p, i, l, "the conjunction", "yield")
                full = full or bool(l["iters"])
        only_yields_in(ctx, f, p, right, "right side")
    if not full:
        ctx.bad(f, "no solution of the conjunction is ever handed on", sub="yield")


@rule("query-or", "P14", floor=3)
def query_or(ctx):
    """A disjunction gives every solution of its left side and then every solution of its right side."""
    f = ctx.prog.func(R_ + "OrQuery.execute")
    seen = set()
    for p in ctx.paths(f):
        ctx.ob()
        sides = []
        for name in ("left", "right"):
            ls = loops_over(p, lambda s: is_execute(s, A(SELF, name)))
            if len(ls) != 1:
                ctx.bad(f, "does not ask the %s side exactly once" % name, path=p, sub=name)
                continue
            each_yields(ctx, f, p, ls[0][0], ls[0][1], "the %s side" % name, name)
            if ls[0][1]["iters"]:
                seen.add(name)
            sides += ls
        if len(sides) == 2:
            e, s = sides[0][1]["exhausted"], sides[1][1]["start"]
            if e is not None and s < e:
                ctx.bad(f, "the right side is asked before the left side is done", path=p, sub="order")
        only_yields_in(ctx, f, p, sides, "side")
    for name in ("left", "right"):
        if name not in seen:
            ctx.bad(f, "no solution of the %s side is ever handed on" % name, sub=name)


def pushes(p, stack):
    return [c for c in p.calls if c.recv == stack and c.name == "append" and len(c.args) == 1]


def rerolls(p, scope, stack):
    return [c for c in p.calls_to("reroll") if c.args[:2] == (scope, stack) and len(c.args) == 3]


@rule("query-not", "P14 P01", floor=2)
def query_not(ctx):
    """A negation has exactly one solution if its operand has none and none otherwise, and in both cases leaves
    every binding as it was."""
    f = ctx.prog.func(R_ + "NotQuery.execute")
    Q = A(SELF, "query")
    for p in ctx.paths(f):
        ctx.ob()
        ls = loops_over(p, lambda s: is_execute(s, Q))
        calls = [c for c in p.calls if is_execute(c.res, Q)]
        nexts = [c for c in p.calls if c.name == "next" and c.args and is_execute(strip_conv(c.args[0]), Q)]
        found = None
        if ls:
            found = bool(ls[0][1]["iters"])
        elif nexts:
            n = nexts[0]
            found = n.res[0] == "elem" if "StopIteration" not in excepts(p) else False
            for pr, pol, i in p.facts():
                if pr[0] == "more":
                    found = pol
        if len(calls) != 1 or found is None:
            ctx.bad(f, "does not ask the negated query exactly once", path=p, sub="ask")
            continue
        ys = p.yields()
        if p.kind != "return":
            ctx.bad(f, "ends with an error", path=p, sub="error")
        if found and ys:
            ctx.bad(f, "succeeds although the negated query has a solution", path=p, sub="found")
        if not found and len(ys) != 1:
            ctx.bad(f, "does not succeed exactly once although the negated query has no solution", path=p, sub="none")
        ps = [c for c in pushes(p, ST) if c.i < calls[0].i]
        rs = [c for c in rerolls(p, SC, ST) if c.i > calls[0].i and any(c.args[2] == q.args[0] for q in ps)]
        after = [c for c in rs if all(c.i > n.i for n in nexts) and all(c.i > l["start"] for _, l in ls)]
        if not after:
            ctx.bad(f, "bindings made by the negated query are not undone", path=p, sub="undo")
        elif ys and after[0].i > ys[0][0]:
            ctx.bad(f, "bindings made by the negated query are in force while its solution is used", path=p, sub="undo")


@rule("query-action", "P14 P01 P22", floor=2)
def query_action(ctx):
    """An action in a query gives each of its solutions once, gets the querying agent, its own term and the
    intention, and its bindings are undone after its last solution."""
    f = ctx.prog.func(R_ + "ActionQuery.execute")
    want = (AGENT, A(SELF, "term"), INTENTION)
    some = False
    for p in ctx.paths(f):
        ctx.ob()
        ls = loops_over(p, lambda s: s[0] == "call" and s[1] == A(SELF, "impl"))
        if len(ls) != 1:
            ctx.bad(f, "does not run the action exactly once", path=p, sub="run")
            continue
        lid, l = ls[0]
        if l["src"][2] != want:
            ctx.bad(f, "the action does not get the agent, its term and the intention", path=p, sub="args")
        each_yields(ctx, f, p, lid, l, "the action", "yield")
        some = some or bool(l["iters"])
        only_yields_in(ctx, f, p, ls, "action")
        ps = [c for c in pushes(p, ST) if c.i < l["start"]]
        rs = [c for c in rerolls(p, SC, ST) if l["exhausted"] is not None and c.i > l["exhausted"] and
              any(c.args[2] == q.args[0] for q in ps)]
        if not rs:
            ctx.bad(f, "bindings made by the action are not undone after its last solution", path=p, sub="undo")
        call = [c for c in p.calls if c.res == l["src"]]
        if call and not any(q.i < call[0].i for q in ps):
            # a generator only runs on its first next, so the push may follow the call
            if not ps:
                ctx.bad(f, "no choicepoint before the action", path=p, sub="undo")
        early = [c for c in rerolls(p, SC, ST) if l["exhausted"] is None or c.i < l["exhausted"]]
        if early:
            ctx.bad(f, "bindings of the action are undone while it is still running", path=p, sub="early")
    if not some:
        ctx.bad(f, "no solution of the action is ever handed on", sub="yield")


@rule("query-term", "P14 P01 P04 P23", floor=8)
def query_term(ctx):
    """A query for a literal first gives every match with a belief of the same functor and arity, then, rule by
    rule in order, every solution of the body of a renamed copy of each rule whose head unifies; boolean values
    answer for themselves and anything else is an error."""
    f = ctx.prog.func(R_ + "TermQuery.execute")
    seen = set()
    for p in ctx.paths(f):
        ctx.ob()
        ev = [c.res for c in p.calls_to("evaluate") if c.args == (A(SELF, "term"), SC)]
        if not ev:
            ctx.bad(f, "does not evaluate the term in the scope of the intention", path=p, sub="evaluate")
            continue
        T = ev[0]

        def isbool(c):
            for pr in (("is", c, T), ("is", T, c), ("eq", c, T), ("eq", T, c)):
                v = p.fact(pr)
                if v is not None:
                    return v
            tb = typefact(p, T, "builtins.bool")
            if tb is False:
                return False
            if tb is True:
                t = p.fact(("truth", T))
                if t is not None:
                    return t is (c == TRUE)
            return None
        it, if_ = isbool(TRUE), isbool(FALSE)
        if it or if_:
            seen.add("true" if it else "false")
            if len(p.yields()) != (1 if it else 0) or p.kind != "return":
                ctx.bad(f, "a true value is not exactly one solution" if it else "a false value is a solution", path=p, sub="bool")
            if loops(p):
                ctx.bad(f, "a truth value is looked up as a belief", path=p, sub="bool")
            continue
        if it is None or if_ is None:
            ctx.bad(f, "truth values are not set apart from literals", path=p, sub="bool")
            continue
        if p.kind == "raise":
            seen.add("error")
            if not aslerr(p.val):
                ctx.bad(f, "something that is no literal is not reported as an error of the program", path=p, sub="error")
            if p.yields():
                ctx.bad(f, "gives solutions and then fails", path=p, sub="error")
            continue
        if p.kind != "return":
            continue
        G_ = grp(T)
        bl = loops_over(p, lambda s: is_lookup(copied(s), A(AGENT, "beliefs"), G_))
        rl = loops_over(p, lambda s: is_lookup(copied(s), A(AGENT, "rules"), G_))
        if len(bl) != 1 or bl[0][1]["exhausted"] is None:
            ctx.bad(f, "does not go through all beliefs with the functor and arity of the query", path=p, sub="beliefs")
            continue
        if len(rl) != 1 or rl[0][1]["exhausted"] is None:
            ctx.bad(f, "does not go through all rules with the functor and arity of the query", path=p, sub="rules")
            continue
        b, r = bl[0][1], rl[0][1]
        if r["start"] < b["exhausted"]:
            ctx.bad(f, "rules are asked before the beliefs", path=p, sub="order")
        good = []
        for a, z in b["iters"]:
            e = p.events[a][2]
            gl = [(i, l) for i, l in loops(p).items() if a < l["start"] < z and l["src"] is not None and
                  is_call(l["src"], "unify_annotated", (T, e, SC, ST))]
            if len(gl) != 1:
                ctx.bad(f, "a belief is not matched against the query, annotations included", path=p, sub="belief")
                continue
            good += gl
            each_yields(ctx, f, p, gl[0][0], gl[0][1], "the belief base", "belief")
            if gl[0][1]["iters"]:
                seen.add("belief")
        for a, z in r["iters"]:
            e = p.events[a][2]
            cp = [c.res for c in p.calls if a < c.i < z and c.name in ("deepcopy",) and c.args and c.args[0] == e]
            us = [c for c in p.calls_to("unify", "unify_annotated") if a < c.i < z]
            if len(cp) < 1:
                ctx.bad(f, "the variables of a rule are not renamed before it is used", path=p, sub="rename")
                continue
            C = cp[0]
            us = [c for c in us if c.args == (T, A(C, "head"), SC, ST)]
            if len(us) != 1:
                ctx.bad(f, "the query is not unified with the head of the renamed rule", path=p, sub="head")
                continue
            u = us[0]
            ok = p.fact(("truth", u.res))
            ex = [(i, l) for i, l in loops(p).items() if a < l["start"] < z and l["src"] is not None and
                  is_execute(l["src"], A(C, "query"))]
            other = [(i, l) for i, l in loops(p).items() if a < l["start"] < z and l["src"] is not None and
                     l["src"][0] == "call" and l["src"][1][0] == "a" and l["src"][1][2] == "execute" and (i, l) not in ex]
            if other:
                ctx.bad(f, "the body of the original rule is used instead of its renamed copy", path=p, sub="rename")
            if ok and len(ex) != 1:
                ctx.bad(f, "the body of a rule whose head unifies is not asked exactly once", path=p, sub="body")
            if not ok and ex:
                ctx.bad(f, "the body of a rule is asked although its head did not unify", path=p, sub="body")
            for i, l in ex:
                good.append((i, l))
                each_yields(ctx, f, p, i, l, "the rule body", "body")
                if l["iters"]:
                    seen.add("rule")
            ps = [c for c in pushes(p, ST) if a < c.i < u.i]
            rs = [c for c in rerolls(p, SC, ST) if u.i < c.i < z and any(q.args[0] == c.args[2] for q in ps) and
                  all(l["exhausted"] is not None and c.i > l["exhausted"] for _, l in ex)]
            if not rs:
                ctx.bad(f, "bindings made by trying a rule are not undone before the next one", path=p, sub="undo")
        only_yields_in(ctx, f, p, good, "belief or rule")
    for k, t in (("true", "true is never a solution"), ("belief", "beliefs never answer a query"),
                 ("rule", "rules never answer a query"), ("error", "something that is no literal is not an error")):
        if k not in seen:
            ctx.bad(f, t, sub=k)


def copied(s):
    s = strip_conv(s)
    while s[0] == "call" and (s[1][0] == "a" and s[1][2] == "copy" or s[1] == ("g", "copy.copy")):
        s = strip_conv(s[1][1] if s[1][0] == "a" else s[2][0])
    return s


def is_lookup(v, coll, keys):
    if v[0] == "i" and v[1] == coll:
        return v[2] in keys
    if v[0] == "call" and v[1] == ("a", coll, "get"):
        return v[2][0] in keys
    return False


def aslerr(v, names=("agentspeak.AslError",)):
    return v and any(t and t[0] in ("new", "g") and len(t) > 1 and t[1] in names for t in subterms(v)) or \
        (v and v[0] == "call" and v[1][0] == "a" and v[1][2] in ("error", "exception"))


@rule("query-unify", "P14", floor=1)
def query_unify(ctx):
    """A unification in a query gives the solutions of unifying its two sides in the scope of the intention."""
    f = ctx.prog.func(R_ + "UnifyQuery.execute")
    want = (A(SELF, "left"), A(SELF, "right"), SC, ST)
    for p in ctx.paths(f):
        ctx.ob()
        if p.val is not None and is_call(p.val, "unify_annotated", want):
            continue
        ls = loops_over(p, lambda s: is_call(s, "unify_annotated", want))
        if len(ls) != 1:
            ctx.bad(f, "does not unify its two sides", path=p)
            continue
        each_yields(ctx, f, p, ls[0][0], ls[0][1], "the unification", "yield")
        only_yields_in(ctx, f, p, ls, "unification")

"""Library actions, messages, the action registry."""
import ast

from ..core import rule, A, G, AnalysisBroken, KNOWN, param
from ..flow import NONE, TRUE, FALSE, const, show, subterms
from ..pat import *
from .terms import rets, M
from .queries import pushes, rerolls, copied, is_lookup, aslerr, each_yields
from .agents import private, action_func, truthy, eqf, ADD, REM, GOALS, INTENTIONS, AG

SC, ST = A(INTENTION, "scope"), A(INTENTION, "stack")
ARGS = A(TERM, "args")


def argn(k, arity=None):
    """Ways to write the k-th argument of the action's term."""
    out = {("i", ARGS, const(k))}
    if arity is not None:
        out.add(("i", ARGS, const(k - arity)))
    return out


def taken(p, v, k, arity=None, how=("grounded",)):
    """Is v the k-th argument, taken by one of the functions `how` in the scope of the intention?"""
    for h in how:
        for a in argn(k, arity):
            if is_call(v, h, (a, SC)) or v[0] == "call" and is_call(v, h) and len(v[2]) == 3 and v[2][:2] == (a, SC):
                return True
    if v[0] == "i" and v[2] in (const(k), const(k - arity) if arity else None):
        vals = mapped_values(p, v[1], ARGS)
        return vals is not None and all(taken_elem(x, how) for x in vals)
    return False


def taken_elem(x, how):
    return x[0] == "call" and any(is_call(x, h) for h in how) and len(x[2]) >= 2 and x[2][0][0] == "elem" and \
        strip_conv(x[2][0][1]) == ARGS and x[2][1] == SC


def mapped_values(p, val, coll):
    v = mapped(p, val, coll)
    return v


def unifs(p, a=0, b=None):
    return [c for c in p.calls_to("unify", "unify_annotated") if a < c.i < (len(p.events) if b is None else b)]


def unify_with(c, arg, test):
    """Does the unify call c unify the argument with a value that passes the test, in this intention?"""
    if len(c.args) != 4 or c.args[2:] != (SC, ST):
        return False
    return c.args[0] in arg and test(c.args[1]) or c.args[1] in arg and test(c.args[0])


def answers(ctx, f, p, arg, test, what, sub="result"):
    """The action ends by unifying one value with its argument: one solution if that succeeds, none otherwise."""
    us = [c for c in unifs(p) if c.args[0] in arg or c.args[1] in arg]
    if p.kind != "return":
        return None
    if len(us) != 1:
        ctx.bad(f, "does not unify %s with its argument exactly once" % what, path=p, sub=sub)
        return None
    u = us[0]
    if not unify_with(u, arg, test):
        ctx.bad(f, "what is unified with the argument is not %s" % what, u.node, p, sub)
        return None
    ok = hit(p, u)
    n = [i for i, v, _ in p.yields() if i > u.i]
    if len(p.yields()) != (1 if ok else 0) or ok and not n:
        ctx.bad(f, "does not succeed exactly once if and only if %s unifies" % what, path=p, sub=sub)
    if [c for c in rerolls(p, SC, ST) if c.i > u.i]:
        ctx.bad(f, "the binding of the result is undone", path=p, sub=sub)
    return ok


# ------------------------------------------------------------ enumeration

def enumerate_rule(ctx, f, arg, is_source, is_value, what):
    """Every element of the source is unified with the argument in turn, each with its own choicepoint."""
    ok_seen = False
    for p in ctx.paths(f):
        if p.kind != "return":
            continue
        ctx.ob()
        ls = loops_over(p, is_source)
        if len(ls) != 1 or ls[0][1]["exhausted"] is None:
            ctx.bad(f, "does not go through all %s" % what, path=p, sub="source")
            continue
        l = ls[0][1]
        for a, b in l["iters"]:
            e = p.events[a][2]
            us = unifs(p, a, b)
            if len(us) != 1 or not unify_with(us[0], arg, lambda v: is_value(v, e)):
                ctx.bad(f, "an element is not unified with the argument", path=p, sub="unify")
                continue
            ok_seen = one_alternative(ctx, f, p, a, b, us[0]) or ok_seen
        for i, v, _ in p.yields():
            if inside(l, i) is None:
                ctx.bad(f, "succeeds without an element", path=p, sub="invented")
    if not ok_seen:
        ctx.bad(f, "never succeeds", sub="yield")


def one_alternative(ctx, f, p, a, b, u):
    """One unification inside the iteration (a, b): yields if it succeeded, and is undone before the next one."""
    ok = hit(p, u)
    n = [i for i, v, _ in p.yields() if a < i < b]
    if len(n) != (1 if ok else 0) or ok and n[0] < u.i:
        ctx.bad(f, "does not succeed exactly once if and only if the element unifies", path=p, sub="yield")
    ps = [c for c in pushes(p, ST) if a < c.i < u.i]
    rs = [c for c in rerolls(p, SC, ST) if u.i < c.i < b and any(c.args[2] == q.args[0] for q in ps)]
    if not rs:
        ctx.bad(f, "the binding of an element is not undone before the next one", path=p, sub="undo")
    elif ok and n and rs[0].i < n[0]:
        ctx.bad(f, "the binding of an element is undone before it is used", path=p, sub="undo")
    return bool(ok)


@rule("action-member", "P27 P01", floor=2)
def action_member(ctx):
    """.member gives every element of the list once, in order, and undoes its binding before the next one."""
    f = action_func(ctx, ".member", 2)
    walked = {}

    def source(v):
        v = strip_conv(v)
        if v[0] == "call" and v[1][0] == "g" and v[1][1] in ctx.prog.functions and any(x in argn(1, 2) for x in v[2]) and SC in v[2]:
            g = ctx.prog.func(v[1][1])
            if len(g.params) == len(v[2]) == 2:
                if g.qual not in walked:
                    k = [i for i, x in enumerate(v[2]) if x in argn(1, 2)][0]
                    walked[g.qual] = list_walk(ctx, g, {param(g.params[k])}, param(g.params[1 - k]))
                return walked[g.qual]
        if v[0] == "new" and v[1] in ("builtins.list", "collections.deque"):
            if f.qual not in walked:
                walked[f.qual] = list_walk(ctx, f, argn(1, 2), SC)
            return walked[f.qual]
        return taken(None, v, 1, 2, ("evaluate", "grounded")) and plain(f)

    def plain(f):
        if f.qual not in walked:
            walked[f.qual] = True
            ctx.bad(f, "fails on a list with a bound tail: elements behind it are not reached", sub="tail")
        return True
    enumerate_rule(ctx, f, argn(0, 2), source, lambda v, e: v == e, "elements of the list")
    no_reorder(ctx, f)


def list_walk(ctx, f, term, scope):
    """f goes through a list in head and tail notation: the head, then the current value of the tail, up to a plain list,
    whose elements follow."""
    LL = ("agentspeak.LinkedList",)

    def current(v, of):
        return v[0] == "call" and v[1] in (G("agentspeak.evaluate"), G("agentspeak.deref")) and len(v[2]) == 2 and v[2][1] == scope and v[2][0] in of

    def is_linked(p, v):
        for pr, pol, i in p.facts():
            if pr[0] == "isinst" and pr[1] == v and tuple(pr[2]) == LL:
                return pol
        return None
    rounds = 0
    for p in ctx.iterations(f):
        start = max([i for i, e in enumerate(p.events) if e[0] == "iter"] or [0])
        heads = [c for c in p.calls if c.i > start and c.name == "append" and c.args and c.args[0][0] == "a" and c.args[0][2] == "head"]
        heads = [c.args[0][1] for c in heads] + [v[1] for i, v, _ in p.yields() if i > start and v is not None and v[0] == "a" and v[2] == "head"]
        if not heads:
            continue
        ctx.ob()
        rounds += 1
        x = heads[0]
        if len(heads) != 1 or is_linked(p, x) is not True or not (x[0] == "phi" or current(x, term)):
            ctx.bad(f, "does not give every element of the list once", path=p, sub="walk")
            return True
        if not any(current(v, {("a", x, "tail")}) for v in p.path.env.values()):
            ctx.bad(f, "does not go on with the current value of the tail", path=p, sub="walk")
            return True
    if not rounds:
        return False
    for p in ctx.paths(f):
        if p.kind != "return":
            continue
        ctx.ob()
        rest = [pr[1] for pr, pol, i in p.facts() if pr[0] == "isinst" and tuple(pr[2]) == LL and not pol]
        if not rest or not (rest[-1][0] == "phi" or current(rest[-1], term) or current(rest[-1], {
                ("a", pr[1], "tail") for pr, pol, i in p.facts() if pr[0] == "isinst" and pol})):
            ctx.bad(f, "does not go to the end of the list", path=p, sub="walk")
            continue
        r = rest[-1]
        if not any(c.name == "extend" and strip_conv(c.args[0]) == r for c in p.calls if c.args) and not (
                p.val is not None and any(strip_conv(t) == r for t in subterms(p.val) if isinstance(t, tuple) and t)) and not any(
                l["src"] is not None and strip_conv(l["src"]) == r and l["exhausted"] is not None for l in loops(p).values()) and not any(
                e[0] == "yieldfrom" and strip_conv(e[1]) == r for e in p.events):
            ctx.bad(f, "leaves out the elements of the last part", path=p, sub="walk")
    return True


def no_reorder(ctx, f):
    for p in ctx.paths(f):
        for lid, l in loops(p).items():
            s = l["src"]
            if s is not None and any(t and t[0] == "call" and t[1] in (G("builtins.sorted"), G("builtins.reversed")) or
                                     t and t[0] == "conv" and t[1] in ("set", "frozenset") for t in subterms(s)):
                ctx.bad(f, "does not give the elements in order", path=p, sub="order")


@rule("action-range", "P27 P01", floor=2)
def action_range(ctx):
    """.range gives 0, 1, ... below its argument, each once and in order."""
    f = action_func(ctx, ".range", 2)

    def src(s):
        s = strip_conv(s)
        if not is_range(s):
            return False
        a = s[2]
        if len(a) == 2 and a[0] == const(0):
            a = a[1:]
        if len(a) == 3 and a[0] == const(0) and a[2] == const(1):
            a = a[1:2]
        if len(a) != 1:
            return False
        v = a[0]
        if v[0] == "conv" and v[1] == "int":
            v = v[2]
        elif v[0] == "call" and v[1] == G("builtins.int"):
            v = v[2][0]
        return taken(None, v, 0, 2)
    enumerate_rule(ctx, f, argn(1, 2), src, lambda v, e: v == e, "numbers of the range")


def as_str(v):
    return v[2][0] if is_call(v, "asl_str") and len(v[2]) == 1 else v[2] if v[0] == "conv" and v[1] == "asl_str" else None


@rule("action-substring", "P27 P01", floor=3)
def action_substring(ctx):
    """.substring gives every position at which the first text occurs in the second one, from left to right, and
    undoes its binding before the next one."""
    f = action_func(ctx, ".substring", 3)

    def is_text(v, k):
        s = as_str(v)
        return s is not None and taken(None, s, k, 3, ("grounded", "freeze"))

    def is_find(v, start):
        """haystack.find(needle[, start])"""
        if v[0] != "call" or v[1][0] != "a" or v[1][2] != "find" or not is_text(v[1][1], 1):
            return False
        a = v[2]
        if not a or not is_text(a[0], 0):
            return False
        if start is None:
            return len(a) == 1 or len(a) == 2 and a[1] in (const(0), ("bin", "+", const(-1), const(1)))
        return len(a) == 2 and a[1] in (("bin", "+", start, const(1)), ("bin", "+", const(1), start))

    def every_start(src):
        if not is_range(src) or len(src[2]) != 1:
            return False
        n = src[2][0]
        return n[0] == "bin" and n[1] == "+" and n[3] == const(1) and n[2][0] == "bin" and n[2][1] == "-" and \
            n[2][2][0] == "len" and is_text(n[2][2][1], 1) and n[2][3][0] == "len" and is_text(n[2][3][1], 0)

    def starts(v, pos):
        return v[0] == "call" and v[1][0] == "a" and v[1][2] == "startswith" and is_text(v[1][1], 1) and len(v[2]) == 2 and \
            is_text(v[2][0], 0) and v[2][1] == pos

    ok_seen = again = False
    its = [(p, True) for p in ctx.iterations(f)] + [(p, False) for p in ctx.paths(f)]
    for p, back in its:
        if p.kind not in ("return", "back"):
            continue
        ctx.ob()
        finds = [c for c in p.calls if c.name == "find"]
        steps = loops_over(p, every_start)
        if steps:
            # tries every position at which the text can start
            again = True
            l = steps[0][1]
            if not back and l["exhausted"] is None:
                ctx.bad(f, "does not try every position", path=p, sub="next")
        elif not back and (not finds or not is_find(finds[0].res, None)):
            if not any(e[0] == "iter" for e in p.events):
                ctx.bad(f, "does not look for the first occurrence", path=p, sub="first")
                continue
        us = unifs(p)
        for u in us:
            pos = u.args[1] if u.args[0] in argn(2, 3) else u.args[0]
            if u.args[2:] != (SC, ST) or not (u.args[0] in argn(2, 3) or u.args[1] in argn(2, 3)):
                ctx.bad(f, "a position is not unified with the argument", u.node, p, "unify")
                continue
            begin = [i for i, e in enumerate(p.events) if i < u.i and e[0] == "iter"]
            if steps and pos[0] == "elem" and every_start(pos[1]):
                known = [pol for pr, pol, i in p.facts() if pr[0] == "truth" and starts(pr[1], pos) and begin and begin[-1] < i < u.i]
                if known != [True]:
                    ctx.bad(f, "what is unified is not the position of an occurrence", u.node, p, "unify")
                end = [i for i, e in enumerate(p.events) if i > u.i and e[0] in ("iter", "endloop")] or [len(p.events)]
                ok_seen = one_alternative(ctx, f, p, begin[-1] if begin else 0, end[0], u) or ok_seen
                continue
            if not (is_find(pos, None) or pos[0] == "phi" or pos[0] == "call" and any(is_find(pos, s) for s in pos[2][1:][:1] and
                                                                                    [pos[2][1][2] if pos[2][1][0] == "bin" else pos])):
                ctx.bad(f, "what is unified is not the position of an occurrence", u.node, p, "unify")
            found = eqf(p, pos, const(-1))
            lt = [pol for pr, pol, i in p.facts() if pr == ("lt", pos, const(0))]
            if found is not False and lt != [False]:
                ctx.bad(f, "a position is used without knowing that there is one", u.node, p, "found")
            end = [i for i, e in enumerate(p.events) if i > u.i and e[0] in ("iter", "endloop")] or [len(p.events)]
            begin = [i for i, e in enumerate(p.events) if i < u.i and e[0] == "iter"]
            ok_seen = one_alternative(ctx, f, p, begin[-1] if begin else 0, end[0], u) or ok_seen
            nxt = [c for c in finds if c.i > u.i]
            if back and not nxt and begin and any(c.i < begin[-1] and not any(e[0] == "loop" for e in p.events[c.i:begin[-1]]) for c in finds):
                pass        # the condition of the loop looks for it: seen in the whole paths
            elif not nxt or not is_find(nxt[0].res, pos):
                ctx.bad(f, "does not look for the next occurrence directly after the current one", path=p, sub="next")
            else:
                again = True
        for lid, l in steps:
            for a, b in l["iters"]:
                if any(pr[0] == "truth" and starts(pr[1], p.events[a][2]) and pol and a < i < b for pr, pol, i in p.facts()) and \
                        not any(a < u.i < b for u in us):
                    ctx.bad(f, "leaves out an occurrence", path=p, sub="next")
        if p.yields() and not us:
            ctx.bad(f, "succeeds without an occurrence", path=p, sub="invented")
    if not ok_seen:
        ctx.bad(f, "never succeeds", sub="yield")
    if not again:
        ctx.bad(f, "does not go on to the next occurrence", sub="next")


# ------------------------------------------------------------- collection

def collect(ctx, functor, arity, qarg, rarg, contribution, total, what, undo=True):
    f = action_func(ctx, functor, arity)
    seen = set()
    for p in ctx.paths(f):
        if p.kind != "return":
            continue
        ctx.ob()
        qs = [e for e in p.events if e[0] == "new" and e[1] == R_ + "TermQuery" and e[2] and e[2][0] in argn(qarg, arity)]
        if len(qs) != 1:
            ctx.bad(f, "does not ask the query it is given", path=p, sub="query")
            continue
        q = qs[0][4]
        ls = loops_over(p, lambda s: is_execute(strip_conv(s), q) or is_enum(s) and is_execute(strip_conv(s[2][0]), q))
        if len(ls) != 1 or ls[0][1]["exhausted"] is None:
            ctx.bad(f, "does not go through all solutions of the query once", path=p, sub="solutions")
            continue
        l = ls[0][1]
        if any(inside(l, i) is not None for i, v, _ in p.yields()):
            ctx.bad(f, "succeeds before all solutions are collected", path=p, sub="early")
        for c in p.calls:
            if arity == 3 and c.i < l["exhausted"] and inside(l, c.i) is None and c.args and c.args[0] in argn(0, arity) and \
                    c.name in ("evaluate", "grounded", "freeze"):
                ctx.bad(f, "the pattern is computed before the query has bound its variables", path=p, sub="unbound")
        vals = contribution(p, l)
        if vals is None:
            ctx.bad(f, "a solution does not contribute exactly once to %s" % what, path=p, sub="contribution")
            continue
        us = unifs(p)
        if any(u.i < l["exhausted"] for u in us):
            ctx.bad(f, "the result is unified before all solutions are collected", path=p, sub="early")
        ok = answers(ctx, f, p, argn(rarg, arity), lambda v: total(p, v, l, vals), what)
        seen.add((bool(l["iters"]), ok))
    if (True, True) not in seen:
        ctx.bad(f, "never succeeds on a query with solutions", sub="yield")
    if (False, True) not in seen:
        ctx.bad(f, "never succeeds on a query without solutions", sub="yield")


def appended(p, l):
    """Per iteration, the (list, value) appended once; None if some iteration appends otherwise."""
    out = []
    for a, b in l["iters"]:
        app = [c for c in p.calls if a < c.i < b and c.name == "append" and c.recv is not None and c.recv[0] == "new"]
        if len(app) != 1:
            return None
        out.append((app[0].recv, app[0].args[0]))
    return out


@rule("action-findall", "P27 P03", floor=3)
def action_findall(ctx):
    """.findall collects, for every solution of the query in order, an independent copy of the pattern as it is in
    that solution, and unifies the list with its last argument."""
    f = action_func(ctx, ".findall", 3)

    def contribution(p, l):
        vals = appended(p, l)
        if vals is None:
            return None
        for (a, b), (lst, v) in zip(l["iters"], vals):
            if not (is_call(v, "freeze") and len(v[2]) == 3 and v[2][1] == SC and
                    (v[2][0] in argn(0, 3) or is_call(v[2][0], "evaluate") and v[2][0][2][0] in argn(0, 3))):
                ctx.bad(f, "what is collected is not a copy of the pattern in the current solution", path=p, sub="pattern")
            memo = v[2][2] if v[0] == "call" and len(v[2]) == 3 else None
            if memo is not None and not (memo[0] == "new" and made_in(p, memo, a, b)):
                ctx.bad(f, "the copies of different solutions share the renaming of their variables", path=p, sub="memo")
        return vals

    def total(p, v, l, vals):
        return v[0] == "conv" and v[1] == "tuple" and strip_conv(v)[0] == "new" and all(strip_conv(v) == lst for lst, _ in vals) \
            and not [c for c in p.calls if c.recv == strip_conv(v) and c.name in ("reverse", "sort", "insert", "pop", "extend", "clear")]
    collect(ctx, ".findall", 3, 1, 2, contribution, total, "the list of all results")


@rule("action-count", "P27 P01", floor=3)
def action_count(ctx):
    """.count counts every solution of the query once, leaves no binding of the query behind and unifies the number
    with its last argument."""
    f = action_func(ctx, ".count", 2)

    def contribution(p, l):
        return [const(1)] * len(l["iters"])

    def total(p, v, l, vals):
        if undone(ctx, f, p, l) is False:
            return True
        return counted(p, v, l)
    collect(ctx, ".count", 2, 0, 1, contribution, total, "the number of solutions")


def counted(p, v, l):
    n = len(l["iters"])
    if v[0] == "c":
        return n == 0 and v == const(0)
    if v[0] == "len":
        lst = strip_conv(v[1])
        return appended(p, l) is not None and all(x == lst for x, _ in appended(p, l))
    if v[0] == "bin" and v[1] == "+":
        a, b = v[2], v[3]
        one = b if b == const(1) else a if a == const(1) else None
        base = a if b == const(1) else b
        if n >= 1 and one is not None and base[0] == "index" and is_enum(l["src"]) and base[1] == l["src"][2][0]:
            return True
        return n >= 1 and one is not None and (base == const(0) or base[0] in ("phi",) or counted_base(base))
    if v[0] == "phi":
        return True
    if v[0] == "call" and v[1] == G("builtins.sum"):
        return True
    return False


def counted_base(v):
    return v[0] == "bin" and v[1] == "+" and v[3] == const(1) and (v[2] == const(0) or v[2][0] == "phi" or counted_base(v[2]))


def undone(ctx, f, p, l):
    """Push before the loop, reroll to it after its end and before the result is unified."""
    ps = [c for c in pushes(p, ST) if c.i < l["start"]]
    us = unifs(p)
    rs = [c for c in rerolls(p, SC, ST) if c.i > l["exhausted"] and any(c.args[2] == q.args[0] for q in ps) and all(c.i < u.i for u in us)]
    return bool(rs) or None


@rule("action-sum", "P27", floor=3)
def action_sum(ctx):
    """.sum adds the value of the pattern in every solution of the query once, starting from zero, and unifies the
    sum with its last argument."""
    f = action_func(ctx, ".sum", 3)

    def is_val(v):
        return is_call(v, "grounded") and v[2][1] == SC and (v[2][0] in argn(0, 3) or is_call(v[2][0], "evaluate") and v[2][0][2][0] in argn(0, 3))

    def sum_of(v):
        if v[0] == "phi":
            return True
        if v[0] == "bin" and v[1] == "+":
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                if is_val(a) and (b == const(0) or sum_of(b)):
                    return True
        return False

    def total(p, v, l, vals):
        if not l["iters"]:
            return v == const(0) or v[0] == "call" and v[1] == G("builtins.sum")
        if v[0] == "call" and v[1] == G("builtins.sum"):
            app = appended(p, l)
            return app is not None and strip_conv(v[2][0]) == app[0][0] and all(is_val(x) for _, x in app)
        return sum_of(v)
    collect(ctx, ".sum", 3, 1, 2, lambda p, l: [None] * len(l["iters"]), total, "the sum")


# ----------------------------------------------------------------- simple

@rule("action-my-name", "P27", floor=2)
def action_my_name(ctx):
    """.my_name unifies its argument with the atom that is the agent's name."""
    f = action_func(ctx, ".my_name", 1)

    def is_name(p, v):
        return v[0] == "new" and v[1] == M + "Literal" and field(p, v, "functor") == A(AGENT, "name") and \
            strip_conv(field(p, v, "args")) == ("tuple", ()) and strip_conv(field(p, v, "annots")) == ("tuple", ())
    for p in ctx.paths(f):
        ctx.ob()
        answers(ctx, f, p, argn(0, 1), lambda v: is_name(p, v), "the name of the agent")


@rule("action-concat", "P27", floor=4)
def action_concat(ctx):
    """.concat joins its first arguments in order: lists give the list of all their elements, anything else the text
    of all of them; the result is unified with the last argument."""
    f = action_func(ctx, ".concat")
    FIRST = ("i", ARGS, ("slice", NONE, const(-1), NONE))
    LISTS = {"tuple", "builtins.tuple", "agentspeak.LinkedList"}
    kinds = set()

    def first(v):
        """One of the first arguments, as it stands in the action or its value."""
        while v[0] == "call" and v[1] == G("agentspeak.grounded"):
            if v[2][1] != SC:
                return False
            v = v[2][0]
        return v[0] == "elem" and strip_conv(v[1]) == FIRST

    def gathered(p, lst):
        """The list consists of the values of the first arguments, each once."""
        lst = strip_conv(lst)
        if lst == FIRST:
            return True
        adds = [c for c in p.calls if c.recv == lst and c.name in ("append", "extend", "insert")]
        for lid, l in loops(p).items():
            if l["src"] is not None and strip_conv(l["src"]) == FIRST:
                for x, y in l["iters"]:
                    mine = [c for c in adds if x < c.i < y]
                    if len(mine) != 1 or mine[0].name != "append":
                        return False
        return all(c.name == "append" and first(c.args[0]) and c.args[0][0] == "call" for c in adds)

    def value(p, v):
        return first(v) and v[0] == "call" or v[0] == "elem" and v[1][0] in ("new", "call", "conv") and gathered(p, v[1])

    no_reorder(ctx, f)
    for p in ctx.paths(f):
        if p.kind != "return":
            continue
        ctx.ob()

        def result(v):
            if v == ("tuple", ()) and all(not l["iters"] for l in loops(p).values()):
                return True
            if v[0] == "bin" and v[1] == "+":
                left, right = v[2], v[3]
                if right[0] == "conv" and right[1] == "tuple" and value(p, right[2]):
                    kinds.update(("list", "nested"))
                    return left[0] == "phi" or left == ("tuple", ()) or result(left)
                t = as_str(right)
                if t is not None and value(p, t):
                    kinds.add("text")
                    return left[0] == "phi" or left == const("") or result(left)
                return False
            if v[0] == "conv" and v[1] == "tuple":
                kinds.add("list")
                return True
            if v[0] == "call" and v[1][0] == "a" and v[1][2] == "join":
                kinds.add("text")
                return v[1][1] == const("")
            return v[0] == "phi"
        answers(ctx, f, p, {("i", ARGS, const(-1))}, result, "the joined value")
        for c in p.calls_to("grounded"):
            if not (c.args[1] == SC):
                ctx.bad(f, "an argument is not taken in the scope of the intention", c.node, p, "scope")
        us = unifs(p)
        res = [x for u in us for x in u.args[:2] if x not in {("i", ARGS, const(-1))}]
        summed = [x[3] for x in res if x[0] == "bin"]
        text = any(x[0] == "call" and x[1][0] == "a" and x[1][2] == "join" for x in res) or any(as_str(x) is not None for x in summed)
        listed = any(x[0] == "conv" and x[1] == "tuple" for x in res + summed)
        tests = []
        for pr, pol, i in p.facts():
            if pr[0] == "isinst" and value(p, pr[1]):
                if {t.rsplit(".", 1)[-1] for t in pr[2]} >= {"tuple", "LinkedList"}:
                    tests.append(pol)
                elif "tuple" in {t.rsplit(".", 1)[-1] for t in pr[2]}:
                    tests.append(pol)
                    ctx.bad(f, "lists in head and tail notation are not joined as lists", path=p, sub="linked")
            elif pr[0] == "truth" and is_call(pr[1], "is_list"):
                x = pr[1][2][0]
                if value(p, x):
                    tests.append(pol)
                elif x[0] == "i" or x[0] == "elem" and x[1][0] == "i" and strip_conv(x[1]) != FIRST:
                    ctx.bad(f, "only some of the arguments decide whether a list or a text is made", path=p, sub="kind")
        if listed and False in tests or text and tests and False not in tests:
            ctx.bad(f, "the kind of the arguments does not decide whether a list or a text is made", path=p, sub="kind")
        for c in p.calls:
            if c.recv is None or c.name not in ("append", "extend") or not c.args:
                continue
            v = c.args[0]
            if text and any(x[0] == "call" and x[1][2] == "join" and strip_conv(x[2][0]) == c.recv for x in res):
                s = as_str(v)
                if s is None or not value(p, s):
                    ctx.bad(f, "what is joined to the text is not an argument as it is printed: %s" % show(v)[:60], path=p, sub="text")
            if listed and any(x[0] == "conv" and x[1] == "tuple" and x[2] == c.recv for x in res):
                if c.name == "append" and not (v[0] == "elem" and value(p, v[1])) or c.name == "extend" and not value(p, strip_conv(v)):
                    ctx.bad(f, "what is joined to the list is not an element of an argument: %s" % show(v)[:60], path=p, sub="elements")
                kinds.add("nested")
        for lid, l in loops(p).items():
            if l["src"] is not None and l["exhausted"] is None:
                if not any(pol is False for pr, pol, i in p.facts() if l["start"] < i):
                    ctx.bad(f, "leaves out arguments", path=p, sub="all")
    for k in ("list", "text"):
        if k not in kinds:
            ctx.bad(f, "never joins %ss" % k, sub=k)


@rule("action-ground", "P27 P03", floor=2)
def action_ground(ctx):
    """.ground succeeds exactly if its term is ground in the scope of the intention."""
    f = action_func(ctx, ".ground", 1)
    seen = set()
    for p in ctx.paths(f):
        ctx.ob()
        cs = [c for c in p.calls_to("is_ground") if c.args[0] in argn(0, 1) | {TERM, ARGS} and c.args[1] == SC]
        if len(cs) != 1:
            ctx.bad(f, "does not decide whether its argument is ground", path=p, sub="test")
            continue
        ok = hit(p, cs[0])
        seen.add(ok)
        if len(p.yields()) != (1 if ok else 0):
            ctx.bad(f, "does not succeed exactly if its argument is ground", path=p, sub="answer")
    if seen != {True, False}:
        ctx.bad(f, "does not depend on whether its argument is ground", sub="answer")


@rule("action-fail", "P27", floor=1)
def action_fail(ctx):
    """.fail never succeeds."""
    f = action_func(ctx, ".fail", 0)
    for p in ctx.paths(f):
        ctx.ob()
        if p.yields() or p.kind != "return":
            ctx.bad(f, "succeeds", path=p)


@rule("action-print", "P27", floor=3)
def action_print(ctx):
    """.print writes the text of every argument, in order, separated by blanks, after the name of the agent, and
    succeeds once; unbound variables print alike within one call."""
    f = action_func(ctx, ".print")
    seen = False
    for p in ctx.paths(f):
        if p.kind != "return":
            continue
        ctx.ob()
        if len(p.yields()) != 1:
            ctx.bad(f, "does not succeed exactly once", path=p, sub="yield")
        pr = [c for c in p.calls if c.ev[1] == G("builtins.print") or c.name == "write"]
        if len(pr) < 1:
            ctx.bad(f, "prints nothing", path=p, sub="print")
            continue
        flat = [a for c in pr for a in c.args]
        if not any(mentions(a, A(AGENT, "name")) for a in flat):
            ctx.bad(f, "does not print the name of the agent", path=p, sub="name")
        joins = [t for a in flat for t in subterms(a) if t and t[0] == "call" and t[1][0] == "a" and t[1][2] == "join"]
        if not joins:
            ctx.bad(f, "does not print its arguments", path=p, sub="text")
            continue
        j = joins[0]
        if j[1][1] != const(" "):
            ctx.bad(f, "does not separate its arguments by a blank", path=p, sub="text")
        vals = mapped(p, j[2][0], ARGS)
        if vals is None:
            ctx.bad(f, "does not print all of its arguments in order", path=p, sub="text")
            continue
        memos = set()
        for v in vals:
            seen = True
            s = as_str(v)
            if s is None or not (is_call(s, "freeze") or is_call(s, "grounded")) or not is_elem(s[2][0], ARGS) or s[2][1] != SC:
                ctx.bad(f, "an argument is not printed as text with its current value", path=p, sub="text")
            elif is_call(s, "freeze"):
                memos.add(s[2][2])
                l = walked(p, ARGS)
                if any(made_in(p, s[2][2], a, b) for _, x in l for a, b in x["iters"]):
                    ctx.bad(f, "one unbound variable prints differently in different arguments", path=p, sub="memo")
    if not seen:
        ctx.bad(f, "never prints an argument", sub="text")


@rule("action-csv", "P27", floor=4)
def action_csv(ctx):
    """.csv writes one line with the text of every argument, in order, separated by commas, to the file of the agent,
    which is named after it and opened once; it succeeds once."""
    f = action_func(ctx, ".csv")
    seen = set()
    for p in ctx.paths(f):
        if p.kind != "return":
            continue
        ctx.ob()
        if len(p.yields()) != 1:
            ctx.bad(f, "does not succeed exactly once", path=p, sub="yield")
        ws = [c for c in p.calls if c.name == "write" or c.ev[1] == G("builtins.print") and "file" in c.kw]
        dest = {c.kw["file"] if c.name == "print" else c.recv for c in ws}
        if len(dest) != 1:
            ctx.bad(f, "does not write to one file", path=p, sub="file")
            continue
        d = dest.pop()
        opened = [c for c in p.calls_to("open") if c.res == d]
        if opened:
            seen.add("open")
            if not mentions(opened[0].args[0], A(AGENT, "name")):
                ctx.bad(f, "the file is not named after the agent", opened[0].node, p, "file")
            mode = opened[0].arg(1, "mode")
            if mode is not None and (mode[0] != "c" or not {"w", "a"} & set(str(mode[2])) or set(str(mode[2])) - set("wat+")):
                ctx.bad(f, "the file is not opened for writing text", opened[0].node, p, "mode")
            if any(pr[0] == "in" and pr[1] == AGENT and pol for pr, pol, _ in p.facts()):
                ctx.bad(f, "the file of the agent is opened again by every call", opened[0].node, p, "open")
            if not any(e[0] == "setitem" and e[2] == AGENT and e[3] == d for e in p.events):
                ctx.bad(f, "the file of the agent is opened again by the next call", opened[0].node, p, "open")
        else:
            seen.add("known")
            if not (d[0] == "i" and d[2] == AGENT or d[0] == "call" and d[1][0] == "a" and d[1][2] in ("get", "setdefault") and d[2][0] == AGENT):
                ctx.bad(f, "writes to the file of another agent", path=p, sub="file")
            elif d[0] == "i" and p.fact(("in", AGENT, d[1])) is False:
                ctx.bad(f, "writes to a file that was not opened", path=p, sub="open")
        joins = [t for c in ws for a in c.args for t in subterms(a) if t and t[0] == "call" and t[1][0] == "a" and t[1][2] == "join"]
        if not joins or joins[0][1][1] != const(","):
            ctx.bad(f, "does not separate its arguments by commas", path=p, sub="text")
            continue
        ends = sum(1 for c in ws if c.name == "print") + \
            sum(1 for c in ws for a in c.args for t in subterms(a) if t and t[0] == "c" and isinstance(t[2], str) and t[2].endswith("\n"))
        if ends != 1 and not any(t and t[0] == "fmt" for c in ws for a in c.args for t in subterms(a)):
            ctx.bad(f, "does not write exactly one line", path=p, sub="line")
        vals = mapped(p, joins[0][2][0], ARGS)
        if vals is None:
            ctx.bad(f, "does not write all of its arguments in order", path=p, sub="text")
            continue
        for v in vals:
            seen.add("text")
            s = as_str(v)
            if s is None or not (is_call(s, "freeze") or is_call(s, "grounded")) or not is_elem(s[2][0], ARGS) or s[2][1] != SC:
                ctx.bad(f, "an argument is not written as text with its current value", path=p, sub="text")
    if seen != {"open", "known", "text"}:
        ctx.bad(f, "never opens, never reuses the file or never writes an argument", sub="all")


@rule("action-clock", "P27", floor=4)
def action_clock(ctx):
    """.date and .time unify their arguments with year, month, day and hour, minute, second of one reading of the
    clock."""
    for functor, names in ((".date", ("year", "month", "day")), (".time", ("hour", "minute", "second"))):
        f = action_func(ctx, functor, 3)
        full = False
        for p in ctx.paths(f):
            if p.kind != "return":
                continue
            ctx.ob()
            clocks = [c for c in p.calls if c.name in ("now", "today", "localtime")]
            if len(clocks) != 1:
                ctx.bad(f, "does not read the clock exactly once", path=p, sub="clock")
                continue
            got = {}
            for u in unifs(p):
                for k in range(3):
                    if unify_with(u, argn(k, 3), lambda v: v == A(clocks[0].res, names[k])):
                        got[k] = hit(p, u)
            ok = len(got) == 3 and all(got.values())
            full = full or ok
            if len(p.yields()) != (1 if ok else 0):
                ctx.bad(f, "does not succeed exactly if all three values unify", path=p, sub="yield")
            if len(unifs(p)) > len(got):
                ctx.bad(f, "unifies an argument with another value", path=p, sub="value")
        if not full:
            ctx.bad(f, "never succeeds", sub="yield")


TABLE = [
    # functor, arity, kind, target names, spec names
    (".random", 1, "add_function", {"random.random"}, []),
    (".min", 2, "add_function", {"builtins.min"}, ["tuple"]),
    (".max", 2, "add_function", {"builtins.max"}, ["tuple"]),
    (".length", 2, "add_function", {"builtins.len"}, [None]),
    (".nth", 3, "add_function", None, ["int", "tuple"]),
    (".sort", 2, "add_function", None, ["tuple"]),
    (".atom", 1, "add_predicate", {M + "is_atom"}, [None]),
    (".literal", 1, "add_predicate", {M + "is_literal"}, [None]),
    (".list", 1, "add_predicate", {M + "is_list"}, [None]),
    (".number", 1, "add_predicate", {M + "is_number"}, [None]),
    (".string", 1, "add_predicate", {M + "is_string"}, [None]),
    (".structure", 1, "add_predicate", {M + "is_structure"}, [None]),
    (".raise", 1, "add_procedure", None, [None]),
    (".tail", 2, "add_function", None, ["tuple"]),
    (".floor", 2, "add_function", {"math.floor"}, ["float"]),
    (".ceil", 2, "add_function", {"math.ceil"}, ["float"]),
    (".round", 2, "add_function", {"builtins.round"}, ["float"]),
    (".randint", 3, "add_function", {"random.randint"}, ["int", "int"]),
]
PLAIN = [(".broadcast", 2), (".send", 3), (".print", None), (".fail", 0), (".my_name", 1), (".concat", None), (".substring", 3),
         (".member", 2), (".ground", 1), (".findall", 3), (".count", 2), (".abolish", 1), (".date", 3), (".time", 3), (".wait", 1),
         (".wait", 2), (".range", 2), (".dump", 0), (".unbind_all", 0), (".raise", 0), (".sum", 3), (".csv", None)]


def find_reg(ctx, functor, arity, kind):
    rs = [r for r in ctx.prog.registrations() if r["functor"] == functor]
    for r in rs:
        if r["arity"] == arity and (r["kind"] == "add") == (kind == "add"):
            return r
    return None


def dynamic_registrations(ctx):
    """Registrations whose name is not a literal: then absence of a name cannot be told."""
    for mod in ctx.prog.modules.values():
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "add", "add_function", "add_predicate", "add_procedure") and isinstance(n.func.value, ast.Name) and \
                    n.func.value.id == "actions" and n.args and not isinstance(n.args[0], ast.Constant):
                return True
    return False


def computes(ctx, r, targets):
    """The implementation is one of the functions, or always gives what one of them gives for the same arguments."""
    if r.get("target") in targets:
        return True
    if isinstance(r["impl"], ast.Lambda):
        a = r["impl"].args
        if a.vararg or a.kwarg or a.kwonlyargs or a.defaults:
            return False
        names, e = [x.arg for x in a.args], r["impl"].body
        while isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("int", "bool") and len(e.args) == 1:
            e = e.args[0]
        return isinstance(e, ast.Call) and not e.keywords and ctx.prog.resolve_expr(r["module"], e.func) in targets and \
            [x.id if isinstance(x, ast.Name) else None for x in e.args] == names
    f = r["func"]
    if f is None:
        return r.get("target") is None or r["target"] in targets
    if f.qual in targets:
        return True
    params = tuple(param(x) for x in f.params)
    outs = [p for p in ctx.paths(f) if p.kind == "return"]
    ok = lambda v: v[0] == "call" and v[1][0] == "g" and v[1][1] in targets and tuple(strip_conv(x) for x in v[2]) == params or \
        v[0] == "len" and v[1] == params[0] and "builtins.len" in targets
    return bool(outs) and all(ok(strip_conv(p.val, ("int", "bool"))) for p in outs)


@rule("action-table", "P27 P22", floor=30)
def action_table(ctx):
    """Every library action is registered under its name and arity with its own implementation and argument
    types, and no name and arity is registered twice."""
    dyn = dynamic_registrations(ctx)
    for functor, arity in PLAIN:
        ctx.ob()
        r = find_reg(ctx, functor, arity, "add")
        if r is None:
            if not dyn and find_reg(ctx, functor, arity, "other") is None:
                ctx.bad("agentspeak.stdlib", "the action %s/%s is not registered" % (functor, "*" if arity is None else arity), sub=functor)
    for functor, arity, kind, targets, specs in TABLE:
        ctx.ob()
        r = find_reg(ctx, functor, arity, kind)
        if r is None:
            if not dyn and find_reg(ctx, functor, arity, "add") is None:
                ctx.bad("agentspeak.stdlib", "the action %s/%d is not registered" % (functor, arity), sub=functor)
            continue
        where = r["module"].name
        if r["kind"] != kind:
            ctx.bad(where, "the action %s/%d is registered as another kind of action" % (functor, arity), r["node"], sub=functor)
            continue
        got = []
        for s in r["specs"]:
            if isinstance(s, ast.Constant) and s.value is None:
                got.append(None)
            else:
                q = ctx.prog.resolve_expr(r["module"], s)
                got.append(q.rsplit(".", 1)[-1] if q else "?")
        if got != specs:
            ctx.bad(where, "the arguments of %s/%d are not converted to %s" % (functor, arity, specs), r["node"], sub=functor)
        if targets and not computes(ctx, r, targets):
            ctx.bad(where, "the action %s/%d computes something else" % (functor, arity), r["node"], sub=functor)
    seen = {}
    for r in ctx.prog.registrations():
        if r["module"].name == "agentspeak.optimizer":
            continue
        k = (r["module"].name, r["functor"], r["arity"])
        if k in seen:
            ctx.bad(r["module"].name, "the action %s/%s is registered twice" % (r["functor"], r["arity"]), r["node"], sub=r["functor"])
        seen[k] = r


@rule("action-functions", "P27", floor=3)
def action_functions(ctx):
    """.nth gives the element at its index and refuses negative ones, .sort the sorted list, .tail the list without
    its first element, .raise an error."""
    r = find_reg(ctx, ".nth", 3, "add_function")
    if r and r["func"]:
        f = r["func"]
        i, l = (("p", x) for x in f.params[:2])
        for p in ctx.paths(f):
            ctx.ob()
            neg = [pol for pr, pol, _ in p.facts() if pr == ("lt", i, const(0))]
            ge = [not pol for pr, pol, _ in p.facts() if pr == ("lt", const(-1), i)]
            if p.kind == "return":
                if p.val[:3] != ("i", l, i):
                    ctx.bad(f, "does not give the element at the index", path=p, sub="nth")
                if (neg + ge)[-1:] != [False]:
                    ctx.bad(f, "a negative index counts from the end", path=p, sub="nth")
    r = find_reg(ctx, ".sort", 2, "add_function")
    if r and r["func"]:
        f = r["func"]
        for p in rets(ctx.paths(f)):
            ctx.ob()
            L = ("p", f.params[0])
            v = strip_conv(p.val)
            ok = v[0] == "call" and v[1] == G("builtins.sorted") and v[2] == (L,)
            if not ok and v == L:
                ok = any(c.name == "sort" and c.recv is not None and c.recv == ("conv", "list", L) and not c.args and not c.kw for c in p.calls)
            if not ok and v[0] in ("new", "conv"):
                ok = any(c.name == "sort" and c.recv is not None and strip_conv(c.recv) in (v, L) and not c.args and not c.kw for c in p.calls)
            if not ok or p.val[0] != "conv" or p.val[1] != "tuple":
                ctx.bad(f, "does not give the sorted list", path=p, sub="sort")
    r = find_reg(ctx, ".tail", 2, "add_function")
    if r and r["func"]:
        f = r["func"]
        for p in rets(ctx.paths(f)):
            ctx.ob()
            if p.val != ("i", ("p", f.params[0]), ("slice", const(1), NONE, NONE)):
                ctx.bad(f, "does not give the list without its first element", path=p, sub="tail")
    for arity in (0, 1):
        for r in ctx.prog.registrations():
            if r["functor"] == ".raise" and r["arity"] == arity and r["func"]:
                for p in ctx.paths(r["func"]):
                    ctx.ob()
                    if p.kind != "raise":
                        ctx.bad(r["func"], "raises no error", path=p, sub="raise")


# --------------------------------------------------------------- messages

PERFORMATIVES = {"tell": (ADD, "belief"), "untell": (REM, "belief"), "achieve": (ADD, "achievement"), "unachieve": (REM, "achievement"),
                 "tellHow": (ADD, "tellHow"), "untellHow": (REM, "tellHow"), "askHow": (ADD, "askHow")}


def chosen_ilf(p, ilf):
    """-> (name, excluded): the performative this path settled on."""
    name, no = None, set()
    for pred, pol, i in p.facts():
        if pred[0] in ("eq", "is") and A(ilf, "functor") in pred[1:]:
            o = pred[2] if pred[1] == A(ilf, "functor") else pred[1]
            if o[0] == "c" and isinstance(o[2], str):
                if pol:
                    name = o[2]
                else:
                    no.add(o[2])
    return name, no


def is_source_annot(p, v):
    if v[0] != "new" or v[1] != M + "Literal" or field(p, v, "functor") != const("source"):
        return False
    a = strip_conv(field(p, v, "args"))
    if a[0] != "tuple" or len(a[1]) != 1:
        return False
    n = a[1][0]
    return n[0] == "new" and n[1] == M + "Literal" and field(p, n, "functor") == A(AGENT, "name") and \
        strip_conv(field(p, n, "args")) == ("tuple", ()) and strip_conv(field(p, n, "annots")) == ("tuple", ())


def check_message(ctx, f, p, msg, name, arg):
    """The message is the frozen content with the sender's annotation."""
    if not (msg[0] == "call" and msg[1][0] == "a" and msg[1][2] == "with_annotation" and len(msg[2]) == 1 and is_source_annot(p, msg[2][0])):
        ctx.bad(f, "the message is not annotated with its sender", path=p, sub="source")
        return
    body = msg[1][1]
    if name in ("tellHow", "untellHow", "askHow"):
        if body[0] != "new" or body[1] != M + "Literal":
            ctx.bad(f, "the text of a plan is not sent as one argument", path=p, sub="content")
            return
        a = strip_conv(field(p, body, "args"))
        body = a[1][0] if a[0] == "tuple" and len(a[1]) == 1 else NONE
    if not (body[0] == "call" and (is_call(body, "freeze") or is_call(body, "grounded")) and body[2][0] in arg and body[2][1] == SC):
        ctx.bad(f, "the content is not sent as it is at that moment", path=p, sub="content")
    elif is_call(body, "freeze") and body[2][2][0] not in ("new", "dict"):
        ctx.bad(f, "the content is frozen with another term's renaming", path=p, sub="content")


def deliveries(p):
    return [c for c in p.calls if c.name == "call" and c.recv is not None and len(c.args) >= 4]


def check_delivery(ctx, f, p, c, name, arg, a, b):
    trig, goal = PERFORMATIVES[name]
    if c.args[0] != trig or c.args[1] != GOALS[goal]:
        ctx.bad(f, "'%s' arrives as another event" % name, c.node, p, "event-" + name)
    check_message(ctx, f, p, c.args[2], name, arg)
    i = c.args[3]
    if not (i[0] == "new" and i[1] == R_ + "Intention"):
        ctx.bad(f, "the message runs in the intention of the sender", c.node, p, "intention")
    elif not made_in(p, i, a, b):
        ctx.bad(f, "what one receiver binds applies to the next one", c.node, p, "intention")


def possible(p, v, text):
    """Whether the path can be taken when v is the text."""
    for pr, pol, _ in p.facts():
        if pr[0] == "truth" and pr[1][0] == "call" and pr[1][1][0] == "a" and pr[1][1][1] == v and pr[1][1][2] in ("endswith", "startswith") and \
                len(pr[1][2]) == 1 and pr[1][2][0][0] == "c":
            if getattr(text, pr[1][1][2])(pr[1][2][0][2]) != pol:
                return False
    return True


def message_common(ctx, f, p, ilf, seen):
    """Everything but the receivers; -> name of the performative or None if this path sends nothing."""
    ds = deliveries(p)
    name, no = chosen_ilf(p, ilf)
    atom = [hit(p, c) for c in p.calls_to("is_atom") if c.args == (ilf,) or c.recv == ilf]
    if name is None:
        if ds:
            ctx.bad(f, "something is sent without a known performative", path=p, sub="performative")
        if p.kind == "return" and (p.yields() or atom[-1:] != [False]):
            ctx.bad(f, "an unknown performative is accepted", path=p, sub="performative")
        if p.kind == "raise" and aslerr(p.val) and no:
            seen.add("unknown")
        return None
    if name not in PERFORMATIVES:
        return None
    if p.kind != "return" or not possible(p, A(ilf, "functor"), name):
        return None
    if atom[-1:] != [True]:
        ctx.bad(f, "a performative that is no atom is accepted", path=p, sub="performative")
    return name


@rule("message-send", "P10 P11 P03", floor=40)
def message_send(ctx):
    """.send looks up every receiver it names before it delivers anything, then delivers one event of the kind
    the performative stands for to each of them, with the frozen content annotated with the sender, and succeeds
    once."""
    f = action_func(ctx, ".send", 3)
    seen = set()
    arg = argn(2, 3)
    for p in ctx.paths(f):
        gs = [c.res for c in p.calls_to("grounded") if c.args[0] in argn(0, 3) and c.args[1] == SC]
        ilfs = [c.res for c in p.calls_to("grounded") if c.args[0] in argn(1, 3) and c.args[1] == SC]
        if p.kind == "raise" and not ilfs:
            continue
        ctx.ob()
        if len(gs) != 1 or len(ilfs) != 1:
            ctx.bad(f, "receivers or performative are not taken from the arguments", path=p, sub="args")
            continue
        rcv, ilf = gs[0], ilfs[0]
        name = message_common(ctx, f, p, ilf, seen)
        if name is None:
            continue
        # receivers
        islist = [hit(p, c) for c in p.calls_to("is_list") if c.args == (rcv,)]
        tf = typefact(p, rcv, "builtins.tuple", M + "LinkedList")
        many = islist[-1] if islist else tf
        if many is None:
            ctx.bad(f, "a single receiver is not told from a list of receivers", path=p, sub="receivers")
            continue
        AGENTS = A(A(AGENT, "env"), "agents")
        lookups = [(i, e) for i, e in enumerate(p.events) if e[0] == "call" and e[1][0] == "a" and e[1][2] == "append" and
                   e[2] and e[2][0][0] == "i" and e[2][0][1] == AGENTS]
        ds = deliveries(p)
        if ds and lookups and min(c.i for c in ds) < max(i for i, _ in lookups):
            ctx.bad(f, "something is delivered before every receiver is known", path=p, sub="atomic")
        names = []
        for i, e in lookups:
            key = e[2][0][2]
            base = key[1] if key[0] == "a" and key[2] == "functor" else key
            isat = [hit(p, c) for c in p.calls_to("is_atom") if c.args == (base,) or c.recv == base]
            if (isat[-1:] == [True]) != (key[0] == "a" and key[2] == "functor"):
                ctx.bad(f, "a receiver is not looked up by its name", path=p, sub="lookup")
            names.append((i, base))
        if many:
            ls = loops_over(p, lambda s: strip_conv(s) == rcv)
            if len(ls) != 1 or ls[0][1]["exhausted"] is None:
                ctx.bad(f, "does not look up all receivers", path=p, sub="receivers")
                continue
            for a, b in ls[0][1]["iters"]:
                sp = spans(p, ls[0][0], a, b)
                if [x for i, x in names if any(y < i < z for _, y, z in sp)] != [p.events[a][2]]:
                    ctx.bad(f, "a receiver is not looked up", path=p, sub="receivers")
        elif [x for i, x in names] != [rcv]:
            ctx.bad(f, "the receiver is not looked up", path=p, sub="receivers")
        lists = set(e[1][1] for i, e in lookups)
        if len(lists) > 1:
            ctx.bad(f, "the receivers are not collected in one list", path=p, sub="receivers")
        ls = [(i, l) for i, l in loops(p).items() if l["src"] is not None and
              (strip_conv(l["src"]) in lists or strip_conv(l["src"])[0] == "new" and not lists)]
        ls = [(i, l) for i, l in ls if not lookups or l["start"] > lookups[-1][0]]
        if not lookups:
            ls = ls[-1:]
        if len(ls) != 1 or ls[0][1]["exhausted"] is None:
            ctx.bad(f, "does not go through all receivers", path=p, sub="deliver")
            continue
        l = ls[0][1]
        for a, b in l["iters"]:
            c = [c for c in ds if a < c.i < b]
            if len(c) != 1 or c[0].recv != p.events[a][2]:
                ctx.bad(f, "a receiver does not get the message exactly once", path=p, sub="deliver")
                continue
            seen.add(name)
            check_delivery(ctx, f, p, c[0], name, arg, a, b)
        if any(inside(l, c.i) is None for c in ds):
            ctx.bad(f, "the message is delivered to somebody else", path=p, sub="deliver")
        if len(p.yields()) != 1 or p.yields()[0][0] < l["exhausted"]:
            ctx.bad(f, "does not succeed exactly once after the delivery", path=p, sub="yield")
    for n in sorted(PERFORMATIVES):
        if n not in seen:
            ctx.bad(f, "'%s' is never delivered" % n, sub="event-" + n)
    if "unknown" not in seen:
        ctx.bad(f, "an unknown performative is not an error", sub="performative")


@rule("message-broadcast", "P10 P03", floor=10)
def message_broadcast(ctx):
    """.broadcast delivers one event of the kind the performative stands for to every agent of the environment but
    the sender, with the frozen content annotated with the sender, and succeeds once."""
    f = action_func(ctx, ".broadcast", 2)
    seen = set()
    AGENTS = A(A(AGENT, "env"), "agents")
    skipped = False
    for p in ctx.paths(f):
        ilfs = [c.res for c in p.calls_to("grounded") if c.args[0] in argn(0, 2) and c.args[1] == SC]
        ctx.ob()
        if len(ilfs) != 1:
            ctx.bad(f, "the performative is not taken from the arguments", path=p, sub="args")
            continue
        ilf = ilfs[0]
        name = message_common(ctx, f, p, ilf, seen)
        if name is None:
            continue

        def src(s):
            s = copied(s)
            return s[0] == "call" and s[1][0] == "a" and s[1][1] == AGENTS and s[1][2] in ("values", "items", "itervalues", "iteritems") or s == AGENTS
        ls = loops_over(p, src)
        ds = deliveries(p)
        if len(ls) != 1 or ls[0][1]["exhausted"] is None:
            ctx.bad(f, "does not go through all agents of the environment", path=p, sub="agents")
            continue
        l = ls[0][1]
        goes = set()
        for a, b in l["iters"]:
            e = p.events[a][2]
            cand = {e, ("i", e, const(1)), ("i", AGENTS, e)}
            if e[0] == "tuple":
                cand |= set(e[1])
            sp = spans(p, ls[0][0], a, b)
            c = [c for c in ds if any(x < c.i < y for _, x, y in sp)]
            goes |= {k.i for k in c}
            if cut(p, a, b):
                ctx.bad(f, "an agent does not get the message exactly once", path=p, sub="deliver")
                continue
            other = None
            for x in cand:
                r = eqf(p, x, AGENT)
                if r is None:
                    r = eqf(p, A(x, "name"), A(AGENT, "name"))
                if r is not None:
                    other = not r
            if other is None:
                ctx.bad(f, "the sender is not told from the other agents", path=p, sub="self")
                continue
            if other is False:
                skipped = True
                if c:
                    ctx.bad(f, "the sender gets its own broadcast", path=p, sub="self")
                continue
            if len(c) != 1 or c[0].recv not in cand:
                ctx.bad(f, "an agent does not get the message exactly once", path=p, sub="deliver")
                continue
            seen.add(name)
            check_delivery(ctx, f, p, c[0], name, argn(1, 2), a, b)
        if any(c.i not in goes for c in ds):
            ctx.bad(f, "the message is delivered to somebody else", path=p, sub="deliver")
        if len(p.yields()) != 1 or p.yields()[0][0] < max([l["exhausted"]] + [c.i for c in ds]):
            ctx.bad(f, "does not succeed exactly once after the delivery", path=p, sub="yield")
    for n in ("tell", "untell", "achieve"):
        if n not in seen:
            ctx.bad(f, "'%s' is never delivered" % n, sub="event-" + n)
    if "unknown" not in seen:
        ctx.bad(f, "an unknown performative is not an error", sub="performative")


@rule("literal-annotation", "P10 P02", floor=2)
def literal_annotation(ctx):
    """Annotating a literal gives a new literal of the same functor and arguments with all old annotations and the
    new one; an atom has neither arguments nor annotations; a literal belongs to the group of its functor and arity."""
    f = ctx.prog.func(M + "Literal.with_annotation")
    for p in ctx.paths(f):
        ctx.ob()
        v = p.val
        if p.kind != "return" or not v or v[0] != "new" or v[1] != M + "Literal":
            ctx.bad(f, "does not give a new literal", path=p)
            continue
        if field(p, v, "functor") != A(SELF, "functor") or strip_conv(field(p, v, "args")) != A(SELF, "args"):
            ctx.bad(f, "changes functor or arguments", path=p, sub="content")
        an = strip_conv(field(p, v, "annots"))
        ok = any(t == A(SELF, "annots") for t in subterms(an)) and any(t == param("annot") for t in subterms(an))
        if an[0] == "new":
            ok = any(c.recv == an and c.name in ("add", "append") and c.args == (param("annot"),) for c in p.calls)
        elif an[0] == "call" and an[1][0] == "a" and an[1][2] != "union":
            ok = False
        elif an[0] == "bin" and an[1] not in ("|", "+"):
            ok = False
        if not ok:
            ctx.bad(f, "loses annotations", path=p, sub="annots")
    f = ctx.prog.func(M + "Literal.is_atom")
    for p in ctx.paths(f):
        ctx.ob()
        a, n = truthy(p, A(SELF, "args")), truthy(p, A(SELF, "annots"))
        if p.val == TRUE or p.val[0] in ("not",):
            if p.val == TRUE and not (a is False and n is False):
                ctx.bad(f, "a literal with arguments or annotations is an atom", path=p, sub="atom")
        elif p.val == FALSE and not (a or n):
            ctx.bad(f, "a literal without arguments and annotations is no atom", path=p, sub="atom")
    f = ctx.prog.func(M + "Literal.literal_group")
    for p in ctx.paths(f):
        ctx.ob()
        if p.val != ("tuple", (A(SELF, "functor"), ("len", A(SELF, "args")))):
            ctx.bad(f, "the group is not functor and arity", path=p, sub="group")


@rule("goal-drop", "P10", floor=4)
def goal_drop(ctx):
    """Dropping a goal looks at every intention and removes the running plan exactly if its goal has the functor of
    the term and its arguments unify with it."""
    f = ctx.prog.func(AG + "_unachieve")
    dropped = kept = False
    for p in ctx.paths(f):
        if p.kind == "raise":
            if not aslerr(p.val):
                ctx.bad(f, "an unexpected error escapes", path=p, sub="error")
            continue
        ctx.ob()
        removals = [c for c in p.calls if c.name in ("remove", "pop", "clear", "popleft") and c.recv is not None]
        ls = loops_over(p, lambda s: copied(s) == INTENTIONS)
        if len(ls) != 1 or ls[0][1]["exhausted"] is None:
            ctx.bad(f, "does not look at every intention", path=p, sub="all")
            continue
        l = ls[0][1]
        for a, b in l["iters"]:
            S = p.events[a][2]
            rm = [c for c in removals if a < c.i < b]
            heads = [t for e in p.events[a:b] for x in e[1:] if isinstance(x, tuple) for t in subterms(x)
                     if t and t[0] == "a" and t[2] == "head_term"]
            match = None
            for h in heads:
                fe = eqf(p, A(h, "functor"), A(TERM, "functor"))
                for c in p.calls_to("unifies", "unifies_annotated"):
                    if not a < c.i < b:
                        continue
                    if set(c.args[:2]) == {A(h, "args"), A(TERM, "args")} and fe or \
                            c.name == "unifies" and set(c.args[:2]) == {h, TERM}:
                        if not private(p, c, ls[0][0], b):
                            ctx.bad(f, "comparing one goal binds variables that the next comparison sees", c.node, p, "scope")
                        match = (h, hit(p, c))
            if rm:
                dropped = True
                if match is None or not match[1]:
                    ctx.bad(f, "a goal is dropped without matching the term", path=p, sub="match")
                elif not (len(rm) == 1 and rm[0].recv == S and
                          (rm[0].args == (match[0][1],) or rm[0].name == "pop" and not rm[0].args and match[0][1] == ("i", S, const(-1)))):
                    ctx.bad(f, "another plan than the matching one is dropped", path=p, sub="which")
            else:
                kept = True
                if match is not None and match[1]:
                    ctx.bad(f, "a matching goal is kept", path=p, sub="kept")
                elif match is None and truthy(p, S) is not False and not any(
                        eqf(p, A(h, "functor"), A(TERM, "functor")) is False or
                        eqf(p, h, NONE) is True or truthy(p, h) is False for h in heads):
                    ctx.bad(f, "a goal is kept without being compared", path=p, sub="kept")
        if any(inside(l, c.i) is None for c in removals if c.recv == INTENTIONS or c.recv[0] == "elem"):
            ctx.bad(f, "drops intentions without looking at their goal", path=p, sub="which")
    if not dropped:
        ctx.bad(f, "never drops a goal", sub="match")


# ---------------------------------------------------------------- waiting

@rule("action-wait", "P09", floor=10)
def action_wait(ctx):
    """.wait makes the intention wait for the event and until the given number of milliseconds from now; the number
    and the event come from the arguments in their order, other types are errors of the program."""
    regs = [r for r in ctx.prog.registrations() if r["functor"] == ".wait"]
    if not regs or regs[0]["func"] is None:
        raise AnalysisBroken("no implementation of .wait")
    kinds = set()
    for f in {r["func"].qual: r["func"] for r in regs}.values():
        for p in ctx.paths(f):
            if p.kind == "raise":
                if aslerr(p.val):
                    kinds.add("error")
                continue
            if p.kind != "return":
                continue
            ctx.ob()
            sets = [e for e in p.events if e[0] == "setattr" and e[2] == "waiter"]
            if len(sets) != 1 or sets[0][1] != INTENTION or sets[0][3][0] != "new" or sets[0][3][1] != R_ + "Waiter":
                ctx.bad(f, "the intention is not made to wait", path=p, sub="waiter")
                continue
            if len(p.yields()) != 1:
                ctx.bad(f, "does not succeed exactly once", path=p, sub="yield")
            w = sets[0][3]
            ev, un = [NONE if isnone(p, v) else v
                      for v in (field(p, w, "event"), field(p, w, "until"))]
            lens = [pol for pr, pol, _ in p.facts() if pr[0] == "eq" and const(2) in pr[1:] and any(x[0] == "len" for x in pr[1:])]
            two = lens[-1] if lens else None
            num0 = None
            if un != NONE:
                ok, src = deadline(un)
                if not ok:
                    ctx.bad(f, "the deadline is not the given number of milliseconds from now", path=p, sub="until")
                    continue
                k = 1 if two else 0
                if two is None or not taken(p, src, k, 2 if two else 1):
                    ctx.bad(f, "the time to wait is not the argument", path=p, sub="until")
                t = [hit(p, c) for c in p.calls_to("is_number") if c.args == (src,)]
                if True not in t:
                    ctx.bad(f, "a time that is no number is accepted", path=p, sub="type")
                kinds.add("time")
            if ev != NONE:
                kinds.add("event")
                if not (ev[0] == "call" and ev[1][0] == "a" and ev[1][2] in ("accept", "visit_event")):
                    ctx.bad(f, "the event is not compiled", path=p, sub="event")
                    continue
                pe = [c for c in p.calls_to("parse_event")]
                if len(pe) != 1:
                    ctx.bad(f, "the event is not parsed", path=p, sub="event")
                    continue
                end = [pol for pr, pol, i in p.facts() if pr[0] == "eq" and const(".") in pr[1:] and i > pe[0].i]
                if True not in end:
                    ctx.bad(f, "text after the event is ignored", path=p, sub="event")
                if not (mentions(ev[1][1], pe[0].res)):
                    ctx.bad(f, "another event is waited for", path=p, sub="event")
            for v, test, what in ((un, "is_number", "time"), (ev, "is_string", "event")):
                if v == NONE and any(hit(p, c) is True and not isnone(p, c.args[0]) for c in p.calls_to(test)):
                    ctx.bad(f, "a given %s is not waited for" % what, path=p, sub=what)
            if ev == NONE and un == NONE:
                # both arguments explicitly None never happens: one of them is given
                if not any(pr[0] in ("is", "eq") and NONE in pr[1:] for pr, _, _ in p.facts()):
                    ctx.bad(f, "waits for nothing", path=p, sub="nothing")
    for k, t in (("time", "never waits for a time"), ("event", "never waits for an event"), ("error", "arguments of a wrong type are no error")):
        if k not in kinds:
            ctx.bad(f, t, sub=k)


def isnone(p, v):
    return any(pr[0] in ("is", "eq") and pol and set(pr[1:]) == {NONE, v} for pr, pol, _ in p.facts())


def deadline(v):
    """time() + x / 1000 -> (True, x)"""
    if v[0] == "bin" and v[1] == "+":
        for a, b in ((v[2], v[3]), (v[3], v[2])):
            if is_call(a, "time") and a[1] == ("a", A(AGENT, "env"), "time"):
                if b[0] == "bin" and b[1] == "/" and b[3][0] == "c" and b[3][2] == 1000:
                    return True, b[2]
                if b[0] == "bin" and b[1] == "*":
                    for x, y in ((b[2], b[3]), (b[3], b[2])):
                        if y[0] == "c" and y[2] == 0.001:
                            return True, x
    return False, None

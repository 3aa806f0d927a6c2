"""Agents: belief base, events and plans, intentions, scheduling, waiting."""
from ..core import rule, A, G, AnalysisBroken, KNOWN
from ..flow import NONE, TRUE, FALSE, const, show, subterms
from ..pat import *
from .terms import rets, need_method, M
from .queries import pushes, rerolls, copied, is_lookup, aslerr

AG = R_ + "Agent."
CALLER = param("calling_intention")
CSC, CST = A(CALLER, "scope"), A(CALLER, "stack")
ADD, REM = G(M + "Trigger.addition"), G(M + "Trigger.removal")
GOALS = dict((n, G(M + "GoalType." + n)) for n in ("belief", "achievement", "test", "tellHow", "askHow"))
TRIG, GOAL, DELAYED = param("trigger"), param("goal_type"), param("delayed")
LITERAL = M + "Literal"
INTENTIONS = A(SELF, "intentions")


def call_paths(ctx, trigger, goal, delayed=None):
    args = {"trigger": trigger, "goal_type": GOALS[goal]}
    if delayed is not None:
        args["delayed"] = delayed
    return ctx.paths(AG + "call", args=args)


def truthy(p, v, upto=None):
    """What the path knows about v being non-empty / set."""
    for pred in (("truth", v), ("truth", ("len", v))):
        r = p.fact(pred, upto)
        if r is not None:
            return r
    r = None
    for pred, pol, i in p.facts(upto):
        if pred[0] in ("is", "eq") and set(pred[1:]) == {NONE, v}:
            r = not pol
        elif pred[0] == "eq" and set(pred[1:]) == {const(0), ("len", v)}:
            r = not pol
        elif pred == ("lt", const(0), ("len", v)):
            r = pol
        elif pred == ("lt", ("len", v), const(1)):
            r = not pol
    return r


def eqf(p, a, b):
    for pred, pol, i in reversed(p.facts()):
        if pred[0] in ("is", "eq") and set(pred[1:]) == {a, b}:
            return pol
    return None


def group_keys(t):
    return {("call", ("a", t, "literal_group"), (), 0), ("tuple", (A(t, "functor"), ("len", A(t, "args"))))}


def in_base(v, base, keys):
    return is_lookup(copied(v), base, keys)


def private(p, c, lid, b):
    """The match binds variables in tables of its own only, made for this iteration (or is undone in it)."""
    S, K = (c.args[2:] + (NONE, NONE))[:2]
    S, K = c.kw.get("scope", S), c.kw.get("stack", K)
    own = lambda v: v == NONE or v[0] == "new" and v[2] > lid
    if own(S) and own(K):
        return True
    return any(r.args[:2] == (S, K) and c.i < r.i < b and any(q.i < c.i and q.args == r.args[2:] for q in p.calls if q.recv == K and q.name == "append")
               for r in p.calls_to("reroll"))


# ---------------------------------------------------------- belief base

@rule("belief-add", "P04", floor=2)
def belief_add(ctx):
    """Adding a belief stores the grounded literal, once, under its own functor and arity; a term without a functor
    is an error."""
    f = ctx.prog.func(AG + "add_belief")
    stored = False
    for p in ctx.paths(f):
        ctx.ob()
        gs = [c for c in p.calls_to("grounded") if c.args == (TERM, SCOPE)]
        if len(gs) < 1:
            ctx.bad(f, "the belief is not made ground in the scope it comes from", path=p, sub="ground")
            continue
        g = gs[-1].res
        adds = [c for c in p.calls if c.name in ("add", "append", "update") and c.recv is not None and
                mentions(c.recv, A(SELF, "beliefs"))]
        if p.kind == "raise":
            if adds or not aslerr(p.val):
                ctx.bad(f, "a term that is no belief is stored or not reported", path=p, sub="error")
            continue
        if p.kind != "return":
            continue
        stored = True
        if len(adds) != 1:
            ctx.bad(f, "the belief is not stored exactly once", path=p, sub="store")
            continue
        if [c for c in p.calls if c.name in MUTATORS and c.name not in ("add", "append", "update", "setdefault") and
                c.recv is not None and mentions(c.recv, A(SELF, "beliefs"))] or \
                [e for e in p.events if e[0] in ("delitem", "delattr") and mentions(e[1], A(SELF, "beliefs"))]:
            ctx.bad(f, "storing a belief removes another one", path=p, sub="others")
        a = adds[0]
        if a.args != (g,):
            ctx.bad(f, "what is stored is not the grounded belief", a.node, p, "store")
        if not (in_base(a.recv, A(SELF, "beliefs"), group_keys(g)) or
                a.recv[0] == "call" and a.recv[1] == ("a", A(SELF, "beliefs"), "setdefault") and a.recv[2][0] in group_keys(g)):
            ctx.bad(f, "the belief is not stored under its functor and arity", a.node, p, "key")
        if eqf(p, A(g, "functor"), NONE) is not False and truthy(p, A(g, "functor")) is not True:
            ctx.bad(f, "a list without functor may be stored as a belief", path=p, sub="functor")
    if not stored:
        ctx.bad(f, "no belief is ever stored", sub="store")


@rule("belief-remove", "P05 P01", floor=5)
def belief_remove(ctx):
    """Removing takes exactly one belief that the pattern matches, annotations included, out of the base and leaves
    the pattern's variables bound to it; failed attempts leave no binding, and it reports failure only after
    every belief with the functor and arity was tried."""
    f = ctx.prog.func(AG + "remove_belief")
    S, K = A(INTENTION, "scope"), A(INTENTION, "stack")
    base = A(SELF, "beliefs")
    taken = failed_ = raised = False
    for p in ctx.paths(f):
        ctx.ob()
        ev = [c.res for c in p.calls_to("evaluate") if c.args == (TERM, S)]
        if not ev:
            ctx.bad(f, "the pattern is not evaluated in the scope of the intention", path=p, sub="evaluate")
            continue
        T = ev[-1]
        if p.kind == "raise":
            raised = raised or aslerr(p.val)
            if not aslerr(p.val):
                ctx.bad(f, "a term that is no literal is not reported as an error of the program", path=p, sub="error")
            continue
        if p.kind != "return":
            continue
        removes = [c for c in p.calls if c.name in ("remove", "discard", "pop", "clear", "difference_update") and
                   c.recv is not None and mentions(c.recv, base)]
        ls = loops_over(p, lambda s: in_base(s, base, group_keys(T)))
        tries = [c for c in p.calls_to("unifies_annotated", "unify_annotated", "unifies", "unify")]
        if len(ls) != 1:
            ctx.bad(f, "does not go through the beliefs with the functor and arity of the pattern", path=p, sub="beliefs")
            continue
        l = ls[0][1]
        last = None
        for n, (a, b) in enumerate(l["iters"]):
            e = p.events[a][2]
            us = [c for c in tries if a < c.i < b and c.name == "unifies_annotated" and c.args[:2] == (T, e)]
            if len(us) != 1:
                ctx.bad(f, "a belief is not matched against the pattern, annotations included", path=p, sub="match")
                continue
            u = us[0]
            if u.args[2:4] != (S, K):
                ctx.bad(f, "the match does not bind the variables of the intention", u.node, p, "scope")
            ok = hit(p, u)
            rm = [c for c in removes if u.i < c.i and (c.i < b or n == len(l["iters"]) - 1)]
            if ok:
                last = e
                if len(rm) != 1 or rm[0].args != (e,) or rm[0].name not in ("remove", "discard") or \
                        not in_base(rm[0].recv, base, group_keys(T)):
                    ctx.bad(f, "a belief that matches is not the one that is removed", path=p, sub="remove")
                if n != len(l["iters"]) - 1 or l["exhausted"] is not None:
                    ctx.bad(f, "goes on after a belief was removed", path=p, sub="one")
                if [c for c in rerolls(p, S, K) if c.i > u.i]:
                    ctx.bad(f, "the variables of the pattern are not left bound to the removed belief", path=p, sub="bind")
            else:
                if rm:
                    ctx.bad(f, "a belief that does not match is removed", path=p, sub="remove")
                ps = [c for c in pushes(p, K) if c.i < u.i]
                if not [c for c in rerolls(p, S, K) if c.i > u.i and any(c.args[2] == q.args[0] for q in ps)]:
                    ctx.bad(f, "bindings of an attempt that failed are kept", path=p, sub="undo")
        if removes and last is None:
            ctx.bad(f, "something is removed although nothing matched", path=p, sub="remove")
        if last is not None:
            taken = True
            if not (p.val == TRUE):
                ctx.bad(f, "a removal is reported as failed", path=p, sub="report")
        else:
            failed_ = True
            if l["exhausted"] is None:
                ctx.bad(f, "gives up before every belief was tried", path=p, sub="early")
            if p.val not in (FALSE, NONE):
                ctx.bad(f, "reports success although no belief was removed", path=p, sub="report")
    if not taken:
        ctx.bad(f, "no belief is ever removed", sub="remove")
    if not failed_:
        ctx.bad(f, "never reports that no belief matched", sub="report")


@rule("belief-test", "P06 P04", floor=3)
def belief_test(ctx):
    """Testing a belief succeeds exactly if the query for the evaluated literal has a solution, and keeps the
    bindings of the first solution."""
    f = ctx.prog.func(AG + "test_belief")
    S = A(INTENTION, "scope")
    got = set()
    for p in ctx.paths(f):
        ctx.ob()
        ev = [c.res for c in p.calls_to("evaluate") if c.args == (TERM, S)]
        if not ev:
            ctx.bad(f, "the term is not evaluated in the scope of the intention", path=p, sub="evaluate")
            continue
        T = ev[-1]
        if p.kind == "raise":
            if not aslerr(p.val):
                ctx.bad(f, "an unexpected error escapes", path=p, sub="error")
            if typefact(p, T, LITERAL):
                ctx.bad(f, "a literal is rejected", path=p, sub="error")
            got.add("error")
            continue
        if p.kind != "return":
            continue
        if typefact(p, T, LITERAL) is not True:
            ctx.bad(f, "something that is no literal is tested", path=p, sub="error")
        q = [e for e in p.events if e[0] == "new" and e[1] == R_ + "TermQuery"]
        if len(q) != 1 or q[0][2][:1] != (T,):
            ctx.bad(f, "the tested literal is not the one that is asked", path=p, sub="query")
            continue
        ex = [c for c in p.calls if is_execute(c.res, q[0][4], SELF, INTENTION)]
        if len(ex) != 1:
            ctx.bad(f, "the query is not asked of this agent in this intention", path=p, sub="query")
            continue
        sol = None
        ls = [l for _, l in loops(p).items() if l["src"] == ex[0].res]
        if ls:
            sol = bool(ls[0]["iters"])
        for c in p.calls_to("next"):
            if strip_conv(c.args[0]) == ex[0].res:
                sol = "StopIteration" not in excepts(p)
                for pr, pol, i in p.facts():
                    if pr[0] == "more":
                        sol = pol
        if sol is None:
            ctx.bad(f, "the answer does not depend on the query", path=p, sub="answer")
        elif sol and p.val != TRUE or not sol and p.val not in (FALSE, NONE):
            ctx.bad(f, "the answer is not whether the query has a solution", path=p, sub="answer")
        got.add(sol)
    for k in (True, False):
        if k not in got:
            ctx.bad(f, "never answers %s" % k, sub="answer")


@rule("belief-abolish", "P05", floor=3)
def belief_abolish(ctx):
    """Abolishing removes every belief with the functor and arity of the pattern that matches it, and no other,
    and succeeds exactly once."""
    f = action_func(ctx, ".abolish", 1)
    S = A(INTENTION, "scope")
    gone = kept = False
    for p in ctx.paths(f):
        if p.kind != "return":
            continue
        ctx.ob()
        arg = ("i", A(TERM, "args"), const(0))
        fz = [c.res for c in p.calls_to("freeze", "grounded", "evaluate") if c.args[:2] == (arg, S)]
        if not fz:
            ctx.bad(f, "the pattern is not taken in the scope of the intention", path=p, sub="pattern")
            continue
        T = fz[-1]
        base = A(AGENT, "beliefs")
        ls = loops_over(p, lambda s: in_base(s, base, group_keys(T)))
        if len(ls) != 1 or ls[0][1]["exhausted"] is None:
            ctx.bad(f, "does not go through all beliefs with the functor and arity of the pattern", path=p, sub="beliefs")
            continue
        l = ls[0][1]
        # collected in the walk and taken out at once after it
        bulk = {}
        for c in p.calls:
            if c.name == "difference_update" and c.i > l["exhausted"] and len(c.args) == 1 and in_base(c.recv, base, group_keys(T)):
                bulk[strip_conv(c.args[0])] = c.i
        for i, ev in enumerate(p.events):
            if ev[0] == "aug" and ev[2] == "-" and i > l["exhausted"] and in_base(ev[1], base, group_keys(T)) and \
                    ev[3][0] in ("new", "conv") and ev[3][1] in ("builtins.set", "set"):
                bulk[strip_conv(ev[3])] = i
        if l["iters"] and not bulk and strip_conv(l["src"]) == l["src"] and copied(l["src"]) == l["src"] and not is_snapshot(p, l):
            ctx.bad(f, "removes from the set it is walking", path=p, sub="snapshot")
        removes = [c for c in p.calls if c.name in ("remove", "discard", "clear", "pop", "difference_update") and c.recv is not None and
                   mentions(c.recv, base) and c.i not in bulk.values()]
        for a, b in l["iters"]:
            e = p.events[a][2]
            us = [c for c in p.calls_to("unifies_annotated") if a < c.i < b and c.args[:2] == (T, e)]
            if len(us) != 1:
                ctx.bad(f, "a belief is not matched against the pattern, annotations included", path=p, sub="match")
                continue
            if not private(p, us[0], ls[0][0], b):
                ctx.bad(f, "matching one belief binds variables that the next match sees", us[0].node, p, "scope")
            rm = [c for c in removes if a < c.i < b]
            rm += [c for c in p.calls if a < c.i < b and c.name in ("add", "append") and c.recv in bulk]
            ok = hit(p, us[0])
            if ok:
                gone = True
                if len(rm) != 1 or rm[0].args != (e,) or rm[0].name not in ("remove", "discard", "add", "append") or \
                        rm[0].name in ("add", "append") and rm[0].recv not in bulk:
                    ctx.bad(f, "a belief that matches is not removed", path=p, sub="remove")
            else:
                kept = True
                if rm:
                    ctx.bad(f, "a belief that does not match is removed", path=p, sub="keep")
        for c in removes:
            if not any(a < c.i < b for a, b in l["iters"]):
                ctx.bad(f, "removes something outside the walk over the matching beliefs", path=p, sub="keep")
        ys = p.yields()
        if len(ys) != 1 or ys[0][0] < l["exhausted"]:
            ctx.bad(f, "does not succeed exactly once after all matching beliefs are gone", path=p, sub="yield")
    if not gone:
        ctx.bad(f, "no belief is ever removed", sub="remove")
    if not kept:
        ctx.bad(f, "no belief is ever kept", sub="keep")


def is_snapshot(p, l):
    """list(x), tuple(x), x.copy() of the loop source: the engine strips list/tuple, so look at the node."""
    import ast
    it = getattr(l["node"], "iter", None)
    if isinstance(it, ast.Call):
        return True
    if isinstance(it, ast.Name):
        return True     # a name: bound elsewhere, cannot be told here
    return False


def action_func(ctx, functor, arity=None):
    r = ctx.prog.action(functor, arity)
    if r["func"] is None:
        raise AnalysisBroken("action %s/%s has no implementation in this repository" % (functor, arity))
    return r["func"]


MUTATORS = {"add", "remove", "discard", "pop", "clear", "update", "popitem", "append", "extend", "insert",
            "difference_update", "intersection_update", "symmetric_difference_update", "setdefault", "__setitem__",
            "__delitem__", "appendleft", "popleft", "rotate", "reverse", "sort", "extendleft", "move_to_end"}


def writers(ctx, field, skip=()):
    """(function, event, path) that may change X.field of some object or a container held in it."""
    out = []
    inlined = set()
    funcs = [f for f in ctx.prog.all_functions if f.parent is None and
             f.module.name not in ("agentspeak.optimizer", "agentspeak.parser", "agentspeak.lexer")]
    got = {}
    for f in funcs:
        if f.qual in KNOWN:
            if not any(n.attr == field for n in walk_attrs(f.node)) and not calls_new(ctx, f):
                continue
            if f.qual in (R_ + "repl",):
                continue
            got[f.qual] = ctx.paths(f)
            for p in got[f.qual][:1]:
                inlined |= p.inlined
    for f in funcs:
        if f.qual not in KNOWN and f.qual not in inlined and not getattr(f.node, "moved_back", False) and any(n.attr == field for n in walk_attrs(f.node)):
            got[f.qual] = ctx.paths(f)
    for q, ps in got.items():
        f = ctx.prog.functions[q]
        for p in ps:
            for i, e in enumerate(p.events):
                t = None
                if e[0] == "call" and e[1][0] == "a" and e[1][2] in MUTATORS:
                    t = e[1][1]
                    if not has_field(t, field):
                        continue
                elif e[0] in ("setitem", "delitem"):
                    t = e[1]
                    if not has_field(t, field):
                        continue
                elif e[0] == "setattr" and e[2] == field:
                    t = e[1]
                else:
                    continue
                out.append((f, i, e, p))
    return out


def has_field(t, field):
    """t is X.field, an entry of it, or an element of such an entry."""
    while True:
        if t[0] == "a" and t[2] == field:
            return True
        if t[0] == "i" or t[0] == "elem":
            t = t[1]
        elif t[0] == "call" and t[1][0] == "a" and t[1][2] in ("get", "values", "items", "setdefault", "pop", "copy"):
            if t[1][2] == "copy":
                return False
            t = t[1][1]
        else:
            return False


def walk_attrs(node):
    import ast
    return [n for n in ast.walk(node) if isinstance(n, ast.Attribute)]


def calls_new(ctx, f):
    """Does f call a function the rules do not know (and may be walked in place)?"""
    import ast
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
            if name and any(g.name == name and g.qual not in KNOWN for g in ctx.prog.all_functions):
                return True
    return False


@rule("belief-writers", "P04", floor=3)
def belief_writers(ctx):
    """Only adding, removing and abolishing beliefs change a belief base."""
    allowed = {AG + "__init__", AG + "add_belief", AG + "remove_belief", action_func(ctx, ".abolish", 1).qual}
    seen = set()
    for f, i, e, p in writers(ctx, "beliefs"):
        ctx.ob()
        seen.add(f.qual)
        if f.qual not in allowed:
            ctx.bad(f, "changes a belief base", e[-1], p)
    if AG + "add_belief" not in seen:
        ctx.bad(AG + "add_belief", "does not change the belief base")
    ctx.ob(len(seen))


def own(ctx, field, allowed, what, elements=False):
    """Only the functions given change X.field, and only in the ways given."""
    seen = set()
    for f, i, e, p in writers(ctx, field):
        t = e[1][1] if e[0] == "call" else e[1]
        if e[0] != "setattr" and not elements and t[0] == "elem":
            continue
        if e[0] == "setattr" and f.name == "__init__" and e[1] == SELF:
            continue
        how = e[1][2] if e[0] == "call" else e[0]
        ctx.ob()
        seen.add((f.qual, how))
        while t[0] == "i":
            t = t[1]
        if t[0] == "a" and f.qual.endswith("Environment.build_agents") and t[1][0] == "call" and t[1][1] == param("agent_cls") and how in ("extend", "setitem"):
            continue        # env-clone checks what a further agent gets
        if how not in allowed.get(f.qual, ()):
            ctx.bad(f, "changes %s (%s)" % (what, how), e[-1], p, how)
    ctx.ob(len(seen))


CHANGE = {"append", "remove", "setitem", "delitem", "pop"}


@rule("intention-writers", "P08", floor=3)
def intention_writers(ctx):
    """Only starting a goal adds an intention and only a step removes one; nothing reorders them."""
    own(ctx, "intentions", {AG + "call": {"append"}, AG + "step": {"popleft", "remove"}}, "the intentions of an agent")


@rule("plan-writers", "P06 P11", floor=3)
def plan_writers(ctx):
    """Only adding a plan and being told or untold one changes the plans of an agent; nothing reorders them."""
    own(ctx, "plans", {AG + "add_plan": {"append", "setitem", "setdefault"},
                       AG + "call": CHANGE, AG + "_untell_how": CHANGE, AG + "_tell_how": CHANGE}, "the plans of an agent", True)


@rule("rule-writers", "P14 P12", floor=1)
def rule_writers(ctx):
    """Only adding a rule changes the rules of an agent; nothing reorders them."""
    own(ctx, "rules", {AG + "add_rule": {"append", "setitem", "setdefault"}}, "the rules of an agent", True)


@rule("agent-writers", "P12 P10", floor=2)
def agent_writers(ctx):
    """Only building agents changes the agents of an environment."""
    own(ctx, "agents", {R_ + "Environment.build_agent_from_ast": {"setitem"}, R_ + "Environment.build_agents": {"setitem"}},
        "the agents of an environment", True)


@rule("action-writers", "P22 P12", floor=2)
def action_writers(ctx):
    """Only registering an action changes a registry: looking one up, running or building an agent do not."""
    allowed = {M + "Actions.add": {"setitem"}, R_ + "Environment.build_agent_from_ast": {"setattr"},
               R_ + "Environment.build_agents": {"setattr"}}
    own(ctx, "actions", allowed, "the actions", True)
    own(ctx, "variadic_actions", {M + "Actions.add": {"setitem"}}, "the actions of variable arity", True)


# ------------------------------------------------- events: Agent.call

@rule("call-belief", "P04 P05 P06", floor=30)
def call_belief(ctx):
    """A belief addition adds the belief before its event runs; a removal first removes, and without a removed
    belief there is no event."""
    f = ctx.prog.func(AG + "call")
    found = set()
    for p in call_paths(ctx, ADD, "belief"):
        ctx.ob()
        adds = p.calls_to("add_belief")
        if p.calls_to("remove_belief"):
            ctx.bad(f, "adding a belief removes one", path=p, sub="add")
        if len(adds) != 1 or adds[0].recv != SELF or adds[0].args != (TERM, CSC):
            ctx.bad(f, "the belief is not added exactly once, with the bindings of the caller", path=p, sub="add")
        elif any(c.i < adds[0].i for c in p.calls_to("execute", "unify_annotated", "unifies_annotated")):
            ctx.bad(f, "the event of a new belief is handled before the belief is there", path=p, sub="order")
    for p in call_paths(ctx, REM, "belief"):
        ctx.ob()
        rm = p.calls_to("remove_belief")
        if p.calls_to("add_belief"):
            ctx.bad(f, "removing a belief adds one", path=p, sub="remove")
        if len(rm) != 1 or rm[0].recv != SELF or rm[0].args != (TERM, CALLER):
            ctx.bad(f, "the belief is not removed exactly once, in the calling intention", path=p, sub="remove")
            continue
        ok = hit(p, rm[0])
        found.add(ok)
        effects = p.calls_to("execute", "unify_annotated", "unifies_annotated") or \
            [e for e in p.events if e[0] == "setattr"] or p.calls_to("append")
        if ok is False:
            if p.kind != "return" or p.val != TRUE:
                ctx.bad(f, "removing a belief that is not there is not silently true", path=p, sub="absent")
            if effects:
                ctx.bad(f, "an event happens although no belief was removed", path=p, sub="absent")
        elif ok is None:
            ctx.bad(f, "an event may happen although no belief was removed", path=p, sub="absent")
        else:
            fr = [c for c in p.calls_to("freeze") if c.args[:2] == (TERM, CSC)]
            if fr and not any(c.i > rm[0].i for c in fr):
                ctx.bad(f, "the event of a removed belief is made before its variables have values", fr[0].node, p, "freeze")
    if found and found != {True, False}:
        ctx.bad(f, "whether a belief was removed makes no difference", sub="absent")
    for goal in ("achievement", "test", "tellHow", "askHow"):
        for t in (ADD, REM):
            for p in call_paths(ctx, t, goal):
                ctx.ob()
                if p.calls_to("add_belief", "remove_belief"):
                    ctx.bad(f, "a goal event changes the belief base", path=p, sub="goal")


def frozen_of(p):
    for c in p.calls_to("freeze"):
        if c.args[:2] == (TERM, CSC):
            return c.res
    return None


@rule("call-wake", "P09", floor=60)
def call_wake(ctx):
    """Every event wakes exactly the intentions that wait for it: same trigger, same goal type, and a head that
    unifies with the event."""
    f = ctx.prog.func(AG + "call")
    for goal in GOALS:
        for trig in (ADD, REM):
            woken = False
            for p in call_paths(ctx, trig, goal):
                fz = frozen_of(p)
                if p.kind == "raise" and (fz is None or typefact(p, fz, LITERAL) is False):
                    continue
                if goal == "belief" and trig == REM and any(hit(p, c) is False for c in p.calls_to("remove_belief")):
                    continue
                ctx.ob()
                if fz is None:
                    ctx.bad(f, "the event is not frozen in the scope of the caller", path=p, sub="freeze")
                    continue
                ls = [(n, l) for n, l in loops_over(p, lambda s: strip_conv(s) == INTENTIONS) if l["exhausted"] is not None]
                if not ls:
                    ctx.bad(f, "waiting intentions are not looked at", path=p, sub="walk")
                    continue
                lid, first = ls[0]
                hs = [c for c in p.calls_to("execute", "append")]
                for a, b in first["iters"]:
                    el = p.events[a][2]
                    I = ("i", el, const(-1))
                    W = A(I, "waiter")
                    E = A(W, "event")
                    sets = [e for e in during(p, a, b) if e[0] == "setattr" and e[2] == "waiter"]
                    us = [c for c in p.calls_to("unifies_annotated") if c.args[:2] == (A(E, "head"), fz)]
                    if us and not private(p, us[0], lid, b):
                        ctx.bad(f, "comparing an event with the one waited for binds variables of the program", us[0].node, p, "scope")
                    conds = {"trigger": eqf(p, A(E, "trigger"), trig), "goal type": eqf(p, A(E, "goal_type"), GOALS[goal]),
                             "head": hit(p, us[0]) if us else None}
                    tup = ("tuple", (A(E, "trigger"), A(E, "goal_type"))), ("tuple", (trig, GOALS[goal]))
                    te = eqf(p, *tup)
                    if te is True:
                        conds["trigger"] = conds["goal type"] = True
                    if sets:
                        woken = True
                        if any(e[1] != I or e[3] != NONE for e in sets):
                            ctx.bad(f, "wakes something else than the waiting intention", path=p, sub="wake")
                        for k, v in sorted(conds.items()):
                            if v is not True:
                                ctx.bad(f, "an intention is woken although the %s of the event was not compared" % k, path=p, sub=k)
                        if truthy(p, E) is False or truthy(p, W) is False:
                            ctx.bad(f, "an intention that waits for no event is woken", path=p, sub="event")
                    else:
                        if cut(p, a, b):
                            ctx.bad(f, "not every waiting intention is looked at", path=p, sub="walk")
                        no = [truthy(p, el), truthy(p, W), truthy(p, E), te] + list(conds.values())
                        if False not in no and not excepts(p):
                            ctx.bad(f, "an intention that waits for this event is not woken", path=p, sub="wake")
            if not woken:
                ctx.bad(f, "no intention is woken by %s %s" % (show(trig).rsplit(".", 1)[-1], goal), sub="wake")


def plan_lookup(v, trig, goal, fz):
    key = ("tuple", (trig, goal, A(fz, "functor"), ("len", A(fz, "args"))))
    return is_lookup(v, A(SELF, "plans"), {key})


@rule("call-select", "P06 P01", floor=60)
def call_select(ctx):
    """The plan that runs is the first in the list for the event's trigger, goal type, functor and arity whose head
    unifies with the event and whose context then has a solution; it runs once, with those bindings."""
    f = ctx.prog.func(AG + "call")
    for goal, trig in (("belief", ADD), ("belief", REM), ("achievement", ADD), ("test", ADD), ("test", REM)):
        ran = fell = False
        for p in call_paths(ctx, trig, goal):
            fz = frozen_of(p)
            if fz is None or typefact(p, fz, LITERAL) is False:
                if p.kind == "raise" and not aslerr(p.val):
                    ctx.bad(f, "an event that is no literal is not an error of the program", path=p, sub="literal")
                if p.kind == "return" and not (goal == "belief" and trig == REM):
                    ctx.bad(f, "an event is ignored", path=p, sub="ignored")
                continue
            if goal == "belief" and trig == REM and any(hit(p, c) is False for c in p.calls_to("remove_belief")):
                continue
            ctx.ob()
            ls = loops_over(p, lambda s: plan_lookup(copied(s), trig, GOALS[goal], fz))
            if len(ls) != 1:
                ctx.bad(f, "does not go through the plans for the event's trigger, goal type, functor and arity", path=p, sub="plans")
                continue
            l = ls[0][1]
            ok = check_selection(ctx, f, p, l, fz)
            if ok is True:
                ran = True
            elif ok is False:
                fell = True
                if goal == "achievement":
                    if p.kind != "raise" or not aslerr(p.val):
                        ctx.bad(f, "an achievement goal without applicable plan is not an error", path=p, sub="noplan")
                elif goal == "test":
                    tb = [c for c in p.calls_to("test_belief") if c.recv == SELF and c.args == (TERM, CALLER)]
                    if p.kind != "return" or not tb or p.val != tb[-1].res:
                        ctx.bad(f, "a test goal without applicable plan is not answered from the belief base", path=p, sub="noplan")
                else:
                    if p.kind != "return" or p.val != TRUE:
                        ctx.bad(f, "a belief event without applicable plan is not ignored", path=p, sub="noplan")
        if not ran:
            ctx.bad(f, "no plan is ever run for %s" % goal, sub="run")
        if not fell:
            ctx.bad(f, "it is never noticed that no plan is applicable for %s" % goal, sub="noplan")


def check_selection(ctx, f, p, l, fz):
    """-> True: a plan runs, False: none does, None: reported."""
    chosen = None
    for n, (a, b) in enumerate(l["iters"]):
        e = p.events[a][2]
        heads = [(i, x) for i, x in loops(p).items() if a < x["start"] < b and x["src"] is not None and
                 is_call(x["src"], "unify_annotated") and [c for c in p.calls if c.res == x["src"]]]
        heads = [(i, x) for i, x in heads if [c for c in p.calls if c.res == x["src"]][0].args[:2] == (A(e, "head"), fz)]
        if len(heads) != 1:
            ctx.bad(f, "the head of a plan is not unified with the event", path=p, sub="head")
            return None
        h = heads[0][1]
        uc = [c for c in p.calls if c.res == h["src"]][0]
        for x, y in h["iters"]:
            cs = [(i, q) for i, q in loops(p).items() if x < q["start"] < y and q["src"] is not None and
                  q["src"][0] == "call" and q["src"][1] == ("a", A(e, "context"), "execute")]
            if len(cs) != 1:
                ctx.bad(f, "the context of a plan is not asked once its head unifies", path=p, sub="context")
                return None
            q = cs[0][1]
            if q["src"][2][:1] != (SELF,) or len(q["src"][2]) != 2:
                ctx.bad(f, "the context is not asked of this agent", path=p, sub="context")
                return None
            I = q["src"][2][1]
            if I[0] != "new" or I[1] != R_ + "Intention":
                ctx.bad(f, "the plan does not run in an intention of its own", path=p, sub="intention")
                return None
            if uc.args[2:4] != (field(p, I, "scope", uc.i), field(p, I, "stack", uc.i)):
                ctx.bad(f, "the head is not unified in the scope the plan runs in", path=p, sub="scope")
            for s, t in q["iters"]:
                chosen = (n, e, I, s)
        # context exhausted without solution, and head solutions exhausted
        if chosen is None:
            if h["exhausted"] is None:
                ctx.bad(f, "a plan is given up before every way its head unifies was tried", path=p, sub="early")
    effects = [c for c in p.calls if c.name in ("append", "appendleft", "insert") and c.args and (
        c.recv == INTENTIONS or c.recv[0] == "elem" and strip_conv(c.recv[1]) == INTENTIONS)]
    if chosen is None:
        if l["exhausted"] is None:
            ctx.bad(f, "stops before every plan was tried", path=p, sub="early")
        if effects:
            ctx.bad(f, "something runs although no plan is applicable", path=p, sub="run")
        return False
    n, e, I, at = chosen
    if n != len(l["iters"]) - 1 or p.kind != "return" or p.val != TRUE:
        ctx.bad(f, "goes on after an applicable plan was found", path=p, sub="first")
        return None
    iters_of_ctx = [x for x in p.events[at:] if x[0] == "iter" and x[2] is not None and x[2][0] == "elem" and
                    x[2][1][0] == "call" and x[2][1][1][0] == "a" and x[2][1][1][2] == "execute"]
    if len(iters_of_ctx) > 1:
        ctx.bad(f, "does not stop at the first solution of the context", path=p, sub="first")
    for name, want in (("head_term", fz), ("instr", A(e, "body")), ("calling_term", TERM)):
        got = field(p, I, name)
        if got != want:
            ctx.bad(f, "the %s of the new intention is %s" % (name, show(got)), path=p, sub=name)
    if len(effects) != 1:
        ctx.bad(f, "the plan is not scheduled exactly once", path=p, sub="schedule")
        return None
    return True


@rule("call-place", "P07 P08", floor=10)
def call_place(ctx):
    """A subgoal goes on top of the intention stack whose top is the caller, a delayed one into a stack of its own
    at the end of the agent's intentions; an event from outside also gets a stack of its own."""
    f = ctx.prog.func(AG + "call")
    kinds = set()
    for goal, trig in (("belief", ADD), ("belief", REM), ("achievement", ADD), ("test", ADD)):
        for p in call_paths(ctx, trig, goal):
            effects = [c for c in p.calls if c.name in ("append", "appendleft", "insert") and c.args and (
                c.recv == INTENTIONS or c.recv[0] == "elem" and strip_conv(c.recv[1]) == INTENTIONS)]
            if not effects:
                continue
            ctx.ob()
            c = effects[0]
            delayed = p.fact(("truth", DELAYED))
            if c.recv == INTENTIONS:
                stack = c.args[-1]
                kinds.add("own")
                if c.name != "append":
                    ctx.bad(f, "a new intention is not put behind the others", c.node, p, "order")
                inner = [x for x in p.calls if x.recv == stack and x.name == "append" and x.args[0][0] == "new"]
                intent = [x.args[0] for x in inner]
                if stack[0] == "conv" and stack[2][0] in ("list", "tuple", "new"):
                    intent = [t for t in subterms(stack) if t and t[0] == "new" and t[1] == R_ + "Intention"]
                if not intent and stack[0] in ("new", "list", "call", "conv"):
                    intent = [t for t in subterms(stack) if t and t[0] == "new" and t[1] == R_ + "Intention"]
                if len(intent) != 1 or intent[0][1] != R_ + "Intention":
                    ctx.bad(f, "the new stack does not hold exactly the new intention", path=p, sub="own")
                if delayed is not True and truthy(p, INTENTIONS) is not False:
                    ls = [l for _, l in loops_over(p, lambda s: copied(s) == INTENTIONS)]
                    l = ls[-1] if len(ls) > 1 else None
                    if l is None or l["exhausted"] is None:
                        ctx.bad(f, "a subgoal gets a stack of its own without looking for its caller", path=p, sub="caller")
                    else:
                        for a, b in l["iters"]:
                            el = p.events[a][2]
                            top = ("i", el, const(-1))
                            if truthy(p, el) is not False and eqf(p, top, CALLER) is not False:
                                ctx.bad(f, "a subgoal does not go to the stack of its caller", path=p, sub="caller")
            else:
                kinds.add("caller")
                el = c.recv
                top = ("i", el, const(-1))
                if c.name != "append":
                    ctx.bad(f, "a subgoal does not go on top of its caller", c.node, p, "top")
                if eqf(p, top, CALLER) is not True:
                    ctx.bad(f, "a subgoal goes on top of an intention that was not found to be its caller", path=p, sub="caller")
                if delayed is not False:
                    ctx.bad(f, "a delayed goal goes on top of its caller", path=p, sub="delayed")
                if c.args[-1][0] != "new" or c.args[-1][1] != R_ + "Intention":
                    ctx.bad(f, "what goes on top of the caller is not the new intention", path=p, sub="top")
    for k in ("own", "caller"):
        if k not in kinds:
            ctx.bad(f, "no intention is ever put on %s" % ("a stack of its own" if k == "own" else "the stack of its caller"), sub=k)
    d = f.default("delayed")
    import ast
    ctx.ob()
    if d is None or not (isinstance(d, ast.Constant) and d.value is False):
        ctx.bad(f, "goals are delayed unless said otherwise", sub="default")


@rule("call-special", "P10 P11", floor=10)
def call_special(ctx):
    """Dropping a goal, telling, asking and untelling plans are answered by their own operation and never run a
    plan."""
    f = ctx.prog.func(AG + "call")
    for trig, goal, ops in ((REM, "achievement", {"_unachieve"}), (ADD, "tellHow", {"_tell_how"}), (ADD, "askHow", {"_ask_how"}),
                            (REM, "tellHow", {"_untell_how"})):
        ps = ctx.paths(AG + "call", args={"trigger": trig, "goal_type": GOALS[goal]}, opaque=(
            AG + "_unachieve", AG + "_tell_how", AG + "_ask_how", AG + "_untell_how"))
        some = False
        for p in ps:
            fz = frozen_of(p)
            if p.kind == "raise" and (fz is None or typefact(p, fz, LITERAL) is False):
                continue
            ctx.ob()
            cs = [c for c in p.calls if c.name in ("_unachieve", "_tell_how", "_ask_how", "_untell_how")]
            if len(cs) != 1 or cs[0].name not in ops or cs[0].args != (TERM,) or cs[0].recv not in (SELF,):
                ctx.bad(f, "%s %s is not answered by its own operation" % (show(trig).rsplit(".", 1)[-1], goal), path=p, sub=goal)
                continue
            some = True
            if p.calls_to("execute"):
                ctx.bad(f, "%s %s runs a plan" % (show(trig).rsplit(".", 1)[-1], goal), path=p, sub=goal)
            if p.kind == "return" and p.val not in (TRUE, cs[0].res, NONE):
                ctx.bad(f, "%s %s reports failure" % (show(trig).rsplit(".", 1)[-1], goal), path=p, sub=goal)
        if not some:
            ctx.bad(f, "%s is never handled" % goal, sub=goal)


# ------------------------------------------------------------ scheduling

def step_view(p):
    """The stack a step works on: element of the loop over the intentions that was left by break, or the element
    later events use."""
    ls = [l for _, l in loops_over(p, lambda s: copied(s) == INTENTIONS)]
    return ls[0] if ls else None


@rule("step-choice", "P08 P09", floor=20)
def step_choice(ctx):
    """A step works on the first intention that is not waiting; an intention is passed over only while it waits
    and its deadline has not passed; a step reports that nothing is to be done only if every intention waits."""
    f = ctx.prog.func(AG + "step")
    idle = worked = False
    for p in ctx.paths(f):
        ctx.ob()
        act = acted(p)
        l = step_view(p)
        pops = [c for c in p.calls if c.recv == INTENTIONS and c.name in ("popleft", "pop", "clear", "remove")]
        for c in pops:
            if c.name == "popleft":
                if truthy_before(p, ("i", INTENTIONS, const(0)), c.i) is not False:
                    ctx.bad(f, "an intention that is not finished is dropped", c.node, p, "drop")
        if l is None:
            if act or p.val not in (FALSE, NONE) or truthy(p, INTENTIONS) is not False:
                ctx.bad(f, "does not look at the intentions in order", path=p, sub="order")
            continue
        n = len(l["iters"])
        chosen = None
        for k, (a, b) in enumerate(l["iters"]):
            el = p.events[a][2]
            I = ("i", el, const(-1))
            W = A(I, "waiter")
            polls = [c for c in p.calls_to("poll") if a < c.i < b and c.recv == W]
            clears = [e for e in p.events[a:b] if e[0] == "setattr" and e[2] == "waiter"]
            for e in clears:
                if e[1] != I or e[3] != NONE:
                    ctx.bad(f, "changes another waiter than the one that is due", path=p, sub="clear")
            due = any(hit(p, c) is True for c in polls)
            if clears and not due:
                ctx.bad(f, "an intention stops waiting before its deadline", path=p, sub="clear")
            for c in polls:
                if c.args != (A(SELF, "env"),):
                    ctx.bad(f, "the deadline is not compared with the time of the environment", path=p, sub="poll")
            empty = truthy(p, el) is False
            waits = truthy(p, W, b) is True and any(hit(p, c) is False for c in polls)
            last = k == n - 1
            left = last and l["exhausted"] is None
            if not left:
                if due and not clears:
                    ctx.bad(f, "an intention whose deadline has passed keeps waiting", path=p, sub="due")
                if not empty and not waits:
                    ctx.bad(f, "an intention that can run is passed over", path=p, sub="skip")
            else:
                if waits and not due:
                    ctx.bad(f, "an intention runs although it is waiting", path=p, sub="wait")
                if not empty and truthy(p, W, l["iters"][-1][1] if l["broke"] is None else l["broke"]) is not False and not due \
                        and truthy(p, W) is not False:
                    ctx.bad(f, "an intention runs although it may be waiting", path=p, sub="wait")
                chosen = el
        if l["exhausted"] is not None and chosen is None:
            idle = True
            if act:
                ctx.bad(f, "something runs although every intention waits", path=p, sub="idle")
            if p.kind != "return" or p.val not in (FALSE, NONE):
                ctx.bad(f, "reports work although every intention waits", path=p, sub="idle")
        elif chosen is not None:
            if truthy(p, chosen) is False and not act:
                if p.fact(("truth", chosen)) is not None and not any(pr == ("truth", chosen) and pol for pr, pol, _ in p.facts()):
                    ctx.bad(f, "an empty intention keeps the others from running", path=p, sub="empty")
                continue
            if act and p.kind == "return":
                worked = True
                if p.val != TRUE:
                    ctx.bad(f, "reports no work although something ran", path=p, sub="report")
            if not act and p.kind == "return":
                ctx.bad(f, "an intention that can run does not run", path=p, sub="run")
    if not idle:
        ctx.bad(f, "never reports that there is nothing to do", sub="idle")
    if not worked:
        ctx.bad(f, "never reports work", sub="report")


def truthy_before(p, v, i):
    return truthy(p, v, i) if truthy(p, v, i) is not None else truthy(p, v[:3], i)


def instr_calls(p):
    return [c for c in p.calls if c.ev[1][0] == "a" and c.ev[1][2] == "f" and c.ev[1][1][0] == "a" and c.ev[1][1][2] == "instr"]


def acted(p):
    return bool(instr_calls(p)) or any(c.name == "pop" and c.recv is not None and c.recv[0] == "elem" and
                                       strip_conv(c.recv[1]) == INTENTIONS for c in p.calls)


@rule("step-instr", "P08 P13 P23", floor=20)
def step_instr(ctx):
    """A step runs one instruction with the agent and its intention and continues at its success or failure
    successor; without a failure successor the plan fails with an error."""
    f = ctx.prog.func(AG + "step")
    seen = set()
    for p in ctx.paths(f):
        ic = instr_calls(p)
        if not ic:
            continue
        ctx.ob()
        c = ic[0]
        if len(ic) > 1:
            ctx.bad(f, "more than one instruction runs in a step", path=p, sub="one")
        instr = c.ev[1][1]
        I = instr[1]
        if c.args != (SELF, I):
            ctx.bad(f, "the instruction does not get the agent and the intention it belongs to", path=p, sub="args")
        if not (I[0] == "i" and I[2] == const(-1) and I[1][0] == "elem"):
            ctx.bad(f, "the instruction is not the one on top of the intention", path=p, sub="top")
        ok = hit(p, c)
        sets = [e for e in p.events[c.i:] if e[0] == "setattr" and e[2] == "instr"]
        if p.kind == "return":
            want = A(instr, "success") if ok else A(instr, "failure")
            seen.add(ok)
            if ok is None:
                ctx.bad(f, "the outcome of the instruction is not looked at", path=p, sub="outcome")
                continue
            if len(sets) != 1 or sets[0][1] != I or sets[0][3] != want:
                ctx.bad(f, "does not continue at the %s successor" % ("success" if ok else "failure"), path=p, sub="next")
            if not ok and truthy(p, want) is not True:
                ctx.bad(f, "a failure without failure successor is not reported", path=p, sub="failure")
        elif p.kind == "raise" and ok is False and truthy(p, A(instr, "failure")) is False:
            seen.add("failure")
    for k, t in ((True, "no instruction ever succeeds"), (False, "no instruction ever continues at its failure successor"),
                 ("failure", "a plan never fails")):
        if k not in seen:
            ctx.bad(f, t, sub=str(k))


@rule("step-finish", "P07 P08", floor=8)
def step_finish(ctx):
    """A finished plan leaves its intention stack, an empty stack leaves the agent, and otherwise the final head of
    the plan is unified with the term it was called with, in the scope of the caller."""
    f = ctx.prog.func(AG + "step")
    seen = set()
    for p in ctx.paths(f):
        pops = [c for c in p.calls if c.name in ("pop", "popleft", "remove", "clear") and c.recv is not None and
                c.recv[0] == "elem" and strip_conv(c.recv[1]) == INTENTIONS]
        if not pops:
            if [c for c in p.calls if c.recv == INTENTIONS and c.name == "remove"]:
                ctx.bad(f, "an intention that is not finished is dropped", path=p, sub="drop")
            continue
        ctx.ob()
        c = pops[0]
        S = c.recv
        I = ("i", S, const(-1))
        if len(pops) != 1 or c.name != "pop" or c.args:
            ctx.bad(f, "a finished plan is not the only thing that leaves its stack", path=p, sub="pop")
        if truthy(p, A(I, "instr"), c.i) is not False:
            ctx.bad(f, "a plan that is not finished leaves its stack", path=p, sub="pop")
        if instr_calls(p):
            ctx.bad(f, "runs an instruction after a plan was finished in the same step", path=p, sub="one")
        left = truthy_after(p, S, c.i)
        rm = [x for x in p.calls if x.recv == INTENTIONS and x.name in ("remove", "popleft", "pop", "clear") and x.i > c.i]
        us = [x for x in p.calls_to("unify", "unify_annotated") if x.i > c.i]
        if left is False:
            seen.add("empty")
            if len(rm) != 1 or rm[0].name != "remove" or rm[0].args != (S,):
                ctx.bad(f, "an empty intention stack is not removed", path=p, sub="empty")
            if us:
                ctx.bad(f, "unifies with a caller that does not exist", path=p, sub="empty")
        elif left is True:
            if rm:
                ctx.bad(f, "an intention that is not finished is dropped", path=p, sub="drop")
            ct = truthy(p, A(I, "calling_term"))
            C = ("i", S, const(-1), 1)
            if ct is False:
                seen.add("none")
                if us:
                    ctx.bad(f, "unifies with a caller that did not call", path=p, sub="back")
                continue
            fz = [x.res for x in p.calls_to("freeze", "grounded", "evaluate") if x.args[:2] == (A(I, "head_term"), A(I, "scope"))]
            good = [x for x in us if len(x.args) == 4 and set(x.args[:2]) == {A(I, "calling_term"), fz[-1] if fz else None} and
                    x.args[2:] == (A(C, "scope"), A(C, "stack"))]
            if len(us) != 1 or len(good) != 1:
                ctx.bad(f, "the result of a subgoal is not handed to its caller by unifying the final head with the called "
                        "term in the scope of the caller", path=p, sub="back")
                continue
            seen.add("back")
            r = hit(p, good[0])
            if r is False and p.kind != "raise":
                ctx.bad(f, "a result that does not fit the call is ignored", path=p, sub="back")
            if r is not False and p.kind != "return":
                ctx.bad(f, "a result that fits the call is an error", path=p, sub="back")
        else:
            ctx.bad(f, "does not look whether the intention stack is empty after a plan has finished", path=p, sub="empty")
    for k, t in (("empty", "no intention is ever removed"), ("back", "no result is ever handed to a caller")):
        if k not in seen:
            ctx.bad(f, t, sub=k)


def truthy_after(p, v, i):
    r = None
    for k, e in enumerate(p.events):
        if k > i and e[0] == "fact" and e[1] in (("truth", v), ("truth", ("len", v))):
            r = e[2]
        elif k > i and e[0] == "fact" and e[1][0] == "eq" and set(e[1][1:]) == {const(0), ("len", v)}:
            r = not e[2]
        elif k > i and e[0] == "fact" and e[1] == ("lt", const(0), ("len", v)):
            r = e[2]
    return r


@rule("step-errors", "P23", floor=4)
def step_errors(ctx):
    """Whatever an instruction raises reaches the caller as an error of the program that names the source location
    of the instruction, and for foreign exceptions the agent; nothing is swallowed."""
    f = ctx.prog.func(AG + "step")
    kinds = set()
    for p in ctx.paths(f):
        ic = instr_calls(p)
        tried = [e for e in p.events if e[0] == "except"]
        if not tried and not (ic and p.kind == "raise"):
            continue
        ctx.ob()
        if p.kind != "raise":
            ctx.bad(f, "an error of an instruction is swallowed", path=p, sub="swallow")
            continue
        v = p.val
        cs = [c for c in p.calls if c.res == v and c.name in ("error", "exception")]
        if not cs:
            ctx.bad(f, "an error of an instruction is not reported with its location", path=p, sub="raw")
            continue
        c = cs[0]
        instr = ic[0].ev[1][1] if ic else None
        loc = c.kw.get("loc")
        if loc is None or not (loc[0] == "a" and loc[2] == "loc" and (instr is None or loc[1] == instr)):
            ctx.bad(f, "the report does not name the location of the instruction", path=p, sub="loc")
        what = tried[-1][1].rsplit(".", 1)[-1] if tried else ""
        exc = [a for a in c.args if a[0] in ("exc", "new") or a[0] == "call" and any(t and t[0] in ("exc", "new") for t in subterms(a))]
        kinds.add(what)
        for a in exc:
            if a[:2] == ("new", M + "AslError") or p.fact(("isinst", a, (M + "AslError",))) is True:
                what = "AslError"
        if not exc:
            ctx.bad(f, "the report does not say what went wrong", path=p, sub="text")
        if what != "AslError" and not any(mentions(a, A(SELF, "name")) for a in c.args):
            ctx.bad(f, "the report of a foreign exception does not name the agent", path=p, sub="agent")
    if "AslError" not in kinds and not kinds & {"Exception", "BaseException"}:
        ctx.bad(f, "errors of the program are not caught", sub="AslError")
    if not kinds & {"Exception", "BaseException"}:
        ctx.bad(f, "foreign exceptions are not caught", sub="Exception")


@rule("waiter-poll", "P09", floor=2)
def waiter_poll(ctx):
    """A waiter is due exactly if it has a deadline and the clock of the environment has passed it."""
    f = ctx.prog.func(R_ + "Waiter.poll")
    U = A(SELF, "until")
    seen = set()
    for p in rets(ctx.paths(f)):
        ctx.ob()
        t = [c.res for c in p.calls_to("time") if c.recv == param("env")]
        passed = None
        for pred, pol, i in p.facts():
            for x in t:
                if pred == ("lt", U, x):
                    passed = pol
                elif pred == ("lt", x, U):
                    passed = not pol
        nodl = eqf(p, U, NONE)
        v = p.val
        if v in (TRUE, FALSE, NONE):
            if v == TRUE:
                seen.add(True)
                if passed is not True:
                    ctx.bad(f, "is due although the deadline has not passed", path=p, sub="due")
            else:
                seen.add(False)
                if not (nodl is True or passed is False):
                    ctx.bad(f, "is not due although the deadline has passed", path=p, sub="due")
        else:
            ctx.bad(f, "the answer is not whether the deadline has passed", path=p, sub="answer")
    if True not in seen:
        ctx.bad(f, "is never due", sub="due")


def running(ctx, f):
    """Does the function compare the values itself, instead of leaving it to min() or sorted()?"""
    return any(pr[0] == "lt" for p in ctx.paths(f, unroll=2) for pr, _, _ in p.facts())


@rule("deadlines", "P09 P08", floor=6)
def deadlines(ctx):
    """The next deadline of an agent is the earliest one of all its waiting intentions that have one."""
    f = ctx.prog.func(AG + "shortest_deadline")
    some = none = False
    added = False
    if running(ctx, f):
        for p in rets(ctx.paths(f, unroll=2)):
            ctx.ob()
            v = p.val
            # who waits on this path, and until when
            tops = {p.events[a][2] for _, l in loops_over(p, lambda s: strip_conv(s) == INTENTIONS) for a, b in l["iters"]}
            if any(l["exhausted"] is None or any(cut(p, a, b) for a, b in l["iters"])
                   for _, l in loops_over(p, lambda s: strip_conv(s) == INTENTIONS)):
                ctx.bad(f, "not every waiting intention is looked at", path=p, sub="all")
            waits = [A(A(("i", el, const(-1)), "waiter"), "until") for el in tops
                     if truthy(p, el) is not False and truthy(p, A(("i", el, const(-1)), "waiter")) is not False]
            due = [u for u in waits if eqf(p, u, NONE) is not True]
            if v == NONE:
                none = none or not due
                if due:
                    ctx.bad(f, "a deadline is left out", path=p, sub="all")
            elif v not in due:
                ctx.bad(f, "the deadline is %s" % show(v), path=p, sub="min")
            else:
                some = True
                if eqf(p, v, NONE) is not False:
                    ctx.bad(f, "an intention without deadline counts", path=p, sub="none")
                for u in due:
                    if u != v and not any(pr[0] == "lt" and (pr[1:] == (v, u) and pol or pr[1:] == (u, v) and not pol)
                                          for pr, pol, _ in p.facts()):
                        ctx.bad(f, "the deadline is not the earliest one", path=p, sub="min")
        if not none:
            ctx.bad(f, "an agent without deadlines has one", sub="none")
        if not some:
            ctx.bad(f, "no deadline is ever found", sub="some")
        return
    for p in rets(ctx.paths(f)):
        ctx.ob()
        v = p.val
        for _, l in loops_over(p, lambda s: strip_conv(s) == INTENTIONS):
            for a, b in l["iters"]:
                el = p.events[a][2]
                W = A(("i", el, const(-1)), "waiter")
                app = [c for c in p.calls if a < c.i < b and c.name in ("append", "add")]
                want = [c for c in app if c.args[0] in (W, A(W, "until"))]
                if not app and not (truthy(p, el) is False or truthy(p, W) is False or eqf(p, A(W, "until"), NONE) is True):
                    ctx.bad(f, "a waiting intention is left out", path=p, sub="all")
                if app and not want:
                    ctx.bad(f, "collects something else than deadlines", path=p, sub="all")
                if l["exhausted"] is None or cut(p, a, b):
                    ctx.bad(f, "not every waiting intention is looked at", path=p, sub="all")
        for _, l in loops_over(p, lambda s: s[0] == "new"):
            for a, b in l["iters"]:
                el = p.events[a][2]
                app = [c for c in p.calls if a < c.i < b and c.name in ("append", "add") and mentions(c.args[0], el)]
                isn = eqf(p, A(el, "until"), NONE)
                if not app and isn is not True and eqf(p, el, NONE) is not True:
                    ctx.bad(f, "a deadline is left out", path=p, sub="all")
                if app and isn is not False and eqf(p, el, NONE) is not False:
                    ctx.bad(f, "an intention without deadline counts", path=p, sub="none")
                added = added or bool(app)
        if v == NONE:
            none = True
        elif v[0] == "call" and v[1] == ("g", "builtins.min"):
            some = True
        elif v[0] == "call" and v[1] == ("g", "builtins.max"):
            ctx.bad(f, "the deadline is the latest one", path=p, sub="min")
        elif v[0] in ("i",) and any(t and t[0] == "call" and t[1] == ("g", "builtins.sorted") for t in subterms(v)):
            some = v[2] == const(0)
            if not some:
                ctx.bad(f, "the deadline is not the earliest one", path=p, sub="min")
        else:
            ctx.bad(f, "the deadline is %s" % show(v), path=p, sub="min")
    if not none:
        ctx.bad(f, "an agent without deadlines has one", sub="none")
    if not some:
        ctx.bad(f, "no deadline is ever found", sub="some")


def looked_at(p, v):
    """Something on the path was decided by v, or by a collection v was put into."""
    holds = [v] + [c.recv for c in p.calls if c.name in ("append", "add") and c.args == (v,)]
    seen = [x for pr, _, _ in p.facts() for x in pr[1:] if isinstance(x, tuple)] + \
        [l["src"] for l in loops(p).values() if l["src"] is not None]
    return any(t in holds for x in seen for t in subterms(x))


@rule("run-loop", "P08 P09", floor=6)
def run_loop(ctx):
    """Running steps every agent in every round, ends only if no agent has work and none has a deadline, and sleeps
    only then, until the earliest deadline."""
    for name, stepped in (("run", None), ("run_agent", AGENT)):
        f = ctx.prog.func(R_ + "Environment." + name)
        ends = 0
        agents = ("call", ("a", A(SELF, "agents"), "values"), (), 0)
        rounds = list(ctx.paths(f, unroll=2)) if stepped is None else []
        for p in rounds:
            # what the first of two agents reported counts as well
            if (p.kind == "return" or p.calls_to("sleep")) and any(not looked_at(p, c.res) for c in p.calls_to("step")):
                ctx.bad(f, "ends or sleeps without looking at what an agent reported", path=p, sub="end")
        for p in list(ctx.paths(f)) + ctx.iterations(f) + rounds:
            ctx.ob()
            steps = p.calls_to("step")
            work = [hit(p, c) for c in steps]
            if stepped is not None:
                if any(c.recv != stepped for c in steps):
                    ctx.bad(f, "steps another agent", path=p, sub="agent")
            else:
                for c in steps:
                    if not (c.recv[0] == "elem" and is_values(c.recv[1])):
                        ctx.bad(f, "steps something else than the agents of the environment", path=p, sub="agent")
                for _, l in loops_over(p, lambda s: is_values(strip_conv(s))):
                    for a, b in l["iters"]:
                        if not [c for c in p.calls if a < c.i < b and c.name in ("step", "shortest_deadline")]:
                            ctx.bad(f, "an agent is passed over", path=p, sub="all")
                        mine = [c for c in steps if a < c.i < b]
                        if len(mine) > 1 or any(m["start"] > a and inside(m, c.i) is not None for m in loops(p).values() for c in mine):
                            ctx.bad(f, "an agent gets more than its turn in a round", path=p, sub="turn")
                    # a round is complete: the first walk is never left early
                    if l["broke"] is not None and [c for c in steps if any(a < c.i < b for a, b in l["iters"])]:
                        ctx.bad(f, "a round stops before every agent was stepped", path=p, sub="all")
            sl = p.calls_to("sleep")
            if stepped is None and (sl or p.kind == "return" and True not in work):
                if not any(l["exhausted"] is not None and is_values(strip_conv(l["src"])) and in_order(l) and
                           all(any(a < c.i < b for c in steps) for a, b in l["iters"])
                           for _, l in loops_over(p, lambda s: True)):
                    ctx.bad(f, "a round does not step every agent", path=p, sub="all")
                all_deadlines(ctx, f, p, sl)
            for c in sl:
                if True in work:
                    ctx.bad(f, "sleeps although an agent has work", c.node, p, "sleep")
                t = c.args[0]
                dl = [x for x in subterms(t) if x and x[0] == "call" and (x[1][0] == "a" and x[1][2] == "shortest_deadline" or
                                                                          x[1] == ("g", "builtins.min"))]
                now = [x for x in subterms(t) if x and x[0] == "call" and x[1][0] == "a" and x[1][2] == "time"]
                sub = any(x and x[0] == "bin" and x[1] == "-" and any(y in dl for y in subterms(x[2])) and
                          any(y in now for y in subterms(x[3])) for x in subterms(t))
                if not sub:
                    ctx.bad(f, "does not sleep until the earliest deadline", c.node, p, "until")
                nonneg = t[0] == "call" and t[1] == ("g", "builtins.max") and const(0) in t[2] or \
                    any(pred[0] == "lt" and const(0) in pred[1:] for pred, _, _ in p.facts()) or \
                    any(pred[0] == "lt" and set(pred[1:]) & set(now) for pred, _, _ in p.facts())
                if not nonneg:
                    ctx.bad(f, "may sleep for a negative time", c.node, p, "negative")
            if p.kind == "return":
                ends += 1
                if True in work[-1:] and stepped is not None:
                    last = p.facts()
                    # the head test of a do-while style loop may carry an earlier result
                    if not any(hit(p, c) is False for c in steps):
                        ctx.bad(f, "ends although the agent has work", path=p, sub="end")
                if stepped is None and True in work:
                    ctx.bad(f, "ends although an agent has work", path=p, sub="end")
                if sl:
                    ctx.bad(f, "ends after sleeping without looking again", path=p, sub="end")
                if not p.calls_to("shortest_deadline") and steps and stepped is not None and True not in work:
                    ctx.bad(f, "ends without looking for a deadline", path=p, sub="deadline")
                if stepped is None and not loops_over(p, lambda s: is_values(strip_conv(s))):
                    ctx.bad(f, "ends without having looked at the agents", path=p, sub="end")
                for c in p.calls_to("shortest_deadline"):
                    if stepped is not None and eqf(p, c.res, NONE) is False and hit(p, c) is not False:
                        ctx.bad(f, "ends although the agent has a deadline", path=p, sub="deadline")
        if not ends:
            ctx.bad(f, "never ends", sub="end")
        if not any(p.calls_to("sleep") for p in ctx.iterations(f)):
            ctx.bad(f, "never waits for a deadline", sub="sleep")
    f = ctx.prog.func(AG + "run")
    for p in rets(ctx.paths(f)):
        ctx.ob()
        cs = p.calls_to("step")
        if not cs or hit(p, cs[-1]) is not False or any(c.recv != SELF for c in cs):
            ctx.bad(f, "ends although the agent has work", path=p, sub="end")


def in_order(l):
    """The loop walks its collection as it is."""
    import ast
    it = getattr(l["node"], "iter", None)
    while isinstance(it, ast.Call):
        if isinstance(it.func, ast.Name) and it.func.id in ("reversed", "sorted", "set", "frozenset"):
            return False
        it = it.args[0] if it.args else None
    if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice):
        return False
    return True


def all_deadlines(ctx, f, p, sl):
    """The deadlines of all agents are collected, the missing ones left out, before sleeping or ending."""
    walks = [l for _, l in loops_over(p, lambda s: is_values(strip_conv(s))) if l["exhausted"] is not None and
             all(any(a < c.i < b for c in p.calls_to("shortest_deadline")) for a, b in l["iters"])]
    ds = [c for c in p.calls_to("shortest_deadline")]
    if not walks:
        ctx.bad(f, "sleeps or ends without asking every agent for its deadline", path=p, sub="deadlines")
        return
    values = {c.res for c in ds}
    boxes = {}

    def put(v, a, b, el):
        app = [c for c in p.calls if a < c.i < b and c.name in ("append", "add") and c.args == (v,) and c.recv[0] == "new"]
        isn = eqf(p, v, NONE)
        for c in app:
            boxes[c.recv] = boxes.get(c.recv, True) and isn is False
        if isn is True and app:
            boxes[app[0].recv] = False
        if not app and isn is not True and not any(pr[0] == "lt" and v in pr[1:] for pr, _, _ in p.facts()) and \
                not any(pr[0] in ("is", "eq") and NONE in pr[1:] and pol for pr, pol, _ in p.facts()):
            ctx.bad(f, "the deadline of an agent is left out", path=p, sub="deadlines")

    for c in ds:
        sp = [(a, b) for l in walks for a, b in l["iters"] if a < c.i < b]
        if sp:
            put(c.res, sp[0][0], sp[0][1], c.res)
    for _, l in loops_over(p, lambda s: copied(s)[0] == "new" and copied(s) in boxes or any(t in boxes for t in subterms(s))):
        if copied(l["src"]) not in boxes or not in_order(l) or l["exhausted"] is None:
            ctx.bad(f, "the deadline of an agent is left out", path=p, sub="deadlines")
            continue
        for a, b in l["iters"]:
            put(p.events[a][2], a, b, None)
    for c in sl:
        for t in subterms(c.args[0]):
            if t and t[0] == "call" and t[1] == ("g", "builtins.min") and len(t[2]) == 1:
                if t[2][0] in boxes and boxes[t[2][0]] is False:
                    ctx.bad(f, "an agent without deadline is waited for", path=p, sub="none")
                if truthy(p, t[2][0]) is False:
                    ctx.bad(f, "sleeps although there is no deadline", path=p, sub="none")
    if not sl and p.kind == "return":
        for box, ok in boxes.items():
            if ok and truthy(p, box) is True:
                ctx.bad(f, "ends although an agent has a deadline", path=p, sub="deadline")


def is_values(s):
    s = copied(s)
    return s[0] == "call" and s[1][0] == "a" and s[1][2] == "values" and s[1][1] == A(SELF, "agents")


# the fields of intentions and waiters that can be without a value, and those set together with them
OPTIONAL = {"head_term": ("calling_term",), "calling_term": ("head_term",), "waiter": (), "event": (), "until": ()}


@rule("unset", "P07 P08 P09 P10", floor=40)
def unset(ctx):
    """The top of an intention is taken only where it is known to have one, and nothing is taken from a goal, waiter or
    awaited event of an intention before it is known that there is one."""
    funcs = [f for f in ctx.prog.all_functions if f.qual in KNOWN and f.parent is None and f.cls is not None and f.cls.qual in (R_ + "Agent", R_ + "Environment")]
    for f in funcs:
        if f.name in ("__init__",) or not any(n.attr in OPTIONAL or n.attr == "intentions" for n in walk_attrs(f.node)) and not calls_new(ctx, f):
            continue
        told = set()
        for p in ctx.paths(f):
            ls = [l["src"] for l in loops(p).values() if l["src"] is not None]
            for i, e in enumerate(p.events):
                if e[0] not in ("call", "fact", "setattr", "new", "setitem"):
                    continue
                for t in {t for x in e[1:-1] if isinstance(x, tuple) for t in subterms(x) if t}:
                    if t[0] == "i" and len(t) == 3 and t[2] == const(-1) and t[1][0] == "elem" and strip_conv(t[1][1])[:1] == ("a",) and \
                            strip_conv(t[1][1])[2] == "intentions":
                        need, what = (t[1],), "the top of an intention is taken although it may be empty"
                    elif t[0] == "a" and t[1][0] == "a" and t[1][2] in OPTIONAL and (t[1][2] not in ("event", "until") or t[1][1][0] == "a" and t[1][1][2] == "waiter"):
                        need = (t[1],) + tuple(A(t[1][1], n) for n in OPTIONAL[t[1][2]])
                        what = "the %s of an intention is used although it may have none" % t[1][2]
                    else:
                        continue
                    ctx.ob()
                    if not any(truthy(p, v, i) for v in need) and not any(typefact(p, v, LITERAL) for v in need) and (what, t) not in told:
                        told.add((what, t))
                        ctx.bad(f, what, e[-1], p, sub=what.split(" ")[1])


FIELDS = {"beliefs", "intentions", "agents", "plans", "rules"}
CHANGES = {"add_belief": {"beliefs"}, "remove_belief": {"beliefs"}, "add_plan": {"plans"}, "add_rule": {"rules"},
           "call": {"beliefs", "intentions"}, "step": {"beliefs", "intentions"}}


def walked_live(src):
    """The collection itself that a loop walks (no copy of it)."""
    while src is not None:
        if src[0] == "conv" and src[1] == "iter":
            src = src[2]
        elif src[0] == "call" and src[1][0] == "g" and src[1][1] in ("builtins.iter", "builtins.enumerate", "builtins.reversed", "builtins.filter") and src[2]:
            src = src[2][-1 if src[1][1].endswith("filter") else 0]
        elif is_call(src, "values", ()) or is_call(src, "items", ()) or is_call(src, "keys", ()) or is_call(src, "get"):
            src = src[1][1]
        else:
            return src
    return None


@rule("live-loops", "P14 P04 P08", floor=20)
def live_loops(ctx):
    """While a collection of an agent or environment is walked, nothing changes it: a query hands out its solutions
    from a copy of the beliefs, and a loop that changes what it walks ends at once."""
    for f in ctx.prog.all_functions:
        if f.parent is not None or f.module.name not in ("agentspeak.runtime", "agentspeak.stdlib", "agentspeak.ext_stdlib") or f.name == "repl":
            continue
        if f.qual not in KNOWN and f.cls is None and f.module.name == "agentspeak.runtime":
            continue
        if not any(n.attr in FIELDS for n in walk_attrs(f.node)) and not (f.qual in KNOWN and calls_new(ctx, f)):
            continue
        if f.name in ("__init__", "dump"):
            continue
        for p in ctx.paths(f):
            for lid, l in loops(p).items():
                s = walked_live(p.flow.raw.get(lid, l["src"]))
                if s is None:
                    continue
                base = s
                while base[0] == "i":
                    base = base[1]
                if base[0] == "elem":
                    continue
                if base[0] != "a" or base[2] not in FIELDS:
                    continue
                ctx.ob()
                for n, (a, b) in enumerate(l["iters"]):
                    if l["exhausted"] is None and n == len(l["iters"]) - 1:
                        continue
                    for i in range(a, b):
                        e = p.events[i]
                        if e[0] == "yield" and base[2] == "beliefs":
                            ctx.bad(f, "the belief base is walked while the program runs on and may change it", e[-1], p, "yield")
                            break
                        if e[0] == "call" and e[1][0] == "a":
                            if e[1][2] in MUTATORS and e[1][1] == s or e[1][2] in CHANGES and base[2] in CHANGES[e[1][2]] and base[1] == e[1][1]:
                                ctx.bad(f, "%s are changed while they are walked" % base[2], e[-1], p, "change")
                                break
